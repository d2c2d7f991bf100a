//! Programs made of recursive functions with several parameters, and of
//! calls, partial calls and closures between them.

use crate::ast::*;
use crate::choice::Src;
use crate::gen::Program;
use crate::stdlib;
use std::rc::Rc;

pub struct Shape {
    /// percent per expression
    pub holes: u64,
    /// nodes per function
    pub size: usize,
}

struct L<'a> {
    p: Prog,
    src: &'a mut Src,
    sh: Shape,
    types: Vec<Ty>,
    env: Vec<(B, Ty)>,
    count: usize,
    left: usize,
    /// what folds give for the parts of their argument
    recs: Vec<B>,
    /// only numbers, booleans and strings
    flat: bool,
}

/// A folded parameter that is still to be matched.
#[derive(Clone)]
struct Pending {
    b: B,
    data: Ty,
    r: Ty,
}

pub fn any(src: &mut Src, sh: Shape) -> Program {
    if src.pct(6) {
        wide(src)
    } else if src.pct(25) {
        sums(src, sh)
    } else {
        program(src, sh)
    }
}

pub fn program(src: &mut Src, sh: Shape) -> Program {
    let (p, st) = stdlib::base();
    let root = p.modules.len();
    let mut l = L { p, src, sh, types: Vec::new(), env: Vec::new(), count: 0, left: 0, recs: Vec::new(), flat: false };
    l.p.modules.push(Module { path: "root".into(), std: false, items: Vec::new() });
    let mut items = Vec::new();
    for i in 0..l.src.urange(1, 3) {
        items.push(Item::Type(l.data(i)));
    }
    for _ in 0..l.src.urange(1, 4) {
        let params: Vec<Ty> = {
            let n = l.src.weighted(&[5, 10, 15, 20, 20, 15, 10, 5]);
            let mut v: Vec<Ty> = (0..n).map(|_| l.param()).collect();
            let d = l.src.pick(&l.types).clone();
            let at = if l.src.pct(45) { 0 } else { l.src.us(n + 1) };
            v.insert(at, d);
            v
        };
        let ret = l.result();
        l.left = l.sh.size;
        let e = l.abs(&params, &ret, Vec::new());
        let b = l.name("f", &e.ty.clone());
        let export = l.src.pct(15);
        items.push(Item::Val(ValDecl { b, ann: true, export, e }));
        l.env.push((b, Ty::funcs(&params, ret)));
        // what it gives, called whole or piece by piece
        for _ in 0..l.src.urange(1, 2) {
            let mut f = l.var(b);
            let mut cut = if l.src.pct(30) { l.src.us(params.len() + 1) } else { usize::MAX };
            for i in 0..params.len() {
                if cut == i && i > 0 {
                    let t = f.ty.clone();
                    let g = l.name("g", &t);
                    items.push(Item::Val(ValDecl { b: g, ann: true, export: false, e: f }));
                    l.env.push((g, t));
                    f = l.var(g);
                    cut = usize::MAX;
                }
                let a = if l.src.pct(12) {
                    l.left = 12;
                    l.expr(&params[i])
                } else {
                    l.concrete(&params[i], 4)
                };
                f = l.app(f, a);
            }
            let t = f.ty.clone();
            let r = l.name("r", &t);
            items.push(Item::Val(ValDecl { b: r, ann: true, export: true, e: f }));
            if l.src.pct(30) {
                l.env.push((r, t));
            }
        }
    }
    l.p.modules[root].items = items;
    Program { p: l.p, st, root }
}

const WIDTHS: &[usize] = &[2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300];

/// Many of something: constructors, fields, parameters, local names,
/// captured names, items.
pub fn wide(src: &mut Src) -> Program {
    let (p, st) = stdlib::base();
    let root = p.modules.len();
    let n = *src.pick(WIDTHS);
    let kind = src.us(6);
    let mut l = L { p, src, sh: Shape { holes: 0, size: 4 }, types: Vec::new(), env: Vec::new(), count: 0, left: 0, recs: Vec::new(), flat: false };
    l.p.modules.push(Module { path: "root".into(), std: false, items: Vec::new() });
    let mut items = Vec::new();
    let val = |b: B, export: bool, e: E| Item::Val(ValDecl { b, ann: true, export, e });
    match kind {
        // constructors
        0 => {
            let b = l.p.fresh("T", BK::Type);
            let mut ctors = Vec::new();
            for k in 0..n {
                let name = format!("C{}", k);
                let cb = l.p.fresh(&name, BK::Ctor(b, k));
                let fields = match l.src.below(4) {
                    0 if k > 0 => vec![Field::Rec],
                    1 => vec![Field::Ty(Ty::Int)],
                    2 if k > 0 => vec![Field::Ty(Ty::Int), Field::Rec],
                    _ => vec![],
                };
                ctors.push(CtorDecl { b: cb, fields });
            }
            let d = TypeDecl { b, params: vec![], ctors, export: false, export_ctors: false };
            l.p.decls.insert(b, Rc::new(d.clone()));
            items.push(Item::Type(d));
            let t = Ty::Con(b, vec![]);
            for fold in [false, true] {
                let ft = Ty::func(t.clone(), Ty::Int);
                let f = l.name("f", &ft);
                let pb = if fold { l.name("n", &Ty::Folded(Rc::new(t.clone()), Rc::new(Ty::Int))) } else { l.name("n", &t) };
                let scrut = l.var(pb);
                let some: Vec<usize> = (0..5).map(|_| l.src.us(n)).collect();
                let body = l.match_with(scrut, &t, fold.then_some(&Ty::Int), &Ty::Int, &mut |l, i| {
                    let k = l.p.mk(Ty::Int, K::Int(i as u64 * 3 + 1));
                    let ints: Vec<B> = l.env.iter().filter(|(_, t)| *t == Ty::Int).map(|(b, _)| *b).collect();
                    match ints.last() {
                        Some(b) if !some.contains(&i) => {
                            let v = l.var(*b);
                            l.p.mk(Ty::Int, K::Bin(Op::Add, Box::new(k), Box::new(v)))
                        }
                        _ => k,
                    }
                });
                let e = l.p.mk(ft, K::Lam { p: pb, fold, body: Box::new(body) });
                items.push(val(f, false, e));
                for _ in 0..6 {
                    let depth = l.src.urange(1, 4);
                    let v = l.one_of(&t, depth);
                    let f = l.var(f);
                    let e = l.app(f, v);
                    let r = l.name("r", &Ty::Int);
                    items.push(val(r, true, e));
                    if !fold {
                        let e = l.one_of(&t, 2);
                        let r = l.name("v", &t);
                        items.push(val(r, true, e));
                    }
                }
            }
        }
        // fields
        1 => {
            let b = l.p.fresh("T", BK::Type);
            let cb = l.p.fresh("C", BK::Ctor(b, 0));
            let mut fields: Vec<Field> = Vec::new();
            for _ in 0..n {
                let t = l.src.pick(&[Ty::Int, Ty::Int, Ty::Int, Ty::Str, Ty::Bool]).clone();
                fields.push(Field::Ty(t));
            }
            let d = TypeDecl { b, params: vec![], ctors: vec![CtorDecl { b: cb, fields }], export: false, export_ctors: false };
            l.p.decls.insert(b, Rc::new(d.clone()));
            items.push(Item::Type(d));
            let t = Ty::Con(b, vec![]);
            let ft = Ty::func(t.clone(), Ty::Int);
            let f = l.name("f", &ft);
            let pb = l.name("n", &t);
            let scrut = l.var(pb);
            let body = l.match_with(scrut, &t, None, &Ty::Int, &mut |l, _| l.all());
            let e = l.p.mk(ft, K::Lam { p: pb, fold: false, body: Box::new(body) });
            items.push(val(f, false, e));
            for _ in 0..2 {
                let v = l.one_of(&t, 2);
                let w = l.name("w", &t);
                items.push(val(w, true, v));
                let f = l.var(f);
                let v = l.var(w);
                let e = l.app(f, v);
                let r = l.name("r", &Ty::Int);
                items.push(val(r, true, e));
            }
        }
        // parameters, called whole and in two parts
        2 => {
            let params: Vec<B> = (0..n).map(|_| l.name("p", &Ty::Int)).collect();
            let ft = Ty::funcs(&vec![Ty::Int; n], Ty::Int);
            l.env.extend(params.iter().map(|b| (*b, Ty::Int)));
            let mut e = l.all();
            l.env.clear();
            for b in params.into_iter().rev() {
                let t = Ty::func(Ty::Int, e.ty.clone());
                e = l.p.mk(t, K::Lam { p: b, fold: false, body: Box::new(e) });
            }
            let f = l.name("f", &ft);
            items.push(val(f, false, e));
            for _ in 0..3 {
                let cut = if l.src.pct(50) { l.src.us(n) } else { 0 };
                let mut e = l.var(f);
                for i in 0..n {
                    if i == cut && i > 0 {
                        let t = e.ty.clone();
                        let g = l.name("g", &t);
                        items.push(val(g, false, e));
                        e = l.var(g);
                    }
                    let a = l.concrete(&Ty::Int, 1);
                    e = l.app(e, a);
                }
                let r = l.name("r", &Ty::Int);
                items.push(val(r, true, e));
            }
        }
        // local names, with or without a function that captures them
        3 | 4 => {
            let n = n.min(200);
            let names: Vec<B> = (0..n).map(|_| l.name("v", &Ty::Int)).collect();
            let pb = l.name("p", &Ty::Int);
            l.env.push((pb, Ty::Int));
            let mut vals = Vec::new();
            for b in &names {
                let a = l.leaf(&Ty::Int);
                let k = l.concrete(&Ty::Int, 1);
                let op = *l.src.pick(&[Op::Add, Op::Sub, Op::Mul]);
                vals.push(l.p.mk(Ty::Int, K::Bin(op, Box::new(a), Box::new(k))));
                l.env.push((*b, Ty::Int));
            }
            let mut e = if kind == 4 {
                let q = l.name("q", &Ty::Int);
                l.env.push((q, Ty::Int));
                let body = l.all();
                let g = l.name("g", &Ty::func(Ty::Int, Ty::Int));
                let lam = l.p.mk(Ty::func(Ty::Int, Ty::Int), K::Lam { p: q, fold: false, body: Box::new(body) });
                let mut calls = Vec::new();
                for _ in 0..2 {
                    let f = l.var(g);
                    let a = l.concrete(&Ty::Int, 1);
                    calls.push(l.app(f, a));
                }
                let (x, y) = (calls.pop().unwrap(), calls.pop().unwrap());
                let sum = l.p.mk(Ty::Int, K::Bin(Op::Sub, Box::new(x), Box::new(y)));
                l.p.mk(Ty::Int, K::Let { b: g, ann: true, val: Box::new(lam), body: Box::new(sum) })
            } else {
                l.all()
            };
            l.env.clear();
            for (b, v) in names.into_iter().zip(vals).rev() {
                e = l.p.mk(Ty::Int, K::Let { b, ann: true, val: Box::new(v), body: Box::new(e) });
            }
            let ft = Ty::func(Ty::Int, Ty::Int);
            let f = l.name("f", &ft);
            let e = l.p.mk(ft, K::Lam { p: pb, fold: false, body: Box::new(e) });
            items.push(val(f, false, e));
            for _ in 0..3 {
                let f = l.var(f);
                let a = l.concrete(&Ty::Int, 1);
                let e = l.app(f, a);
                let r = l.name("r", &Ty::Int);
                items.push(val(r, true, e));
            }
        }
        // items
        _ => {
            for _ in 0..n {
                let t = l.src.pick(&[Ty::Int, Ty::Int, Ty::Str, Ty::Bool]).clone();
                let e = match l.src.below(3) {
                    0 => l.concrete(&t, 1),
                    1 if t == Ty::Int => {
                        let a = l.leaf(&t);
                        let b = l.leaf(&t);
                        l.p.mk(Ty::Int, K::Bin(Op::Add, Box::new(a), Box::new(b)))
                    }
                    _ => l.leaf(&t),
                };
                let b = l.name("i", &t);
                let export = l.src.pct(30);
                items.push(val(b, export, e));
                l.env.push((b, t));
            }
            let e = l.all();
            let r = l.name("r", &Ty::Int);
            items.push(val(r, true, e));
        }
    }
    l.p.modules[root].items = items;
    Program { p: l.p, st, root }
}

/// Functions over a few numbers, each called on several of them.
pub fn sums(src: &mut Src, sh: Shape) -> Program {
    let (p, st) = stdlib::base();
    let root = p.modules.len();
    let mut l = L { p, src, sh, types: Vec::new(), env: Vec::new(), count: 0, left: 0, recs: Vec::new(), flat: true };
    l.p.modules.push(Module { path: "root".into(), std: false, items: Vec::new() });
    let mut items = Vec::new();
    for _ in 0..l.src.urange(2, 5) {
        let n = l.src.urange(1, 3);
        let params: Vec<Ty> = (0..n).map(|_| l.param()).collect();
        let ret = l.result();
        l.left = l.sh.size;
        let e = l.abs(&params, &ret, Vec::new());
        let b = l.name("f", &e.ty.clone());
        let export = l.src.pct(15);
        items.push(Item::Val(ValDecl { b, ann: true, export, e }));
        for _ in 0..l.src.urange(3, 6) {
            let mut f = l.var(b);
            for t in &params {
                let a = l.concrete(t, 1);
                f = l.app(f, a);
            }
            let r = l.name("r", &ret);
            items.push(Item::Val(ValDecl { b: r, ann: true, export: true, e: f }));
        }
        l.env.push((b, Ty::funcs(&params, ret)));
    }
    l.p.modules[root].items = items;
    Program { p: l.p, st, root }
}

impl L<'_> {
    fn name(&mut self, base: &str, t: &Ty) -> B {
        self.count += 1;
        let n = format!("{}{}", base, self.count);
        self.p.fresh(&n, BK::Value(Scheme { vars: vec![], ty: t.clone() }))
    }
    fn var(&mut self, b: B) -> E {
        let t = self.p.scheme(b).ty;
        self.p.mk(t, K::Var(b))
    }
    fn app(&mut self, f: E, a: E) -> E {
        let Ty::Fn(_, r) = f.ty.clone() else { panic!("not a function") };
        self.p.mk((*r).clone(), K::App(Box::new(f), Box::new(a)))
    }

    // ------------------------------------------------------------ types

    fn data(&mut self, i: usize) -> TypeDecl {
        let b = self.p.fresh(["N", "Lst", "Tree"][i], BK::Type);
        let n = self.src.urange(2, 4);
        let mut ctors = Vec::new();
        for k in 0..n {
            self.count += 1;
            let name = format!("{}{}", ["Z", "S", "T", "U"][k], self.count);
            let cb = self.p.fresh(&name, BK::Ctor(b, k));
            let nf = self.src.weighted(&[20, 40, 25, 15]);
            let mut fields: Vec<Field> = Vec::new();
            for _ in 0..nf {
                fields.push(match self.src.weighted(&[60, 12, 8, 20]) {
                    0 => Field::Ty(Ty::Int),
                    1 => Field::Ty(Ty::Str),
                    2 => Field::Ty(Ty::func(Ty::Int, Ty::Int)),
                    _ if self.types.is_empty() => Field::Ty(Ty::Bool),
                    _ => Field::Ty(self.src.pick(&self.types).clone()),
                });
            }
            if k > 0 {
                for _ in 0..self.src.weighted(&[15, 65, 20]) {
                    let at = self.src.us(fields.len() + 1);
                    fields.insert(at, Field::Rec);
                }
            }
            ctors.push(CtorDecl { b: cb, fields });
        }
        let d = TypeDecl { b, params: vec![], ctors, export: false, export_ctors: false };
        self.p.decls.insert(b, Rc::new(d.clone()));
        self.types.push(Ty::Con(b, vec![]));
        d
    }
    fn param(&mut self) -> Ty {
        if self.flat {
            return self.src.pick(&[Ty::Int, Ty::Int, Ty::Int, Ty::Int, Ty::Bool, Ty::Str]).clone();
        }
        match self.src.weighted(&[60, 8, 8, 14, 10]) {
            0 => Ty::Int,
            1 => Ty::Bool,
            2 => Ty::Str,
            3 => self.src.pick(&self.types).clone(),
            _ => {
                let n = self.src.urange(1, 2);
                Ty::funcs(&vec![Ty::Int; n], Ty::Int)
            }
        }
    }
    fn result(&mut self) -> Ty {
        if self.flat {
            return self.src.pick(&[Ty::Int, Ty::Int, Ty::Int, Ty::Int, Ty::Bool, Ty::Str]).clone();
        }
        match self.src.weighted(&[65, 10, 10, 15]) {
            0 => Ty::Int,
            1 => Ty::Bool,
            2 => Ty::Str,
            _ => self.src.pick(&self.types).clone(),
        }
    }

    // ------------------------------------------------------ expressions

    /// A value without calls.
    fn concrete(&mut self, t: &Ty, depth: usize) -> E {
        match t {
            Ty::Int => {
                let v = match (self.flat, self.src.below(100)) {
                    (true, 0..=54) => *self.src.pick(&[0, 0, 0, 0, 1, 1, 2, 3, 7, 10, 255, 256, 1 << 31, 1 << 32, 1 << 62, 1 << 63, (1 << 63) - 1, u64::MAX, u64::MAX - 1]),
                    (true, 55..=79) | (false, 0..=84) => self.src.below(9),
                    _ => self.src.int(),
                };
                self.p.mk(Ty::Int, K::Int(v))
            }
            Ty::Bool => {
                let v = self.src.pct(50);
                self.p.mk(Ty::Bool, K::Bool(v))
            }
            Ty::Str => {
                let s = *self.src.pick(&["", "a", "bc", "xyz"]);
                self.p.mk(Ty::Str, K::Str(s.into()))
            }
            Ty::Con(c, _) => {
                let d = self.p.decls[c].clone();
                let k = if depth == 0 { 0 } else { self.src.weighted(&[2, 5, 5, 5][..d.ctors.len()]) };
                let mut e = {
                    let ty = self.p.ctor_scheme(*c, k).ty;
                    self.p.mk(ty, K::Var(d.ctors[k].b))
                };
                for f in &d.ctors[k].fields {
                    let a = match f {
                        Field::Rec => {
                            let n = depth - 1;
                            self.concrete(t, n)
                        }
                        Field::Ty(t) => self.concrete(t, depth.saturating_sub(2)),
                    };
                    e = self.app(e, a);
                }
                e
            }
            Ty::Fn(a, r) => {
                let b = self.name("a", a);
                let body = if **a == **r && self.src.pct(60) {
                    let x = self.var(b);
                    let k = self.concrete(a, 1);
                    match **a {
                        Ty::Int => self.p.mk(Ty::Int, K::Bin(Op::Add, Box::new(x), Box::new(k))),
                        _ => x,
                    }
                } else {
                    self.concrete(r, depth)
                };
                self.p.mk(t.clone(), K::Lam { p: b, fold: false, body: Box::new(body) })
            }
            _ => panic!("no value of {:?}", t),
        }
    }

    /// Lambdas (and folds) over the parameters, with the matches in between.
    fn abs(&mut self, params: &[Ty], ret: &Ty, mut pending: Vec<Pending>) -> E {
        let keep = self.env.len();
        if !pending.is_empty() && (params.is_empty() || self.src.pct(35)) {
            let at = self.src.us(pending.len());
            let pe = pending.remove(at);
            if params.is_empty() && self.src.pct(15) {
                // left alone, or matched further inside
                return self.abs(params, ret, pending);
            }
            let scrut = self.var(pe.b);
            let t = Ty::funcs(params, ret.clone());
            return self.match_with(scrut, &pe.data, Some(&pe.r), &t, &mut |l, _| l.abs(params, ret, pending.clone()));
        }
        let Some((first, rest)) = params.split_first() else {
            if self.src.pct(40) {
                if let Some(e) = self.again(ret) {
                    return e;
                }
            }
            return self.expr(ret);
        };
        let t = Ty::funcs(params, ret.clone());
        let r = Ty::funcs(rest, ret.clone());
        let fold = matches!(first, Ty::Con(..)) && self.src.pct(75);
        let b = if fold {
            let b = self.name("n", &Ty::Folded(Rc::new(first.clone()), Rc::new(r.clone())));
            pending.push(Pending { b, data: first.clone(), r: r.clone() });
            b
        } else {
            let b = self.name("p", first);
            self.env.push((b, first.clone()));
            b
        };
        let body = self.abs(rest, ret, pending);
        self.env.truncate(keep);
        self.p.mk(t, K::Lam { p: b, fold, body: Box::new(body) })
    }

    fn match_with(&mut self, scrut: E, data: &Ty, r: Option<&Ty>, t: &Ty, body: &mut dyn FnMut(&mut Self, usize) -> E) -> E {
        let Ty::Con(c, _) = data else { panic!("not a data type") };
        let d = self.p.decls[c].clone();
        let keep = self.env.len();
        let mut arms = Vec::new();
        let mut order: Vec<usize> = (0..d.ctors.len()).collect();
        if self.src.pct(30) {
            self.src.shuffle(&mut order);
        }
        for (i, k) in order.into_iter().enumerate() {
            let mut vars = Vec::new();
            for f in &d.ctors[k].fields {
                let ft = match (f, r) {
                    (Field::Rec, Some(r)) => r.clone(),
                    (Field::Rec, None) => data.clone(),
                    (Field::Ty(t), _) => t.clone(),
                };
                let b = self.name(if matches!((f, r), (Field::Rec, Some(_))) { "r" } else { "x" }, &ft);
                vars.push(b);
                if let (Field::Rec, Some(_)) = (f, r) {
                    self.recs.push(b);
                }
                self.env.push((b, ft));
            }
            let e = body(self, i);
            self.env.truncate(keep);
            arms.push(Arm { ctor: d.ctors[k].b, vars, body: e });
        }
        self.p.mk(t.clone(), K::Match { scrut: Box::new(scrut), arms })
    }

    /// Every number and string in sight, as one number.
    fn all(&mut self) -> E {
        let env = self.env.clone();
        let mut e = self.p.mk(Ty::Int, K::Int(1));
        for (b, t) in env {
            let v = self.var(b);
            let v = match t {
                Ty::Int => v,
                Ty::Bool => {
                    let x = self.p.mk(Ty::Int, K::Int(5));
                    let y = self.p.mk(Ty::Int, K::Int(3));
                    self.p.mk(Ty::Int, K::If(Box::new(v), Box::new(x), Box::new(y)))
                }
                _ => continue,
            };
            // keeps the nesting to the left
            let op = *self.src.pick(&[Op::Add, Op::Sub, Op::Add, Op::Mul]);
            let v = if op == Op::Mul {
                let k = self.p.mk(Ty::Int, K::Int(3));
                self.p.mk(Ty::Int, K::Bin(Op::Add, Box::new(v), Box::new(k)))
            } else {
                v
            };
            e = self.p.mk(Ty::Int, K::Bin(op, Box::new(e), Box::new(v)));
        }
        e
    }

    /// Any value of the type, of at most the given depth.
    fn one_of(&mut self, t: &Ty, depth: usize) -> E {
        let Ty::Con(c, _) = t else { return self.concrete(t, 1) };
        let d = self.p.decls[c].clone();
        let k = if depth == 0 { 0 } else { self.src.us(d.ctors.len()) };
        let ty = self.p.ctor_scheme(*c, k).ty;
        let mut e = self.p.mk(ty, K::Var(d.ctors[k].b));
        for f in &d.ctors[k].fields {
            let a = match f {
                Field::Rec => self.one_of(t, depth.saturating_sub(1)),
                Field::Ty(t) => self.concrete(t, 1),
            };
            e = self.app(e, a);
        }
        e
    }

    /// The next round of a loop, with its parameters moved about; or, where
    /// there is no next round, all of them together.
    fn again(&mut self, ret: &Ty) -> Option<E> {
        let rs: Vec<B> = self.env.iter().map(|(b, _)| *b).filter(|b| self.recs.contains(b)).collect();
        let ints: Vec<B> = self.env.iter().filter(|(_, t)| *t == Ty::Int).map(|(b, _)| *b).collect();
        if rs.is_empty() {
            if *ret != Ty::Int || ints.is_empty() {
                return None;
            }
            let mut e = self.p.mk(Ty::Int, K::Int(1));
            for b in ints.into_iter().rev().take(6) {
                let k = self.p.mk(Ty::Int, K::Int(7));
                let v = self.var(b);
                e = self.p.mk(Ty::Int, K::Bin(Op::Mul, Box::new(e), Box::new(k)));
                e = self.p.mk(Ty::Int, K::Bin(Op::Add, Box::new(e), Box::new(v)));
            }
            return Some(e);
        }
        let mut f = {
            let b = *self.src.pick(&rs);
            self.var(b)
        };
        let mut n = 0;
        while f.ty != *ret {
            let Ty::Fn(a, _) = f.ty.clone() else { return None };
            let e = match self.src.weighted(&[55, 30, 15]) {
                0 => self.leaf(&a),
                1 if *a == Ty::Int => {
                    let op = *self.src.pick(&[Op::Add, Op::Sub]);
                    let x = self.leaf(&a);
                    let y = self.leaf(&a);
                    self.p.mk(Ty::Int, K::Bin(op, Box::new(x), Box::new(y)))
                }
                _ => self.expr(&a),
            };
            f = self.app(f, e);
            n += 1;
        }
        if n == 0 {
            return None;
        }
        Some(f)
    }

    fn leaf(&mut self, t: &Ty) -> E {
        let vs: Vec<B> = self.env.iter().filter(|(_, u)| u == t).map(|(b, _)| *b).collect();
        if !vs.is_empty() && self.src.pct(75) {
            // the inner ones more often
            let k = if self.src.pct(60) { vs.len() - 1 - self.src.us(vs.len().min(4)) } else { self.src.us(vs.len()) };
            return self.var(vs[k]);
        }
        self.concrete(t, 1)
    }

    /// A call of something in sight that ends in `t`.
    fn call(&mut self, t: &Ty) -> Option<E> {
        let mut cs: Vec<(B, usize)> = Vec::new();
        for (b, u) in &self.env {
            let mut u = u;
            let mut n = 0;
            loop {
                if n > 0 && u == t {
                    cs.push((*b, n));
                }
                match u {
                    Ty::Fn(_, r) => {
                        u = r;
                        n += 1;
                    }
                    _ => break,
                }
            }
        }
        if cs.is_empty() {
            return None;
        }
        let k = if self.src.pct(65) { cs.len() - 1 - self.src.us(cs.len().min(3)) } else { self.src.us(cs.len()) };
        let (b, n) = cs[k];
        let mut f = self.var(b);
        for _ in 0..n {
            let Ty::Fn(a, _) = f.ty.clone() else { unreachable!() };
            let a = self.expr(&a);
            f = self.app(f, a);
        }
        Some(f)
    }

    fn local_fn(&mut self) -> Ty {
        let n = self.src.urange(1, 4);
        let ps: Vec<Ty> = (0..n).map(|_| self.param()).collect();
        let r = self.result();
        Ty::funcs(&ps, r)
    }

    fn expr(&mut self, t: &Ty) -> E {
        if self.left == 0 {
            return self.leaf(t);
        }
        self.left -= 1;
        if self.src.pct(self.sh.holes) {
            self.count += 1;
            let n = format!("h{}", self.count);
            return self.p.mk(t.clone(), K::Hole(n));
        }
        match self.src.weighted(if self.flat { &[8, 5, 60, 12, 15, 0] } else { &[22, 38, 14, 8, 10, 8] }) {
            1 => {
                if let Some(e) = self.call(t) {
                    return e;
                }
            }
            2 => match t {
                Ty::Int => {
                    let op = *self.src.pick(&[Op::Add, Op::Add, Op::Sub, Op::Sub, Op::Mul, Op::Div, Op::Mod]);
                    let a = self.expr(t);
                    let b = self.expr(t);
                    return self.p.mk(Ty::Int, K::Bin(op, Box::new(a), Box::new(b)));
                }
                Ty::Bool => {
                    let op = *self.src.pick(&CMP_OPS);
                    let a = self.expr(&Ty::Int);
                    let b = self.expr(&Ty::Int);
                    return self.p.mk(Ty::Bool, K::Bin(op, Box::new(a), Box::new(b)));
                }
                Ty::Con(c, _) => {
                    let d = self.p.decls[c].clone();
                    let k = self.src.us(d.ctors.len());
                    let ty = self.p.ctor_scheme(*c, k).ty;
                    let mut e = self.p.mk(ty, K::Var(d.ctors[k].b));
                    for f in &d.ctors[k].fields {
                        let a = match f {
                            Field::Rec => self.expr(t),
                            Field::Ty(t) => self.expr(t),
                        };
                        e = self.app(e, a);
                    }
                    return e;
                }
                _ => {}
            },
            3 => {
                let c = self.expr(&Ty::Bool);
                let a = self.expr(t);
                let b = self.expr(t);
                return self.p.mk(t.clone(), K::If(Box::new(c), Box::new(a), Box::new(b)));
            }
            4 => {
                let u = match self.src.weighted(&[35, 45, 20]) {
                    0 => Ty::Int,
                    1 if !self.flat => self.local_fn(),
                    _ => self.result(),
                };
                let val = self.expr(&u);
                let b = self.name("v", &u);
                let keep = self.env.len();
                self.env.push((b, u));
                let body = self.expr(t);
                self.env.truncate(keep);
                return self.p.mk(t.clone(), K::Let { b, ann: true, val: Box::new(val), body: Box::new(body) });
            }
            5 => {
                let vs: Vec<(B, Ty)> = self.env.iter().filter(|(_, u)| matches!(u, Ty::Con(..))).cloned().collect();
                if !vs.is_empty() {
                    let (b, u) = self.src.pick(&vs).clone();
                    let scrut = self.var(b);
                    return self.match_with(scrut, &u, None, t, &mut |l, _| l.expr(t));
                }
            }
            _ => {}
        }
        if let Ty::Fn(..) = t {
            if self.src.pct(60) {
                let mut ps = Vec::new();
                let mut u = t;
                while let Ty::Fn(a, r) = u {
                    ps.push((**a).clone());
                    u = r;
                    if self.src.pct(20) {
                        break;
                    }
                }
                let u = u.clone();
                return self.abs(&ps, &u, Vec::new());
            }
        }
        self.leaf(t)
    }
}
