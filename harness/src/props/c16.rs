//! The standard library against its specification.

use crate::ast::*;
use crate::choice::Src;
use crate::engine::{generated, Case, Prop};
use crate::eval::{Eval, Stop};
use crate::gen::{Cfg, Gen, Program};
use crate::print::{Layout, Style};
use crate::stdlib::{count_param, STD};
use crate::sut::{fmt_diags};

pub const C16: Prop = Prop {
    id: "C16",
    quick: 3200,
    thorough: 200000,
    rule: "a program calling four or more functions of the standard library on generated arguments, at least one of them not the empty or zero value of its type",
    assumptions: &[
        "the order of elements a comparison does not tell apart is not specified for sortBy, minBy and maxBy; only results that do not depend on it are compared",
        "range is called with start <= stop, counts of repeated actions stay small",
    ],
    f: c16,
};

struct C<'a> {
    g: Gen<'a>,
    names: Vec<(usize, usize, B)>,
    big: usize,
    /// calls built here rather than by the expression generator
    calls: Vec<u32>,
}

impl C<'_> {
    fn f(&mut self, module: &str, name: &str) -> B {
        let (m, i) = STD.iter().enumerate().find_map(|(m, (p, fs))| if *p == module { fs.iter().position(|(n, _)| *n == name).map(|i| (m, i)) } else { None }).unwrap();
        self.names.iter().find(|x| x.0 == m && x.1 == i).unwrap().2
    }
    fn int(&mut self, v: u64) -> E {
        self.g.p.mk(Ty::Int, K::Int(v))
    }
    fn app(&mut self, f: E, a: E) -> E {
        let Ty::Fn(_, r) = f.ty.clone() else { panic!("not a function") };
        self.g.p.mk((*r).clone(), K::App(Box::new(f), Box::new(a)))
    }
    fn call(&mut self, b: B, inst: &[(B, Ty)], args: Vec<E>) -> E {
        let t = self.g.p.scheme(b).ty.subst(inst);
        let mut e = self.g.p.mk(t, K::Var(b));
        self.calls.push(e.id);
        for a in args {
            e = self.app(e, a);
        }
        e
    }
    fn inst1(&self, b: B, t: &Ty) -> Vec<(B, Ty)> {
        self.g.p.scheme(b).vars.iter().map(|v| (*v, t.clone())).collect()
    }
    fn lst(&self, t: &Ty) -> Ty {
        Ty::Con(self.g.st.list, vec![t.clone()])
    }
    fn elem(&mut self, depth: usize) -> Ty {
        let st = self.g.st;
        match self.g.src.weighted(&[40, 14, 18, 8, 8, 8]) {
            1 => Ty::Bool,
            2 => Ty::Str,
            3 if depth > 0 => Ty::Con(st.option, vec![self.elem(depth - 1)]),
            4 if depth > 0 => Ty::Con(st.list, vec![self.elem(depth - 1)]),
            5 if depth > 0 => Ty::Con(st.result, vec![self.elem(depth - 1), self.elem(depth - 1)]),
            _ => Ty::Int,
        }
    }
    fn ctor(&mut self, c: B, t: &Ty, args: Vec<E>) -> E {
        let mut ft = t.clone();
        for a in args.iter().rev() {
            ft = Ty::func(a.ty.clone(), ft);
        }
        let mut e = self.g.p.mk(ft, K::Var(c));
        for a in args {
            e = self.app(e, a);
        }
        e
    }
    fn text(&mut self) -> E {
        let n = self.g.src.weighted(&[10, 50, 25, 15]);
        let mut parts: Vec<E> = Vec::new();
        for _ in 0..n.max(1) {
            if n > 0 && self.g.src.pct(25) {
                let c = *self.g.src.pick(&[10u64, 13, 32, 0, 65, 128, 195, 255, 256, 48]);
                let c = self.int(c);
                let b = self.f("std/string", "fromChar");
                parts.push(self.call(b, &[], vec![c]));
                if self.g.src.pct(20) {
                    let b = self.f("std/string", "newline");
                    parts.push(self.call(b, &[], vec![]));
                }
            } else {
                let k = if n == 0 { 0 } else { self.g.src.weighted(&[10, 20, 20, 20, 15, 15]) };
                let mut s = String::new();
                for _ in 0..k {
                    s.push_str(self.g.src.pick(&["a", " ", "b", "0", "7", "12", "1844674407370955161", "  ", ",", "é", "😀", "x", ":", "/", "9"]));
                }
                parts.push(self.g.p.mk(Ty::Str, K::Str(s.as_str().into())));
            }
        }
        let mut e = parts.remove(0);
        for p in parts {
            let b = self.f("std/string", "concat");
            e = self.call(b, &[], vec![e, p]);
        }
        e
    }
    /// An argument of a type; `size` bounds list lengths.
    fn arg(&mut self, t: &Ty, size: usize) -> Option<E> {
        let st = self.g.st;
        Some(match t {
            Ty::Int => {
                let v = if self.g.src.pct(60) { self.g.src.below(12) } else { self.g.src.int() };
                if v > 0 {
                    self.big += 1;
                }
                self.int(v)
            }
            Ty::Bool => {
                let v = self.g.src.pct(50);
                self.g.p.mk(Ty::Bool, K::Bool(v))
            }
            Ty::Str => self.text(),
            Ty::Con(c, a) if *c == st.list => {
                let n = if size == 0 { 0 } else { self.g.src.us(size + 1) };
                if n > 0 {
                    self.big += 1;
                }
                let mut e = self.ctor(st.nil, t, vec![]);
                for _ in 0..n {
                    let x = self.arg(&a[0], size.min(4))?;
                    e = self.ctor(st.cons, t, vec![x, e]);
                }
                e
            }
            Ty::Con(c, a) if *c == st.option => {
                if self.g.src.pct(70) {
                    let x = self.arg(&a[0], size)?;
                    self.ctor(st.some, t, vec![x])
                } else {
                    self.ctor(st.none, t, vec![])
                }
            }
            Ty::Con(c, a) if *c == st.result => {
                if self.g.src.pct(70) {
                    let x = self.arg(&a[0], size)?;
                    self.ctor(st.ok, t, vec![x])
                } else {
                    let x = self.arg(&a[1], size)?;
                    self.ctor(st.err, t, vec![x])
                }
            }
            Ty::Con(c, a) if *c == st.array => {
                let a = a[0].clone();
                self.array(&a, 3)?
            }
            Ty::Con(c, _) if *c == st.parse_err => self.ctor(st.parse_err_c, t, vec![]),
            Ty::Fn(..) => {
                let fuel = self.g.src.urange(1, 10);
                self.g.expr(t, fuel)?
            }
            _ => return None,
        })
    }
    fn index(&mut self) -> E {
        let v = match self.g.src.weighted(&[40, 30, 15, 15]) {
            0 => self.g.src.below(6),
            1 => self.g.src.below(24),
            2 => self.g.src.below(80),
            _ => self.g.src.int(),
        };
        self.int(v)
    }
    fn size(&mut self) -> u64 {
        match self.g.src.weighted(&[30, 40, 20, 8, 2]) {
            0 => self.g.src.below(6),
            1 => self.g.src.below(20),
            2 => self.g.src.below(70),
            3 => *self.g.src.pick(&[4, 5, 15, 16, 17, 63, 64, 65]),
            _ => *self.g.src.pick(&[255, 256, 257, 300]),
        }
    }
    /// A sequence of operations on an array.
    fn array(&mut self, t: &Ty, ops: usize) -> Option<E> {
        self.big += 1;
        let n = self.g.src.us(ops + 1);
        let mut e = match self.g.src.weighted(&[50, 40, 10]) {
            0 => {
                let n = self.size();
                let n = self.int(n);
                let v = self.arg(t, 2)?;
                let b = self.f("std/array", "new");
                let i = self.inst1(b, t);
                self.call(b, &i, vec![n, v])
            }
            1 => {
                let l = self.lst(t);
                let size = if *t == Ty::Int { self.size().min(40) as usize } else { 6 };
                let l = self.arg(&l, size)?;
                let b = self.f("std/array", "fromList");
                let i = self.inst1(b, t);
                self.call(b, &i, vec![l])
            }
            _ => {
                let b = self.f("std/array", "empty");
                let i = self.inst1(b, t);
                self.call(b, &i, vec![])
            }
        };
        for _ in 0..n {
            let (name, mut args) = match self.g.src.weighted(&[50, 30, 20]) {
                0 => ("set", vec![self.index(), self.arg(t, 2)?]),
                1 => ("mapIdx", vec![self.index(), self.arg(&Ty::func(t.clone(), t.clone()), 2)?]),
                _ => ("truncate", vec![self.index()]),
            };
            args.push(e);
            let b = self.f("std/array", name);
            let i = self.inst1(b, t);
            e = self.call(b, &i, args);
        }
        Some(e)
    }
    fn lam2(&mut self, t: &Ty, body: impl FnOnce(&mut Self, E, E) -> E) -> E {
        let x = self.g.p.fresh("x", BK::Value(Scheme { vars: vec![], ty: t.clone() }));
        let y = self.g.p.fresh("y", BK::Value(Scheme { vars: vec![], ty: t.clone() }));
        let (ex, ey) = (self.g.p.mk(t.clone(), K::Var(x)), self.g.p.mk(t.clone(), K::Var(y)));
        let b = body(self, ex, ey);
        let bt = b.ty.clone();
        let inner = self.g.p.mk(Ty::func(t.clone(), bt.clone()), K::Lam { p: y, fold: false, body: Box::new(b) });
        self.g.p.mk(Ty::func(t.clone(), Ty::func(t.clone(), bt)), K::Lam { p: x, fold: false, body: Box::new(inner) })
    }
    fn bin(&mut self, op: Op, t: Ty, a: E, b: E) -> E {
        self.g.p.mk(t, K::Bin(op, Box::new(a), Box::new(b)))
    }
    /// A key whose order the comparison uses, and whether it tells all values apart.
    fn key(&mut self, t: &Ty, kind: usize, m: u64, x: E) -> E {
        match (t, kind) {
            (Ty::Int, 0) => x,
            (Ty::Int, 1) => {
                let k = self.int(m);
                self.bin(Op::Add, Ty::Int, x, k)
            }
            (Ty::Int, _) => {
                let k = self.int(m % 9 + 2);
                self.bin(Op::Mod, Ty::Int, x, k)
            }
            _ => {
                let b = self.f("std/string", "length");
                self.call(b, &[], vec![x])
            }
        }
    }
    /// sortBy, maxBy or minBy.
    fn order(&mut self, name: &str) -> Option<E> {
        let t = if self.g.src.pct(70) { Ty::Int } else { Ty::Str };
        let kind = if t == Ty::Int { self.g.src.weighted(&[30, 30, 40]) } else { 3 };
        let m = self.g.src.int();
        let down = self.g.src.pct(40);
        let less = self.lam2(&t, |c, x, y| {
            let (a, b) = (c.key(&c_ty(&x), kind, m, x.clone()), c.key(&c_ty(&y), kind, m, y.clone()));
            c.bin(if down { Op::Gt } else { Op::Lt }, Ty::Bool, a, b)
        });
        let l = self.lst(&t);
        let size = if self.g.src.pct(15) { 30 } else { 9 };
        let mut list = self.arg(&l, size)?;
        if self.g.src.pct(20) {
            let b = self.f("std/list", "concat");
            let i = self.inst1(b, &t);
            let again = list.clone();
            let again = self.fresh_ids(again);
            list = self.call(b, &i, vec![list, again]);
        }
        let b = self.f("std/list", name);
        let i = self.inst1(b, &t);
        let e = self.call(b, &i, vec![less, list]);
        if kind < 2 {
            return Some(e);
        }
        // elements may compare equal: look at what does not depend on their order
        if name == "sortBy" && t == Ty::Int && self.g.src.pct(50) {
            let less = self.lam2(&t, |c, x, y| c.bin(Op::Lt, Ty::Bool, x, y));
            return Some(self.call(b, &i, vec![less, e]));
        }
        let x = self.g.p.fresh("x", BK::Value(Scheme { vars: vec![], ty: t.clone() }));
        let ex = self.g.p.mk(t.clone(), K::Var(x));
        let k = self.key(&t, kind, m, ex);
        let f = self.g.p.mk(Ty::func(t.clone(), Ty::Int), K::Lam { p: x, fold: false, body: Box::new(k) });
        let map = self.f(if name == "sortBy" { "std/list" } else { "std/option" }, "map");
        let vs = self.g.p.scheme(map).vars.clone();
        let names: Vec<String> = vs.iter().map(|v| self.g.p.name(*v).to_owned()).collect();
        let inst: Vec<(B, Ty)> = vs.iter().zip(&names).map(|(v, n)| (*v, if n == "a" { t.clone() } else { Ty::Int })).collect();
        Some(self.call(map, &inst, vec![f, e]))
    }
    fn fresh_ids(&mut self, mut e: E) -> E {
        let p = &mut self.g.p;
        walk_mut(&mut e, &mut |x| {
            x.id = p.next_id;
            p.next_id += 1;
        });
        e
    }
    fn std_call(&mut self, mi: usize, fi: usize) -> Option<E> {
        let (module, funs) = STD[mi];
        let (name, _) = funs[fi];
        if matches!((module, name), ("std/list", "sortBy" | "minBy" | "maxBy")) {
            return self.order(name);
        }
        let b = self.f(module, name);
        let s = self.g.p.scheme(b).clone();
        let inst: Vec<(B, Ty)> = s.vars.iter().map(|v| (*v, self.elem(1))).collect();
        let mut cur = s.ty.subst(&inst);
        let mut args = Vec::new();
        let mut lo = 0;
        while let Ty::Fn(a, r) = cur {
            let i = args.len();
            let e = if module == "std/list" && name == "range" {
                let d = if i == 0 && self.g.src.pct(15) { self.g.src.int().min(u64::MAX - 20) } else { self.g.src.below(14) };
                lo += d;
                self.int(lo)
            } else if module == "std/array" && name == "new" && i == 0 {
                let v = self.size();
                self.int(v)
            } else if count_param(module, name, i) {
                let v = if self.g.src.pct(85) { self.g.src.below(8) } else { self.g.src.below(30) };
                if v > 0 {
                    self.big += 1;
                }
                self.int(v)
            } else if module == "std/array" && *a == Ty::Int {
                self.index()
            } else if module == "std/string" && name == "split" && i == 0 {
                let v = *self.g.src.pick(&[32u64, 44, 48, 97, 10, 0, 255, 256]);
                self.int(v)
            } else if module == "std/string" && *a == Ty::Int {
                self.index()
            } else if matches!(name, "gcd" | "lcm") && self.g.src.pct(50) {
                let k = self.g.src.us(94);
                let (mut x, mut y) = (1u64, 1u64);
                for _ in 0..k.min(91) {
                    (x, y) = (y, x.wrapping_add(y));
                }
                let m = self.g.src.range(1, 4);
                self.int(x.wrapping_mul(m))
            } else if matches!((module, name), ("std/string", "startsWith" | "equal")) && i == 1 && self.g.src.pct(60) {
                // something that starts like the other argument
                let again: E = E::clone(&args[0]);
                let again = self.fresh_ids(again);
                if self.g.src.pct(50) {
                    let t = self.text();
                    let c = self.f("std/string", "concat");
                    self.call(c, &[], vec![again, t])
                } else {
                    again
                }
            } else if name == "parse" && self.g.src.pct(60) {
                let v = self.g.src.int();
                let s = match self.g.src.weighted(&[60, 20, 10, 10]) {
                    0 => v.to_string(),
                    1 => format!("00{}", v),
                    2 => format!("{}7", v),
                    _ => format!("{}{}", v, self.g.src.pick(&[" ", "a", "/", ":", "-"])),
                };
                self.g.p.mk(Ty::Str, K::Str(s.as_str().into()))
            } else {
                {
                    let size = if self.g.src.pct(90) { 6 } else { 25 };
                    self.arg(&a, size)?
                }
            };
            args.push(e);
            cur = (*r).clone();
        }
        let mut e = self.call(b, &inst, args);
        if let Ty::Con(c, a) = e.ty.clone() {
            if c == self.g.st.array {
                let a = a[0].clone();
                let tl = self.f("std/array", "toList");
                let i = self.inst1(tl, &a);
                e = self.call(tl, &i, vec![e]);
            }
        }
        Some(e)
    }
}

/// Leaves out imports nothing needs.
fn prune(pg: &mut Program) {
    let mut need = vec![false; STD.len()];
    let p = &pg.p;
    let mark_ty = |t: &Ty, need: &mut Vec<bool>| {
        fn go(t: &Ty, f: &mut impl FnMut(B)) {
            match t {
                Ty::Con(c, a) => {
                    f(*c);
                    a.iter().for_each(|x| go(x, f));
                }
                Ty::Fn(a, b) | Ty::Folded(a, b) => {
                    go(a, f);
                    go(b, f);
                }
                _ => {}
            }
        }
        go(t, &mut |c| {
            for m in 0..STD.len() {
                need[m] |= p.modules[m].items.iter().any(|i| matches!(i, Item::Type(d) if d.b == c));
            }
        });
    };
    for it in &p.modules[pg.root].items {
        if let Item::Val(v) = it {
            mark_ty(&p.scheme(v.b).ty, &mut need);
            walk(&v.e, &mut |x| {
                if let K::Let { b, .. } = &x.k {
                    mark_ty(&p.scheme(*b).ty, &mut need);
                }
                mark_ty(&x.ty, &mut need);
                if let K::Var(b) = &x.k {
                    for m in 0..STD.len() {
                        need[m] |= p.modules[m].items.iter().any(|i| matches!(i, Item::Val(v) if v.b == *b));
                    }
                }
            });
        }
    }
    let root = pg.root;
    pg.p.modules[root].items.retain(|i| !matches!(i, Item::Import(im) if !need[im.target]));
}

fn c_ty(e: &E) -> Ty {
    e.ty.clone()
}

fn c16(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let cfg = Cfg { modules: (0, 0), folds: src.pct(50), std: 100, shadow: 0, odd_names: 0, ..Cfg::default() };
    let mut g = Gen::new(src, cfg);
    g.start("root");
    let mut names = Vec::new();
    for (m, (path, funs)) in STD.iter().enumerate() {
        for (i, (n, _)) in funs.iter().enumerate() {
            let b = g.p.export(m, Ns::Value, n).unwrap();
            names.push((m, i, b));
        }
        let alias = ["In", "Opt", "Res", "Ls", "Str", "Nums", "Arr"][m];
        assert!(path.starts_with("std/"));
        let alias = g.p.fresh(alias, BK::Module);
        g.add(Item::Import(Import { target: m, alias: Some(alias), exposed: None }));
    }
    let total = names.len();
    let mut c = C { g, names, big: 0, calls: Vec::new() };
    let n = c.g.src.urange(4, 7);
    let mut used = Vec::new();
    for k in 0..n {
        // walk through all functions, so that each gets its share
        let pickd = if k == 0 { case.index as usize % total } else { c.g.src.us(total) };
        let (m, f, _) = c.names[pickd];
        let Some(e) = c.std_call(m, f) else { continue };
        used.push(STD[m].1[f].0);
        let b = c.g.p.fresh(&format!("r{}", k), BK::Value(Scheme { vars: vec![], ty: e.ty.clone() }));
        c.g.add(Item::Val(ValDecl { b, ann: true, export: true, e }));
    }
    // comparisons made up by the expression generator are no orders
    let orders: Vec<B> = ["sortBy", "minBy", "maxBy"].iter().map(|n| c.f("std/list", n)).collect();
    let mut other = false;
    for it in &c.g.p.modules.last().unwrap().items {
        if let Item::Val(v) = it {
            walk(&v.e, &mut |x| {
                if let K::Var(b) = &x.k {
                    other |= orders.contains(b) && !c.calls.contains(&x.id);
                }
            });
        }
    }
    let big = c.big;
    let mut pg: Program = c.g.finish();
    prune(&mut pg);
    let r = pg.render(&Style::default(), Layout::PLAIN, src);
    case.text = r.texts.show();
    let mut ev = Eval::new(&pg.p, pg.st, 200_000);
    ev.orders = true;
    let want = match ev.run(pg.root) {
        Ok(s) => s,
        Err(Stop::Fuel) => return case.discard(),
        Err(Stop::Trap(h)) => panic!("trap {}", h),
    };
    generated(src);
    if other {
        return case.discard();
    }
    case.nontrivial = used.len() >= 4 && big > 0;
    for u in &used {
        case.label(u);
    }
    let errs = r.texts.errors()?;
    if !errs.is_empty() {
        return Err(format!("call of the standard library rejected: {}", fmt_diags(&r.texts.root, &errs)));
    }
    for opt in [false, true] {
        for (run, out) in r.texts.run_all(opt) {
            match out {
                Ok(Ok(s)) if s == want => {}
                Ok(Ok(s)) => return Err(format!("wrong result on {} optimize {}: got\n{}want\n{}", run, opt, s, want)),
                Ok(Err(t)) => return Err(format!("trap on {} optimize {}: {}", run, opt, t)),
                Err(p) => return Err(format!("panic on {} optimize {}: {}", run, opt, p)),
            }
        }
    }
    Ok(())
}
