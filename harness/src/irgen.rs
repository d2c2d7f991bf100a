//! Well-formed programs of the intermediate representation, generated
//! directly: shapes that no source text leads to in a few steps.

use crate::choice::Src;
use crate::irparse::{self, Def, T, X};
use std::collections::HashMap;
use std::rc::Rc;
use ticc_core::ir::{self, Expr, Name, Ty, TyVar};

pub struct Data {
    pub name: Name,
    pub vars: Vec<TyVar>,
    pub cases: Vec<(Name, Vec<Ty>)>,
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub size: i64,
    pub traps: u64,
    /// functions may take no parameters at all
    pub nullary: bool,
}

pub struct Gen<'s> {
    src: &'s mut Src,
    pub p: ir::Program<'static>,
    data: Vec<Data>,
    vars: Vec<(Name, Ty)>,
    tyvars: Vec<TyVar>,
    /// recursive functions: callable with small numbers in front only
    recs: Vec<(Name, Ty)>,
    /// the function being defined, its counter, its type, calls left
    inner: Vec<(Name, Name, Ty, u32)>,
    budget: i64,
    sh: Shape,
}

const NAMES: &[&str] = &["x", "y", "f", "go", "acc", "xs", "_", "_a", "a1", "local_name", "Cons", "t1"];

fn abs_free(t: &Ty) -> bool {
    match t {
        Ty::Bool | Ty::Int | Ty::String | Ty::Var(_) => true,
        Ty::Named(_, xs) => xs.iter().all(abs_free),
        Ty::Fn(ps, r) => ps.iter().all(abs_free) && abs_free(r),
        Ty::Abs(..) => false,
    }
}

pub fn subst(t: &Ty, v: TyVar, by: &Ty) -> Ty {
    match t {
        Ty::Bool | Ty::Int | Ty::String => t.clone(),
        Ty::Var(w) if *w == v => by.clone(),
        Ty::Var(_) => t.clone(),
        Ty::Named(n, xs) => Ty::Named(*n, xs.iter().map(|x| subst(x, v, by)).collect()),
        Ty::Fn(ps, r) => Ty::Fn(ps.iter().map(|x| subst(x, v, by)).collect(), Box::new(subst(r, v, by))),
        Ty::Abs(w, b) => Ty::Abs(*w, Box::new(subst(b, v, by))),
    }
}

pub fn alpha(a: &Ty, b: &Ty) -> bool {
    match (a, b) {
        (Ty::Named(n, xs), Ty::Named(m, ys)) => n == m && xs.len() == ys.len() && xs.iter().zip(ys).all(|(x, y)| alpha(x, y)),
        (Ty::Fn(xs, r), Ty::Fn(ys, s)) => xs.len() == ys.len() && xs.iter().zip(ys).all(|(x, y)| alpha(x, y)) && alpha(r, s),
        (Ty::Abs(v, t), Ty::Abs(w, u)) => alpha(t, &subst(u, *w, &Ty::Var(*v))),
        _ => a == b,
    }
}

fn subterms<'a>(t: &'a Ty, out: &mut Vec<&'a Ty>) {
    if abs_free(t) {
        out.push(t);
    }
    match t {
        Ty::Named(_, xs) => xs.iter().for_each(|x| subterms(x, out)),
        Ty::Fn(ps, r) => {
            ps.iter().for_each(|x| subterms(x, out));
            subterms(r, out);
        }
        // bound variables must not get out
        _ => {}
    }
}

enum Step {
    Inst(Ty),
    Call(Vec<Ty>),
}

impl Gen<'_> {
    fn name(&mut self) -> Name {
        if self.src.pct(15) {
            self.p.names.next_synthetic()
        } else {
            let n = *self.src.pick(NAMES);
            self.p.names.new_fresh(n)
        }
    }
    /// The same type with binders of its own.
    pub fn fresh(&mut self, t: &Ty) -> Ty {
        match t {
            Ty::Bool | Ty::Int | Ty::String | Ty::Var(_) => t.clone(),
            Ty::Named(n, xs) => Ty::Named(*n, xs.iter().map(|x| self.fresh(x)).collect()),
            Ty::Fn(ps, r) => Ty::Fn(ps.iter().map(|x| self.fresh(x)).collect(), Box::new(self.fresh(r))),
            Ty::Abs(v, b) => {
                let w = self.p.ty.next();
                let b = subst(b, *v, &Ty::Var(w));
                Ty::Abs(w, Box::new(self.fresh(&b)))
            }
        }
    }
    fn params(&mut self) -> usize {
        if self.sh.nullary && self.src.pct(15) {
            return 0;
        }
        1 + self.src.weighted(&[50, 30, 12, 5, 3])
    }
    fn mono(&mut self, d: usize) -> Ty {
        let k = self.src.weighted(&[30, 12, 14, if self.tyvars.is_empty() { 0 } else { 16 }, if d > 0 && !self.data.is_empty() { 22 } else { 0 }, if d > 0 { 16 } else { 0 }]);
        match k {
            0 => Ty::Int,
            1 => Ty::Bool,
            2 => Ty::String,
            3 => Ty::Var(*self.src.pick(&self.tyvars)),
            4 => {
                let i = self.src.us(self.data.len());
                let (n, k) = (self.data[i].name, self.data[i].vars.len());
                Ty::Named(n, (0..k).map(|_| self.mono(d - 1)).collect())
            }
            _ => {
                let ps = (0..self.params()).map(|_| self.mono(d - 1)).collect();
                Ty::Fn(ps, Box::new(self.mono(d - 1)))
            }
        }
    }
    fn poly(&mut self, d: usize) -> Ty {
        if !self.src.pct(20) {
            return self.mono(d);
        }
        let v = self.p.ty.next();
        self.tyvars.push(v);
        let mut ps: Vec<Ty> = (0..self.params()).map(|_| self.mono(d.min(1))).collect();
        if self.src.pct(70) {
            ps.push(Ty::Var(v));
        }
        let r = if self.src.pct(15) { self.poly(d.saturating_sub(1)) } else { self.mono(1) };
        self.tyvars.pop();
        Ty::Abs(v, Box::new(Ty::Fn(ps, Box::new(r))))
    }

    fn bytes(&mut self) -> Vec<u8> {
        let n = self.src.weighted(&[10, 20, 20, 15, 10, 5]);
        (0..n)
            .map(|_| match self.src.weighted(&[50, 20, 20, 10]) {
                0 => b'a' + self.src.below(26) as u8,
                1 => *self.src.pick(b"\n\r\t ({;'\x00\x7f"),
                // literals hold neither quotes nor backslashes
                2 => match self.src.below(256) as u8 {
                    b'"' | b'\\' => b'!',
                    b => b,
                },
                _ => b'0' + self.src.below(10) as u8,
            })
            .collect()
    }
    fn scalar(&mut self, t: &Ty) -> Option<Expr> {
        Some(match t {
            Ty::Int => Expr::Int(self.src.int()),
            Ty::Bool => Expr::Bool(self.src.pct(50)),
            Ty::String => Expr::String(self.bytes().into()),
            _ => return None,
        })
    }
    fn trap(&mut self, goal: &Ty) -> Expr {
        let t = self.fresh(goal);
        let m = ["stop", "encountered ?a", "encountered ?b_2", ""][self.src.us(4)];
        Expr::Trap(m.to_owned(), t)
    }
    fn lambda(&mut self, ps: &[Ty], r: &Ty, leaf: bool) -> Expr {
        let (vars, d) = (self.vars.len(), self.tyvars.len());
        let mut out = Vec::new();
        for t in ps {
            let n = self.name();
            let ty = self.fresh(t);
            self.vars.push((n, ty.clone()));
            out.push(ir::LambdaParam { name: n, ty });
        }
        let body = if leaf { self.leaf(r) } else { self.expr(r) };
        self.vars.truncate(vars);
        self.tyvars.truncate(d);
        Expr::Lambda(out, Box::new(body))
    }
    fn pi(&mut self, v: TyVar, t: &Ty, leaf: bool) -> Expr {
        let w = self.p.ty.next();
        self.tyvars.push(w);
        let t = subst(t, v, &Ty::Var(w));
        let b = if leaf { self.leaf(&t) } else { self.expr(&t) };
        self.tyvars.pop();
        Expr::Pi(w, Box::new(b))
    }
    fn construct(&mut self, n: Name, args: &[Ty], leaf: bool) -> Expr {
        let i = self.data.iter().position(|d| d.name == n).unwrap();
        let k = if leaf { 0 } else { self.src.us(self.data[i].cases.len()) };
        let (c, fields) = self.data[i].cases[k].clone();
        let vars = self.data[i].vars.clone();
        let xs = fields
            .iter()
            .map(|f| {
                let f = vars.iter().zip(args).fold(f.clone(), |f, (v, a)| subst(&f, *v, a));
                if leaf {
                    self.leaf(&f)
                } else {
                    self.expr(&f)
                }
            })
            .collect();
        Expr::Construct(c, args.to_vec(), xs)
    }
    fn variable(&mut self, goal: &Ty) -> Option<Expr> {
        let fit: Vec<Name> = self.vars.iter().filter(|v| alpha(&v.1, goal)).map(|v| v.0).collect();
        if fit.is_empty() {
            return None;
        }
        Some(Expr::Name(*self.src.pick(&fit)))
    }
    fn leaf(&mut self, goal: &Ty) -> Expr {
        if self.src.pct(75) {
            if let Some(v) = self.variable(goal) {
                return v;
            }
        }
        match goal {
            Ty::Named(n, args) => {
                let args = args.clone();
                self.construct(*n, &args, true)
            }
            Ty::Fn(ps, r) => self.lambda(ps, r, true),
            Ty::Abs(v, t) => self.pi(*v, t, true),
            Ty::Var(_) => match self.variable(goal) {
                Some(v) => v,
                None => self.trap(goal),
            },
            _ => self.scalar(goal).unwrap(),
        }
    }
    /// How a value of type `t` leads to one of the goal's.
    fn plan(&mut self, t: &Ty, goal: &Ty, left: usize) -> Option<Vec<Step>> {
        if alpha(t, goal) {
            return Some(Vec::new());
        }
        if left == 0 {
            return None;
        }
        match t {
            Ty::Fn(ps, r) => {
                let mut s = self.plan(r, goal, left - 1)?;
                s.push(Step::Call(ps.clone()));
                Some(s)
            }
            Ty::Abs(v, b) => {
                let mut c = Vec::new();
                subterms(goal, &mut c);
                let mut c: Vec<Ty> = c.into_iter().cloned().collect();
                c.push(Ty::Int);
                c.extend(self.tyvars.last().map(|&v| Ty::Var(v)));
                self.src.shuffle(&mut c);
                for a in c.into_iter().take(4) {
                    let r = subst(b, *v, &a);
                    if let Some(mut s) = self.plan(&r, goal, left - 1) {
                        s.push(Step::Inst(a));
                        return Some(s);
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn walk(&mut self, mut e: Expr, mut steps: Vec<Step>, small: bool) -> Expr {
        let mut first = small;
        while let Some(s) = steps.pop() {
            e = match s {
                Step::Inst(t) => Expr::PiApply(Box::new(e), t),
                Step::Call(ps) => {
                    let mut xs = Vec::new();
                    for (i, p) in ps.iter().enumerate() {
                        if first && i == 0 {
                            xs.push(Expr::Int(self.src.below(7)));
                        } else {
                            xs.push(self.expr(p));
                        }
                    }
                    first = false;
                    Expr::Call(Box::new(e), xs)
                }
            };
        }
        e
    }
    fn through(&mut self, goal: &Ty) -> Option<Expr> {
        for _ in 0..4 {
            let total = self.vars.len() + self.recs.len();
            if total == 0 {
                return None;
            }
            let i = self.src.us(total);
            let (n, t, rec) = if i < self.recs.len() {
                (self.recs[i].0, self.recs[i].1.clone(), true)
            } else {
                (self.vars[i - self.recs.len()].0, self.vars[i - self.recs.len()].1.clone(), false)
            };
            // a recursive function itself does not get about
            if rec && alpha(&t, goal) {
                continue;
            }
            if let Some(s) = self.plan(&t, goal, 4) {
                if rec && !s.iter().any(|s| matches!(s, Step::Call(_))) {
                    continue;
                }
                return Some(self.walk(Expr::Name(n), s, rec));
            }
        }
        None
    }
    fn recursion(&mut self, goal: &Ty) -> Expr {
        // parameters after the counter, result
        let poly = self.src.pct(25);
        let v = self.p.ty.next();
        if poly {
            self.tyvars.push(v);
        }
        let mut ps = vec![Ty::Int];
        for _ in 0..self.src.us(4) {
            let t = self.mono(1);
            ps.push(t);
        }
        let r = if self.src.pct(40) && abs_free(goal) { goal.clone() } else { self.mono(1) };
        if poly {
            self.tyvars.pop();
        }
        let f = Ty::Fn(ps.clone(), Box::new(r.clone()));
        let ty = if poly { Ty::Abs(v, Box::new(f)) } else { f };
        let n = self.name();
        // the definition
        let w = self.p.ty.next();
        let (ps, r) = if poly {
            self.tyvars.push(w);
            let with = Ty::Var(w);
            (ps.iter().map(|t| subst(t, v, &with)).collect::<Vec<_>>(), subst(&r, v, &with))
        } else {
            (ps, r)
        };
        let depth = self.vars.len();
        let mut lps = Vec::new();
        for t in &ps {
            let n = self.name();
            self.vars.push((n, t.clone()));
            lps.push(ir::LambdaParam { name: n, ty: t.clone() });
        }
        let k = lps[0].name;
        let own = Ty::Fn(ps, Box::new(r.clone()));
        let base = self.expr(&r);
        let calls = 1 + u32::from(self.src.pct(35));
        self.inner.push((n, k, own, calls));
        // polymorphic functions call themselves at their own type
        let step = if self.src.pct(60) { self.self_call(poly.then_some(w)) } else { None };
        let step = match step {
            Some(e) => e,
            None => {
                let e = self.expr_with_self(&r, poly.then_some(w));
                e
            }
        };
        self.inner.pop();
        let cond = if self.src.pct(50) { Expr::Op(Box::new(Expr::Name(k)), ir::Op::Equal, Box::new(Expr::Int(0))) } else { Expr::Op(Box::new(Expr::Name(k)), ir::Op::Less, Box::new(Expr::Int(1))) };
        let body = Expr::If(Box::new(cond), Box::new(base), Box::new(step));
        self.vars.truncate(depth);
        let mut value = Expr::Lambda(lps, Box::new(body));
        if poly {
            self.tyvars.pop();
            value = Expr::Pi(w, Box::new(value));
        }
        self.recs.push((n, ty.clone()));
        let rest = self.expr(goal);
        self.recs.pop();
        Expr::LetRec(n, ty, Box::new(value), Box::new(rest))
    }
    fn self_call(&mut self, poly: Option<TyVar>) -> Option<Expr> {
        let i = self.inner.len().checked_sub(1)?;
        if self.inner[i].3 == 0 {
            return None;
        }
        self.inner[i].3 -= 1;
        let (n, k, t, _) = self.inner[i].clone();
        let Ty::Fn(ps, _) = t else { unreachable!() };
        let mut xs = vec![Expr::Op(Box::new(Expr::Name(k)), ir::Op::Subtract, Box::new(Expr::Int(1)))];
        if self.src.pct(20) {
            xs[0] = Expr::Op(Box::new(Expr::Name(k)), ir::Op::Divide, Box::new(Expr::Int(2)));
        }
        for p in &ps[1..] {
            xs.push(self.expr_with_self(p, poly));
        }
        let mut f = Expr::Name(n);
        if let Some(w) = poly {
            f = Expr::PiApply(Box::new(f), Ty::Var(w));
        }
        Some(Expr::Call(Box::new(f), xs))
    }
    /// An expression in which the function being defined is called somewhere.
    fn expr_with_self(&mut self, goal: &Ty, poly: Option<TyVar>) -> Expr {
        let r = match self.inner.last() {
            Some((_, _, Ty::Fn(_, r), left)) if *left > 0 => (**r).clone(),
            _ => return self.expr(goal),
        };
        match self.src.weighted(&[30, 25, 15, 30]) {
            0 => match self.self_call(poly) {
                Some(c) => {
                    if r == *goal {
                        return c;
                    }
                    let n = self.name();
                    self.vars.push((n, r));
                    let e = self.expr(goal);
                    self.vars.pop();
                    Expr::Let(n, Box::new(c), Box::new(e))
                }
                None => self.expr(goal),
            },
            1 => {
                let c = self.expr(&Ty::Bool);
                let a = self.expr_with_self(goal, poly);
                let b = self.expr_with_self(goal, poly);
                Expr::If(Box::new(c), Box::new(a), Box::new(b))
            }
            2 => match goal {
                Ty::Fn(ps, q) => {
                    let depth = self.vars.len();
                    let mut out = Vec::new();
                    for t in ps {
                        let n = self.name();
                        let ty = self.fresh(t);
                        self.vars.push((n, ty.clone()));
                        out.push(ir::LambdaParam { name: n, ty });
                    }
                    let b = self.expr_with_self(q, poly);
                    self.vars.truncate(depth);
                    Expr::Lambda(out, Box::new(b))
                }
                Ty::Int => {
                    let a = self.expr_with_self(&Ty::Int, poly);
                    let b = self.expr_with_self(&Ty::Int, poly);
                    Expr::Op(Box::new(a), *self.src.pick(&[ir::Op::Add, ir::Op::Subtract, ir::Op::Multiply]), Box::new(b))
                }
                Ty::String => {
                    let a = self.expr_with_self(&Ty::String, poly);
                    let b = self.expr_with_self(&Ty::String, poly);
                    Expr::Intrinsic(ir::Intrinsic::StringConcat, vec![a, b])
                }
                _ => self.expr(goal),
            },
            _ => self.expr(goal),
        }
    }
    fn matching(&mut self, goal: &Ty) -> Expr {
        let i = self.src.us(self.data.len());
        let n = self.data[i].name;
        let k = self.data[i].vars.len();
        // prefer to take apart what is at hand
        let have: Vec<Ty> = self.vars.iter().filter(|v| matches!(&v.1, Ty::Named(..))).map(|v| v.1.clone()).collect();
        let ty = if !have.is_empty() && self.src.pct(60) { self.src.pick(&have).clone() } else { Ty::Named(n, (0..k).map(|_| self.mono(1)).collect()) };
        let Ty::Named(n, args) = ty.clone() else { unreachable!() };
        let d = self.expr(&ty);
        let i = self.data.iter().position(|d| d.name == n).unwrap();
        let vars = self.data[i].vars.clone();
        let mut cases = self.data[i].cases.clone();
        self.src.shuffle(&mut cases);
        let mut out = Vec::new();
        for (c, fields) in cases {
            let depth = self.vars.len();
            let mut bindings = Vec::new();
            for f in &fields {
                let b = self.name();
                let t = vars.iter().zip(&args).fold(f.clone(), |f, (v, a)| subst(&f, *v, a));
                self.vars.push((b, t));
                bindings.push(b);
            }
            let value = self.expr(goal);
            self.vars.truncate(depth);
            out.push(ir::Branch { ctor: c, bindings, value });
        }
        Expr::Match(Box::new(d), out)
    }
    pub fn expr(&mut self, goal: &Ty) -> Expr {
        self.budget -= 1;
        if self.budget <= 0 || self.src.pct(10) {
            return self.leaf(goal);
        }
        let mono = abs_free(goal);
        let k = self.src.weighted(&[
            30,
            12,
            8,
            if self.data.is_empty() { 0 } else { 12 },
            8,
            6,
            6,
            22,
            self.sh.traps as u32,
        ]);
        match k {
            1 => {
                let t = self.poly(2);
                let n = self.name();
                let a = self.expr(&t);
                self.vars.push((n, t));
                let b = self.expr(goal);
                self.vars.pop();
                Expr::Let(n, Box::new(a), Box::new(b))
            }
            2 => {
                let c = self.expr(&Ty::Bool);
                let a = self.expr(goal);
                let b = self.expr(goal);
                Expr::If(Box::new(c), Box::new(a), Box::new(b))
            }
            3 => self.matching(goal),
            4 => {
                // a function written in place
                let ps: Vec<Ty> = (0..self.params()).map(|_| self.poly(1)).collect();
                let f = self.expr(&Ty::Fn(ps.clone(), Box::new(goal.clone())));
                let xs = ps.iter().map(|p| self.expr(p)).collect();
                Expr::Call(Box::new(f), xs)
            }
            5 if mono => {
                let t = self.mono(1);
                let v = self.p.ty.next();
                // some occurrences of the type become the variable
                let g = self.abstracted(goal, &t, v);
                let e = self.expr(&Ty::Abs(v, Box::new(g)));
                Expr::PiApply(Box::new(e), t)
            }
            6 if self.recs.len() + self.inner.len() < 3 => self.recursion(goal),
            7 => match self.through(goal) {
                Some(e) => e,
                None => self.form(goal),
            },
            8 => self.trap(goal),
            _ => self.form(goal),
        }
    }
    fn abstracted(&mut self, goal: &Ty, t: &Ty, v: TyVar) -> Ty {
        if goal == t && self.src.pct(70) {
            return Ty::Var(v);
        }
        match goal {
            Ty::Named(n, xs) => Ty::Named(*n, xs.iter().map(|x| self.abstracted(x, t, v)).collect()),
            Ty::Fn(ps, r) => Ty::Fn(ps.iter().map(|x| self.abstracted(x, t, v)).collect(), Box::new(self.abstracted(r, t, v))),
            _ => goal.clone(),
        }
    }
    /// What values of the type are made by.
    fn form(&mut self, goal: &Ty) -> Expr {
        match goal {
            Ty::Int => match self.src.weighted(&[30, 40, 10, 10]) {
                0 => self.leaf(goal),
                1 => {
                    let a = self.expr(goal);
                    let b = self.expr(goal);
                    let o = *self.src.pick(&[ir::Op::Add, ir::Op::Subtract, ir::Op::Multiply, ir::Op::Divide, ir::Op::Modulo]);
                    Expr::Op(Box::new(a), o, Box::new(b))
                }
                2 => Expr::Intrinsic(ir::Intrinsic::StringLen, vec![self.expr(&Ty::String)]),
                _ => {
                    let i = self.expr(&Ty::Int);
                    Expr::Intrinsic(ir::Intrinsic::StringCharAt, vec![i, self.expr(&Ty::String)])
                }
            },
            Ty::Bool => {
                if self.src.pct(20) {
                    return self.leaf(goal);
                }
                let a = self.expr(&Ty::Int);
                let b = self.expr(&Ty::Int);
                let o = *self.src.pick(&[ir::Op::Less, ir::Op::LessEq, ir::Op::Greater, ir::Op::GreaterEq, ir::Op::Equal, ir::Op::NotEqual]);
                Expr::Op(Box::new(a), o, Box::new(b))
            }
            Ty::String => match self.src.weighted(&[30, 20, 15, 10, 20]) {
                0 => self.leaf(goal),
                1 => {
                    let a = self.expr(goal);
                    Expr::Intrinsic(ir::Intrinsic::StringConcat, vec![a, self.expr(goal)])
                }
                2 => {
                    let a = self.expr(&Ty::Int);
                    let b = self.expr(&Ty::Int);
                    Expr::Intrinsic(ir::Intrinsic::StringSubstring, vec![a, b, self.expr(goal)])
                }
                3 => Expr::Intrinsic(ir::Intrinsic::StringFromChar, vec![self.expr(&Ty::Int)]),
                _ => Expr::Intrinsic(ir::Intrinsic::IntToString, vec![self.expr(&Ty::Int)]),
            },
            Ty::Named(n, args) => {
                let args = args.clone();
                self.construct(*n, &args, false)
            }
            Ty::Fn(ps, r) => self.lambda(ps, r, false),
            Ty::Abs(v, t) => self.pi(*v, t, false),
            Ty::Var(_) => self.leaf(goal),
        }
    }
    fn types(&mut self) {
        for _ in 0..self.src.weighted(&[10, 30, 30, 20, 10]) {
            let name = self.name();
            let vars: Vec<TyVar> = (0..self.src.weighted(&[50, 30, 20])).map(|_| self.p.ty.next()).collect();
            self.tyvars = vars.clone();
            let mut cases: Vec<(Name, Vec<Ty>)> = Vec::new();
            let n = self.src.weighted(&[20, 40, 25, 15]) + 1;
            for i in 0..n {
                if i == 1 {
                    // from here on the type may speak of itself
                    self.data.push(Data { name, vars: vars.clone(), cases: Vec::new() });
                }
                let c = self.name();
                let k = self.src.weighted(&[25, 30, 25, 10, 5, 5]);
                let fields = (0..k)
                    .map(|_| {
                        if i > 0 && self.src.pct(25) {
                            Ty::Named(name, vars.iter().map(|&v| Ty::Var(v)).collect())
                        } else if i == 0 {
                            self.mono(0)
                        } else if self.src.pct(10) {
                            self.poly(1)
                        } else {
                            self.mono(1)
                        }
                    })
                    .collect();
                cases.push((c, fields));
            }
            self.tyvars.clear();
            if n == 1 {
                self.data.push(Data { name, vars: vars.clone(), cases: Vec::new() });
            }
            self.data.last_mut().unwrap().cases = cases.clone();
            self.p.types.push(ir::TyDef { name, vars, cases: cases.into_iter().map(|(name, fields)| ir::TyCase { name, fields }).collect() });
        }
    }
}

/// A program that is closed, well-typed and has every name bound once.
pub fn program(src: &mut Src, sh: Shape) -> ir::Program<'static> {
    let mut g = Gen { src, p: ir::Program::new(), data: Vec::new(), vars: Vec::new(), tyvars: Vec::new(), recs: Vec::new(), inner: Vec::new(), budget: 0, sh };
    g.types();
    let n = g.src.urange(1, 4);
    for i in 0..n {
        g.budget = sh.size;
        let ty = g.poly(2);
        let value = g.expr(&ty);
        let name = g.name();
        g.vars.push((name, ty.clone()));
        let export_name = if i + 1 == n || g.src.pct(50) { Some(["a", "main", "b\u{e9}", "x_1"][g.src.us(4)].to_owned()) } else { None };
        let ty = g.fresh(&ty);
        g.p.defs.push(ir::ValueDef { name, export_name, ty, value });
    }
    g.p
}

// ------------------------------------------------- as what the reader yields

pub struct Names {
    names: HashMap<Name, Rc<str>>,
    vars: HashMap<TyVar, Rc<str>>,
}

impl Names {
    pub fn new() -> Names {
        Names { names: HashMap::new(), vars: HashMap::new() }
    }
    pub fn name(&mut self, p: &ir::Program<'_>, n: Name) -> Rc<str> {
        let k = self.names.len();
        self.names.entry(n).or_insert_with(|| format!("{}_{}", p.names.original_name(n), k).into()).clone()
    }
    fn var(&mut self, v: TyVar) -> Rc<str> {
        let k = self.vars.len();
        self.vars.entry(v).or_insert_with(|| format!("t{}", k).into()).clone()
    }
    fn ty(&mut self, p: &ir::Program<'_>, t: &Ty) -> T {
        match t {
            Ty::Bool => T::Prim("bool"),
            Ty::Int => T::Prim("int"),
            Ty::String => T::Prim("string"),
            Ty::Var(v) => T::Var(self.var(*v)),
            Ty::Named(n, xs) => T::Named(self.name(p, *n), xs.iter().map(|t| self.ty(p, t)).collect()),
            Ty::Fn(ps, r) => T::Fn(ps.iter().map(|t| self.ty(p, t)).collect(), Box::new(self.ty(p, r))),
            Ty::Abs(v, t) => T::All(self.var(*v), Box::new(self.ty(p, t))),
        }
    }
    pub fn expr(&mut self, p: &ir::Program<'_>, e: &Expr) -> X {
        use crate::ast::Op as O;
        let mut b = |s: &mut Names, e: &Expr| Box::new(s.expr(p, e));
        match e {
            Expr::Bool(x) => X::Bool(*x),
            Expr::Int(x) => X::Int(*x),
            Expr::String(s) => X::Str(s[..].into()),
            Expr::Name(n) => X::Name(self.name(p, *n)),
            Expr::Call(f, xs) => X::Call(b(self, f), xs.iter().map(|x| self.expr(p, x)).collect()),
            Expr::If(c, t, f) => X::If(b(self, c), b(self, t), b(self, f)),
            Expr::Op(l, o, r) => X::Bin(
                match o {
                    ir::Op::Add => O::Add,
                    ir::Op::Subtract => O::Sub,
                    ir::Op::Multiply => O::Mul,
                    ir::Op::Divide => O::Div,
                    ir::Op::Modulo => O::Mod,
                    ir::Op::Less => O::Lt,
                    ir::Op::LessEq => O::Le,
                    ir::Op::Greater => O::Gt,
                    ir::Op::GreaterEq => O::Ge,
                    ir::Op::Equal => O::Eq,
                    ir::Op::NotEqual => O::Ne,
                },
                b(self, l),
                b(self, r),
            ),
            Expr::Intrinsic(i, xs) => {
                let n = match i {
                    ir::Intrinsic::StringLen => "stringLen",
                    ir::Intrinsic::StringConcat => "stringConcat",
                    ir::Intrinsic::StringCharAt => "stringCharAt",
                    ir::Intrinsic::StringSubstring => "stringSubstring",
                    ir::Intrinsic::StringFromChar => "stringFromChar",
                    ir::Intrinsic::IntToString => "intToString",
                };
                X::Prim(n.into(), xs.iter().map(|x| self.expr(p, x)).collect())
            }
            Expr::Lambda(ps, body) => {
                let ps = ps.iter().map(|q| (self.name(p, q.name), self.ty(p, &q.ty))).collect();
                X::Lam(ps, Rc::new(self.expr(p, body)))
            }
            Expr::Match(d, bs) => {
                let d = b(self, d);
                X::Match(d, bs.iter().map(|br| (self.name(p, br.ctor), br.bindings.iter().map(|n| self.name(p, *n)).collect(), self.expr(p, &br.value))).collect())
            }
            Expr::Construct(c, ts, xs) => X::Make(self.name(p, *c), ts.iter().map(|t| self.ty(p, t)).collect(), xs.iter().map(|x| self.expr(p, x)).collect()),
            Expr::Let(n, v, e) => X::Let(self.name(p, *n), b(self, v), b(self, e)),
            Expr::LetRec(n, t, v, e) => X::LetRec(self.name(p, *n), self.ty(p, t), b(self, v), b(self, e)),
            Expr::Trap(m, t) => X::Trap(m.as_bytes().into(), self.ty(p, t)),
            Expr::Pi(v, e) => X::Pi(self.var(*v), b(self, e)),
            Expr::PiApply(e, t) => X::Inst(b(self, e), self.ty(p, t)),
        }
    }
    pub fn program(&mut self, p: &ir::Program<'_>) -> Vec<Def> {
        p.defs
            .iter()
            .map(|d| Def { export: d.export_name.clone(), name: self.name(p, d.name), ty: self.ty(p, &d.ty), value: self.expr(p, &d.value) })
            .collect()
    }
}

/// Both programs are the same up to how names and type variables are spelled.
#[derive(Default)]
pub struct Same {
    fwd: HashMap<Rc<str>, Rc<str>>,
    back: HashMap<Rc<str>, Rc<str>>,
}

impl Same {
    fn name(&mut self, a: &Rc<str>, b: &Rc<str>) -> Result<(), String> {
        let x = self.fwd.entry(a.clone()).or_insert_with(|| b.clone()).clone();
        let y = self.back.entry(b.clone()).or_insert_with(|| a.clone()).clone();
        if x == *b && y == *a {
            Ok(())
        } else {
            Err(format!("{} stands where {} should", b, x))
        }
    }
    fn all<A>(&mut self, a: &[A], b: &[A], f: impl Fn(&mut Self, &A, &A) -> Result<(), String>) -> Result<(), String> {
        if a.len() != b.len() {
            return Err(format!("{} parts instead of {}", b.len(), a.len()));
        }
        a.iter().zip(b).try_for_each(|(x, y)| f(self, x, y))
    }
    fn ty(&mut self, a: &T, b: &T) -> Result<(), String> {
        match (a, b) {
            (T::Prim(x), T::Prim(y)) if x == y => Ok(()),
            (T::Var(x), T::Var(y)) => self.name(x, y),
            (T::Named(n, xs), T::Named(m, ys)) => {
                self.name(n, m)?;
                self.all(xs, ys, |s, x, y| s.ty(x, y))
            }
            (T::Fn(ps, r), T::Fn(qs, q)) => {
                self.all(ps, qs, |s, x, y| s.ty(x, y))?;
                self.ty(r, q)
            }
            (T::All(v, t), T::All(w, u)) => {
                self.name(v, w)?;
                self.ty(t, u)
            }
            _ => Err(format!("the type {:?} instead of {:?}", b, a)),
        }
    }
    fn expr(&mut self, a: &X, b: &X) -> Result<(), String> {
        match (a, b) {
            (X::Bool(x), X::Bool(y)) if x == y => Ok(()),
            (X::Int(x), X::Int(y)) if x == y => Ok(()),
            (X::Str(x), X::Str(y)) if x == y => Ok(()),
            (X::Name(x), X::Name(y)) => self.name(x, y),
            (X::Call(f, xs), X::Call(g, ys)) => {
                self.expr(f, g)?;
                self.all(xs, ys, |s, x, y| s.expr(x, y))
            }
            (X::Prim(f, xs), X::Prim(g, ys)) if f == g => self.all(xs, ys, |s, x, y| s.expr(x, y)),
            (X::If(a, b, c), X::If(x, y, z)) => {
                self.expr(a, x)?;
                self.expr(b, y)?;
                self.expr(c, z)
            }
            (X::Bin(o, l, r), X::Bin(q, m, s)) if o == q => {
                self.expr(l, m)?;
                self.expr(r, s)
            }
            (X::Lam(ps, e), X::Lam(qs, f)) => {
                self.all(ps, qs, |s, x, y| {
                    s.name(&x.0, &y.0)?;
                    s.ty(&x.1, &y.1)
                })?;
                self.expr(e, f)
            }
            (X::Match(d, xs), X::Match(e, ys)) => {
                self.expr(d, e)?;
                self.all(xs, ys, |s, x, y| {
                    s.name(&x.0, &y.0)?;
                    s.all(&x.1, &y.1, |s, x, y| s.name(x, y))?;
                    s.expr(&x.2, &y.2)
                })
            }
            (X::Make(c, ts, xs), X::Make(d, us, ys)) => {
                self.name(c, d)?;
                self.all(ts, us, |s, x, y| s.ty(x, y))?;
                self.all(xs, ys, |s, x, y| s.expr(x, y))
            }
            (X::Let(n, v, e), X::Let(m, w, f)) => {
                self.name(n, m)?;
                self.expr(v, w)?;
                self.expr(e, f)
            }
            (X::LetRec(n, t, v, e), X::LetRec(m, u, w, f)) => {
                self.name(n, m)?;
                self.ty(t, u)?;
                self.expr(v, w)?;
                self.expr(e, f)
            }
            (X::Trap(m, t), X::Trap(n, u)) if m == n => self.ty(t, u),
            (X::Pi(v, e), X::Pi(w, f)) => {
                self.name(v, w)?;
                self.expr(e, f)
            }
            (X::Inst(e, t), X::Inst(f, u)) => {
                self.expr(e, f)?;
                self.ty(t, u)
            }
            _ => Err(format!("{} instead of {}", brief(b), brief(a))),
        }
    }
    pub fn program(&mut self, a: &[Def], b: &[Def]) -> Result<(), String> {
        self.all(a, b, |s, x, y| {
            if x.export != y.export {
                return Err(format!("exported as {:?} instead of {:?}", y.export, x.export));
            }
            s.name(&x.name, &y.name)?;
            s.ty(&x.ty, &y.ty)?;
            s.expr(&x.value, &y.value)
        })
    }
}

fn brief(x: &X) -> String {
    let s = format!("{:?}", x);
    s.chars().take(200).collect()
}

/// A result of a runner next to one of the reader's machine.
pub fn agrees<F>(p: &ir::Program<'_>, names: &mut Names, got: &ticc_eval::Value<F>, want: &irparse::V) -> bool {
    use irparse::V;
    use ticc_eval::Value;
    match (got, want) {
        (Value::Int(a), V::Int(b)) => a == b,
        (Value::Bool(a), V::Bool(b)) => a == b,
        (Value::String(a), V::Str(b)) => a[..] == b[..],
        (Value::Fn(_), V::Fun(_)) => true,
        (Value::Composite(t), V::Data(c, fs)) => {
            if names.name(p, t.tag()) != *c {
                return false;
            }
            let xs: Vec<_> = t.fields().iter().collect();
            xs.len() == fs.len() && xs.iter().zip(fs.iter()).all(|(x, y)| agrees(p, names, x, y))
        }
        _ => false,
    }
}
