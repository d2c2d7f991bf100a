//! Memory management of the bytecode runner.

use crate::ast::*;
use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::eval::{Eval, Stop, V};
use crate::gen::{Cfg, Gen, Program};
use crate::print::{Layout, Style};
use crate::stdlib::STD;
use crate::sut::fmt_diags;
use std::rc::Rc;
use ticc::Runner;

pub const C18: Prop = Prop {
    id: "C18",
    quick: 6000,
    thorough: 300000,
    rule: "evaluation that, by the reference evaluator's count, allocates at least 2000 bytes of strings, constructors and closures (the first heap holds 256)",
    assumptions: &["allocations of up to about 30 MB and results of up to 200 KB; single objects of 4 GiB or more are out of reach here"],
    f: c18,
};

const W: &[usize] = &[3, 1, 2, 5, 8, 9, 10, 12, 17, 31, 33, 62, 63, 64, 65, 66, 100, 127, 128, 129, 150, 192, 193, 200];

struct H<'a> {
    g: Gen<'a>,
    names: Vec<(&'static str, &'static str, B)>,
    vars: Vec<(B, Ty)>,
    wides: Vec<(B, B)>,
    n: usize,
    left: usize,
}

impl H<'_> {
    fn mk(&mut self, t: Ty, k: K) -> E {
        self.g.p.mk(t, k)
    }
    fn int(&mut self, v: u64) -> E {
        self.mk(Ty::Int, K::Int(v))
    }
    fn app(&mut self, f: E, a: E) -> E {
        let Ty::Fn(_, r) = f.ty.clone() else { panic!("not a function") };
        self.mk((*r).clone(), K::App(Box::new(f), Box::new(a)))
    }
    fn std(&mut self, m: &str, n: &str, t: &Ty, args: Vec<E>) -> E {
        let b = self.names.iter().find(|x| x.0 == m && x.1 == n).unwrap_or_else(|| panic!("{}.{}", m, n)).2;
        let s = self.g.p.scheme(b).clone();
        let inst: Vec<(B, Ty)> = s.vars.iter().map(|v| (*v, t.clone())).collect();
        let mut e = self.mk(s.ty.subst(&inst), K::Var(b));
        for a in args {
            e = self.app(e, a);
        }
        e
    }
    fn ctor(&mut self, c: B, t: &Ty, args: Vec<E>) -> E {
        let mut ft = t.clone();
        for a in args.iter().rev() {
            ft = Ty::func(a.ty.clone(), ft);
        }
        let mut e = self.mk(ft, K::Var(c));
        for a in args {
            e = self.app(e, a);
        }
        e
    }
    fn lists(&self) -> Ty {
        Ty::Con(self.g.st.list, vec![Ty::Str])
    }
    fn fun(&self) -> Ty {
        Ty::func(Ty::Str, Ty::Str)
    }
    fn name(&mut self, base: &str, t: &Ty) -> B {
        self.n += 1;
        let n = format!("{}{}", base, self.n);
        self.g.p.fresh(&n, BK::Value(Scheme { vars: vec![], ty: t.clone() }))
    }
    fn var(&mut self, b: B, t: &Ty) -> E {
        self.mk(t.clone(), K::Var(b))
    }
    fn some_var(&mut self, t: &Ty) -> Option<E> {
        let c: Vec<B> = self.vars.iter().filter(|v| v.1 == *t).map(|v| v.0).collect();
        if c.is_empty() {
            return None;
        }
        // the latest are the most interesting
        let i = if self.g.src.pct(50) { c.len() - 1 } else { self.g.src.us(c.len()) };
        let t = t.clone();
        Some(self.var(c[i], &t))
    }
    fn lam(&mut self, a: &Ty, body: impl FnOnce(&mut Self, B) -> E) -> E {
        let p = self.name("p", a);
        self.vars.push((p, a.clone()));
        let keep = self.vars.len();
        let b = body(self, p);
        self.vars.truncate(keep - 1);
        let t = Ty::func(a.clone(), b.ty.clone());
        self.mk(t, K::Lam { p, fold: false, body: Box::new(b) })
    }
    fn lit(&mut self) -> E {
        let k = self.g.src.weighted(&[10, 40, 30, 15, 5]);
        let n = match k {
            0 => 0,
            1 => self.g.src.us(8) + 1,
            2 => self.g.src.us(40) + 1,
            3 => *self.g.src.pick(&[104usize, 105, 103, 112, 127, 128, 200, 232, 231, 233, 256]),
            _ => *self.g.src.pick(&[488usize, 512, 1000, 2024]),
        };
        let c = *self.g.src.pick(&["a", "b", "xy", "0"]);
        let s: String = c.repeat(n).chars().take(n).collect();
        self.mk(Ty::Str, K::Str(s.as_str().into()))
    }
    fn count(&mut self, d: usize) -> u64 {
        if d > 2 {
            self.g.src.range(1, 60)
        } else {
            match self.g.src.weighted(&[50, 40, 10]) {
                0 => self.g.src.range(1, 8),
                1 => self.g.src.range(1, 40),
                _ => self.g.src.range(1, 200),
            }
        }
    }
    fn expr(&mut self, t: &Ty, d: usize) -> E {
        if self.left == 0 || d == 0 || self.g.src.pct(12) {
            return self.leaf(t);
        }
        self.left -= 1;
        // shapes any type can have
        match self.g.src.weighted(&[70, 10, 8, 6, 6]) {
            1 => {
                // keep something alive across the evaluation of something else
                let vt = self.any_ty();
                let v = self.expr(&vt, d - 1);
                let b = self.name("l", &vt);
                self.vars.push((b, vt));
                let keep = self.vars.len();
                let body = self.expr(t, d - 1);
                self.vars.truncate(keep - 1);
                return self.mk(t.clone(), K::Let { b, ann: false, val: Box::new(v), body: Box::new(body) });
            }
            2 => {
                let n = self.count(d);
                let f = self.lam(t, |h, _| h.expr(t, d - 1));
                let x = self.expr(t, d - 1);
                let n = self.int(n);
                return self.std("std/int", "iterate", t, vec![n, f, x]);
            }
            3 => {
                let a = self.expr(&Ty::Int, d - 1);
                let b = self.expr(&Ty::Int, d - 1);
                let c = self.mk(Ty::Bool, K::Bin(Op::Lt, Box::new(a), Box::new(b)));
                let x = self.expr(t, d - 1);
                let y = self.expr(t, d - 1);
                return self.mk(t.clone(), K::If(Box::new(c), Box::new(x), Box::new(y)));
            }
            4 if !self.wides.is_empty() => return self.unwide(t, d),
            _ => {}
        }
        let (lists, fun) = (self.lists(), self.fun());
        if *t == Ty::Int {
            match self.g.src.weighted(&[40, 20, 20, 20]) {
                0 => {
                    let s = self.expr(&Ty::Str, d - 1);
                    self.std("std/string", "length", &Ty::Int, vec![s])
                }
                1 => {
                    let i = self.expr(&Ty::Int, d - 1);
                    let s = self.expr(&Ty::Str, d - 1);
                    self.std("std/string", "charAt", &Ty::Int, vec![i, s])
                }
                2 => {
                    let a = self.expr(&Ty::Int, d - 1);
                    let b = self.expr(&Ty::Int, d - 1);
                    let op = *self.g.src.pick(&[Op::Add, Op::Mul, Op::Mod, Op::Sub]);
                    self.mk(Ty::Int, K::Bin(op, Box::new(a), Box::new(b)))
                }
                _ => {
                    let l = self.expr(&lists, d - 1);
                    self.std("std/list", "length", &Ty::Str, vec![l])
                }
            }
        } else if *t == Ty::Str {
            match self.g.src.weighted(&[30, 14, 12, 12, 12, 10, 10]) {
                0 => {
                    let a = self.expr(&Ty::Str, d - 1);
                    let b = self.expr(&Ty::Str, d - 1);
                    self.std("std/string", "concat", &Ty::Int, vec![a, b])
                }
                1 => {
                    let a = self.expr(&Ty::Int, d - 1);
                    let b = self.g.src.below(300);
                    let b = self.int(b);
                    let s = self.expr(&Ty::Str, d - 1);
                    self.std("std/string", "substring", &Ty::Int, vec![a, b, s])
                }
                2 => {
                    let a = self.expr(&Ty::Int, d - 1);
                    self.std("std/int", "toString", &Ty::Int, vec![a])
                }
                3 => {
                    let s = self.expr(&Ty::Str, d - 1);
                    let l = self.expr(&lists, d - 1);
                    self.std("std/list", "join", &Ty::Int, vec![s, l])
                }
                4 => {
                    let f = self.expr(&fun, d - 1);
                    let s = self.expr(&Ty::Str, d - 1);
                    self.app(f, s)
                }
                5 => {
                    // grow by doubling
                    let n = self.g.src.range(1, 9);
                    let f = self.lam(&Ty::Str, |h, p| {
                        let a = h.var(p, &Ty::Str);
                        let b = h.var(p, &Ty::Str);
                        h.std("std/string", "concat", &Ty::Int, vec![a, b])
                    });
                    let s = self.expr(&Ty::Str, d - 1);
                    let n = self.int(n);
                    self.std("std/int", "iterate", &Ty::Str, vec![n, f, s])
                }
                _ => {
                    // all functions of a list applied one after another
                    let fl = Ty::Con(self.g.st.list, vec![fun.clone()]);
                    let n = self.g.src.us(5);
                    let mut l = self.ctor(self.g.st.nil, &fl, vec![]);
                    for _ in 0..n {
                        let f = self.expr(&fun, d - 1);
                        l = self.ctor(self.g.st.cons, &fl, vec![f, l]);
                    }
                    let step = self.lam(&Ty::Str, |h, s| {
                        h.lam(&fun.clone(), |h, f| {
                            let f = h.var(f, &h.fun());
                            let s = h.var(s, &Ty::Str);
                            h.app(f, s)
                        })
                    });
                    let init = self.expr(&Ty::Str, d - 1);
                    let b = self.names.iter().find(|x| x.0 == "std/list" && x.1 == "foldl").unwrap().2;
                    let s = self.g.p.scheme(b).clone();
                    let inst: Vec<(B, Ty)> = s.vars.iter().map(|v| (*v, if self.g.p.name(*v) == "a" { fun.clone() } else { Ty::Str })).collect();
                    let mut e = self.mk(s.ty.subst(&inst), K::Var(b));
                    for a in [init, step, l] {
                        e = self.app(e, a);
                    }
                    e
                }
            }
        } else if *t == lists {
            match self.g.src.weighted(&[30, 40, 15, 15]) {
                0 => {
                    let x = self.expr(&Ty::Str, d - 1);
                    let l = self.expr(&lists, d - 1);
                    self.ctor(self.g.st.cons, t, vec![x, l])
                }
                1 => {
                    let n = self.count(d + 1);
                    let f = self.lam(t, |h, p| {
                        let x = h.expr(&Ty::Str, d - 1);
                        let l = h.var(p, t);
                        h.ctor(h.g.st.cons, t, vec![x, l])
                    });
                    let x = self.expr(t, d - 1);
                    let n = self.int(n);
                    self.std("std/int", "iterate", t, vec![n, f, x])
                }
                2 => {
                    let f = self.expr(&fun, d - 1);
                    let l = self.expr(&lists, d - 1);
                    self.std("std/list", "map", &Ty::Str, vec![f, l])
                }
                _ => {
                    let l = self.expr(&lists, d - 1);
                    self.std("std/list", "reverse", &Ty::Str, vec![l])
                }
            }
        } else if *t == fun {
            if self.g.src.pct(45) {
                self.closure(d)
            } else {
                self.lam(&Ty::Str, |h, _| h.expr(&Ty::Str, d - 1))
            }
        } else {
            // a wide value
            let Ty::Con(c, _) = t else { panic!("type") };
            let k = self.wides.iter().find(|w| w.0 == *c).unwrap().1;
            let fields = self.g.p.decls[c].ctors[0].fields.clone();
            let args = fields
                .iter()
                .map(|f| match f {
                    Field::Ty(t) => {
                        if self.g.src.pct(12) {
                            self.expr(t, d.min(2) - 1)
                        } else if *t == Ty::Str && self.g.src.pct(40) {
                            // nothing else refers to it
                            let n = self.g.src.below(1000);
                            let n = self.int(n);
                            self.std("std/int", "toString", &Ty::Int, vec![n])
                        } else {
                            self.leaf(t)
                        }
                    }
                    Field::Rec => unreachable!(),
                })
                .collect();
            self.ctor(k, t, args)
        }
    }
    fn any_ty(&mut self) -> Ty {
        match self.g.src.weighted(&[15, 35, 20, 15, 15]) {
            0 => Ty::Int,
            1 => Ty::Str,
            2 => self.lists(),
            3 => self.fun(),
            _ if !self.wides.is_empty() => {
                let i = self.g.src.us(self.wides.len());
                Ty::Con(self.wides[i].0, vec![])
            }
            _ => Ty::Str,
        }
    }
    /// Takes a wide value apart and uses some of its fields.
    fn unwide(&mut self, t: &Ty, d: usize) -> E {
        let i = self.g.src.us(self.wides.len());
        let (w, c) = self.wides[i];
        let wt = Ty::Con(w, vec![]);
        let scrut = self.expr(&wt, d - 1);
        let fields = self.g.p.decls[&w].ctors[0].fields.clone();
        let keep = self.vars.len();
        let mut vars = Vec::new();
        for f in &fields {
            let Field::Ty(ft) = f else { unreachable!() };
            let b = self.name("w", ft);
            vars.push(b);
        }
        let mut order: Vec<usize> = (0..vars.len()).collect();
        self.g.src.shuffle(&mut order);
        for i in order {
            let Field::Ty(ft) = &fields[i] else { unreachable!() };
            self.vars.push((vars[i], ft.clone()));
        }
        let body = self.expr(t, d - 1);
        self.vars.truncate(keep);
        self.mk(t.clone(), K::Match { scrut: Box::new(scrut), arms: vec![Arm { ctor: c, vars, body }] })
    }
    /// A function holding on to many values.
    fn closure(&mut self, d: usize) -> E {
        let k = if self.g.src.pct(70) { self.g.src.urange(1, 12) } else { *self.g.src.pick(W) };
        let keep = self.vars.len();
        let mut lets = Vec::new();
        // sometimes a lone pointer among the numbers
        let lone = if self.g.src.pct(25) { Some(self.g.src.us(k)) } else { None };
        for i in 0..k {
            let int = match lone {
                Some(l) => i != l,
                None => self.g.src.pct(50),
            };
            let t = if int { Ty::Int } else { Ty::Str };
            let v = if lone == Some(i) {
                let n = self.g.src.below(1000);
                let n = self.int(n);
                self.std("std/int", "toString", &Ty::Int, vec![n])
            } else if i < 4 || self.g.src.pct(10) { self.expr(&t, d.min(2) - 1) } else { self.leaf(&t) };
            let b = self.name("c", &t);
            self.vars.push((b, t.clone()));
            lets.push((b, t, v));
        }
        let caps: Vec<(B, Ty)> = lets.iter().map(|l| (l.0, l.1.clone())).collect();
        let f = self.lam(&Ty::Str, |h, p| {
            let mut sum = h.int(0);
            let mut s = h.var(p, &Ty::Str);
            for (b, t) in &caps {
                let v = h.var(*b, t);
                if *t == Ty::Int {
                    sum = h.mk(Ty::Int, K::Bin(Op::Add, Box::new(sum), Box::new(v)));
                } else {
                    s = if h.g.src.pct(50) { h.std("std/string", "concat", &Ty::Int, vec![s, v]) } else { h.std("std/string", "concat", &Ty::Int, vec![v, s]) };
                }
            }
            let n = h.std("std/int", "toString", &Ty::Int, vec![sum]);
            h.std("std/string", "concat", &Ty::Int, vec![n, s])
        });
        self.vars.truncate(keep);
        let mut e = f;
        for (b, _, v) in lets.into_iter().rev() {
            let t = e.ty.clone();
            e = self.mk(t, K::Let { b, ann: false, val: Box::new(v), body: Box::new(e) });
        }
        e
    }
    fn leaf(&mut self, t: &Ty) -> E {
        if self.g.src.pct(75) {
            if let Some(e) = self.some_var(t) {
                return e;
            }
        }
        let fun = self.fun();
        if *t == Ty::Int {
            let v = if self.g.src.pct(85) { self.g.src.below(40) } else { self.g.src.int() };
            self.int(v)
        } else if *t == Ty::Str {
            self.lit()
        } else if *t == self.lists() {
            self.ctor(self.g.st.nil, t, vec![])
        } else if *t == fun {
            let s = self.lit();
            self.std("std/string", "concat", &Ty::Int, vec![s])
        } else {
            let Ty::Con(c, _) = t else { panic!("type") };
            let k = self.wides.iter().find(|w| w.0 == *c).unwrap().1;
            let fields = self.g.p.decls[c].ctors[0].fields.clone();
            let args = fields
                .iter()
                .map(|f| match f {
                    Field::Ty(t) => {
                        let t = t.clone();
                        match self.some_var(&t) {
                            Some(e) if self.g.src.pct(40) => e,
                            _ if t == Ty::Str => {
                                let n = self.g.src.below(1000);
                                let n = self.int(n);
                                self.std("std/int", "toString", &Ty::Int, vec![n])
                            }
                            _ => self.leaf(&t),
                        }
                    }
                    Field::Rec => unreachable!(),
                })
                .collect();
            self.ctor(k, t, args)
        }
    }
    fn wide(&mut self) {
        let n = *self.g.src.pick(W);
        let b = self.g.p.fresh(&format!("W{}", self.wides.len()), BK::Type);
        let c = self.g.p.fresh(&format!("W{}", self.wides.len()), BK::Ctor(b, 0));
        let mix = self.g.src.us(6);
        // few pointers among many numbers, or none before some field
        let few: Vec<usize> = (0..self.g.src.urange(1, 3)).map(|_| self.g.src.us(n)).collect();
        let from = if self.g.src.pct(50) { few[0] } else { n - 1 - few[0].min(3).min(n - 1) };
        let fields = (0..n)
            .map(|i| {
                Field::Ty(match mix {
                    0 => Ty::Str,
                    1 => Ty::Int,
                    4 if !few.contains(&i) => Ty::Int,
                    5 if i < from => Ty::Int,
                    4 | 5 => match self.g.src.us(4) {
                        0 => self.lists(),
                        1 => self.fun(),
                        _ => Ty::Str,
                    },
                    2 if self.g.src.pct(50) => Ty::Int,
                    _ => match self.g.src.weighted(&[40, 40, 10, 10]) {
                        0 => Ty::Int,
                        1 => Ty::Str,
                        2 => self.lists(),
                        _ => self.fun(),
                    },
                })
            })
            .collect();
        let d = TypeDecl { b, params: vec![], ctors: vec![CtorDecl { b: c, fields }], export: false, export_ctors: false };
        self.g.p.decls.insert(b, Rc::new(d.clone()));
        self.g.add(Item::Type(d));
        self.wides.push((b, c));
    }
    /// Makes something printable of a value.
    fn digest(&mut self, e: E) -> E {
        let t = e.ty.clone();
        if t == self.lists() {
            let s = self.mk(Ty::Str, K::Str(",".into()));
            return self.std("std/list", "join", &Ty::Int, vec![s, e]);
        }
        if t == self.fun() {
            let s = self.mk(Ty::Str, K::Str("!".into()));
            return self.app(e, s);
        }
        e
    }
}

fn c18(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let cfg = Cfg { modules: (0, 0), ..Cfg::default() };
    let mut g = Gen::new(src, cfg);
    g.start("root");
    let mut names = Vec::new();
    for (m, (path, funs)) in STD.iter().enumerate() {
        let alias = match *path {
            "std/list" => "Ls",
            "std/string" => "Str",
            "std/int" => "Nums",
            _ => continue,
        };
        for (n, _) in funs.iter() {
            names.push((*path, *n, g.p.export(m, Ns::Value, n).unwrap()));
        }
        let alias = g.p.fresh(alias, BK::Module);
        g.add(Item::Import(Import { target: m, alias: Some(alias), exposed: None }));
    }
    let mut h = H { g, names, vars: Vec::new(), wides: Vec::new(), n: 0, left: 0 };
    for _ in 0..h.g.src.weighted(&[30, 45, 25]) {
        h.wide();
    }
    let n = h.g.src.urange(1, 4);
    for _ in 0..n {
        h.left = h.g.src.urange(2, 30);
        let t = h.any_ty();
        let e = h.expr(&t, 5);
        let b = h.name("g", &t);
        h.g.add(Item::Val(ValDecl { b, ann: true, export: false, e }));
        h.vars.push((b, t));
    }
    let with_main = h.g.src.pct(50);
    let mut main = None;
    if with_main {
        h.left = h.g.src.urange(2, 30);
        let e = h.lam(&Ty::Str, |h, _| h.expr(&Ty::Str, 5));
        let t = h.fun();
        let b = h.g.p.fresh("main", BK::Value(Scheme { vars: vec![], ty: t }));
        h.g.add(Item::Val(ValDecl { b, ann: true, export: true, e }));
        main = Some(b);
    }
    // results, looked at after everything was built
    for i in 0..h.vars.len() {
        let (b, t) = h.vars[i].clone();
        let e = h.var(b, &t);
        let e = h.digest(e);
        let b = h.g.p.fresh(&format!("r{}", i), BK::Value(Scheme { vars: vec![], ty: e.ty.clone() }));
        h.g.add(Item::Val(ValDecl { b, ann: true, export: true, e }));
    }
    let pg: Program = h.g.finish();
    let input: Vec<u8> = if with_main {
        let n = match src.weighted(&[20, 30, 30, 20]) {
            0 => src.us(10),
            1 => src.us(300),
            2 => {
                let b = src.range(6, 13);
                ((1usize << b) + src.us(80)).saturating_sub(50)
            }
            _ => src.us(60000),
        };
        let seed = src.below(251);
        (0..n).map(|i| ((i as u64 * 7 + seed) % 251) as u8).collect()
    } else {
        Vec::new()
    };
    let r = pg.render(&Style { parens: 0, ..Style::default() }, Layout::PLAIN, src);
    case.text = format!("{}{}", r.texts.show(), if with_main { format!("-- input of {} bytes\n", input.len()) } else { String::new() });
    let mut ev = Eval::new(&pg.p, pg.st, 600_000);
    let want = match ev.run(pg.root) {
        Ok(s) => s,
        Err(Stop::Fuel) => return case.discard(),
        Err(Stop::Trap(t)) => panic!("trap {}", t),
    };
    let want_main = match main {
        None => None,
        Some(b) => {
            let f = ev.global(b).unwrap();
            match ev.apply(f, V::Str(input.as_slice().into())) {
                Ok(V::Str(s)) => Some(s),
                Err(Stop::Fuel) => return case.discard(),
                _ => panic!("main"),
            }
        }
    };
    generated(src);
    let bytes = ev.allocated;
    case.nontrivial = bytes >= 2000;
    case.label_if(bytes >= 100_000, "100 KB");
    case.label_if(bytes >= 1_000_000, "1 MB");
    case.label_if(with_main, "main");
    case.label_if(pg.p.modules[pg.root].items.iter().any(|i| matches!(i, Item::Type(d) if d.ctors[0].fields.len() > 64)), "wide constructor");
    let errs = r.texts.errors()?;
    if !errs.is_empty() {
        return Err(format!("program rejected: {}", fmt_diags(&r.texts.root, &errs)));
    }
    let opt = src_opt(case.index);
    let mut u = guard(|| r.texts.unit(opt, false))?;
    for run in [Runner::Bytecode, Runner::Lambda] {
        match guard(|| u.interpret(run)) {
            Ok(Ok(s)) if s == want => {}
            Ok(Ok(s)) => return Err(format!("wrong result on {}: {}", run, differ(&s, &want))),
            Ok(Err(t)) => return Err(format!("trap on {}: {}", run, t.message)),
            Err(p) => return Err(format!("panic on {}: {}", run, p)),
        }
        if let Some(w) = &want_main {
            match guard(|| u.interpret_main(run, &input)) {
                Ok(Ok(s)) if s[..] == w[..] => {}
                Ok(Ok(s)) => return Err(format!("wrong output of main on {}: {}", run, differ(&String::from_utf8_lossy(&s), &String::from_utf8_lossy(w)))),
                Ok(Err(t)) => return Err(format!("main failed on {}: {}", run, t)),
                Err(p) => return Err(format!("panic on {} in main: {}", run, p)),
            }
        }
    }
    Ok(())
}

fn src_opt(index: u64) -> bool {
    index % 3 == 0
}

fn differ(got: &str, want: &str) -> String {
    let (g, w): (Vec<char>, Vec<char>) = (got.chars().collect(), want.chars().collect());
    let k = g.iter().zip(&w).take_while(|(a, b)| a == b).count();
    let cut = |v: &[char]| v[k.saturating_sub(20).min(v.len())..(k + 60).min(v.len())].iter().collect::<String>();
    format!("lengths {} and {}, from {}: got {:?} want {:?}", g.len(), w.len(), k, cut(&g), cut(&w))
}
