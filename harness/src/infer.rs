//! Independent type inference over the generated trees.

use crate::ast::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Inferred {
    pub exprs: HashMap<u32, Ty>,
    pub binders: HashMap<B, Ty>,
}

pub struct Infer<'p> {
    p: &'p Prog,
    subst: Vec<Option<Ty>>,
    env: HashMap<B, Ty>,
    exprs: HashMap<u32, Ty>,
}

impl<'p> Infer<'p> {
    pub fn new(p: &'p Prog) -> Infer<'p> {
        Infer { p, subst: Vec::new(), env: HashMap::new(), exprs: HashMap::new() }
    }
    fn fresh(&mut self) -> Ty {
        self.subst.push(None);
        Ty::Meta(self.subst.len() as u32 - 1)
    }
    fn head(&self, t: &Ty) -> Ty {
        let mut t = t.clone();
        while let Ty::Meta(m) = t {
            match &self.subst[m as usize] {
                Some(u) => t = u.clone(),
                None => break,
            }
        }
        t
    }
    pub fn zonk(&self, t: &Ty) -> Ty {
        match self.head(t) {
            Ty::Con(c, a) => Ty::Con(c, a.iter().map(|t| self.zonk(t)).collect()),
            Ty::Fn(a, b) => Ty::func(self.zonk(&a), self.zonk(&b)),
            Ty::Folded(a, b) => Ty::Folded(Rc::new(self.zonk(&a)), Rc::new(self.zonk(&b))),
            t => t,
        }
    }
    fn occurs(&self, m: u32, t: &Ty) -> bool {
        match self.head(t) {
            Ty::Meta(n) => n == m,
            Ty::Con(_, a) => a.iter().any(|t| self.occurs(m, t)),
            Ty::Fn(a, b) | Ty::Folded(a, b) => self.occurs(m, &a) || self.occurs(m, &b),
            _ => false,
        }
    }
    fn unify(&mut self, a: &Ty, b: &Ty) -> Result<(), String> {
        let (a, b) = (self.head(a), self.head(b));
        match (&a, &b) {
            (Ty::Meta(x), Ty::Meta(y)) if x == y => Ok(()),
            (Ty::Meta(x), t) | (t, Ty::Meta(x)) => {
                if self.occurs(*x, t) {
                    return Err("infinite type".into());
                }
                self.subst[*x as usize] = Some(t.clone());
                Ok(())
            }
            (Ty::Int, Ty::Int) | (Ty::Bool, Ty::Bool) | (Ty::Str, Ty::Str) => Ok(()),
            (Ty::Var(x), Ty::Var(y)) if x == y => Ok(()),
            (Ty::Con(x, xs), Ty::Con(y, ys)) if x == y && xs.len() == ys.len() => {
                for (a, b) in xs.iter().zip(ys) {
                    self.unify(a, b)?;
                }
                Ok(())
            }
            (Ty::Fn(a1, b1), Ty::Fn(a2, b2)) | (Ty::Folded(a1, b1), Ty::Folded(a2, b2)) => {
                self.unify(a1, a2)?;
                self.unify(b1, b2)
            }
            _ => Err("type mismatch".into()),
        }
    }
    fn instantiate(&mut self, s: &Scheme) -> Ty {
        let inst: Vec<(B, Ty)> = s.vars.iter().map(|&v| (v, self.fresh())).collect();
        s.ty.subst(&inst)
    }
    fn check(&mut self, e: &E, want: &Ty) -> Result<(), String> {
        let t = self.infer(e)?;
        self.unify(want, &t)
    }
    fn infer(&mut self, e: &E) -> Result<Ty, String> {
        let t = self.infer_raw(e)?;
        self.exprs.insert(e.id, t.clone());
        Ok(t)
    }
    fn infer_raw(&mut self, e: &E) -> Result<Ty, String> {
        Ok(match &e.k {
            K::Var(b) => match self.env.get(b) {
                Some(t) => t.clone(),
                None => {
                    let s = self.p.scheme(*b);
                    self.instantiate(&s)
                }
            },
            K::Int(_) => Ty::Int,
            K::Bool(_) => Ty::Bool,
            K::Str(_) => Ty::Str,
            K::Hole(_) => self.fresh(),
            K::App(f, a) => {
                let ft = self.infer(f)?;
                let (x, y) = (self.fresh(), self.fresh());
                self.unify(&ft, &Ty::func(x.clone(), y.clone()))?;
                self.check(a, &x)?;
                y
            }
            K::Bin(Op::Pipe, a, f) => {
                let x = self.infer(a)?;
                let y = self.fresh();
                self.check(f, &Ty::func(x, y.clone()))?;
                y
            }
            K::Bin(op, a, b) => {
                self.check(a, &Ty::Int)?;
                self.check(b, &Ty::Int)?;
                if INT_OPS.contains(op) {
                    Ty::Int
                } else {
                    Ty::Bool
                }
            }
            K::If(c, t, f) => {
                self.check(c, &Ty::Bool)?;
                let r = self.infer(t)?;
                self.check(f, &r)?;
                r
            }
            K::Lam { p, fold, body } => {
                let a = self.fresh();
                let b = self.fresh();
                let pt = if *fold { Ty::Folded(Rc::new(a.clone()), Rc::new(b.clone())) } else { a.clone() };
                self.env.insert(*p, pt);
                self.check(body, &b)?;
                Ty::func(a, b)
            }
            K::Let { b, ann, val, body } => {
                if *ann {
                    let t = self.p.scheme(*b).ty;
                    self.check(val, &t)?;
                } else {
                    let t = self.infer(val)?;
                    self.env.insert(*b, t);
                }
                self.infer(body)?
            }
            K::Match { scrut, arms } => {
                let s = self.infer(scrut)?;
                let (whole, rec) = match self.head(&s) {
                    Ty::Folded(a, b) => ((*a).clone(), (*b).clone()),
                    _ => (s.clone(), s.clone()),
                };
                let r = self.fresh();
                for arm in arms {
                    let BK::Ctor(t, i) = self.p.binders[arm.ctor].kind else { return Err("not a constructor".into()) };
                    let d = self.p.decls[&t].clone();
                    let inst: Vec<(B, Ty)> = d.params.iter().map(|&v| (v, self.fresh())).collect();
                    let con = Ty::Con(t, inst.iter().map(|x| x.1.clone()).collect());
                    self.unify(&whole, &con)?;
                    if arm.vars.len() != d.ctors[i].fields.len() {
                        return Err("field count".into());
                    }
                    for (&v, f) in arm.vars.iter().zip(&d.ctors[i].fields) {
                        let ft = match f {
                            Field::Rec => rec.clone(),
                            Field::Ty(t) => t.subst(&inst),
                        };
                        self.env.insert(v, ft);
                    }
                    self.check(&arm.body, &r)?;
                }
                r
            }
        })
    }

    /// Infer the types inside one definition. `Err` means ill-typed.
    pub fn value(mut self, v: &ValDecl) -> Result<(Ty, Inferred), String> {
        let t = if v.ann {
            let t = self.p.scheme(v.b).ty;
            self.check(&v.e, &t)?;
            t
        } else {
            self.infer(&v.e)?
        };
        let mut out = Inferred::default();
        for (id, t) in &self.exprs {
            out.exprs.insert(*id, self.zonk(t));
        }
        for (b, t) in &self.env {
            out.binders.insert(*b, self.zonk(t));
        }
        out.binders.insert(v.b, self.zonk(&t));
        let t = self.zonk(&t);
        Ok((t, out))
    }
}

/// Whether every match in a well-typed tree covers its type exactly once.
pub fn matches_exact(p: &Prog, e: &E, types: &HashMap<u32, Ty>) -> bool {
    let mut ok = true;
    walk(e, &mut |x| {
        if let K::Match { scrut, arms } = &x.k {
            let t = match &types[&scrut.id] {
                Ty::Folded(t, _) => (**t).clone(),
                t => t.clone(),
            };
            let Ty::Con(c, _) = t else {
                ok = false;
                return;
            };
            let mut left: Vec<B> = p.decls[&c].ctors.iter().map(|c| c.b).collect();
            for a in arms {
                match left.iter().position(|&b| b == a.ctor) {
                    Some(i) => {
                        left.remove(i);
                    }
                    None => ok = false,
                }
            }
            if !left.is_empty() {
                ok = false;
            }
        }
    });
    ok
}
