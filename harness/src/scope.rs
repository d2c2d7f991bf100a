//! Lexical scope of the reference side: latest binder of a name wins.

use crate::ast::*;

#[derive(Clone, Default, Debug)]
pub struct Scope {
    pub values: Vec<B>,
    pub ctors: Vec<B>,
    pub types: Vec<B>,
    /// alias binder, target module
    pub modules: Vec<(B, usize)>,
}

impl Scope {
    pub fn list(&self, ns: Ns) -> &[B] {
        match ns {
            Ns::Value => &self.values,
            Ns::Ctor => &self.ctors,
            Ns::Type => &self.types,
            Ns::Module => panic!(),
        }
    }
    pub fn lookup(&self, p: &Prog, ns: Ns, name: &str) -> Option<B> {
        self.list(ns).iter().rev().copied().find(|&b| p.name(b) == name)
    }
    pub fn lookup_module(&self, p: &Prog, name: &str) -> Option<(B, usize)> {
        self.modules.iter().rev().copied().find(|&(b, _)| p.name(b) == name)
    }
    pub fn visible(&self, p: &Prog, ns: Ns) -> Vec<B> {
        let mut seen: std::collections::BTreeSet<&str> = Default::default();
        let mut out = Vec::new();
        for &b in self.list(ns).iter().rev() {
            if seen.insert(p.name(b)) {
                out.push(b);
            }
        }
        out.reverse();
        out
    }
    pub fn visible_modules(&self, p: &Prog) -> Vec<(B, usize)> {
        let mut seen: std::collections::BTreeSet<&str> = Default::default();
        let mut out = Vec::new();
        for &(b, m) in self.modules.iter().rev() {
            if seen.insert(p.name(b)) {
                out.push((b, m));
            }
        }
        out.reverse();
        out
    }
    /// Ways to write a reference to `b`: `None` plain, `Some(alias, module)`.
    pub fn ways(&self, p: &Prog, ns: Ns, b: B) -> Vec<Option<(B, usize)>> {
        let mut out = Vec::new();
        let name = p.name(b);
        if self.lookup(p, ns, name) == Some(b) {
            out.push(None);
        }
        for (a, m) in self.visible_modules(p) {
            if p.export(m, ns, name) == Some(b) {
                out.push(Some((a, m)));
            }
        }
        out
    }
    pub fn reach(&self, p: &Prog, ns: Ns, b: B) -> bool {
        let name = p.name(b);
        self.lookup(p, ns, name) == Some(b) || self.visible_modules(p).iter().any(|&(_, m)| p.export(m, ns, name) == Some(b))
    }
    pub fn reach_ty(&self, p: &Prog, t: &Ty) -> bool {
        !t.any(&mut |t| match t {
            Ty::Con(c, _) => !self.reach(p, Ns::Type, *c),
            Ty::Var(v) => !self.reach(p, Ns::Type, *v),
            Ty::Folded(..) | Ty::Meta(_) => true,
            _ => false,
        })
    }
    /// What an item adds to the scope of the following ones.
    pub fn add_item(&mut self, p: &Prog, it: &Item) {
        match it {
            Item::Import(i) => {
                if let Some(a) = i.alias {
                    self.modules.push((a, i.target));
                }
                for e in i.exposed.iter().flatten() {
                    for &b in &e.binders {
                        self.add_binder(p, b);
                    }
                }
            }
            Item::Type(t) => {
                for c in &t.ctors {
                    self.add_binder(p, c.b);
                }
                self.types.push(t.b);
            }
            Item::Val(v) => self.values.push(v.b),
        }
    }
    pub fn add_binder(&mut self, p: &Prog, b: B) {
        match p.binders[b].kind {
            BK::Value(_) => self.values.push(b),
            BK::Ctor(..) => {
                self.ctors.push(b);
                self.values.push(b);
            }
            BK::Type | BK::TyVar => self.types.push(b),
            BK::Module => panic!(),
        }
    }
}
