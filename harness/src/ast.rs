//! Programs as the generator sees them: every binder is a unique number.

use std::rc::Rc;

pub type B = usize;

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ty {
    Int,
    Bool,
    Str,
    Con(B, Vec<Ty>),
    Fn(Rc<Ty>, Rc<Ty>),
    Var(B),
    /// a value of the first type whose recursive fields were replaced
    Folded(Rc<Ty>, Rc<Ty>),
    /// unification variable / unknown
    Meta(u32),
}

impl Ty {
    pub fn func(a: Ty, b: Ty) -> Ty {
        Ty::Fn(Rc::new(a), Rc::new(b))
    }
    pub fn funcs(args: &[Ty], r: Ty) -> Ty {
        args.iter().rev().fold(r, |acc, a| Ty::func(a.clone(), acc))
    }
    pub fn subst(&self, s: &[(B, Ty)]) -> Ty {
        match self {
            Ty::Int | Ty::Bool | Ty::Str | Ty::Meta(_) => self.clone(),
            Ty::Var(v) => s.iter().find(|(b, _)| b == v).map(|(_, t)| t.clone()).unwrap_or_else(|| self.clone()),
            Ty::Con(c, a) => Ty::Con(*c, a.iter().map(|t| t.subst(s)).collect()),
            Ty::Fn(a, b) => Ty::func(a.subst(s), b.subst(s)),
            Ty::Folded(a, b) => Ty::Folded(Rc::new(a.subst(s)), Rc::new(b.subst(s))),
        }
    }
    pub fn any(&self, f: &mut dyn FnMut(&Ty) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            Ty::Con(_, a) => a.iter().any(|t| t.any(f)),
            Ty::Fn(a, b) | Ty::Folded(a, b) => a.any(f) || b.any(f),
            _ => false,
        }
    }
    pub fn mentions(&self, c: B) -> bool {
        self.any(&mut |t| matches!(t, Ty::Con(x, _) | Ty::Var(x) if *x == c))
    }
    pub fn has_folded(&self) -> bool {
        self.any(&mut |t| matches!(t, Ty::Folded(..)))
    }
    pub fn has_meta(&self) -> bool {
        self.any(&mut |t| matches!(t, Ty::Meta(_)))
    }
    pub fn size(&self) -> usize {
        match self {
            Ty::Con(_, a) => 1 + a.iter().map(|t| t.size()).sum::<usize>(),
            Ty::Fn(a, b) | Ty::Folded(a, b) => 1 + a.size() + b.size(),
            _ => 1,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Scheme {
    pub vars: Vec<B>,
    pub ty: Ty,
}

#[derive(Clone, Debug)]
pub enum BK {
    Value(Scheme),
    /// type binder, index of the constructor within its declaration
    Ctor(B, usize),
    Type,
    TyVar,
    Module,
}

#[derive(Clone, Debug)]
pub struct Binder {
    pub name: String,
    pub kind: BK,
}

#[derive(Clone, Debug)]
pub enum Field {
    Rec,
    Ty(Ty),
}

#[derive(Clone, Debug)]
pub struct CtorDecl {
    pub b: B,
    pub fields: Vec<Field>,
}

#[derive(Clone, Debug)]
pub struct TypeDecl {
    pub b: B,
    pub params: Vec<B>,
    pub ctors: Vec<CtorDecl>,
    pub export: bool,
    pub export_ctors: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Mod,
    Lt,
    Le,
    Gt,
    Ge,
    Eq,
    Ne,
    Pipe,
}

pub const INT_OPS: [Op; 5] = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod];
pub const CMP_OPS: [Op; 6] = [Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne];

impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Add => "+",
            Op::Sub => "-",
            Op::Mul => "*",
            Op::Div => "/",
            Op::Mod => "%",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Pipe => "|>",
        }
    }
    /// 4: `* / %`, 3: `+ -`, 2: comparisons, 1: `|>`
    pub fn prec(self) -> u8 {
        match self {
            Op::Mul | Op::Div | Op::Mod => 4,
            Op::Add | Op::Sub => 3,
            Op::Pipe => 1,
            _ => 2,
        }
    }
}

#[derive(Clone, Debug)]
pub struct E {
    pub id: u32,
    pub ty: Ty,
    pub k: K,
}

#[derive(Clone, Debug)]
pub enum K {
    Var(B),
    Int(u64),
    Bool(bool),
    Str(Rc<str>),
    Hole(String),
    App(Box<E>, Box<E>),
    Bin(Op, Box<E>, Box<E>),
    If(Box<E>, Box<E>, Box<E>),
    Lam { p: B, fold: bool, body: Box<E> },
    Let { b: B, ann: bool, val: Box<E>, body: Box<E> },
    Match { scrut: Box<E>, arms: Vec<Arm> },
}

#[derive(Clone, Debug)]
pub struct Arm {
    pub ctor: B,
    pub vars: Vec<B>,
    pub body: E,
}

#[derive(Clone, Debug)]
pub struct ValDecl {
    pub b: B,
    pub ann: bool,
    pub export: bool,
    pub e: E,
}

#[derive(Clone, Debug)]
pub struct Exposed {
    pub name: String,
    pub binders: Vec<B>,
}

#[derive(Clone, Debug)]
pub struct Import {
    pub target: usize,
    pub alias: Option<B>,
    pub exposed: Option<Vec<Exposed>>,
}

#[derive(Clone, Debug)]
pub enum Item {
    Import(Import),
    Type(TypeDecl),
    Val(ValDecl),
}

#[derive(Clone, Debug)]
pub struct Module {
    pub path: String,
    /// builtin: never printed
    pub std: bool,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Copy, PartialOrd, Ord)]
pub enum Ns {
    Value,
    Ctor,
    Type,
    Module,
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub binders: Vec<Binder>,
    pub modules: Vec<Module>,
    /// declarations of all types by type binder (including std)
    pub decls: std::collections::BTreeMap<B, Rc<TypeDecl>>,
    pub next_id: u32,
}

impl Prog {
    pub fn name(&self, b: B) -> &str {
        &self.binders[b].name
    }
    pub fn fresh(&mut self, name: &str, kind: BK) -> B {
        self.binders.push(Binder { name: name.to_owned(), kind });
        self.binders.len() - 1
    }
    pub fn id(&mut self) -> u32 {
        self.next_id += 1;
        self.next_id
    }
    pub fn mk(&mut self, ty: Ty, k: K) -> E {
        let id = self.id();
        E { id, ty, k }
    }
    pub fn scheme(&self, b: B) -> Scheme {
        match &self.binders[b].kind {
            BK::Value(s) => s.clone(),
            BK::Ctor(t, i) => self.ctor_scheme(*t, *i),
            k => panic!("no scheme for {:?}", k),
        }
    }
    pub fn ctor_scheme(&self, t: B, i: usize) -> Scheme {
        let d = &self.decls[&t];
        let whole = Ty::Con(t, d.params.iter().map(|&p| Ty::Var(p)).collect());
        let args: Vec<Ty> = d.ctors[i]
            .fields
            .iter()
            .map(|f| match f {
                Field::Rec => whole.clone(),
                Field::Ty(t) => t.clone(),
            })
            .collect();
        Scheme { vars: d.params.clone(), ty: Ty::funcs(&args, whole) }
    }
    pub fn export(&self, m: usize, ns: Ns, name: &str) -> Option<B> {
        let mut out = None;
        for it in &self.modules[m].items {
            match it {
                Item::Import(_) => {}
                Item::Type(t) => {
                    if t.export_ctors && (ns == Ns::Ctor || ns == Ns::Value) {
                        for c in &t.ctors {
                            if self.name(c.b) == name {
                                out = Some(c.b);
                            }
                        }
                    }
                    if t.export && ns == Ns::Type && self.name(t.b) == name {
                        out = Some(t.b);
                    }
                }
                Item::Val(v) => {
                    if v.export && ns == Ns::Value && self.name(v.b) == name {
                        out = Some(v.b);
                    }
                }
            }
        }
        out
    }
    /// exports of a module: (namespace, name) -> binder, last definition wins
    pub fn exports(&self, m: usize) -> Vec<(Ns, String, B)> {
        let mut out: Vec<(Ns, String, B)> = Vec::new();
        let mut add = |ns: Ns, n: &str, b: B| {
            out.retain(|(a, c, _)| !(*a == ns && c == n));
            out.push((ns, n.to_owned(), b));
        };
        for it in &self.modules[m].items {
            match it {
                Item::Import(_) => {}
                Item::Type(t) => {
                    if t.export_ctors {
                        for c in &t.ctors {
                            add(Ns::Ctor, self.name(c.b), c.b);
                            add(Ns::Value, self.name(c.b), c.b);
                        }
                    }
                    if t.export {
                        add(Ns::Type, self.name(t.b), t.b);
                    }
                }
                Item::Val(v) => {
                    if v.export {
                        add(Ns::Value, self.name(v.b), v.b);
                    }
                }
            }
        }
        out
    }
}

pub fn walk<'a>(e: &'a E, f: &mut dyn FnMut(&'a E)) {
    f(e);
    match &e.k {
        K::Var(_) | K::Int(_) | K::Bool(_) | K::Str(_) | K::Hole(_) => {}
        K::App(a, b) | K::Bin(_, a, b) => {
            walk(a, f);
            walk(b, f);
        }
        K::If(a, b, c) => {
            walk(a, f);
            walk(b, f);
            walk(c, f);
        }
        K::Lam { body, .. } => walk(body, f),
        K::Let { val, body, .. } => {
            walk(val, f);
            walk(body, f);
        }
        K::Match { scrut, arms } => {
            walk(scrut, f);
            for a in arms {
                walk(&a.body, f);
            }
        }
    }
}

pub fn walk_mut(e: &mut E, f: &mut dyn FnMut(&mut E)) {
    f(e);
    match &mut e.k {
        K::Var(_) | K::Int(_) | K::Bool(_) | K::Str(_) | K::Hole(_) => {}
        K::App(a, b) | K::Bin(_, a, b) => {
            walk_mut(a, f);
            walk_mut(b, f);
        }
        K::If(a, b, c) => {
            walk_mut(a, f);
            walk_mut(b, f);
            walk_mut(c, f);
        }
        K::Lam { body, .. } => walk_mut(body, f),
        K::Let { val, body, .. } => {
            walk_mut(val, f);
            walk_mut(body, f);
        }
        K::Match { scrut, arms } => {
            walk_mut(scrut, f);
            for a in arms {
                walk_mut(&mut a.body, f);
            }
        }
    }
}
