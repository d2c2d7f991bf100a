//! Reference evaluator, written from the language description only.

use crate::ast::*;
use crate::stdlib::StdTypes;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub enum V {
    Int(u64),
    Bool(bool),
    Str(Rc<[u8]>),
    Data(B, Rc<Vec<V>>),
    Clo(Rc<Clo>),
    /// partially applied native or constructor
    Part(Head, Rc<Vec<V>>),
    Array(Rc<Vec<V>>),
}

#[derive(Clone, Copy)]
pub enum Head {
    Ctor(B),
    Native(B),
}

pub struct Clo {
    env: Env,
    p: B,
    fold: bool,
    body: *const E,
}

type Env = Option<Rc<Node>>;
pub struct Node {
    b: B,
    v: V,
    next: Env,
}

#[derive(Debug)]
pub enum Stop {
    Fuel,
    Trap(String),
}

pub struct Eval<'p> {
    pub prog: &'p Prog,
    pub st: StdTypes,
    pub fuel: u64,
    pub used: u64,
    /// comparison functions are known to be orders
    pub orders: bool,
    /// bytes of strings and constructors made
    pub allocated: u64,
    globals: HashMap<B, V>,
    natives: HashMap<B, (&'static str, &'static str, usize)>,
}

type R = Result<V, Stop>;

fn arity(t: &Ty) -> usize {
    match t {
        Ty::Fn(_, b) => 1 + arity(b),
        _ => 0,
    }
}

impl<'p> Eval<'p> {
    pub fn new(prog: &'p Prog, st: StdTypes, fuel: u64) -> Eval<'p> {
        let mut natives = HashMap::new();
        for (m, (path, _)) in crate::stdlib::STD.iter().enumerate() {
            for it in &prog.modules[m].items {
                if let Item::Val(v) = it {
                    let name = crate::stdlib::STD[m].1.iter().find(|(n, _)| *n == prog.name(v.b)).unwrap().0;
                    natives.insert(v.b, (*path, name, arity(&prog.scheme(v.b).ty)));
                }
            }
        }
        Eval { prog, st, fuel, used: 0, orders: false, allocated: 0, globals: HashMap::new(), natives }
    }

    fn tick(&mut self, n: u64) -> Result<(), Stop> {
        self.used = self.used.saturating_add(n);
        if self.used > self.fuel {
            Err(Stop::Fuel)
        } else {
            Ok(())
        }
    }

    /// Evaluate all definitions of the module `root` (and what it imports), in
    /// order; returns the printed exports of `root`.
    pub fn run(&mut self, root: usize) -> Result<String, Stop> {
        let mut out = String::new();
        for m in 0..self.prog.modules.len() {
            let module = &self.prog.modules[m];
            if module.std {
                continue;
            }
            for it in &module.items {
                if let Item::Val(v) = it {
                    let val = self.eval(&v.e, &None)?;
                    if m == root && v.export {
                        out.push_str(self.prog.name(v.b));
                        out.push_str(" = ");
                        self.show(&val, false, &mut out)?;
                        out.push('\n');
                    }
                    self.globals.insert(v.b, val);
                }
            }
        }
        Ok(out)
    }

    pub fn global(&self, b: B) -> Option<V> {
        self.globals.get(&b).cloned()
    }

    pub fn show(&mut self, v: &V, atom: bool, out: &mut String) -> Result<(), Stop> {
        self.tick(1)?;
        match v {
            V::Int(i) => out.push_str(&i.to_string()),
            V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            V::Str(s) => show_bytes(s, out),
            V::Data(c, fs) => {
                let paren = atom && !fs.is_empty();
                if paren {
                    out.push('(');
                }
                out.push_str(self.prog.name(*c));
                for f in fs.iter() {
                    out.push(' ');
                    self.show(f, true, out)?;
                }
                if paren {
                    out.push(')');
                }
            }
            V::Clo(_) | V::Part(..) => out.push_str(if atom { "(\\_ -> _)" } else { "\\_ -> _" }),
            V::Array(_) => panic!("arrays are not shown"),
        }
        if out.len() > 200_000 {
            return Err(Stop::Fuel);
        }
        Ok(())
    }

    fn lookup(&mut self, b: B, env: &Env) -> R {
        let mut e = env;
        while let Some(n) = e {
            if n.b == b {
                return Ok(n.v.clone());
            }
            e = &n.next;
        }
        if let Some(v) = self.globals.get(&b) {
            return Ok(v.clone());
        }
        if let BK::Ctor(t, i) = self.prog.binders[b].kind {
            let n = self.prog.decls[&t].ctors[i].fields.len();
            return Ok(if n == 0 { V::Data(b, Rc::new(Vec::new())) } else { V::Part(Head::Ctor(b), Rc::new(Vec::new())) });
        }
        if let Some(&(m, n, a)) = self.natives.get(&b) {
            if a == 0 {
                return self.native(m, n, &[]);
            }
            return Ok(V::Part(Head::Native(b), Rc::new(Vec::new())));
        }
        panic!("unbound {} in reference evaluation", self.prog.name(b));
    }

    pub fn eval(&mut self, e: &E, env: &Env) -> R {
        self.tick(1)?;
        match &e.k {
            K::Var(b) => self.lookup(*b, env),
            K::Int(i) => Ok(V::Int(*i)),
            K::Bool(b) => Ok(V::Bool(*b)),
            K::Str(s) => Ok(V::Str(s.as_bytes().into())),
            K::Hole(h) => Err(Stop::Trap(h.clone())),
            K::App(f, a) => {
                let f = self.eval(f, env)?;
                let a = self.eval(a, env)?;
                self.apply(f, a)
            }
            K::Bin(Op::Pipe, a, f) => {
                // `a |> f` is `f a`
                let f = self.eval(f, env)?;
                let a = self.eval(a, env)?;
                self.apply(f, a)
            }
            K::Bin(op, a, b) => {
                let a = self.eval(a, env)?;
                let b = self.eval(b, env)?;
                let (V::Int(a), V::Int(b)) = (a, b) else { panic!("operands") };
                Ok(binop(*op, a, b))
            }
            K::If(c, t, f) => {
                let V::Bool(c) = self.eval(c, env)? else { panic!("condition") };
                if c {
                    self.eval(t, env)
                } else {
                    self.eval(f, env)
                }
            }
            K::Lam { p, fold, body } => {
                self.allocated += 40;
                // a value that is already folded has nothing left to fold
                let folded = matches!(&e.ty, Ty::Fn(a, _) if matches!(**a, Ty::Folded(..)));
                Ok(V::Clo(Rc::new(Clo {
                    env: env.clone(),
                    p: *p,
                    fold: *fold && !folded,
                    body: &**body,
                })))
            }
            K::Let { b, val, body, .. } => {
                let v = self.eval(val, env)?;
                let env = Some(Rc::new(Node { b: *b, v, next: env.clone() }));
                self.eval(body, &env)
            }
            K::Match { scrut, arms } => {
                let V::Data(c, fs) = self.eval(scrut, env)? else { panic!("scrutinee") };
                let arm = arms.iter().find(|a| a.ctor == c).expect("arm");
                let mut env = env.clone();
                for (b, v) in arm.vars.iter().zip(fs.iter()) {
                    env = Some(Rc::new(Node { b: *b, v: v.clone(), next: env }));
                }
                self.eval(&arm.body, &env)
            }
        }
    }

    pub fn apply(&mut self, f: V, a: V) -> R {
        self.tick(1)?;
        match &f {
            V::Clo(c) => {
                let arg = if c.fold {
                    if let V::Data(ctor, fs) = &a {
                        let BK::Ctor(t, i) = self.prog.binders[*ctor].kind else { panic!() };
                        let decl = self.prog.decls[&t].clone();
                        let mut out = Vec::new();
                        for (fd, v) in decl.ctors[i].fields.iter().zip(fs.iter()) {
                            out.push(match fd {
                                Field::Rec => self.apply(f.clone(), v.clone())?,
                                Field::Ty(_) => v.clone(),
                            });
                        }
                        V::Data(*ctor, Rc::new(out))
                    } else {
                        a
                    }
                } else {
                    a
                };
                let env = Some(Rc::new(Node { b: c.p, v: arg, next: c.env.clone() }));
                // the program outlives the evaluation
                let body: &E = unsafe { &*c.body };
                self.eval(body, &env)
            }
            V::Part(h, args) => {
                self.allocated += 24 + 8 * args.len() as u64;
                let mut args = (**args).clone();
                args.push(a);
                match h {
                    Head::Ctor(c) => {
                        let BK::Ctor(t, i) = self.prog.binders[*c].kind else { panic!() };
                        if args.len() == self.prog.decls[&t].ctors[i].fields.len() {
                            Ok(V::Data(*c, Rc::new(args)))
                        } else {
                            Ok(V::Part(*h, Rc::new(args)))
                        }
                    }
                    Head::Native(n) => {
                        let (m, name, ar) = self.natives[n];
                        if args.len() == ar {
                            self.native(m, name, &args)
                        } else {
                            Ok(V::Part(*h, Rc::new(args)))
                        }
                    }
                }
            }
            _ => panic!("applying a non-function"),
        }
    }

    fn apply2(&mut self, f: &V, a: V, b: V) -> R {
        let g = self.apply(f.clone(), a)?;
        self.apply(g, b)
    }

    // ---- conversions

    fn list_items(&mut self, v: &V) -> Result<Vec<V>, Stop> {
        let mut out = Vec::new();
        let mut cur = v.clone();
        loop {
            let V::Data(c, fs) = &cur else { panic!("list") };
            if *c == self.st.nil {
                return Ok(out);
            }
            self.tick(1)?;
            out.push(fs[0].clone());
            let next = fs[1].clone();
            cur = next;
        }
    }
    pub fn mk_list(&mut self, xs: Vec<V>) -> R {
        self.tick(xs.len() as u64)?;
        let mut l = V::Data(self.st.nil, Rc::new(Vec::new()));
        for x in xs.into_iter().rev() {
            l = V::Data(self.st.cons, Rc::new(vec![x, l]));
        }
        Ok(l)
    }
    fn opt(&self, v: Option<V>) -> V {
        match v {
            None => V::Data(self.st.none, Rc::new(Vec::new())),
            Some(v) => V::Data(self.st.some, Rc::new(vec![v])),
        }
    }
    fn un_opt(&self, v: &V) -> Option<V> {
        let V::Data(c, fs) = v else { panic!("option") };
        if *c == self.st.some {
            Some(fs[0].clone())
        } else {
            None
        }
    }
    fn un_res(&self, v: &V) -> Result<V, V> {
        let V::Data(c, fs) = v else { panic!("result") };
        if *c == self.st.ok {
            Ok(fs[0].clone())
        } else {
            Err(fs[0].clone())
        }
    }
    fn ok(&self, v: V) -> V {
        V::Data(self.st.ok, Rc::new(vec![v]))
    }
    fn er(&self, v: V) -> V {
        V::Data(self.st.err, Rc::new(vec![v]))
    }
    fn res(&self, v: Result<V, V>) -> V {
        match v {
            Ok(v) => self.ok(v),
            Err(v) => self.er(v),
        }
    }

    fn less(&mut self, f: &V, a: &V, b: &V) -> R {
        let g = self.apply(f.clone(), a.clone())?;
        self.apply(g, b.clone())
    }

    fn native(&mut self, m: &'static str, n: &'static str, a: &[V]) -> R {
        self.tick(2)?;
        fn int(v: &V) -> u64 {
            let V::Int(i) = v else { panic!("int") };
            *i
        }
        fn bool_(v: &V) -> bool {
            let V::Bool(b) = v else { panic!("bool") };
            *b
        }
        fn str_(v: &V) -> Rc<[u8]> {
            let V::Str(s) = v else { panic!("string") };
            s.clone()
        }
        fn mk(s: &[u8]) -> V {
            V::Str(s.into())
        }
        Ok(match (m, n) {
            ("std/intrinsics", "iterate") | ("std/int", "iterate") => {
                let mut x = a[2].clone();
                let k = int(&a[0]);
                self.tick(k)?;
                for _ in 0..k {
                    x = self.apply(a[1].clone(), x)?;
                }
                x
            }
            ("std/intrinsics", "stringLength") | ("std/string", "length") => V::Int(str_(&a[0]).len() as u64),
            ("std/intrinsics", "stringConcat") | ("std/string", "concat") => {
                let (x, y) = (str_(&a[0]), str_(&a[1]));
                self.tick((x.len() + y.len()) as u64 / 64)?;
                self.allocated += (x.len() + y.len()) as u64 + 24;
                let mut v = x.to_vec();
                v.extend_from_slice(&y);
                mk(&v)
            }
            ("std/intrinsics", "stringCharAt") | ("std/string", "charAt") => V::Int(char_at(int(&a[0]), &str_(&a[1]))),
            ("std/intrinsics", "stringSubstring") | ("std/string", "substring") => mk(substring(int(&a[0]), int(&a[1]), &str_(&a[2]))),
            ("std/intrinsics", "stringFromChar") | ("std/string", "fromChar") => mk(&[(int(&a[0]) % 256) as u8]),
            ("std/intrinsics", "intToString") | ("std/int", "toString") => mk(int(&a[0]).to_string().as_bytes()),

            ("std/option", "map") => match self.un_opt(&a[1]) {
                Some(x) => {
                    let y = self.apply(a[0].clone(), x)?;
                    self.opt(Some(y))
                }
                None => self.opt(None),
            },
            ("std/option", "andThen") => match self.un_opt(&a[1]) {
                Some(x) => self.apply(a[0].clone(), x)?,
                None => self.opt(None),
            },
            ("std/option", "flatten") => match self.un_opt(&a[0]) {
                Some(x) => x,
                None => self.opt(None),
            },
            ("std/option", "unwrapOr") => self.un_opt(&a[1]).unwrap_or_else(|| a[0].clone()),
            ("std/option", "apply") => match (self.un_opt(&a[1]), self.un_opt(&a[0])) {
                (Some(f), Some(x)) => {
                    let y = self.apply(f, x)?;
                    self.opt(Some(y))
                }
                _ => self.opt(None),
            },
            ("std/option", "isSome") => V::Bool(self.un_opt(&a[0]).is_some()),
            ("std/option", "isNone") => V::Bool(self.un_opt(&a[0]).is_none()),

            ("std/result", "map") => match self.un_res(&a[1]) {
                Ok(x) => {
                    let y = self.apply(a[0].clone(), x)?;
                    self.ok(y)
                }
                Err(e) => self.er(e),
            },
            ("std/result", "mapErr") => match self.un_res(&a[1]) {
                Ok(x) => self.ok(x),
                Err(e) => {
                    let y = self.apply(a[0].clone(), e)?;
                    self.er(y)
                }
            },
            ("std/result", "andThen") => match self.un_res(&a[1]) {
                Ok(x) => self.apply(a[0].clone(), x)?,
                Err(e) => self.er(e),
            },
            ("std/result", "flatten") => match self.un_res(&a[0]) {
                Ok(x) => x,
                Err(e) => self.er(e),
            },
            ("std/result", "unwrapOr") => self.un_res(&a[1]).unwrap_or_else(|_| a[0].clone()),
            ("std/result", "ok") => {
                let r = self.un_res(&a[0]).ok();
                self.opt(r)
            }
            ("std/result", "err") => {
                let r = self.un_res(&a[0]).err();
                self.opt(r)
            }
            ("std/result", "okOr") => {
                let r = self.un_opt(&a[1]).ok_or_else(|| a[0].clone());
                self.res(r)
            }
            ("std/result", "apply") => match (self.un_res(&a[1]), self.un_res(&a[0])) {
                (Err(e), _) => self.er(e),
                (Ok(_), Err(e)) => self.er(e),
                (Ok(f), Ok(x)) => {
                    let y = self.apply(f, x)?;
                    self.ok(y)
                }
            },
            ("std/result", "join") => match self.un_res(&a[0]) {
                Ok(x) | Err(x) => x,
            },

            ("std/list", "map") => {
                let xs = self.list_items(&a[1])?;
                let mut out = Vec::new();
                for x in xs {
                    out.push(self.apply(a[0].clone(), x)?);
                }
                self.mk_list(out)?
            }
            ("std/list", "filter") => {
                let xs = self.list_items(&a[1])?;
                let mut out = Vec::new();
                for x in xs {
                    if bool_(&self.apply(a[0].clone(), x.clone())?) {
                        out.push(x);
                    }
                }
                self.mk_list(out)?
            }
            ("std/list", "sum") => V::Int(self.list_items(&a[0])?.iter().fold(0, |s, x| s.wrapping_add_(int(x)))),
            ("std/list", "product") => V::Int(self.list_items(&a[0])?.iter().fold(1u64, |s, x| s.wrapping_mul(int(x)))),
            ("std/list", "any") => V::Bool(self.list_items(&a[0])?.iter().any(bool_)),
            ("std/list", "all") => V::Bool(self.list_items(&a[0])?.iter().all(bool_)),
            ("std/list", "head") => {
                let h = self.list_items(&a[0])?.first().cloned();
                self.opt(h)
            }
            ("std/list", "tail") => {
                let V::Data(c, fs) = &a[0] else { panic!() };
                if *c == self.st.nil {
                    self.opt(None)
                } else {
                    self.opt(Some(fs[1].clone()))
                }
            }
            ("std/list", "reverse") => {
                let mut xs = self.list_items(&a[0])?;
                xs.reverse();
                self.mk_list(xs)?
            }
            ("std/list", "max") => {
                let r = self.list_items(&a[0])?.iter().map(int).max().map(V::Int);
                self.opt(r)
            }
            ("std/list", "min") => {
                let r = self.list_items(&a[0])?.iter().map(int).min().map(V::Int);
                self.opt(r)
            }
            ("std/list", "allSome") => {
                let xs = self.list_items(&a[0])?;
                let r: Option<Vec<V>> = xs.iter().map(|x| self.un_opt(x)).collect();
                match r {
                    None => self.opt(None),
                    Some(v) => {
                        let l = self.mk_list(v)?;
                        self.opt(Some(l))
                    }
                }
            }
            ("std/list", "allOk") => {
                let xs = self.list_items(&a[0])?;
                let r: Result<Vec<V>, V> = xs.iter().map(|x| self.un_res(x)).collect();
                match r {
                    Err(e) => self.er(e),
                    Ok(v) => {
                        let l = self.mk_list(v)?;
                        self.ok(l)
                    }
                }
            }
            ("std/list", "skip") => {
                let k = int(&a[0]);
                self.tick(k.saturating_mul(4))?;
                let xs = self.list_items(&a[1])?;
                self.mk_list(xs.into_iter().skip(k as usize).collect())?
            }
            ("std/list", "take") => {
                let k = int(&a[0]);
                self.tick(k.saturating_mul(4))?;
                let xs = self.list_items(&a[1])?;
                self.mk_list(xs.into_iter().take(k as usize).collect())?
            }
            ("std/list", "length") => V::Int(self.list_items(&a[0])?.len() as u64),
            ("std/list", "foldr") => {
                let xs = self.list_items(&a[2])?;
                let mut acc = a[1].clone();
                for x in xs.into_iter().rev() {
                    acc = self.apply2(&a[0], x, acc)?;
                }
                acc
            }
            ("std/list", "foldl") => {
                let xs = self.list_items(&a[2])?;
                let mut acc = a[0].clone();
                for x in xs {
                    acc = self.apply2(&a[1], acc, x)?;
                }
                acc
            }
            ("std/list", "repeat") => {
                let k = int(&a[0]);
                self.tick(k.saturating_mul(4))?;
                self.mk_list(vec![a[1].clone(); k as usize])?
            }
            ("std/list", "filterMap") => {
                let xs = self.list_items(&a[1])?;
                let mut out = Vec::new();
                for x in xs {
                    let r = self.apply(a[0].clone(), x)?;
                    out.extend(self.un_opt(&r));
                }
                self.mk_list(out)?
            }
            ("std/list", "concat") => {
                let mut xs = self.list_items(&a[0])?;
                xs.extend(self.list_items(&a[1])?);
                self.mk_list(xs)?
            }
            ("std/list", "join") => {
                let xs = self.list_items(&a[1])?;
                let sep = str_(&a[0]);
                let parts: Vec<Vec<u8>> = xs.iter().map(|x| str_(x).to_vec()).collect();
                let total: usize = parts.iter().map(|p| p.len() + sep.len()).sum();
                self.tick(total as u64 / 4)?;
                mk(&parts.join(&sep[..]))
            }
            ("std/list", "range") => {
                let (s, e) = (int(&a[0]), int(&a[1]));
                let k = e.wrapping_sub(s);
                self.tick(k.saturating_mul(4))?;
                self.mk_list((0..k).map(|i| V::Int(s.wrapping_add(i))).collect())?
            }
            ("std/list", "zip") => {
                let xs = self.list_items(&a[1])?;
                let ys = self.list_items(&a[2])?;
                let mut out = Vec::new();
                for (x, y) in xs.into_iter().zip(ys) {
                    out.push(self.apply2(&a[0], x, y)?);
                }
                self.mk_list(out)?
            }
            ("std/list", "flatMap") => {
                let xs = self.list_items(&a[1])?;
                let mut out = Vec::new();
                for x in xs {
                    let l = self.apply(a[0].clone(), x)?;
                    out.extend(self.list_items(&l)?);
                }
                self.mk_list(out)?
            }
            ("std/list", "flatten") => {
                let xs = self.list_items(&a[0])?;
                let mut out = Vec::new();
                for x in xs {
                    out.extend(self.list_items(&x)?);
                }
                self.mk_list(out)?
            }

            ("std/string", "split") => {
                let (c, s) = (int(&a[0]), str_(&a[1]));
                self.tick(s.len() as u64 * 10)?;
                let parts: Vec<V> = s.split(|&b| u64::from(b) == c).map(mk).collect();
                self.mk_list(parts)?
            }
            ("std/string", "lines") => {
                let s = str_(&a[0]);
                self.tick(s.len() as u64 * 10)?;
                let l = lines(&s).into_iter().map(|x| mk(&x)).collect();
                self.mk_list(l)?
            }
            ("std/string", "foldChars") => {
                let s = str_(&a[2]);
                let mut acc = a[0].clone();
                for &b in s.iter() {
                    acc = self.apply2(&a[1], acc, V::Int(u64::from(b)))?;
                }
                acc
            }
            ("std/string", "equal") => {
                self.tick(str_(&a[0]).len() as u64 * 10)?;
                V::Bool(str_(&a[0]) == str_(&a[1]))
            }
            ("std/string", "startsWith") => {
                self.tick(str_(&a[0]).len() as u64 * 10)?;
                V::Bool(str_(&a[1]).starts_with(&str_(&a[0])))
            }
            ("std/string", "chars") => {
                let s = str_(&a[0]);
                self.tick(s.len() as u64 * 10)?;
                self.mk_list(s.iter().map(|&b| V::Int(u64::from(b))).collect())?
            }
            ("std/string", "trim") => {
                let s = str_(&a[0]);
                self.tick(s.len() as u64 * 20)?;
                mk(trim(&s))
            }
            ("std/string", "newline") => mk(b"\n"),

            ("std/int", "parse") => {
                let s = str_(&a[0]);
                self.tick(s.len() as u64 * 10)?;
                match parse(&s) {
                    Some(x) => self.ok(V::Int(x)),
                    None => self.er(V::Data(self.st.parse_err_c, Rc::new(Vec::new()))),
                }
            }
            ("std/int", "min") => V::Int(int(&a[0]).min(int(&a[1]))),
            ("std/int", "max") => V::Int(int(&a[0]).max(int(&a[1]))),
            ("std/int", "gcd") => {
                self.tick(300)?;
                V::Int(gcd(int(&a[0]), int(&a[1])))
            }
            ("std/int", "lcm") => {
                self.tick(300)?;
                let (x, y) = (int(&a[0]), int(&a[1]));
                let g = gcd(x, y);
                V::Int(if g == 0 { 0 } else { (x / g).wrapping_mul(y) })
            }
            ("std/int", "bitXor") => {
                self.tick(600)?;
                V::Int(int(&a[0]) ^ int(&a[1]))
            }
            ("std/int", "bitAnd") => {
                self.tick(600)?;
                V::Int(int(&a[0]) & int(&a[1]))
            }
            ("std/int", "bitOr") => {
                self.tick(600)?;
                V::Int(int(&a[0]) | int(&a[1]))
            }

            ("std/array", "length") => V::Int(arr(&a[0]).len() as u64),
            ("std/array", "empty") => V::Array(Rc::new(Vec::new())),
            ("std/array", "new") => {
                let k = int(&a[0]);
                self.tick(k.saturating_add(300))?;
                V::Array(Rc::new(vec![a[1].clone(); k as usize]))
            }
            ("std/array", "mapIdx") => {
                let k = int(&a[0]);
                let v = arr(&a[2]);
                self.tick(30 + v.len() as u64)?;
                if k < v.len() as u64 {
                    let mut w = (*v).clone();
                    w[k as usize] = self.apply(a[1].clone(), w[k as usize].clone())?;
                    V::Array(Rc::new(w))
                } else {
                    V::Array(v)
                }
            }
            ("std/array", "get") => {
                self.tick(20)?;
                let r = arr(&a[1]).get(usize::try_from(int(&a[0])).unwrap()).cloned();
                self.opt(r)
            }
            ("std/array", "set") => {
                let k = int(&a[0]);
                let v = arr(&a[2]);
                self.tick(30 + v.len() as u64)?;
                let mut w = (*v).clone();
                if k < w.len() as u64 {
                    w[k as usize] = a[1].clone();
                }
                V::Array(Rc::new(w))
            }
            ("std/array", "toList") => {
                let v = arr(&a[0]);
                self.tick(30 * v.len() as u64)?;
                self.mk_list((*v).clone())?
            }
            ("std/array", "fromList") => {
                let v = self.list_items(&a[0])?;
                self.tick(50 * v.len() as u64)?;
                V::Array(Rc::new(v))
            }
            ("std/array", "truncate") => {
                let mut v = (*arr(&a[1])).clone();
                let k = int(&a[0]);
                if k < v.len() as u64 {
                    v.truncate(k as usize);
                }
                V::Array(Rc::new(v))
            }
            // the order among equal elements is not specified: modelled only
            // where it cannot be observed
            ("std/list", "sortBy") if self.orders => {
                let mut out: Vec<V> = Vec::new();
                for x in self.list_items(&a[1])? {
                    self.tick(60)?;
                    let mut k = out.len();
                    while k > 0 && bool_(&self.less(&a[0], &x, &out[k - 1].clone())?) {
                        k -= 1;
                    }
                    out.insert(k, x);
                }
                self.mk_list(out)?
            }
            ("std/list", "maxBy") | ("std/list", "minBy") if self.orders => {
                let mut best: Option<V> = None;
                for x in self.list_items(&a[1])? {
                    self.tick(20)?;
                    best = match best {
                        None => Some(x),
                        Some(b) => {
                            let better = if n == "maxBy" { self.less(&a[0], &b, &x)? } else { self.less(&a[0], &x, &b)? };
                            Some(if bool_(&better) { x } else { b })
                        }
                    };
                }
                self.opt(best)
            }
            _ => return Err(Stop::Fuel), // no model
        })
    }
}

fn arr(v: &V) -> Rc<Vec<V>> {
    let V::Array(a) = v else { panic!("array") };
    a.clone()
}

trait Wrap {
    fn wrapping_add_(self, o: u64) -> u64;
}
impl Wrap for u64 {
    fn wrapping_add_(self, o: u64) -> u64 {
        self.wrapping_add(o)
    }
}

pub fn binop(op: Op, a: u64, b: u64) -> V {
    match op {
        Op::Add => V::Int(a.wrapping_add(b)),
        Op::Sub => V::Int(a.wrapping_sub(b)),
        Op::Mul => V::Int(a.wrapping_mul(b)),
        Op::Div => V::Int(if b == 0 { 0 } else { a / b }),
        Op::Mod => V::Int(if b == 0 { a } else { a % b }),
        Op::Lt => V::Bool(a < b),
        Op::Le => V::Bool(a <= b),
        Op::Gt => V::Bool(a > b),
        Op::Ge => V::Bool(a >= b),
        Op::Eq => V::Bool(a == b),
        Op::Ne => V::Bool(a != b),
        Op::Pipe => unreachable!(),
    }
}

pub fn char_at(i: u64, s: &[u8]) -> u64 {
    if i < s.len() as u64 {
        u64::from(s[i as usize])
    } else {
        0
    }
}

pub fn substring(start: u64, len: u64, s: &[u8]) -> &[u8] {
    let n = s.len() as u64;
    let a = start.min(n);
    let b = a + len.min(n - a);
    &s[a as usize..b as usize]
}

pub fn gcd(a: u64, b: u64) -> u64 {
    let (mut a, mut b) = (a, b);
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

pub fn parse(s: &[u8]) -> Option<u64> {
    if s.is_empty() || !s.iter().all(|b| b.is_ascii_digit()) {
        return None;
    }
    Some(s.iter().fold(0u64, |a, &b| a.wrapping_mul(10).wrapping_add(u64::from(b - b'0'))))
}

pub fn trim(s: &[u8]) -> &[u8] {
    let mut s = s;
    while s.last() == Some(&b' ') {
        s = &s[..s.len() - 1];
    }
    while s.first() == Some(&b' ') {
        s = &s[1..];
    }
    s
}

/// Terminated lines lose one trailing carriage return, as the unterminated
/// last one does not.
pub fn lines(s: &[u8]) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let mut rest = s;
    while let Some(i) = rest.iter().position(|&b| b == b'\n') {
        let mut l = &rest[..i];
        if l.last() == Some(&b'\r') {
            l = &l[..l.len() - 1];
        }
        out.push(l.to_vec());
        rest = &rest[i + 1..];
    }
    if !rest.is_empty() {
        out.push(rest.to_vec());
    }
    out
}

pub fn show_bytes(s: &[u8], out: &mut String) {
    out.push('"');
    for &b in s {
        match b {
            32..=126 => out.push(b as char),
            b'\r' => out.push_str("\\r"),
            b'\n' => out.push_str("\\n"),
            _ => out.push_str(&format!("\\x{:02x}", b)),
        }
    }
    out.push('"');
}
