//! Reader and evaluator of the emitted intermediate representation, written
//! from what the text looks like.

use crate::ast::Op;
use crate::eval::{binop, char_at, show_bytes, substring, V as RV};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Name(Rc<str>),
    Int(u64),
    Str(Rc<[u8]>),
    Sym(&'static str),
    End,
}

const SYMS: &[&str] = &["->", "<=", ">=", "==", "!=", "#trap", "%", "(", ")", "[", "]", ",", ":", ";", "=", "\\", "@", "|", ".", "<", ">", "+", "-", "*", "/"];

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\n' || c == b'\r' {
            i += 1;
        } else if c.is_ascii_digit() {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            out.push(Tok::Int(s[st..i].parse().map_err(|_| format!("bad number {}", &s[st..i]))?));
        } else if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c >= 0x80 {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$' || b[i] >= 0x80) {
                i += 1;
            }
            out.push(Tok::Name(s[st..i].into()));
        } else if c == b'"' {
            i += 1;
            let mut v = Vec::new();
            loop {
                match b.get(i) {
                    None => return Err("string without end".into()),
                    Some(b'"') => break,
                    Some(b'\\') => match b.get(i + 1) {
                        Some(b'n') => {
                            v.push(b'\n');
                            i += 2;
                        }
                        Some(b'r') => {
                            v.push(b'\r');
                            i += 2;
                        }
                        Some(b'x') => {
                            v.push(u8::from_str_radix(s.get(i + 2..i + 4).unwrap_or(""), 16).map_err(|_| "bad escape")?);
                            i += 4;
                        }
                        _ => return Err("bad escape".into()),
                    },
                    Some(c) => {
                        v.push(*c);
                        i += 1;
                    }
                }
            }
            i += 1;
            out.push(Tok::Str(v.into()));
        } else {
            let Some(sym) = SYMS.iter().find(|x| s[i..].starts_with(**x)) else { return Err(format!("unexpected {:?}", &s[i..].chars().next())) };
            out.push(Tok::Sym(sym));
            i += sym.len();
        }
    }
    out.push(Tok::End);
    Ok(out)
}

#[derive(Debug, Clone, PartialEq)]
pub enum T {
    Prim(&'static str),
    Var(Rc<str>),
    Named(Rc<str>, Vec<T>),
    Fn(Vec<T>, Box<T>),
    All(Rc<str>, Box<T>),
}

#[derive(Debug)]
pub enum X {
    Bool(bool),
    Int(u64),
    Str(Rc<[u8]>),
    Name(Rc<str>),
    Call(Box<X>, Vec<X>),
    Prim(Rc<str>, Vec<X>),
    If(Box<X>, Box<X>, Box<X>),
    Bin(Op, Box<X>, Box<X>),
    Lam(Vec<(Rc<str>, T)>, Rc<X>),
    Match(Box<X>, Vec<(Rc<str>, Vec<Rc<str>>, X)>),
    Make(Rc<str>, Vec<T>, Vec<X>),
    Let(Rc<str>, Box<X>, Box<X>),
    LetRec(Rc<str>, T, Box<X>, Box<X>),
    Trap(Rc<[u8]>, T),
    Pi(Rc<str>, Box<X>),
    Inst(Box<X>, T),
}

pub struct Def {
    pub export: Option<String>,
    pub name: Rc<str>,
    pub ty: T,
    pub value: X,
}

struct P {
    t: Vec<Tok>,
    i: usize,
}

type R<T> = Result<T, String>;

const WORDS: &[&str] = &["let", "rec", "in", "match", "with", "end", "if", "then", "else", "true", "false", "Pi", "for", "export"];

impl P {
    fn peek(&self) -> &Tok {
        &self.t[self.i]
    }
    fn word(&self, w: &str) -> bool {
        matches!(self.peek(), Tok::Name(n) if &**n == w)
    }
    fn sym(&self, s: &str) -> bool {
        matches!(self.peek(), Tok::Sym(x) if *x == s)
    }
    fn err<A>(&self, what: &str) -> R<A> {
        let lo = self.i.saturating_sub(6);
        Err(format!("expected {} at token {}: ...{:?}", what, self.i, &self.t[lo..(self.i + 3).min(self.t.len())]))
    }
    fn eat_sym(&mut self, s: &str) -> R<()> {
        if self.sym(s) {
            self.i += 1;
            Ok(())
        } else {
            self.err(s)
        }
    }
    fn eat_word(&mut self, s: &str) -> R<()> {
        if self.word(s) {
            self.i += 1;
            Ok(())
        } else {
            self.err(s)
        }
    }
    fn name(&mut self) -> R<Rc<str>> {
        match self.peek().clone() {
            Tok::Name(n) if !WORDS.contains(&&*n) => {
                self.i += 1;
                Ok(n)
            }
            _ => self.err("name"),
        }
    }
    fn tyvar(&mut self) -> R<Rc<str>> {
        let n = self.name()?;
        if n.starts_with('t') && n.len() > 1 && n[1..].bytes().all(|b| b.is_ascii_digit()) {
            Ok(n)
        } else {
            self.err("type variable")
        }
    }

    // ---- types

    fn ty(&mut self) -> R<T> {
        if self.word("for") {
            self.i += 1;
            let v = self.tyvar()?;
            self.eat_sym(".")?;
            return Ok(T::All(v, Box::new(self.ty()?)));
        }
        if self.sym("(") {
            // parameters of a function or a parenthesized type
            self.i += 1;
            let mut ps = Vec::new();
            if !self.sym(")") {
                ps.push(self.ty()?);
                while self.sym(",") {
                    self.i += 1;
                    ps.push(self.ty()?);
                }
            }
            self.eat_sym(")")?;
            if self.sym("->") {
                self.i += 1;
                return Ok(T::Fn(ps, Box::new(self.ty()?)));
            }
            if ps.len() == 1 {
                return Ok(ps.pop().unwrap());
            }
            return self.err("->");
        }
        let head = self.ty_atom()?;
        match head {
            T::Named(n, _) => {
                let mut args = Vec::new();
                while matches!(self.peek(), Tok::Name(w) if !WORDS.contains(&&**w)) || self.sym("(") {
                    args.push(self.ty_atom()?);
                }
                Ok(T::Named(n, args))
            }
            t => Ok(t),
        }
    }
    fn ty_atom(&mut self) -> R<T> {
        if self.sym("(") {
            self.i += 1;
            let t = self.ty()?;
            self.eat_sym(")")?;
            return Ok(t);
        }
        let n = self.name()?;
        Ok(match &*n {
            "int" => T::Prim("int"),
            "bool" => T::Prim("bool"),
            "string" => T::Prim("string"),
            _ if n.contains('_') => T::Named(n, Vec::new()),
            _ => T::Var(n),
        })
    }

    // ---- expressions

    fn expr(&mut self) -> R<X> {
        if self.word("let") {
            self.i += 1;
            if self.word("rec") {
                self.i += 1;
                let n = self.name()?;
                self.eat_sym(":")?;
                let t = self.ty()?;
                self.eat_sym("=")?;
                let v = self.expr()?;
                self.eat_sym(";")?;
                return Ok(X::LetRec(n, t, Box::new(v), Box::new(self.expr()?)));
            }
            let n = self.name()?;
            self.eat_sym("=")?;
            let v = self.expr()?;
            self.eat_sym(";")?;
            return Ok(X::Let(n, Box::new(v), Box::new(self.expr()?)));
        }
        if self.word("if") {
            self.i += 1;
            let c = self.expr()?;
            self.eat_word("then")?;
            let a = self.expr()?;
            self.eat_word("else")?;
            return Ok(X::If(Box::new(c), Box::new(a), Box::new(self.expr()?)));
        }
        if self.word("Pi") {
            self.i += 1;
            let v = self.tyvar()?;
            self.eat_sym("->")?;
            return Ok(X::Pi(v, Box::new(self.expr()?)));
        }
        if self.sym("\\") {
            self.i += 1;
            self.eat_sym("(")?;
            let mut ps = Vec::new();
            while !self.sym(")") {
                if !ps.is_empty() {
                    self.eat_sym(",")?;
                }
                let n = self.name()?;
                self.eat_sym(":")?;
                ps.push((n, self.ty()?));
            }
            self.eat_sym(")")?;
            self.eat_sym("->")?;
            return Ok(X::Lam(ps, Rc::new(self.expr()?)));
        }
        if self.word("match") {
            self.i += 1;
            let s = self.expr()?;
            self.eat_word("with")?;
            let mut arms = Vec::new();
            while self.sym("|") {
                self.i += 1;
                self.eat_sym("@")?;
                let c = self.name()?;
                let mut vs = Vec::new();
                while !self.sym("->") {
                    vs.push(self.name()?);
                }
                self.i += 1;
                arms.push((c, vs, self.expr()?));
            }
            self.eat_word("end")?;
            return Ok(X::Match(Box::new(s), arms));
        }
        self.binary(0)
    }
    fn op(&self) -> Option<(Op, usize)> {
        let Tok::Sym(s) = self.peek() else { return None };
        Some(match *s {
            "<" => (Op::Lt, 0),
            "<=" => (Op::Le, 0),
            ">" => (Op::Gt, 0),
            ">=" => (Op::Ge, 0),
            "==" => (Op::Eq, 0),
            "!=" => (Op::Ne, 0),
            "+" => (Op::Add, 1),
            "-" => (Op::Sub, 1),
            "*" => (Op::Mul, 2),
            "/" => (Op::Div, 2),
            "%" => (Op::Mod, 2),
            _ => return None,
        })
    }
    fn binary(&mut self, min: usize) -> R<X> {
        let mut l = self.postfix()?;
        while let Some((op, p)) = self.op() {
            if p < min {
                break;
            }
            self.i += 1;
            let r = self.binary(p + 1)?;
            l = X::Bin(op, Box::new(l), Box::new(r));
        }
        Ok(l)
    }
    fn args(&mut self) -> R<Vec<X>> {
        self.eat_sym("(")?;
        let mut v = Vec::new();
        while !self.sym(")") {
            if !v.is_empty() {
                self.eat_sym(",")?;
            }
            v.push(self.expr()?);
        }
        self.i += 1;
        Ok(v)
    }
    fn postfix(&mut self) -> R<X> {
        let mut e = self.atom()?;
        loop {
            if self.sym("(") {
                let a = self.args()?;
                e = X::Call(Box::new(e), a);
            } else if self.sym("[") {
                self.i += 1;
                let t = self.ty()?;
                self.eat_sym("]")?;
                e = X::Inst(Box::new(e), t);
            } else {
                return Ok(e);
            }
        }
    }
    fn atom(&mut self) -> R<X> {
        match self.peek().clone() {
            Tok::Int(i) => {
                self.i += 1;
                Ok(X::Int(i))
            }
            Tok::Str(s) => {
                self.i += 1;
                Ok(X::Str(s))
            }
            Tok::Name(n) if &*n == "true" || &*n == "false" => {
                self.i += 1;
                Ok(X::Bool(&*n == "true"))
            }
            Tok::Name(_) => Ok(X::Name(self.name()?)),
            Tok::Sym("(") => {
                self.i += 1;
                let e = self.expr()?;
                self.eat_sym(")")?;
                Ok(e)
            }
            Tok::Sym("%") => {
                self.i += 1;
                let n = self.name()?;
                Ok(X::Prim(n, self.args()?))
            }
            Tok::Sym("#trap") => {
                self.i += 1;
                self.eat_sym("(")?;
                let Tok::Str(s) = self.peek().clone() else { return self.err("message") };
                self.i += 1;
                self.eat_sym(",")?;
                let t = self.ty()?;
                self.eat_sym(")")?;
                Ok(X::Trap(s, t))
            }
            Tok::Sym("@") => {
                self.i += 1;
                let c = self.name()?;
                let mut ts = Vec::new();
                if self.sym("[") {
                    self.i += 1;
                    ts.push(self.ty()?);
                    while self.sym(",") {
                        self.i += 1;
                        ts.push(self.ty()?);
                    }
                    self.eat_sym("]")?;
                }
                Ok(X::Make(c, ts, self.args()?))
            }
            _ => self.err("expression"),
        }
    }
}

pub fn parse(text: &str) -> R<Vec<Def>> {
    let mut p = P { t: lex(text)?, i: 0 };
    let mut defs = Vec::new();
    while *p.peek() != Tok::End {
        let mut export = None;
        if p.word("export") {
            p.i += 1;
            p.eat_sym("(")?;
            let Tok::Str(s) = p.peek().clone() else { return p.err("export name") };
            export = Some(String::from_utf8_lossy(&s).into_owned());
            p.i += 1;
            p.eat_sym(")")?;
        }
        p.eat_word("let")?;
        let name = p.name()?;
        p.eat_sym(":")?;
        let ty = p.ty()?;
        p.eat_sym("=")?;
        let value = p.expr()?;
        p.eat_sym(";")?;
        defs.push(Def { export, name, ty, value });
    }
    Ok(defs)
}

// ---------------------------------------------------------------- evaluation

#[derive(Clone)]
pub enum V {
    Int(u64),
    Bool(bool),
    Str(Rc<[u8]>),
    Data(Rc<str>, Rc<Vec<V>>),
    Fun(Rc<F>),
}

pub struct F {
    env: Env,
    params: Vec<Rc<str>>,
    body: Rc<X>,
}

pub struct N {
    name: Rc<str>,
    v: std::cell::RefCell<Option<V>>,
    next: Env,
}
type Env = Option<Rc<N>>;

pub enum Stop {
    Fuel,
    Trap(String),
    Bad(String),
}

pub struct Machine {
    globals: HashMap<Rc<str>, V>,
    fuel: u64,
}

type E<A> = Result<A, Stop>;

fn bad<A>(s: impl Into<String>) -> E<A> {
    Err(Stop::Bad(s.into()))
}

impl Machine {
    /// Evaluates all definitions; the exports in order.
    pub fn run(defs: &[Def], fuel: u64) -> E<(Machine, Vec<(String, V)>)> {
        let mut m = Machine { globals: HashMap::new(), fuel };
        let mut out = Vec::new();
        for d in defs {
            let v = m.eval(&d.value, &None)?;
            if let Some(n) = &d.export {
                out.push((n.clone(), v.clone()));
            }
            if m.globals.insert(d.name.clone(), v).is_some() {
                return bad(format!("{} is defined twice", d.name));
            }
        }
        Ok((m, out))
    }
    fn eval(&mut self, x: &X, env: &Env) -> E<V> {
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        Ok(match x {
            X::Bool(b) => V::Bool(*b),
            X::Int(i) => V::Int(*i),
            X::Str(s) => V::Str(s.clone()),
            X::Name(n) => {
                let mut e = env;
                while let Some(k) = e {
                    if k.name == *n {
                        return match &*k.v.borrow() {
                            Some(v) => Ok(v.clone()),
                            None => bad(format!("{} is used before it has a value", n)),
                        };
                    }
                    e = &k.next;
                }
                match self.globals.get(n) {
                    Some(v) => v.clone(),
                    None => return bad(format!("{} is not bound", n)),
                }
            }
            X::Call(f, args) => {
                let f = self.eval(f, env)?;
                let args = args.iter().map(|a| self.eval(a, env)).collect::<E<Vec<V>>>()?;
                self.call(f, args)?
            }
            X::Prim(n, args) => {
                let args = args.iter().map(|a| self.eval(a, env)).collect::<E<Vec<V>>>()?;
                match (&**n, args.as_slice()) {
                    ("stringLen", [V::Str(s)]) => V::Int(s.len() as u64),
                    ("stringConcat", [V::Str(a), V::Str(b)]) => {
                        let mut v = a.to_vec();
                        v.extend_from_slice(b);
                        self.fuel = self.fuel.saturating_sub(v.len() as u64 / 64);
                        V::Str(v.into())
                    }
                    ("stringCharAt", [V::Int(i), V::Str(s)]) => V::Int(char_at(*i, s)),
                    ("stringSubstring", [V::Int(a), V::Int(n), V::Str(s)]) => V::Str(substring(*a, *n, s).into()),
                    ("stringFromChar", [V::Int(c)]) => V::Str([(*c % 256) as u8].as_slice().into()),
                    ("intToString", [V::Int(i)]) => V::Str(i.to_string().as_bytes().into()),
                    _ => return bad(format!("%{} with {} arguments", n, args.len())),
                }
            }
            X::If(c, a, b) => match self.eval(c, env)? {
                V::Bool(true) => self.eval(a, env)?,
                V::Bool(false) => self.eval(b, env)?,
                _ => return bad("condition"),
            },
            X::Bin(op, a, b) => match (self.eval(a, env)?, self.eval(b, env)?) {
                (V::Int(a), V::Int(b)) => match binop(*op, a, b) {
                    RV::Int(i) => V::Int(i),
                    RV::Bool(b) => V::Bool(b),
                    _ => return bad("operator"),
                },
                _ => return bad(format!("operands of {:?}", op)),
            },
            X::Lam(ps, body) => V::Fun(Rc::new(F { env: env.clone(), params: ps.iter().map(|p| p.0.clone()).collect(), body: body.clone() })),
            X::Match(s, arms) => {
                let V::Data(c, fs) = self.eval(s, env)? else { return bad("scrutinee") };
                let Some((_, vs, b)) = arms.iter().find(|a| a.0 == c) else { return bad(format!("no case for {}", c)) };
                if vs.len() != fs.len() {
                    return bad(format!("{} fields of {} in a case for {}", fs.len(), c, vs.len()));
                }
                let mut env = env.clone();
                for (n, v) in vs.iter().zip(fs.iter()) {
                    env = bind(n, Some(v.clone()), env);
                }
                self.eval(b, &env)?
            }
            X::Make(c, _, args) => {
                let args = args.iter().map(|a| self.eval(a, env)).collect::<E<Vec<V>>>()?;
                V::Data(c.clone(), Rc::new(args))
            }
            X::Let(n, v, b) => {
                let v = self.eval(v, env)?;
                self.eval(b, &bind(n, Some(v), env.clone()))?
            }
            X::LetRec(n, _, v, b) => {
                let env = bind(n, None, env.clone());
                let v = self.eval(v, &env)?;
                *env.as_ref().unwrap().v.borrow_mut() = Some(v);
                self.eval(b, &env)?
            }
            X::Trap(m, _) => return Err(Stop::Trap(String::from_utf8_lossy(m).into_owned())),
            X::Pi(_, b) => self.eval(b, env)?,
            X::Inst(e, _) => self.eval(e, env)?,
        })
    }
    pub fn call(&mut self, f: V, args: Vec<V>) -> E<V> {
        let V::Fun(f) = f else { return bad("call of something that is no function") };
        if f.params.len() != args.len() {
            return bad(format!("{} arguments for {} parameters", args.len(), f.params.len()));
        }
        let mut env = f.env.clone();
        for (n, v) in f.params.iter().zip(args) {
            env = bind(n, Some(v), env);
        }
        self.eval(&f.body, &env)
    }
}

fn bind(n: &Rc<str>, v: Option<V>, next: Env) -> Env {
    Some(Rc::new(N { name: n.clone(), v: std::cell::RefCell::new(v), next }))
}

fn plain(c: &str) -> &str {
    c.rsplit_once('_').map(|x| x.0).unwrap_or(c)
}

pub fn show(v: &V, atom: bool, out: &mut String) {
    match v {
        V::Int(i) => out.push_str(&i.to_string()),
        V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        V::Str(s) => show_bytes(s, out),
        V::Data(c, fs) => {
            let paren = atom && !fs.is_empty();
            if paren {
                out.push('(');
            }
            out.push_str(plain(c));
            for f in fs.iter() {
                out.push(' ');
                show(f, true, out);
            }
            if paren {
                out.push(')');
            }
        }
        V::Fun(_) => out.push_str(if atom { "(\\_ -> _)" } else { "\\_ -> _" }),
    }
}
