//! Loops: as many rounds as one likes in the same memory.

use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::mem::biggest;
use crate::sut::{fmt_diags, Texts};
use std::fmt::Write;
use ticc::Runner;
use ticc_core::ir::{self, Branch, Expr, Intrinsic, LambdaParam, Name, Op, Ty};

pub const C33: Prop = Prop {
    id: "C33",
    quick: 1200,
    thorough: 60000,
    rule: "a loop that makes new data in every round (the small run takes 200 rounds, the big one 30000)",
    assumptions: &[
        "what is kept from round to round is bounded by construction to a few hundred bytes; 128 KB more than what the short run needs is allowed",
        "memory is the biggest single piece the evaluating thread asks for: the heap and the stack of the runner are one piece each",
    ],
    f: c33,
};

const FEW: u64 = 200;
const MANY: u64 = 30_000;
const SLACK: usize = 128 << 10;

// ------------------------------------------------------------ source programs

#[derive(Clone, Copy, PartialEq)]
enum T {
    Int,
    Str,
    Opt,
    List,
    Fun,
}

const TYPES: &[(T, &str)] = &[(T::Int, "int"), (T::Str, "string"), (T::Opt, "Option int"), (T::List, "List int"), (T::Fun, "int -> int")];

struct G<'a> {
    src: &'a mut Src,
    vars: Vec<(String, T)>,
    state: Vec<T>,
    helpers: usize,
    n: usize,
}

impl G<'_> {
    fn fresh(&mut self) -> String {
        self.n += 1;
        format!("x{}", self.n)
    }
    fn var(&mut self, t: T) -> Option<String> {
        let vs: Vec<String> = self.vars.iter().filter(|v| v.1 == t).map(|v| v.0.clone()).collect();
        if vs.is_empty() {
            None
        } else {
            Some(self.src.pick(&vs).clone())
        }
    }
    fn leaf(&mut self, t: T) -> String {
        if self.src.pct(75) {
            if let Some(v) = self.var(t) {
                return v;
            }
        }
        match t {
            T::Int => self.src.below(300).to_string(),
            T::Str => format!("\"{}\"", ["", "a", "tic", "12"][self.src.us(4)]),
            T::Opt => "None".into(),
            T::List => "Nil".into(),
            T::Fun => "(\\k -> k)".into(),
        }
    }
    fn cond(&mut self, d: usize) -> String {
        let o = *self.src.pick(&["<", "<=", ">", ">=", "==", "!="]);
        format!("{} {} {}", self.ex(T::Int, d), o, self.ex(T::Int, d))
    }
    fn ex(&mut self, t: T, d: usize) -> String {
        if d == 0 {
            return self.leaf(t);
        }
        let d = d - 1;
        match self.src.us(10) {
            0 => return self.leaf(t),
            1 => {
                let c = self.cond(d.min(1));
                let (a, b) = (self.ex(t, d), self.ex(t, d));
                return format!("(if {} then {} else {})", c, a, b);
            }
            2 => {
                let u = self.src.pick(TYPES).0;
                let v = self.ex(u, d);
                let x = self.fresh();
                self.vars.push((x.clone(), u));
                let e = self.ex(t, d);
                self.vars.pop();
                return format!("(let {} = {}; {})", x, v, e);
            }
            _ => {}
        }
        match t {
            T::Int => match self.src.us(7) {
                0 | 1 => {
                    let o = *self.src.pick(&["+", "-", "*", "/", "%"]);
                    format!("({} {} {})", self.ex(T::Int, d), o, self.ex(T::Int, d))
                }
                2 => format!("(strings.length {})", self.ex(T::Str, d)),
                3 => {
                    let o = self.ex(T::Opt, d);
                    let x = self.fresh();
                    self.vars.push((x.clone(), T::Int));
                    let a = self.ex(T::Int, d);
                    self.vars.pop();
                    format!("(match {} with | Some {} -> {} | None -> {} end)", o, x, a, self.ex(T::Int, d))
                }
                4 => format!("(lists.sum {})", self.ex(T::List, d)),
                5 => match self.var(T::Fun) {
                    Some(f) => format!("({} {})", f, self.ex(T::Int, d)),
                    None => format!("(strings.charAt {} {})", self.ex(T::Int, d), self.ex(T::Str, d)),
                },
                _ => format!("(ints.iterate {} (\\z -> z + {}) {})", self.src.us(4), self.leaf(T::Int), self.leaf(T::Int)),
            },
            T::Str => match self.src.us(4) {
                0 => format!("(ints.toString {})", self.ex(T::Int, d)),
                1 => format!("(strings.concat {} {})", self.ex(T::Str, d), self.ex(T::Str, d)),
                2 => format!("(strings.substring {} 9 {})", self.src.us(3), self.ex(T::Str, d)),
                _ => format!("(strings.fromChar ({} % 256))", self.ex(T::Int, d)),
            },
            T::Opt => match self.src.us(3) {
                0 => format!("(options.map (\\o -> o + {}) {})", self.leaf(T::Int), self.ex(T::Opt, d)),
                1 => format!("(lists.head {})", self.ex(T::List, d)),
                _ => format!("(Some {})", self.ex(T::Int, d)),
            },
            T::List => match self.src.us(4) {
                0 => format!("(lists.map (\\o -> o * {}) {})", self.leaf(T::Int), self.ex(T::List, d)),
                1 => format!("(lists.reverse {})", self.ex(T::List, d)),
                _ => format!("(lists.take 3 (Cons {} {}))", self.ex(T::Int, d), self.ex(T::List, d)),
            },
            // it keeps no other function alive
            T::Fun => {
                let all = self.vars.clone();
                self.vars.retain(|v| v.1 != T::Fun);
                let x = self.fresh();
                self.vars.push((x.clone(), T::Int));
                let e = self.ex(T::Int, d);
                self.vars = all;
                format!("(\\{} -> {})", x, e)
            }
        }
    }
    /// What goes from round to round.
    fn kept(&mut self, t: T) -> String {
        let d = self.src.us(3);
        match t {
            T::Str => format!("(strings.substring 0 9 {})", self.ex(T::Str, d)),
            T::List => format!("(lists.take 3 {})", self.ex(T::List, d)),
            t => self.ex(t, d),
        }
    }
    fn new_state(&mut self) -> String {
        let mut s = "(S".to_string();
        for t in self.state.clone() {
            let e = self.kept(t);
            let _ = write!(s, " {}", e);
        }
        s + ")"
    }
    fn last(&mut self, d: usize) -> String {
        if d == 0 {
            return self.new_state();
        }
        match self.src.us(6) {
            0 => {
                let c = self.cond(1);
                let (a, b) = (self.last(d - 1), self.last(d - 1));
                format!("if {} then {} else {}", c, a, b)
            }
            1 => {
                let u = self.src.pick(TYPES).0;
                let v = self.ex(u, 2);
                let x = self.fresh();
                self.vars.push((x.clone(), u));
                let e = self.last(d - 1);
                self.vars.pop();
                format!("let {} = {}; {}", x, v, e)
            }
            2 => {
                let o = self.ex(T::Opt, 2);
                let x = self.fresh();
                self.vars.push((x.clone(), T::Int));
                let a = self.last(d - 1);
                self.vars.pop();
                let b = self.last(d - 1);
                format!("match {} with | None -> {} | Some {} -> {} end", o, b, x, a)
            }
            3 if self.helpers > 0 => {
                let h = self.src.us(self.helpers);
                let s = self.new_state();
                match self.src.us(3) {
                    0 => format!("h{} {}", h, s),
                    1 => format!("{} |> h{}", s, h),
                    _ => format!("twice h{} {}", h, s),
                }
            }
            4 if self.helpers > 0 => {
                let h = self.src.us(self.helpers);
                format!("i.iterate {} h{} {}", self.src.us(3), h, self.new_state())
            }
            _ => self.new_state(),
        }
    }
    fn step(&mut self) -> String {
        let mut s = "\\s -> match s with | S".to_string();
        for t in self.state.clone() {
            let x = self.fresh();
            let _ = write!(s, " {}", x);
            self.vars.push((x, t));
        }
        let d = self.src.us(4);
        let e = self.last(d);
        self.vars.clear();
        format!("{} -> {} end", s, e)
    }
}

/// The program before and after the number of rounds.
fn source(src: &mut Src) -> (String, String) {
    let n = src.urange(1, 4);
    let state: Vec<T> = (0..n).map(|_| src.pick(TYPES).0).collect();
    let mut g = G { src, vars: Vec::new(), state, helpers: 0, n: 0 };
    let mut a = "import ints from \"std/int\";\nimport i from \"std/intrinsics\";\nimport strings from \"std/string\";\nimport lists (Nil, Cons, List) from \"std/list\";\nimport options (None, Some, Option) from \"std/option\";\nlet twice : (a -> a) -> a -> a = \\f -> \\x -> f (f x);\n".to_string();
    a.push_str("type S = S");
    for t in g.state.clone() {
        let name = TYPES.iter().find(|x| x.0 == t).unwrap().1;
        let _ = write!(a, " ({})", name);
    }
    a.push_str(";\n");
    for i in 0..g.src.us(3) {
        let e = g.step();
        let _ = write!(a, "let h{} : S -> S = {};\n", i, e);
        g.helpers += 1;
    }
    let named = g.src.pct(50);
    let step = g.step();
    if named {
        let _ = write!(a, "let step : S -> S = {};\n", step);
    }
    let init = g.new_state();
    let (m, f) = (*g.src.pick(&["ints.iterate", "i.iterate"]), if named { "step".to_string() } else { format!("({})", step) });
    let _ = write!(a, "export let r : S = {} ", m);
    (a, format!(" {} {};\n", f, init))
}

// --------------------------------------- programs of the intermediate language

struct I<'a> {
    src: &'a mut Src,
    p: ir::Program<'static>,
    pair: Name,
    nil: Name,
    data: Name,
    vars: Vec<(Name, Ty)>,
    go: Name,
    round: Name,
    params: Vec<Ty>,
    result: Ty,
}

fn int(n: u64) -> Expr {
    Expr::Int(n)
}

fn op(a: Expr, o: Op, b: Expr) -> Expr {
    Expr::Op(Box::new(a), o, Box::new(b))
}

impl I<'_> {
    fn fun() -> Ty {
        Ty::Fn(vec![Ty::Int], Box::new(Ty::Int))
    }
    fn ty(&mut self) -> Ty {
        match self.src.us(5) {
            0 | 1 => Ty::Int,
            2 => Ty::String,
            3 => Ty::Named(self.data, vec![]),
            _ => Self::fun(),
        }
    }
    fn name(&mut self) -> Name {
        self.p.names.new_fresh("x")
    }
    fn leaf(&mut self, t: &Ty) -> Expr {
        let vs: Vec<Name> = self.vars.iter().filter(|v| v.1 == *t).map(|v| v.0).collect();
        if !vs.is_empty() && self.src.pct(75) {
            return Expr::Name(*self.src.pick(&vs));
        }
        match t {
            Ty::Int => int(self.src.below(300)),
            Ty::String => Expr::String(b"tic"[..self.src.us(4)].to_vec().as_slice().into()),
            Ty::Bool => Expr::Bool(self.src.pct(50)),
            Ty::Named(..) => Expr::Construct(self.nil, vec![], vec![]),
            _ => {
                let x = self.name();
                Expr::Lambda(vec![LambdaParam { name: x, ty: Ty::Int }], Box::new(Expr::Name(x)))
            }
        }
    }
    fn cut(&mut self, e: Expr) -> Expr {
        Expr::Intrinsic(Intrinsic::StringSubstring, vec![int(0), int(9), e])
    }
    fn ex(&mut self, t: &Ty, d: usize) -> Expr {
        if d == 0 {
            return self.leaf(t);
        }
        let d = d - 1;
        match self.src.us(9) {
            0 => return self.leaf(t),
            1 => return Expr::If(Box::new(self.ex(&Ty::Bool, d)), Box::new(self.ex(t, d)), Box::new(self.ex(t, d))),
            2 => {
                let u = self.ty();
                let v = self.ex(&u, d);
                let x = self.name();
                self.vars.push((x, u));
                let e = self.ex(t, d);
                self.vars.pop();
                return Expr::Let(x, Box::new(v), Box::new(e));
            }
            3 => {
                let s = self.ex(&Ty::Named(self.data, vec![]), d);
                return self.split(s, |g| g.ex(t, d));
            }
            _ => {}
        }
        match t {
            Ty::Int => match self.src.us(4) {
                0 | 1 => {
                    let o = *self.src.pick(&[Op::Add, Op::Subtract, Op::Multiply, Op::Divide, Op::Modulo]);
                    op(self.ex(t, d), o, self.ex(t, d))
                }
                2 => Expr::Intrinsic(Intrinsic::StringLen, vec![self.ex(&Ty::String, d)]),
                _ => {
                    let f = self.leaf(&Self::fun());
                    Expr::Call(Box::new(f), vec![self.ex(t, d)])
                }
            },
            Ty::Bool => {
                let o = *self.src.pick(&[Op::Less, Op::LessEq, Op::Greater, Op::GreaterEq, Op::Equal, Op::NotEqual]);
                op(self.ex(&Ty::Int, d), o, self.ex(&Ty::Int, d))
            }
            Ty::String => match self.src.us(3) {
                0 => Expr::Intrinsic(Intrinsic::IntToString, vec![self.ex(&Ty::Int, d)]),
                1 => Expr::Intrinsic(Intrinsic::StringFromChar, vec![self.ex(&Ty::Int, d)]),
                _ => Expr::Intrinsic(Intrinsic::StringConcat, vec![self.ex(t, d), self.ex(t, d)]),
            },
            Ty::Named(..) => {
                let s = self.ex(&Ty::String, d);
                let s = self.cut(s);
                Expr::Construct(self.pair, vec![], vec![self.ex(&Ty::Int, d), s])
            }
            _ => {
                let all = self.vars.clone();
                self.vars.retain(|v| v.1 != Self::fun());
                let x = self.name();
                self.vars.push((x, Ty::Int));
                let e = self.ex(&Ty::Int, d);
                self.vars = all;
                Expr::Lambda(vec![LambdaParam { name: x, ty: Ty::Int }], Box::new(e))
            }
        }
    }
    fn split(&mut self, s: Expr, mut f: impl FnMut(&mut Self) -> Expr) -> Expr {
        let (a, b) = (self.name(), self.name());
        self.vars.push((a, Ty::Int));
        self.vars.push((b, Ty::String));
        let x = f(self);
        self.vars.truncate(self.vars.len() - 2);
        let y = f(self);
        let mut brs = vec![Branch { ctor: self.pair, bindings: vec![a, b], value: x }, Branch { ctor: self.nil, bindings: vec![], value: y }];
        if self.src.pct(50) {
            brs.reverse();
        }
        Expr::Match(Box::new(s), brs)
    }
    fn kept(&mut self, t: &Ty) -> Expr {
        let d = self.src.us(3);
        let e = self.ex(t, d);
        if *t == Ty::String {
            self.cut(e)
        } else {
            e
        }
    }
    fn last(&mut self, d: usize) -> Expr {
        if d > 0 {
            match self.src.us(8) {
                0 => {
                    let c = self.ex(&Ty::Bool, 2);
                    return Expr::If(Box::new(c), Box::new(self.last(d - 1)), Box::new(self.last(d - 1)));
                }
                1 | 2 => {
                    let u = self.ty();
                    let v = self.ex(&u, 2);
                    let x = self.name();
                    self.vars.push((x, u));
                    let e = self.last(d - 1);
                    self.vars.pop();
                    return Expr::Let(x, Box::new(v), Box::new(e));
                }
                3 | 4 => {
                    let s = self.ex(&Ty::Named(self.data, vec![]), 2);
                    return self.split(s, |g| g.last(d - 1));
                }
                5 => {
                    // another loop, of a few rounds
                    let (h, y, z) = (self.name(), self.name(), self.name());
                    let t = Ty::Fn(vec![Ty::Int, Ty::Int], Box::new(Ty::Int));
                    let all = self.vars.clone();
                    self.vars.push((y, Ty::Int));
                    self.vars.push((z, Ty::Int));
                    let next = self.ex(&Ty::Int, 1);
                    self.vars = all;
                    let again = Expr::Call(Box::new(Expr::Name(h)), vec![op(Expr::Name(y), Op::Subtract, int(1)), next]);
                    let body = Expr::If(Box::new(op(Expr::Name(y), Op::Equal, int(0))), Box::new(Expr::Name(z)), Box::new(again));
                    let f = Expr::Lambda(vec![LambdaParam { name: y, ty: Ty::Int }, LambdaParam { name: z, ty: Ty::Int }], Box::new(body));
                    let call = Expr::Call(Box::new(Expr::Name(h)), vec![int(self.src.below(4)), self.leaf(&Ty::Int)]);
                    let x = self.name();
                    self.vars.push((x, Ty::Int));
                    let e = self.last(d - 1);
                    self.vars.pop();
                    return Expr::LetRec(h, t, Box::new(f), Box::new(Expr::Let(x, Box::new(call), Box::new(e))));
                }
                6 => {
                    let v = self.p.ty.next();
                    let e = self.last(d - 1);
                    return Expr::PiApply(Box::new(Expr::Pi(v, Box::new(e))), Ty::Int);
                }
                _ => {}
            }
        }
        let mut args = vec![op(Expr::Name(self.round), Op::Subtract, int(1))];
        for t in self.params.clone() {
            args.push(self.kept(&t));
        }
        Expr::Call(Box::new(Expr::Name(self.go)), args)
    }
}

/// A function that calls itself in the end, and its start.
fn direct(src: &mut Src) -> (ir::Program<'static>, Name) {
    let mut p = ir::Program::new();
    let (data, pair, nil) = (p.names.new_fresh("T"), p.names.new_fresh("P"), p.names.new_fresh("N"));
    p.types.push(ir::TyDef {
        name: data,
        vars: vec![],
        cases: vec![ir::TyCase { name: pair, fields: vec![Ty::Int, Ty::String] }, ir::TyCase { name: nil, fields: vec![] }],
    });
    let (go, round, start) = (p.names.new_fresh("go"), p.names.new_fresh("n"), p.names.new_fresh("f"));
    let mut g = I { src, p, pair, nil, data, vars: Vec::new(), go, round, params: Vec::new(), result: Ty::Int };
    g.params = (0..g.src.urange(1, 4)).map(|_| g.ty()).collect();
    g.result = Ty::Int;
    let init: Vec<Expr> = g.params.clone().iter().map(|t| g.kept(t)).collect();
    let outer = g.src.pct(40).then(|| g.name());
    if let Some(o) = outer {
        g.vars.push((o, Ty::Int));
    }
    let mut ps = vec![LambdaParam { name: round, ty: Ty::Int }];
    for t in g.params.clone() {
        let x = g.name();
        g.vars.push((x, t.clone()));
        ps.push(LambdaParam { name: x, ty: t });
    }
    g.vars.push((round, Ty::Int));
    let done = g.ex(&Ty::Int, 2);
    let d = g.src.us(5);
    let again = g.last(d);
    let body = Expr::If(Box::new(op(Expr::Name(round), Op::Equal, int(0))), Box::new(done), Box::new(again));
    let fty = Ty::Fn(ps.iter().map(|p| p.ty.clone()).collect(), Box::new(Ty::Int));
    let n = g.p.names.new_fresh("count");
    let call = Expr::Call(Box::new(Expr::Name(go)), std::iter::once(Expr::Name(n)).chain(init).collect());
    let mut e = Expr::LetRec(go, fty, Box::new(Expr::Lambda(ps, Box::new(body))), Box::new(call));
    if let Some(o) = outer {
        e = Expr::Let(o, Box::new(int(7)), Box::new(e));
    }
    let value = Expr::Lambda(vec![LambdaParam { name: n, ty: Ty::Int }], Box::new(e));
    g.p.defs.push(ir::ValueDef { name: start, export_name: None, ty: Ty::Fn(vec![Ty::Int], Box::new(Ty::Int)), value });
    (g.p, start)
}

fn shown<F>(r: Result<Vec<ticc_eval::Value<F>>, ticc_eval::Trap>) -> Result<String, String> {
    match r {
        Ok(v) => match &v[..] {
            [ticc_eval::Value::Int(n)] => Ok(n.to_string()),
            _ => Err("not a number".into()),
        },
        Err(t) => Err(t.message),
    }
}

// ----------------------------------------------------------------------------

fn grew(few: usize, many: usize) -> Result<(), String> {
    if many > few + SLACK {
        return Err(format!("{} rounds need a piece of {} bytes and {} rounds one of {} bytes", FEW, few, MANY, many));
    }
    Ok(())
}

fn c33(src: &mut Src, case: &mut Case) -> Result<(), String> {
    if src.pct(45) {
        case.label("intermediate language");
        let (p, f) = direct(src);
        case.text = guard(|| ticc_core::pretty_print(&p)).unwrap_or_default();
        generated(src);
        case.nontrivial = case.text.contains('(');
        let call = |n: u64| vec![Expr::Call(Box::new(Expr::Name(f)), vec![int(n)])];
        let (a, few) = biggest(|| guard(|| shown(ticc_eval::bytecode::eval(&p, &call(FEW)))).map_err(|p| format!("panic: {}", p)));
        let want = guard(|| shown(ticc_eval::treewalk::eval(&p, &call(FEW)))).map_err(|p| format!("panic: {}", p))?;
        if a? != want {
            return Err(format!("runners differ after {} rounds", FEW));
        }
        let (b, many) = biggest(|| guard(|| shown(ticc_eval::bytecode::eval(&p, &call(MANY)))).map_err(|p| format!("panic: {}", p)));
        b?.map_err(|t| format!("trap: {}", t))?;
        return grew(few, many);
    }
    let (head, rest) = source(src);
    let optimize = src.pct(50);
    let part = src.below(MANY / 2) + 1;
    let text = |n: u64| Texts::single(&format!("{}{}{}", head, n, rest));
    // the same rounds in two parts
    let parts = {
        let cut = rest.rfind(';').unwrap();
        let body = &rest[..cut];
        let (m, _) = head[head.rfind("= ").unwrap() + 2..].split_once(' ').unwrap();
        let start = last_arg(body);
        let f = &body[..start];
        Texts::single(&format!("{}{}{} ({} {}{}{});\n", head, MANY - part, f, m, part, f, &body[start..]))
    };
    case.text = format!("{}N{}(optimize {}, {} rounds apart)", head, rest, optimize, part);
    generated(src);
    let errs = text(1).errors()?;
    if !errs.is_empty() {
        return Err(format!("program rejected: {}", fmt_diags(&text(1).root, &errs)));
    }
    case.nontrivial = true;
    case.label_if(optimize, "optimized");
    let run = |t: Texts, r: Runner| biggest(|| t.run(r, optimize));
    let (a, few) = run(text(FEW), Runner::Bytecode);
    let (w, _) = run(text(FEW), Runner::Treewalk);
    if a.map_err(|p| format!("panic: {}", p))? != w.map_err(|p| format!("panic: {}", p))? {
        return Err(format!("runners differ after {} rounds", FEW));
    }
    let (b, many) = run(text(MANY), Runner::Bytecode);
    let b = b.map_err(|p| format!("panic: {}", p))?.map_err(|t| format!("trap: {}", t))?;
    grew(few, many)?;
    let (c, _) = run(parts, Runner::Bytecode);
    let c = c.map_err(|p| format!("panic: {}", p))?.map_err(|t| format!("trap: {}", t))?;
    if b != c {
        return Err(format!("{} rounds at once give\n{}and in two parts\n{}", MANY, b, c));
    }
    Ok(())
}

/// Where the last argument starts.
fn last_arg(s: &str) -> usize {
    let b = s.as_bytes();
    let mut depth = 0;
    for i in (0..b.len()).rev() {
        match b[i] {
            b')' => depth += 1,
            b'(' => {
                depth -= 1;
                if depth == 0 {
                    return i;
                }
            }
            _ => {}
        }
    }
    0
}
