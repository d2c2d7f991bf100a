//! Integer and string primitives at their boundaries.

use crate::ast::Op;
use crate::choice::Src;
use crate::engine::{generated, Case, Prop};
use crate::eval::{binop, char_at, show_bytes, substring, V};
use crate::sut::{fmt_diags, Texts, RUNNERS};

pub const C17: Prop = Prop {
    id: "C17",
    quick: 3000,
    thorough: 120000,
    rule: "at least one operand at a boundary (0, 1, powers of two, 2^64-1, lengths of strings and their neighbours) reaches a primitive",
    assumptions: &["values are observed through the printed exports and through the bytes main returns"],
    f: c17,
};

#[derive(Clone, Copy, PartialEq)]
enum T {
    I,
    B,
    S,
}

#[derive(Clone)]
enum Val {
    I(u64),
    B(bool),
    S(Vec<u8>),
}

struct G<'a> {
    src: &'a mut Src,
    globals: Vec<(String, String, Val)>,
    boundary: usize,
    input: Vec<u8>,
    in_main: bool,
    n: usize,
}

const EDGES: &[u64] = &[
    0, 1, 2, 3, 7, 9, 10, 99, 100, 127, 128, 129, 255, 256, 257, 65535, 65536, 99999, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 53) + 1,
    (1 << 62) - 1, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 255, u64::MAX - 1, u64::MAX, 9_999_999_999_999_999_999, 10_000_000_000_000_000_000,
];

const TEXTS: &[&str] = &["", "a", "ab", "hello world", "é", "日本", "😀", "0", "12", " x ", "tab\tin", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"];

fn lit_str(s: &str) -> String {
    format!("\"{}\"", s)
}

impl G<'_> {
    fn int_value(&mut self) -> u64 {
        match self.src.weighted(&[40, 30, 15, 15]) {
            0 => {
                self.boundary += 1;
                *self.src.pick(EDGES)
            }
            1 => self.src.below(20),
            2 => self.src.any_u64(),
            _ => {
                self.boundary += 1;
                let a = *self.src.pick(EDGES);
                a.wrapping_add(self.src.below(5)).wrapping_sub(2)
            }
        }
    }
    /// A literal, spelled so that it is or is not a constant for the optimizer.
    fn hide(&mut self, lit: String, ty: &str, v: Val) -> String {
        match self.src.weighted(&[45, 15, 12, 10, 10, 8]) {
            0 => lit,
            1 => {
                let n = format!("g{}", self.globals.len());
                self.globals.push((n.clone(), format!("let {} : {} = {};\n", n, ty, lit), v));
                n
            }
            2 => format!("(id ({}))", lit),
            3 => {
                self.n += 1;
                format!("(let q{} = {}; q{})", self.n, lit, self.n)
            }
            4 => format!("(unwrap (Wrap {}))", lit),
            _ => {
                self.n += 1;
                format!("((\\q{} -> q{}) {})", self.n, self.n, lit)
            }
        }
    }
    fn gen(&mut self, t: T, depth: usize) -> (String, Val) {
        let reuse: Vec<usize> = (0..self.globals.len())
            .filter(|&i| matches!((&self.globals[i].2, t), (Val::I(_), T::I) | (Val::B(_), T::B) | (Val::S(_), T::S)))
            .collect();
        if !reuse.is_empty() && self.src.pct(12) {
            let i = *self.src.pick(&reuse);
            return (self.globals[i].0.clone(), self.globals[i].2.clone());
        }
        if t == T::S && self.in_main && self.src.pct(30) {
            return ("inp".into(), Val::S(self.input.clone()));
        }
        if depth == 0 || self.src.pct(25) {
            return match t {
                T::I => {
                    let v = self.int_value();
                    (self.hide(v.to_string(), "int", Val::I(v)), Val::I(v))
                }
                T::B => {
                    let v = self.src.pct(50);
                    (self.hide(v.to_string(), "bool", Val::B(v)), Val::B(v))
                }
                T::S => {
                    if self.src.pct(30) {
                        let v = self.int_value();
                        (format!("(fromChar {})", self.hide_i(v)), Val::S(vec![v as u8]))
                    } else {
                        let s = *self.src.pick(TEXTS);
                        (self.hide(lit_str(s), "string", Val::S(s.as_bytes().to_vec())), Val::S(s.as_bytes().to_vec()))
                    }
                }
            };
        }
        match t {
            T::I => match self.src.weighted(&[60, 12, 20, 8]) {
                0 => {
                    let op = *self.src.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod]);
                    let (a, x) = self.gen_i(depth - 1);
                    let (b, y) = if self.src.pct(8) { (self.hide_i(0), 0) } else { self.gen_i(depth - 1) };
                    let V::Int(v) = binop(op, x, y) else { unreachable!() };
                    (self.apply_op(op, a, b), Val::I(v))
                }
                1 => {
                    let (a, s) = self.gen_s(depth - 1);
                    (format!("({} {})", self.name("length"), a), Val::I(s.len() as u64))
                }
                2 => {
                    let (a, s) = self.gen_s(depth - 1);
                    let (i, x) = self.index(s.len() as u64, depth - 1);
                    (format!("({} {} {})", self.name("charAt"), i, a), Val::I(char_at(x, &s)))
                }
                _ => {
                    let (c, x) = self.gen_b(depth - 1);
                    let (a, u) = self.gen_i(depth - 1);
                    let (b, v) = self.gen_i(depth - 1);
                    (format!("(if {} then {} else {})", c, a, b), Val::I(if x { u } else { v }))
                }
            },
            T::B => {
                let op = *self.src.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne]);
                let (a, x) = self.gen_i(depth - 1);
                let (b, y) = if self.src.pct(20) { (self.hide_i(x), x) } else { self.gen_i(depth - 1) };
                let V::Bool(v) = binop(op, x, y) else { unreachable!() };
                (self.apply_op(op, a, b), Val::B(v))
            }
            T::S => match self.src.weighted(&[35, 30, 18, 17]) {
                0 => {
                    let (a, x) = self.gen_s(depth - 1);
                    let (b, y) = self.gen_s(depth - 1);
                    let mut v = x;
                    v.extend_from_slice(&y);
                    (format!("({} {} {})", self.name("concat"), a, b), Val::S(v))
                }
                1 => {
                    let (a, s) = self.gen_s(depth - 1);
                    let (i, x) = self.index(s.len() as u64, depth - 1);
                    let (j, y) = self.index(s.len() as u64, depth - 1);
                    (format!("({} {} {} {})", self.name("substring"), i, j, a), Val::S(substring(x, y, &s).to_vec()))
                }
                2 => {
                    let (a, x) = self.gen_i(depth - 1);
                    (format!("({} {})", self.name("fromChar"), a), Val::S(vec![x as u8]))
                }
                _ => {
                    let (a, x) = self.gen_i(depth - 1);
                    (format!("(toString {})", a), Val::S(x.to_string().into_bytes()))
                }
            },
        }
    }
    fn name(&mut self, n: &str) -> String {
        if self.src.pct(30) {
            format!("P.string{}{}", n[..1].to_uppercase(), &n[1..])
        } else {
            n.to_owned()
        }
    }
    fn index(&mut self, n: u64, depth: usize) -> (String, u64) {
        match self.src.weighted(&[35, 30, 15, 20]) {
            0 => {
                let v = self.src.below(n + 2);
                (self.hide_i(v), v)
            }
            1 => {
                self.boundary += 1;
                let v = n.wrapping_add(self.src.below(4)).wrapping_sub(2);
                (self.hide_i(v), v)
            }
            2 => {
                self.boundary += 1;
                let v = *self.src.pick(EDGES);
                (self.hide_i(v), v)
            }
            _ => self.gen_i(depth),
        }
    }
    fn apply_op(&mut self, op: Op, a: String, b: String) -> String {
        match self.src.weighted(&[70, 15, 15]) {
            0 => format!("({} {} {})", a, op.text(), b),
            1 => format!("((\\l -> \\r -> l {} r) {} {})", op.text(), a, b),
            _ => {
                self.n += 1;
                format!("(let f{} = \\r -> {} {} r; f{} {})", self.n, a, op.text(), self.n, b)
            }
        }
    }
    fn hide_i(&mut self, v: u64) -> String {
        self.hide(v.to_string(), "int", Val::I(v))
    }
    fn gen_i(&mut self, d: usize) -> (String, u64) {
        match self.gen(T::I, d) {
            (s, Val::I(v)) => (s, v),
            _ => unreachable!(),
        }
    }
    fn gen_b(&mut self, d: usize) -> (String, bool) {
        match self.gen(T::B, d) {
            (s, Val::B(v)) => (s, v),
            _ => unreachable!(),
        }
    }
    fn gen_s(&mut self, d: usize) -> (String, Vec<u8>) {
        match self.gen(T::S, d) {
            (s, Val::S(v)) => (s, v),
            _ => unreachable!(),
        }
    }
}

fn c17(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let with_main = src.pct(40);
    let input = if with_main { super::c03::input_bytes(src) } else { vec![] };
    let mut g = G { src, globals: vec![], boundary: 0, input: input.clone(), in_main: false, n: 0 };
    let mut text = String::from(
        "import P from \"std/intrinsics\";\nimport (length, concat, charAt, substring, fromChar) from \"std/string\";\nimport (toString) from \"std/int\";\n\
         type Wrap a = Wrap a;\nlet id : a -> a = \\x -> x;\nlet unwrap : Wrap a -> a = \\w -> match w with | Wrap x -> x end;\n",
    );
    let mut want = String::new();
    let n = g.src.urange(1, 9);
    for i in 0..n {
        let t = *g.src.pick(&[T::I, T::I, T::B, T::S]);
        let depth = g.src.urange(1, 3);
        let before = g.globals.len();
        let (e, v) = g.gen(t, depth);
        for (_, d, _) in &g.globals[before..] {
            text.push_str(d);
        }
        let ty = ["int", "bool", "string"][match t {
            T::I => 0,
            T::B => 1,
            T::S => 2,
        }];
        text.push_str(&format!("export let r{} : {} = {};\n", i, ty, e));
        want.push_str(&format!("r{} = ", i));
        match v {
            Val::I(v) => want.push_str(&v.to_string()),
            Val::B(b) => want.push_str(&b.to_string()),
            Val::S(s) => show_bytes(&s, &mut want),
        }
        want.push('\n');
    }
    let mut main_want = Vec::new();
    if with_main {
        g.in_main = true;
        let before = g.globals.len();
        let (e, v) = g.gen_s(3);
        for (_, d, _) in &g.globals[before..] {
            text.push_str(d);
        }
        text.push_str(&format!("export let main : string -> string = \\inp -> {};\n", e));
        want.push_str("main = \\_ -> _\n");
        main_want = v;
    }
    case.nontrivial = g.boundary > 0;
    case.text = text.clone();
    case.label_if(with_main, "main");
    generated(src);
    let t = Texts::single(&text);
    let errs = t.errors()?;
    if !errs.is_empty() {
        return Err(format!("well-formed program rejected: {}", fmt_diags(&text, &errs)));
    }
    for opt in [false, true] {
        for run in RUNNERS {
            match t.run(run, opt) {
                Ok(Ok(s)) if s == want => {}
                Ok(Ok(s)) => {
                    let d: Vec<String> = s.lines().zip(want.lines()).filter(|(a, b)| a != b).map(|(a, b)| format!("{} instead of {}", a, b)).collect();
                    return Err(format!("wrong value on {} (optimize {}): {}", run, opt, d.join("; ")));
                }
                Ok(Err(m)) => return Err(format!("trap on {} (optimize {}): {}", run, opt, m)),
                Err(p) => return Err(format!("panic on {} (optimize {}): {}", run, opt, p)),
            }
            if with_main {
                match t.run_main(run, opt, &input) {
                    Ok(Ok(s)) if s == main_want => {}
                    other => return Err(format!("wrong result of main on {} (optimize {}): {:?} instead of {:?}, input {:?}", run, opt, other, main_want, input)),
                }
            }
        }
    }
    Ok(())
}
