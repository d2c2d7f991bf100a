//! Errors are at the place that is wrong and say what was expected there and
//! what there is.

use crate::choice::Src;
use crate::engine::{generated, Case, Prop};
use crate::sut::{fmt_diags, Texts};

pub const C32: Prop = Prop {
    id: "C32",
    quick: 100000,
    thorough: 3000000,
    rule: "a program of two or more items with mistakes in them, of different kinds or about types that are not basic",
    assumptions: &["every mistake is in a definition with a written type that nothing else refers to", "every type that is reported has a name the module can see or an exported one; nothing is matched whose constructors are not exported"],
    f: c32,
};

#[derive(Clone, PartialEq, Debug)]
enum T {
    Int,
    Bool,
    Str,
    Var(&'static str),
    Named(usize, Vec<T>),
    Fn(Box<T>, Box<T>),
    /// not known
    Hole,
}

/// The type with what is known about its variables.
fn subst(t: &T, known: &[(&'static str, T)]) -> T {
    match t {
        T::Var(v) => known.iter().find(|k| k.0 == *v).map_or(T::Hole, |k| k.1.clone()),
        T::Named(d, xs) => T::Named(*d, xs.iter().map(|x| subst(x, known)).collect()),
        T::Fn(a, b) => T::Fn(Box::new(subst(a, known)), Box::new(subst(b, known))),
        t => t.clone(),
    }
}

/// Whether the type has the form of the first; what that says about variables
/// is only kept if it has.
fn fits(form: &T, t: &T, known: &mut Vec<(&'static str, T)>) -> bool {
    let n = known.len();
    let ok = match (form, t) {
        (T::Var(v), t) => match known.iter().find(|k| k.0 == *v) {
            Some(k) => k.1 == *t,
            None => {
                known.push((*v, t.clone()));
                true
            }
        },
        (T::Named(a, xs), T::Named(b, ys)) => a == b && xs.iter().zip(ys).all(|(x, y)| fits(x, y, known)),
        (T::Fn(a, b), T::Fn(c, d)) => fits(a, c, known) && fits(b, d, known),
        (a, b) => a == b,
    };
    if !ok {
        known.truncate(n);
    }
    ok
}

fn solved(t: &T) -> bool {
    match t {
        T::Hole => false,
        T::Named(_, xs) => xs.iter().all(solved),
        T::Fn(a, b) => solved(a) && solved(b),
        _ => true,
    }
}

struct Def {
    name: String,
    params: usize,
    /// constructors with numbers of fields
    ctors: Vec<(String, usize)>,
    /// how the type and its constructors are written: with this before them
    at: String,
    at_ctors: String,
    opaque: bool,
}

struct Val {
    name: String,
    ty: T,
}

#[derive(Default)]
struct World {
    defs: Vec<Def>,
    vals: Vec<Val>,
    /// functions and constructors of any type
    wide: Vec<Val>,
    text: String,
    want: Vec<(usize, usize, String)>,
    kinds: Vec<&'static str>,
}

impl World {
    fn show(&self, t: &T, prec: u8, qual: bool, out: &mut String) {
        let paren = match t {
            T::Named(_, a) => prec >= 2 && !a.is_empty(),
            T::Fn(..) => prec >= 1,
            _ => false,
        };
        if paren {
            out.push('(');
        }
        match t {
            T::Int => out.push_str("int"),
            T::Bool => out.push_str("bool"),
            T::Str => out.push_str("string"),
            T::Var(v) => out.push_str(v),
            T::Hole => out.push('_'),
            T::Named(d, xs) => {
                if qual {
                    out.push_str(&self.defs[*d].at);
                }
                out.push_str(&self.defs[*d].name);
                for x in xs {
                    out.push(' ');
                    self.show(x, 2, qual, out);
                }
            }
            T::Fn(a, b) => {
                self.show(a, 1, qual, out);
                out.push_str(" -> ");
                self.show(b, 0, qual, out);
            }
        }
        if paren {
            out.push(')');
        }
    }
    /// As the program writes it.
    fn src(&self, t: &T) -> String {
        let mut s = String::new();
        self.show(t, 0, true, &mut s);
        s
    }
    /// As messages write it.
    fn msg(&self, t: &T) -> String {
        let mut s = String::new();
        self.show(t, 0, false, &mut s);
        s
    }
    fn ty(&self, src: &mut Src, depth: usize) -> T {
        match src.weighted(&[20, 12, 12, if depth > 0 && !self.defs.is_empty() { 36 } else { 0 }, if depth > 0 { 22 } else { 0 }]) {
            0 => T::Int,
            1 => T::Bool,
            2 => T::Str,
            3 => {
                let d = src.us(self.defs.len());
                let n = self.defs[d].params;
                T::Named(d, (0..n).map(|_| self.ty(src, depth - 1)).collect())
            }
            _ => T::Fn(Box::new(self.ty(src, depth - 1)), Box::new(self.ty(src, depth - 1))),
        }
    }
    /// A type with variables.
    fn form(&self, src: &mut Src, depth: usize) -> T {
        match src.us(if depth > 0 { 6 } else { 3 }) {
            0 => T::Var("a"),
            1 => T::Var("b"),
            3 | 4 => {
                let d = src.us(self.defs.len());
                T::Named(d, (0..self.defs[d].params).map(|_| self.form(src, depth - 1)).collect())
            }
            5 => T::Fn(Box::new(self.form(src, depth - 1)), Box::new(self.form(src, depth - 1))),
            _ => self.ty(src, depth),
        }
    }
    fn put(&mut self, s: &str) {
        self.text.push_str(s);
    }
    /// Text that the error is about.
    fn wrong(&mut self, s: &str, m: String) {
        let a = self.text.len();
        self.text.push_str(s);
        self.want.push((a, self.text.len(), m));
    }
    fn clash(&mut self, s: &str, expected: &T, got: &T) {
        let m = format!("expected {}, got {}", self.msg(expected), self.msg(got));
        self.wrong(s, m);
    }
    /// A value and its type; one of these, or a literal.
    fn value(&self, src: &mut Src) -> (String, T) {
        if self.vals.is_empty() || src.pct(25) {
            return match src.us(3) {
                0 => (format!("{}", src.us(90)), T::Int),
                1 => ((*src.pick(&["true", "false"])).to_owned(), T::Bool),
                _ => ("\"s\u{e9}\"".to_owned(), T::Str),
            };
        }
        let v = src.pick(&self.vals);
        (v.name.clone(), v.ty.clone())
    }
    fn value_not(&self, src: &mut Src, t: &T) -> Option<(String, T)> {
        (0..8).map(|_| self.value(src)).find(|v| v.1 != *t)
    }
    /// An expression of this type, without mistakes.
    fn fine(&self, src: &mut Src, t: &T) -> String {
        let known: Vec<&Val> = self.vals.iter().filter(|v| v.ty == *t).collect();
        if !known.is_empty() && src.pct(60) {
            return src.pick(&known).name.clone();
        }
        match t {
            T::Int if src.pct(70) => format!("{}", src.us(90)),
            T::Bool if src.pct(70) => "true".to_owned(),
            T::Str if src.pct(70) => "\"t\"".to_owned(),
            T::Fn(_, b) if src.pct(50) => format!("(\\_ -> {})", self.fine(src, b)),
            _ => format!("?h{}", src.us(9)),
        }
    }
}

const NUMS: [&str; 4] = ["18446744073709551616", "99999999999999999999", "12a", "0x1"];

fn c32(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut w = World::default();
    let mut texts = Texts::single("");
    // types and values of another module
    let import = src.pct(60);
    let mut other = String::new();
    let mut exposed: Vec<String> = Vec::new();
    let mut unknown = Vec::new();
    let mut main = String::new();
    let ntypes = src.urange(1, 4);
    for i in 0..ntypes {
        let there = import && src.pct(50);
        let params = src.us(3);
        let nc = src.us(5);
        let name = format!("T{}", i);
        let mut text = format!("{}type {}", if there { "export " } else { "" }, name);
        let vars = ["a", "b", "c"];
        for v in &vars[..params] {
            text.push_str(&format!(" {}", v));
        }
        let mut ctors = Vec::new();
        let mut ctor_types = Vec::new();
        let opaque = there && src.pct(30);
        for c in 0..nc.max(1) {
            let n = src.us(4);
            let cname = format!("{}{}", *src.pick(&["C", "D", "E\u{61}"]), i * 10 + c);
            text.push_str(if c == 0 { " = " } else { " | " });
            if c == 0 && there && !opaque {
                text.push_str("export ");
            }
            text.push_str(&cname);
            let own = T::Named(i, vars[..params].iter().map(|v| T::Var(v)).collect());
            let mut whole = own.clone();
            let mut fields = Vec::new();
            for _ in 0..n {
                fields.push(match src.us(if params > 0 { 5 } else { 3 }) {
                    0 => (" int", T::Int),
                    1 => (" rec", own.clone()),
                    2 => (" (bool -> int)", T::Fn(Box::new(T::Bool), Box::new(T::Int))),
                    3 => (" a", T::Var("a")),
                    _ => (" (a -> string)", T::Fn(Box::new(T::Var("a")), Box::new(T::Str))),
                });
                text.push_str(fields.last().unwrap().0);
            }
            for f in fields.into_iter().rev() {
                whole = T::Fn(Box::new(f.1), Box::new(whole));
            }
            ctor_types.push((cname.clone(), whole));
            ctors.push((cname, n));
        }
        text.push_str(";\n");
        let (mut at, mut at_ctors) = (String::new(), String::new());
        if there {
            other.push_str(&text);
            if src.pct(50) {
                exposed.push(name.clone());
            } else {
                at = "m.".to_owned();
            }
            if src.pct(50) && !opaque {
                exposed.extend(ctors.iter().map(|c| c.0.clone()));
            } else {
                at_ctors = "m.".to_owned();
            }
        } else {
            main.push_str(&text);
        }
        if !opaque {
            w.wide.extend(ctor_types.into_iter().filter(|c| matches!(c.1, T::Fn(..))).map(|c| Val { name: format!("{}{}", at_ctors, c.0), ty: c.1 }));
        }
        w.defs.push(Def { name, params, ctors, at, at_ctors, opaque });
    }
    for i in 0..src.urange(1, 6) {
        let t = w.ty(src, 3);
        let local_only = {
            fn far(w: &World, t: &T, main: &str) -> bool {
                match t {
                    T::Named(d, xs) => main.contains(&format!("type {}", w.defs[*d].name)) || xs.iter().any(|x| far(w, x, main)),
                    T::Fn(a, b) => far(w, a, main) || far(w, b, main),
                    _ => false,
                }
            }
            far(&w, &t, &main)
        };
        let n = format!("v{}", i);
        if import && !local_only && src.pct(40) {
            other.push_str(&format!("export let {} : {} = ?{};\n", n, w.msg(&t), n));
            if src.pct(50) {
                exposed.push(n.clone());
                w.vals.push(Val { name: n, ty: t });
            } else {
                w.vals.push(Val { name: format!("m.{}", n), ty: t });
            }
        } else {
            main.push_str(&format!("let {} : {} = ?{};\n", n, w.src(&t), n));
            w.vals.push(Val { name: n, ty: t });
        }
    }
    for i in 0..src.us(3) {
        let mut t = w.form(src, 2);
        for _ in 0..src.urange(1, 3) {
            t = T::Fn(Box::new(w.form(src, 2)), Box::new(t));
        }
        let n = format!("p{}", i);
        main.push_str(&format!("let {} : {} = ?{};\n", n, w.src(&t), n));
        w.wide.push(Val { name: n, ty: t });
    }
    if import {
        other.push_str("let hidden : int = 1;\ntype Hidden = Kept int;\n");
        texts.files.insert("m.tic".into(), other);
        w.put("import m from \"m.tic\";\n");
        // exposed names are in another import
        src.shuffle(&mut exposed);
        if src.pct(20) {
            unknown.push((*src.pick(&["hidden", "Hidden", "Kept", "nothing", "m"])).to_owned());
        }
        let all = exposed.len() + unknown.len();
        if all > 0 {
            w.put("import (");
            let at = src.us(all);
            for i in 0..all {
                if i > 0 {
                    w.put(", ");
                }
                if !unknown.is_empty() && i == at {
                    let n = unknown[0].clone();
                    w.kinds.push("import of what is not exported");
                    w.wrong(&n, format!("module does not export {}", n));
                } else {
                    let k = if !unknown.is_empty() && i > at { i - 1 } else { i };
                    let n = exposed[k].clone();
                    w.put(&n);
                }
            }
            w.put(") from \"m.tic\";\n");
        }
    }
    if src.pct(8) {
        w.kinds.push("no such module");
        w.put("import (q) from ");
        w.wrong("\"none.tic\"", "cannot find module".to_owned());
        w.put(";\n");
    }
    w.put(&main);
    for k in 0..src.urange(1, 7) {
        let mut t = w.ty(src, 2);
        let name = format!("e{}", k);
        // a definition inside of others
        let mut head = format!("let {} : ", name);
        let mut vars = String::new();
        if src.pct(20) {
            // of any type
            vars = "\\p -> \\q -> ".to_owned();
            if src.pct(30) {
                t = T::Var(*src.pick(&["a", "b"]));
            }
            head.push_str(&format!("a -> b -> {} = {}", w.src(&t), vars));
        } else {
            head.push_str(&format!("{} = ", w.src(&t)));
        }
        let wrap = src.us(6);
        match wrap {
            0 => head.push('('),
            1 => head.push_str("let z : int = 1; "),
            2 => head.push_str("if true then "),
            _ => {}
        }
        let other_branch = if wrap == 2 { format!(" else {}", w.fine(src, &t)) } else { String::new() };
        let start = w.text.len();
        w.put(&head);
        let (n0, k0) = (w.want.len(), w.kinds.len());
        let kind = expression(src, &mut w, &t, !vars.is_empty());
        match kind {
            Some(kind) => w.kinds.push(kind),
            None => {
                w.text.truncate(start);
                w.want.truncate(n0);
                w.kinds.truncate(k0);
                continue;
            }
        }
        if wrap == 0 {
            w.put(")");
        }
        w.put(&other_branch);
        w.put(";\n");
        if src.pct(12) {
            declaration(src, &mut w, k, import);
        }
    }
    texts.root = w.text.clone();
    case.text = texts.show();
    for k in &w.kinds {
        case.label(k);
    }
    let mut kinds = w.kinds.clone();
    kinds.sort();
    kinds.dedup();
    case.nontrivial = w.want.len() >= 2 && (kinds.len() >= 2 || w.want.iter().any(|x| x.2.contains('T')));
    generated(src);
    let ds = texts.errors()?;
    let mut got: Vec<(usize, usize, String)> = ds.iter().map(|d| (d.span.start().source_pos(), d.span.end().source_pos(), d.message.clone())).collect();
    // whether the module before a name belongs to it is not said
    for x in got.iter_mut().chain(&mut w.want) {
        let s = &texts.root[x.0..x.1];
        if s.starts_with("m.") && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'.') {
            x.0 += 2;
        }
    }
    got.sort();
    w.want.sort();
    if got != w.want {
        let missing: Vec<_> = w.want.iter().filter(|x| !got.contains(x)).collect();
        let extra: Vec<_> = got.iter().filter(|x| !w.want.contains(x)).collect();
        return Err(format!("errors missing {:?}, others instead {:?}\n{}", missing, extra, fmt_diags(&texts.root, &ds)));
    }
    Ok(())
}

/// An expression for a place where this type belongs, with a mistake in it
/// or, rarely, none.
fn expression(src: &mut Src, w: &mut World, t: &T, vars: bool) -> Option<&'static str> {
    let wide: Vec<usize> = (0..w.vals.len()).filter(|&i| matches!(&w.vals[i].ty, T::Named(d, _) if !w.defs[*d].opaque)).collect();
    let funs: Vec<usize> = (0..w.vals.len()).filter(|&i| matches!(w.vals[i].ty, T::Fn(..))).collect();
    Some(match src.us(23) {
        0 => {
            let e = w.fine(src, t);
            w.put(&e);
            "no mistake"
        }
        1 | 2 => {
            if vars && src.pct(40) {
                let (n, v) = *src.pick(&[("p", "a"), ("q", "b")]);
                if *t == T::Var(v) {
                    return None;
                }
                w.clash(n, t, &T::Var(v));
                return Some("variable of any type");
            }
            let (e, u) = w.value_not(src, t)?;
            w.clash(&e, t, &u);
            "value of another type"
        }
        3 => {
            let (e, u) = w.value_not(src, &T::Bool)?;
            w.put("if ");
            w.clash(&e, &T::Bool, &u);
            let (a, b) = (w.fine(src, t), w.fine(src, t));
            w.put(&format!(" then {} else {}", a, b));
            "condition that is no bool"
        }
        4 => {
            let (e, u) = w.value_not(src, t)?;
            let c = w.fine(src, &T::Bool);
            w.put(&format!("if {} then ", c));
            if src.pct(50) {
                w.clash(&e, t, &u);
                let b = w.fine(src, t);
                w.put(&format!(" else {}", b));
            } else {
                let b = w.fine(src, t);
                w.put(&format!("{} else ", b));
                w.clash(&e, t, &u);
            }
            "branch of an if"
        }
        5 | 6 => {
            // operands
            let (op, arg, res) = src.pick(&[
                ("+", T::Int, T::Int), ("-", T::Int, T::Int), ("*", T::Int, T::Int), ("/", T::Int, T::Int), ("%", T::Int, T::Int),
                ("<", T::Int, T::Bool), ("<=", T::Int, T::Bool), (">", T::Int, T::Bool), (">=", T::Int, T::Bool), ("==", T::Int, T::Bool), ("!=", T::Int, T::Bool),
            ]).clone();
            let a = w.text.len();
            let m = if res == *t { None } else { Some(format!("expected {}, got {}", w.msg(t), w.msg(&res))) };
            for side in 0..2 {
                if side == 1 {
                    w.put(&format!(" {} ", op));
                }
                let (e, u) = w.value(src);
                if u == arg {
                    w.put(&e);
                } else {
                    w.clash(&e, &arg, &u);
                }
            }
            if let Some(m) = m {
                let b = w.text.len();
                w.want.push((a, b, m));
            }
            "operator"
        }
        7 | 8 | 9 => {
            // arguments
            if funs.is_empty() {
                return None;
            }
            let i = *src.pick(&funs);
            let mut u = w.vals[i].ty.clone();
            let f = w.vals[i].name.clone();
            let n = {
                let mut n = 0;
                let mut x = &u;
                while let T::Fn(_, b) = x {
                    n += 1;
                    x = b;
                }
                src.urange(1, n)
            };
            let a = w.text.len();
            w.put(&f);
            for _ in 0..n {
                let T::Fn(p, r) = u else { unreachable!() };
                w.put(" ");
                if src.pct(50) {
                    let e = w.fine(src, &p);
                    w.put(&e);
                } else {
                    let (e, x) = w.value(src);
                    if x == *p {
                        w.put(&e);
                    } else {
                        w.clash(&e, &p, &x);
                    }
                }
                u = *r;
            }
            if u != *t {
                let m = format!("expected {}, got {}", w.msg(t), w.msg(&u));
                let b = w.text.len();
                w.want.push((a, b, m));
            }
            "argument"
        }
        10 | 11 | 12 => {
            // matches
            if wide.is_empty() {
                return None;
            }
            let i = *src.pick(&wide);
            let T::Named(d, _) = w.vals[i].ty else { unreachable!() };
            let v = w.vals[i].name.clone();
            let all = w.defs[d].ctors.clone();
            let pre = w.defs[d].at_ctors.clone();
            let mut order: Vec<usize> = (0..all.len()).collect();
            src.shuffle(&mut order);
            let drop = if src.pct(60) { src.us(all.len() + 1) } else { 0 };
            order.truncate(all.len() - drop);
            let a = w.text.len();
            w.put(&format!("match {} with", v));
            let mut seen: Vec<usize> = Vec::new();
            let mut todo = order.clone();
            if !order.is_empty() && src.pct(25) {
                let again = *src.pick(&order);
                let at = src.us(todo.len() + 1);
                todo.insert(at, again);
            }
            for c in todo {
                w.put(" ");
                let b = w.text.len();
                w.put("| ");
                let (name, n) = all[c].clone();
                w.put(&pre);
                let b0 = w.text.len();
                w.put(&name);
                let have = if src.pct(85) { n } else { src.us(5) };
                for k in 0..have {
                    w.put(&format!(" x{}", k));
                }
                if have != n {
                    let e = w.text.len();
                    w.want.push((b0, e, format!("expected {} fields, got {}", n, have)));
                }
                w.put(" -> ");
                if src.pct(80) {
                    let e = w.fine(src, t);
                    w.put(&e);
                } else if let Some((e, u)) = w.value_not(src, t) {
                    w.clash(&e, t, &u);
                } else {
                    let e = w.fine(src, t);
                    w.put(&e);
                }
                if seen.contains(&c) {
                    let e = w.text.len();
                    w.want.push((b, e, "unreachable pattern".to_owned()));
                }
                seen.push(c);
            }
            if src.pct(15) {
                // a constructor of another type
                let ds: Vec<usize> = (0..w.defs.len()).filter(|&k| k != d && !w.defs[k].opaque && !w.defs[k].ctors.is_empty()).collect();
                for _ in 0..src.urange(1, 2) {
                    if ds.is_empty() {
                        break;
                    }
                    let k = *src.pick(&ds);
                    let pre = w.defs[k].at_ctors.clone();
                    let (name, n) = src.pick(&w.defs[k].ctors).clone();
                    let got = T::Named(k, vec![T::Hole; w.defs[k].params]);
                    let of = w.vals[i].ty.clone();
                    w.put(" | ");
                    w.put(&pre);
                    let b = w.text.len();
                    w.clash(&name, &of, &got);
                    let have = if src.pct(85) { n } else { src.us(5) };
                    for k in 0..have {
                        w.put(&format!(" x{}", k));
                    }
                    if have != n {
                        let e = w.text.len();
                        w.want.push((b, e, format!("expected {} fields, got {}", n, have)));
                    }
                    w.put(" -> ");
                    let e = w.fine(src, t);
                    w.put(&e);
                }
            }
            if src.pct(6) {
                // what is not a constructor; nothing is said about the others then
                w.put(" | ");
                let hidden = w.text.contains("import m from");
                match src.us(if hidden { 3 } else { 1 }) {
                    0 => w.wrong(*src.pick(&["Nobody", "T0", "v0"]), "undefined constructor".to_owned()),
                    1 => {
                        w.wrong("m", "module does not export Kept".to_owned());
                        w.put(".Kept x");
                    }
                    _ => {
                        w.wrong("none", "undefined module".to_owned());
                        w.put(".C0 x");
                    }
                }
                w.put(" -> ");
                let e = w.fine(src, t);
                w.put(&e);
                w.put(" end");
                return Some("unknown constructor");
            }
            w.put(" end");
            let e = w.text.len();
            let left: Vec<&String> = (0..all.len()).filter(|c| !seen.contains(c)).map(|c| &all[c].0).collect();
            match left[..] {
                [] => {}
                [x] => w.want.push((a, e, format!("pattern {} not covered", x))),
                [x, y] => w.want.push((a, e, format!("patterns {} and {} not covered", x, y))),
                [x, ..] => w.want.push((a, e, format!("patterns {} and {} more not covered", x, left.len() - 1))),
            }
            "match"
        }
        13 => {
            // nothing to match on
            let (e, u) = if vars && src.pct(40) { ("p".to_owned(), T::Var("a")) } else { w.value(src) };
            if let T::Named(..) = u {
                return None;
            }
            w.put("match ");
            let m = format!("cannot match on {}", w.msg(&u));
            w.wrong(&e, m);
            w.put(" with end");
            "match on what has no constructors"
        }
        14 => {
            let (n, m) = *src.pick(&[("nobody", "undefined variable"), ("e99", "undefined variable"), ("T0x", "undefined variable"), ("none.x", "undefined module")]);
            if let Some((a, b)) = n.split_once('.') {
                w.wrong(a, m.to_owned());
                w.put(&format!(".{}", b));
            } else {
                w.wrong(n, m.to_owned());
            }
            "unknown name"
        }
        15 => {
            // local definitions
            let u = w.ty(src, 2);
            let x = w.src(&u);
            w.put(&format!("let y : {} = ", x));
            if src.pct(60) {
                let (e, v) = w.value_not(src, &u)?;
                w.clash(&e, &u, &v);
            } else {
                let e = w.fine(src, &u);
                w.put(&e);
            }
            w.put("; ");
            if u == *t {
                w.put("y");
            } else {
                w.clash("y", t, &u);
            }
            "local definition"
        }
        16 => {
            let n = *src.pick(&NUMS);
            let m = if n.bytes().all(|b| b.is_ascii_digit()) { "number is too large" } else { "invalid number" };
            let a = w.text.len();
            w.wrong(n, m.to_owned());
            if *t != T::Int {
                let m = format!("expected {}, got int", w.msg(t));
                let b = w.text.len();
                w.want.push((a, b, m));
            }
            "number"
        }
        18 | 19 | 20 | 21 => {
            // arguments of functions of any type
            if w.wide.is_empty() {
                return None;
            }
            let i = src.us(w.wide.len());
            let (f, mut u) = (w.wide[i].name.clone(), w.wide[i].ty.clone());
            let n = {
                let mut n = 0;
                let mut x = &u;
                while let T::Fn(_, b) = x {
                    n += 1;
                    x = b;
                }
                src.urange(1, n)
            };
            let mut known = Vec::new();
            let a = w.text.len();
            w.put(&f);
            for _ in 0..n {
                let T::Fn(p, r) = u else { unreachable!() };
                w.put(" ");
                let q = subst(&p, &known);
                if solved(&q) && src.pct(60) {
                    let e = w.fine(src, &q);
                    w.put(&e);
                } else {
                    let (mut e, mut x) = w.value(src);
                    for _ in 0..4 {
                        if src.pct(30) || fits(&p, &x, &mut known.clone()) {
                            break;
                        }
                        (e, x) = w.value(src);
                    }
                    if fits(&p, &x, &mut known) {
                        w.put(&e);
                    } else {
                        w.clash(&e, &q, &x);
                    }
                }
                u = *r;
            }
            let before = subst(&u, &known);
            if !fits(&u, t, &mut known) {
                let m = format!("expected {}, got {}", w.msg(t), w.msg(&before));
                let b = w.text.len();
                w.want.push((a, b, m));
            }
            "argument of a function of any type"
        }
        17 => {
            // a lambda where none belongs, or its body
            match t {
                T::Fn(p, r) => {
                    let p = (**p).clone();
                    let r = (**r).clone();
                    w.put("\\y -> ");
                    if p != r && src.pct(50) {
                        w.clash("y", &r, &p);
                    } else {
                        let (e, u) = w.value_not(src, &r)?;
                        w.clash(&e, &r, &u);
                    }
                    "body of a function"
                }
                _ => return None,
            }
        }
        _ => {
            // types that are written wrongly
            let u = w.ty(src, 1);
            w.put("let y : ");
            match src.us(3) {
                0 => {
                    let n = *src.pick(&["Nowhere", "T9", "nothing.T"]);
                    if let Some((a, b)) = n.split_once('.') {
                        w.wrong(a, "undefined module".to_owned());
                        w.put(&format!(".{}", b));
                    } else {
                        w.wrong(n, "undefined type".to_owned());
                    }
                }
                _ => {
                    let d = src.us(w.defs.len());
                    let have = src.us(4);
                    let def = &w.defs[d];
                    if have == def.params {
                        return None;
                    }
                    let (n, at, m) = (def.name.clone(), def.at.clone(), format!("{} expects {} type arguments, got {}", def.name, def.params, have));
                    w.put(&at);
                    w.wrong(&n, m);
                    for _ in 0..have {
                        w.put(" int");
                    }
                }
            }
            let _ = u;
            w.put(" = ?y; ");
            let e = w.fine(src, t);
            w.put(&e);
            "written type"
        }
    })
}

/// A mistake outside of expressions.
fn declaration(src: &mut Src, w: &mut World, k: usize, import: bool) {
    match src.us(if import { 5 } else { 2 }) {
        0 => {
            w.kinds.push("duplicate constructor");
            w.put(&format!("type U{k} = U{k}a int | U{k}b | "));
            let n = format!("U{k}{}", *src.pick(&["a", "b"]));
            w.wrong(&n, format!("duplicate constructor {}", n));
            w.put(if src.pct(50) { " bool;\n" } else { ";\n" });
        }
        1 => {
            w.kinds.push("undefined type of a field");
            w.put(&format!("type U{k} = U{k}a "));
            w.wrong("Nowhere", "undefined type".to_owned());
            w.put(" int;\n");
        }
        2 => {
            w.kinds.push("not exported");
            w.put(&format!("let g{k} : int = "));
            let n = *src.pick(&["hidden", "nothing", "Kept", "Hidden"]);
            w.wrong("m", format!("module does not export {}", n));
            w.put(&format!(".{};\n", n));
        }
        3 => {
            w.kinds.push("not exported as a type");
            w.put(&format!("let g{k} : "));
            let n = *src.pick(&["hidden", "nothing", "Kept", "Hidden"]);
            w.wrong("m", format!("module does not export {}", n));
            w.put(&format!(".{} = ?g;\n", n));
        }
        _ => {
            // a value as a type, a type as a value
            if let Some(v) = w.vals.iter().find(|v| v.name.starts_with("m.")) {
                let n = v.name[2..].to_owned();
                w.kinds.push("value as a type");
                w.put(&format!("let g{k} : m."));
                w.wrong(&n, format!("{} is not a type", n));
                w.put(" = ?g;\n");
            } else if let Some(d) = w.defs.iter().find(|d| d.at == "m.") {
                let n = d.name.clone();
                w.kinds.push("type as a value");
                w.put(&format!("let g{k} : int = m."));
                w.wrong(&n, format!("{} is not a value", n));
                w.put(";\n");
            }
        }
    }
}
