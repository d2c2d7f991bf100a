//! Source texts of every degree of malformedness.

use crate::choice::Src;
use crate::gen::{program, Cfg};
use crate::print::{Layout, Style};
use crate::sut::Texts;
use std::collections::HashMap;

pub const POOL: &[&str] = &[
    "let", "import", "from", "export", "match", "with", "end", "if", "then", "else", "type", "int", "bool", "string", "true", "false", "fold", "rec", "(", ")",
    "\\", "->", "=", ":", ";", "|", ",", ".", "|>", "+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "x", "y", "a", "T", "A", "B", "M", "f", "0", "1",
    "99999999999999999999", "12abc", "\"\"", "\"s\"", "?h", "_",
];

const ODD: &[&str] = &[
    "@", "#", "\t", "\"", "'", "?", "&", "$", "\u{0}", "\\\"", "\u{feff}", "é", "日", "😀", "\u{301}", "λ", "\r", "\r\n", "\n", "--", "-- c\n", "--é\r\n", "…", "`", "~", "!", "|", "\u{2028}", "1é", "aé", "\"é\"", "\"\n", "?é", "-->",
];

/// Something a keyboard could produce in between.
pub fn odd(src: &mut Src) -> String {
    if src.pct(70) {
        (*src.pick(ODD)).to_owned()
    } else {
        let c = src.below(0x2_0000) as u32;
        char::from_u32(c).unwrap_or('\u{fffd}').to_string()
    }
}

fn sep(src: &mut Src) -> &'static str {
    ["", " ", "\n", "\r\n", " \n  ", "--c\n", "-- é\n", "\r", "\t"][src.weighted(&[20, 60, 14, 4, 6, 3, 2, 1, 1])]
}

pub fn soup(src: &mut Src, max: usize) -> String {
    let n = src.us(max);
    let mut s = String::new();
    for _ in 0..n {
        if src.pct(6) {
            s.push_str(&odd(src));
        } else {
            s.push_str(src.pick(POOL));
        }
        s.push_str(sep(src));
    }
    s
}

/// Fragments of items glued together.
fn phrases(src: &mut Src) -> String {
    const P: &[&str] = &[
        "let x : int = 1;", "export let y : int -> int = \\a -> a + x;", "type T a = A a | B rec int;", "export type U = export | C T | D (T int) (a b);",
        "import M from \"m0\";", "import (x, A, T) from \"m1\";", "import M(x,) from \"m0\";", "import list(List, Nil, Cons) from \"std/list\";",
        "let f = \\fold t -> match t with | A x -> x | B r n -> r end;", "match x with", "| A y -> y", "| M.A y z -> (y |> z)", "end", "if x then", "else",
        "let a : (a -> b) -> List a -> M.T (List b) =", "\\x ->", "\\fold x ->", "(", ")", "M.", "M.x", "x.", ": T", ": (", "= ?h;", ";", ";;", "\"str", "?", "a b c", "1 + 2 * 3 == 4 |> f",
        "import from \"\";", "import x", "export", "type", "let", "let = ;", "let x : = ;", "type T =", "type T = |;", "type = A;", "rec", "M.T a", "int int", "string -> rec",
        "let id : a -> a = \\x -> x;", "let p = id id;", "let y = x y;", "let w = \\x -> x x;", "import S from \"m0\"; let q = S.x;", "export let main : string -> string = \\s -> s;",
    ];
    let n = src.us(14);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(src.pick(P));
        s.push_str(sep(src));
        if src.pct(6) {
            s.push_str(&odd(src));
        }
    }
    s
}

fn nested(src: &mut Src) -> String {
    let n = src.us(60) + 1;
    let (open, close) = *src.pick(&[
        ("(", ")"),
        ("let a = 1; ", ""),
        ("if true then 1 else ", ""),
        ("match A with | A -> ", " end"),
        ("\\x -> ", ""),
        ("(\\fold x -> ", ")"),
        ("f (", ")"),
        ("1 + ", ""),
        ("(let a : (", ") = 1; a)"),
    ]);
    let mid = *src.pick(&["1", "x", "", "(", ")", ";", "?h"]);
    let body = format!("{}{}{}", open.repeat(n), mid, close.repeat(if src.pct(70) { n } else { src.us(n + 3) }));
    match src.us(3) {
        0 => format!("export let v : int = {};", body),
        1 => format!("let v : {} = 1;", body),
        _ => format!("type T = A | B {};", body),
    }
}

/// Character level damage.
pub fn damage(src: &mut Src, text: &str, edits: usize) -> String {
    let mut cs: Vec<char> = text.chars().collect();
    for _ in 0..edits {
        let i = src.us(cs.len() + 1);
        match src.weighted(&[30, 30, 10, 10, 10, 10]) {
            0 => {
                if i < cs.len() {
                    cs.remove(i);
                }
            }
            1 => {
                let s = if src.pct(50) { odd(src) } else { (*src.pick(POOL)).to_owned() };
                for (k, c) in s.chars().enumerate() {
                    cs.insert(i + k, c);
                }
            }
            2 => cs.truncate(i),
            3 => {
                let j = src.us(cs.len() + 1);
                let (a, b) = (i.min(j), i.max(j));
                if b - a < 60 {
                    cs.drain(a..b);
                }
            }
            4 => {
                let j = src.us(cs.len() + 1);
                let (a, b) = (i.min(j), i.max(j));
                let part: Vec<char> = cs[a..b].iter().copied().take(60).collect();
                let at = src.us(cs.len() + 1);
                for (k, c) in part.into_iter().enumerate() {
                    cs.insert(at + k, c);
                }
            }
            _ => {
                if i < cs.len() {
                    cs[i] = *src.pick(&['a', 'T', '1', '.', '(', ')', ';', '\n', '"', 'é', '-', '|', '\\', ' ']);
                }
            }
        }
    }
    cs.into_iter().collect()
}

fn token_damage(src: &mut Src, toks: &[String]) -> String {
    let mut toks = toks.to_vec();
    for _ in 0..src.urange(1, 5) {
        if toks.is_empty() {
            break;
        }
        let i = src.us(toks.len());
        let j = src.us(toks.len());
        match src.weighted(&[30, 15, 10, 20, 25, 10]) {
            0 => {
                toks.remove(i);
            }
            1 => {
                let t = toks[i].clone();
                toks.insert(j, t);
            }
            2 => toks.swap(i, j),
            3 => toks[i] = toks[j].clone(),
            4 => {
                let t = (*src.pick(POOL)).to_owned();
                if src.pct(50) {
                    toks[i] = t;
                } else {
                    toks.insert(i, t);
                }
            }
            _ => toks.truncate(i),
        }
    }
    let mut s = String::new();
    for t in toks {
        s.push_str(&t);
        s.push_str(match src.weighted(&[85, 10, 5]) {
            0 => " ",
            1 => "\n",
            _ => "",
        });
    }
    s
}

/// One or two tokens less, or another one, most often the ones that define something.
fn lose(src: &mut Src, text: &str) -> String {
    let mut text = text.to_owned();
    for _ in 0..src.urange(1, 2) {
        let Some(toks) = crate::lexref::lex(&text) else { return text };
        let toks: Vec<(usize, usize)> = toks.into_iter().map(|(a, b, _)| (a, b)).collect();
        let defining: Vec<usize> = (1..toks.len())
            .filter(|i| matches!(&text[toks[i - 1].0..toks[i - 1].1], "type" | "let" | "=" | "|" | "import" | "from" | ":" | "(" | "," | "export"))
            .collect();
        if toks.is_empty() {
            return text;
        }
        let i = if !defining.is_empty() && src.pct(70) { *src.pick(&defining) } else { src.us(toks.len()) };
        let with = match src.weighted(&[60, 20, 20]) {
            0 => String::new(),
            1 => (*src.pick(POOL)).to_owned(),
            _ => {
                let (a, b) = *src.pick(&toks);
                text[a..b].to_owned()
            }
        };
        text.replace_range(toks[i].0..toks[i].1, &with);
    }
    text
}

/// Well-formed text, for comparison and as a starting point.
pub fn good(src: &mut Src, cfg: Cfg) -> (Texts, Vec<String>) {
    let pg = program(src, cfg);
    let lay = if src.pct(30) { Layout::random(src) } else { Layout::PLAIN };
    let r = pg.render(&Style::default(), lay, src);
    let toks = r.root.0.toks.iter().map(|t| t.text.clone()).collect();
    (r.texts, toks)
}

/// One text and the modules it might import.
pub fn weird(src: &mut Src, small: usize) -> (Texts, &'static str) {
    let kind = src.weighted(&[25, 15, 20, 20, 4, 10, 6, 20]);
    match kind {
        0 => {
            let root = soup(src, small);
            let files = side(src);
            (Texts { root, files }, "token soup")
        }
        1 => {
            let root = phrases(src);
            let files = side(src);
            (Texts { root, files }, "phrases")
        }
        2 | 3 | 5 => {
            let mut cfg = Cfg { items: (1, 3), fuel: *src.pick(&[6, 12, 22]), holes: 5, std: 25, ..Cfg::default() };
            if src.pct(60) {
                cfg.modules = (0, 0);
            }
            let (mut t, toks) = good(src, cfg);
            if kind == 2 {
                t.root = token_damage(src, &toks);
            } else if kind == 3 {
                let n = src.urange(1, 4);
                t.root = damage(src, &t.root.clone(), n);
            }
            let mut names: Vec<String> = t.files.keys().cloned().collect();
            names.sort();
            for n in names {
                if src.pct(30) {
                    let d = damage(src, &t.files[&n].clone(), 2);
                    t.files.insert(n, d);
                }
            }
            (t, ["", "", "damaged tokens", "damaged text", "", "well-formed"][kind])
        }
        4 => (Texts::single(&nested(src)), "nested"),
        7 => {
            let cfg = Cfg { items: (2, 3), fuel: *src.pick(&[4, 8, 14]), holes: 5, std: 10, modules: (1, 3), ..Cfg::default() };
            let (mut t, _) = good(src, cfg);
            let mut names: Vec<String> = t.files.keys().cloned().collect();
            names.sort();
            let certain = src.us(names.len().max(1));
            for (i, n) in names.into_iter().enumerate() {
                if i == certain || src.pct(25) {
                    let d = lose(src, &t.files[&n].clone());
                    t.files.insert(n, d);
                }
            }
            (t, "damaged modules")
        }
        _ => {
            let n = src.us(20);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(&odd(src));
            }
            (Texts::single(&s), "odd characters")
        }
    }
}

fn side(src: &mut Src) -> HashMap<String, String> {
    let mut files = HashMap::new();
    for n in ["m0", "m1"] {
        if src.pct(50) {
            let t = match src.weighted(&[40, 30, 30]) {
                0 => "export let x : int = 1; export type T a = export A a; export let f : a -> T a = \\v -> A v; let y : int = 2;".to_owned(),
                1 => phrases(src),
                _ => soup(src, 25),
            };
            files.insert(n.to_owned(), t);
        }
    }
    files
}
