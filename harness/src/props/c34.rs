//! Syntax errors: at the first token that cannot stand there, with what could.

use crate::choice::Src;
use crate::engine::{generated, Case, Prop};
use crate::gen::Cfg;
use crate::lexref::{lex, L};
use crate::sut::{fmt_diags, Texts};
use crate::texts::good;

pub const C34: Prop = Prop {
    id: "C34",
    quick: 100000,
    thorough: 3000000,
    rule: "a text of four tokens or more with a syntax error in it that is not at its first token",
    assumptions: &[
        "the grammar is the one of the language as it is: this check has its own recognizer of it",
        "where `rec` stands instead of a type only types need to be named",
        "types are not called name, hole, number, type, expression, operator or definition (messages about types would read like ones about tokens)",
    ],
    f: c34,
};

const WORDS: &[&str] = &["import", "from", "export", "let", "match", "with", "end", "if", "then", "else", "type", "int", "bool", "string", "true", "false", "fold", "rec"];
const SIGNS: &[&str] = &[":", "=", "+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>", "(", ")", "\\", "->", "|", ",", ".", ";"];
const OPERATORS: &[&str] = &["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>"];
const EXPRESSION: &[&str] = &["let", "match", "if", "true", "false", "(", "\\", "name", "hole", "number", "string literal"];
const TYPE: &[&str] = &["int", "bool", "string", "rec", "(", "name"];
const DEFINITION: &[&str] = &["type", "export", "let"];
/// The kinds of tokens: words and signs stand for themselves.
const OTHER: &[&str] = &["name", "hole", "number", "string literal"];
const BAD: &str = "bad token";

fn kinds() -> impl Iterator<Item = &'static str> {
    WORDS.iter().chain(SIGNS).chain(OTHER).copied()
}

/// As messages write it.
fn shown(kind: &str) -> String {
    match kind {
        "name" | "hole" | "number" => kind.to_owned(),
        "string literal" => "string".to_owned(),
        k => format!("`{}`", k),
    }
}

fn read(s: &str) -> Option<&'static str> {
    kinds().find(|k| shown(k) == s)
}

// ------------------------------------------------------------------ recognizer

struct R<'a> {
    t: &'a [&'static str],
    i: usize,
}

/// Where the first token is that cannot stand there; the number of tokens if
/// the text ends too early.
fn fails(t: &[&'static str]) -> Option<usize> {
    let mut r = R { t, i: 0 };
    while r.i < t.len() {
        if r.item().is_none() {
            return Some(r.i);
        }
    }
    None
}

impl R<'_> {
    fn is(&self, k: &str) -> bool {
        self.t.get(self.i) == Some(&k)
    }
    fn any(&self, ks: &[&str]) -> bool {
        self.t.get(self.i).map_or(false, |t| ks.contains(t))
    }
    fn opt(&mut self, k: &str) -> bool {
        let y = self.is(k);
        self.i += y as usize;
        y
    }
    fn need(&mut self, k: &str) -> Option<()> {
        self.opt(k).then_some(())
    }
    fn many(&mut self, k: &str) {
        while self.opt(k) {}
    }
    fn item(&mut self) -> Option<()> {
        if self.opt("import") {
            self.opt("name");
            if self.opt("(") {
                while !self.is(")") {
                    self.need("name")?;
                    if !self.opt(",") {
                        break;
                    }
                }
                self.need(")")?;
            }
            self.need("from")?;
            self.need("string literal")?;
            return self.need(";");
        }
        self.opt("export");
        if self.opt("type") {
            self.need("name")?;
            self.many("name");
            self.need("=")?;
            self.opt("export");
            self.opt("|");
            loop {
                self.need("name")?;
                loop {
                    if self.any(&["int", "bool", "string", "name", "("]) {
                        self.type_atom()?;
                    } else if !self.opt("rec") {
                        break;
                    }
                }
                if !self.opt("|") {
                    break;
                }
            }
            return self.need(";");
        }
        self.need("let")?;
        self.binding()?;
        self.need(";")
    }
    fn binding(&mut self) -> Option<()> {
        self.need("name")?;
        if self.opt(":") {
            self.type_()?;
        }
        self.need("=")?;
        self.expr()
    }
    fn path(&mut self) -> Option<()> {
        self.need("name")?;
        if self.opt(".") {
            self.need("name")?;
        }
        Some(())
    }
    fn type_atom(&mut self) -> Option<()> {
        if self.opt("(") {
            self.type_()?;
            return self.need(")");
        }
        if self.any(&["int", "bool", "string"]) {
            self.i += 1;
            return Some(());
        }
        self.path()
    }
    fn type_(&mut self) -> Option<()> {
        if self.is("name") {
            self.path()?;
            while self.any(&["int", "bool", "string", "name", "("]) {
                self.type_atom()?;
            }
        } else {
            self.type_atom()?;
        }
        if self.opt("->") {
            self.type_()?;
        }
        Some(())
    }
    fn expr(&mut self) -> Option<()> {
        if self.opt("let") {
            self.binding()?;
            self.need(";")?;
            return self.expr();
        }
        if self.opt("if") {
            self.expr()?;
            self.need("then")?;
            self.expr()?;
            self.need("else")?;
            return self.expr();
        }
        if self.opt("\\") {
            self.opt("fold");
            self.need("name")?;
            self.need("->")?;
            return self.expr();
        }
        if self.opt("match") {
            self.expr()?;
            self.need("with")?;
            while self.opt("|") {
                self.path()?;
                self.many("name");
                self.need("->")?;
                self.expr()?;
            }
            return self.need("end");
        }
        loop {
            self.atom()?;
            while self.any(&["(", "true", "false", "name", "hole", "number", "string literal"]) {
                self.atom()?;
            }
            if !self.any(OPERATORS) {
                return Some(());
            }
            self.i += 1;
        }
    }
    fn atom(&mut self) -> Option<()> {
        if self.opt("(") {
            self.expr()?;
            return self.need(")");
        }
        if self.any(&["true", "false", "hole", "number", "string literal"]) {
            self.i += 1;
            return Some(());
        }
        self.path()
    }
}

// ------------------------------------------------------------------- generator

struct G<'a> {
    src: &'a mut Src,
    t: Vec<&'static str>,
}

impl G<'_> {
    fn put(&mut self, ks: &[&'static str]) {
        self.t.extend_from_slice(ks);
    }
    fn path(&mut self) {
        self.put(&["name"]);
        if self.src.pct(20) {
            self.put(&[".", "name"]);
        }
    }
    fn type_atom(&mut self, d: usize) {
        match self.src.us(if d > 0 { 6 } else { 5 }) {
            0 => self.put(&["int"]),
            1 => self.put(&["bool"]),
            2 => self.put(&["string"]),
            3 | 4 => self.path(),
            _ => {
                self.put(&["("]);
                self.type_(d - 1);
                self.put(&[")"]);
            }
        }
    }
    fn type_(&mut self, d: usize) {
        if self.src.pct(40) {
            self.path();
            for _ in 0..self.src.us(3) {
                self.type_atom(d);
            }
        } else {
            self.type_atom(d);
        }
        if d > 0 && self.src.pct(35) {
            self.put(&["->"]);
            self.type_(d - 1);
        }
    }
    fn binding(&mut self, d: usize) {
        self.put(&["name"]);
        if self.src.pct(40) {
            self.put(&[":"]);
            self.type_(2);
        }
        self.put(&["="]);
        self.expr(d);
    }
    fn atom(&mut self, d: usize) {
        if d > 0 && self.src.pct(20) {
            self.put(&["("]);
            self.expr(d - 1);
            self.put(&[")"]);
            return;
        }
        match self.src.us(8) {
            0 => self.put(&["true"]),
            1 => self.put(&["false"]),
            2 => self.put(&["number"]),
            3 => self.put(&["string literal"]),
            4 => self.put(&["hole"]),
            _ => self.path(),
        }
    }
    fn expr(&mut self, d: usize) {
        let e = d.saturating_sub(1);
        match self.src.us(if d > 0 { 9 } else { 3 }) {
            3 => {
                self.put(&["let"]);
                self.binding(e);
                self.put(&[";"]);
                self.expr(e);
            }
            4 => {
                self.put(&["if"]);
                self.expr(e);
                self.put(&["then"]);
                self.expr(e);
                self.put(&["else"]);
                self.expr(e);
            }
            5 => {
                self.put(&["\\"]);
                if self.src.pct(30) {
                    self.put(&["fold"]);
                }
                self.put(&["name", "->"]);
                self.expr(e);
            }
            6 => {
                self.put(&["match"]);
                self.expr(e);
                self.put(&["with"]);
                for _ in 0..self.src.us(4) {
                    self.put(&["|"]);
                    self.path();
                    for _ in 0..self.src.us(3) {
                        self.put(&["name"]);
                    }
                    self.put(&["->"]);
                    self.expr(e);
                }
                self.put(&["end"]);
            }
            _ => {
                for k in 0..self.src.weighted(&[4, 3, 2, 1]) + 1 {
                    if k > 0 {
                        let o = *self.src.pick(OPERATORS);
                        self.put(&[o]);
                    }
                    for _ in 0..self.src.weighted(&[5, 3, 2]) + 1 {
                        self.atom(d);
                    }
                }
            }
        }
    }
    fn item(&mut self) {
        match self.src.us(6) {
            0 => {
                self.put(&["import"]);
                if self.src.pct(60) {
                    self.put(&["name"]);
                }
                if self.src.pct(60) {
                    self.put(&["("]);
                    let n = self.src.us(4);
                    for k in 0..n {
                        self.put(&["name"]);
                        if k + 1 < n || self.src.pct(30) {
                            self.put(&[","]);
                        }
                    }
                    self.put(&[")"]);
                }
                self.put(&["from", "string literal", ";"]);
            }
            1 | 2 => {
                if self.src.pct(40) {
                    self.put(&["export"]);
                }
                self.put(&["type", "name"]);
                for _ in 0..self.src.us(3) {
                    self.put(&["name"]);
                }
                self.put(&["="]);
                if self.src.pct(30) {
                    self.put(&["export"]);
                }
                let n = self.src.urange(1, 4);
                for k in 0..n {
                    if k > 0 || self.src.pct(30) {
                        self.put(&["|"]);
                    }
                    self.put(&["name"]);
                    for _ in 0..self.src.us(4) {
                        if self.src.pct(30) {
                            self.put(&["rec"]);
                        } else {
                            self.type_atom(1);
                        }
                    }
                }
                self.put(&[";"]);
            }
            _ => {
                if self.src.pct(40) {
                    self.put(&["export"]);
                }
                self.put(&["let"]);
                let d = self.src.us(4);
                self.binding(d);
                self.put(&[";"]);
            }
        }
    }
}

fn kind_of(text: &str, l: L) -> &'static str {
    match l {
        L::Name => "name",
        L::Hole => "hole",
        L::Number => "number",
        L::Str => "string literal",
        _ => kinds().find(|k| *k == text).unwrap_or(BAD),
    }
}

fn spelled(src: &mut Src, kind: &str) -> String {
    match kind {
        "name" => (*src.pick(&["a", "x", "List", "B", "f_1", "lets", "_", "Rec", "ifx"])).to_owned(),
        "hole" => (*src.pick(&["?a", "?hole", "?0", "?let"])).to_owned(),
        "number" => (*src.pick(&["0", "1", "42", "12a", "99999999999999999999999", "7_"])).to_owned(),
        "string literal" => (*src.pick(&["\"\"", "\"a\"", "\"let x = 1;\"", "\"-- \u{e9}\""])).to_owned(),
        BAD => (*src.pick(&["@", "#", "&", "\u{e9}", "$", "?", "!"])).to_owned(),
        k => k.to_owned(),
    }
}

// ----------------------------------------------------------------------- check

/// The alternatives and the token of a message about syntax.
fn parse(m: &str) -> Option<(Vec<&str>, Option<&str>)> {
    let m = m.strip_prefix("expected ")?;
    // a comma is a token too
    let m2 = m.replace("`,`", "`;`");
    let (all, got) = match m2.rfind(", got ") {
        Some(k) => (&m[..k], Some(&m[k + 6..])),
        None => (m, None),
    };
    let mut out = Vec::new();
    let mut rest = all;
    loop {
        let n = if let Some(r) = rest.strip_prefix('`') { r.find('`')? + 2 } else { rest.find(|c: char| !c.is_ascii_lowercase()).unwrap_or(rest.len()) };
        let (one, more) = rest.split_at(n);
        let known = ["definition", "type", "expression", "operator"].contains(&one) || read(one).is_some();
        if !known {
            return None;
        }
        out.push(one);
        if more.is_empty() {
            break;
        }
        rest = match more.strip_prefix(", or ").or(more.strip_prefix(" or ")) {
            Some(r) => r,
            None => more.strip_prefix(", ")?,
        };
    }
    if let Some(g) = got {
        read(g)?;
    }
    Some((out, got))
}

fn list(xs: &[&str]) -> String {
    match xs {
        [a] => a.to_string(),
        [a, b] => format!("{} or {}", a, b),
        _ => format!("{}, or {}", xs[..xs.len() - 1].join(", "), xs[xs.len() - 1]),
    }
}

fn c34(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut toks: Vec<(&'static str, String)> = Vec::new();
    let mut files = Default::default();
    if src.pct(20) {
        let cfg = Cfg { types: (0, 2), items: (1, 4), fuel: 8, modules: *src.pick(&[(0, 0), (1, 2)]), unicode: false, ..Cfg::default() };
        let (t, _) = good(src, cfg);
        for (a, b, l) in lex(&t.root).ok_or("a lexical error")? {
            if l != L::Comment {
                let s = &t.root[a..b];
                toks.push((kind_of(s, l), s.to_owned()));
            }
        }
        files = t.files;
        case.label("real program");
    } else {
        let mut g = G { src: &mut *src, t: Vec::new() };
        for _ in 0..g.src.urange(1, 3) {
            g.item();
        }
        for k in g.t {
            let s = spelled(src, k);
            toks.push((k, s));
        }
    }
    if let Some(i) = fails(&toks.iter().map(|t| t.0).collect::<Vec<_>>()) {
        return Err(format!("the recognizer of this check stops at {} in {:?}", i, toks));
    }
    // changes
    let all: Vec<&str> = kinds().chain([BAD]).collect();
    for _ in 0..src.weighted(&[10, 60, 20, 10]) {
        let n = toks.len();
        if n == 0 {
            break;
        }
        let i = src.us(n);
        let k = *src.pick(&all);
        match src.us(7) {
            0 => {
                toks.remove(i);
            }
            1 | 2 => {
                let s = spelled(src, k);
                toks.insert(src.us(n + 1), (k, s));
            }
            3 | 4 => {
                let s = spelled(src, k);
                toks[i] = (k, s);
            }
            5 => toks.swap(i, (i + 1) % n),
            _ => toks.truncate(i),
        }
    }
    let ks: Vec<&'static str> = toks.iter().map(|t| t.0).collect();
    // text
    let mut text = String::new();
    let mut spans = Vec::new();
    let eol = *src.pick(&["\n", "\r\n"]);
    for (_, s) in &toks {
        match src.weighted(&[80, 12, 4, 4]) {
            0 => text.push(' '),
            1 => text.push_str(eol),
            2 => text.push_str(&format!(" -- let 1 +{}", eol)),
            _ => text.push_str(&format!("  {}  {} ", eol, eol)),
        }
        spans.push((text.len(), text.len() + s.len()));
        text.push_str(s);
    }
    text.push_str(*src.pick(&["", " ", "\n", " -- end", "\r\n\n"]));
    let texts = Texts { root: text.clone(), files };
    case.text = text.clone();
    generated(src);
    let fail = fails(&ks);
    let ds = texts.errors()?;
    // the errors about syntax, in the order of the text
    let mut about: Vec<((usize, usize), &str)> = ds
        .iter()
        .filter(|d| d.message == BAD || parse(&d.message).is_some())
        .map(|d| ((d.span.start().source_pos(), d.span.end().source_pos()), d.message.as_str()))
        .collect();
    about.sort_by_key(|x| x.0);
    let context = || fmt_diags(&text, &ds);
    let Some(i) = fail else {
        case.label("well-formed");
        return match about.first() {
            None => Ok(()),
            Some(x) => Err(format!("well-formed, and yet an error at {:?}: {}\n{}", x.0, x.1, context())),
        };
    };
    case.nontrivial = i > 0 && toks.len() >= 4;
    case.label(if i == toks.len() { "ends too early" } else { "wrong token" });
    let at = if i < toks.len() {
        spans[i]
    } else {
        let e = spans.last().map_or(0, |s| s.1);
        (e, e)
    };
    let Some(&(first, _)) = about.first() else {
        return Err(format!("no syntax error; there should be one at {:?}\n{}", at, context()));
    };
    if first != at {
        return Err(format!("the first syntax error is at {:?}, not at {:?}\n{}", first, at, context()));
    }
    // the rest of an item that cannot go on may be reported again, as the next item
    let here: Vec<Result<(), String>> = about.iter().filter(|x| x.0 == at).map(|x| judge(x.1, &ks, i)).collect();
    if i < toks.len() && ks[i] == BAD {
        case.label("bad token");
    }
    if here.iter().any(|r| r.is_ok()) {
        return Ok(());
    }
    here.into_iter().next().unwrap()
}

fn judge(message: &str, ks: &[&'static str], i: usize) -> Result<(), String> {
    if i < ks.len() && ks[i] == BAD {
        if message != BAD {
            return Err(format!("a bad token is reported as {:?}", message));
        }
        return Ok(());
    }
    let Some((said, got)) = parse(message) else {
        return Err(format!("{} is called a bad token", shown(ks[i])));
    };
    let rebuilt = format!("expected {}{}", list(&said), got.map_or(String::new(), |g| format!(", got {}", g)));
    if rebuilt != message {
        return Err(format!("the message {:?} is not of the form {:?}", message, rebuilt));
    }
    let want_got = ks.get(i).map(|k| shown(k));
    if got != want_got.as_deref() {
        return Err(format!("the message {:?} should say that it got {:?}", message, want_got));
    }
    // what can stand there
    let mut can: Vec<&'static str> = Vec::new();
    let mut probe = ks[..i].to_vec();
    for k in kinds() {
        probe.push(k);
        if fails(&probe) != Some(i) {
            can.push(k);
        }
        probe.pop();
    }
    let mut covered: Vec<&str> = Vec::new();
    for (n, s) in said.iter().enumerate() {
        if said[..n].contains(s) {
            return Err(format!("{:?} says {} twice", message, s));
        }
        let class: &[&str] = match *s {
            "definition" => DEFINITION,
            "type" => TYPE,
            "expression" => EXPRESSION,
            "operator" => OPERATORS,
            s => {
                let k = read(s).unwrap();
                if !can.contains(&k) {
                    return Err(format!("{:?}: {} cannot stand there", message, s));
                }
                covered.push(k);
                continue;
            }
        };
        if !class.iter().any(|k| can.contains(k)) {
            return Err(format!("{:?}: no {} can stand there", message, s));
        }
        covered.extend(class);
    }
    if ks.get(i) == Some(&"rec") && said.contains(&"type") {
        // it is read as a type that is wrong
        return Ok(());
    }
    if let Some(k) = can.iter().find(|k| !covered.contains(k)) {
        return Err(format!("{:?} does not say that {} could stand there", message, shown(k)));
    }
    for s in &said {
        if let Some(k) = read(s) {
            if covered.iter().filter(|c| **c == k).count() > 1 {
                return Err(format!("{:?} says {} twice", message, s));
            }
        }
    }
    Ok(())
}
