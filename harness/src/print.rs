//! Programs to token streams to text, remembering where everything went.

use crate::ast::*;
use crate::choice::Src;
use crate::scope::Scope;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TK {
    Kw,
    Punct,
    Oper,
    Num,
    Str,
    Hole,
    Name,
}

#[derive(Clone, Debug)]
pub struct Occ {
    /// what the name denotes; several only for exposed names
    pub bs: Vec<B>,
    pub def: bool,
    pub ns: Ns,
    /// the name follows `Module.`
    pub qual: Option<usize>,
    /// what is visible at this place (when asked for)
    pub scope: Option<Rc<Scope>>,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    pub kind: TK,
    pub occ: Option<Occ>,
    pub item: usize,
}

#[derive(Clone, Debug)]
pub struct ExprAt {
    pub id: u32,
    /// first and last token
    pub lo: usize,
    pub hi: usize,
    /// the node is the parentheses around the expression
    pub paren: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Printed {
    pub toks: Vec<Tok>,
    pub exprs: Vec<ExprAt>,
    /// first and last token of every item
    pub items: Vec<(usize, usize)>,
}

pub struct Style {
    /// redundant parentheses, percent
    pub parens: u64,
    /// prefer qualified names, percent
    pub qual: u64,
    /// record scopes
    pub snap: bool,
    /// parenthesize every operator application completely
    pub full: bool,
    /// leading zeros in numbers, sometimes
    pub zeros: bool,
}

impl Default for Style {
    fn default() -> Style {
        Style { parens: 5, qual: 30, snap: false, full: false, zeros: true }
    }
}

pub struct Printer<'a> {
    p: &'a Prog,
    src: &'a mut Src,
    st: &'a Style,
    out: Printed,
    scope: Scope,
    item: usize,
}

const L_ANY: u8 = 0;
const L_APP: u8 = 5;
const L_ATOM: u8 = 6;

pub fn print_module(p: &Prog, m: usize, st: &Style, src: &mut Src) -> Printed {
    let mut pr = Printer { p, src, st, out: Printed::default(), scope: Scope::default(), item: 0 };
    for it in &p.modules[m].items {
        pr.item(it);
        pr.item += 1;
    }
    pr.out
}

impl<'a> Printer<'a> {
    fn tok(&mut self, kind: TK, text: &str) {
        self.out.toks.push(Tok { text: text.to_owned(), kind, occ: None, item: self.item });
    }
    fn kw(&mut self, t: &str) {
        self.tok(TK::Kw, t);
    }
    fn pu(&mut self, t: &str) {
        self.tok(TK::Punct, t);
    }
    fn name(&mut self, bs: Vec<B>, ns: Ns, def: bool, qual: Option<usize>) {
        let text = self.p.name(bs[0]).to_owned();
        let scope = if self.st.snap { Some(Rc::new(self.scope.clone())) } else { None };
        self.out.toks.push(Tok { text, kind: TK::Name, occ: Some(Occ { bs, def, ns, qual, scope }), item: self.item });
    }
    fn def(&mut self, b: B, ns: Ns) {
        self.name(vec![b], ns, true, None);
    }
    fn reference(&mut self, b: B, ns: Ns) {
        let ways = self.scope.ways(self.p, ns, b);
        let plain = ways.iter().position(|w| w.is_none());
        let quals: Vec<(B, usize)> = ways.iter().flatten().copied().collect();
        let q = match (plain, quals.is_empty()) {
            (None, true) => panic!("{} {:?} is not reachable here", self.p.name(b), ns),
            (Some(_), true) => None,
            (Some(_), false) => {
                if self.src.pct(self.st.qual) {
                    Some(*self.src.pick(&quals))
                } else {
                    None
                }
            }
            (None, false) => Some(*self.src.pick(&quals)),
        };
        if let Some((a, m)) = q {
            self.name(vec![a], Ns::Module, false, None);
            self.pu(".");
            self.name(vec![b], ns, false, Some(m));
        } else {
            self.name(vec![b], ns, false, None);
        }
    }

    fn item(&mut self, it: &Item) {
        let start = self.out.toks.len();
        match it {
            Item::Import(i) => {
                self.kw("import");
                if let Some(a) = i.alias {
                    self.def(a, Ns::Module);
                }
                if let Some(ex) = &i.exposed {
                    self.pu("(");
                    for (k, e) in ex.iter().enumerate() {
                        if k > 0 {
                            self.pu(",");
                        }
                        let ns = match self.p.binders[e.binders[0]].kind {
                            BK::Value(_) => Ns::Value,
                            BK::Ctor(..) => Ns::Ctor,
                            _ => Ns::Type,
                        };
                        self.name(e.binders.clone(), ns, true, None);
                    }
                    if !ex.is_empty() && self.src.pct(5) {
                        self.pu(",");
                    }
                    self.pu(")");
                }
                self.kw("from");
                let path = format!("\"{}\"", self.p.modules[i.target].path);
                self.tok(TK::Str, &path);
                self.pu(";");
            }
            Item::Type(t) => {
                if t.export {
                    self.kw("export");
                }
                self.kw("type");
                self.def(t.b, Ns::Type);
                let keep = self.scope.types.len();
                for &v in &t.params {
                    self.def(v, Ns::Type);
                }
                self.scope.types.extend(t.params.iter().copied());
                self.pu("=");
                if t.export_ctors {
                    self.kw("export");
                }
                for (k, c) in t.ctors.iter().enumerate() {
                    if k > 0 || self.src.pct(40) {
                        self.pu("|");
                    }
                    self.def(c.b, Ns::Ctor);
                    for f in &c.fields {
                        match f {
                            Field::Rec => self.kw("rec"),
                            Field::Ty(t) => self.ty_prec(t, 2),
                        }
                    }
                }
                self.scope.types.truncate(keep);
                self.pu(";");
            }
            Item::Val(v) => {
                if v.export {
                    self.kw("export");
                }
                self.kw("let");
                let keep = self.scope.types.len();
                self.def(v.b, Ns::Value);
                if v.ann {
                    self.pu(":");
                    let t = self.p.scheme(v.b).ty;
                    self.ty_prec(&t, 0);
                }
                self.pu("=");
                self.expr(&v.e, L_ANY);
                self.pu(";");
                self.scope.types.truncate(keep);
            }
        }
        self.scope.add_item(self.p, it);
        let end = self.out.toks.len() - 1;
        self.out.items.push((start, end));
    }

    /// 0 anything, 1 no function, 2 atom
    fn ty_prec(&mut self, t: &Ty, prec: u8) {
        let need = match t {
            Ty::Fn(..) => prec >= 1,
            Ty::Con(_, a) => prec >= 2 && !a.is_empty(),
            _ => false,
        };
        let paren = need || self.src.pct(self.st.parens / 2);
        if paren {
            self.pu("(");
        }
        match t {
            Ty::Int => self.kw("int"),
            Ty::Bool => self.kw("bool"),
            Ty::Str => self.kw("string"),
            Ty::Fn(a, b) => {
                self.ty_prec(a, 1);
                self.pu("->");
                self.ty_prec(b, 0);
            }
            Ty::Con(c, args) => {
                self.reference(*c, Ns::Type);
                for a in args {
                    self.ty_prec(a, 2);
                }
            }
            Ty::Var(v) => {
                if self.scope.types.contains(v) {
                    self.reference(*v, Ns::Type);
                } else {
                    assert!(self.scope.lookup(self.p, Ns::Type, self.p.name(*v)).is_none(), "type variable clashes");
                    self.def(*v, Ns::Type);
                    self.scope.types.push(*v);
                }
            }
            Ty::Folded(..) | Ty::Meta(_) => panic!("type cannot be written"),
        }
        if paren {
            self.pu(")");
        }
    }

    fn expr(&mut self, e: &E, level: u8) {
        let own = match &e.k {
            K::Var(_) | K::Int(_) | K::Bool(_) | K::Str(_) | K::Hole(_) => L_ATOM,
            K::App(..) => L_APP,
            K::Bin(op, ..) => op.prec(),
            _ => L_ANY,
        };
        let mut wraps = usize::from(own < level || (self.st.full && own < L_ATOM && level > L_ANY));
        if self.st.parens > 0 && self.src.pct(self.st.parens) {
            wraps += 1;
        }
        let lo = self.out.toks.len();
        let mut slots = Vec::new();
        for k in 0..wraps {
            slots.push(self.out.exprs.len());
            self.out.exprs.push(ExprAt { id: e.id, lo: lo + k, hi: 0, paren: true });
            self.pu("(");
        }
        let slot = self.out.exprs.len();
        self.out.exprs.push(ExprAt { id: e.id, lo: lo + wraps, hi: 0, paren: false });
        match &e.k {
            K::Var(b) => self.reference(*b, Ns::Value),
            K::Int(i) => {
                let mut t = i.to_string();
                if self.st.zeros && self.src.pct(3) {
                    t = format!("00{}", t);
                }
                self.tok(TK::Num, &t);
            }
            K::Bool(b) => self.kw(if *b { "true" } else { "false" }),
            K::Str(s) => {
                let t = format!("\"{}\"", s);
                self.tok(TK::Str, &t);
            }
            K::Hole(h) => {
                let t = format!("?{}", h);
                self.tok(TK::Hole, &t);
            }
            K::App(f, a) => {
                self.expr(f, L_APP);
                self.expr(a, L_ATOM);
            }
            K::Bin(op, a, b) => {
                self.expr(a, op.prec());
                self.tok(TK::Oper, op.text());
                self.expr(b, op.prec() + 1);
            }
            K::If(c, t, f) => {
                self.kw("if");
                self.expr(c, L_ANY);
                self.kw("then");
                self.expr(t, L_ANY);
                self.kw("else");
                self.expr(f, L_ANY);
            }
            K::Lam { p, fold, body } => {
                self.pu("\\");
                if *fold {
                    self.kw("fold");
                }
                self.def(*p, Ns::Value);
                self.pu("->");
                self.scope.values.push(*p);
                self.expr(body, L_ANY);
                self.scope.values.pop();
            }
            K::Let { b, ann, val, body } => {
                self.kw("let");
                self.def(*b, Ns::Value);
                let keep = self.scope.types.len();
                if *ann {
                    self.pu(":");
                    let t = self.p.scheme(*b).ty;
                    self.ty_prec(&t, 0);
                }
                self.pu("=");
                self.expr(val, L_ANY);
                self.scope.types.truncate(keep);
                self.pu(";");
                self.scope.values.push(*b);
                self.expr(body, L_ANY);
                self.scope.values.pop();
            }
            K::Match { scrut, arms } => {
                self.kw("match");
                self.expr(scrut, L_ANY);
                self.kw("with");
                for a in arms {
                    self.pu("|");
                    self.reference(a.ctor, Ns::Ctor);
                    for &v in &a.vars {
                        self.def(v, Ns::Value);
                    }
                    self.pu("->");
                    let keep = self.scope.values.len();
                    self.scope.values.extend(a.vars.iter().copied());
                    self.expr(&a.body, L_ANY);
                    self.scope.values.truncate(keep);
                }
                self.kw("end");
            }
        }
        self.out.exprs[slot].hi = self.out.toks.len() - 1;
        for k in (0..wraps).rev() {
            self.pu(")");
            self.out.exprs[slots[k]].hi = self.out.toks.len() - 1;
        }
    }
}

// ------------------------------------------------------------------ layout

#[derive(Clone, Debug, Default)]
pub struct Laid {
    pub text: String,
    pub spans: Vec<(usize, usize)>,
    pub comments: Vec<(usize, usize)>,
}

#[derive(Clone, Copy)]
pub struct Layout {
    /// probability of something other than the plain separator
    pub fancy: u64,
    pub comments: bool,
    pub unicode: bool,
    /// 0 LF, 1 CRLF, 2 mixed
    pub eol: u8,
}

impl Layout {
    pub const PLAIN: Layout = Layout { fancy: 0, comments: false, unicode: false, eol: 0 };
    pub fn random(src: &mut Src) -> Layout {
        Layout {
            fancy: *src.pick(&[0, 10, 40, 80]),
            comments: src.pct(50),
            unicode: src.pct(50),
            eol: src.weighted(&[60, 20, 20]) as u8,
        }
    }
}

fn word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

pub fn needs_space(a: &str, b: &str) -> bool {
    let (Some(x), Some(y)) = (a.chars().last(), b.chars().next()) else { return false };
    let op = "-<>=!|";
    (word(x) && word(y)) || (op.contains(x) && op.contains(y))
}

fn tight(a: &str, b: &str) -> bool {
    matches!(a, "(" | "\\" | ".") || matches!(b, ")" | ";" | "," | ".")
}

pub fn comment_text(src: &mut Src, unicode: bool) -> String {
    let mut t = String::from("--");
    let n = src.us(8);
    let pool: &[&str] = if unicode {
        &["a", " ", "let", "\"", "é", "語", "😀", ";", "--", "?", "e\u{301}"]
    } else {
        &["a", " ", "let", "\"", "x", "(", "match", ";", "--", "?", "end"]
    };
    for _ in 0..n {
        t.push_str(src.pick(pool));
    }
    t
}

pub fn layout(toks: &[Tok], lay: Layout, src: &mut Src) -> Laid {
    let mut out = Laid::default();
    let eol = |src: &mut Src| -> &'static str {
        match lay.eol {
            0 => "\n",
            1 => "\r\n",
            _ => {
                if src.pct(50) {
                    "\r\n"
                } else {
                    "\n"
                }
            }
        }
    };
    for (i, t) in toks.iter().enumerate() {
        let prev = if i == 0 { "" } else { toks[i - 1].text.as_str() };
        let new_item = i > 0 && toks[i - 1].item != t.item;
        let must = i > 0 && needs_space(prev, &t.text);
        if lay.fancy > 0 && src.pct(lay.fancy) {
            let kinds = if lay.comments { 5 } else { 4 };
            let n = src.urange(1, 2);
            let mut any = false;
            for _ in 0..n {
                match src.us(kinds) {
                    0 => {}
                    1 => {
                        out.text.push(' ');
                        any = true;
                    }
                    2 => {
                        let k = src.urange(1, 4);
                        out.text.push_str(&" ".repeat(k));
                        any = true;
                    }
                    3 => {
                        out.text.push_str(eol(src));
                        any = true;
                    }
                    _ => {
                        if out.text.ends_with('-') {
                            out.text.push(' ');
                        }
                        let c = comment_text(src, lay.unicode);
                        let a = out.text.len();
                        out.text.push_str(&c);
                        out.comments.push((a, out.text.len()));
                        out.text.push_str(eol(src));
                        any = true;
                    }
                }
            }
            if must && !any {
                out.text.push(' ');
            }
        } else if i == 0 {
        } else if new_item {
            out.text.push_str(eol(src));
        } else if must || !tight(prev, &t.text) {
            out.text.push(' ');
        }
        let a = out.text.len();
        out.text.push_str(&t.text);
        out.spans.push((a, out.text.len()));
    }
    if lay.fancy > 0 {
        if src.pct(60) {
            out.text.push_str(eol(src));
        }
        if lay.comments && src.pct(20) {
            let a = out.text.len();
            let c = comment_text(src, lay.unicode);
            out.text.push_str(&c);
            out.comments.push((a, out.text.len()));
        }
    } else {
        out.text.push('\n');
    }
    out
}
