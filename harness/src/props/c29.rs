//! Syntax trees: whatever is put in comes out, in order, at its place.

use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use internal_iterator::InternalIterator;
use ticc_syntax::cursor::{SyntaxElement, SyntaxNode};
use ticc_syntax::{NodeId, Pos, Span, SyntaxBuilder, SyntaxKind, SyntaxTree, TokenKind, TriviaKind};

pub const C29: Prop = Prop {
    id: "C29",
    quick: 60000,
    thorough: 3000000,
    rule: "a tree of ten or more elements, three levels or more deep, with tokens, trivia and a node without any token",
    assumptions: &["tokens and trivia cover the text from its start on, and end at character boundaries"],
    f: c29,
};

const KINDS: &[SyntaxKind] = &[SyntaxKind::ImportItem, SyntaxKind::TypeItem, SyntaxKind::FnType, SyntaxKind::NameExpr, SyntaxKind::MatchCase, SyntaxKind::Name, SyntaxKind::Error, SyntaxKind::Trivia, SyntaxKind::Root];
const TOKENS: &[TokenKind] = &[TokenKind::Import, TokenKind::Ident, TokenKind::Number, TokenKind::String, TokenKind::Arrow, TokenKind::ArgPipe, TokenKind::Error, TokenKind::Hole];
const TRIVIA: &[TriviaKind] = &[TriviaKind::Space, TriviaKind::Newline, TriviaKind::Comment];

#[derive(Clone, Debug)]
enum What {
    Node(NodeId, SyntaxKind, Vec<E>),
    Token(TokenKind),
    Trivia(TriviaKind),
}

/// An element and the bytes it covers.
#[derive(Clone, Debug)]
struct E {
    what: What,
    from: usize,
    to: usize,
}

struct Made<'s> {
    src: &'s mut Src,
    text: String,
    left: usize,
    depth: usize,
    next: u32,
}

impl Made<'_> {
    fn piece(&mut self) {
        let n = self.src.weighted(&[5, 40, 25, 15, 10, 5]);
        for _ in 0..n {
            let c = *self.src.pick(&["a", "Z", " ", "\n", "\r\n", "\t", "\u{e9}", "\u{4e2d}", "\u{1f600}", "->", "0", "\0"]);
            self.text.push_str(c);
        }
    }
    fn node(&mut self, depth: usize) -> E {
        self.depth = self.depth.max(depth);
        let from = self.text.len();
        let id = match self.src.us(8) {
            0 => u32::MAX,
            _ => self.next,
        };
        self.next += 1;
        let kind = *self.src.pick(KINDS);
        let n = self.src.weighted(&[12, 15, 20, 20, 15, 10, 8]);
        let mut parts = Vec::new();
        for _ in 0..n {
            if self.left == 0 {
                break;
            }
            self.left -= 1;
            let at = self.text.len();
            let what = match self.src.weighted(&[40, 35, 25]) {
                0 if depth < 12 => {
                    parts.push(self.node(depth + 1));
                    continue;
                }
                2 => What::Trivia(*self.src.pick(TRIVIA)),
                _ => What::Token(*self.src.pick(TOKENS)),
            };
            self.piece();
            parts.push(E { what, from: at, to: self.text.len() });
        }
        E { what: What::Node(NodeId(id), kind, parts), from, to: self.text.len() }
    }
}

fn build(b: &mut SyntaxBuilder, e: &E, root: bool) {
    match &e.what {
        What::Node(id, kind, parts) => {
            b.start_node(*id, *kind);
            parts.iter().for_each(|p| build(b, p, false));
            if !root {
                b.finish_node();
            }
        }
        What::Token(k) => b.add_token(*k, e.to - e.from),
        What::Trivia(k) => b.add_trivia(*k, e.to - e.from),
    }
}

/// Where the element is when trivia around it does not count.
fn inside(e: &E) -> (usize, usize) {
    let What::Node(_, _, parts) = &e.what else { return (e.from, e.to) };
    let solid = || parts.iter().filter(|p| !matches!(p.what, What::Trivia(_)));
    let from = solid().next().map_or(e.from, |p| inside(p).0);
    let to = solid().last().map_or(e.from, |p| inside(p).1);
    (from, to)
}

fn flat<'a>(e: &'a E, out: &mut Vec<&'a E>) {
    out.push(e);
    if let What::Node(_, _, parts) = &e.what {
        parts.iter().for_each(|p| flat(p, out));
    }
}

struct Ctx<'a> {
    text: &'a str,
    base: usize,
}

fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, is: T) -> Result<(), String> {
    if got == is {
        Ok(())
    } else {
        Err(format!("{}: {:?} instead of {:?}", what, got, is))
    }
}

impl Ctx<'_> {
    fn span(&self, r: (usize, usize)) -> Span {
        Span::new(Pos::new((self.base + r.0) as u32), Pos::new((self.base + r.1) as u32))
    }
    fn same(&self, got: SyntaxElement<'_>, e: &E, deep: bool) -> Result<(), String> {
        let all = (e.from, e.to);
        match &e.what {
            What::Node(..) => {
                let n = got.into_node().ok_or("a node is something else")?;
                if got.into_token().is_some() || got.into_trivia().is_some() {
                    return Err("a node is something else as well".into());
                }
                self.node(n, e, deep)
            }
            What::Token(k) => {
                let t = got.into_token().ok_or("a token is something else")?;
                if got.into_node().is_some() || got.into_trivia().is_some() {
                    return Err("a token is something else as well".into());
                }
                want("token kind", t.kind(), *k)?;
                want("token span", t.span(), self.span(all))?;
                want("token text", t.text(), &self.text[e.from..e.to])
            }
            What::Trivia(k) => {
                let t = got.into_trivia().ok_or("trivia is something else")?;
                if got.into_node().is_some() || got.into_token().is_some() {
                    return Err("trivia is something else as well".into());
                }
                want("trivia kind", t.kind(), *k)?;
                want("trivia span", t.span(), self.span(all))?;
                want("trivia text", t.text(), &self.text[e.from..e.to])
            }
        }
    }
    fn node(&self, n: SyntaxNode<'_>, e: &E, deep: bool) -> Result<(), String> {
        let What::Node(id, kind, parts) = &e.what else { unreachable!() };
        want("node id", n.id(), *id)?;
        want("node kind", n.kind(), *kind)?;
        want("full span", n.full_span(), self.span((e.from, e.to)))?;
        want("full text", n.full_text(), &self.text[e.from..e.to])?;
        let (from, to) = inside(e);
        want("span", n.span(), self.span((from, to)))?;
        want("text", n.text(), &self.text[from..to])?;
        if !deep {
            return Ok(());
        }
        let got: Vec<SyntaxElement> = n.all_children().collect();
        want("number of children", got.len(), parts.len())?;
        got.iter().zip(parts).try_for_each(|(g, p)| self.same(*g, p, true))?;
        let got: Vec<SyntaxNode> = n.children().collect();
        let is: Vec<&E> = parts.iter().filter(|p| matches!(p.what, What::Node(..))).collect();
        want("number of child nodes", got.len(), is.len())?;
        got.iter().zip(is).try_for_each(|(g, p)| self.node(*g, p, false))
    }
    fn below(&self, n: SyntaxNode<'_>, e: &E, stop: usize) -> Result<(), String> {
        let mut all = Vec::new();
        flat(e, &mut all);
        let got: Vec<SyntaxElement> = n.descendant_elements().collect();
        want("number of elements below", got.len(), all.len())?;
        got.iter().zip(&all).try_for_each(|(g, p)| self.same(*g, p, false))?;
        let nodes: Vec<&E> = all.iter().copied().filter(|p| matches!(p.what, What::Node(..))).collect();
        let got: Vec<SyntaxNode> = n.descendants().collect();
        want("number of nodes below", got.len(), nodes.len())?;
        got.iter().zip(&nodes).try_for_each(|(g, p)| self.node(*g, p, false))?;
        // a search ends at the first that fits
        let k = stop % all.len();
        let mut seen = 0;
        let found = n.descendant_elements().find_map(|x| {
            seen += 1;
            (seen > k).then_some(x)
        });
        want("elements looked at", seen, k + 1)?;
        self.same(found.ok_or("nothing found")?, all[k], false)?;
        let k = stop % nodes.len();
        let mut seen = 0;
        let found = n.descendants().find_map(|x| {
            seen += 1;
            (seen > k).then_some(x)
        });
        want("nodes looked at", seen, k + 1)?;
        self.node(found.ok_or("no node found")?, nodes[k], false)?;
        let mut seen = 0;
        if n.descendants().find_map(|_| -> Option<()> { seen += 1; None }).is_some() {
            return Err("found what is not there".into());
        }
        want("nodes looked at in vain", seen, nodes.len())
    }
}

fn c29(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let base = *src.pick(&[0, 0, 1, 17, 70000, 1 << 31]);
    let left = src.us(60);
    let mut m = Made { src: &mut *src, text: String::new(), left, depth: 0, next: 0 };
    let mut root = m.node(0);
    let (depth, covered) = (m.depth, m.text.len());
    // text nobody claimed
    let mut text = m.text;
    if src.pct(20) {
        text.push_str(["x", " ", "\u{e9}\n"][src.us(3)]);
    }
    let stop = src.us(1000);
    let shift = *src.pick(&[0, 3, 1000]);
    generated(src);
    case.text = format!("{:?} from {}\n{:#?}", text, base, root);
    let mut all = Vec::new();
    flat(&root, &mut all);
    let bare = |e: &&E| matches!(&e.what, What::Node(_, _, p) if !p.iter().any(|p| !matches!(p.what, What::Trivia(_))));
    case.nontrivial = all.len() >= 10 && depth >= 3 && all.iter().any(|e| matches!(e.what, What::Trivia(_))) && all.iter().any(|e| matches!(e.what, What::Token(_))) && all.iter().any(bare);
    case.label_if(base > 0, "not from zero");
    case.label_if(!text.is_ascii(), "multi-byte text");
    case.label_if(covered < text.len(), "text beyond the tree");
    let nodes: Vec<E> = all.iter().filter(|p| matches!(p.what, What::Node(..))).map(|e| (*e).clone()).collect();
    root.to = covered;
    let res = guard(|| -> Result<(), String> {
        let mut b = SyntaxBuilder::new(Pos::new(base as u32), &text);
        build(&mut b, &root, true);
        let tree: SyntaxTree = b.finish();
        let copy = tree.clone();
        let c = Ctx { text: &text, base };
        c.node(tree.root(), &root, true)?;
        c.node(copy.root(), &root, true)?;
        c.below(tree.root(), &root, stop)?;
        // and below some node inside
        let k = stop % nodes.len();
        let inner: Vec<SyntaxNode> = tree.root().descendants().collect();
        c.below(inner[k], &nodes[k], stop / 7)?;
        // places
        let s = inner[k].span();
        want("length", s.source_len(), s.source_range().len())?;
        want("bounds", (s.start().source_pos(), s.end().source_pos()), (s.source_range().start, s.source_range().end))?;
        let moved = s.from_origin(Pos::new(shift as u32));
        want("moved span", (moved.start().source_pos(), moved.end().source_pos()), (s.start().source_pos() + shift, s.end().source_pos() + shift))?;
        want("order of places", s.start() <= s.end(), true)
    })?;
    res
}
