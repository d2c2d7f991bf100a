//! The token listing.

use crate::ast::*;
use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::gen::{program, Cfg};
use crate::lexref::{lex, L};
use crate::print::{Layout, Style, TK};
use crate::sut::Texts;
use crate::texts::{odd, weird, POOL};
use ticc::{Token, TokenKind};

pub const C09: Prop = Prop {
    id: "C09",
    quick: 120000,
    thorough: 1500000,
    rule: "a text with eight or more tokens of three or more kinds",
    assumptions: &[
        "a comment before CRLF may or may not include the CR",
        "names that do not resolve, and exposed names that denote several things, may be given any kind of name",
        "a module alias is listed like a type where it is introduced, and as any kind of name where it qualifies",
    ],
    f: c09,
};

fn span(t: &Token) -> (usize, usize) {
    (t.span.start().source_pos(), t.span.end().source_pos())
}

fn tokens(t: &Texts) -> Result<Vec<Token>, String> {
    guard(|| t.unit(false, true).tokens().collect::<Vec<_>>()).map_err(|p| format!("panic in tokens: {}", p))
}

fn is_name(k: TokenKind) -> bool {
    matches!(k, TokenKind::Value | TokenKind::Function | TokenKind::Ctor | TokenKind::Type | TokenKind::TypeVariable)
}

fn lexical(text: &str, got: &[Token], case: &mut Case) -> Result<(), String> {
    let mut last = 0;
    for t in got {
        let (a, b) = span(t);
        if a < last || b <= a || b > text.len() {
            return Err(format!("tokens not ordered: {:?} {}..{} after {}", t.kind, a, b, last));
        }
        last = b;
    }
    let Some(want) = lex(text) else {
        case.label("lexical error");
        return Ok(());
    };
    case.label("lexically correct");
    let kinds: std::collections::HashSet<u8> = want.iter().map(|w| w.2 as u8).collect();
    case.nontrivial = want.len() >= 8 && kinds.len() >= 3;
    let show = |a: usize, b: usize| text.get(a..b).unwrap_or("?").to_owned();
    for k in 0..want.len().max(got.len()) {
        match (want.get(k), got.get(k)) {
            (Some(&(a, b, l)), Some(t)) => {
                let (x, y) = span(t);
                let end_ok = y == b || (l == L::Comment && y + 1 == b && text.as_bytes()[y] == b'\r');
                if x != a || !end_ok {
                    return Err(format!("token extents: token {} is {}..{} {:?}, listed as {}..{} {:?}", k, a, b, show(a, b), x, y, show(x, y)));
                }
                let ok = match l {
                    L::Keyword => matches!(t.kind, TokenKind::Keyword),
                    L::Name => is_name(t.kind),
                    L::Hole => is_name(t.kind),
                    L::Punct => matches!(t.kind, TokenKind::Punctuation),
                    L::Oper => matches!(t.kind, TokenKind::Operator),
                    L::Number => matches!(t.kind, TokenKind::Number),
                    L::Str => matches!(t.kind, TokenKind::String),
                    L::Comment => matches!(t.kind, TokenKind::Comment),
                };
                if !ok {
                    return Err(format!("token kind: {:?} at {}..{} listed as {:?}", show(a, b), a, b, t.kind));
                }
            }
            (Some(&(a, b, _)), None) => return Err(format!("token missing: {:?} at {}..{}", show(a, b), a, b)),
            (None, Some(t)) => return Err(format!("extra token: {:?} at {:?}", t.kind, span(t))),
            (None, None) => {}
        }
    }
    Ok(())
}

fn c09(src: &mut Src, case: &mut Case) -> Result<(), String> {
    if src.pct(45) {
        return named(src, case);
    }
    let t = match src.weighted(&[30, 55, 15]) {
        0 => weird(src, 50).0,
        1 => {
            // nothing but proper tokens, in any order
            let mut s = String::new();
            for _ in 0..src.us(50) {
                match src.weighted(&[80, 12, 8]) {
                    0 => s.push_str(src.pick(POOL)),
                    1 => s.push_str(src.pick(&["\"a b\"", "\"é--\"", "\"?x ;\"", "-- c", "--", "--é \"", "endx", "_let", "0x", "?0", "?let", "x1", "9_", "ifelse"])),
                    _ => s.push_str(src.pick(&["-", ">", "=", "<", "|", "!="])),
                }
                s.push_str(src.pick(&[" ", "", "\n", "\r\n", "  ", "\n\n"]));
            }
            Texts::single(&s)
        }
        _ => {
            let mut s = String::new();
            for _ in 0..src.us(30) {
                s.push_str(&odd(src));
                if src.pct(50) {
                    s.push_str(src.pick(POOL));
                }
            }
            Texts::single(&s)
        }
    };
    case.text = t.show();
    generated(src);
    let got = tokens(&t)?;
    lexical(&t.root, &got, case)
}

/// Every name is the kind of thing it denotes.
fn named(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut cfg = Cfg { odd_names: *src.pick(&[4, 50]), shadow: *src.pick(&[35, 70]), holes: 4, types: (0, 3), fuel: *src.pick(&[10, 22]), ..Cfg::default() };
    if src.pct(40) {
        cfg.modules = (0, 0);
    }
    let pg = program(src, cfg);
    let lay = Layout::random(src);
    let r = pg.render(&Style { qual: *src.pick(&[30, 90]), ..Style::default() }, lay, src);
    case.text = r.texts.show();
    generated(src);
    let got = tokens(&r.texts)?;
    lexical(&r.texts.root, &got, case)?;
    case.label("names");
    let by_start: std::collections::HashMap<usize, &Token> = got.iter().map(|t| (span(t).0, t)).collect();
    for (t, (a, _)) in r.root.0.toks.iter().zip(&r.root.1.spans) {
        if t.kind != TK::Name {
            continue;
        }
        let occ = t.occ.as_ref().unwrap();
        let Some(g) = by_start.get(a) else { return Err(format!("token missing: {} at {}", t.text, a)) };
        if !occ.def && occ.bs.iter().all(|&b| matches!(pg.p.binders[b].kind, BK::Module)) {
            // a qualifier is a name, of no kind the property speaks about
            continue;
        }
        let fits = occ.bs.iter().any(|&b| match &pg.p.binders[b].kind {
            BK::Value(_) => matches!(g.kind, TokenKind::Value),
            // what is imported by one name as value and constructor is the same thing
            BK::Ctor(..) => matches!(g.kind, TokenKind::Ctor),
            BK::Type | BK::Module => matches!(g.kind, TokenKind::Type),
            BK::TyVar => matches!(g.kind, TokenKind::TypeVariable),
        });
        if !fits {
            return Err(format!(
                "name kind: {} at {} {} {:?} listed as {:?}",
                t.text,
                a,
                if occ.def { "defines" } else { "denotes" },
                occ.bs.iter().map(|&b| &pg.p.binders[b].kind).collect::<Vec<_>>(),
                g.kind
            ));
        }
    }
    Ok(())
}
