//! Layout, comments and local names carry no meaning.

use super::c04::mutate;
use crate::ast::*;
use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::eval::{Eval, Stop};
use crate::gen::{program, Cfg};
use crate::lexref::KEYWORDS;
use crate::print::{layout, Laid, Layout, Style, Tok, TK};
use crate::stdlib::STD;
use crate::sut::{Texts, RUNNERS};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use ticc::{Pos, Span};

pub const C12: Prop = Prop {
    id: "C12",
    quick: 8000,
    thorough: 400000,
    rule: "a text of 12 or more tokens and another one with the same tokens in a different layout, or with the same layout and other names",
    assumptions: &[
        "after a syntax error the parser goes on at a `let` in the first column, so only the first syntax error of such a text is compared between layouts",
        "renaming keeps a leading underscore, and lower case at the start of a type variable; names of bundled library exports and `main` keep theirs",
    ],
    f: c12,
};

const JUNK: &[&str] = &["+", "*", "|>", "=", ":", "->", "|", "\\", ",", ".", "0", "12", "\"s\"", "zz1", "zz2", "?h", "int", "let", "match", "end", ";", "(", ")", "type", "export", "if", "rec", "fold", "from"];

struct Side {
    texts: Texts,
    laid: Laid,
}

fn side(mods: &[(String, Vec<Tok>, Laid)]) -> Side {
    let files: HashMap<String, String> = mods[..mods.len() - 1].iter().map(|(n, _, l)| (n.clone(), l.text.clone())).collect();
    let root = &mods[mods.len() - 1];
    Side { texts: Texts { root: root.2.text.clone(), files }, laid: root.2.clone() }
}

/// Which token a position belongs to, seen from the right or from the left.
fn place(l: &Laid, p: usize, end: bool) -> String {
    for (i, &(a, b)) in l.spans.iter().enumerate() {
        if (!end && a <= p && p < b) || (end && a < p && p <= b) {
            return format!("{}+{}", i, p - a);
        }
    }
    match l.spans.iter().rposition(|&(_, b)| b <= p) {
        Some(i) if p == l.text.len() => format!("end({})", i),
        Some(i) => format!("after {}", i),
        None => "start".into(),
    }
}

fn span(l: &Laid, s: Span) -> String {
    let (a, b) = (s.start().source_pos(), s.end().source_pos());
    if a == b {
        return format!("[{}]", place(l, a, true));
    }
    format!("{}..{}", place(l, a, false), place(l, b, true))
}

fn words(s: &str, f: &mut dyn FnMut(&str) -> Option<String>) -> String {
    let wordc = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        let n = if wordc(c) { rest.find(|c| !wordc(c)).unwrap_or(rest.len()) } else { c.len_utf8() };
        let w = &rest[..n];
        match f(w) {
            Some(x) => out.push_str(&x),
            None => out.push_str(w),
        }
        rest = &rest[n..];
    }
    out
}

fn c12(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let cfg = Cfg {
        holes: *src.pick(&[0, 4]),
        fuel: *src.pick(&[18, 10, 28]),
        items: *src.pick(&[(1, 6), (3, 8)]),
        shadow: *src.pick(&[10, 35, 70]),
        omit: *src.pick(&[0, 35, 100]),
        modules: *src.pick(&[(0, 0), (0, 2), (1, 2)]),
        ..Cfg::default()
    };
    let mut pg = program(src, cfg);
    let sort = src.weighted(&[45, 30, 25]);
    if sort == 1 {
        for _ in 0..src.urange(1, 2) {
            mutate(&mut pg, src);
        }
    }
    let style = Style { snap: true, ..Style::default() };
    let base_layout = if src.pct(70) { Layout::PLAIN } else { Layout::random(src) };
    let Ok(r) = guard(|| pg.render(&style, base_layout, src)) else { return case.discard() };
    let mut mods: Vec<(String, Vec<Tok>, Laid)> = r.mods.into_iter().map(|(m, pr, la)| (pg.p.modules[m].path.clone(), pr.toks, la)).collect();
    let mut root_toks = r.root.0.toks;
    let mut base_laid = r.root.1;
    if sort == 2 {
        for _ in 0..src.urange(1, 3) {
            if root_toks.len() < 3 {
                break;
            }
            let i = src.us(root_toks.len());
            let junk = |src: &mut Src, item: usize| {
                let text = src.pick(JUNK).to_string();
                let name = text.as_bytes()[0].is_ascii_alphabetic() && !KEYWORDS.contains(&text.as_str());
                Tok { kind: if name { TK::Name } else { TK::Punct }, text, occ: None, item }
            };
            match src.weighted(&[35, 25, 25, 15]) {
                0 => {
                    root_toks.remove(i);
                }
                1 => {
                    let t = junk(src, root_toks[i].item);
                    root_toks.insert(i, t);
                }
                2 => root_toks[i] = junk(src, root_toks[i].item),
                _ => {
                    let j = src.us(root_toks.len());
                    root_toks.swap(i, j);
                    let k = root_toks[i].item;
                    root_toks[i].item = root_toks[j].item;
                    root_toks[j].item = k;
                }
            }
        }
        base_laid = layout(&root_toks, base_layout, src);
    }
    mods.push(("".into(), root_toks, base_laid));
    let a = side(&mods);

    // the other text
    let how = if sort == 2 { src.weighted(&[50, 50]) } else { src.weighted(&[40, 25, 35]) };
    let mut names: BTreeMap<String, String> = BTreeMap::new(); // new to old (by name)
    let mut masked: BTreeSet<String> = BTreeSet::new(); // by binder
    let mut other = mods.clone();
    match how {
        0 => {
            let lay = Layout { fancy: *src.pick(&[0, 5, 40, 90]), ..Layout::random(src) };
            for (_, toks, laid) in other.iter_mut() {
                *laid = layout(toks, lay, src);
            }
        }
        1 => {
            // every name becomes another one, the same everywhere
            let keep: BTreeSet<&str> = STD.iter().flat_map(|(_, f)| f.iter().map(|(n, _)| *n)).chain(["main", "List", "Nil", "Cons", "Option", "Some", "None", "Result", "Ok", "Err", "Array"]).collect();
            let mut used: BTreeSet<String> = BTreeSet::new();
            for (_, toks, _) in &mods {
                used.extend(toks.iter().filter(|t| t.kind == TK::Name).map(|t| t.text.clone()));
            }
            let pct = *src.pick(&[100, 60, 20]);
            let mut map: BTreeMap<String, String> = BTreeMap::new();
            for n in &used {
                if keep.contains(n.as_str()) || std_name(&pg.p, n) || !src.pct(pct) {
                    continue;
                }
                let k = names.len();
                let new = match n.chars().next().unwrap() {
                    '_' => format!("_zq{}", k),
                    c if c.is_ascii_lowercase() => src.pick(&["zq", "aq", "letq", "i_q", "endQ", "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq"]).to_string() + &k.to_string(),
                    _ => src.pick(&["Zq", "AQ", "Let_q"]).to_string() + &k.to_string(),
                };
                if used.contains(&new) {
                    continue;
                }
                names.insert(new.clone(), n.clone());
                map.insert(n.clone(), new);
            }
            retext(&mut other, src, &mut |_, t| map.get(&t.text).cloned());
        }
        _ => {
            let Some(p2) = rename(&pg.p, pg.root, &mods, src) else { return case.discard() };
            let mut changed = false;
            retext(&mut other, src, &mut |_, t| {
                let o = t.occ.as_ref()?;
                let n = p2.name(o.bs[0]).to_owned();
                if n != t.text {
                    masked.insert(n.clone());
                    masked.insert(t.text.clone());
                    changed = true;
                }
                Some(n)
            });
            if !changed {
                return case.discard();
            }
        }
    }
    let b = side(&other);
    case.text = format!("{}\n=== other\n{}", a.texts.show(), b.texts.show());
    case.label(["well-formed", "mutant", "token mutant"][sort]);
    case.label(["layout", "names", "binders"][how]);
    case.nontrivial = mods.last().unwrap().1.len() >= 12 && (a.texts.root != b.texts.root || a.texts.files != b.texts.files);
    let nametoks: Vec<usize> = mods.last().unwrap().1.iter().enumerate().filter(|(_, t)| t.kind == TK::Name).map(|(i, _)| i).collect();
    let spots: Vec<usize> = if nametoks.is_empty() { vec![] } else { (0..4).map(|_| *src.pick(&nametoks)).collect() };
    let run = *src.pick(&RUNNERS);
    let optimize = src.pct(50);
    let evals = match sort {
        2 => false,
        _ => matches!(guard(|| Eval::new(&pg.p, pg.st, 20_000).run(pg.root)), Ok(r) if !matches!(r, Err(Stop::Fuel))),
    };
    generated(src);

    // compared after this
    let norm_a = |s: &str| match how {
        2 => words(s, &mut |w| masked.contains(w).then(|| "#".to_owned())),
        _ => s.to_owned(),
    };
    let norm_b = |s: &str| match how {
        1 => words(s, &mut |w| names.get(w).cloned()),
        2 => words(s, &mut |w| masked.contains(w).then(|| "#".to_owned())),
        _ => s.to_owned(),
    };
    let da = a.texts.diagnostics()?;
    let db = b.texts.diagnostics()?;
    // types are written without backquotes
    let syntax = |m: &str| (m.starts_with("expected ") && m.contains('`')) || ["expected expression", "expected name", "expected type", "bad token"].contains(&m);
    let bad = how == 0 && sort == 2 && da.iter().chain(&db).any(|d| syntax(&d.message));
    let list = |s: &Side, ds: &[ticc::Diagnostic], norm: &dyn Fn(&str) -> String| -> Vec<String> {
        let mut v: Vec<(usize, String)> = ds.iter().map(|d| (d.span.start().source_pos(), format!("{:?} {} {}", d.severity, span(&s.laid, d.span), norm(&d.message)))).collect();
        if bad {
            v = ds
                .iter()
                .filter(|d| syntax(&d.message))
                .map(|d| (d.span.start().source_pos(), format!("{} {}", span(&s.laid, d.span), norm(&d.message))))
                .min()
                .into_iter()
                .collect();
        }
        let mut v: Vec<String> = v.into_iter().map(|x| strip_offsets(&x.1, how)).collect();
        if how != 0 {
            v.sort();
        }
        v
    };
    let (la, lb) = (list(&a, &da, &norm_a), list(&b, &db, &norm_b));
    case.label_if(bad, "syntax error");
    let wrong = da.iter().any(|d| d.severity == ticc::Severity::Error);
    if wrong != db.iter().any(|d| d.severity == ticc::Severity::Error) {
        return Err(format!("acceptance differs: {:?} against {:?}", la, lb));
    }
    if la != lb {
        let k = (0..).find(|&k| la.get(k) != lb.get(k)).unwrap();
        return Err(format!("diagnostics differ: {:?} against {:?}", la.get(k), lb.get(k)));
    }
    if bad {
        return Ok(());
    }
    // editor queries
    let look = |s: &Side, norm: &dyn Fn(&str) -> String| {
        guard(|| {
            let mut u = s.texts.unit(false, true);
            let kinds: Vec<String> = u.tokens().filter(|t| format!("{:?}", t.kind) != "Comment").map(|t| format!("{:?} {}", t.kind, span(&s.laid, t.span))).collect();
            let mut out = vec![kinds.join("; ")];
            for &i in &spots {
                let p = Pos::new(s.laid.spans[i].0 as u32);
                let d = u.find_definition(p).map(|d| span(&s.laid, d));
                let f = u.find_references(p).map(|v| {
                    let mut v: Vec<String> = v.into_iter().map(|d| span(&s.laid, d)).collect();
                    v.sort();
                    v
                });
                let h = u.info(p).map(|i| (span(&s.laid, i.span), norm(&i.doc)));
                out.push(format!("definition {:?}", d));
                out.push(format!("references {:?}", f));
                out.push(format!("hover {:?}", h));
            }
            out
        })
        .map_err(|p| format!("panic: {}", p))
    };
    let (qa, qb) = (look(&a, &norm_a)?, look(&b, &norm_b)?);
    for (x, y) in qa.iter().zip(&qb) {
        let same = strip_offsets(x, how) == strip_offsets(y, how);
        if !same {
            return Err(format!("answers differ: {} against {}", x, y));
        }
    }
    if wrong || !evals {
        case.label_if(wrong, "rejected");
        return Ok(());
    }
    // errors in other modules are theirs
    for (i, (_, _, l)) in mods.iter().enumerate() {
        let (t, f) = if i + 1 == mods.len() { continue } else { (&l.text, &a.texts.files) };
        if !(Texts { root: t.clone(), files: f.clone() }).errors()?.is_empty() {
            return Ok(());
        }
    }
    let ra = a.texts.run(run, optimize).map_err(|p| format!("panic: {}", p))?;
    let rb = b.texts.run(run, optimize).map_err(|p| format!("panic: {}", p))?;
    let show = |r: &Result<String, String>, norm: &dyn Fn(&str) -> String| match r {
        Ok(s) => format!("values {}", norm(s)),
        Err(s) => format!("trap {}", norm(s)),
    };
    let id = |s: &str| s.to_owned();
    let back = |s: &str| if how == 1 { words(s, &mut |w| names.get(w).cloned()) } else { s.to_owned() };
    let (x, y) = (show(&ra, &id), show(&rb, &back));
    case.label("evaluated");
    if x != y {
        return Err(format!("results differ on {} (optimize {}): {}\nagainst\n{}", run, optimize, x, y));
    }
    Ok(())
}

/// Offsets within tokens depend on the length of names.
fn strip_offsets(s: &str, how: usize) -> String {
    if how == 0 {
        return s.to_owned();
    }
    let mut out = String::new();
    let mut cs = s.chars().peekable();
    while let Some(c) = cs.next() {
        out.push(c);
        if c == '+' && cs.peek().map_or(false, |c| c.is_ascii_digit()) {
            let mut n = String::new();
            while cs.peek().map_or(false, |c| c.is_ascii_digit()) {
                n.push(cs.next().unwrap());
            }
            out.push(if n == "0" { 's' } else { 'e' });
        }
    }
    out
}

fn std_name(p: &Prog, n: &str) -> bool {
    p.modules.iter().enumerate().any(|(m, md)| md.std && p.exports(m).iter().any(|(_, name, _)| name == n))
}

/// New texts for tokens, everything else as it was.
fn retext(mods: &mut [(String, Vec<Tok>, Laid)], _src: &mut Src, f: &mut dyn FnMut(usize, &Tok) -> Option<String>) {
    for (m, (_, toks, laid)) in mods.iter_mut().enumerate() {
        let mut out = Laid::default();
        let mut at = 0;
        for (i, t) in toks.iter_mut().enumerate() {
            let (a, b) = laid.spans[i];
            out.text.push_str(&laid.text[at..a]);
            at = b;
            if t.kind == TK::Name {
                if let Some(n) = f(m, t) {
                    t.text = n;
                }
            }
            let s = out.text.len();
            out.text.push_str(&t.text);
            out.spans.push((s, out.text.len()));
        }
        out.text.push_str(&laid.text[at..]);
        *laid = out;
    }
}

/// The program with some of its binders renamed, none captured.
fn rename(p: &Prog, root: usize, mods: &[(String, Vec<Tok>, Laid)], src: &mut Src) -> Option<Prog> {
    let mut local: BTreeSet<B> = BTreeSet::new();
    let mut may: BTreeSet<B> = BTreeSet::new();
    let mut not: BTreeSet<B> = BTreeSet::new();
    let mut texts: BTreeSet<String> = BTreeSet::new();
    for (_, toks, _) in mods {
        for t in toks {
            let Some(o) = &t.occ else { continue };
            texts.insert(t.text.clone());
            if o.bs.len() > 1 {
                not.extend(o.bs.iter().copied());
                continue;
            }
            match p.binders[o.bs[0]].kind {
                BK::Ctor(..) => {
                    not.insert(o.bs[0]);
                }
                _ => {
                    may.insert(o.bs[0]);
                }
            }
        }
    }
    let mut top: BTreeSet<B> = BTreeSet::new();
    for (m, module) in p.modules.iter().enumerate() {
        for it in &module.items {
            if let Item::Val(v) = it {
                top.insert(v.b);
                if module.std || (m == root && v.export) {
                    not.insert(v.b);
                }
            }
        }
        if module.std {
            not.extend(p.exports(m).iter().map(|e| e.2));
        }
    }
    for &b in may.difference(&not) {
        if matches!(p.binders[b].kind, BK::Value(_)) && !top.contains(&b) {
            local.insert(b);
        }
    }
    let mut p2 = p.clone();
    let pool: Vec<String> = texts.iter().filter(|t| !KEYWORDS.contains(&t.as_str())).cloned().collect();
    let pct = *src.pick(&[100, 50, 15]);
    let mut k = 0;
    for &b in may.difference(&not) {
        if !src.pct(pct) {
            continue;
        }
        let old = p.name(b);
        let under = old.starts_with('_');
        k += 1;
        let fresh = match old.chars().next().unwrap() {
            '_' => format!("_zq{}", k),
            c if c.is_ascii_lowercase() => format!("zq{}", k),
            _ => format!("Zq{}", k),
        };
        p2.binders[b].name = if local.contains(&b) && src.pct(60) {
            let n = src.pick(&pool).clone();
            if n.starts_with('_') == under {
                n
            } else {
                fresh
            }
        } else {
            fresh
        };
    }
    // undo what captures something
    for round in 0.. {
        let mut bad: Option<B> = None;
        'find: for (_, toks, _) in mods {
            for t in toks {
                let Some(o) = &t.occ else { continue };
                if o.def || o.ns != Ns::Value || o.qual.is_some() {
                    continue;
                }
                let Some(sc) = &o.scope else { continue };
                let got = sc.lookup(&p2, Ns::Value, p2.name(o.bs[0]));
                if got != Some(o.bs[0]) {
                    // one of the two must change, and may
                    bad = [Some(o.bs[0]), got].into_iter().flatten().find(|b| local.contains(b) && !p2.name(*b).starts_with("zz") && !p2.name(*b).starts_with("_zz"));
                    if bad.is_none() {
                        return None;
                    }
                    break 'find;
                }
            }
        }
        let Some(b) = bad else { return Some(p2) };
        p2.binders[b].name = if p.name(b).starts_with('_') { format!("_zz{}", round) } else { format!("zz{}", round) };
        if round > 200 {
            return None;
        }
    }
    unreachable!()
}
