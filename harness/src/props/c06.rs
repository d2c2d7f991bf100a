//! Ill-formed programs are rejected where they are wrong.

use super::c04::mutate;
use crate::ast::*;
use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::gen::{program, Cfg, Program};
use crate::infer::{matches_exact, Infer};
use crate::print::{Layout, Style, TK};
use crate::sut::fmt_diags;
use std::collections::BTreeSet;

pub const C06: Prop = Prop {
    id: "C06",
    quick: 60000,
    thorough: 1000000,
    rule: "a program of which one well-formed part was made ill-formed",
    assumptions: &[
        "a name that a module does not export may be reported at the name or at the module alias before it",
        "the constructor of a match with one arm is not made undefined, as nothing else may tell the type that is matched on",
        "a fault inside of a definition without an annotation may cause errors in what follows",
        "a type error is to be reported within the definition that has it; where exactly is not prescribed",
    ],
    f: c06,
};

type S = (usize, usize);

struct Fault {
    class: &'static str,
    edits: Vec<(usize, usize, String)>,
    /// extent in the old text of what is to be reported, one of these
    at: Vec<S>,
    /// something inside of this suffices, in the new text
    region: Option<S>,
    item: usize,
}

fn apply(text: &str, f: &Fault) -> (String, Vec<S>, Option<S>) {
    let mut out = String::new();
    let mut last = 0;
    let mut edits = f.edits.clone();
    edits.sort();
    for (a, b, n) in &edits {
        out.push_str(&text[last..*a]);
        out.push_str(n);
        last = *b;
    }
    out.push_str(&text[last..]);
    let at = f.at.clone();
    (out, at, f.region)
}

fn shift(edits: &[(usize, usize, String)], p: usize, end: bool) -> usize {
    let mut d = p as isize;
    for (a, b, n) in edits {
        // an edit moves what is behind it
        if *b < p || (*b == p && (end || a < b || !n.is_empty())) {
            d += n.len() as isize - (*b - *a) as isize;
        }
    }
    d as usize
}

/// Whether it is the only constructor that tells what some `match` matches on.
fn only_ctor(v: &ValDecl, ctor: B) -> bool {
    let mut only = false;
    walk(&v.e, &mut |x| {
        if let K::Match { arms, .. } = &x.k {
            only |= arms.len() == 1 && arms[0].ctor == ctor;
        }
    });
    only
}

fn token_fault(pg: &Program, r: &crate::gen::Rendered, src: &mut Src) -> Option<Fault> {
    let p = &pg.p;
    let (pr, la) = &r.root;
    let n = pr.toks.len();
    let annotated = |i: usize| match &p.modules[pg.root].items[pr.toks[i].item] {
        Item::Val(v) => v.ann,
        _ => true,
    };
    let kind = src.weighted(&[26, 12, 14, 8, 14, 8, 12, 6]);
    let refs: Vec<usize> = (0..n)
        .filter(|&i| {
            let t = &pr.toks[i];
            if !annotated(i) {
                return false;
            }
            let o = t.occ.as_ref();
            let is_ref = |ns: Ns| o.map_or(false, |o| !o.def && o.ns == ns && t.kind == TK::Name);
            match kind {
                0 => is_ref(Ns::Value),
                1 => is_ref(Ns::Type),
                2 | 6 => is_ref(Ns::Ctor),
                3 => is_ref(Ns::Module),
                4 => is_ref(Ns::Type) || is_ref(Ns::Value),
                5 => t.kind == TK::Num,
                7 => o.map_or(false, |o| o.def && o.ns == Ns::Ctor) && matches!(p.modules[pg.root].items[t.item], Item::Type(_)),
                _ => unreachable!(),
            }
        })
        .collect();
    if refs.is_empty() {
        return None;
    }
    let i = *src.pick(&refs);
    let (a, b) = la.spans[i];
    let t = &pr.toks[i];
    let item = t.item;
    let one = |class, new: String, at: Vec<S>| Fault { class, edits: vec![(a, b, new)], at, region: None, item };
    let qualifier = |i: usize| la.spans[i - 2];
    match kind {
        0..=2 => {
            let o = t.occ.as_ref().unwrap();
            if let (0, BK::Value(s)) = (kind, &p.binders[o.bs[0]].kind) {
                if s.ty.has_folded() {
                    // without it the match on it is no fold any more
                    return None;
                }
            }
            if let (2, Item::Val(v)) = (kind, &p.modules[pg.root].items[item]) {
                if only_ctor(v, o.bs[0]) {
                    return None;
                }
            }
            let sc = o.scope.as_ref().unwrap();
            // a name of something that is not visible here
            let visible: BTreeSet<String> = match o.qual {
                Some(m) => p.exports(m).into_iter().filter(|e| e.0 == o.ns).map(|e| e.1).collect(),
                None => sc.visible(p, o.ns).iter().map(|&b| p.name(b).to_owned()).collect(),
            };
            let mut pool: Vec<String> = p.binders.iter().map(|b| b.name.clone()).filter(|n| !visible.contains(n)).collect();
            pool.push("Zzq".into());
            if o.ns != Ns::Type {
                pool.push("zzq".into());
            }
            let mut new = src.pick(&pool).clone();
            if o.ns == Ns::Type && new.starts_with(|c: char| c.is_ascii_lowercase()) && o.qual.is_none() && matches!(p.modules[pg.root].items[item], Item::Val(_)) {
                // that would be a type variable
                new = "Zzq".into();
            }
            let mut at = vec![(a, b)];
            if o.qual.is_some() {
                at.push(qualifier(i));
            }
            Some(one(["undefined value", "undefined type", "undefined constructor"][kind], new, at))
        }
        3 => {
            if let (Item::Val(v), Some(Some(o))) = (&p.modules[pg.root].items[item], pr.toks.get(i + 2).map(|t| t.occ.as_ref())) {
                if o.ns == Ns::Ctor && o.qual.is_some() && only_ctor(v, o.bs[0]) {
                    return None;
                }
            }
            let sc = t.occ.as_ref().unwrap().scope.as_ref().unwrap();
            let visible: BTreeSet<String> = sc.visible_modules(p).iter().map(|m| p.name(m.0).to_owned()).collect();
            let mut pool: Vec<String> = p.binders.iter().map(|b| b.name.clone()).filter(|n| !visible.contains(n)).collect();
            pool.push("Zzq".into());
            let new = src.pick(&pool).clone();
            Some(one("undefined module", new, vec![(a, b)]))
        }
        4 => {
            let o = t.occ.as_ref().unwrap();
            if o.ns == Ns::Value {
                // a name of the module in the wrong place
                let m = o.qual?;
                let values: BTreeSet<String> = p.exports(m).into_iter().filter(|e| e.0 == Ns::Value).map(|e| e.1).collect();
                let others: Vec<String> = p.exports(m).into_iter().filter(|e| e.0 == Ns::Type && !values.contains(&e.1)).map(|e| e.1).collect();
                if others.is_empty() {
                    return None;
                }
                return Some(one("type used as a value", src.pick(&others).clone(), vec![(a, b), qualifier(i)]));
            }
            let bd = o.bs[0];
            let (na, nb) = (a, b);
            let params = match p.binders[bd].kind {
                BK::TyVar => 0,
                _ => p.decls.get(&bd)?.params.len(),
            };
            let start = if o.qual.is_some() { la.spans[i - 2].0 } else { a };
            if params == 0 {
                return Some(Fault { class: "too many type arguments", edits: vec![(start, start, "(".into()), (b, b, " int)".into())], at: vec![(na, nb)], region: None, item });
            }
            if src.pct(50) {
                return Some(Fault { class: "too many type arguments", edits: vec![(b, b, " int ".into())], at: vec![(na, nb)], region: None, item });
            }
            // drop the first argument
            let mut j = i + 1;
            if pr.toks[j].text == "(" {
                let mut d = 0;
                loop {
                    match pr.toks[j].text.as_str() {
                        "(" => d += 1,
                        ")" => d -= 1,
                        _ => {}
                    }
                    if d == 0 {
                        break;
                    }
                    j += 1;
                }
            } else if pr.toks[j + 1].text == "." {
                j += 2;
            }
            if (i + 1..=j).any(|k| pr.toks[k].occ.as_ref().map_or(false, |o| o.def)) {
                return None;
            }
            Some(Fault { class: "too few type arguments", edits: vec![(la.spans[i + 1].0, la.spans[j].1, " ".into())], at: vec![(na, nb)], region: None, item })
        }
        5 => {
            let new = match src.us(6) {
                0 => "18446744073709551616".to_owned(),
                1 => format!("{}a", src.us(100)),
                2 => "0x10".to_owned(),
                3 => "1_000".to_owned(),
                4 => format!("{}{}", src.urange(2, 9), "0".repeat(src.urange(19, 40))),
                _ => format!("{}{}", src.urange(18446744073709551, 99999999999999999), src.urange(616, 999)),
            };
            Some(one("bad number", new, vec![(a, b)]))
        }
        6 => {
            // the variables of a pattern
            let mut j = i;
            while pr.toks[j + 1].text != "->" {
                j += 1;
            }
            let end = la.spans[j].1;
            let start = if t.occ.as_ref().unwrap().qual.is_some() { qualifier(i).0 } else { a };
            if j > i && src.pct(50) {
                // a variable that is not used
                let k = i + 1 + src.us(j - i);
                let o = pr.toks[k].occ.as_ref().unwrap();
                let used = pr.toks.iter().any(|t| t.occ.as_ref().map_or(false, |u| !u.def && u.bs == o.bs));
                if used {
                    return None;
                }
                let at = if k == j { (start, la.spans[j - 1].1) } else { (start, end - pr.toks[k].text.len()) };
                return Some(Fault { class: "too few pattern variables", edits: vec![(la.spans[k].0, la.spans[k].1, String::new())], at: vec![], region: Some(at), item });
            }
            Some(Fault { class: "too many pattern variables", edits: vec![(end, end, " zzq".into())], at: vec![], region: Some((start, end + 4)), item })
        }
        _ => {
            // repeat a constructor behind all the others of its type
            let last = pr.items[item].1;
            let end = la.spans[last].0;
            let extra = *src.pick(&["", " int", " string rec"]);
            // the new one is located in the new text
            Some(Fault { class: "duplicate constructor", edits: vec![(end, end, format!(" | {}{}", t.text, extra))], at: vec![(usize::MAX, t.text.len())], region: Some((end, end)), item })
        }
    }
}

fn c06(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let types = src.pct(45);
    let cfg = Cfg {
        odd_names: *src.pick(&[4, 40]),
        shadow: *src.pick(&[10, 50]),
        types: (0, 3),
        fuel: *src.pick(&[8, 16, 30]),
        poly: *src.pick(&[30, 60]),
        omit: *src.pick(&[0, 35]),
        modules: *src.pick(if types { &[(0, 0), (0, 0), (0, 1)] } else { &[(0, 0), (0, 2), (1, 3)] }),
        unicode: false,
        ..Cfg::default()
    };
    let mut pg = program(src, cfg);
    if types {
        return typed(src, case, &mut pg);
    }
    let lay = Layout::random(src);
    let r = pg.render(&Style { qual: *src.pick(&[10, 40, 90]), snap: true, ..Style::default() }, lay, src);
    let Some(f) = token_fault(&pg, &r, src) else { return case.discard() };
    let (text, at, region) = apply(&r.root.1.text, &f);
    let mut t = r.texts.clone();
    t.root = text;
    case.text = t.show();
    case.label(f.class);
    case.nontrivial = true;
    generated(src);
    let ds = t.errors()?;
    let show = |e: String| format!("{}: {}; errors: {}\n{}", e, f.class, fmt_diags(&t.root, &ds), t.root);
    if ds.is_empty() {
        return Err(show("accepted".into()));
    }
    let map = |s: S| -> S { (shift(&f.edits, s.0, false), shift_end(&f.edits, s.1)) };
    let want: Vec<S> = at
        .iter()
        .map(|&s| {
            if s.0 == usize::MAX {
                let e = f.edits[0].0 + 3;
                (e, e + s.1)
            } else {
                map(s)
            }
        })
        .collect();
    let mut hit = false;
    for d in &ds {
        let s = (d.span.start().source_pos(), d.span.end().source_pos());
        if want.contains(&s) || (want.is_empty() && region.map_or(false, |g| g.0 <= s.0 && s.1 <= g.1)) {
            hit = true;
        } else {
            return Err(show(format!("error that the fault does not cause: {:?} at {:?}, fault at {:?} {:?}", d.message, s, want, region)));
        }
    }
    if !hit {
        return Err(show(format!("error in another place: expected at {:?} {:?}", want, region)));
    }
    Ok(())
}

fn shift_end(edits: &[(usize, usize, String)], p: usize) -> usize {
    // what is inserted right at an end does not belong to it, what replaces it does
    let mut d = p as isize;
    for (a, b, n) in edits {
        if *b < p || (*b == p && a < b) {
            d += n.len() as isize - (*b - *a) as isize;
        }
    }
    d as usize
}

/// Faults in types.
fn typed(src: &mut Src, case: &mut Case, pg: &mut Program) -> Result<(), String> {
    let what = if src.pct(60) {
        mutate(pg, src)
    } else {
        let spots: Vec<usize> = pg.p.modules[pg.root].items.iter().enumerate().filter(|(_, i)| matches!(i, Item::Val(_))).map(|x| x.0).collect();
        if spots.is_empty() {
            return case.discard();
        }
        let i = *src.pick(&spots);
        let Item::Val(v) = pg.p.modules[pg.root].items[i].clone() else { unreachable!() };
        let mut e = v.e.clone();
        let mut ids = Vec::new();
        walk(&e, &mut |x| ids.push(x.id));
        let id = *src.pick(&ids);
        let k = src.us(5);
        let mut what = "literal of another type";
        let mut done = false;
        walk_mut(&mut e, &mut |x| {
            // what replaces it may contain it
            if x.id != id || done {
                return;
            }
            done = true;
            let p = &mut pg.p;
            let old = x.clone();
            let t = old.ty.clone();
            let new = match k {
                0 => {
                    // self application
                    what = "self application";
                    let b = p.fresh("w", BK::Value(Scheme { vars: vec![], ty: Ty::Int }));
                    let f = p.mk(Ty::Int, K::Var(b));
                    let a = p.mk(Ty::Int, K::Var(b));
                    let body = p.mk(Ty::Int, K::App(Box::new(f), Box::new(a)));
                    let lam = p.mk(Ty::Int, K::Lam { p: b, fold: false, body: Box::new(body) });
                    let l = p.fresh("w2", BK::Value(Scheme { vars: vec![], ty: Ty::Int }));
                    K::Let { b: l, ann: false, val: Box::new(lam), body: Box::new(old) }
                }
                1 => K::Str("s".into()),
                2 => K::Bool(true),
                3 => K::Int(3),
                _ => {
                    what = "one argument more";
                    let a = p.mk(Ty::Int, K::Int(1));
                    K::App(Box::new(old), Box::new(a))
                }
            };
            *x = p.mk(t, new);
        });
        let Item::Val(v) = &mut pg.p.modules[pg.root].items[i] else { unreachable!() };
        v.e = e;
        what
    };
    let lay = Layout::random(src);
    let Ok(r) = guard(|| pg.render(&Style::default(), lay, src)) else { return case.discard() };
    let (pr, la) = &r.root;
    let mut seen = BTreeSet::new();
    if pr.toks.iter().filter_map(|t| t.occ.as_ref()).filter(|o| o.def && o.bs.len() == 1).any(|o| !seen.insert(o.bs[0])) {
        return case.discard();
    }
    // ill typed, or a match that is not exact, or neither
    let mut faulty: Vec<usize> = Vec::new();
    let mut sound = true;
    for (i, it) in pg.p.modules[pg.root].items.iter().enumerate() {
        if let Item::Val(v) = it {
            match Infer::new(&pg.p).value(v) {
                Err(_) => {
                    faulty.push(i);
                    sound &= v.ann;
                }
                Ok((t, inf)) => {
                    if !matches_exact(&pg.p, &v.e, &inf.exprs) {
                        // that is another property
                        return case.discard();
                    }
                    if !v.ann {
                        // is it still what the others were made for?
                        sound &= format!("{:?}", t) == format!("{:?}", pg.p.scheme(v.b).ty);
                    }
                }
            }
        }
    }
    case.text = r.texts.show();
    case.label(what);
    case.label(if faulty.is_empty() { "still well typed" } else { "ill typed" });
    case.nontrivial = !faulty.is_empty();
    generated(src);
    if faulty.is_empty() {
        return Ok(());
    }
    let ds = r.texts.errors()?;
    let show = |e: String| format!("{}: {}; errors: {}", e, what, fmt_diags(&r.texts.root, &ds));
    let region = |i: usize| (la.spans[pr.items[i].0].0, la.spans[pr.items[i].1].1);
    for &i in &faulty {
        let g = region(i);
        if !ds.iter().any(|d| g.0 <= d.span.start().source_pos() && d.span.end().source_pos() <= g.1) {
            return Err(show(format!("ill typed definition accepted: item {} at {:?}", i, g)));
        }
    }
    if sound {
        for d in &ds {
            let s = d.span.start().source_pos();
            if !faulty.iter().any(|&i| region(i).0 <= s && s < region(i).1) {
                return Err(show(format!("error that the fault does not cause: {:?} at {}", d.message, s)));
            }
        }
    }
    Ok(())
}
