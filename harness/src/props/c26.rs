//! A mistake stays in its item.

use crate::ast::*;
use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::gen::{program, Cfg};
use crate::lexref::lex;
use crate::print::{Layout, Style, TK};
use crate::sut::fmt_diags;
use crate::syntaxref::maybe_item;
use std::collections::BTreeSet;
use ticc::Pos;

pub const C26: Prop = Prop {
    id: "C26",
    quick: 12000,
    thorough: 400000,
    rule: "a damaged item with an item before it and an independent item behind it",
    assumptions: &[
        "items that start with `let` start at the start of a line",
        "the damage touches no parentheses, no semicolons and no keywords that open or close an item, a let, a match or an if",
        "an item depends on the damaged one when it uses a name that the damaged one defines, or could define by what it contains now, or depends on an item that does",
    ],
    f: c26,
};

const FIXED: &[&str] = &["(", ")", ";", "let", "match", "with", "end", "if", "then", "else", "type", "import", "export"];
const JUNK: &[&str] = &["+", "*", "|>", "=", ":", "->", "|", "\\", ",", ".", "0", "12", "\"s\"", "zz1", "zz2", "?h", "int", "bool", "true", "rec", "fold", "from", "@", "é", "😀", "& ", "==", "!", "1a"];

fn c26(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let cfg = Cfg {
        odd_names: 4,
        shadow: *src.pick(&[0, 10, 40]),
        types: (0, 3),
        items: (3, 8),
        omit: *src.pick(&[0, 35]),
        fuel: *src.pick(&[8, 16]),
        modules: *src.pick(&[(0, 0), (0, 2), (1, 3)]),
        unicode: false,
        ..Cfg::default()
    };
    let pg = program(src, cfg);
    let mut lay = Layout::PLAIN;
    lay.eol = src.weighted(&[70, 30]) as u8;
    let mut r = pg.render(&Style { qual: *src.pick(&[10, 50, 90]), ..Style::default() }, lay, src);
    let p = &pg.p;
    if src.pct(40) {
        // items that start with a word that starts nothing else need no line of their own
        let (pr, la) = &mut r.root;
        for k in 1..pr.items.len() {
            let (first, _) = pr.items[k];
            if pr.toks[first].text == "let" || src.pct(40) {
                continue;
            }
            let from = la.spans[first - 1].1;
            let to = la.spans[first].0;
            let gap = *src.pick(&[" ", "\n  ", "\r\n ", "\n\n\n    "]);
            la.text.replace_range(from..to, gap);
            let d = gap.len() as isize - (to - from) as isize;
            for s in &mut la.spans[first..] {
                *s = ((s.0 as isize + d) as usize, (s.1 as isize + d) as usize);
            }
        }
        r.texts.root = la.text.clone();
        case.label("items within lines");
    }
    let (pr, la) = &r.root;
    let items = &p.modules[pg.root].items;
    let which = src.us(items.len());
    let (first, last) = pr.items[which];
    // damage
    let mut toks: Vec<String> = pr.toks[first..=last].iter().map(|t| t.text.clone()).collect();
    let old: BTreeSet<String> = toks.iter().cloned().collect();
    if src.pct(15) {
        // it does not start like an item any more; it is all on one line
        let junk = src.pick(JUNK).to_string();
        match src.us(3) {
            0 => toks.insert(0, junk),
            1 => toks[0] = junk,
            _ => {
                toks.remove(0);
            }
        }
        case.label("damaged at its start");
    }
    for _ in 0..src.urange(1, 3) {
        let free: Vec<usize> = (0..toks.len()).filter(|&i| !FIXED.contains(&toks[i].as_str())).collect();
        if free.is_empty() {
            break;
        }
        match src.weighted(&[40, 25, 25, 10]) {
            0 => {
                toks.remove(*src.pick(&free));
            }
            1 => {
                // inside of the item, not before its first token
                let at = src.urange(1, toks.len() - 1);
                toks.insert(at, src.pick(JUNK).to_string());
            }
            2 => {
                let i = *src.pick(&free);
                toks[i] = src.pick(JUNK).to_string();
            }
            _ => {
                let i = *src.pick(&free);
                let j = *src.pick(&free);
                toks.swap(i, j);
            }
        }
    }
    let start = la.spans[first].0;
    let end = la.spans[last].1;
    let damaged = toks.join(" ");
    let text = format!("{}{}{}", &la.text[..start], damaged, &la.text[end..]);
    let delta = damaged.len() as isize - (end - start) as isize;
    let next = pr.items.get(which + 1).map(|i| (la.spans[i.0].0 as isize + delta) as usize);
    let region = (start, next.unwrap_or(text.len()));
    let certainly = !maybe_item(&damaged);

    // who depends on it
    let mut names: BTreeSet<String> = BTreeSet::new();
    let word = |s: &str| s.chars().next().map_or(false, |c| c.is_ascii_alphabetic() || c == '_');
    match &items[which] {
        Item::Val(v) => {
            names.insert(p.name(v.b).to_owned());
            for k in 0..toks.len() {
                // whatever may be taken for the name after a `let`
                if toks[k] == "let" {
                    names.extend(toks[k + 1..].iter().find(|t| word(t)).cloned());
                    names.extend(toks.get(k + 1).cloned());
                }
            }
        }
        _ => {
            names.extend(old.iter().filter(|t| word(t)).cloned());
            names.extend(toks.iter().filter(|t| word(t)).cloned());
        }
    }
    let mut dep: Vec<bool> = vec![false; items.len()];
    for i in which + 1..items.len() {
        let (a, b) = pr.items[i];
        let uses = pr.toks[a..=b].iter().any(|t| t.kind == TK::Name && names.contains(&t.text) && !t.occ.as_ref().map_or(false, |o| o.def && o.ns == Ns::Value));
        if uses {
            dep[i] = true;
            // what it defines
            names.extend(pr.toks[a..=b].iter().filter(|t| t.occ.as_ref().map_or(false, |o| o.def)).map(|t| t.text.clone()));
        }
    }
    // what to look at before it
    let mut spots: Vec<usize> = Vec::new();
    let before: Vec<usize> = (0..first).filter(|&i| pr.toks[i].kind == TK::Name).collect();
    if !before.is_empty() {
        for _ in 0..8 {
            spots.push(la.spans[*src.pick(&before)].0);
        }
    }
    // what to look at behind it, where nothing depends on it
    let behind: Vec<(usize, usize)> = (which + 1..items.len()).filter(|&i| !dep[i]).map(|i| (la.spans[pr.items[i].0].0, la.spans[pr.items[i].1].1)).collect();
    let mut later: Vec<usize> = Vec::new();
    for _ in 0..6 {
        if behind.is_empty() {
            break;
        }
        let &(a, b) = src.pick(&behind);
        let names: Vec<usize> = (last + 1..pr.toks.len()).filter(|&i| pr.toks[i].kind == TK::Name && la.spans[i].0 >= a && la.spans[i].1 <= b).collect();
        if !names.is_empty() {
            later.push(la.spans[*src.pick(&names)].0);
        }
    }
    let mut t = r.texts.clone();
    t.root = text;
    case.text = t.show();
    let independent = (which + 1..items.len()).any(|i| !dep[i]);
    case.nontrivial = which > 0 && independent && toks.concat() != pr.toks[first..=last].iter().map(|t| t.text.clone()).collect::<String>();
    case.label(match &items[which] {
        Item::Import(_) => "import",
        Item::Type(_) => "type",
        Item::Val(_) => "value",
    });
    case.label(if certainly { "certainly wrong" } else { "may be right" });
    case.label_if(lex(&damaged).is_none(), "bad characters");
    generated(src);

    let ds = t.errors()?;
    let show = |e: String| format!("{}; item {}; errors: {}\n{}", e, which, fmt_diags(&t.root, &ds), t.root);
    if certainly && !ds.iter().any(|d| region.0 <= d.span.start().source_pos() && d.span.end().source_pos() <= region.1) {
        return Err(show("damaged item gets no error".into()));
    }
    for d in &ds {
        let s = d.span.start().source_pos();
        if region.0 <= s && s < region.1 || (next.is_none() && s >= region.0) {
            continue;
        }
        if s < region.0 {
            return Err(show(format!("error before the damaged item: {:?} at {}", d.message, s)));
        }
        let old_pos = (s as isize - delta) as usize;
        let item = pr.items.iter().rposition(|&(a, _)| la.spans[a].0 <= old_pos).unwrap();
        if !dep[item] {
            return Err(show(format!("error in an independent item: {:?} at {}", d.message, s)));
        }
    }
    // outside of the item and what depends on it everything is as it was
    let old_end = end;
    let look = |t: &crate::sut::Texts, new: bool| {
        // where it was in the undamaged text; what is in the damaged item is nowhere
        let end = if new { (old_end as isize + delta) as usize } else { old_end };
        let shift = if new { delta } else { 0 };
        let was = |a: usize, b: usize| {
            if b <= start {
                Some((a, b))
            } else if a >= end {
                let (a, b) = ((a as isize - shift) as usize, (b as isize - shift) as usize);
                behind.iter().any(|x| x.0 <= a && b <= x.1).then_some((a, b))
            } else {
                None
            }
        };
        guard(|| {
            let toks: Vec<String> = t
                .unit(false, true)
                .tokens()
                .filter_map(|k| was(k.span.start().source_pos(), k.span.end().source_pos()).map(|s| format!("{:?} {:?}", k.kind, s)))
                .collect();
            let mut u = t.unit(false, true);
            let asks: Vec<String> = spots
                .iter()
                .map(|&o| (o, o))
                .chain(later.iter().map(|&o| (o, (o as isize + shift) as usize)))
                .map(|(o, at)| {
                    let q = Pos::new(at as u32);
                    let sp = |s: ticc::Span| was(s.start().source_pos(), s.end().source_pos());
                    let refs: Option<Vec<_>> = u.find_references(q).map(|v| v.into_iter().filter_map(sp).collect());
                    let def = u.find_definition(q).map(sp);
                    format!("{} {:?} {:?} {:?}", o, def, u.info(q).map(|i| (sp(i.span), i.doc)), refs)
                })
                .collect();
            (toks, asks)
        })
        .map_err(|p| format!("panic: {}", p))
    };
    let a = look(&r.texts, false)?;
    let b = look(&t, true)?;
    if a.0 != b.0 {
        let k = (0..).find(|&k| a.0.get(k) != b.0.get(k)).unwrap();
        return Err(show(format!("tokens outside of the damaged item differ: {:?} instead of {:?}", b.0.get(k), a.0.get(k))));
    }
    for (x, y) in a.1.iter().zip(&b.1) {
        if x != y {
            return Err(show(format!("answers outside of the damaged item differ: {} instead of {}", y, x)));
        }
    }
    Ok(())
}
