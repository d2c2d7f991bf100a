//! Completion.

use crate::ast::*;
use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::gen::{program, Cfg};
use crate::lexref::KEYWORDS;
use crate::print::{Layout, Style, TK};
use std::collections::BTreeSet;
use ticc::Pos;

pub const C14: Prop = Prop {
    id: "C14",
    quick: 8000,
    thorough: 300000,
    rule: "a completion list of four or more names was compared in a text where some name is shadowed or out of scope",
    assumptions: &[
        "where a name is left out entirely, what follows may fall out of the item and nothing be offered",
        "names in import lists may or may not be completed",
        "a name before a dot is completed with modules, and possibly with anything else visible",
    ],
    f: c14,
};

fn c14(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let cfg = Cfg {
        odd_names: *src.pick(&[4, 40]),
        shadow: *src.pick(&[10, 50]),
        types: (0, 3),
        fuel: *src.pick(&[8, 16, 30]),
        poly: *src.pick(&[30, 60]),
        modules: *src.pick(&[(0, 0), (0, 2), (1, 3)]),
        ..Cfg::default()
    };
    let pg = program(src, cfg);
    let lay = Layout::random(src);
    let r = pg.render(&Style { qual: *src.pick(&[10, 40, 90]), snap: true, ..Style::default() }, lay, src);
    let p = &pg.p;
    let (pr, la) = &r.root;

    let names: Vec<usize> = (0..pr.toks.len()).filter(|&i| pr.toks[i].kind == TK::Name).collect();
    if names.is_empty() {
        return case.discard();
    }
    // (token, text, offset, how)
    let mut asks: Vec<(usize, String, usize, &'static str)> = Vec::new();
    for _ in 0..16 {
        let i = *src.pick(&names);
        let (a, b) = la.spans[i];
        let t = &la.text;
        match src.weighted(&[50, 20, 15, 15]) {
            0 => {
                let off = a + src.us(b - a + 1);
                asks.push((i, t.clone(), off, "in the text"));
            }
            1 => asks.push((i, format!("{}{}", &t[..a], &t[b..]), a, "name not written yet")),
            k => {
                let n = 1 + src.us(b - a);
                let part = &t[a..a + n];
                if KEYWORDS.contains(&part) {
                    continue;
                }
                let rest = if k == 2 {
                    String::new()
                } else {
                    let item = pr.toks[i].item;
                    match pr.items.get(item + 1) {
                        Some(&(first, _)) => format!("\n{}", &t[la.spans[first].0..]),
                        None => String::new(),
                    }
                };
                asks.push((i, format!("{}{}", &t[..a + n], rest), a + n, if k == 2 { "end of text" } else { "unfinished item" }));
            }
        }
    }
    case.text = r.texts.show();
    generated(src);

    let mut biggest = 0;
    for (i, text, off, how) in asks {
        let mut t = r.texts.clone();
        t.root = text;
        let mut unit = guard(|| t.unit(false, true)).map_err(|e| format!("panic: {}", e))?;
        let got: Option<Vec<String>> = guard(|| unit.completions(Pos::new(off as u32)))
            .map_err(|e| format!("panic in completion: {}", e))?
            .map(|v| v.into_iter().map(|c| c.name).collect());
        let tok = &pr.toks[i];
        let o = tok.occ.as_ref().unwrap();
        let sc = o.scope.as_ref().unwrap();
        let is_tyvar = o.bs.iter().any(|&b| matches!(p.binders[b].kind, BK::TyVar));
        let in_import = matches!(p.modules[pg.root].items[tok.item], Item::Import(_));
        let in_type_params = matches!(p.modules[pg.root].items[tok.item], Item::Type(_)) && is_tyvar && o.def;
        if in_import {
            continue;
        }
        let place = format!("at {} ({}, {:?})", off, how, tok.text);
        let show = |e: &str| format!("{}: {}: got {:?} in\n{}", e, place, got, t.root);
        if o.def && (!is_tyvar || in_type_params) {
            if let Some(g) = &got {
                return Err(show(&format!("completion of a name being defined: offers {:?}", g)));
            }
            continue;
        }
        if got.is_none() && how == "name not written yet" {
            // what follows the gap may not continue the item any more
            case.label("gap outside of the item");
            continue;
        }
        let Some(g) = &got else { return Err(show("no completion")) };
        if g.windows(2).any(|w| w[0] >= w[1]) {
            return Err(show("completion not sorted or with duplicates"));
        }
        let modules: BTreeSet<String> = sc.visible_modules(p).iter().map(|m| p.name(m.0).to_owned()).collect();
        let all = |ns: Ns| -> BTreeSet<String> { sc.visible(p, ns).iter().map(|&b| p.name(b).to_owned()).collect() };
        let gs: BTreeSet<String> = g.iter().cloned().collect();
        let want: BTreeSet<String> = if let Some(m) = o.qual {
            p.exports(m).into_iter().filter(|e| e.0 == o.ns).map(|e| e.1).collect()
        } else if o.ns == Ns::Module {
            let mut any = modules.clone();
            for ns in [Ns::Value, Ns::Ctor, Ns::Type] {
                any.extend(all(ns));
            }
            if !gs.is_superset(&modules) || !gs.is_subset(&any) {
                return Err(show("completion of a module"));
            }
            modules
        } else {
            let mut w = all(o.ns);
            w.extend(modules);
            w
        };
        biggest = biggest.max(want.len());
        if o.ns == Ns::Module {
            continue;
        }
        case.label(match (o.qual.is_some(), o.ns) {
            (true, Ns::Value) => "M.value",
            (true, Ns::Ctor) => "M.ctor",
            (true, _) => "M.type",
            (false, Ns::Value) => "value",
            (false, Ns::Ctor) => "ctor",
            (false, _) => "type",
        });
        if gs != want {
            let extra: Vec<_> = gs.difference(&want).collect();
            let missing: Vec<_> = want.difference(&gs).collect();
            let class = if missing.is_empty() { "completion offers too much" } else { "completion lacks a name" };
            return Err(show(&format!("{}: extra {:?} missing {:?}", class, extra, missing)));
        }
    }
    case.nontrivial = biggest >= 4;
    Ok(())
}
