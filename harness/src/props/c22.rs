//! Unused warnings.

use super::c04::mutate;
use crate::ast::*;
use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::gen::{program, Cfg};
use crate::print::{Layout, Style, TK};
use crate::sut::fmt_diags;
use std::collections::{BTreeMap, BTreeSet};
use ticc::Severity;

pub const C22: Prop = Prop {
    id: "C22",
    quick: 40000,
    thorough: 600000,
    rule: "a text with at least one name to warn about and a shadowed, underscored or imported name",
    assumptions: &[
        "an imported name that stands for several things of which only some are used may or may not be warned about, and one of which none is used may be warned about several times",
        "a type that is not exported while its constructors are exported counts as used or unused",
    ],
    f: c22,
};

fn c22(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let cfg = Cfg {
        odd_names: *src.pick(&[4, 60]),
        shadow: *src.pick(&[20, 60]),
        export: *src.pick(&[10, 40, 70]),
        types: (0, 3),
        fuel: *src.pick(&[6, 14, 26]),
        poly: *src.pick(&[30, 60]),
        modules: *src.pick(&[(0, 0), (0, 2), (1, 3)]),
        ..Cfg::default()
    };
    let mut pg = program(src, cfg);
    let mut well_typed = true;
    if src.pct(25) {
        case.label(mutate(&mut pg, src));
        well_typed = false;
    }
    let lay = Layout::random(src);
    let style = Style { qual: *src.pick(&[10, 40, 90]), ..Style::default() };
    let r = if well_typed {
        pg.render(&style, lay, src)
    } else {
        // names that are not visible where they ended up cannot be written
        match guard(|| pg.render(&style, lay, src)) {
            Ok(r) => r,
            Err(_) => return case.discard(),
        }
    };
    let p = &pg.p;
    let (pr, la) = &r.root;
    case.text = r.texts.show();
    if !well_typed {
        // copied code has one binder in several places
        let mut seen = BTreeSet::new();
        if pr.toks.iter().filter_map(|t| t.occ.as_ref()).filter(|o| o.def && o.bs.len() == 1).any(|o| !seen.insert(o.bs[0])) {
            return case.discard();
        }
    }
    generated(src);

    let mut used: BTreeSet<B> = BTreeSet::new();
    let mut maybe: BTreeSet<B> = BTreeSet::new();
    for t in &pr.toks {
        if let Some(o) = &t.occ {
            if !o.def {
                used.extend(o.bs.iter().copied());
            }
        }
    }
    for it in &p.modules[pg.root].items {
        match it {
            Item::Val(v) if v.export => {
                used.insert(v.b);
            }
            Item::Type(t) => {
                if t.export {
                    used.insert(t.b);
                }
                if t.export_ctors {
                    used.extend(t.ctors.iter().map(|c| c.b));
                    maybe.insert(t.b);
                }
            }
            _ => {}
        }
    }
    let by_ctor: Vec<B> = pr
        .toks
        .iter()
        .flat_map(|t| t.occ.iter())
        .filter(|o| !o.def)
        .flat_map(|o| o.bs.iter())
        .filter_map(|&b| match p.binders[b].kind {
            BK::Ctor(t, _) => Some(t),
            _ => None,
        })
        .collect();
    used.extend(by_ctor);

    // span -> must, may
    let mut want: BTreeMap<(usize, usize), (bool, bool, String)> = BTreeMap::new();
    let mut special = false;
    for (i, t) in pr.toks.iter().enumerate() {
        let Some(o) = &t.occ else { continue };
        if t.kind != TK::Name || !o.def {
            continue;
        }
        if o.bs.iter().any(|&b| matches!(p.binders[b].kind, BK::TyVar | BK::Module)) {
            continue;
        }
        if t.text.starts_with('_') {
            special = true;
            continue;
        }
        special |= matches!(p.modules[pg.root].items[t.item], Item::Import(_));
        let unused = |b: &&B| !used.contains(*b);
        let n = o.bs.iter().filter(unused).count();
        let sure = o.bs.iter().filter(unused).filter(|b| !maybe.contains(*b)).count();
        if n > 0 {
            want.insert(la.spans[i], (sure == o.bs.len(), o.bs.len() > 1, t.text.clone()));
        }
    }
    let mut names: Vec<&str> = pr.toks.iter().filter(|t| t.occ.as_ref().map_or(false, |o| o.def)).map(|t| t.text.as_str()).collect();
    names.sort();
    special |= names.windows(2).any(|w| w[0] == w[1]);
    case.nontrivial = special && want.values().any(|w| w.0);

    let ds = guard(|| r.texts.unit(true, true).diagnostics().collect::<Vec<_>>()).map_err(|e| format!("panic: {}", e))?;
    let show = |e: String| format!("{}; {}", e, fmt_diags(&r.texts.root, &ds));
    let mut got: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for d in &ds {
        let s = (d.span.start().source_pos(), d.span.end().source_pos());
        if d.severity == Severity::Error {
            if well_typed {
                return Err(show("error in a well-typed program".into()));
            }
            continue;
        }
        let Some((_, several, name)) = want.get(&s) else {
            return Err(show(format!("unexpected warning: {:?} at {:?}", d.message, s)));
        };
        if !d.message.contains(name.as_str()) {
            return Err(show(format!("warning names something else: {:?} at {:?}", d.message, s)));
        }
        let n = got.entry(s).or_default();
        *n += 1;
        if *n > 1 && !several {
            return Err(show(format!("warning given twice: {:?} at {:?}", d.message, s)));
        }
    }
    for (s, w) in &want {
        if w.0 && !got.contains_key(s) {
            return Err(show(format!("warning missing: {} at {:?}", w.2, s)));
        }
    }
    Ok(())
}
