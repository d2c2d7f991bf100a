//! Well-typed programs are accepted, whichever inferable annotations are written.

use crate::ast::*;
use crate::choice::Src;
use super::c04::mutate;
use crate::engine::{generated, guard, Case, Prop};
use crate::gen::{program, Cfg, Program};
use crate::infer::{matches_exact, Infer};
use crate::print::{Layout, Style};
use crate::sut::fmt_diags;
use std::collections::BTreeSet;
use ticc::Runner;

pub const C05: Prop = Prop {
    id: "C05",
    quick: 14000,
    thorough: 500000,
    rule: "a generated well-typed program with at least one annotation that can be left out; three variants of it are checked: as generated, with a random part and with all inferable annotations left out; or a mutated program that is still well typed",
    assumptions: &["an annotation is inferable when the definition is not polymorphic and a textbook inference (harness/src/infer.rs) determines the whole type"],
    f: c05,
};

fn c05(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut cfg = Cfg::default();
    cfg.omit = 0;
    cfg.poly = *src.pick(&[30, 60]);
    cfg.shadow = *src.pick(&[35, 70]);
    cfg.holes = if src.pct(20) { 4 } else { 0 };
    cfg.fuel = *src.pick(&[22, 10, 40]);
    cfg.odd_names = *src.pick(&[4, 30]);
    if src.pct(50) {
        cfg.modules = (0, 0);
    }
    let mut base = program(src, cfg);
    if src.pct(25) {
        return mutated(src, case, &mut base);
    }
    let mut last: Option<String> = None;
    let finishes = case.index % 4 == 0 && crate::eval::Eval::new(&base.p, base.st, 40_000).run(base.root).is_ok();
    for variant in 0..3 {
        let mut pg = base.clone();
        let mut dropped = 0;
        let pct = [0, 50, 100][variant];
        let n = pg.p.modules.len();
        for m in 0..n {
            if pg.p.modules[m].std {
                continue;
            }
            for i in 0..pg.p.modules[m].items.len() {
                let Item::Val(mut v) = pg.p.modules[m].items[i].clone() else { continue };
                let binders = &pg.p.binders;
                let mono = |b: B| matches!(&binders[b].kind, BK::Value(s) if s.vars.is_empty());
                walk_mut(&mut v.e, &mut |x| {
                    if let K::Let { b, ann, .. } = &mut x.k {
                        if mono(*b) && *ann && src.pct(pct) {
                            *ann = false;
                            dropped += 1;
                        }
                    }
                });
                if mono(v.b) && v.ann && src.pct(pct) {
                    v.ann = false;
                    match Infer::new(&pg.p).value(&v) {
                        Ok((t, _)) if !t.has_meta() => dropped += 1,
                        _ => v.ann = true,
                    }
                }
                pg.p.modules[m].items[i] = Item::Val(v);
            }
        }
        let r = pg.render(&Style::default(), Layout::PLAIN, src);
        case.text = r.texts.show();
        if variant == 2 {
            case.nontrivial = dropped > 0;
        }
        generated(src);
        let errs = r.texts.errors()?;
        if !errs.is_empty() {
            return Err(format!("well-typed program rejected (variant {}): {}", variant, fmt_diags(&r.texts.root, &errs)));
        }
        for (m, _, laid) in &r.mods {
            let t = crate::sut::Texts { root: laid.text.clone(), files: r.texts.files.clone() };
            let errs = t.errors()?;
            if !errs.is_empty() {
                return Err(format!("well-typed module rejected (variant {}): {} {}", variant, pg.p.modules[*m].path, fmt_diags(&t.root, &errs)));
            }
        }
        if case.index % 4 == 0 && finishes {
            // same meaning in all variants
            let out = match r.texts.run(Runner::Bytecode, true) {
                Ok(o) => format!("{:?}", o),
                Err(p) => return Err(format!("panic (variant {}): {}", variant, p)),
            };
            if let Some(l) = &last {
                if *l != out {
                    return Err(format!("annotations change the result: {} against {}", l, out));
                }
            }
            last = Some(out);
        }
    }
    Ok(())
}

/// A changed program, when it is still well typed.
fn mutated(src: &mut Src, case: &mut Case, pg: &mut Program) -> Result<(), String> {
    let what = mutate(pg, src);
    let lay = Layout::random(src);
    let Ok(r) = guard(|| pg.render(&Style::default(), lay, src)) else { return case.discard() };
    let mut seen = BTreeSet::new();
    let toks = r.root.0.toks.iter().chain(r.mods.iter().flat_map(|m| &m.1.toks));
    if toks.filter_map(|t| t.occ.as_ref()).filter(|o| o.def && o.bs.len() == 1).any(|o| !seen.insert(o.bs[0])) {
        return case.discard();
    }
    let items = pg.p.modules.iter().filter(|m| !m.std).flat_map(|m| &m.items);
    for it in items {
        let Item::Val(v) = it else { continue };
        let Ok((t, inf)) = Infer::new(&pg.p).value(v) else { return case.discard() };
        let same = v.ann || format!("{:?}", t) == format!("{:?}", pg.p.scheme(v.b).ty);
        if !same || !matches_exact(&pg.p, &v.e, &inf.exprs) {
            return case.discard();
        }
    }
    case.text = r.texts.show();
    case.label(what);
    case.nontrivial = what != "none";
    generated(src);
    let errs = r.texts.errors()?;
    if !errs.is_empty() {
        return Err(format!("well-typed program rejected ({}): {}", what, fmt_diags(&r.texts.root, &errs)));
    }
    Ok(())
}
