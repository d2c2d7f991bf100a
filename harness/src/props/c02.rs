//! Optimized against unoptimized evaluation.

use crate::choice::Src;
use crate::engine::{generated, Case, Prop};
use crate::eval::{Eval, Stop};
use crate::gen::{program, Cfg};
use crate::loops;
use crate::print::Layout;
use crate::print::Style;
use crate::sut::{fmt_diags, RUNNERS};
use ticc::Runner;

pub const C02: Prop = Prop {
    id: "C02",
    quick: 6000,
    thorough: 200000,
    rule: "a generated accepted program whose evaluation takes 12 or more reference steps, or reaches a hole; with at least one exported value",
    assumptions: &["a program that traps without optimization may also yield values with it (as the property says)", "programs whose reference run exceeds the step budget are discarded"],
    f: c02,
};

fn c02(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut cfg = Cfg::default();
    cfg.holes = if src.pct(25) { 4 } else { 0 };
    cfg.unicode = src.pct(40);
    if src.pct(60) {
        cfg.modules = (0, 0);
    }
    // more definitions that are used once, many times or never
    cfg.fuel = *src.pick(&[22, 14, 40]);
    cfg.shadow = *src.pick(&[35, 10, 70]);
    cfg.items = *src.pick(&[(1, 6), (1, 2), (4, 9)]);
    if src.pct(30) {
        cfg.export = 25;
    }
    if case.tier_thorough && src.pct(20) {
        cfg.fuel = 70;
    }
    let pg = if src.pct(33) {
        case.label("calls");
        let size = *src.pick(&[10, 20, 40]);
        loops::any(src, loops::Shape { holes: cfg.holes, size })
    } else {
        program(src, cfg)
    };
    let r = pg.render(&Style::default(), Layout::PLAIN, src);
    case.text = r.texts.show();
    let mut ev = Eval::new(&pg.p, pg.st, 40_000);
    let end = ev.run(pg.root);
    if let Err(Stop::Fuel) = end {
        return case.discard();
    }
    generated(src);
    let errs = r.texts.errors()?;
    if !errs.is_empty() {
        return Err(format!("well-formed program rejected: {}", fmt_diags(&r.texts.root, &errs)));
    }
    case.nontrivial = (ev.used >= 12 || end.is_err()) && case.text.contains("export let");
    case.label_if(end.is_err(), "trap");
    case.label_if(case.text.contains("fold"), "fold");
    case.label_if(case.text.contains("match"), "match");
    for run in RUNNERS {
        if run != Runner::Treewalk && !(case.index % 2 == 0) {
            continue;
        }
        let plain = r.texts.run(run, false).map_err(|p| format!("panic without optimization on {}: {}", run, p))?;
        let opt = r.texts.run(run, true).map_err(|p| format!("panic with optimization on {}: {}", run, p))?;
        match (&plain, &opt) {
            (Ok(a), Ok(b)) if a == b => {}
            (Ok(a), Ok(b)) => return Err(format!("different result with optimization on {}:\n{}instead of\n{}", run, b, a)),
            (Ok(a), Err(t)) => return Err(format!("trap only with optimization on {}: {}; without it\n{}", run, t, a)),
            (Err(_), Ok(_)) => case.label("trap removed"),
            (Err(_), Err(_)) => {}
        }
    }
    Ok(())
}
