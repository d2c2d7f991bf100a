//! Evaluation against the reference semantics.

use crate::choice::Src;
use crate::engine::{generated, Case, Prop};
use crate::eval::{Eval, Stop};
use crate::gen::{program, Cfg};
use crate::loops;
use crate::print::{Layout, Style};
use crate::sut::{fmt_diags, RUNNERS};

pub const C01: Prop = Prop {
    id: "C01",
    quick: 12000,
    thorough: 400000,
    rule: "a generated hole-free program with at least one exported value whose evaluation takes 12 or more reference steps",
    assumptions: &[
        "reference evaluator written from the language description; programs whose reference run exceeds the step budget are discarded",
        "functions are compared by their printed form only",
    ],
    f: c01,
};

fn c01(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut cfg = Cfg::default();
    if src.pct(50) {
        cfg.modules = (0, 0);
    }
    if case.tier_thorough && src.pct(30) {
        cfg.fuel = 60;
        cfg.items = (1, 10);
    }
    let pg = if src.pct(15) {
        case.label("calls");
        let size = *src.pick(&[10, 20, 40]);
        loops::any(src, loops::Shape { holes: 0, size })
    } else {
        program(src, cfg)
    };
    let lay = if src.pct(20) { Layout::random(src) } else { Layout::PLAIN };
    let r = pg.render(&Style::default(), lay, src);
    case.text = r.texts.show();
    let mut ev = Eval::new(&pg.p, pg.st, 40_000);
    let want = match ev.run(pg.root) {
        Ok(s) => s,
        Err(Stop::Fuel) => return case.discard(),
        Err(Stop::Trap(h)) => panic!("trap {} in hole-free program", h),
    };
    generated(src);
    case.nontrivial = ev.used >= 12 && !want.is_empty();
    case.label_if(case.text.contains("fold"), "fold");
    case.label_if(case.text.contains("match"), "match");
    case.label_if(!r.texts.files.is_empty(), "modules");
    case.label_if(case.text.contains("std/"), "std");
    case.label_if(ev.used > 500, "long run");
    let errs = r.texts.errors()?;
    if !errs.is_empty() {
        return Err(format!("well-formed program rejected: {}", fmt_diags(&r.texts.root, &errs)));
    }
    for run in RUNNERS {
        match r.texts.run(run, false) {
            Ok(Ok(s)) if s == want => {}
            Ok(Ok(s)) => return Err(format!("wrong result on {}: got\n{}want\n{}", run, s, want)),
            Ok(Err(t)) => return Err(format!("trap on {}: {}", run, t)),
            Err(p) => return Err(format!("panic on {}: {}", run, p)),
        }
    }
    Ok(())
}
