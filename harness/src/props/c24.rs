//! The emitted representation, read back and evaluated.

use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::eval::{Eval, Stop};
use crate::gen::{program, Cfg};
use crate::irgen::{self, Names, Same};
use crate::loops;
use crate::irparse::{self, Machine};
use crate::print::{Layout, Style};
use crate::sut::fmt_diags;
use ticc::Runner;

pub const C24: Prop = Prop {
    id: "C24",
    quick: 14000,
    thorough: 300000,
    rule: "an accepted program with an exported value whose emitted text has 10 or more lines; the text is parsed and evaluated at both optimization levels; or a program of the intermediate representation that prints to 10 or more lines and is read back",
    assumptions: &[
        "grammar as evident from the text: comparisons bind weaker than `+ -`, these weaker than `* / %`, these weaker than calls; let, if, match, lambda and Pi extend as far as possible",
        "type arguments do not influence evaluation",
    ],
    f: c24,
};

/// Printing loses nothing: what is read is what was printed, names aside.
fn printed(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let size = *src.pick(&[8, 20, 40, 80]);
    let traps = if src.pct(50) { 3 } else { 0 };
    let nullary = src.pct(10);
    let p = irgen::program(src, irgen::Shape { size, traps, nullary });
    generated(src);
    case.label("intermediate");
    let text = guard(|| ticc_core::pretty_print(&p)).map_err(|e| format!("panic while printing: {}", e))?;
    case.text = text.clone();
    case.nontrivial = text.lines().count() >= 10;
    let defs = irparse::parse(&text).map_err(|e| format!("printed program cannot be read: {}", e))?;
    Same::default().program(&Names::new().program(&p), &defs).map_err(|e| format!("printed program differs: {}", e))
}

fn c24(src: &mut Src, case: &mut Case) -> Result<(), String> {
    if src.pct(50) {
        return printed(src, case);
    }
    let mut cfg = Cfg { holes: if src.pct(25) { 3 } else { 0 }, main: src.pct(15), fuel: *src.pick(&[22, 14, 40]), ..Cfg::default() };
    if src.pct(50) {
        cfg.modules = (0, 0);
    }
    let pg = if src.pct(15) {
        case.label("calls");
        let size = *src.pick(&[10, 20, 40]);
        loops::any(src, loops::Shape { holes: cfg.holes, size })
    } else {
        program(src, cfg)
    };
    let input = super::c03::input_bytes(src);
    let r = pg.render(&Style::default(), Layout::PLAIN, src);
    case.text = r.texts.show();
    if let Err(Stop::Fuel) = Eval::new(&pg.p, pg.st, 30_000).run(pg.root) {
        return case.discard();
    }
    let has_main = r.texts.root.contains("export let main :");
    generated(src);
    let errs = r.texts.errors()?;
    if !errs.is_empty() {
        return Err(format!("program rejected: {}", fmt_diags(&r.texts.root, &errs)));
    }
    for opt in [false, true] {
        let mut u = guard(|| r.texts.unit(opt, true))?;
        let ir = guard(|| u.emit_ir()).map_err(|p| format!("panic in emit_ir: {}", p))?;
        case.nontrivial |= ir.lines().count() >= 10 && r.texts.root.contains("export let");
        let defs = irparse::parse(&ir).map_err(|e| format!("emitted text cannot be read (optimize {}): {}", opt, e))?;
        let want = guard(|| u.interpret(Runner::Lambda).map_err(|t| t.message)).map_err(|p| format!("panic in evaluation: {}", p))?;
        match (Machine::run(&defs, 3_000_000), want) {
            (Err(irparse::Stop::Fuel), _) => return case.discard(),
            (Err(irparse::Stop::Bad(e)), _) => return Err(format!("emitted program goes wrong (optimize {}): {}", opt, e)),
            (Err(irparse::Stop::Trap(m)), Err(t)) if m == t => {}
            (Err(irparse::Stop::Trap(m)), w) => return Err(format!("emitted program traps (optimize {}): with {} instead of {:?}", opt, m, w)),
            (Ok(_), Err(t)) => return Err(format!("emitted program does not trap (optimize {}): program does: {}", opt, t)),
            (Ok((mut m, vals)), Ok(w)) => {
                let mut got = String::new();
                for (n, v) in &vals {
                    got.push_str(n);
                    got.push_str(" = ");
                    irparse::show(v, false, &mut got);
                    got.push('\n');
                }
                if got != w {
                    return Err(format!("emitted program differs (optimize {}): it gives\n{}and the source\n{}", opt, got, w));
                }
                if has_main && opt {
                    let Some((_, f)) = vals.iter().rev().find(|v| v.0 == "main") else { return Err("emitted program differs: no main".into()) };
                    let got = m.call(f.clone(), vec![irparse::V::Str(input.as_slice().into())]);
                    let want = guard(|| u.interpret_main(Runner::Lambda, &input).map_err(|t| t.to_string())).map_err(|p| format!("panic in main: {}", p))?;
                    match (got, want) {
                        (Ok(irparse::V::Str(a)), Ok(b)) if *a == *b => case.label("main"),
                        (Err(irparse::Stop::Fuel), _) => return case.discard(),
                        (Err(irparse::Stop::Trap(m)), Err(t)) if t.contains(&m) => {}
                        (g, w) => {
                            return Err(format!(
                                "main of the emitted program differs (optimize {}): {} and {:?}",
                                opt,
                                match g {
                                    Ok(v) => {
                                        let mut s = String::new();
                                        irparse::show(&v, false, &mut s);
                                        s
                                    }
                                    Err(irparse::Stop::Trap(m)) | Err(irparse::Stop::Bad(m)) => m,
                                    Err(irparse::Stop::Fuel) => String::new(),
                                },
                                w
                            ));
                        }
                    }
                }
            }
        }
    }
    case.label_if(r.texts.root.contains("fold"), "fold");
    case.label_if(r.texts.root.contains("?"), "hole");
    Ok(())
}
