//! Runners against each other.

use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::ast::Item;
use crate::eval::{Eval, Stop, V};
use crate::gen::{program, Cfg};
use crate::irgen::{self, agrees, Names};
use crate::irparse::{self, Machine};
use crate::loops;
use crate::print::{Layout, Style};
use crate::sut::{fmt_diags, RUNNERS};
use ticc_core::ir::{self, Expr};
use ticc_eval::{bytecode, lambda, treewalk, Trap, Value};

pub const C03: Prop = Prop {
    id: "C03",
    quick: 4500,
    thorough: 80000,
    rule: "a generated accepted program that exports values or `main`, and either takes 12 or more reference steps, reaches a hole, or runs main on a non-empty input; or a program of the intermediate representation of 10 or more printed lines",
    assumptions: &["the jit runner is not available on this platform and is not compared", "programs whose reference run exceeds the step budget are discarded"],
    f: c03,
};

pub fn input_bytes(src: &mut Src) -> Vec<u8> {
    let n = src.weighted(&[10, 30, 30, 20, 10]) * src.urange(1, 6);
    let mut v = Vec::new();
    for _ in 0..n {
        match src.weighted(&[40, 15, 10, 15, 10, 10]) {
            0 => v.push(b'a' + src.below(26) as u8),
            1 => v.push(b'0' + src.below(10) as u8),
            2 => v.push(b' '),
            3 => v.push(b'\n'),
            4 => v.push(src.below(256) as u8),
            _ => v.extend_from_slice("é😀".as_bytes()),
        }
    }
    v
}

fn compare<F>(what: &str, p: &ir::Program<'_>, names: &mut Names, exprs: &[Expr], eval: fn(&ir::Program<'_>, &[Expr]) -> Result<Vec<Value<F>>, Trap>, want: &Result<Vec<irparse::V>, String>) -> Result<(), String> {
    let got = guard(|| eval(p, exprs)).map_err(|e| format!("panic on {}: {}", what, e))?;
    match (&got, want) {
        (Err(t), Err(m)) if t.message == *m => Ok(()),
        (Ok(vs), Ok(ws)) if vs.len() == ws.len() && vs.iter().zip(ws).all(|(v, w)| agrees(p, names, v, w)) => Ok(()),
        _ => {
            let w = match want {
                Err(m) => format!("trap {:?}", m),
                Ok(ws) => ws
                    .iter()
                    .map(|w| {
                        let mut s = String::new();
                        irparse::show(w, true, &mut s);
                        s + " "
                    })
                    .collect(),
            };
            Err(format!("wrong result on {}: {:?} instead of {}", what, got, w))
        }
    }
}

/// The same one level lower, where programs take shapes that no short source
/// text has.
fn lower(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let size = *src.pick(&[8, 20, 40, 80]);
    let traps = if src.pct(30) { 3 } else { 0 };
    let p = irgen::program(src, irgen::Shape { size, traps, nullary: false });
    generated(src);
    case.label("intermediate");
    case.text = guard(|| ticc_core::pretty_print(&p)).unwrap_or_default();
    let mut names = Names::new();
    let defs = names.program(&p);
    let want = match Machine::run(&defs, 60_000) {
        Err(irparse::Stop::Fuel) => return case.discard(),
        Err(irparse::Stop::Bad(e)) => panic!("generated program goes wrong: {}", e),
        Err(irparse::Stop::Trap(m)) => Err(m),
        Ok((_, vs)) => Ok(vs.into_iter().map(|v| v.1).collect()),
    };
    case.nontrivial = case.text.lines().count() >= 10;
    case.label_if(want.is_err(), "trap");
    let exprs: Vec<Expr> = p.defs.iter().filter(|d| d.export_name.is_some()).map(|d| Expr::Name(d.name)).collect();
    compare("treewalk", &p, &mut names, &exprs, treewalk::eval, &want)?;
    compare("lambda", &p, &mut names, &exprs, lambda::eval, &want)?;
    compare("bytecode", &p, &mut names, &exprs, bytecode::eval, &want)
}

fn c03(src: &mut Src, case: &mut Case) -> Result<(), String> {
    if src.pct(40) {
        return lower(src, case);
    }
    let mut cfg = Cfg::default();
    cfg.holes = if src.pct(40) { 5 } else { 0 };
    cfg.main = src.pct(50);
    if src.pct(60) {
        cfg.modules = (0, 0);
    }
    if cfg.main {
        cfg.std = 80;
    }
    if case.tier_thorough && src.pct(30) {
        cfg.fuel = 60;
    }
    let calls = src.pct(35);
    if calls {
        cfg.main = false;
    }
    let with_main = cfg.main;
    let pg = if calls {
        case.label("calls");
        let holes = if src.pct(50) { 6 } else { 0 };
        let size = *src.pick(&[10, 20, 40]);
        loops::any(src, loops::Shape { holes, size })
    } else {
        program(src, cfg)
    };
    let lay = Layout::PLAIN;
    let r = pg.render(&Style::default(), lay, src);
    let input = if with_main { input_bytes(src) } else { Vec::new() };
    case.text = format!("{}{}", r.texts.show(), if with_main { format!("\n==== input\n{:?}", String::from_utf8_lossy(&input)) } else { String::new() });
    let mut ev = Eval::new(&pg.p, pg.st, 40_000);
    let end = ev.run(pg.root);
    if let Err(Stop::Fuel) = end {
        return case.discard();
    }
    // what main has to print, when it runs through
    let mut want_main = None;
    if with_main && end.is_ok() {
        let main = pg.p.modules[pg.root].items.iter().rev().find_map(|i| match i {
            Item::Val(v) if v.export && pg.p.name(v.b) == "main" => Some(v.b),
            _ => None,
        });
        if let Some(f) = main.and_then(|b| ev.global(b)) {
            match ev.apply(f, V::Str(input.as_slice().into())) {
                Ok(V::Str(s)) => want_main = Some(s.to_vec()),
                Err(Stop::Fuel) => return case.discard(),
                _ => {}
            }
        }
    }
    generated(src);
    let errs = r.texts.errors()?;
    if !errs.is_empty() {
        return Err(format!("well-formed program rejected: {}", fmt_diags(&r.texts.root, &errs)));
    }
    case.nontrivial = (case.text.contains("export let") && (ev.used >= 12 || end.is_err())) || (with_main && !input.is_empty());
    case.label_if(end.is_err(), "trap");
    case.label_if(with_main, "main");
    for opt in [false, true] {
        let mut first: Option<(ticc::Runner, Result<String, String>)> = None;
        for run in RUNNERS {
            let out = r.texts.run(run, opt).map_err(|p| format!("panic on {} (optimize: {}): {}", run, opt, p))?;
            match &first {
                None => first = Some((run, out)),
                Some((f, o)) => {
                    if *o != out {
                        return Err(format!("runners differ (optimize {}): {} gives {:?}, {} gives {:?}", opt, f, o, run, out));
                    }
                }
            }
        }
        // the reference trap message, where it is unambiguous
        if let (Some((_, Err(m))), false) = (&first, opt) {
            case.label_if(m.starts_with("encountered ?"), "hole message");
            let single = r.texts.files.is_empty();
            match &end {
                // which modules are evaluated, and in what order, is not specified
                Err(Stop::Trap(h)) if single && *m != format!("encountered ?{}", h) => {
                    return Err(format!("wrong trap: {:?} instead of the hole {:?}", m, h));
                }
                Err(Stop::Trap(_)) => {
                    if !m.strip_prefix("encountered ").map(|h| case.text.contains(h)).unwrap_or(false) {
                        return Err(format!("wrong trap: no such hole, {:?}", m));
                    }
                }
                _ => return Err(format!("unexpected trap: {:?}, reference evaluates fully", m)),
            }
        }
        if let (Some((_, Ok(_))), false, true, Err(Stop::Trap(h))) = (&first, opt, r.texts.files.is_empty(), &end) {
            return Err(format!("missing trap: hole {:?} is reached", h));
        }
        if with_main {
            let mut first: Option<(ticc::Runner, Result<Vec<u8>, String>)> = None;
            for run in RUNNERS {
                let out = r.texts.run_main(run, opt, &input).map_err(|p| format!("panic running main on {} (optimize: {}): {}", run, opt, p))?;
                case.label_if(out.is_ok(), "main ran");
                match &first {
                    None => {
                        if let Some(w) = &want_main {
                            if out.as_ref().ok() != Some(w) {
                                return Err(format!("main gives a wrong result (optimize {}): {:?} instead of {:?}", opt, out, w));
                            }
                        }
                        first = Some((run, out))
                    }
                    Some((f, o)) => {
                        if *o != out {
                            return Err(format!("runners differ on main (optimize {}): {} gives {:?}, {} gives {:?}", opt, f, o, run, out));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
