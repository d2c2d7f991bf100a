//! The same sources give the same answers every time.

use super::c11::{ask, Q};
use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::eval::{Eval, Stop};
use crate::gen::{program, Cfg};
use crate::print::{Layout, Style};
use crate::sut::{fmt_diags, Texts};
use crate::texts::weird;
use std::process::{Command, Stdio};

pub const C23: Prop = Prop {
    id: "C23",
    quick: 3000,
    thorough: 300000,
    rule: "a text with two or more items for which the compared answers amount to 200 or more bytes; each is computed three times in one process, other texts being compiled in between, and for one case in 25 in two processes of their own",
    assumptions: &["hash seeds differ between collections and between processes, as they do in the standard library"],
    f: c23,
};

fn everything(t: &Texts, evals: bool, points: &[usize]) -> String {
    let mut out = String::new();
    for opt in [false, true] {
        let Ok(mut u) = guard(|| t.unit(opt, true)) else { return "panic".into() };
        let mut qs = vec![];
        if !opt {
            qs.extend([Q::Diag, Q::Tokens]);
            for &p in points {
                qs.extend([Q::Info(p), Q::Comp(p), Q::Refs(p), Q::Def(p)]);
            }
        }
        if evals {
            qs.push(Q::Ir);
            if opt {
                qs.extend([Q::Eval(points[0] % 3), Q::Main]);
            }
        }
        for q in qs {
            out.push_str(&format!("{:?} optimize {}: {}\n", q, opt, ask(&mut u, q)));
        }
    }
    out
}

fn first_difference(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("{:?} then {:?}", x, y);
        }
    }
    format!("lengths {} and {}", a.len(), b.len())
}

fn c23(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut evals = false;
    let t: Texts = if src.pct(65) {
        let mut cfg = Cfg { items: (1, 6), fuel: *src.pick(&[14, 22, 35]), holes: if src.pct(30) { 5 } else { 0 }, omit: 60, main: src.pct(20), ..Cfg::default() };
        if src.pct(40) {
            cfg.modules = (0, 0);
        }
        let pg = program(src, cfg);
        let r = pg.render(&Style::default(), Layout::PLAIN, src);
        evals = !matches!(Eval::new(&pg.p, pg.st, 30_000).run(pg.root), Err(Stop::Fuel));
        case.label("well-formed");
        r.texts
    } else {
        let (t, k) = weird(src, 60);
        case.label(k);
        t
    };
    let points: Vec<usize> = (0..6).map(|_| src.us(t.root.len() + 1)).collect();
    let between: Vec<Texts> = (0..src.us(3)).map(|_| weird(src, 30).0).collect();
    case.text = t.show();
    generated(src);
    if evals {
        let errs = t.errors()?;
        if !errs.is_empty() {
            // other properties' concern; what is said about it must still be the same
            case.label(&format!("rejected {}", fmt_diags(&t.root, &errs).len() > 0));
            evals = false;
        }
    }
    let first = everything(&t, evals, &points);
    for k in 0..2 {
        for b in &between {
            let _ = guard(|| b.unit(true, true).diagnostics().count());
        }
        let again = everything(&t, evals, &points);
        if again != first {
            return Err(format!("different answers: repetition {}: {}", k + 1, first_difference(&first, &again)));
        }
    }
    if case.index % 25 == 0 {
        processes(&t, evals, case)?;
    }
    case.nontrivial = first.len() >= 200 && t.root.matches(';').count() >= 2;
    case.label_if(evals, "evaluated");
    Ok(())
}

/// The command line tool, in processes of their own.
fn processes(t: &Texts, evals: bool, case: &mut Case) -> Result<(), String> {
    let dir = crate::cli::Scratch::new();
    for (n, text) in &t.files {
        dir.write(n, text);
    }
    dir.write("root.tic", &t.root);
    let bin = crate::cli::ticc();
    let runs: &[&[&str]] = if evals { &[&["--check"], &["--emit-ir", "-o", "-"], &["--emit-ir", "--optimize", "-o", "-"], &["--eval", "--optimize"]] } else { &[&["--check"]] };
    for args in runs {
        let mut outs = Vec::new();
        for _ in 0..2 {
            let o = crate::cli::command(bin.clone()).arg("root.tic").args(*args).current_dir(dir.path()).stdin(Stdio::null()).output().expect("cannot run ticc");
            outs.push((o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned()));
        }
        if outs[0] != outs[1] {
            return Err(format!(
                "different answers: two processes with {:?}: {} or {}",
                args,
                first_difference(&outs[0].1, &outs[1].1),
                first_difference(&outs[0].2, &outs[1].2)
            ));
        }
        if args.contains(&"--emit-ir") {
            let mut u = guard(|| t.unit(args.contains(&"--optimize"), true))?;
            let want = ask(&mut u, Q::Ir);
            if outs[0].1.trim_end() != want.trim_end() {
                return Err(format!("different answers: process with {:?} and library: {}", args, first_difference(&outs[0].1, &want)));
            }
        }
    }
    case.label("processes");
    Ok(())
}
