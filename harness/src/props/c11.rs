//! Answers do not depend on what was asked before.

use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::eval::Eval;
use crate::gen::{program, Cfg};
use crate::print::{Layout, Style};
use crate::sut::{Texts, RUNNERS};
use crate::texts::weird;
use ticc::{CompilationUnit, Pos};

pub const C11: Prop = Prop {
    id: "C11",
    quick: 34000,
    thorough: 600000,
    rule: "a history of three or more queries on one unit, of which at least two have an answer, on a text with two or more items",
    assumptions: &["evaluation is part of a history only for programs whose reference evaluation ends within its step budget"],
    f: c11,
};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Q {
    Diag,
    Tokens,
    Def(usize),
    Refs(usize),
    Info(usize),
    Comp(usize),
    Ir,
    Eval(usize),
    Main,
}

fn span(s: ticc::Span) -> String {
    format!("{}..{}", s.start().source_pos(), s.end().source_pos())
}

/// The whole answer as text.
pub fn ask(u: &mut CompilationUnit, q: Q) -> String {
    let r = guard(|| match q {
        Q::Diag => u.diagnostics().map(|d| format!("{:?} {} {}\n", d.severity, span(d.span), d.message)).collect::<String>(),
        Q::Tokens => u.tokens().map(|t| format!("{:?} {}\n", t.kind, span(t.span))).collect::<String>(),
        Q::Def(p) => format!("{:?}", u.find_definition(Pos::new(p as u32)).map(span)),
        Q::Refs(p) => format!("{:?}", u.find_references(Pos::new(p as u32)).map(|v| v.into_iter().map(span).collect::<Vec<_>>())),
        Q::Info(p) => format!("{:?}", u.info(Pos::new(p as u32)).map(|i| (span(i.span), i.doc))),
        Q::Comp(p) => format!("{:?}", u.completions(Pos::new(p as u32)).map(|v| v.into_iter().map(|c| c.name).collect::<Vec<_>>())),
        Q::Ir => u.emit_ir(),
        Q::Eval(r) => format!("{:?}", u.interpret(RUNNERS[r]).map_err(|t| t.message)),
        Q::Main => match u.interpret_main(RUNNERS[0], b"in") {
            Ok(v) => format!("{:?}", v),
            Err(e) => e.to_string(),
        },
    });
    match r {
        Ok(s) => s,
        Err(p) => format!("panic: {}", p),
    }
}

fn empty(s: &str) -> bool {
    s.is_empty() || s == "None" || s == "Some([])"
}

fn c11(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut evals = false;
    let t: Texts = if src.pct(45) {
        let mut cfg = Cfg { items: (2, 5), fuel: *src.pick(&[8, 14]), holes: 3, omit: 60, main: src.pct(20), ..Cfg::default() };
        if src.pct(60) {
            cfg.modules = (0, 0);
        }
        let pg = program(src, cfg);
        let lay = if src.pct(30) { Layout::random(src) } else { Layout::PLAIN };
        let r = pg.render(&Style::default(), lay, src);
        evals = src.pct(40) && Eval::new(&pg.p, pg.st, 20_000).run(pg.root).map_err(|s| matches!(s, crate::eval::Stop::Fuel)) != Err(true);
        case.label("well-formed");
        r.texts
    } else {
        let (t, k) = weird(src, 40);
        case.label(k);
        t
    };
    let len = t.root.len();
    let mut qs: Vec<Q> = Vec::new();
    for _ in 0..src.urange(2, 9) {
        let p = src.us(len + 2);
        qs.push(match src.weighted(&[10, 10, 16, 14, 16, 16, if evals { 4 } else { 0 }, if evals { 6 } else { 0 }, if evals { 3 } else { 0 }]) {
            0 => Q::Diag,
            1 => Q::Tokens,
            2 => Q::Def(p),
            3 => Q::Refs(p),
            4 => Q::Info(p),
            5 => Q::Comp(p),
            6 => Q::Ir,
            7 => Q::Eval(src.us(3)),
            _ => Q::Main,
        });
    }
    // the whole text is looked at in the end, and early positions again
    qs.push(if src.pct(50) { Q::Diag } else { Q::Tokens });
    let i = src.us(qs.len());
    qs.push(qs[i]);
    if src.pct(50) {
        qs.push(Q::Info(src.us(len + 1)));
    }
    let opt = src.pct(30);
    let errors = evals && !t.errors()?.is_empty();
    case.text = format!("{}\n-- history: {:?}\n", t.show(), qs);
    generated(src);
    let mut shared = guard(|| t.unit(opt, true))?;
    let mut answered = 0;
    for (k, q) in qs.iter().enumerate() {
        if errors && matches!(q, Q::Ir | Q::Eval(_) | Q::Main) {
            continue;
        }
        let got = ask(&mut shared, *q);
        let want = ask(&mut guard(|| t.unit(opt, true))?, *q);
        if got.starts_with("panic: ") && want.starts_with("panic: ") {
            // a crash of any query is another property's concern
            return case.discard();
        }
        if got != want {
            return Err(format!("answer depends on history: query {} ({:?}) after {:?}: {} on a fresh unit {}", k, q, &qs[..k], got, want));
        }
        answered += usize::from(!empty(&want));
    }
    case.nontrivial = answered >= 2 && t.root.matches(';').count() >= 2;
    case.label_if(evals, "evaluated");
    Ok(())
}
