//! The front end on any text.

use crate::choice::Src;
use crate::engine::{generated, guard, Case, Prop};
use crate::texts::weird;
use ticc::{CompilationUnit, Pos, Span};

pub const C08: Prop = Prop {
    id: "C08",
    quick: 30000,
    thorough: 1500000,
    rule: "a text of ten or more characters that has at least one error or comes from a damaged program; every query is asked at every byte offset of it",
    assumptions: &["nesting is bounded by the stack of the host: texts here nest up to about 60 levels"],
    f: c08,
};

fn span_ok(text: &str, s: Span, what: &str) -> Result<(), String> {
    let (a, b) = (s.start().source_pos(), s.end().source_pos());
    if a > b || b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
        return Err(format!("bad span from {}: {}..{} in {} bytes", what, a, b, text.len()));
    }
    Ok(())
}

fn query(u: &mut CompilationUnit, text: &str, kind: usize, at: usize) -> Result<usize, String> {
    let pos = Pos::new(at as u32);
    let mut n = 0;
    match kind {
        0 => {
            for d in guard(|| u.diagnostics().collect::<Vec<_>>()).map_err(|p| format!("panic in diagnostics: {}", p))? {
                span_ok(text, d.span, "diagnostics")?;
                n += 1;
            }
        }
        1 => {
            for t in guard(|| u.tokens().collect::<Vec<_>>()).map_err(|p| format!("panic in tokens: {}", p))? {
                span_ok(text, t.span, "tokens")?;
                n += 1;
            }
        }
        2 => {
            if let Some(s) = guard(|| u.find_definition(pos)).map_err(|p| format!("panic in find_definition: {} at {}", p, at))? {
                span_ok(text, s, "definition")?;
                n += 1;
            }
        }
        3 => {
            for s in guard(|| u.find_references(pos)).map_err(|p| format!("panic in find_references: {} at {}", p, at))?.unwrap_or_default() {
                span_ok(text, s, "references")?;
                n += 1;
            }
        }
        4 => {
            if let Some(i) = guard(|| u.info(pos)).map_err(|p| format!("panic in info: {} at {}", p, at))? {
                span_ok(text, i.span, "info")?;
                n += 1;
            }
        }
        _ => {
            n += guard(|| u.completions(pos)).map_err(|p| format!("panic in completions: {} at {}", p, at))?.unwrap_or_default().len();
        }
    }
    Ok(n)
}

fn c08(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let (t, kind) = weird(src, 40);
    case.text = t.show();
    case.label(kind);
    let text = t.root.as_str();
    // what is asked first matters to what has been compiled already
    let first: Vec<(usize, usize)> = (0..src.us(3)).map(|_| (src.us(6), src.us(text.len() + 3))).collect();
    generated(src);
    let mut u = guard(|| t.unit(false, true)).map_err(|p| format!("panic in new: {}", p))?;
    for (k, at) in first {
        query(&mut u, text, k, at)?;
    }
    let errors = query(&mut u, text, 0, 0)?;
    let tokens = query(&mut u, text, 1, 0)?;
    let mut answers = 0;
    for at in 0..=text.len() {
        for k in 2..6 {
            answers += query(&mut u, text, k, at)?;
        }
    }
    for (k, at) in [(2, text.len() + 1), (3, text.len() + 7), (4, text.len() + 1), (5, text.len() + 2)] {
        query(&mut u, text, k, at)?;
    }
    case.nontrivial = text.chars().count() >= 10 && (errors > 0 || kind != "well-formed") && tokens > 0;
    case.label_if(answers > 20, "answers");
    case.label_if(!text.is_ascii(), "not ASCII");
    Ok(())
}
