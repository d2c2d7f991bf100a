//! Positions of the editor and of the compiler.

use crate::choice::Src;
use crate::cli::Scratch;
use crate::engine::{generated, guard, Case, Prop};
use crate::gen::{program, Cfg};
use crate::lsp::*;
use crate::print::{Layout, Style};
use crate::texts::weird;
use serde_json::{json, Value};
use ticc::Pos;

pub const C20: Prop = Prop {
    id: "C20",
    quick: 5000,
    thorough: 200000,
    rule: "a document of two or more lines with a character outside of ASCII or a CRLF line end, asked about at 10 or more positions",
    assumptions: &[
        "lines end in LF or CRLF; a carriage return on its own is not generated",
        "requests go through the built server over standard input and output",
    ],
    f: c20,
};

fn c20(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let t = if src.pct(65) {
        let cfg = Cfg { modules: *src.pick(&[(0, 0), (0, 2)]), items: (1, 6), fuel: *src.pick(&[10, 20]), ..Cfg::default() };
        let pg = program(src, cfg);
        let mut lay = Layout::random(src);
        lay.unicode = src.pct(80);
        lay.comments |= lay.unicode;
        let r = pg.render(&Style::default(), lay, src);
        case.label("program");
        r.texts
    } else {
        let (t, k) = weird(src, 60);
        case.label(k);
        t
    };
    let mut t = t;
    // text in front of names on the same line
    let n = src.us(5);
    for _ in 0..n {
        let ls = lines(&t.root);
        let &(a, _) = src.pick(&ls);
        let c = *src.pick(&["😀", "é", "語", "\"😀é\"", "\"語\" ", "-- 😀\n", "-- 😀\r\n", "𝒳", " "]);
        let mut at = (a + src.us(12)).min(t.root.len());
        while !t.root.is_char_boundary(at) {
            at -= 1;
        }
        t.root.insert_str(if src.pct(50) { a } else { at }, c);
    }
    // carriage returns only before line feeds
    let mut clean = String::new();
    let mut cs = t.root.chars().peekable();
    while let Some(c) = cs.next() {
        if c != '\r' || cs.peek() == Some(&'\n') {
            clean.push(c);
        }
    }
    t.root = clean;
    let text = t.root.clone();
    let ls = lines(&text);
    let mut asks: Vec<(u64, u64)> = Vec::new();
    for _ in 0..14 {
        let line = src.us(ls.len());
        let (a, b) = ls[line];
        let len = text[a..b].encode_utf16().count() as u64;
        let p = match src.weighted(&[60, 20, 5, 5, 10]) {
            0 => (line as u64, src.below(len + 1)),
            // past the end of the line
            1 => (line as u64, len + src.below(3)),
            2 => (line as u64, *src.pick(&[len + 100, 4_000_000_000])),
            3 => (ls.len() as u64 + src.below(3), src.below(10)),
            // inside of a wide character
            _ => {
                let wide: Vec<usize> = text[a..b].char_indices().filter(|(_, c)| c.len_utf16() == 2).map(|(i, _)| i).collect();
                if wide.is_empty() {
                    (line as u64, src.below(len + 1))
                } else {
                    let i = *src.pick(&wide);
                    (line as u64, text[a..a + i].encode_utf16().count() as u64 + 1)
                }
            }
        };
        asks.push(p);
    }
    case.text = t.show();
    generated(src);
    case.nontrivial = ls.len() >= 2 && (!text.is_ascii() || text.contains("\r\n"));
    case.label_if(text.chars().any(|c| c.len_utf16() == 2), "surrogate pairs");
    case.label_if(text.contains("\r\n"), "CRLF");

    let dir = Scratch::new();
    for (n, text) in &t.files {
        dir.write(n, text);
    }
    let doc = uri(&dir.path().join("root.tic"));
    let mut s = Script::new();
    s.open(&doc, &text);
    let tok = s.tokens(&doc);
    const METHODS: [&str; 6] = ["definition", "declaration", "references", "references+", "hover", "completion"];
    let mut ids = Vec::new();
    for &(l, c) in &asks {
        ids.push(METHODS.map(|m| s.at(m, &doc, l, c)));
    }
    let heard = s.run()?;

    let mut files = t.files.clone();
    files.insert("root.tic".to_owned(), text.clone());
    let docs = Docs::new(files);
    let mut u = guard(|| docs.unit("root.tic")).map_err(|p| format!("panic: {}", p))?;
    let ds: Vec<ticc::Diagnostic> = guard(|| u.diagnostics().collect()).map_err(|p| format!("panic: {}", p))?;
    let want = diagnostics(&text, &ds);
    let got = heard.published(&doc, None).cloned().unwrap_or(Value::Null);
    if docs.odd() {
        case.label("odd import");
        return case.discard();
    }
    if got != want {
        return Err(format!("diagnostics: {} instead of {}", got, want));
    }
    let ts: Vec<ticc::Token> = guard(|| u.tokens().collect()).map_err(|p| format!("panic: {}", p))?;
    let want = tokens(&text, &ts);
    let got = decode(heard.answer(tok).unwrap_or(&Value::Null));
    if want != got {
        let k = (0..).find(|&k| want.get(k) != got.get(k)).unwrap();
        return Err(format!("semantic tokens: number {} is {:?} instead of {:?}", k, got.get(k), want.get(k)));
    }
    let mut answers = 0;
    for (&(l, c), ids) in asks.iter().zip(&ids) {
        let at = to_offset(&text, l, c);
        let p = Pos::new(at as u32);
        let loc = |s: ticc::Span| json!({"uri": doc, "range": range(&text, s)});
        let def = guard(|| u.find_definition(p)).map_err(|p| format!("panic: {}", p))?;
        let refs = guard(|| u.find_references(p)).map_err(|p| format!("panic: {}", p))?;
        let info = guard(|| u.info(p)).map_err(|p| format!("panic: {}", p))?;
        let comp = guard(|| u.completions(p)).map_err(|p| format!("panic: {}", p))?;
        let def_v = def.map(loc).unwrap_or(Value::Null);
        let refs_v = refs.clone().map(|v| v.into_iter().map(loc).collect::<Vec<_>>());
        let with = refs_v.clone().map(|mut v| {
            v.extend(def.map(loc));
            v
        });
        let set = |v: Option<Vec<Value>>| match v {
            None => Value::Null,
            Some(mut v) => {
                v.sort_by_key(|x| x.to_string());
                Value::Array(v)
            }
        };
        let info_v = info.map(|i| json!({"contents": i.doc, "range": range(&text, i.span)})).unwrap_or(Value::Null);
        let comp_v = comp.map(|v| Value::Array(v.into_iter().map(|c| json!({"label": c.name})).collect())).unwrap_or(Value::Null);
        let want = [def_v.clone(), def_v, set(refs_v), set(with), info_v, comp_v];
        for ((id, m), want) in ids.iter().zip(METHODS).zip(want) {
            let Some(got) = heard.answer(*id) else { return Err(format!("{}: no answer at {}:{}", m, l, c)) };
            let got = if m.starts_with("references") { set(got.as_array().cloned()) } else { got.clone() };
            answers += usize::from(!want.is_null());
            if got != want {
                return Err(format!("{}: at {}:{} (offset {}): {} instead of {}", m, l, c, at, got, want));
            }
        }
    }
    case.label_if(answers > 0, "some answers");
    Ok(())
}
