//! Editing sessions over documents that import each other.

use crate::choice::Src;
use crate::cli::Scratch;
use crate::engine::{generated, guard, Case, Prop};
use crate::lsp::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

pub const C19: Prop = Prop {
    id: "C19",
    quick: 4000,
    thorough: 200000,
    rule: "a session with three or more edits in which a document's diagnostics changed because of an edit to another document",
    assumptions: &[
        "the files on disk stay as they are during the session; a document that is not open is the file on disk",
        "names of files and directories are any characters but control characters, quotes and backslashes; the editor calls a document by the same URI throughout, whichever of its characters are percent-encoded",
        "the session goes through the built server over standard input and output",
    ],
    f: c19,
};

const PATHS: [&str; 20] = [
    "a.tic",
    "b",
    "lib/c.tic",
    "two words.tic",
    "é.tic",
    "lib/d",
    "lib/sub/e.tic",
    "a#.tic",
    "what?.tic",
    "two%20words.tic",
    "50%",
    "c#/f.tic",
    "lib (1)/f.tic",
    "c:d",
    "[x]+@!$&*,;=.tic",
    "c#/g h?/i",
    " a.tic",
    "b ",
    " c /d",
    "%20a.tic",
];

/// A reference from one document to another.
fn refer(src: &mut Src, from: &str, to: &str) -> String {
    let f: Vec<&str> = from.split('/').collect();
    let t: Vec<&str> = to.split('/').collect();
    let mut same = 0;
    while same + 1 < f.len() && same + 1 < t.len() && f[same] == t[same] {
        same += 1;
    }
    let mut segs: Vec<&str> = vec![".."; f.len() - 1 - same];
    segs.extend(&t[same..]);
    match src.weighted(&[70, 15, 10, 5]) {
        0 => {}
        1 => segs.insert(0, "."),
        2 => segs.insert(src.us(segs.len()), ""),
        _ => {
            let last = segs.len() - 1;
            segs.splice(last..last, ["sub", ".."]);
        }
    }
    segs.join("/")
}

/// A version of a document.
fn version(src: &mut Src, at: &str, docs: &[&str]) -> String {
    let mut s = String::new();
    let nl = if src.pct(85) { "\n" } else { "\r\n" };
    let mut have: Vec<String> = Vec::new();
    let n = *src.pick(&[0, 1, 1, 2, 3]);
    for i in 0..n {
        let to = if src.pct(8) { "missing" } else { *src.pick(docs) };
        if to == at && src.pct(60) {
            continue;
        }
        let r = refer(src, at, to);
        match src.us(3) {
            0 => {
                s.push_str(&format!("import M{} from \"{}\";", i, r));
                have.push(format!("M{}.v", i));
                have.push(format!("M{}.f", i));
                if src.pct(40) {
                    have.push(format!("M{}.K", i));
                }
            }
            1 => {
                let names = *src.pick(&["(v)", "(v, f)", "(T, f)", "(T, K, f)", "(f, w)"]);
                s.push_str(&format!("import N{} {} from \"{}\";", i, names, r));
                for x in ["v", "f", "w", "K"] {
                    if names.contains(x) {
                        have.push(x.to_owned());
                    }
                }
            }
            _ => {
                s.push_str(&format!("import P{} (v) from \"{}\";", i, r));
                have.push("v".to_owned());
                have.push(format!("P{}.f", i));
            }
        }
        s.push_str(nl);
    }
    if src.pct(60) {
        s.push_str(*src.pick(&["export type T = K | L int;", "export type T = K int;", "type T = K;", "export type T a = K a | L;"]));
        s.push_str(nl);
    }
    for name in ["v", "f", "w"] {
        if src.pct(25) {
            continue;
        }
        let body = if !have.is_empty() && src.pct(60) {
            let h = src.pick(&have).clone();
            match src.us(6) {
                0 => format!("({} + 1)", h),
                1 => format!("({} 0)", h),
                2 => format!("(if {} = 0 then 1 else 2)", h),
                3 => format!("(match {} with | K -> 1 | _ -> 2 end)", h),
                _ => h,
            }
        } else {
            (*src.pick(&["1", "\"é😀\"", "true", "\\x -> x + 1", "\\x -> x", "K", "\\t -> match t with | K -> 1 | L n -> n end"])).to_owned()
        };
        let ty = if src.pct(50) { format!(" : {}", src.pick(&["int", "string", "bool", "int -> int", "T", "T -> int"])) } else { String::new() };
        s.push_str(&format!("{}let {}{} = {};", if src.pct(80) { "export " } else { "" }, name, ty, body));
        s.push_str(nl);
    }
    if src.pct(10) {
        s.push_str(*src.pick(&["let", "import X from", "let q = (", "export type", "-- 😀 comment", "?", "let r = ?hole;"]));
    }
    s
}

#[derive(Clone)]
enum Op {
    Open(String, String),
    Change(String, Vec<String>),
    Close(String),
    Ask(String),
}

fn c19(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut docs: Vec<&str> = PATHS.to_vec();
    src.shuffle(&mut docs);
    docs.truncate(src.urange(1, 4));
    let mut disk: BTreeMap<String, String> = BTreeMap::new();
    for d in &docs {
        if src.pct(70) {
            disk.insert(d.to_string(), version(src, d, &docs));
        }
    }
    let mut open: BTreeMap<String, String> = BTreeMap::new();
    let mut ops: Vec<Op> = Vec::new();
    let mut old: HashMap<String, Vec<String>> = HashMap::new();
    let n = src.urange(2, 16);
    for _ in 0..n {
        let d = src.pick(&docs).to_string();
        let past = old.entry(d.clone()).or_default();
        if let Some(t) = disk.get(&d) {
            if !past.contains(t) {
                past.push(t.clone());
            }
        }
        let mut text = |src: &mut Src| -> String {
            // what the document was before, too
            let t = if !past.is_empty() && src.pct(35) { src.pick(past).clone() } else { version(src, &d, &docs) };
            past.push(t.clone());
            t
        };
        match open.contains_key(&d) {
            false => {
                let t = text(src);
                open.insert(d.clone(), t.clone());
                ops.push(Op::Open(d.clone(), t));
            }
            true => match src.weighted(&[70, 20, 10]) {
                0 => {
                    let k = *src.pick(&[1, 1, 1, 2, 3]);
                    let ts: Vec<String> = (0..k).map(|_| text(src)).collect();
                    open.insert(d.clone(), ts[k - 1].clone());
                    ops.push(Op::Change(d.clone(), ts));
                }
                1 => {
                    open.remove(&d);
                    ops.push(Op::Close(d.clone()));
                }
                _ => ops.push(Op::Ask(d.clone())),
            },
        }
    }
    let mut shown = String::new();
    for (d, t) in &disk {
        shown.push_str(&format!("==== {} on disk\n{}\n", d, t));
    }
    for op in &ops {
        match op {
            Op::Open(d, t) => shown.push_str(&format!("==== open {}\n{}\n", d, t)),
            Op::Change(d, ts) => shown.push_str(&format!("==== change {}\n{}\n", d, ts.join("\n---- then\n"))),
            Op::Close(d) => shown.push_str(&format!("==== close {}\n", d)),
            Op::Ask(d) => shown.push_str(&format!("==== ask about {}\n", d)),
        }
    }
    case.text = shown;
    // documents asked about in the end, and in which order a fresh session opens them
    let mut order: Vec<String> = open.keys().cloned().collect();
    src.shuffle(&mut order);
    let dir = Scratch::new();
    let uris: HashMap<String, String> = docs.iter().map(|d| (d.to_string(), uri_styled(&dir.path().join(d), src))).collect();
    case.text.push_str(&format!("==== URIs\n{:?}\n", docs.iter().map(|d| uris[*d].rsplit('/').take(3).collect::<Vec<_>>()).collect::<Vec<_>>()));
    generated(src);
    case.label_if(ops.iter().any(|o| matches!(o, Op::Close(_))), "close");
    case.label_if(ops.iter().any(|o| matches!(o, Op::Change(_, v) if v.len() > 1)), "several changes at once");

    for (n, text) in &disk {
        dir.write(n, text);
    }
    let u = |d: &str| uris.get(d).cloned().unwrap_or_else(|| uri(&dir.path().join(d)));
    let ask = |s: &mut Script, d: &str, text: &str| -> Vec<u64> {
        let mut ids = vec![s.tokens(&u(d))];
        for (k, _) in text.char_indices().filter(|(_, c)| c.is_alphanumeric()).step_by(9).take(8) {
            let (l, c) = to_lsp(text, k);
            for m in ["definition", "references", "hover", "completion"] {
                ids.push(s.at(m, &u(d), l, c));
            }
        }
        ids
    };

    let mut s = Script::new();
    let mut now: BTreeMap<String, String> = BTreeMap::new();
    let mut seen: Vec<(u64, BTreeMap<String, String>, Option<String>)> = Vec::new();
    for (k, op) in ops.iter().enumerate() {
        let mut closed = None;
        match op {
            Op::Open(d, t) => {
                s.open(&u(d), t);
                now.insert(d.clone(), t.clone());
            }
            Op::Change(d, ts) => {
                let ts: Vec<&str> = ts.iter().map(|t| &t[..]).collect();
                s.change(&u(d), k as u64 + 2, &ts);
                now.insert(d.clone(), ts[ts.len() - 1].to_owned());
            }
            Op::Close(d) => {
                s.close(&u(d));
                now.remove(d);
                closed = Some(d.clone());
            }
            Op::Ask(d) => {
                let t = now[d].clone();
                ask(&mut s, d, &t);
            }
        }
        // an answer marks the place in what the server says
        let mark = s.tokens(&u("nothing"));
        seen.push((mark, now.clone(), closed));
    }
    let mut ids = Vec::new();
    for (d, t) in &now {
        ids.push((d.clone(), ask(&mut s, d, t)));
    }
    let heard = s.run()?;

    // the compiler's own opinion after every step
    let mut before: BTreeMap<String, Value> = BTreeMap::new();
    let mut indirect = false;
    for (k, (mark, now, closed)) in seen.iter().enumerate() {
        let mut files: HashMap<String, String> = disk.clone().into_iter().collect();
        files.extend(now.clone());
        let mut after = BTreeMap::new();
        for (d, text) in now {
            let want = guard(|| {
                let docs = Docs::new(files.clone());
                let mut unit = docs.unit(d);
                let ds: Vec<ticc::Diagnostic> = unit.diagnostics().collect();
                assert!(!docs.odd());
                diagnostics(text, &ds)
            })
            .map_err(|p| format!("panic: {}", p))?;
            let got = heard.published(&u(d), Some(*mark)).cloned().unwrap_or(Value::Null);
            if got != want {
                return Err(format!("diagnostics after step {}: {}: {} instead of {}", k + 1, d, got, want));
            }
            let edited = matches!(&ops[k], Op::Open(e, _) | Op::Change(e, _) if e == d);
            indirect |= !edited && before.get(d).map_or(false, |b| *b != want);
            after.insert(d.clone(), want);
        }
        if let Some(d) = closed {
            let got = heard.published(&u(d), Some(*mark)).cloned().unwrap_or(Value::Null);
            if got != json!([]) {
                return Err(format!("closed document: {} still has diagnostics {} after step {}", d, got, k + 1));
            }
        }
        before = after;
    }
    let edits = ops.iter().filter(|o| !matches!(o, Op::Ask(_))).count();
    case.nontrivial = edits >= 3 && indirect;
    case.label_if(indirect, "effect on another document");
    // documents closed for good stay clear
    for d in docs.iter().filter(|d| !now.contains_key(**d)) {
        if heard.published(&u(d), None).map_or(false, |v| *v != json!([])) {
            return Err(format!("closed document: {} has diagnostics in the end", d));
        }
    }

    // a fresh session that knows only the current texts
    let mut f = Script::new();
    for d in &order {
        f.open(&u(d), &now[d]);
    }
    let mut fresh_ids = Vec::new();
    for (d, t) in &now {
        fresh_ids.push((d.clone(), ask(&mut f, d, t)));
    }
    let fresh = f.run()?;
    for (d, _) in &now {
        let (a, b) = (heard.published(&u(d), None), fresh.published(&u(d), None));
        if a != b {
            return Err(format!("fresh session: diagnostics of {} are {:?} instead of {:?}", d, a, b));
        }
    }
    for ((d, a), (_, b)) in ids.iter().zip(&fresh_ids) {
        for (n, (a, b)) in a.iter().zip(b).enumerate() {
            let (a, b) = (heard.answer(*a), fresh.answer(*b));
            if a.is_none() || a != b {
                return Err(format!("fresh session: answer {} about {} is {:?} instead of {:?}", n, d, a, b));
            }
        }
    }
    Ok(())
}
