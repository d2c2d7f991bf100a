//! The language server answers every request, exactly once, whatever it is told.

use crate::choice::Src;
use crate::cli::Scratch;
use crate::gen::Cfg;
use crate::engine::{generated, Case, Prop};
use crate::lsp::*;
use crate::texts;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const C28: Prop = Prop {
    id: "C28",
    quick: 5000,
    thorough: 200000,
    rule: "a session with ten or more messages that has a request about an open document and something the server has no use for: an unsupported method, a document that is not open or not a file, a stray response, a position outside the text",
    assumptions: &[
        "messages are well-formed JSON-RPC, with parameters of the shape the protocol gives them",
        "changes carry the full text, as the server asks for",
    ],
    f: c28,
};

const SUPPORTED: [&str; 6] = ["definition", "declaration", "references", "references+", "hover", "completion"];
const OTHER: [&str; 8] = [
    "textDocument/documentSymbol",
    "textDocument/formatting",
    "workspace/symbol",
    "textDocument/rename",
    "$/whatever",
    "textDocument/semanticTokens/range",
    "completionItem/resolve",
    "textDocument/hover/extra",
];

fn c28(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let dir = Scratch::new();
    let file = |n: &str| uri(&dir.path().join(n));
    let docs = [
        file("a.tic"),
        file("b.tic"),
        file("\u{e9} x.tic"),
        "untitled:Untitled-1".to_owned(),
        "file:///".to_owned(),
        "vscode-notebook-cell:/x/y.ipynb#W2".to_owned(),
        "http://localhost/a.tic".to_owned(),
        file("lib/../c.tic?x=1#top"),
    ];
    let n_docs = src.urange(1, docs.len());
    let on_disk = src.pct(30);
    if on_disk {
        dir.write("b.tic", "export let v : int = 1;\n");
    }
    let mut texts: BTreeMap<String, String> = BTreeMap::new();
    let mut shown = String::new();
    let mut s = Script::new();
    // id, what was asked, supported
    let mut asked: Vec<(Value, String, bool, bool)> = Vec::new();
    let n = src.urange(3, 24);
    let (mut about_open, mut odd) = (false, false);
    let mut version = 1;
    for _ in 0..n {
        let d = docs[src.us(n_docs)].clone();
        let is_open = texts.contains_key(&d);
        let text = |src: &mut Src| match src.weighted(&[35, 25, 20, 20]) {
            0 => texts::good(src, Cfg { items: (1, 5), fuel: 12, std: 15, ..Cfg::default() }).0.root,
            1 => texts::soup(src, 40),
            2 => format!("import m from \"{}\";\nexport let w : int = m.v;", src.pick(&["b.tic", "./a.tic", "..", "", "untitled:Untitled-1", "http://localhost/a.tic", "%zz", "//", "nul\u{0}l", "a.tic?", "#", "b.tic#x", "\u{e9} x.tic", "file:///etc"])),
            _ => texts::weird(src, 40).0.root,
        };
        match src.weighted(&[20, 16, 6, 34, 10, 6, 4, 4]) {
            0 => {
                let t = text(src);
                shown.push_str(&format!("open {} {:?}\n", d, t));
                odd |= is_open;
                s.open(&d, &t);
                texts.insert(d, t);
            }
            1 => {
                version += 1;
                let k = *src.pick(&[1, 1, 0, 2]);
                let ts: Vec<String> = (0..k).map(|_| text(src)).collect();
                shown.push_str(&format!("change {} {:?}\n", d, ts));
                odd |= !is_open;
                let ts: Vec<&str> = ts.iter().map(|t| &t[..]).collect();
                s.change(&d, version, &ts);
                if let (true, Some(t)) = (is_open, ts.last()) {
                    texts.insert(d, (*t).to_owned());
                }
            }
            2 => {
                shown.push_str(&format!("close {}\n", d));
                odd |= !is_open;
                s.close(&d);
                texts.remove(&d);
            }
            k @ (3 | 4) => {
                let (l, c) = match (texts.get(&d), k) {
                    (Some(t), 3) if !t.is_empty() => {
                        let at = src.us(t.len());
                        let at = (0..=at).rev().find(|&i| t.is_char_boundary(i)).unwrap();
                        to_lsp(t, at)
                    }
                    _ => {
                        odd = true;
                        (*src.pick(&[0, 1, 7, 1000, u64::from(u32::MAX)]), *src.pick(&[0, 1, 80, u64::from(u32::MAX)]))
                    }
                };
                about_open |= is_open;
                odd |= !is_open;
                let m = *src.pick(&SUPPORTED);
                let id = if src.pct(25) { json!(s.tokens(&d)) } else { json!(s.at(m, &d, l, c)) };
                shown.push_str(&format!("ask {} {} {}:{}\n", m, d, l, c));
                asked.push((id, m.to_owned(), true, is_open));
            }
            5 => {
                odd = true;
                let m = *src.pick(&OTHER);
                let p = match src.us(3) {
                    0 => json!({"textDocument": {"uri": d}}),
                    1 => Value::Null,
                    _ => json!([1, {"x": "\u{e9}"}]),
                };
                shown.push_str(&format!("ask {} {}\n", m, d));
                let id = if src.pct(50) { json!(s.request(m, p)) } else { s.request_named(m, p) };
                asked.push((id, m.to_owned(), false, is_open));
            }
            6 => {
                odd = true;
                let m = *src.pick(&["$/cancelRequest", "$/setTrace", "workspace/didChangeConfiguration", "textDocument/didSave", "textDocument/willSave", "initialized", "x"]);
                shown.push_str(&format!("tell {}\n", m));
                s.notify(m, if m == "$/cancelRequest" { json!({"id": 3}) } else { json!({"textDocument": {"uri": d}}) });
            }
            _ => {
                odd = true;
                shown.push_str("stray response\n");
                s.stray(src.below(50), src.pct(50));
            }
        }
    }
    case.text = shown;
    generated(src);
    case.nontrivial = n >= 10 && about_open && odd;
    case.label_if(asked.iter().any(|a| !a.2), "unsupported method");
    case.label_if(docs[3..n_docs.max(3)].iter().any(|d| case.text.contains(&**d)), "not a plain file");
    let heard = s.run()?;
    let mut ids: BTreeSet<String> = BTreeSet::new();
    for m in &heard.msgs {
        if m["jsonrpc"] != "2.0" {
            return Err(format!("not a message of the protocol: {}", m));
        }
        match m.get("method") {
            Some(x) if x == "textDocument/publishDiagnostics" => {
                if m["params"]["uri"].as_str().is_none() || !m["params"]["diagnostics"].is_array() {
                    return Err(format!("malformed diagnostics: {}", m));
                }
            }
            Some(x) => return Err(format!("unexpected message: {}", x)),
            None => {
                if !ids.insert(m["id"].to_string()) {
                    return Err(format!("two answers: to request {}", m["id"]));
                }
            }
        }
    }
    // the first request and the last are the ones that begin and end the session
    if ids.len() != asked.len() + 2 {
        let first = asked.iter().find(|a| !ids.contains(&a.0.to_string()));
        return Err(match first {
            Some(a) => format!("request without an answer: {} ({})", a.1, a.0),
            None => format!("answers nobody asked for: {} instead of {}", ids.len(), asked.len() + 2),
        });
    }
    for (id, what, supported, open) in &asked {
        let Some(m) = heard.msgs.iter().find(|m| m["id"] == *id && m.get("method").is_none()) else {
            return Err(format!("request without an answer: {} ({})", what, id));
        };
        let has = |k: &str| m.get(k).map(|v| !v.is_null()).unwrap_or(false);
        if *supported {
            if has("error") {
                return Err(format!("request fails: {} with {}", what, m["error"]));
            }
            if !open && has("result") {
                return Err(format!("answer about a document that is not open: {} {}", what, m["result"]));
            }
        } else if !has("error") || m["error"]["code"] != json!(-32601) || has("result") {
            return Err(format!("unsupported method is not refused: {} {}", what, m));
        }
    }
    Ok(())
}
