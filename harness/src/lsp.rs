//! Sessions with the language server, over its standard input and output.

use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use ticc::{CompilationUnit, CompleteUnit, ImportError, ModuleResolver};
use std::io::Write;
use std::process::Stdio;

pub fn uri(path: &std::path::Path) -> String {
    let mut s = String::from("file://");
    for b in path.to_string_lossy().bytes() {
        if b.is_ascii_alphanumeric() || b"/-_.~".contains(&b) {
            s.push(b as char);
        } else {
            s.push_str(&format!("%{:02X}", b));
        }
    }
    s
}

/// Any other way to write the URI of a file.
pub fn uri_styled(path: &std::path::Path, src: &mut crate::choice::Src) -> String {
    let mut s = String::from("file://");
    let (rare, lower) = (*src.pick(&[0, 0, 3]), src.pct(30));
    let plain = src.pct(50);
    for b in path.to_string_lossy().bytes() {
        let keep = match b {
            b'/' => true,
            b if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) => rare == 0 || !src.pct(rare),
            b if b"()+@!$&*,;=:[]".contains(&b) => plain,
            _ => false,
        };
        if keep {
            s.push(b as char);
        } else if lower {
            s.push_str(&format!("%{:02x}", b));
        } else {
            s.push_str(&format!("%{:02X}", b));
        }
    }
    s
}

#[derive(Default)]
pub struct Script {
    out: Vec<u8>,
    next: u64,
}

/// Everything the server said, in order.
pub struct Heard {
    pub msgs: Vec<Value>,
    pub stderr: String,
}

impl Script {
    pub fn new() -> Script {
        let mut s = Script { out: Vec::new(), next: 1 };
        s.request("initialize", json!({"processId": null, "rootUri": null, "capabilities": {}}));
        s.notify("initialized", json!({}));
        s
    }
    fn send(&mut self, v: Value) {
        let t = v.to_string();
        self.out.extend_from_slice(format!("Content-Length: {}\r\n\r\n{}", t.len(), t).as_bytes());
    }
    pub fn request(&mut self, method: &str, params: Value) -> u64 {
        let id = self.next;
        self.next += 1;
        self.send(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}));
        id
    }
    /// The same under an id that is a string.
    pub fn request_named(&mut self, method: &str, params: Value) -> Value {
        let id = json!(format!("r-{}", self.next));
        self.next += 1;
        self.send(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}));
        id
    }
    /// An answer to a question the server never asked.
    pub fn stray(&mut self, id: u64, fails: bool) {
        if fails {
            self.send(json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32601, "message": "no"}}));
        } else {
            self.send(json!({"jsonrpc": "2.0", "id": id, "result": null}));
        }
    }
    pub fn notify(&mut self, method: &str, params: Value) {
        self.send(json!({"jsonrpc": "2.0", "method": method, "params": params}));
    }
    pub fn open(&mut self, uri: &str, text: &str) {
        self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "tic", "version": 1, "text": text}}));
    }
    pub fn change(&mut self, uri: &str, version: u64, texts: &[&str]) {
        let ch: Vec<Value> = texts.iter().map(|t| json!({ "text": t })).collect();
        self.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": ch}));
    }
    pub fn close(&mut self, uri: &str) {
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}));
    }
    pub fn at(&mut self, method: &str, uri: &str, line: u64, ch: u64) -> u64 {
        let mut p = json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": ch}});
        match method {
            "references" => p["context"] = json!({"includeDeclaration": false}),
            "references+" => p["context"] = json!({"includeDeclaration": true}),
            _ => {}
        }
        self.request(&format!("textDocument/{}", method.trim_end_matches('+')), p)
    }
    pub fn tokens(&mut self, uri: &str) -> u64 {
        self.request("textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri}}))
    }
    /// Runs the session to its regular end.
    pub fn run(mut self) -> Result<Heard, String> {
        let last = self.request("shutdown", Value::Null);
        self.notify("exit", Value::Null);
        let mut child = crate::cli::command(crate::cli::bin("ticc-lsp"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("cannot run ticc-lsp");
        let mut stdin = child.stdin.take().unwrap();
        let out = std::mem::take(&mut self.out);
        let w = std::thread::spawn(move || {
            let _ = stdin.write_all(&out);
        });
        let o = child.wait_with_output().expect("cannot run ticc-lsp");
        let _ = w.join();
        let stderr = String::from_utf8_lossy(&o.stderr).into_owned();
        let mut msgs: Vec<Value> = Vec::new();
        let mut rest = &o.stdout[..];
        while !rest.is_empty() {
            let Some(h) = rest.windows(4).position(|w| w == b"\r\n\r\n") else { break };
            let head = String::from_utf8_lossy(&rest[..h]).into_owned();
            let n: usize = head.lines().find_map(|l| l.strip_prefix("Content-Length: ")).and_then(|s| s.trim().parse().ok()).unwrap_or(0);
            let body = &rest[h + 4..(h + 4 + n).min(rest.len())];
            match serde_json::from_slice(body) {
                Ok(v) => msgs.push(v),
                Err(e) => return Err(format!("malformed message: {}: {:?}", e, String::from_utf8_lossy(body))),
            }
            rest = &rest[(h + 4 + n).min(rest.len())..];
        }
        if !msgs.iter().any(|m| m["id"] == json!(last)) || o.status.code() != Some(0) {
            let why: Vec<&str> = stderr.lines().filter(|l| !l.starts_with("got ") && !l.starts_with("will resend")).take(4).collect();
            use std::os::unix::process::ExitStatusExt;
            if matches!(o.status.signal(), Some(9 | 24)) {
                return Err("server does not answer".into());
            }
            return Err(format!("server stopped: exit code {:?}, {}", o.status.code(), why.join(" / ")));
        }
        Ok(Heard { msgs, stderr })
    }
}

impl Heard {
    pub fn answer(&self, id: u64) -> Option<&Value> {
        self.msgs.iter().find(|m| m["id"] == json!(id) && m.get("method").is_none()).map(|m| &m["result"])
    }
    /// Diagnostics published last for a document; only what came before the answer to `until`.
    pub fn published(&self, uri: &str, until: Option<u64>) -> Option<&Value> {
        let n = match until {
            Some(id) => self.msgs.iter().position(|m| m["id"] == json!(id) && m.get("method").is_none()).unwrap_or(self.msgs.len()),
            None => self.msgs.len(),
        };
        self.msgs[..n].iter().rev().find(|m| m["method"] == "textDocument/publishDiagnostics" && m["params"]["uri"] == uri).map(|m| &m["params"]["diagnostics"])
    }
}

// ------------------------------------------------------------------ positions

/// Lines without their ends, by where they start and end.
pub fn lines(text: &str) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut a = 0;
    loop {
        match text[a..].find('\n') {
            Some(n) => {
                let end = a + n;
                let cut = if end > a && text.as_bytes()[end - 1] == b'\r' { end - 1 } else { end };
                out.push((a, cut));
                a = end + 1;
            }
            None => {
                out.push((a, text.len()));
                return out;
            }
        }
    }
}

pub fn to_lsp(text: &str, at: usize) -> (u64, u64) {
    let line = text[..at].matches('\n').count();
    let start = text[..at].rfind('\n').map_or(0, |i| i + 1);
    (line as u64, text[start..at].encode_utf16().count() as u64)
}

pub fn to_offset(text: &str, line: u64, ch: u64) -> usize {
    let ls = lines(text);
    let Some(&(a, b)) = ls.get(line as usize) else { return text.len() };
    let mut n = 0u64;
    for (i, c) in text[a..b].char_indices() {
        if n + c.len_utf16() as u64 > ch {
            return a + i;
        }
        n += c.len_utf16() as u64;
    }
    b
}

pub fn range(text: &str, s: ticc::Span) -> Value {
    let (a, b) = (to_lsp(text, s.start().source_pos()), to_lsp(text, s.end().source_pos()));
    json!({"start": {"line": a.0, "character": a.1}, "end": {"line": b.0, "character": b.1}})
}

pub fn diagnostics(text: &str, ds: &[ticc::Diagnostic]) -> Value {
    Value::Array(
        ds.iter()
            .map(|d| {
                let sev = match d.severity {
                    ticc::Severity::Error => 1,
                    ticc::Severity::Warning => 2,
                };
                json!({"range": range(text, d.span), "severity": sev, "source": "ticc", "message": d.message})
            })
            .collect(),
    )
}

/// (line, character, length, type) of every token
pub fn decode(data: &Value) -> Vec<(u64, u64, u64, u64)> {
    let ns: Vec<u64> = data["data"].as_array().map(|a| a.iter().map(|v| v.as_u64().unwrap_or(9999)).collect()).unwrap_or_default();
    let (mut l, mut c) = (0, 0);
    ns.chunks(5)
        .map(|t| {
            if t[0] > 0 {
                c = 0;
            }
            l += t[0];
            c += t[1];
            (l, c, t[2], t[3])
        })
        .collect()
}

pub fn tokens(text: &str, ts: &[ticc::Token]) -> Vec<(u64, u64, u64, u64)> {
    ts.iter()
        .map(|t| {
            let (a, b) = (t.span.start().source_pos(), t.span.end().source_pos());
            let at = to_lsp(text, a);
            let kind = match format!("{:?}", t.kind).as_str() {
                "Keyword" => 0,
                "Type" | "Ctor" => 1,
                "Value" => 2,
                "Function" => 3,
                "Operator" => 4,
                "Punctuation" => 5,
                "Number" => 6,
                "Comment" => 7,
                "TypeVariable" => 8,
                "String" => 9,
                k => panic!("token kind {}", k),
            };
            (at.0, at.1, text[a..b].encode_utf16().count() as u64, kind)
        })
        .collect()
}

// ------------------------------------------------------------------ imports

/// Documents by their path below one directory, imported the way a reference in a page is.
pub struct Docs {
    files: HashMap<String, String>,
    units: Mutex<HashMap<String, Option<CompleteUnit>>>,
    odd: AtomicBool,
}

struct Within {
    docs: Arc<Docs>,
    at: String,
}

impl Docs {
    pub fn new(files: HashMap<String, String>) -> Arc<Docs> {
        Arc::new(Docs { files, units: Mutex::new(HashMap::new()), odd: AtomicBool::new(false) })
    }
    /// The document compiled as the root.
    pub fn unit(self: &Arc<Docs>, path: &str) -> CompilationUnit {
        let mut m = self.units.lock().unwrap_or_else(|e| e.into_inner());
        m.clear();
        m.insert(path.to_owned(), None);
        drop(m);
        CompilationUnit::new(&self.files[path], ticc::Options::default(), Arc::new(Within { docs: self.clone(), at: path.to_owned() }))
    }
    /// Whether a name was imported that means something special in a reference.
    pub fn odd(&self) -> bool {
        self.odd.load(Ordering::SeqCst)
    }
}

impl ModuleResolver for Within {
    fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ImportError> {
        if name.contains(['\t', '\n', '\r']) || name.is_empty() || name.ends_with(['.', '/']) {
            self.docs.odd.store(true, Ordering::SeqCst);
        }
        let mut segs: Vec<&str> = self.at.split('/').collect();
        segs.pop();
        for s in name.split('/') {
            match s {
                "" | "." => {}
                ".." => {
                    if segs.pop().is_none() {
                        self.docs.odd.store(true, Ordering::SeqCst);
                    }
                }
                s => segs.push(s),
            }
        }
        let path = segs.join("/");
        let Some(text) = self.docs.files.get(&path) else { return Err(ImportError::DoesNotExist) };
        {
            let mut m = self.docs.units.lock().unwrap_or_else(|e| e.into_inner());
            match m.get(&path) {
                Some(None) => return Err(ImportError::ImportCycle),
                Some(Some(u)) => return Ok(u.clone()),
                None => {
                    m.insert(path.clone(), None);
                }
            }
        }
        let within = Arc::new(Within { docs: self.docs.clone(), at: path.clone() });
        let unit = CompilationUnit::new(text, ticc::Options::default(), within).complete();
        self.docs.units.lock().unwrap_or_else(|e| e.into_inner()).insert(path, Some(unit.clone()));
        Ok(unit)
    }
}
