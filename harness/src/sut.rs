//! Driving the compiler library.

use crate::engine::guard;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use ticc::{CompilationUnit, CompleteUnit, Diagnostic, ImportError, InterpretError, ModuleResolver, Options, Runner, Severity};

pub const RUNNERS: [Runner; 3] = [Runner::Treewalk, Runner::Lambda, Runner::Bytecode];

enum Slot {
    Busy,
    Done(CompleteUnit),
}

/// Modules held in memory, looked up by the exact import path.
pub struct Mem {
    pub files: HashMap<String, String>,
    pub options: Options,
    slots: Mutex<HashMap<String, Slot>>,
}

impl Mem {
    pub fn new(files: HashMap<String, String>, options: Options) -> Arc<Mem> {
        Arc::new(Mem { files, options, slots: Mutex::new(HashMap::new()) })
    }
}

impl ModuleResolver for Mem {
    fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ImportError> {
        let Some(text) = self.files.get(name).cloned() else { return Err(ImportError::DoesNotExist) };
        {
            let mut s = self.slots.lock().unwrap_or_else(|e| e.into_inner());
            match s.get(name) {
                Some(Slot::Busy) => return Err(ImportError::ImportCycle),
                Some(Slot::Done(u)) => return Ok(u.clone()),
                None => {
                    s.insert(name.to_owned(), Slot::Busy);
                }
            }
        }
        let unit = CompilationUnit::new(&text, self.options, self.clone()).complete();
        self.slots.lock().unwrap_or_else(|e| e.into_inner()).insert(name.to_owned(), Slot::Done(unit.clone()));
        Ok(unit)
    }
}

#[derive(Clone, Debug)]
pub struct Texts {
    pub root: String,
    pub files: HashMap<String, String>,
}

impl Texts {
    pub fn single(s: &str) -> Texts {
        Texts { root: s.to_owned(), files: HashMap::new() }
    }
    pub fn unit(&self, optimize: bool, verify: bool) -> CompilationUnit {
        let options = Options { verify, optimize };
        CompilationUnit::new(&self.root, options, Mem::new(self.files.clone(), options))
    }
    pub fn show(&self) -> String {
        let mut names: Vec<&String> = self.files.keys().collect();
        names.sort();
        let mut out = String::new();
        for n in names {
            out.push_str(&format!("==== {}\n{}", n, self.files[n]));
            if !out.ends_with('\n') {
                out.push('\n');
            }
        }
        if !out.is_empty() {
            out.push_str("==== (root)\n");
        }
        out.push_str(&self.root);
        out
    }
    pub fn diagnostics(&self) -> Result<Vec<Diagnostic>, String> {
        guard(|| self.unit(true, true).diagnostics().collect::<Vec<_>>())
    }
    pub fn errors(&self) -> Result<Vec<Diagnostic>, String> {
        Ok(self.diagnostics()?.into_iter().filter(|d| d.severity == Severity::Error).collect())
    }
    /// Exports, or the trap message.
    pub fn run(&self, r: Runner, optimize: bool) -> Result<Result<String, String>, String> {
        guard(|| self.unit(optimize, true).interpret(r).map_err(|t| t.message))
    }
    /// The same on every runner, from one compilation.
    pub fn run_all(&self, optimize: bool) -> Vec<(Runner, Result<Result<String, String>, String>)> {
        let mut u = match guard(|| self.unit(optimize, true)) {
            Ok(u) => u,
            Err(p) => return vec![(Runner::Treewalk, Err(p))],
        };
        let mut out = Vec::new();
        for r in RUNNERS {
            out.push((r, guard(|| u.interpret(r).map_err(|t| t.message))));
        }
        out
    }
    pub fn run_main(&self, r: Runner, optimize: bool, input: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
        guard(|| {
            self.unit(optimize, true).interpret_main(r, input).map_err(|e| match e {
                InterpretError::Trap(t) => format!("trap {}", t.message),
                e => e.to_string(),
            })
        })
    }
}

pub fn fmt_diags(text: &str, ds: &[Diagnostic]) -> String {
    ds.iter()
        .map(|d| {
            let (a, b) = (d.span.start().source_pos(), d.span.end().source_pos());
            format!("[{:?} {}..{} {:?}: {}]", d.severity, a, b, text.get(a..b).unwrap_or("<bad span>"), d.message)
        })
        .collect::<Vec<_>>()
        .join(" ")
}
