//! The command line tool.

use super::c04::mutate;
use crate::choice::Src;
use crate::cli::{ticc, Scratch};
use crate::engine::{generated, guard, Case, Prop};
use crate::eval::{Eval, Stop};
use crate::gen::{program, Cfg};
use crate::print::{layout, Laid, Layout, Style, Tok, TK};
use crate::sut::{Texts, RUNNERS};
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::process::{Command, Stdio};
use ticc::{Diagnostic, Severity};

pub const C25: Prop = Prop {
    id: "C25",
    quick: 8000,
    thorough: 150000,
    rule: "a program of two or more modules in directories of their own, or one with an error, or one whose results were delivered",
    assumptions: &[
        "import paths are relative and separated by `/`; symbolic links are not generated",
        "standard output receives the result as UTF-8 text followed by a line break, a file receives its bytes; a trap is printed as `error: ...`",
        "when an imported module has errors the diagnostics of one such module are printed, otherwise those of the program itself",
    ],
    f: c25,
};

const DIRS: &[&str] = &["", "", "a", "a/b", "c d", "é", "std", "a/b/c", "..x", "a.tic"];
const FILES: &[&str] = &["", ".tic", " x", ".é", "..", "-"];

/// `to` as seen from the directory `from`.
fn relative(from: &str, to: &str, dirs: &[String], src: &mut Src) -> String {
    let f: Vec<&str> = from.split('/').filter(|s| !s.is_empty()).collect();
    let t: Vec<&str> = to.split('/').collect();
    let common = f.iter().zip(&t[..t.len() - 1]).take_while(|(a, b)| a == b).count();
    let keep = if common > 0 && src.pct(30) { src.us(common + 1) } else { common };
    let mut segs: Vec<String> = vec!["..".to_string(); f.len() - keep];
    segs.extend(t[keep..].iter().map(|s| s.to_string()));
    // more ways to say the same
    for _ in 0..src.weighted(&[50, 30, 20]) {
        let at = src.us(segs.len());
        match src.below(3) {
            0 => segs.insert(at, ".".into()),
            1 => {
                // down into a directory and up again
                let here = resolve(from, &segs[..at]);
                let below: Vec<&String> = dirs.iter().filter(|d| parent(d) == here && !d.is_empty()).collect();
                if !below.is_empty() {
                    let d = src.pick(&below).rsplit('/').next().unwrap().to_string();
                    segs.insert(at, "..".into());
                    segs.insert(at, d);
                }
            }
            _ => {
                if at > 0 {
                    segs.insert(at, "".into());
                }
            }
        }
    }
    let s = segs.join("/");
    if s.starts_with("std/") && crate::stdlib::STD.iter().any(|(p, _)| *p == s) {
        return format!("./{}", s);
    }
    s
}

fn parent(d: &str) -> String {
    match d.rfind('/') {
        Some(i) => d[..i].to_string(),
        None => "".to_string(),
    }
}

fn resolve(from: &str, segs: &[String]) -> String {
    let mut v: Vec<&str> = from.split('/').filter(|s| !s.is_empty()).collect();
    for s in segs {
        match s.as_str() {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            s => v.push(s),
        }
    }
    v.join("/")
}

fn plain(s: &[u8]) -> String {
    let s = String::from_utf8_lossy(s);
    let mut out = String::new();
    let mut cs = s.chars();
    while let Some(c) = cs.next() {
        if c == '\u{1b}' {
            for c in cs.by_ref() {
                if c == 'm' {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// (severity and message, path, line, column)
fn printed(err: &str) -> Vec<(String, String, usize, usize)> {
    let ls: Vec<&str> = err.lines().collect();
    let mut out = Vec::new();
    for (i, l) in ls.iter().enumerate() {
        let t = l.trim_start();
        if let Some(at) = t.strip_prefix("--> ") {
            if i == 0 {
                continue;
            }
            let mut r = at.rsplitn(3, ':');
            let col = r.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            let line = r.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            out.push((ls[i - 1].to_string(), r.next().unwrap_or("").to_string(), line, col));
        }
    }
    out
}

fn expected(text: &str, ds: &[Diagnostic]) -> Vec<(String, usize, usize)> {
    let mut v: Vec<(String, usize, usize)> = ds
        .iter()
        .map(|d| {
            let at = d.span.start().source_pos();
            let line = text[..at].matches('\n').count() + 1;
            let start = text[..at].rfind('\n').map_or(0, |i| i + 1);
            let sev = match d.severity {
                Severity::Error => "error",
                Severity::Warning => "warning",
            };
            (format!("{}: {}", sev, d.message), line, text[start..at].chars().count() + 1)
        })
        .collect();
    v.sort();
    v
}

fn c25(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let cfg = Cfg {
        modules: *src.pick(&[(0, 0), (1, 2), (2, 4)]),
        items: *src.pick(&[(1, 3), (2, 6)]),
        fuel: *src.pick(&[10, 18]),
        holes: *src.pick(&[0, 0, 5]),
        main: src.pct(40),
        std: 35,
        ..Cfg::default()
    };
    let mut pg = program(src, cfg);
    let mutant = src.pct(25);
    if mutant {
        mutate(&mut pg, src);
    }
    let lay = if src.pct(50) { Layout::PLAIN } else { Layout::random(src) };
    let Ok(r) = guard(|| pg.render(&Style::default(), lay, src)) else { return case.discard() };
    let p = &pg.p;
    // where the files are
    let mut dirs: Vec<String> = vec!["".into()];
    let mut place: BTreeMap<usize, String> = BTreeMap::new();
    let mut toks: BTreeMap<usize, Vec<Tok>> = BTreeMap::new();
    for (m, pr, _) in r.mods.iter().map(|(m, a, b)| (*m, a, b)).chain([(pg.root, &r.root.0, &r.root.1)]) {
        let dir = src.pick(DIRS).to_string();
        let mut acc = String::new();
        for s in dir.split('/').filter(|s| !s.is_empty()) {
            acc = if acc.is_empty() { s.to_string() } else { format!("{}/{}", acc, s) };
            if !dirs.contains(&acc) {
                dirs.push(acc.clone());
            }
        }
        let file = format!("f{}{}", m, src.pick(FILES));
        place.insert(m, if dir.is_empty() { file } else { format!("{}/{}", dir, file) });
        toks.insert(m, pr.toks.clone());
    }
    // faults
    let mods: Vec<usize> = place.keys().copied().collect();
    for _ in 0..src.weighted(&[65, 25, 10]) {
        let m = *src.pick(&mods);
        let ts = toks.get_mut(&m).unwrap();
        let i = src.us(ts.len());
        match src.below(3) {
            0 => {
                ts.remove(i);
            }
            1 => {
                let t = ts[i].clone();
                let j = src.us(ts.len() + 1);
                ts.insert(j, t);
            }
            _ => {
                let t = src.pick(&["zz", "let", "1", "é", "int", ";", "\"s\"", "Zz"]).to_string();
                ts[i] = Tok { kind: TK::Punct, text: t, occ: None, item: ts[i].item };
            }
        }
        if ts.is_empty() {
            return case.discard();
        }
        case.label("token fault");
    }
    // a function to run, or what is none
    let mains: [(&str, &str, Option<Option<&str>>); 9] = [
        ("int", "1", None),
        ("string", "\"k\"", None),
        ("string - > int", "\\ x - > 0", None),
        ("int - > string", "\\ x - > \"k\"", None),
        ("a - > a", "\\ x - > x", None),
        ("a - > string", "\\ x - > \"k\"", None),
        ("string - > string - > string", "\\ x - > \\ y - > y", None),
        ("string - > string", "\\ x - > \"k\"", Some(Some("k"))),
        ("string - > string", "\\ x - > x", Some(None)),
    ];
    let main = if src.pct(20) { Some(src.pick(&mains)) } else { None };
    if let Some((ty, body, _)) = main {
        let text = format!("export let main : {} = {} ;", ty, body).replace("- >", "->");
        let ts = toks.get_mut(&pg.root).unwrap();
        for w in text.split(' ') {
            let kind = if w.starts_with('"') { TK::Str } else { TK::Punct };
            ts.push(Tok { kind, text: w.to_string(), occ: None, item: 9998 });
        }
    }
    // import cycles
    let mut reach = Vec::new();
    super::c15::order(p, pg.root, &mut reach);
    let mut cycle: Option<(usize, usize)> = None;
    if src.pct(12) {
        let d = *src.pick(&reach);
        let back: Vec<usize> = reach
            .iter()
            .copied()
            .filter(|&b| {
                let mut below = Vec::new();
                super::c15::order(p, b, &mut below);
                below.contains(&d)
            })
            .collect();
        cycle = Some((d, *src.pick(&back)));
    }
    // files that cannot be read or written
    let trouble = src.weighted(&[84, 5, 3, 4, 4]);
    let how = src.us(3);
    let lost: Option<usize> = match trouble {
        4 => {
            cycle = None;
            mods.iter().copied().filter(|m| *m != pg.root).max()
        }
        _ => None,
    };
    // texts: as the library gets them, and as files
    let mut lib: HashMap<String, String> = HashMap::new();
    let mut files: BTreeMap<usize, Laid> = BTreeMap::new();
    let mut libs: BTreeMap<usize, (String, Laid)> = BTreeMap::new();
    for &m in &mods {
        let own = parent(&place[&m]);
        let mut ts = toks[&m].clone();
        let canon = |m: usize| if m == pg.root { "(root)".to_string() } else { p.modules[m].path.clone() };
        if let Some((d, b)) = cycle {
            if d == m {
                let line = ["import", "from", "\"\"", ";"];
                for (k, t) in line.iter().enumerate() {
                    let text = if k == 2 { format!("\"{}\"", canon(b)) } else { t.to_string() };
                    ts.insert(k, Tok { kind: if k == 2 { TK::Str } else { TK::Kw }, text, occ: None, item: 9999 });
                }
            }
        }
        let mut there = ts.clone();
        for t in there.iter_mut() {
            if t.kind == TK::Str {
                if let Some((&o, _)) = place.iter().find(|(o, _)| t.text == format!("\"{}\"", canon(**o))) {
                    t.text = format!("\"{}\"", relative(&own, &place[&o], &dirs, src));
                }
            }
        }
        // the same layout up to the paths
        let b = layout(&there, lay, src);
        let mut a = Laid::default();
        let mut at = 0;
        for (i, t) in ts.iter().enumerate() {
            a.text.push_str(&b.text[at..b.spans[i].0]);
            let s = a.text.len();
            a.text.push_str(&t.text);
            a.spans.push((s, a.text.len()));
            at = b.spans[i].1;
        }
        a.text.push_str(&b.text[at..]);
        lib.insert(canon(m), a.text.clone());
        libs.insert(m, (a.text.clone(), a));
        files.insert(m, b);
    }
    let dir = Scratch::new();
    for d in &dirs {
        std::fs::create_dir_all(dir.path().join(d)).expect("scratch");
    }
    let unreadable = |path: &str, text: &str| {
        let path = dir.path().join(path);
        let _ = std::fs::remove_file(&path);
        match how {
            0 => {}
            1 => std::fs::create_dir_all(&path).expect("scratch"),
            _ => std::fs::write(&path, [text.as_bytes(), b"--\xff\n"].concat()).expect("scratch"),
        }
    };
    for (&m, la) in &files {
        dir.write(&place[&m], &la.text);
        if lost == Some(m) || (trouble == 1 && m == pg.root) {
            unreadable(&place[&m], &la.text);
        }
    }
    if let Some(m) = lost {
        lib.remove(&p.modules[m].path);
    }
    if src.pct(20) {
        // a broken module nobody asks for
        dir.write("unused.tic", "let broken = ");
    }
    // how the tool is called
    let cwd = src.pick(&dirs).clone();
    let root_place = place[&pg.root].clone();
    let input = match src.weighted(&[40, 40, 20]) {
        0 => relative(&cwd, &root_place, &dirs, src),
        1 => {
            let s = relative(&cwd, &root_place, &[], src);
            if s.starts_with('-') {
                format!("./{}", s)
            } else {
                s
            }
        }
        _ => dir.path().join(&root_place).to_string_lossy().into_owned(),
    };
    let input = if input.starts_with('-') { format!("./{}", input) } else { input };
    let mode = src.weighted(&[20, 30, 25, 25]);
    let optimize = src.pct(50);
    let runner = if src.pct(60) { Some(*src.pick(&RUNNERS)) } else { None };
    let out = match src.below(3) {
        0 => None,
        1 => Some("-".to_string()),
        _ => Some(dir.path().join("out.bin").to_string_lossy().into_owned()),
    };
    let out = if trouble == 3 {
        let p = dir.path().join(*src.pick(&["nowhere/out.bin", "dir-out"]));
        std::fs::create_dir_all(dir.path().join("dir-out")).expect("scratch");
        Some(p.to_string_lossy().into_owned())
    } else {
        out
    };
    let bytes: Vec<u8> = (0..src.us(12)).map(|_| *src.pick(&[b'a', b'\n', b'"', b' ', b'0', 0, 0xff, 0xc3, 0xa9, 0x80, b'z', b'\r'])).collect();
    let stdin = src.pct(50);
    let mut args: Vec<String> = vec![input.clone()];
    match mode {
        0 => args.push("--check".into()),
        1 => args.push("--eval".into()),
        2 => {
            args.push("--run".into());
            if stdin {
                args.push("-".into());
            } else {
                if trouble == 2 {
                    if how == 1 {
                        std::fs::create_dir_all(dir.path().join("input.bin")).expect("scratch");
                    }
                } else {
                    std::fs::write(dir.path().join("input.bin"), &bytes).expect("scratch");
                }
                args.push(dir.path().join("input.bin").to_string_lossy().into_owned());
            }
        }
        _ => args.push("--emit-ir".into()),
    }
    if let Some(o) = &out {
        args.push(if src.pct(50) { "-o" } else { "--output" }.into());
        args.push(o.clone());
    }
    if let Some(r) = runner {
        args.push("--runner".into());
        args.push(r.to_string());
    }
    if optimize {
        args.push("--optimize".into());
    }
    if src.pct(25) {
        args.push("--no-verify".into());
    }
    if src.pct(20) {
        args.push("--stack".into());
        args.push(src.pick(&["16", "64"]).to_string());
    }
    let time = src.pct(15);
    if time {
        args.push("--time".into());
    }
    // the input may come anywhere
    if src.pct(30) {
        args.remove(0);
        args.push(input.clone());
    }
    let faulty = cycle.is_some();
    case.text = format!(
        "cd '{}'; ticc {:?} (root {}, input {:?}, trouble {} {} {})\n{}",
        cwd,
        args.iter().map(|a| a.replace(&*dir.path().to_string_lossy(), "DIR")).collect::<Vec<_>>(),
        root_place,
        String::from_utf8_lossy(&bytes),
        trouble,
        how,
        lost.map_or("", |m| &place[&m][..]),
        files.iter().map(|(m, l)| format!("==== {}\n{}", place[m], l.text)).collect::<Vec<_>>().join("\n")
    );
    let clean = !mutant;
    let evals = !mutant || matches!(guard(|| Eval::new(&pg.p, pg.st, 20_000).run(pg.root)), Ok(r) if !matches!(r, Err(Stop::Fuel)));
    let evals = evals && (!clean || !matches!(Eval::new(&pg.p, pg.st, 20_000).run(pg.root), Err(Stop::Fuel)));
    generated(src);

    // which modules are reached now: faults can remove imports
    let mut reached: Vec<usize> = Vec::new();
    let mut todo = vec![pg.root];
    let canon = |m: usize| if m == pg.root { "(root)".to_string() } else { p.modules[m].path.clone() };
    while let Some(m) = todo.pop() {
        if reached.contains(&m) {
            continue;
        }
        reached.push(m);
        // what an import item holds; a string elsewhere may look the same
        for (a, b) in imports_of(&libs[&m].0) {
            let _ = b;
            if let Some(&o) = mods.iter().find(|&&o| canon(o) == a && lost != Some(o)) {
                todo.push(o);
            }
        }
    }
    let mut errors: BTreeMap<usize, Vec<Diagnostic>> = BTreeMap::new();
    let mut all: BTreeMap<usize, Vec<Diagnostic>> = BTreeMap::new();
    for &m in &reached {
        // compiled from the file's own layout: only the paths differ
        let mut f = lib.clone();
        f.remove("(root)");
        let t = Texts { root: libs[&m].0.clone(), files: f };
        let ds = t.diagnostics()?;
        all.insert(m, ds.clone());
        if ds.iter().any(|d| d.severity == Severity::Error) {
            errors.insert(m, ds);
        }
    }
    let cyc = faulty && {
        // the cycle is still there
        let (d, b) = cycle.unwrap();
        let mut seen = vec![];
        let mut todo = vec![b];
        let mut hit = false;
        while let Some(m) = todo.pop() {
            if m == d {
                hit = true;
            }
            if seen.contains(&m) {
                continue;
            }
            seen.push(m);
            for (a, _) in imports_of(&libs[&m].0) {
                if let Some(&o) = mods.iter().find(|&&o| canon(o) == a) {
                    todo.push(o);
                }
            }
        }
        hit && reached.contains(&d) && imports_of(&libs[&d].0).iter().any(|x| x.0 == canon(b))
    };
    let bad = !errors.is_empty() || cyc;
    case.label(["check", "eval", "run", "ir"][mode]);
    case.label_if(bad, "error");
    case.label_if(cyc, "cycle");

    let mut cmd = crate::cli::command(ticc());
    cmd.args(&args).current_dir(dir.path().join(&cwd)).env("NO_COLOR", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if !bad && !evals && (mode == 1 || mode == 2) {
        return case.discard();
    }
    let mut child = cmd.spawn().expect("cannot run ticc");
    {
        let mut i = child.stdin.take().unwrap();
        if mode == 2 && stdin {
            let _ = i.write_all(&bytes);
        }
    }
    let o = child.wait_with_output().expect("cannot run ticc");
    let err = plain(&o.stderr);
    let code = o.status.code();
    let out_path = dir.path().join("out.bin");
    let written = std::fs::read(&out_path).ok();
    let cir = dir.path().join(&root_place).with_extension("cir");
    let ir_default = std::fs::read(&cir).ok();
    let tell = |m: &str| format!("{}: exit code {:?}, standard error {:?}, standard output {:?}", m, code, err.replace(&*dir.path().to_string_lossy(), "DIR"), String::from_utf8_lossy(&o.stdout));
    if code.is_none() || code == Some(101) {
        return Err(tell("crash"));
    }
    let given = |s: &str| err.contains(s);
    if trouble == 1 {
        case.nontrivial = true;
        case.label("program that cannot be read");
        if code != Some(1) || !given(&format!("error: cannot open {}", input)) || !o.stdout.is_empty() || written.is_some() || ir_default.is_some() {
            return Err(tell("program that cannot be read"));
        }
        return Ok(());
    }
    let shown = printed(&err);
    if bad {
        case.nontrivial = true;
        if code == Some(0) {
            return Err(tell("success in spite of an error"));
        }
        if !shown.iter().any(|s| s.0.starts_with("error: ")) {
            return Err(tell("no error printed"));
        }
        if !o.stdout.is_empty() || written.is_some() || ir_default.is_some() {
            return Err(tell("output in spite of an error"));
        }
        if cyc {
            return Ok(());
        }
    } else {
        if shown.iter().any(|s| s.0.starts_with("error: ")) {
            return Err(tell("error printed for a program without errors"));
        }
    }
    // one module's diagnostics
    let imported: Vec<usize> = errors.keys().copied().filter(|&m| m != pg.root).collect();
    let candidates: Vec<usize> = if imported.is_empty() { vec![pg.root] } else { imported };
    let got_path = shown.first().map(|s| s.1.clone());
    let which = match &got_path {
        None => candidates[0],
        Some(path) => {
            let real = dir.path().join(&cwd).join(path).canonicalize().ok();
            match candidates.iter().copied().find(|m| real == dir.path().join(&place[m]).canonicalize().ok()) {
                Some(m) => m,
                None => return Err(tell("diagnostics of a file that has no errors")),
            }
        }
    };
    if shown.iter().any(|s| Some(&s.1) != got_path.as_ref()) {
        return Err(tell("diagnostics of several files"));
    }
    // why a file cannot be read is up to the system
    let plain_message = |m: &str| if m.starts_with("error: failed to read module: ") { "error: cannot find module".to_string() } else { m.to_string() };
    let mut got: Vec<(String, usize, usize)> = shown.iter().map(|s| (plain_message(&s.0), s.2, s.3)).collect();
    got.sort();
    // the library's, moved to the layout of the file
    let (from, to) = (&libs[&which].1, &files[&which]);
    let ds: Vec<Diagnostic> = all[&which].clone();
    let mut moved: Vec<(String, usize, usize)> = Vec::new();
    for d in &ds {
        let at = d.span.start().source_pos();
        let i = from.spans.iter().position(|&(a, b)| a <= at && at < b);
        let new = match i {
            Some(i) => to.spans[i].0 + (at - from.spans[i].0),
            // at the end of something
            None => match from.spans.iter().position(|&(_, b)| b == at) {
                Some(i) => to.spans[i].1,
                None => to.text.len(),
            },
        };
        let mut e = expected(&to.text, &[Diagnostic { severity: d.severity, span: ticc::Span::new(ticc::Pos::new(new as u32), ticc::Pos::new(new as u32)), message: d.message.clone() }]);
        moved.append(&mut e);
    }
    moved.sort();
    if got != moved {
        return Err(format!("{}; expected {:?}", tell("diagnostics differ from the library's"), moved));
    }
    if bad {
        if code != Some(1) {
            return Err(tell("exit code"));
        }
        return Ok(());
    }
    // results
    let mut f = lib.clone();
    f.remove("(root)");
    let t = Texts { root: libs[&pg.root].0.clone(), files: f };
    let run = runner.unwrap_or(ticc::Runner::Bytecode);
    if mode == 2 && !stdin && trouble == 2 {
        case.nontrivial = true;
        case.label("input that cannot be read");
        if code != Some(1) || !given("error: cannot read ") || !given("input.bin") || !o.stdout.is_empty() || written.is_some() {
            return Err(tell("input that cannot be read"));
        }
        return Ok(());
    }
    let (want, trap): (Option<Vec<u8>>, Option<String>) = match mode {
        0 => (None, None),
        1 => match t.run(run, optimize).map_err(|p| format!("panic: {}", p))? {
            Ok(s) => (Some(s.into_bytes()), None),
            Err(e) => (Some(format!("error: {}", e).into_bytes()), None),
        },
        2 => match t.run_main(run, optimize, &bytes).map_err(|p| format!("panic: {}", p))? {
            Ok(s) => (Some(s), None),
            Err(e) => (None, Some(e.strip_prefix("trap ").map(|s| s.to_string()).unwrap_or(e))),
        },
        _ => (Some(guard(|| t.unit(optimize, true).emit_ir()).map_err(|p| format!("panic: {}", p))?.into_bytes()), None),
    };
    if let (2, Some((ty, _, way))) = (mode, main) {
        let right: Result<Vec<u8>, String> = match way {
            None => Err("main function must have type `string -> string`".into()),
            Some(Some(s)) => Ok(s.as_bytes().to_vec()),
            Some(None) => Ok(bytes.clone()),
        };
        let lib = match (&want, &trap) {
            (Some(w), _) => Ok(w.clone()),
            (_, t) => Err(t.clone().unwrap_or_default()),
        };
        // a trap elsewhere comes first
        let elsewhere = way.is_some() && lib.is_err();
        if right != lib && !elsewhere {
            return Err(format!("main of type {}: {:?} instead of {:?}", ty, lib, right));
        }
        case.label("main of a known type");
    }
    case.nontrivial = reached.len() >= 2 || want.is_some();
    case.label_if(trap.is_some(), "no result");
    if let Some(m) = trap {
        if code != Some(1) || !err.contains(&format!("error: {}", m)) || !o.stdout.is_empty() || written.is_some() {
            return Err(tell(&format!("failure {:?} of main not reported", m)));
        }
        return Ok(());
    }
    if trouble == 3 && mode != 0 {
        case.nontrivial = true;
        case.label("output that cannot be written");
        if code != Some(1) || !given(&format!("error: cannot write {}", out.as_deref().unwrap_or(""))) || !o.stdout.is_empty() {
            return Err(tell("output that cannot be written"));
        }
        return Ok(());
    }
    if code != Some(0) {
        return Err(tell("failure in spite of success"));
    }
    if time != err.contains("time: ") && (mode == 1 || mode == 2) {
        return Err(tell("time"));
    }
    let to_stdout = match (mode, out.as_deref()) {
        (0, _) => false,
        (_, Some("-")) => true,
        (3, None) => false,
        (_, None) => true,
        _ => false,
    };
    let want_stdout: Vec<u8> = match (&want, to_stdout) {
        (Some(w), true) => format!("{}\n", String::from_utf8_lossy(w)).into_bytes(),
        _ => vec![],
    };
    if o.stdout != want_stdout {
        return Err(format!("{}; expected {:?}", tell("standard output"), String::from_utf8_lossy(&want_stdout)));
    }
    let want_file = match (&want, out.as_deref()) {
        (Some(w), Some(o)) if o != "-" => Some(w.clone()),
        _ => None,
    };
    if written != want_file {
        return Err(format!("{}; file holds {:?} instead of {:?}", tell("output file"), written.map(|w| String::from_utf8_lossy(&w).into_owned()), want_file.map(|w| String::from_utf8_lossy(&w).into_owned())));
    }
    let want_cir = if mode == 3 && out.is_none() { want } else { None };
    if ir_default != want_cir {
        return Err(tell("emitted file"));
    }
    Ok(())
}

/// The paths of the import items of a text, and where they are.
fn imports_of(text: &str) -> Vec<(String, usize)> {
    let t = Texts::single(text);
    // the library is asked which strings it takes for paths: they cannot be found here
    match t.diagnostics() {
        Ok(ds) => ds
            .iter()
            .filter(|d| d.message == "cannot find module")
            .map(|d| {
                let r = d.span.source_range();
                (text[r.start + 1..r.end - 1].to_string(), r.start)
            })
            .collect(),
        Err(_) => vec![],
    }
}
