//! Program tests: every case of every directory, judged exactly.

use crate::choice::Src;
use crate::cli::Scratch;
use crate::engine::{generated, guard, Case, Prop};
use crate::sut::Texts;
use std::collections::HashMap;
use std::fmt::Write;
use ticc::{Diagnostic, Runner, Severity};
use ticc_tests::{Test, TestKind, TestOutcome};

pub const C31: Prop = Prop {
    id: "C31",
    quick: 2500,
    thorough: 120000,
    rule: "three or more test programs, and one that must fail",
    assumptions: &[
        "a marker line follows directly the line it is about",
        "known finding: a file of several lines without a newline at its end makes get_tests panic; it is tried in every run, and such cases are left out while it is there",
        "the outcomes of tests for the jit runner are left out: it cannot run here",
    ],
    f: c31,
};

/// One line of a program, or several that belong together.
struct Item {
    text: String,
    bad: bool,
}

fn item(src: &mut Src, i: usize, ints: &mut Vec<String>, bad: bool) -> Item {
    let k = src.us(50);
    let text = if bad {
        match src.us(9) {
            0 => format!("let e{i} : int = nope{i};"),
            1 => format!("let e{i} : int = \"s\u{e9}\";"),
            2 => format!("let e{i} : Nope{i} = {k};"),
            3 => format!("export let e{i} : int = 1 + ;"),
            4 => format!("let e{i} : int = {k}x;"),
            5 => format!("type D{i} = X{i} | X{i};"),
            6 => format!("import q{i} from \"none{i}.tic\";"),
            7 => format!("type M{i} = P{i} | Q{i}; let e{i} : int = match P{i} with | P{i} -> {k} end;"),
            _ => format!("let e{i} : bool = \"\u{e9}\u{1f600}\" + {k};"),
        }
    } else {
        match src.us(9) {
            0 | 1 => {
                let t = format!("export let v{i} : int = {k};");
                ints.push(format!("v{i}"));
                t
            }
            2 if !ints.is_empty() => {
                let j = src.pick(ints).clone();
                let t = format!("export let w{i} = {j} * 3 + {k};");
                ints.push(format!("w{i}"));
                t
            }
            3 => format!("export let s{i} : string = \"a \u{3b1}{k}\";"),
            4 => format!("-- about {k}"),
            5 => String::new(),
            6 => format!("type T{i} = A{i} | B{i} int;\nexport let t{i} : T{i} = B{i} {k};"),
            7 => format!("let unused{i} : bool = {k} < 9;"),
            _ => {
                ints.push(format!("m{i}"));
                format!("export let m{i} : int =\n    if {k} < 7 then\n        1\n    else\n        {k};")
            }
        }
    };
    Item { text, bad }
}

fn items(src: &mut Src, bads: u64, least: usize) -> Vec<Item> {
    let n = src.urange(least, 8);
    let mut ints = Vec::new();
    let mut all: Vec<Item> = (0..n).map(|i| {
        let b = src.pct(bads);
        item(src, i, &mut ints, b)
    }).collect();
    // errors at the end of the program have no length
    if bads > 0 && src.pct(30) {
        let text = *src.pick(&["let z : int = 1 +", "let z : int =", "export let z :", "let z : int = (1 + 2", "type Z = Z1 | Z2 (int", "let z : int = if 1 < 2 then 3", "let z = \\a ->"]);
        all.push(Item { text: text.into(), bad: true });
    }
    all
}

fn text_of(items: &[Item]) -> String {
    items.iter().map(|i| format!("{}\n", i.text)).collect()
}

type Diag = (u32, u32, String);

fn diag(d: &Diagnostic) -> Diag {
    (d.span.start().source_pos() as u32, d.span.end().source_pos() as u32, d.message.clone())
}

fn errors(t: &Texts) -> Result<Vec<Diag>, String> {
    guard(|| t.unit(false, true).diagnostics().filter(|d| d.severity == Severity::Error).map(|d| diag(&d)).collect())
}

fn spans_agree(expected: &Diag, actual: &Diag) -> bool {
    (expected.0, expected.1) == (actual.0, actual.1) || actual.0 == actual.1 && expected.0 == actual.0 && expected.1 == expected.0 + 1
}

#[derive(Debug, PartialEq)]
enum Verdict {
    Success,
    /// errors that nothing marks, marked ones that are not there, marked with another message
    Compile(Vec<Diag>, Vec<Diag>, Vec<(Diag, Diag)>),
    Run(Vec<String>, Vec<String>),
}

fn judge(mut actual: Vec<Diag>, expected: &[Diag]) -> Option<Verdict> {
    let (mut missing, mut wrong) = (Vec::new(), Vec::new());
    for e in expected {
        let hits: Vec<usize> = (0..actual.len()).filter(|&i| spans_agree(e, &actual[i])).collect();
        match hits[..] {
            [] => missing.push(e.clone()),
            [i] => {
                let a = actual.remove(i);
                if !a.2.contains(&e.2) {
                    wrong.push((e.clone(), a));
                }
            }
            // which one is meant is not said
            _ => return None,
        }
    }
    if actual.is_empty() && missing.is_empty() && wrong.is_empty() {
        return Some(Verdict::Success);
    }
    actual.sort();
    missing.sort();
    wrong.sort();
    Some(Verdict::Compile(actual, missing, wrong))
}

fn verdict(t: &Test) -> Result<Verdict, String> {
    Ok(match guard(|| t.run())? {
        TestOutcome::Success => Verdict::Success,
        TestOutcome::BadCompilation(c) => {
            let list = |ds: &[Diagnostic]| {
                let mut v: Vec<Diag> = ds.iter().map(diag).collect();
                v.sort();
                v
            };
            let mut wrong: Vec<(Diag, Diag)> = c.wrong_messages.iter().map(|(a, b)| (diag(a), diag(b))).collect();
            wrong.sort();
            Verdict::Compile(list(&c.extra_errors), list(&c.missing_errors), wrong)
        }
        TestOutcome::BadRun(r) => Verdict::Run(r.expected_output, r.output),
    })
}

/// A program with markers, and what the markers say.
fn marked(src: &mut Src, items: &[Item]) -> Result<Option<(String, Vec<Diag>)>, String> {
    let plain = text_of(items);
    let errs = errors(&Texts::single(&plain))?;
    let mut text = String::new();
    let mut marks = Vec::new();
    let (mut pos, mut seen) = (0, 0);
    for line in plain.split_inclusive('\n') {
        let here: Vec<&Diag> = errs.iter().filter(|e| e.0 as usize >= pos && (e.0 as usize) < pos + line.len()).collect();
        let at = text.len();
        text.push_str(line);
        let mut want = match here[..] {
            [e] if e.0 as usize >= pos + 2 && (e.1 as usize) < pos + line.len() => {
                seen += 1;
                Some((e.0 as usize - pos, (e.1 as usize - pos).max(e.0 as usize - pos + 1), e.2.clone()))
            }
            [] => None,
            _ => return Ok(None),
        };
        match src.weighted(&[76, 5, 5, 5, 5, 4]) {
            1 => want = None,
            2 => {
                if let Some(w) = &mut want {
                    w.0 += 1;
                    w.1 = w.1.max(w.0 + 1);
                }
            }
            3 => {
                if let Some(w) = &mut want {
                    w.1 += 1;
                }
            }
            4 => {
                if let Some(w) = &mut want {
                    w.2.push_str(" or so");
                }
            }
            5 if want.is_none() && line.len() > 6 => want = Some((2 + src.us(3), 5 + src.us(3), "expected int".to_owned())),
            _ => {}
        }
        if let Some((a, b, mut m)) = want {
            // any part of the message will do
            if src.pct(40) && m.len() > 4 && m.is_ascii() {
                let from = src.us(m.len() / 2);
                let to = from + 1 + src.us(m.len() - from - 1);
                let part = m[from..to].trim();
                if !part.is_empty() {
                    m = part.to_owned();
                }
            }
            let mut l = format!("--{}", " ".repeat(a - 2));
            let fill = if src.pct(80) { "^" } else { "." };
            for c in a..b {
                l.push_str(if c == a || c + 1 == b { "^" } else { fill });
            }
            let _ = write!(l, "{}ERROR: {}{}\n", if src.pct(80) { " " } else { "" }, m, if src.pct(80) { "" } else { "  " });
            text.push_str(&l);
            marks.push(((at + a) as u32, (at + b) as u32, m));
        }
        pos += line.len();
    }
    if seen != errs.len() || errs.iter().any(|e| e.2.contains("ERROR") || e.2.contains('\n')) {
        return Ok(None);
    }
    Ok(Some((text, marks)))
}

/// What running a program prints, line by line.
fn printed(t: &Texts) -> Result<Vec<String>, String> {
    Ok(match t.run(Runner::Treewalk, false)? {
        Ok(s) => s.trim().lines().map(str::to_owned).collect(),
        Err(m) => vec![format!("trap: {}", m)],
    })
}

fn run_program(src: &mut Src) -> Result<Option<(String, Vec<String>, Vec<Diag>, Vec<String>)>, String> {
    let bads = if src.pct(12) { 30 } else { 0 };
    let mut its = items(src, bads, 2);
    if src.pct(12) {
        its.push(Item { text: "export let z : bool = ?later;".to_owned(), bad: false });
    }
    let plain = text_of(&its);
    let errs = errors(&Texts::single(&plain))?;
    let out = if errs.is_empty() { printed(&Texts::single(&plain))? } else { vec!["nothing".to_owned()] };
    let mut want = out.clone();
    match src.weighted(&[70, 6, 6, 6, 6, 6]) {
        1 if !want.is_empty() => {
            let i = src.us(want.len());
            want.remove(i);
        }
        2 if !want.is_empty() => {
            let i = src.us(want.len());
            want[i].push('0');
        }
        3 => {
            let i = src.us(want.len() + 1);
            want.insert(i, "more = 1".to_owned());
        }
        4 if want.len() > 1 => {
            let i = src.us(want.len() - 1);
            want.swap(i, i + 1);
        }
        5 if !want.is_empty() => {
            let i = src.us(want.len());
            want[i] = want[i].replacen(" = ", " = 1", 1);
        }
        _ => {}
    }
    if want.is_empty() || want.iter().any(|w| w.contains("EXPECT") || w.contains("ERROR")) {
        return Ok(None);
    }
    // the lines stand anywhere, in order
    let mut text = String::new();
    let mut next = 0;
    for it in &its {
        while next < want.len() && src.pct(40) {
            let _ = writeln!(text, "-- EXPECT: {}", want[next]);
            next += 1;
        }
        text.push_str(&it.text);
        text.push('\n');
    }
    for w in &want[next..] {
        let _ = writeln!(text, "--{}EXPECT: {}{}", " ".repeat(src.us(3)), w, " ".repeat(src.us(2)));
    }
    let t = Texts::single(&text);
    let errs = errors(&t)?;
    let out = if errs.is_empty() { printed(&t)? } else { Vec::new() };
    Ok(Some((text, want, errs, out)))
}

fn runner_of(k: &TestKind) -> Option<Runner> {
    match k {
        TestKind::Compile { .. } => None,
        TestKind::Run { runner, .. } | TestKind::RunHeavy { runner, .. } => Some(*runner),
    }
}

/// What is listed as a finding, tried out: what fails.
pub fn finding() -> Option<String> {
    let scratch = Scratch::new();
    for d in ["compile-fail", "run-pass", "run-heavy"] {
        let _ = std::fs::create_dir_all(scratch.path().join(d));
    }
    scratch.write("compile-pass/a.tic", "let a : int = 1;\nlet b : int = 2;");
    let e = guard(|| ticc_tests::get_tests(scratch.path(), false)).err()?;
    is_finding(&e).then(|| format!("final-newline a file of several lines whose last line has no newline cannot be read: {}", e))
}

fn is_finding(e: &str) -> bool {
    e.contains("out of bounds") || e.contains("out of range")
}

const NAMES: [&str; 4] = ["bytecode", "lambda", "treewalk", "jit"];

fn c31(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut files: Vec<(String, String)> = Vec::new();
    let mut want: HashMap<String, Verdict> = HashMap::new();
    let mut programs = 0;
    // programs that compile
    for k in 0..src.us(3) {
        let bads = if src.pct(15) { 40 } else { 0 };
        let its = items(src, bads, 1);
        let dir = src.pct(40);
        let mut t = Texts::single(&text_of(&its));
        let key = if dir {
            let other = items(src, 0, 1);
            t.files.insert("b.tic".into(), text_of(&other));
            t.root = format!("import b from \"b.tic\";\n{}", t.root);
            files.push((format!("compile-pass/p{k}/main.tic"), t.root.clone()));
            files.push((format!("compile-pass/p{k}/b.tic"), t.files["b.tic"].clone()));
            format!("compile-pass/p{k}")
        } else {
            // carriage returns do not count
            let text = if src.pct(15) { t.root.replace('\n', "\r\n") } else { t.root.clone() };
            files.push((format!("compile-pass/p{k}.tic"), text));
            format!("compile-pass/p{k}.tic")
        };
        let Some(v) = judge(errors(&t)?, &[]) else { return case.discard() };
        let Some(w) = judge(errors(&t)?, &[]) else { return case.discard() };
        want.insert(format!("{key} (optimized)"), v);
        want.insert(key, w);
        programs += 1;
    }
    // programs that do not
    for k in 0..src.us(4) {
        let mut made = None;
        for _ in 0..5 {
            let its = items(src, 50, 1);
            made = marked(src, &its)?;
            if made.is_some() {
                break;
            }
        }
        let Some((text, marks)) = made else { return case.discard() };
        if marks.is_empty() {
            continue;
        }
        let dir = src.pct(30);
        let key = if dir {
            files.push((format!("compile-fail/f{k}/main.tic"), text.clone()));
            files.push((format!("compile-fail/f{k}/b.tic"), "export let a : int = 1;\n".into()));
            format!("compile-fail/f{k}")
        } else {
            files.push((format!("compile-fail/f{k}.tic"), text.clone()));
            format!("compile-fail/f{k}.tic")
        };
        let Some(v) = judge(errors(&Texts::single(&text))?, &marks) else { return case.discard() };
        case.label(match &v {
            Verdict::Success => "errors as marked",
            Verdict::Compile(e, m, w) => match (e.is_empty(), m.is_empty(), w.is_empty()) {
                (false, true, true) => "error not marked",
                (true, false, true) => "marked error missing",
                (true, true, false) => "another message",
                _ => "several differences",
            },
            Verdict::Run(..) => "",
        });
        want.insert(key, v);
        programs += 1;
    }
    // programs that run
    for k in 0..src.us(3) {
        let Some((text, lines, errs, out)) = run_program(src)? else { return case.discard() };
        let file = format!("run-pass/r{k}.tic");
        files.push((file.clone(), text));
        for r in NAMES {
            for o in ["", ", optimized"] {
                let v = if !errs.is_empty() {
                    let mut e = errs.clone();
                    e.sort();
                    Verdict::Compile(e, vec![], vec![])
                } else if out == lines {
                    Verdict::Success
                } else {
                    Verdict::Run(lines.clone(), out.clone())
                };
                case.label(match &v {
                    Verdict::Success => "output as expected",
                    Verdict::Run(..) => "another output",
                    Verdict::Compile(..) => "program to run does not compile",
                });
                want.insert(format!("{file} ({r}{o})"), v);
            }
        }
        programs += 1;
    }
    // programs with input
    let mut made: Vec<(String, String)> = Vec::new();
    let creating = src.pct(60);
    let shared = src.pct(40);
    for k in 0..src.us(3) {
        let word = format!("w{}", src.us(9));
        let body = match src.us(4) {
            0 => "s".to_owned(),
            1 => format!("concat s \"{word}\""),
            2 if shared => "concat x.tag s".to_owned(),
            2 => "concat \"<\" (concat s \">\")".to_owned(),
            _ => "?undone".to_owned(),
        };
        let mut main = format!("import (concat) from \"std/string\";\nexport let main : string -> string = \\s -> {body};\n");
        if body.contains("x.tag") {
            main = format!("import x from \"../shared/x.tic\";\n{main}");
        }
        files.push((format!("run-heavy/h{k}/main.tic"), main));
        for j in 0..1 + src.us(2) {
            let input = (*src.pick(&["", "a", "line\nanother\n", "\u{e9}\n\n", " x "])).to_owned();
            let out = match &body[..] {
                "s" => input.clone(),
                "concat x.tag s" => format!("tag{input}"),
                "?undone" => "error: encountered ?undone".to_owned(),
                b if b.starts_with("concat s") => format!("{input}{word}"),
                _ => format!("<{input}>"),
            };
            let crlf = src.pct(20);
            files.push((format!("run-heavy/h{k}/input/{j}"), if crlf { input.replace('\n', "\r\n") } else { input }));
            let expected = match src.weighted(&[60, 25, 15]) {
                0 => Some(out.clone()),
                1 => Some((*src.pick(&["", "a ", "line\nanother", "error: ", "tag"])).to_owned()),
                _ if creating => None,
                _ => Some(format!("{out}\n")),
            };
            let name = format!("run-heavy/h{k}/output/{j}");
            match &expected {
                Some(e) => files.push((name, if crlf { e.replace('\n', "\r\n") } else { e.clone() })),
                None => {
                    made.push((name, out.clone()));
                    case.label("output not there yet");
                }
            }
            for r in NAMES {
                let v = match &expected {
                    Some(e) if *e != out => Verdict::Run(vec![e.clone()], vec![out.clone()]),
                    _ => Verdict::Success,
                };
                case.label(if v == Verdict::Success { "input gives the output" } else { "input gives another output" });
                want.insert(format!("run-heavy/h{k}/input/{j} ({r}, optimized)"), v);
            }
        }
        programs += 1;
    }
    if shared {
        files.push(("run-heavy/shared/x.tic".into(), "export let tag : string = \"tag\";\n".into()));
    }
    // something that is no test
    let mut wrong = None;
    let mut gone = None;
    if src.pct(25) {
        let bad_line = "let q : int = 1;\n-- ^ ERROR: expected\n";
        let (w, name, text) = match src.us(14) {
            0 => ("marked error in a program that passes", "compile-pass/x.tic", bad_line),
            1 => ("marked error in a program to run", "run-pass/x.tic", "export let a : int = 1;\n-- EXPECT: a = 1\nlet q : int = 1;\n-- ^ ERROR: expected\n"),
            2 => ("no marked error", "compile-fail/x.tic", "let q : int = \"\";\n"),
            3 => ("no expected output", "run-pass/x.tic", "export let a : int = 1;\n"),
            4 => ("marker without a colon", "compile-fail/x.tic", "let q : int = \"\";\n--            ^^ ERROR: expected\n-- ERROR\n"),
            5 => ("marker outside of a comment", "compile-fail/x.tic", "let q : int = \"ERROR: a\";\n--            ^^^^^^^^^^ ERROR: expected\n"),
            6 => ("expected output outside of a comment", "run-pass/x.tic", "export let a : string = \"EXPECT: a\"; -- EXPECT: a\n-- EXPECT: a = \"EXPECT: a\"\n"),
            7 => ("no main", "compile-pass/x/other.tic", "let a : int = 1;\n"),
            8 => ("marked error in another module", "compile-fail/x/b.tic", bad_line),
            9 => ("expected output in another module", "run-pass/x/b.tic", "-- EXPECT: a = 1\n"),
            10 => ("directory in a test", "compile-pass/x/sub/b.tic", "let a : int = 1;\n"),
            11 => ("file among the programs with input", "run-heavy/x.tic", "let a : int = 1;\n"),
            12 => ("output without input", "run-heavy/x/output/9", "out"),
            _ => ("no directory", "", ""),
        };
        let main = match w {
            "marked error in another module" => "let q : int = \"\";\n--            ^^ ERROR: expected\n",
            "expected output in another module" => "export let a : int = 1;\n-- EXPECT: a = 1\n",
            _ => "export let main : string -> string = \\s -> s;\n",
        };
        if name.contains("/x/") && w != "no main" {
            let d = name.split("/x/").next().unwrap();
            files.push((format!("{d}/x/main.tic"), main.to_owned()));
            if w == "output without input" {
                files.push((format!("{d}/x/input/1"), "i".into()));
                files.push((format!("{d}/x/output/1"), "i".into()));
            }
        }
        if name.is_empty() {
            gone = Some(*src.pick(&["compile-pass", "compile-fail", "run-pass", "run-heavy"]));
        } else {
            files.push((name.to_owned(), text.to_owned()));
        }
        wrong = Some(w);
    } else if !made.is_empty() && src.pct(15) {
        wrong = Some("output missing");
    }
    let mut allow = creating;
    if wrong == Some("output missing") {
        allow = false;
    }
    // the last line may be without its end
    let mut cut = false;
    if src.pct(6) {
        let programs: Vec<usize> = (0..files.len()).filter(|&i| files[i].0.ends_with(".tic") && files[i].1.ends_with('\n')).collect();
        if !programs.is_empty() {
            let i = *src.pick(&programs);
            files[i].1.pop();
            cut = files[i].1.contains('\n');
            case.label("no newline at the end");
        }
    }
    case.text = files.iter().map(|(n, t)| format!("==== {n}\n{t}")).collect();
    case.nontrivial = programs >= 3 && want.values().any(|v| *v != Verdict::Success);
    generated(src);

    let scratch = Scratch::new();
    for d in ["compile-pass", "compile-fail", "run-pass", "run-heavy"] {
        if gone != Some(d) {
            std::fs::create_dir_all(scratch.path().join(d)).map_err(|e| e.to_string())?;
        }
    }
    for (n, t) in &files {
        if gone.map_or(true, |g| !n.starts_with(g)) {
            scratch.write(n, t);
        }
    }
    let tests = guard(|| ticc_tests::get_tests(scratch.path(), allow));
    if let Some(w) = wrong {
        case.label(w);
        return match tests {
            Ok(_) => Err(format!("tests are found although this cannot be one: {}", w)),
            Err(_) => Ok(()),
        };
    }
    let tests = match tests {
        Err(e) if cut && is_finding(&e) && crate::engine::listed("C31", "final-newline") => return case.discard(),
        t => t,
    };
    let tests = tests.map_err(|e| format!("tests are not found: {}", e))?;
    let keys: Vec<&String> = tests.iter().map(|t| &t.key).collect();
    let mut expected: Vec<&String> = want.keys().collect();
    expected.sort_by_key(|k| (k.starts_with("run-heavy"), k.as_bytes().to_vec()));
    if keys != expected {
        return Err(format!("tests {:?} instead of {:?}", keys, expected));
    }
    for t in &tests {
        let runner = runner_of(&t.kind);
        if t.optimize != t.key.ends_with("optimized)") {
            return Err(format!("{}: optimized {}", t.key, t.optimize));
        }
        if let Some(r) = runner {
            if !t.key.contains(&format!("({}", r)) {
                return Err(format!("{}: runs on {}", t.key, r));
            }
            if r == Runner::Jit {
                continue;
            }
        }
        let v = verdict(t)?;
        if v != want[&t.key] {
            return Err(format!("{}: {:?} instead of {:?}", t.key, v, want[&t.key]));
        }
    }
    for (n, t) in &made {
        match std::fs::read_to_string(scratch.path().join(n)) {
            Ok(s) if s == *t => {}
            s => return Err(format!("output {} is {:?} instead of {:?}", n, s, t)),
        }
    }
    Ok(())
}
