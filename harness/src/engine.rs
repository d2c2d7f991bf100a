//! Supervisor / worker / shrinker.

use crate::choice::{hash_bytes, Src};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Case {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub discarded: bool,
    pub text: String,
    pub tier_thorough: bool,
    pub index: u64,
}

impl Case {
    pub fn label(&mut self, s: &str) {
        self.labels.push(s.to_owned());
    }
    pub fn label_if(&mut self, c: bool, s: &str) {
        if c {
            self.label(s);
        }
    }
    pub fn discard(&mut self) -> Result<(), String> {
        self.discarded = true;
        Ok(())
    }
}

pub type CaseFn = fn(&mut Src, &mut Case) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub f: CaseFn,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        let msg: String = msg.chars().take(400).collect();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Run code under test; a panic becomes an `Err` with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

const STACK: usize = 1 << 30;

pub fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

enum Run {
    Pass(Case, Vec<u64>),
    Fail(String, Case, Vec<u64>),
    Broken(String, Vec<u64>),
}

fn run_case(p: &Prop, mut src: Src, thorough: bool, index: u64) -> Run {
    let mut case = Case { labels: Vec::new(), nontrivial: false, discarded: false, text: String::new(), tier_thorough: thorough, index };
    let r = catch_unwind(AssertUnwindSafe(|| (p.f)(&mut src, &mut case)));
    match r {
        Ok(Ok(())) => Run::Pass(case, src.rec),
        Ok(Err(m)) => Run::Fail(m, case, src.rec),
        Err(_) => Run::Broken(LAST_PANIC.with(|p| p.borrow().clone()), src.rec),
    }
}

fn class_of(msg: &str) -> String {
    msg.split(':').next().unwrap_or("").trim().to_owned()
}

// ---------------------------------------------------------------- worker

static CASE_START: AtomicU64 = AtomicU64::new(0);

/// CPU seconds this process has used.
fn cpu_seconds() -> u64 {
    let t = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = t.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let tick = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    (tick(11) + tick(12)) / 100
}

/// A case that has used `HANG_CPU` seconds of processor time hangs; one that
/// merely takes long on the clock is a problem of the machine.
const HANG_CPU: u64 = 60;
/// A quick run looks at no further cases after this.
const QUICK_WALL: Duration = Duration::from_secs(420);

fn watchdog(limit: Duration) {
    let t0 = Instant::now();
    CASE_START.store(0, Ordering::SeqCst);
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since = t0;
        let mut cpu = 0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CASE_START.load(Ordering::SeqCst);
            if c != last {
                last = c;
                since = Instant::now();
                cpu = cpu_seconds();
            } else if c != 0 && cpu_seconds() - cpu > HANG_CPU {
                println!("H");
                let _ = std::io::stdout().flush();
                std::process::exit(97);
            } else if c != 0 && since.elapsed() > limit {
                println!("T");
                let _ = std::io::stdout().flush();
                std::process::exit(98);
            }
        }
    });
}

fn hang_limit() -> Duration {
    Duration::from_secs(std::env::var("TICV_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(300))
}

#[derive(Default)]
struct Stats {
    evals: u64,
    discarded: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
}

pub fn worker(p: &'static Prop, seed: u64, thorough: bool, from: u64, step: u64, n: u64) -> i32 {
    watchdog(hang_limit());
    on_big_stack(move || {
        let out = std::io::stdout();
        let mut st = Stats::default();
        let mut i = from;
        let mut rc = 0;
        let stop = std::env::var("TICV_STOP").unwrap_or_default();
        while i < n {
            if !stop.is_empty() && std::path::Path::new(&stop).exists() {
                break;
            }
            {
                let mut o = out.lock();
                let _ = writeln!(o, "B {}", i);
                let _ = o.flush();
            }
            CASE_START.store(i * 2 + 1, Ordering::SeqCst);
            match run_case(p, Src::case(p.id, seed, i), thorough, i) {
                Run::Pass(case, _) => {
                    st.evals += 1;
                    if case.discarded {
                        st.discarded += 1;
                    } else {
                        for l in &case.labels {
                            *st.labels.entry(l.clone()).or_default() += 1;
                        }
                        if case.nontrivial {
                            if let Ok(d) = std::env::var("TICV_DUMP") {
                                let _ = std::fs::write(format!("{}/{}.txt", d, i), &case.text);
                            }
                            let h = hash_bytes(17, case.text.as_bytes());
                            if st.nontrivial.insert(h) && st.samples.len() < 2 && st.nontrivial.len() % 7 == 1 {
                                st.samples.push(case.text.chars().take(1800).collect());
                            }
                        }
                    }
                }
                Run::Fail(m, case, rec) => {
                    let mut o = out.lock();
                    let _ = writeln!(o, "F {}", json!({"i": i, "msg": m, "text": case.text, "choices": rec}));
                    let _ = o.flush();
                    rc = 1;
                    break;
                }
                Run::Broken(m, _) => {
                    let mut o = out.lock();
                    let _ = writeln!(o, "X {}", json!({"i": i, "msg": m}));
                    let _ = o.flush();
                    rc = 3;
                    break;
                }
            }
            CASE_START.store(i * 2 + 2, Ordering::SeqCst);
            i += step;
        }
        let hashes: Vec<u64> = st.nontrivial.iter().copied().collect();
        let mut o = out.lock();
        let _ = writeln!(o, "S {}", json!({"evals": st.evals, "discarded": st.discarded, "nt": hashes, "labels": st.labels, "samples": st.samples}));
        let _ = o.flush();
        rc
    })
}

/// Runs choice lists read from stdin, one per line (comma separated).
pub fn shrinkd(p: &'static Prop, thorough: bool) -> i32 {
    on_big_stack(move || {
        for line in std::io::stdin().lock().lines() {
            let Ok(line) = line else { break };
            let (idx, rest) = line.split_once(' ').unwrap_or(("0", ""));
            let index: u64 = idx.parse().unwrap_or(0);
            let choices: Vec<u64> = rest.split(',').filter_map(|s| s.parse().ok()).collect();
            let r = run_case(p, Src::replay(choices), thorough, index);
            let j = match r {
                Run::Pass(..) => json!({"r": "pass"}),
                Run::Fail(m, c, rec) => json!({"r": "fail", "msg": m, "text": c.text, "choices": rec}),
                Run::Broken(m, _) => json!({"r": "broken", "msg": m}),
            };
            println!("{}", j);
            let _ = std::io::stdout().flush();
        }
        0
    })
}

// ---------------------------------------------------------------- supervisor

fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

struct Server {
    child: Child,
    rx: mpsc::Receiver<String>,
    stdin: std::process::ChildStdin,
}

enum Verdict {
    Pass,
    Fail { msg: String, text: String, choices: Vec<u64> },
    Other(String),
}

impl Server {
    fn start(id: &str, thorough: bool) -> Server {
        let mut child = Command::new(exe())
            .args(["shrinkd", id, if thorough { "thorough" } else { "quick" }])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(stdout).lines() {
                let Ok(l) = l else { break };
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        Server { child, rx, stdin }
    }
    /// None: the process died or timed out and must be restarted.
    fn ask(&mut self, index: u64, choices: &[u64], limit: Duration) -> Option<Verdict> {
        let text: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
        if writeln!(self.stdin, "{} {}", index, text.join(",")).is_err() {
            return None;
        }
        let _ = self.stdin.flush();
        let line = self.rx.recv_timeout(limit).ok()?;
        let j: J = serde_json::from_str(&line).ok()?;
        Some(match j["r"].as_str() {
            Some("pass") => Verdict::Pass,
            Some("fail") => Verdict::Fail {
                msg: j["msg"].as_str().unwrap_or("").to_owned(),
                text: j["text"].as_str().unwrap_or("").to_owned(),
                choices: j["choices"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default(),
            },
            _ => Verdict::Other(j["msg"].as_str().unwrap_or("").to_owned()),
        })
    }
    fn signal_of(mut self) -> Option<i32> {
        use std::os::unix::process::ExitStatusExt;
        for _ in 0..40 {
            if let Ok(Some(st)) = self.child.try_wait() {
                return st.signal();
            }
            std::thread::sleep(Duration::from_millis(50));
        }
        let _ = self.child.kill();
        let _ = self.child.wait();
        None
    }
    fn stop(mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Run one choice list in a fresh process.
fn run_fresh(id: &str, thorough: bool, index: u64, choices: &[u64], limit: Duration) -> Verdict {
    let mut s = Server::start(id, thorough);
    match s.ask(index, choices, limit) {
        Some(v) => {
            s.stop();
            v
        }
        None => match s.signal_of() {
            Some(sig) if matches!(sig, 4 | 6 | 7 | 8 | 11) => Verdict::Fail {
                msg: format!("crash: process died with signal {}", sig),
                text: String::new(),
                choices: choices.to_vec(),
            },
            Some(sig) => Verdict::Other(format!("process ended by signal {}", sig)),
            None => Verdict::Other("no answer in time".into()),
        },
    }
}

struct Best {
    msg: String,
    text: String,
    choices: Vec<u64>,
}

fn shrink(id: &str, thorough: bool, index: u64, best: &mut Best) -> u64 {
    let t0 = Instant::now();
    let budget = Duration::from_secs(45);
    let class = class_of(&best.msg);
    let crash = class == "crash";
    let mut evals = 0u64;
    let mut server: Option<Server> = None;
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    let mut try_one = |best: &mut Best, cand: Vec<u64>, evals: &mut u64| -> bool {
        if *evals >= 3000 || t0.elapsed() > budget || cand == best.choices || !seen.insert(cand.clone()) {
            return false;
        }
        *evals += 1;
        let v = if crash {
            run_fresh(id, thorough, index, &cand, Duration::from_secs(20))
        } else {
            let s = server.get_or_insert_with(|| Server::start(id, thorough));
            match s.ask(index, &cand, Duration::from_secs(20)) {
                Some(v) => v,
                None => {
                    server.take().unwrap().stop();
                    Verdict::Pass
                }
            }
        };
        match v {
            Verdict::Fail { msg, text, choices } if class_of(&msg) == class => {
                let choices = if crash { cand } else { choices };
                if (choices.len(), &choices) < (best.choices.len(), &best.choices) || choices.len() < best.choices.len() {
                    best.msg = msg;
                    best.text = text;
                    best.choices = choices;
                    return true;
                }
                false
            }
            _ => false,
        }
    };
    loop {
        let before = best.choices.clone();
        // truncate
        let mut cut = best.choices.len() / 2;
        while cut > 0 {
            let n = best.choices.len();
            if cut >= n || !try_one(best, before_trunc(&best.choices, n - cut), &mut evals) {
                cut /= 2;
            }
        }
        // delete chunks
        let mut size = (best.choices.len() / 4).clamp(1, 64);
        loop {
            let mut i = best.choices.len();
            while i >= size {
                i -= size;
                if i + size <= best.choices.len() {
                    let mut c = best.choices.clone();
                    c.drain(i..i + size);
                    if !try_one(best, c, &mut evals) {
                        // zero the chunk instead
                        if best.choices[i..i + size].iter().any(|&x| x != 0) {
                            let mut c = best.choices.clone();
                            c[i..i + size].iter_mut().for_each(|x| *x = 0);
                            try_one(best, c, &mut evals);
                        }
                    }
                }
                i = i.min(best.choices.len());
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.choices.len() {
            let v = best.choices[i];
            if v > 0 {
                for cand in [v / 2, v - 1] {
                    if i < best.choices.len() && best.choices[i] == v && cand < v {
                        let mut c = best.choices.clone();
                        c[i] = cand;
                        if try_one(best, c, &mut evals) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best.choices == before || evals >= 3000 || t0.elapsed() > budget {
            break;
        }
    }
    drop(try_one);
    if let Some(s) = server {
        s.stop();
    }
    evals
}

const HANG: i32 = -1;

fn before_trunc(c: &[u64], n: usize) -> Vec<u64> {
    c[..n].to_vec()
}

enum ShardEnd {
    Done(J),
    Fail { i: u64, msg: String, text: String, choices: Vec<u64>, stats: Option<J> },
    Suspect { i: u64, sig: i32 },
    Error(String),
}

pub fn verif_dir() -> String {
    std::env::var("TICV_VERIF").unwrap_or_else(|_| "/verif".into())
}

pub fn supervise(p: &'static Prop, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let mut n = if thorough { p.thorough } else { p.quick };
    if let Some(k) = std::env::var("TICV_N").ok().and_then(|s| s.parse().ok()) {
        n = k;
    }
    let shards: u64 = std::env::var("TICV_J").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let ends: Arc<Mutex<Vec<ShardEnd>>> = Arc::new(Mutex::new(Vec::new()));
    // all stop soon after one of them found something, or when time is up
    let stop = Arc::new(format!("{}/evidence/.stop-{}-{}", verif_dir(), p.id, std::process::id()));
    let _ = std::fs::remove_file(&*stop);
    let going = Arc::new(std::sync::atomic::AtomicBool::new(true));
    let clock = {
        let (stop, going) = (stop.clone(), going.clone());
        std::thread::spawn(move || {
            while going.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                if !thorough && t0.elapsed() > QUICK_WALL {
                    let _ = std::fs::write(&*stop, "");
                }
            }
        })
    };
    let mut handles = Vec::new();
    for k in 0..shards {
        let ends = ends.clone();
        let stop = stop.clone();
        handles.push(std::thread::spawn(move || {
            let mut child = Command::new(exe())
                .env("TICV_STOP", &*stop)
                .args(["work", p.id, &seed.to_string(), if thorough { "thorough" } else { "quick" }, &k.to_string(), &shards.to_string(), &n.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            let stdout = child.stdout.take().unwrap();
            let mut last = None;
            let mut stats = None;
            let mut fail = None;
            let mut broken = None;
            let mut hung = false;
            for line in BufReader::new(stdout).lines() {
                let Ok(line) = line else { break };
                if let Some(r) = line.strip_prefix("B ") {
                    last = r.parse::<u64>().ok();
                } else if let Some(r) = line.strip_prefix("F ") {
                    fail = serde_json::from_str::<J>(r).ok();
                } else if let Some(r) = line.strip_prefix("X ") {
                    broken = Some(format!("harness error {}", r));
                } else if line == "H" {
                    hung = true;
                } else if line == "T" {
                    broken = Some(format!("case {:?} did not finish in time", last));
                } else if let Some(r) = line.strip_prefix("S ") {
                    stats = serde_json::from_str::<J>(r).ok();
                }
            }
            let st = child.wait().unwrap();
            use std::os::unix::process::ExitStatusExt;
            let end = if let Some(f) = fail {
                ShardEnd::Fail {
                    i: f["i"].as_u64().unwrap(),
                    msg: f["msg"].as_str().unwrap().to_owned(),
                    text: f["text"].as_str().unwrap_or("").to_owned(),
                    choices: f["choices"].as_array().unwrap().iter().filter_map(|x| x.as_u64()).collect(),
                    stats,
                }
            } else if let Some(b) = broken {
                ShardEnd::Error(b)
            } else if hung && last.is_some() {
                ShardEnd::Suspect { i: last.unwrap(), sig: HANG }
            } else if let Some(sig) = st.signal() {
                match last {
                    Some(i) => ShardEnd::Suspect { i, sig },
                    None => ShardEnd::Error(format!("worker died with signal {} before any case", sig)),
                }
            } else if let Some(s) = stats {
                ShardEnd::Done(s)
            } else {
                ShardEnd::Error(format!("worker ended with {:?} at case {:?}", st, last))
            };
            if !matches!(end, ShardEnd::Done(_)) {
                let _ = std::fs::write(&*stop, "");
            }
            ends.lock().unwrap().push(end);
        }));
    }
    for h in handles {
        h.join().unwrap();
    }
    going.store(false, Ordering::SeqCst);
    let _ = clock.join();
    let _ = std::fs::remove_file(&*stop);
    let ends = std::mem::take(&mut *ends.lock().unwrap());
    let mut stats = Stats::default();
    let mut add = |s: &J| {
        stats.evals += s["evals"].as_u64().unwrap_or(0);
        stats.discarded += s["discarded"].as_u64().unwrap_or(0);
        for h in s["nt"].as_array().into_iter().flatten() {
            stats.nontrivial.insert(h.as_u64().unwrap_or(0));
        }
        if let Some(m) = s["labels"].as_object() {
            for (k, v) in m {
                *stats.labels.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
            }
        }
        for x in s["samples"].as_array().into_iter().flatten() {
            stats.samples.push(x.as_str().unwrap_or("").to_owned());
        }
    };
    let mut errors = Vec::new();
    let mut fails = Vec::new();
    for e in ends {
        match e {
            ShardEnd::Done(s) => add(&s),
            ShardEnd::Fail { i, msg, text, choices, stats } => {
                if let Some(s) = stats {
                    add(&s);
                }
                fails.push((i, msg, text, choices));
            }
            ShardEnd::Suspect { i, sig } => {
                // reproduce in a fresh process, from the recorded seed; the
                // choices are written out before the code under test runs
                let path = format!("{}/evidence/.choices-{}-{}", verif_dir(), p.id, i);
                let _ = std::fs::remove_file(&path);
                let mut c = Command::new(exe());
                c.args(["one", p.id, &seed.to_string(), if thorough { "thorough" } else { "quick" }, &i.to_string()]);
                c.env("TICV_DUMP", &path);
                let st = c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap();
                let choices = std::fs::read_to_string(&path)
                    .unwrap_or_default()
                    .split(',')
                    .filter_map(|s| s.parse().ok())
                    .collect::<Vec<u64>>();
                let _ = std::fs::remove_file(&path);
                use std::os::unix::process::ExitStatusExt;
                match (st.signal(), st.code()) {
                    (Some(s2), _) if matches!(s2, 4 | 6 | 7 | 8 | 11) => {
                        fails.push((i, format!("crash: process died with signal {} evaluating this case", s2), String::new(), choices));
                    }
                    (_, Some(97)) => {
                        fails.push((i, format!("hang: no result after {} s of processor time", HANG_CPU), String::new(), choices));
                    }
                    (other, code) => errors.push(format!("worker died with signal {} at case {} (fresh run: {:?} {:?})", sig, i, other, code)),
                }
            }
            ShardEnd::Error(m) => errors.push(m),
        }
    }
    fails.sort_by_key(|f| f.0);
    let mut violation = None;
    for (i, msg, text, choices) in fails {
        let class = class_of(&msg);
        let confirmed = class == "hang" || (class == "crash" && choices.is_empty());
        let fresh = if confirmed {
            Verdict::Fail { msg: msg.clone(), text: text.clone(), choices: choices.clone() }
        } else {
            // something that depends on hashing order may need a few attempts
            let mut v = Verdict::Pass;
            let until = Instant::now() + Duration::from_secs(60);
            for n in 0..200 {
                if n >= 8 && Instant::now() > until {
                    break;
                }
                v = run_fresh(p.id, thorough, i, &choices, Duration::from_secs(200));
                if !matches!(v, Verdict::Pass) {
                    break;
                }
            }
            v
        };
        match fresh {
            Verdict::Fail { msg, text: t2, choices: c2 } => {
                let text = if t2.is_empty() { text } else { t2 };
                violation = Some((i, Best { msg, text, choices: c2 }));
                break;
            }
            Verdict::Pass => errors.push(format!("case {} failed ({}) but passes in a fresh process", i, msg)),
            Verdict::Other(o) => errors.push(format!("case {} failed ({}) but a fresh process says {}", i, msg, o)),
        }
    }
    let mut violations = 0;
    let mut rc = 0;
    if let Some((i, mut best)) = violation {
        violations = 1;
        rc = 1;
        let original = best.choices.len();
        let evals = if std::env::var("TICV_NOSHRINK").is_ok() || best.choices.is_empty() || class_of(&best.msg) == "hang" { 0 } else { shrink(p.id, thorough, i, &mut best) };
        let dir = format!("{}/evidence/replay", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-seed{}-case{}.json", dir, p.id, seed, i);
        let doc = json!({
            "property": p.id, "seed": seed, "tier": if thorough { "thorough" } else { "quick" }, "case": i,
            "message": best.msg, "input": best.text, "choices": best.choices,
            "choices_before_shrinking": original, "shrink_evaluations": evals,
            "replay": format!("/verif/run.sh replay {}", path),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        println!("VIOLATION property={} replay={}", p.id, path);
        println!("  case {} of seed {}: {}", i, seed, best.msg);
        for l in best.text.lines().take(60) {
            println!("  | {}", l);
        }
    } else if !errors.is_empty() {
        rc = 3;
    }
    // defects that are recorded and not repaired are tried again every time
    if p.id == "C31" && listed("C31", "final-newline") {
        if let Some(f) = crate::props::c31_finding() {
            println!("KNOWN-FINDING: property=C31 {}", f);
        }
    }
    for e in &errors {
        println!("ERROR property={} {}", p.id, e);
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut samples = stats.samples.clone();
    samples.sort();
    samples.truncate(4);
    if samples.is_empty() {
        samples.push("(no non-trivial case in this run)".into());
    }
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.evals,
            "distinct_nontrivial": stats.nontrivial.len(),
            "rule": p.rule,
            "samples": samples,
            "discarded": stats.discarded,
            "classes": stats.labels,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
    let path = format!("{}/evidence/{}.json", verif_dir(), p.id);
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()) {
        println!("ERROR cannot write evidence: {}", e);
        return 3;
    }
    println!(
        "{}: {} cases ({} discarded), {} distinct non-trivial, {:.1}s, {}",
        p.id, stats.evals, stats.discarded, stats.nontrivial.len(), wall,
        if rc == 0 { "held" } else if rc == 1 { "VIOLATED" } else { "error" }
    );
    if std::env::var("TICV_LABELS").is_ok() {
        for (k, v) in &stats.labels {
            println!("   {:6} {}", v, k);
        }
    }
    rc
}

/// Whether known_findings.txt lists this as a defect that is not repaired.
pub fn listed(id: &str, signature: &str) -> bool {
    let line = format!("finding: property={} {} ", id, signature);
    std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).is_ok_and(|t| t.lines().any(|l| l.starts_with(&line)))
}

thread_local! {
    static DUMP: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

/// Called by case functions once generation is done, so that a crashing case
/// still leaves its choices behind.
pub fn generated(src: &Src) {
    DUMP.with(|d| {
        if let Some(path) = &*d.borrow() {
            let t: Vec<String> = src.rec.iter().map(|c| c.to_string()).collect();
            let _ = std::fs::write(path, t.join(","));
        }
    });
}

pub fn one(p: &'static Prop, seed: u64, thorough: bool, i: u64) -> i32 {
    let dump = std::env::var("TICV_DUMP").ok();
    watchdog(hang_limit());
    CASE_START.store(1, Ordering::SeqCst);
    on_big_stack(move || {
        DUMP.with(|d| *d.borrow_mut() = dump);
        let r = run_case(p, Src::case(p.id, seed, i), thorough, i);
        report(r)
    })
}

pub fn replay(p: &'static Prop, thorough: bool, i: u64, choices: Vec<u64>) -> i32 {
    on_big_stack(move || report(run_case(p, Src::replay(choices), thorough, i)))
}

fn report(r: Run) -> i32 {
    match r {
        Run::Pass(c, _) => {
            println!("{}\n-- {} {:?}", c.text, if c.discarded { "discarded" } else if c.nontrivial { "passes (non-trivial)" } else { "passes" }, c.labels);
            0
        }
        Run::Fail(m, c, _) => {
            println!("{}\n-- FAILS: {}", c.text, m);
            1
        }
        Run::Broken(m, _) => {
            println!("harness error: {}", m);
            3
        }
    }
}
