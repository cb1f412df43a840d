//! Check framework: sharded deterministic cases, crash/hang supervision, verdicts, evidence.
use crate::rng::{hash_bytes, mix, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

#[derive(Clone, Debug)]
pub enum Bad {
    Violation { sig: String, msg: String },
    Inconclusive(String),
    /// The case asked SQLite for more work than the budget of one call: it's cut short, and judged up to there.
    Costly,
}
impl From<String> for Bad { fn from(s: String) -> Bad { Bad::Violation { sig: String::new(), msg: s } } }
impl<'a> From<&'a str> for Bad { fn from(s: &'a str) -> Bad { s.to_string().into() } }
pub type R<T = ()> = Result<T, Bad>;

pub fn bad<T>(msg: impl Into<String>) -> R<T> { Err(Bad::Violation { sig: String::new(), msg: msg.into() }) }
pub fn bad_sig<T>(sig: impl Into<String>, msg: impl Into<String>) -> R<T> { Err(Bad::Violation { sig: sig.into(), msg: msg.into() }) }
pub fn inconclusive<T>(msg: impl Into<String>) -> R<T> { Err(Bad::Inconclusive(msg.into())) }

/// Check setup errors of the harness itself are inconclusive, never a verdict.
pub trait Harness<T> { fn h(self, what: &str) -> R<T>; }
impl<T, E: std::fmt::Debug> Harness<T> for Result<T, E> {
    fn h(self, what: &str) -> R<T> { self.map_err(|e| Bad::Inconclusive(format!("{}: {:?}", what, e))) }
}

pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub index: u64,
    pub tier: Tier,
    pub scratch: PathBuf,
    pub trace: Vec<String>,
    pub stats: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub evals: u64,
    pub samples: Vec<String>,
    /// Defects pinned down to one input each: (signature, what failed).
    pub findings: Vec<(String, String)>,
    pub verbose: bool,
}
impl Ctx {
    /// Report a failure of a specific input; it is a violation unless known_findings.json lists it.
    pub fn finding(&mut self, sig: &str, msg: impl Into<String>) {
        let msg = msg.into();
        if self.verbose { eprintln!("finding [{}]: {}", sig, msg); }
        if !self.findings.iter().any(|f| f.0 == sig) { self.findings.push((sig.to_string(), msg)); }
    }
    pub fn note(&mut self, s: impl Into<String>) {
        let s = s.into();
        if self.verbose { eprintln!("{}", s); }
        self.trace.push(s);
    }
    pub fn count(&mut self, k: &str) { self.add(k, 1); }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.stats.get_mut(k) { *x += n; return; }
        self.stats.insert(k.to_string(), n);
    }
    /// Record one evaluation whose content is `key`; non-trivial ones are counted distinctly.
    pub fn eval(&mut self, nontrivial: bool, key: &str) {
        self.evals += 1;
        if nontrivial { self.distinct.insert(hash_bytes(key.as_bytes())); }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 { let s = s(); self.samples.push(s.chars().take(1500).collect()); }
    }
    /// A fresh scratch file name for this case.
    pub fn file(&self, name: &str) -> PathBuf { self.scratch.join(name) }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub case: fn(&mut Ctx) -> R,
    /// Directed cases run first, as indices 0..directed (same function, ctx.index < directed).
    pub quick: (u64, u64),    // cases, seconds
    pub thorough: (u64, u64),
    pub min_nontrivial: u64,
    pub workers: usize,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_panic_hook(verbose: bool) {
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        if verbose { eprintln!("panic at {}: {}", loc, msg); }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn is_harness_loc(loc: &str) -> bool { loc.starts_with("src/") || loc.contains("/verif/harness/") || loc.contains("harness/src/") }

/// Run code under test; a panic becomes Err((location, message)).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

/// Steps of SQLite's virtual machine that one call may take: seconds of work, where the cases take milliseconds.
const CALL_BUDGET: i64 = 120_000_000;
const CALL_SLICE: i32 = 2_000;
const CALL_TIME: Duration = Duration::from_secs(10);
thread_local! { static SINCE: std::cell::Cell<Option<Instant>> = std::cell::Cell::new(None); }
thread_local! { static PATIENCE: std::cell::Cell<f64> = std::cell::Cell::new(1.0); }
/// Let calls take this many times as much.
pub fn patience(n: f64) { PATIENCE.with(|p| p.set(n)); }
thread_local! { static BUDGET: std::cell::Cell<i64> = std::cell::Cell::new(i64::max_value()); }

extern "C" fn spend(_: *mut std::os::raw::c_void) -> std::os::raw::c_int {
    BUDGET.with(|b| {
        let n = b.get();
        if n == i64::max_value() { return 0; }
        // virtual tables do much work per step
        let n = if SINCE.with(|s| s.get()).map_or(false, |t| t.elapsed() > CALL_TIME.mul_f64(PATIENCE.with(|p| p.get()))) { -1 } else { n - CALL_SLICE as i64 };
        b.set(n);
        (n < 0) as _
    })
}

/// Have this connection interrupted when a `call` exceeds its budget.
pub fn limit_work(c: &rusqlite::Connection) {
    unsafe { rusqlite::ffi::sqlite3_progress_handler(c.handle(), CALL_SLICE, Some(spend), std::ptr::null_mut()); }
}

/// As `guard`, with a panic in the code under test turned into a violation.
pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    BUDGET.with(|b| b.set((CALL_BUDGET as f64 * PATIENCE.with(|p| p.get())) as i64));
    SINCE.with(|s| s.set(Some(Instant::now())));
    let r = guard(f);
    let left = BUDGET.with(|b| b.replace(i64::max_value()));
    if left < 0 { return Err(Bad::Costly); }
    r.map_err(|(loc, msg)| {
        if is_harness_loc(&loc) { Bad::Inconclusive(format!("harness panic in {}: {} {}", what, loc, msg)) }
        else { Bad::Violation { sig: format!("panic:{}", msg.chars().take(60).collect::<String>()), msg: format!("{} panicked at {}: {}", what, loc, msg) } }
    })
}

pub fn run_case(p: &Prop, seed: u64, index: u64, tier: Tier, scratch: &Path, verbose: bool) -> (Ctx, R) {
    let mut ctx = Ctx {
        rng: Rng::new(mix(seed ^ mix(hash_bytes(p.id.as_bytes()) ^ index.wrapping_mul(0x1234_5678_9abc_def1)))),
        seed, index, tier, scratch: scratch.to_path_buf(), trace: vec![], stats: BTreeMap::new(),
        distinct: HashSet::new(), evals: 0, samples: vec![], findings: vec![], verbose,
    };
    let r = guard(|| (p.case)(&mut ctx));
    let r = match r {
        Ok(r) => r,
        Err((loc, msg)) => if is_harness_loc(&loc) { inconclusive(format!("harness panic at {}: {}", loc, msg)) }
            else { bad_sig(format!("panic:{}", msg.chars().take(60).collect::<String>()), format!("panic at {}: {}", loc, msg)) },
    };
    (ctx, r)
}

fn write_atomic(path: &Path, s: &str) { let t = path.with_extension("tmp"); let _ = fs::write(&t, s); let _ = fs::rename(&t, path); }

/// Worker: run every case of its shard until done or out of time.
pub fn worker(p: &Prop, seed: u64, tier: Tier, shard: u64, n: u64, out: &Path) -> i32 {
    let (cases, secs) = if tier == Tier::Quick { p.quick } else { p.thorough };
    let scratch = out.join(format!("scratch{}", shard));
    let start = Instant::now();
    let (mut evals, mut ran, mut incon) = (0u64, 0u64, 0u64);
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut incon_msgs: Vec<String> = vec![];
    let mut violations: Vec<Value> = vec![];
    let mut findings: Vec<Value> = vec![];
    let progress = out.join(format!("progress{}", shard));
    let mut i = shard;
    while i < cases && start.elapsed() < Duration::from_secs(secs) {
        let _ = fs::write(&progress, format!("{}", i));
        let _ = fs::create_dir_all(&scratch);
        let (ctx, r) = run_case(p, seed, i, tier, &scratch, false);
        ran += 1;
        evals += ctx.evals;
        distinct.extend(ctx.distinct);
        for (k, v) in ctx.stats { *stats.entry(k).or_insert(0) += v; }
        if samples.len() < 2 { samples.extend(ctx.samples); samples.truncate(2); }
        for (sig, msg) in ctx.findings {
            if !findings.iter().any(|f| f["sig"] == sig.as_str()) { findings.push(json!({"case": i, "sig": sig, "msg": msg, "trace": [msg]})); }
        }
        match r {
            Ok(()) => (),
            Err(Bad::Costly) => *stats.entry("cut_short".into()).or_insert(0) += 1,
            Err(Bad::Inconclusive(m)) => { incon += 1; if incon_msgs.len() < 3 { incon_msgs.push(format!("case {}: {}", i, m)); } }
            Err(Bad::Violation { sig, msg }) => {
                violations.push(json!({"case": i, "sig": sig, "msg": msg, "trace": ctx.trace}));
                if violations.len() >= 3 { break; }
            }
        }
        let _ = clean_dir(&scratch);
        i += n;
    }
    let _ = fs::remove_dir_all(&scratch);
    let res = json!({"evals": evals, "ran": ran, "inconclusive": incon, "inconclusive_msgs": incon_msgs, "stats": stats,
        "distinct": distinct.iter().collect::<Vec<_>>(), "samples": samples, "violations": violations, "findings": findings, "wall": start.elapsed().as_secs_f64()});
    write_atomic(&out.join(format!("result{}", shard)), &res.to_string());
    0
}

fn clean_dir(d: &Path) -> std::io::Result<()> {
    for e in fs::read_dir(d)? {
        let e = e?;
        if e.file_type()?.is_dir() { let _ = fs::remove_dir_all(e.path()); } else { let _ = fs::remove_file(e.path()); }
    }
    Ok(())
}

fn spawn(exe: &Path, args: &[String], out: &Path, tag: &str) -> std::io::Result<Child> {
    let err = fs::File::create(out.join(format!("stderr{}", tag)))?;
    Command::new(exe).args(args).env("RUST_BACKTRACE", "0").env("ASAN_OPTIONS", "detect_leaks=0").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::from(err)).spawn()
}

fn tail(path: &Path) -> String {
    let s = fs::read(path).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(6000)).collect()
}

/// Parent: supervise workers, merge, decide, write evidence. Returns the exit code.
pub fn parent(p: &Prop, seed: u64, tier: Tier, verif: &Path, extra: &[(String, u64)]) -> i32 {
    let start = Instant::now();
    let exe = std::env::current_exe().expect("exe");
    let out = PathBuf::from(format!("/tmp/mverif.{}.{}", p.id, std::process::id()));
    let _ = fs::create_dir_all(&out);
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let n = p.workers as u64;
    let (_, secs) = if tier == Tier::Quick { p.quick } else { p.thorough };
    let hang = Duration::from_secs(120);
    let deadline = start + Duration::from_secs(secs) + Duration::from_secs(240);
    struct W { child: Child, shard: u64, last: String, since: Instant, done: bool }
    let mut ws: Vec<W> = vec![];
    let mut errors: Vec<String> = vec![];
    for s in 0..n {
        let args = vec!["worker".into(), p.id.into(), s.to_string(), n.to_string(), out.to_string_lossy().into_owned(), seed.to_string(), tname.to_string()];
        match spawn(&exe, &args, &out, &s.to_string()) {
            Ok(child) => ws.push(W { child, shard: s, last: String::new(), since: Instant::now(), done: false }),
            Err(e) => errors.push(format!("spawn: {}", e)),
        }
    }
    let mut violations: Vec<Value> = vec![];
    let mut incon: Vec<String> = vec![];
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(20));
        for w in ws.iter_mut().filter(|w| !w.done) {
            let prog = fs::read_to_string(out.join(format!("progress{}", w.shard))).unwrap_or_default();
            if prog != w.last { w.last = prog; w.since = Instant::now(); }
            match w.child.try_wait() {
                Ok(Some(st)) => {
                    w.done = true;
                    if out.join(format!("result{}", w.shard)).exists() { continue; }
                    let case: u64 = w.last.trim().parse().unwrap_or(0);
                    let err = tail(&out.join(format!("stderr{}", w.shard)));
                    match st.signal() {
                        Some(libc::SIGKILL) => incon.push(format!("worker killed (case {})", case)),
                        Some(sig) => violations.push(json!({"case": case, "sig": format!("signal:{}", sig), "msg": format!("process died with signal {} in case {}", sig, case), "trace": [err]})),
                        None => {
                            if err.contains("AddressSanitizer") || err.contains("LeakSanitizer") || err.contains("ThreadSanitizer") {
                                violations.push(json!({"case": case, "sig": "sanitizer", "msg": format!("sanitizer report in case {}", case), "trace": [err]}));
                            } else { incon.push(format!("worker exited {:?} (case {}): {}", st.code(), case, err)); }
                        }
                    }
                }
                Ok(None) => {
                    let over = Instant::now() > deadline;
                    if w.since.elapsed() > hang || over {
                        let case: u64 = w.last.trim().parse().unwrap_or(0);
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        // Is it the case itself? Run it alone.
                        let t = Instant::now();
                        let mut solo_hang = false;
                        if let Ok(mut c) = spawn(&exe, &["case".into(), p.id.into(), case.to_string(), seed.to_string(), tname.to_string()], &out, "solo") {
                            loop {
                                if let Ok(Some(_)) = c.try_wait() { break; }
                                if t.elapsed() > Duration::from_secs(90) { solo_hang = true; let _ = c.kill(); let _ = c.wait(); break; }
                                std::thread::sleep(Duration::from_millis(50));
                            }
                        }
                        if solo_hang { violations.push(json!({"case": case, "sig": "hang", "msg": format!("case {} does not terminate (stuck {}s, and again alone)", case, hang.as_secs()), "trace": []})); }
                        else { incon.push(format!("no progress in case {} (finished alone)", case)); }
                    }
                }
                Err(e) => { w.done = true; errors.push(format!("wait: {}", e)); }
            }
        }
        // stop early once something is wrong
        if ws.iter().any(|w| w.done) {
            let early = ws.iter().filter(|w| w.done).any(|w| fs::read_to_string(out.join(format!("result{}", w.shard))).map(|s| !s.contains("\"violations\":[]")).unwrap_or(false));
            if early || !violations.is_empty() {
                for w in ws.iter_mut().filter(|w| !w.done) { let _ = w.child.kill(); let _ = w.child.wait(); w.done = true; }
            }
        }
    }
    // merge
    let (mut evals, mut ran, mut nincon) = (0u64, 0u64, incon.len() as u64);
    let mut stats: BTreeMap<String, u64> = extra.iter().cloned().collect();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    for w in &ws {
        let v: Value = match fs::read_to_string(out.join(format!("result{}", w.shard))).ok().and_then(|s| serde_json::from_str(&s).ok()) { Some(v) => v, None => continue };
        evals += v["evals"].as_u64().unwrap_or(0);
        ran += v["ran"].as_u64().unwrap_or(0);
        nincon += v["inconclusive"].as_u64().unwrap_or(0);
        for m in v["inconclusive_msgs"].as_array().unwrap_or(&vec![]) { incon.push(m.as_str().unwrap_or("").into()); }
        if let Some(o) = v["stats"].as_object() { for (k, x) in o { *stats.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0); } }
        for d in v["distinct"].as_array().unwrap_or(&vec![]) { distinct.insert(d.as_u64().unwrap_or(0)); }
        for s in v["samples"].as_array().unwrap_or(&vec![]) { if samples.len() < 6 { samples.push(s.clone()); } }
        for x in v["violations"].as_array().unwrap_or(&vec![]) { violations.push(x.clone()); }
        for x in v["findings"].as_array().unwrap_or(&vec![]) { violations.push(x.clone()); }
    }
    let known = known_findings(verif, p.id);
    let mut code = 0;
    let mut reported = 0;
    let mut known_hit: std::collections::BTreeSet<String> = Default::default();
    for v in &violations {
        let sig = v["sig"].as_str().unwrap_or("");
        if let Some((_, what)) = known.iter().find(|(s, _)| !s.is_empty() && s == sig) {
            if known_hit.insert(sig.to_string()) { println!("KNOWN-FINDING: property={} {}", p.id, what); }
            continue;
        }
        reported += 1;
        if reported <= 3 {
            let dir = verif.join("evidence").join("replay");
            let _ = fs::create_dir_all(&dir);
            let f = dir.join(format!("{}-{}-{}.json", p.id, seed, v["case"]));
            let rec = json!({"property": p.id, "seed": seed, "tier": tname, "case": v["case"], "sig": sig, "message": v["msg"], "trace": v["trace"],
                "rerun": format!("./run.sh case {} {} {}", p.id, v["case"], seed)});
            let _ = fs::write(&f, serde_json::to_string_pretty(&rec).unwrap_or_default());
            println!("{}", v["msg"].as_str().unwrap_or(""));
            println!("VIOLATION property={} replay={}", p.id, f.display());
        }
        code = 1;
    }
    let wall = start.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": tname, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": distinct.len(), "rule": p.rule, "samples": samples,
                     "cases": ran, "observed": stats, "inconclusive_cases": nincon, "inconclusive": incon.iter().take(5).collect::<Vec<_>>()},
        "assumptions": p.assumptions, "wall_s": wall, "violations": reported,
    });
    let _ = fs::create_dir_all(verif.join("evidence"));
    let _ = fs::write(verif.join("evidence").join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap_or_default());
    let _ = fs::remove_dir_all(&out);
    println!("{} {}: {} cases, {} evaluations, {} distinct non-trivial, {} inconclusive, {:.1}s", p.id, tname, ran, evals, distinct.len(), nincon, wall);
    for m in incon.iter().take(5) { println!("inconclusive: {}", m); }
    for m in &errors { println!("error: {}", m); }
    if code == 0 {
        if !errors.is_empty() { return 2; }
        if ran == 0 || nincon * 4 > ran { println!("error: too many inconclusive cases"); return 2; }
        if (distinct.len() as u64) < p.min_nontrivial { println!("error: observed only {} non-trivial evaluations (need {})", distinct.len(), p.min_nontrivial); return 2; }
    }
    let _ = std::io::stdout().flush();
    code
}

pub fn known_findings(verif: &Path, prop: &str) -> Vec<(String, String)> {
    let s = fs::read_to_string(verif.join("known_findings.json")).unwrap_or_default();
    let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
    v["findings"].as_array().map(|a| a.iter().filter(|x| x["property"] == prop).map(|x| (x["signature"].as_str().unwrap_or("").to_string(), x["what"].as_str().unwrap_or("").to_string())).collect()).unwrap_or_default()
}
