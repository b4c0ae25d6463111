//! Runs the parts of a property check over generated cases, shrinks failures, writes replay and
//! evidence files, and applies the committed list of known findings.

use crate::pbt::{hash_str, mix, shrink, Source};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one executed case exercised.
#[derive(Default, Debug, Clone)]
pub struct Info {
    pub nontrivial: bool,
    /// Oracle comparisons made.
    pub compared: u64,
    pub labels: Vec<String>,
    /// Known findings this case ran into (their `match` ids) and that were excluded.
    pub excluded: Vec<String>,
}

impl Info {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn label_if(&mut self, c: bool, s: &str) {
        if c {
            self.labels.push(s.to_string());
        }
    }
}

/// A violation: `sig` is stable across shrinking (what failed), `msg` has the details.
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail { sig: sig.into(), msg: msg.into() }
    }
}

pub type R<T> = Result<T, Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($a:tt)*) => { return Err($crate::runner::Fail::new($sig, format!($($a)*))) };
}

pub trait Part: Sync {
    type Case: Serialize + DeserializeOwned + Send;
    fn name(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> usize;
    fn generate(&self, s: &mut Source) -> Self::Case;
    fn run(&self, case: &Self::Case) -> R<Info>;
    fn threads(&self) -> usize {
        8
    }
    fn shrink_budget(&self) -> usize {
        600
    }
}

pub struct PartReport {
    pub name: String,
    pub rule: String,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub compared: u64,
    pub labels: BTreeMap<String, u64>,
    pub excluded: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
}

pub struct Failure {
    pub part: String,
    pub case: Value,
    pub fail: Fail,
    pub shrink_runs: usize,
}

pub trait DynPart: Sync {
    fn part_name(&self) -> &'static str;
    fn explore(&self, prop: &str, seed: u64, tier: Tier, scale: f64) -> PartReport;
    fn replay(&self, case: &Value) -> R<Info>;
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let p = i.payload();
        let msg = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        // Only a worker asks which library a crash is in: it takes a backtrace.
        let via = if crate::worker::in_worker() && !loc.starts_with("/repo/") { library() } else { None };
        let via = via.map(|l| format!(" [in {l}]")).unwrap_or_default();
        LAST_PANIC.with(|c| *c.borrow_mut() = format!("{msg} at {loc}{via}"));
    }));
}

/// The decoding library that the innermost frames belong to, before any of the code under test.
pub fn library() -> Option<&'static str> {
    let b = std::backtrace::Backtrace::force_capture().to_string();
    library_of(&b)
}

pub fn library_of(backtrace: &str) -> Option<&'static str> {
    for l in backtrace.lines() {
        let l = l.trim_start();
        let Some((n, name)) = l.split_once(": ") else { continue };
        if n.parse::<u32>().is_err() {
            continue;
        }
        for lib in ["parquet", "apache_avro"] {
            if name.contains(&format!("{lib}::")) {
                return Some(lib);
            }
        }
        if name.contains("hudi_core::") {
            return None;
        }
    }
    None
}

/// Set while the recorded input of a listed finding is run: nothing is excused then.
pub static STRICT: AtomicBool = AtomicBool::new(false);

/// Whether a class of crashes is listed as a finding of the property.
pub fn known_class(prop: &str, sig: &str) -> bool {
    if STRICT.load(Ordering::Relaxed) {
        return false;
    }
    static K: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        known_findings()
            .iter()
            .filter(|k| k["status"].as_str() != Some("fixed") && k["class"].as_bool() == Some(true))
            .map(|k| (k["property"].as_str().unwrap_or("").into(), k["sig"].as_str().unwrap_or("").into()))
            .collect()
    })
    .iter()
    .any(|(p, s)| p == prop && s == sig)
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|c| c.borrow().clone())
}

/// Runs `f`, turning a panic of the code under test into a failure.
pub fn guarded<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let p = last_panic();
            if p.contains("HARNESS:") {
                // A mistake in the machinery itself is an error exit, never a violation.
                eprintln!("{p}");
                std::process::exit(3);
            }
            let lib = ["parquet", "apache_avro"].iter().find(|l| p.ends_with(&format!(" [in {l}]")));
            let sig = lib.map(|l| format!("panic in {l}")).unwrap_or("panic".into());
            Err(Fail::new(sig, format!("the code under test panicked: {p}")))
        }
    }
}

static BUSY: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

/// Set when the cases are run in worker processes, as the check itself crashed or hung.
pub static ISOLATED: AtomicBool = AtomicBool::new(false);

/// How a check ends when one of its cases does not.
const HUNG: i32 = 5;

fn exec<P: Part>(p: &P, case: &P::Case) -> R<Info> {
    if ISOLATED.load(Ordering::Relaxed) {
        crate::worker::remote(p.name(), &serde_json::to_value(case).expect("HARNESS: case to json"))
    } else {
        p.run(case)
    }
}

pub fn start_watchdog(limit_s: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let now = now_s();
        for b in &BUSY {
            let t = b.load(Ordering::Relaxed);
            if t != 0 && now.saturating_sub(t) > limit_s {
                eprintln!("a case ran for more than {limit_s} s: no answer");
                std::process::exit(if ISOLATED.load(Ordering::Relaxed) { 3 } else { HUNG });
            }
        }
    });
}

fn now_s() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_secs()
}

impl<P: Part> DynPart for P {
    fn part_name(&self) -> &'static str {
        self.name()
    }

    fn replay(&self, case: &Value) -> R<Info> {
        let c: P::Case = serde_json::from_value(case.clone())
            .unwrap_or_else(|e| panic!("HARNESS: cannot read the case: {e}"));
        guarded(|| self.run(&c))
    }

    fn explore(&self, prop: &str, seed: u64, tier: Tier, scale: f64) -> PartReport {
        let total = ((self.cases(tier) as f64 * scale) as usize).max(1);
        let size = if tier == Tier::Thorough { 2 } else { 1 };
        let base = mix(seed ^ hash_str(prop) ^ hash_str(self.name()).rotate_left(17));
        let next = AtomicUsize::new(0);
        let stop_at = AtomicUsize::new(usize::MAX);
        struct Acc {
            seen: HashSet<u64>,
            nontrivial: u64,
            evals: u64,
            compared: u64,
            labels: BTreeMap<String, u64>,
            excluded: BTreeMap<String, u64>,
            samples: Vec<(usize, Value)>,
            failures: Vec<(usize, Vec<u64>, Fail)>,
        }
        let acc = Mutex::new(Acc {
            seen: HashSet::new(),
            nontrivial: 0,
            evals: 0,
            compared: 0,
            labels: BTreeMap::new(),
            excluded: BTreeMap::new(),
            samples: vec![],
            failures: vec![],
        });
        std::thread::scope(|sc| {
            for w in 0..self.threads() {
                let (next, stop_at, acc) = (&next, &stop_at, &acc);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= total || i > stop_at.load(Ordering::SeqCst) {
                            break;
                        }
                        BUSY[w].store(now_s(), Ordering::Relaxed);
                        let mut s = Source::random(mix(base ^ (i as u64)), size);
                        let case = guarded_gen(|| self.generate(&mut s));
                        let js = serde_json::to_string(&case).expect("HARNESS: case to json");
                        let r = guarded(|| exec(self, &case));
                        BUSY[w].store(0, Ordering::Relaxed);
                        let mut a = acc.lock().unwrap();
                        a.evals += 1;
                        match r {
                            Ok(info) => {
                                a.compared += info.compared;
                                if info.nontrivial && a.seen.insert(hash_str(&js)) {
                                    a.nontrivial += 1;
                                    if a.samples.len() < 2 || i < 16 {
                                        let v: Value = serde_json::from_str(&js).unwrap();
                                        a.samples.push((i, v));
                                    }
                                }
                                for l in info.labels {
                                    *a.labels.entry(l).or_default() += 1;
                                }
                                for l in info.excluded {
                                    *a.excluded.entry(l).or_default() += 1;
                                }
                            }
                            Err(f) => {
                                stop_at.fetch_min(i, Ordering::SeqCst);
                                a.failures.push((i, s.trace.clone(), f));
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let mut a = acc.into_inner().unwrap();
        a.failures.sort_by_key(|f| f.0);
        a.samples.sort_by_key(|f| f.0);
        let failure = a.failures.into_iter().next().map(|(_, trace, fail)| {
            let sig = fail.sig.clone();
            let last = RefCell::new((trace.clone(), fail));
            let t0 = Instant::now();
            let (best, runs) = shrink(trace, self.shrink_budget(), |c| {
                if t0.elapsed().as_secs() > 90 {
                    return None;
                }
                let mut s = Source::replay(c, size);
                let case = catch_unwind(AssertUnwindSafe(|| self.generate(&mut s))).ok()?;
                match guarded(|| exec(self, &case)) {
                    Err(f) if f.sig == sig => {
                        *last.borrow_mut() = (s.trace.clone(), f);
                        Some(s.trace)
                    }
                    _ => None,
                }
            });
            let mut s = Source::replay(best, size);
            let case = guarded_gen(|| self.generate(&mut s));
            let fail = match guarded(|| exec(self, &case)) {
                Err(f) => f,
                Ok(_) => last.into_inner().1,
            };
            Failure {
                part: self.name().to_string(),
                case: serde_json::to_value(&case).unwrap(),
                fail,
                shrink_runs: runs,
            }
        });
        PartReport {
            name: self.name().to_string(),
            rule: self.rule().to_string(),
            evaluations: a.evals,
            distinct_nontrivial: a.nontrivial,
            compared: a.compared,
            labels: a.labels,
            excluded: a.excluded,
            samples: a.samples.into_iter().take(2).map(|s| s.1).collect(),
            failure,
        }
    }
}

fn guarded_gen<T>(f: impl FnOnce() -> T) -> T {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => {
            eprintln!("HARNESS: the generator panicked: {}", last_panic());
            std::process::exit(3);
        }
    }
}

pub struct Check {
    pub id: &'static str,
    pub parts: Vec<Box<dyn DynPart>>,
    pub assumptions: Vec<&'static str>,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

/// A finding: `property`, `part`, `sig` (exact) and optional `msg_contains`.
fn known_findings() -> Vec<Value> {
    let p = format!("{}/known_findings.json", verif_dir());
    match std::fs::read_to_string(&p) {
        Ok(s) => serde_json::from_str::<Value>(&s)
            .unwrap_or_else(|e| panic!("HARNESS: {p}: {e}"))
            .get("findings")
            .and_then(|v| v.as_array().cloned())
            .unwrap_or_default(),
        Err(_) => vec![],
    }
}

fn truncate(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 6000 {
        v.clone()
    } else {
        let mut end = 6000;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        json!(format!("{} …", &s[..end]))
    }
}

pub fn main_with(checks: Vec<Check>) -> i32 {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let usage = "usage: check ID | replay FILE | list";
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in &checks {
                println!("{}", c.id);
                for p in &c.parts {
                    println!("  {}", p.part_name());
                }
            }
            0
        }
        Some("check") => {
            let id = args.get(2).expect(usage);
            let Some(c) = checks.iter().find(|c| c.id == id) else {
                eprintln!("no such check {id}");
                return 2;
            };
            let only = args.get(3).map(|s| s.as_str());
            if std::env::var("HV_DIRECT").is_ok() {
                return run_check(c, only);
            }
            match run_directly(&args[1..]) {
                Some(code) if code != HUNG => code,
                _ => {
                    // Running each case in a process of its own tells which one it is.
                    eprintln!("the check ended without an answer: isolating its cases");
                    ISOLATED.store(true, Ordering::Relaxed);
                    match run_check(c, only) {
                        0 => 3,
                        code => code,
                    }
                }
            }
        }
        Some("worker") => crate::worker::serve(&checks),
        Some("replay") => {
            let f = args.get(2).expect(usage);
            let v: Value = serde_json::from_str(&std::fs::read_to_string(f).expect("read")).expect("json");
            let id = v["property"].as_str().unwrap();
            let c = checks.iter().find(|c| c.id == id).expect("property");
            let p = c
                .parts
                .iter()
                .find(|p| p.part_name() == v["part"].as_str().unwrap())
                .expect("part");
            match p.replay(&v["case"]) {
                Ok(i) => {
                    println!("holds: {i:?}");
                    0
                }
                Err(e) => {
                    println!("fails [{}]: {}", e.sig, e.msg);
                    1
                }
            }
        }
        _ => {
            eprintln!("{usage}");
            2
        }
    }
}

/// Runs the check in a child process; `None` if it crashes.
fn run_directly(args: &[String]) -> Option<i32> {
    let exe = std::env::current_exe().expect("HARNESS: exe");
    let mut child = std::process::Command::new(exe)
        .args(args)
        .env("HV_DIRECT", "1")
        .spawn()
        .expect("HARNESS: child");
    let pid = child.id();
    let code = child.wait().expect("HARNESS: wait").code();
    if !matches!(code, Some(0 | 1)) {
        crate::worker::remove_scratch_of(pid);
    }
    code
}

fn run_check(c: &Check, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let scale: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    start_watchdog(if ISOLATED.load(Ordering::Relaxed) { 240 } else { 120 });
    let findings = known_findings();
    let mut reports = vec![];
    let mut violations = vec![];
    let dir = verif_dir();
    for p in &c.parts {
        if only.is_some_and(|o| o != p.part_name()) {
            continue;
        }
        let t = Instant::now();
        let r = p.explore(c.id, seed, tier, scale);
        eprintln!(
            "{} {}: {} cases, {} distinct non-trivial, {} comparisons, {:.1} s",
            c.id,
            r.name,
            r.evaluations,
            r.distinct_nontrivial,
            r.compared,
            t.elapsed().as_secs_f64()
        );
        if std::env::var("VERIF_LABELS").is_ok() {
            for (l, n) in &r.labels {
                eprintln!("    {l}: {n}");
            }
            for (l, n) in &r.excluded {
                eprintln!("    excluded {l}: {n}");
            }
        }
        if let Some(f) = &r.failure {
            violations.push((f.part.clone(), f.case.clone(), f.fail.clone(), f.shrink_runs));
        }
        reports.push(r);
    }
    // Known findings are replayed on their own recorded input, so that a listed one is announced
    // while it still fails, and nothing else is suppressed.
    for k in &findings {
        if k["property"].as_str() != Some(c.id) || k["status"].as_str() == Some("fixed") {
            continue;
        }
        let Some(p) = c.parts.iter().find(|p| Some(p.part_name()) == k["part"].as_str()) else {
            continue;
        };
        STRICT.store(true, Ordering::Relaxed);
        let r = p.replay(&k["case"]);
        STRICT.store(false, Ordering::Relaxed);
        match r {
            Err(f) if Some(f.sig.as_str()) == k["sig"].as_str() => {
                println!("KNOWN-FINDING: property={} {}", c.id, k["what"].as_str().unwrap_or(""));
            }
            Err(f) => violations.push((p.part_name().to_string(), k["case"].clone(), f, 0)),
            Ok(_) => {}
        }
    }
    let mut code = 0;
    for (n, (part, case, fail, runs)) in violations.iter().enumerate() {
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        let path = format!("{dir}/replays/{}-{}.json", c.id, n);
        let body = json!({
            "property": c.id, "part": part, "sig": fail.sig, "message": fail.msg,
            "seed": seed, "shrink_runs": runs, "case": case,
            "how": format!("bash {dir}/replay.sh {path}"),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("write replay");
        let mut m = fail.msg.clone();
        if m.len() > 1500 {
            let mut e = 1500;
            while !m.is_char_boundary(e) {
                e -= 1;
            }
            m.truncate(e);
        }
        println!("part {part}: [{}] {}", fail.sig, m);
        println!("VIOLATION property={} replay={}", c.id, path);
        code = 1;
    }
    let evals: u64 = reports.iter().map(|r| r.evaluations).sum();
    let nontriv: u64 = reports.iter().map(|r| r.distinct_nontrivial).sum();
    let parts: Vec<Value> = reports
        .iter()
        .map(|r| {
            json!({
                "part": r.name, "evaluations": r.evaluations,
                "distinct_nontrivial": r.distinct_nontrivial,
                "comparisons": r.compared, "classes": r.labels, "excluded": r.excluded,
                "rule": r.rule,
            })
        })
        .collect();
    let samples: Vec<Value> = reports
        .iter()
        .flat_map(|r| r.samples.iter().take(1).map(|s| json!({"part": r.name, "case": truncate(s)})))
        .collect();
    let rule = reports
        .iter()
        .map(|r| format!("[{}] {}", r.name, r.rule))
        .collect::<Vec<_>>()
        .join(" ");
    let ev = json!({
        "property": c.id,
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": nontriv, "rule": rule,
            "samples": samples, "parts": parts,
        },
        "assumptions": c.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    if only.is_none() {
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        std::fs::write(
            format!("{dir}/evidence/{}.json", c.id),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("write evidence");
    }
    code
}
