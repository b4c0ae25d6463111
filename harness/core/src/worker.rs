//! Runs cases in a child process with bounded memory, so that an abort, a stack overflow or a hang
//! of the code under test is an observed outcome of a case and not the end of the check.

use crate::pbt::Source;
use crate::runner::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::Duration;

static IN_WORKER: AtomicBool = AtomicBool::new(false);

/// Address space of a worker.
const LIMIT_KB: u64 = 6 << 20;
/// Far beyond what any case takes (tens of milliseconds).
const TIMEOUT_S: u64 = 120;

pub fn in_worker() -> bool {
    IN_WORKER.load(Ordering::Relaxed)
}

/// The largest single allocation that inputs of at most some hundred kilobytes may ask for.
const LARGEST: usize = 1 << 30;

/// In a worker, an allocation out of all proportion ends the process, saying who asked for it.
pub struct Alloc;

fn check(size: usize) {
    if size > LARGEST && in_worker() {
        let lib = library().map(|l| format!(" [in {l}]")).unwrap_or_default();
        eprintln!("ALLOCATION of {size} bytes{lib}");
        std::process::abort();
    }
}

unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        check(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        check(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        check(n);
        std::alloc::System.realloc(p, l, n)
    }
}

pub struct Isolated<P>(pub P);

struct Worker {
    child: Child,
    stdin: ChildStdin,
    lines: Receiver<String>,
    err: Arc<Mutex<Vec<u8>>>,
}

impl Worker {
    fn start(prop: &str) -> Worker {
        let exe = std::env::current_exe().expect("HARNESS: exe");
        let mut child = Command::new("/bin/bash")
            .arg("-c")
            .arg(format!("ulimit -v {LIMIT_KB}; ulimit -c 0; exec \"$0\" worker {prop}"))
            .arg(exe)
            .env("MALLOC_ARENA_MAX", "2")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("HARNESS: worker");
        let stdin = child.stdin.take().unwrap();
        let (tx, lines) = channel();
        let out = BufReader::new(child.stdout.take().unwrap());
        std::thread::spawn(move || {
            for l in out.lines() {
                let Ok(l) = l else { break };
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        let err = Arc::new(Mutex::new(vec![]));
        let (e2, mut es) = (err.clone(), child.stderr.take().unwrap());
        std::thread::spawn(move || {
            let mut b = [0u8; 4096];
            while let Ok(n) = es.read(&mut b) {
                if n == 0 {
                    break;
                }
                let mut e = e2.lock().unwrap();
                if e.len() < 1 << 16 {
                    e.extend_from_slice(&b[..n]);
                }
            }
        });
        Worker { child, stdin, lines, err }
    }

    fn end(mut self) -> String {
        let pid = self.child.id();
        let _ = self.child.kill();
        let st = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
        std::thread::sleep(Duration::from_millis(20));
        remove_scratch_of(pid);
        let e = self.err.lock().unwrap();
        format!("{st}; {}", String::from_utf8_lossy(&e[..e.len().min(600)]))
    }
}

/// Removes what a process that crashed could not remove itself.
pub fn remove_scratch_of(pid: u32) {
    for root in ["/dev/shm", "/tmp"] {
        for e in std::fs::read_dir(root).into_iter().flatten().flatten() {
            if e.file_name().to_string_lossy().starts_with(&format!("hv-{pid}-")) {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
}

thread_local! {
    static W: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

/// Runs a case in this thread's worker.
pub fn remote(part: &str, case: &Value) -> R<Info> {
    let mut w = W.with(|w| w.borrow_mut().take()).unwrap_or_else(|| Worker::start("all"));
    let timeout_s = if ISOLATED.load(Ordering::Relaxed) { TIMEOUT_S / 2 } else { TIMEOUT_S };
    let line = json!({"part": part, "case": case, "strict": STRICT.load(Ordering::Relaxed)}).to_string();
    let sent = writeln!(w.stdin, "{line}").and_then(|_| w.stdin.flush());
    let got = match sent {
        Ok(()) => w.lines.recv_timeout(Duration::from_secs(timeout_s)),
        Err(_) => Err(RecvTimeoutError::Disconnected),
    };
    match got {
        Ok(l) => {
            W.with(|c| *c.borrow_mut() = Some(w));
            let v: Value = serde_json::from_str(&l).unwrap_or_else(|e| panic!("HARNESS: worker said {l}: {e}"));
            match v["sig"].as_str() {
                Some("harness") => panic!("HARNESS: {}", v["msg"]),
                Some(sig) => Err(Fail::new(sig, v["msg"].as_str().unwrap_or(""))),
                None => Ok(Info {
                    nontrivial: v["nontrivial"].as_bool() == Some(true),
                    compared: v["compared"].as_u64().unwrap_or(0),
                    labels: serde_json::from_value(v["labels"].clone()).unwrap_or_default(),
                    excluded: serde_json::from_value(v["excluded"].clone()).unwrap_or_default(),
                }),
            }
        }
        Err(RecvTimeoutError::Timeout) => {
            w.end();
            Err(Fail::new("hang", format!("no answer within {timeout_s} s")))
        }
        Err(RecvTimeoutError::Disconnected) => {
            let m = w.end();
            if m.contains("exit status: 3") || m.contains("exit status: 4") {
                panic!("HARNESS: {m}");
            }
            let lib = ["parquet", "apache_avro"].iter().find(|l| m.contains(&format!(" [in {l}]")));
            let sig = match lib {
                Some(l) => format!("abort in {l}"),
                None => "abort".to_string(),
            };
            if known_class("C10", &sig) {
                return Ok(Info { excluded: vec![sig], ..Info::default() });
            }
            Err(Fail::new(sig, format!("the process ended: {m}")))
        }
    }
}

impl<P: Part> Part for Isolated<P> {
    type Case = P::Case;
    fn name(&self) -> &'static str {
        self.0.name()
    }
    fn rule(&self) -> &'static str {
        self.0.rule()
    }
    fn cases(&self, t: Tier) -> usize {
        self.0.cases(t)
    }
    fn generate(&self, s: &mut Source) -> P::Case {
        self.0.generate(s)
    }
    fn threads(&self) -> usize {
        self.0.threads()
    }
    fn shrink_budget(&self) -> usize {
        self.0.shrink_budget()
    }
    fn run(&self, case: &P::Case) -> R<Info> {
        if IN_WORKER.load(Ordering::Relaxed) {
            self.0.run(case)
        } else {
            remote(self.0.name(), &serde_json::to_value(case).expect("HARNESS: case to json"))
        }
    }
}

/// The child's side: one case per line on standard input, one outcome per line on standard output.
pub fn serve(checks: &[Check]) -> i32 {
    IN_WORKER.store(true, Ordering::Relaxed);
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        let Ok(v) = serde_json::from_str::<Value>(&l) else { return 4 };
        let Some(p) = checks
            .iter()
            .flat_map(|c| c.parts.iter())
            .find(|p| Some(p.part_name()) == v["part"].as_str())
        else {
            return 4;
        };
        STRICT.store(v["strict"].as_bool() == Some(true), Ordering::Relaxed);
        let out = match p.replay(&v["case"]) {
            Ok(i) => json!({"nontrivial": i.nontrivial, "compared": i.compared, "labels": i.labels, "excluded": i.excluded}),
            Err(f) => json!({"sig": f.sig, "msg": f.msg}),
        };
        println!("{out}");
    }
    0
}
