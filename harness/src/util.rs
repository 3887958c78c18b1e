//! Reporting, panic capture, arguments.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Args {
    /// where the specification's exported tables are
    pub dir: String,
    pub out: String,
    pub seed: u64,
    pub thorough: bool,
    pub scratch: String,
    pub extra: Vec<String>,
}
impl Args {
    pub fn value(&self, key: &str) -> Option<String> {
        self.extra.iter().position(|x| x == key).and_then(|i| self.extra.get(i + 1)).cloned()
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Runs code of the implementation; a panic is returned as data.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| format!("panic: {}", p.borrow())))
}

/// What one run of the harness found and covered.
#[derive(Default)]
pub struct Report {
    pub violations: Mutex<Vec<Value>>,
    pub samples: Mutex<Vec<Value>>,
    pub counters: Mutex<std::collections::BTreeMap<String, u64>>,
    pub known: Mutex<Vec<Value>>,
    pub traces: Mutex<Vec<Value>>,
}

impl Report {
    pub fn violation(&self, what: impl Into<String>, replay: Value) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 20 {
            v.push(json!({"what": what.into(), "replay": replay}));
        }
    }
    pub fn failed(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }
    pub fn too_many(&self) -> bool {
        self.violations.lock().unwrap().len() >= 5
    }
    /// A deviation that matches a finding's exact signature.
    pub fn known(&self, key: &str, what: String) {
        let mut k = self.known.lock().unwrap();
        if !k.iter().any(|x| x["key"] == key) {
            k.push(json!({"key": key, "what": what}));
        }
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            s.push(v);
        }
    }
    pub fn count(&self, name: &str, by: u64) {
        *self.counters.lock().unwrap().entry(name.to_string()).or_insert(0) += by;
    }
    #[allow(dead_code)]
    pub fn max(&self, name: &str, to: u64) {
        let mut c = self.counters.lock().unwrap();
        let e = c.entry(name.to_string()).or_insert(0);
        *e = to.max(*e);
    }
    pub fn set(&self, name: &str, to: u64) {
        self.counters.lock().unwrap().insert(name.to_string(), to);
    }
    pub fn write(&self, path: &str) {
        let v = json!({
            "violations": *self.violations.lock().unwrap(),
            "samples": *self.samples.lock().unwrap(),
            "counters": *self.counters.lock().unwrap(),
            "known": *self.known.lock().unwrap(),
            "traces": *self.traces.lock().unwrap(),
        });
        std::fs::write(path, serde_json::to_string(&v).unwrap()).unwrap();
    }
}

/// A recorded run of the implementation, one JSON object per line, for TLC.
pub struct Tracer {
    pub module: &'static str,
    pub path: String,
    pub events: u64,
    pub segments: u64,
    pub env: Value,
    out: std::io::BufWriter<std::fs::File>,
}
impl Tracer {
    pub fn new(args: &Args, module: &'static str, name: &str, env: Value) -> Tracer {
        let path = format!("{}/{name}.ndjson", args.scratch);
        let out = std::io::BufWriter::new(std::fs::File::create(&path).expect("create trace file"));
        Tracer { module, path, events: 0, segments: 0, env, out }
    }
    pub fn push(&mut self, v: Value) {
        use std::io::Write;
        writeln!(self.out, "{v}").unwrap();
        self.events += 1;
    }
    pub fn finish(mut self, rep: &Report) {
        use std::io::Write;
        self.out.flush().unwrap();
        if self.events > 0 {
            rep.traces.lock().unwrap().push(json!({
                "module": self.module, "file": self.path, "events": self.events,
                "segments": self.segments, "constants": self.env}));
        }
    }
}

/// Small deterministic generator (splitmix64), so that runs depend on the seed only.
#[derive(Clone)]
pub struct Sm(pub u64);
impl Sm {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut s = Sm(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03));
        s.next();
        s.next();
        s
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// Watchdog: the current case, for reporting hangs. Bumped by checks as they progress.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub static CURRENT: Mutex<String> = Mutex::new(String::new());
pub fn tick() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}
pub fn now(case: impl Into<String>) {
    *CURRENT.lock().unwrap() = case.into();
    tick();
}

/// Runs the closures on up to 8 threads.
pub fn parallel<T: Send>(jobs: Vec<Box<dyn FnOnce() -> T + Send + '_>>) -> Vec<T> {
    let n = jobs.len();
    let queue = Mutex::new(jobs.into_iter().enumerate().collect::<Vec<_>>());
    let out: Mutex<Vec<Option<T>>> = Mutex::new((0..n).map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..8.min(n) {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let Some((i, job)) = queue.lock().unwrap().pop() else { break };
                    let r = job();
                    out.lock().unwrap()[i] = Some(r);
                })
                .unwrap();
        }
    });
    out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}

/// Splits 0..n over eight threads; each part stops at its first failure.
pub fn over(n: usize, what: &str, f: impl Fn(usize) -> Option<String> + Sync) -> Option<(usize, String)> {
    let chunk = (n / 64).clamp(1, 1 << 16);
    let next = AtomicU64::new(0);
    let bad: Mutex<Option<(usize, String)>> = Mutex::new(None);
    now(what.to_string());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let from = next.fetch_add(chunk as u64, Ordering::Relaxed) as usize;
                if from >= n || bad.lock().unwrap().is_some() {
                    break;
                }
                tick();
                let mut at = from;
                let r = guarded(|| {
                    while at < n.min(from + chunk) {
                        if let Some(e) = f(at) {
                            return Some(e);
                        }
                        at += 1;
                    }
                    None
                });
                let e = match r {
                    Ok(None) => continue,
                    Ok(Some(e)) => e,
                    Err(e) => e,
                };
                let mut b = bad.lock().unwrap();
                if b.as_ref().map_or(true, |x| at < x.0) {
                    *b = Some((at, e));
                }
            });
        }
    });
    bad.into_inner().unwrap()
}
