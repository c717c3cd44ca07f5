//! Recording: what the monitors observed, what they objected to, and the worker pool.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Viol { pub task: usize, pub kind: String, pub detail: String }

/// Parameters of a run.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub config: String,
    pub threads: usize,
    pub only: Option<usize>,
    pub events: bool,
    /// Workload size multiplier (per mille of the tier's size).
    pub scale: usize,
    pub extra: Vec<String>,
}

impl Cfg {
    /// Scales an iteration count: quick size, thorough size.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let n = if self.thorough { thorough } else { quick };
        (n * self.scale / 1000).max(1)
    }
}

const DISTINCT_CAP: usize = 1 << 21;

/// Per-task recorder.
pub struct Rec {
    pub task: usize,
    pub rng: Rng,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub known: BTreeMap<String, u64>,
    pub events: Vec<String>,
    want_events: bool,
    cur: (&'static str, [u64; 6]),
    slot: Option<Arc<Slot>>,
}

#[derive(Default)]
struct Slot { seq: AtomicU64, task: AtomicUsize, tid: AtomicU64, busy: AtomicBool }

impl Rec {
    pub fn new(task: usize, seed: u64, want_events: bool) -> Rec {
        Rec {
            task, rng: Rng::new(seed, task as u64), evals: 0, distinct: HashSet::new(), counters: BTreeMap::new(),
            samples: Vec::new(), viols: Vec::new(), known: BTreeMap::new(), events: Vec::new(), want_events,
            cur: ("start", [0; 6]), slot: None,
        }
    }
    /// Starts a case. `p` identifies it (used in the report should the code panic).
    #[inline]
    pub fn case(&mut self, what: &'static str, p: [u64; 6]) {
        self.cur = (what, p);
        self.evals += 1;
        if let Some(s) = &self.slot { s.seq.fetch_add(1, Ordering::Relaxed); }
    }
    /// Counts the current case as distinct and non-trivial under the given fingerprint.
    #[inline]
    pub fn nontrivial(&mut self, key: u64) { if self.distinct.len() < DISTINCT_CAP { self.distinct.insert(key); } }
    #[inline]
    pub fn count(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(what) { *c += n } else { self.counters.insert(what.to_string(), n); }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.samples.len() < 2 { let s = f(); self.samples.push(s) } }
    pub fn viol(&mut self, kind: &str, detail: impl FnOnce() -> String) {
        if self.viols.len() < 5 {
            let d = format!("[{} {:?}] {}", self.cur.0, self.cur.1, detail());
            self.viols.push(Viol { task: self.task, kind: kind.to_string(), detail: d });
        }
        self.count("objections", 1);
    }
    pub fn known(&mut self, what: String) { *self.known.entry(what).or_insert(0) += 1 }
    pub fn check(&mut self, ok: bool, kind: &str, detail: impl FnOnce() -> String) { if !ok { self.viol(kind, detail) } }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, got: T, want: T, kind: &str, what: impl FnOnce() -> String) {
        if got != want { self.viol(kind, || format!("{}: got {:?}, expected {:?}", what(), got, want)) }
    }
    pub fn eqb(&mut self, got: &[u8], want: &[u8], kind: &str, what: impl FnOnce() -> String) {
        if got != want { self.viol(kind, || format!("{}: got {}, expected {}", what(), crate::gen::hexs(got), crate::gen::hexs(want))) }
    }
    pub fn wants_events(&self) -> bool { self.want_events && self.events.len() < 40 }
    /// Records an event for the offline checker.
    pub fn event(&mut self, f: impl FnOnce() -> String) { if self.wants_events() { let e = f(); self.events.push(e) } }
}

/// Everything observed by a run.
#[derive(Default)]
pub struct Total {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub known: BTreeMap<String, u64>,
    pub events: Vec<String>,
    pub tasks: usize,
    pub harness_errors: Vec<String>,
}

impl Total {
    fn merge(&mut self, r: Rec) {
        self.evals += r.evals;
        for d in r.distinct { if self.distinct.len() < 2 * DISTINCT_CAP { self.distinct.insert(d); } }
        for (k, v) in r.counters { *self.counters.entry(k).or_insert(0) += v }
        for (k, v) in r.known { *self.known.entry(k).or_insert(0) += v }
        if self.samples.len() < 12 { self.samples.extend(r.samples.into_iter().take(1)) }
        self.viols.extend(r.viols);
        if self.events.len() < 6000 { self.events.extend(r.events) }
        self.tasks += 1;
    }

    /// Adds the result of another run.
    pub fn absorb(&mut self, o: Total) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters { *self.counters.entry(k).or_insert(0) += v }
        for (k, v) in o.known { *self.known.entry(k).or_insert(0) += v }
        self.samples.extend(o.samples);
        self.viols.extend(o.viols);
        self.events.extend(o.events);
        self.harness_errors.extend(o.harness_errors);
        self.tasks += o.tasks;
    }

    pub fn json(&self, cfg: &Cfg) -> String {
        let mut s = String::new();
        let _ = write!(s, "{{\"prop\":{},\"config\":{},\"seed\":{},\"tasks\":{},\"evaluations\":{},\"distinct\":{},",
            js(&cfg.prop), js(&cfg.config), cfg.seed, self.tasks, self.evals, self.distinct.len());
        let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
        let _ = write!(s, "\"counters\":{{{}}},\"known\":{{{}}},", map(&self.counters), map(&self.known));
        let _ = write!(s, "\"samples\":[{}],", self.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        let _ = write!(s, "\"harness_errors\":[{}],", self.harness_errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        let _ = write!(s, "\"violations\":[{}]}}", self.viols.iter().take(40)
            .map(|v| format!("{{\"task\":{},\"kind\":{},\"detail\":{}}}", v.task, js(&v.kind), js(&v.detail))).collect::<Vec<_>>().join(","));
        s
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload(info.payload());
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}\u{1}{}", loc, msg));
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() }
}

/// Runs `f`; Err(location and message) when it panicked.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().replace('\u{1}', ": "))),
    }
}

/// True when the panic came from the harness itself (its paths are relative to its own crate).
fn harness_panic(loc: &str) -> bool { loc.starts_with("src/") || loc.contains("/verif/mon/") }

pub type TaskFn<'a> = &'a (dyn Fn(usize, &mut Rec) + Sync);

/// CPU seconds one case may burn before it is called stuck.
fn stuck_cpu_s(cfg: &Cfg) -> u64 { if cfg.prop == "c07" { 700 } else { 60 } }

/// Runs tasks 0..n over a pool; each has its own recorder and PRNG stream.
pub fn run(cfg: &Cfg, n: usize, out: Option<&str>, f: TaskFn) -> Total {
    let total = Mutex::new(Total::default());
    let next = AtomicUsize::new(0);
    let nthreads = cfg.threads.max(1).min(n.max(1));
    let slots: Vec<Arc<Slot>> = (0..nthreads).map(|_| Arc::new(Slot::default())).collect();
    let done = AtomicBool::new(false);
    let worker = |slot: Arc<Slot>| {
        if !cfg!(miri) {
            if let Ok(l) = std::fs::read_link("/proc/thread-self") {
                if let Some(t) = l.file_name().and_then(|x| x.to_str()).and_then(|x| x.parse().ok()) { slot.tid.store(t, Ordering::SeqCst) }
            }
        }
        loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= n { break }
            if let Some(o) = cfg.only { if o != i { continue } }
            let mut rec = Rec::new(i, cfg.seed, cfg.events);
            slot.task.store(i, Ordering::SeqCst);
            slot.busy.store(true, Ordering::SeqCst);
            slot.seq.fetch_add(1, Ordering::SeqCst);
            rec.slot = Some(slot.clone());
            let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut rec)));
            slot.busy.store(false, Ordering::SeqCst);
            let mut herr = None;
            if r.is_err() {
                let p = LAST_PANIC.with(|p| p.borrow().clone());
                let (loc, msg) = p.split_once('\u{1}').unwrap_or(("?", &p));
                if harness_panic(loc) {
                    herr = Some(format!("harness panic in task {}: {} {} case {:?}", i, loc, msg, rec.cur));
                } else {
                    let d = format!("panic at {}: {}", loc, msg);
                    rec.viol("panic", || d);
                }
            }
            rec.slot = None;
            let mut t = total.lock().unwrap();
            t.merge(rec);
            if let Some(h) = herr { t.harness_errors.push(h) }
        }
    };
    std::thread::scope(|s| {
        let hs: Vec<_> = slots.iter().map(|sl| { let sl = sl.clone(); let w = &worker; s.spawn(move || w(sl)) }).collect();
        if !cfg!(miri) && out.is_some() {
            let (slots, done, total) = (&slots, &done, &total);
            s.spawn(move || watchdog(cfg, slots, done, total, out.unwrap()));
        }
        for h in hs { let _ = h.join(); }
        done.store(true, Ordering::SeqCst);
    });
    total.into_inner().unwrap()
}

fn cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// A case that burns a minute of its own CPU time without finishing is stuck (bounded progress,
/// measured in the thread's CPU time so that a loaded machine cannot cause it).
fn watchdog(cfg: &Cfg, slots: &[Arc<Slot>], done: &AtomicBool, total: &Mutex<Total>, out: &str) {
    let mut seen: Vec<(u64, u64)> = vec![(u64::MAX, 0); slots.len()];
    let mut nap = 2;
    while !done.load(Ordering::SeqCst) {
        std::thread::sleep(std::time::Duration::from_millis(nap));
        nap = (nap + nap / 2).min(100);
        for (i, s) in slots.iter().enumerate() {
            let tid = s.tid.load(Ordering::SeqCst);
            if tid == 0 || !s.busy.load(Ordering::SeqCst) { continue }
            let seq = s.seq.load(Ordering::SeqCst);
            let cpu = match cpu_ticks(tid) { Some(c) => c, None => continue };
            if seen[i].0 != seq { seen[i] = (seq, cpu); continue }
            if cpu - seen[i].1 > stuck_cpu_s(cfg) * 100 {
                let mut t = total.lock().unwrap();
                t.viols.push(Viol {
                    task: s.task.load(Ordering::SeqCst), kind: "stuck".into(),
                    detail: format!("a call made no progress in {} s of CPU time (task {})", stuck_cpu_s(cfg), s.task.load(Ordering::SeqCst)),
                });
                let _ = std::fs::write(out, t.json(cfg));
                std::process::exit(0);
            }
        }
    }
}
