//! C15: engines are isolated from one another and from other threads.
//!
//! A fixed population of histories (each the script of one engine) is executed in several ways:
//! one after the other, in reverse, interleaved at random in one thread, spread over threads, with
//! engines handed from thread to thread in mid-history, with shared references queried from several
//! threads at once. Every observation of a history must be the same each time. The driver also
//! compares the observations between processes, so that state carried from one history to a later
//! one shows as well.

use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};

use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24};

use crate::engines::*;
use crate::gen::{hex, hexs};
use crate::rec::{quiet, Cfg, Rec, Total};
use crate::rng::{fp, fp_bytes, Rng};

#[derive(Clone, Debug)]
pub enum Op { Input(usize, usize, usize), Count, Mid, Fork, Resume, Oneshot(usize, usize), Text, Vals(usize, usize) }

#[derive(Clone, Debug)]
pub struct Script { pub kind: Kind, pub keys: Keys, pub ops: Vec<Op> }

/// Message material shared by every script: a few buffers that resemble each other (equal prefixes,
/// equal lengths), so that anything remembered between calls is likely to be wrong for the next.
pub struct World { pub bufs: Vec<Vec<u8>>, pub scripts: Vec<Script> }

pub fn world(seed: u64, n: usize) -> World {
    let mut rng = Rng::new(seed, 0x150);
    let base = rng.bytes(2000);
    let mut bufs = vec![base.clone()];
    for i in 1..5 { let mut b = base.clone(); b[0] ^= (i & 1) as u8; b[1999] ^= i as u8; b[i * 63] ^= 0x40; bufs.push(b) }
    let ks = kinds();
    let keypool: Vec<Vec<u8>> = [0usize, 4, 4, 32, 64, 64, 65, 65, 128, 129, 200, 200].iter().map(|n| rng.bytes(*n)).collect();
    let sips: Vec<(u64, u64)> = vec![(0, 0), (1, 0), (0, 1), (rng.u64(), rng.u64()), (rng.u64(), 5)];
    let scripts = (0..n).map(|i| {
        let kind = ks[if i < 2 * ks.len() { i % ks.len() } else { rng.usize(ks.len()) }];
        let (k0, k1) = *rng.pick(&sips);
        let keys = Keys { k0, k1, hkey: rng.pick(&keypool).clone(), default: rng.one_in(6) };
        let b = kind.block();
        let ops = (0..2 + rng.usize(8)).map(|_| {
            let l = *rng.pick(&[0usize, 1, 7, 8, b - 1, b, b + 1, 2 * b, 3 * b + 5, 200, 1500]);
            let buf = rng.usize(5);
            let at = if rng.one_in(2) { 0 } else { rng.usize(2000 - l) };
            match rng.usize(13) { 0..=5 => Op::Input(buf, at, l), 6 => Op::Count, 7 => Op::Mid, 8 => Op::Fork, 9 => Op::Resume, 10 => Op::Oneshot(buf, l), 11 => Op::Vals(buf, at), _ => Op::Text }
        }).collect();
        Script { kind, keys, ops }
    }).collect();
    World { bufs, scripts }
}

/// A history under way.
pub struct Run<'w> { w: &'w World, s: &'w Script, e: Option<Box<dyn Dyn>>, fork: Option<Box<dyn Dyn>>, at: usize, pub obs: Vec<Vec<u8>> }
/// Handing a history to another thread is what the property is about; the check that the types
/// really are Send is made separately, so that this compiles either way.
unsafe impl<'w> Send for Run<'w> {}
unsafe impl<'w> Sync for Run<'w> {}

impl<'w> Run<'w> {
    pub fn new(w: &'w World, i: usize) -> Run<'w> { Run { w, s: &w.scripts[i], e: None, fork: None, at: 0, obs: Vec::new() } }
    pub fn done(&self) -> bool { self.e.is_none() && self.at > 0 }
    pub fn engine(&self) -> Option<&dyn Dyn> { self.e.as_deref() }
    /// One step; scratch is a reused buffer, so that addresses repeat with different contents.
    pub fn step(&mut self, scratch: &mut Vec<u8>) {
        if self.at == 0 { self.e = Some(make_engine(self.s.kind, &self.s.keys)); self.at = 1; return }
        let Some(e) = self.e.as_mut() else { return };
        let i = self.at - 1;
        self.at += 1;
        match self.s.ops.get(i) {
            None => { let e = self.e.take().unwrap(); self.obs.push(e.finish()); if let Some(f) = self.fork.take() { self.obs.push(f.finish()) } }
            Some(Op::Input(b, at, l)) => { scratch.clear(); scratch.extend_from_slice(&self.w.bufs[*b][*at..*at + *l]); e.input(scratch) }
            Some(Op::Vals(b, at)) => { let o = self.vals(*b, *at); self.obs.push(o) }
            Some(Op::Count) => self.obs.push((e.count() as u64).to_le_bytes().to_vec()),
            Some(Op::Mid) => self.obs.push(e.mid().unwrap_or_default()),
            Some(Op::Fork) => self.fork = Some(e.dup()),
            Some(Op::Resume) => if e.count() % self.s.kind.resume_unit() == 0 { let n = e.count(); let x = e.resume(n); *e = x },
            Some(Op::Oneshot(b, l)) => { scratch.clear(); scratch.extend_from_slice(&self.w.bufs[*b][..*l]); self.obs.push(trait_hash(self.s.kind, scratch)) }
            Some(Op::Text) => { let h = sha256::Hash::hash(&self.w.bufs[i % 5][..i]); self.obs.push(format!("{} {:X}", h, h).into_bytes()) }
        }
    }
    /// Operations on values: text, parsing, comparison, const functions, errors.
    fn vals(&self, b: usize, at: usize) -> Vec<u8> {
        let m = &self.w.bufs[b][at.min(1900)..];
        let mut o = String::new();
        let h = sha1::Hash::from_slice(&m[..20]).expect("20 bytes");
        o += &format!("{} {:X} {:?} {:.7}", h, h, h, h);
        let g = sha512::Hash::from_slice(&m[..64]).expect("64 bytes");
        o += &format!("{:x} {:?} {}", g, format!("{:X}", g).parse::<sha512::Hash>() == Ok(g), format!("{}0", g).parse::<sha512::Hash>().is_err());
        let x = hmac::Hash::<48>::from_slice(&m[3..51]).expect("48 bytes");
        o += &format!("{} {:?} {}", x, x.to_string().parse::<hmac::Hash<48>>() == Ok(x), "zz".parse::<hmac::Hash<48>>().is_err());
        let t = sha256t::Hash::<TagA>::from_byte_array(sha256::Hash::const_hash(&m[..at % 70]).to_byte_array());
        o += &format!("{} {} {:?}", t, sha256::Midstate::hash_tag(&m[..at % 64]), sha256t::Hash::<TagA>::from_slice(&m[..at % 40]).map_err(|e| e.to_string()));
        o += &format!("{} {}", chf::cmp::fixed_time_eq(&m[..20], &h[..]), chf::cmp::fixed_time_eq(&m[..at % 33], &m[1..1 + at % 33]));
        let s = siphash24::Hash::hash_to_u64_with_keys(at as u64, b as u64, &m[..at % 97]);
        o += &format!("{} {} {:?}", s, siphash24::Hash::from_u64(s), ripemd160::Hash::hash(&m[..at % 90]).cmp(&ripemd160::Hash::from_slice(&m[..20]).expect("20 bytes")));
        o += &format!("{} {}", sha384::Hash::hash(&m[..at % 90]), sha512_256::Hash::hash(&m[..at % 90]));
        o.into_bytes()
    }
    pub fn all(&mut self, scratch: &mut Vec<u8>) { while !self.done() { self.step(scratch) } }
    /// A step whose panic becomes an observation and ends the history.
    pub fn step_caught(&mut self, scratch: &mut Vec<u8>) {
        if quiet(|| self.step(scratch)).is_err() { self.obs.push(b"panic".to_vec()); self.e = None; self.at = self.at.max(1) }
    }
    pub fn all_caught(&mut self, scratch: &mut Vec<u8>) { while !self.done() { self.step_caught(scratch) } }
}

fn key(o: &[Vec<u8>]) -> String { o.iter().map(|x| hex(x)).collect::<Vec<_>>().join(",") }

fn solo_all(w: &World, order: impl Iterator<Item = usize>) -> BTreeMap<usize, Vec<Vec<u8>>> {
    let mut sc = Vec::new();
    // A panic is an observation like any other: what matters is that it does not depend on the rest.
    order.map(|i| { let mut r = Run::new(w, i); r.all_caught(&mut sc); (i, std::mem::take(&mut r.obs)) }).collect()
}

fn judge(r: &mut Rec, how: &str, w: &World, i: usize, got: &[Vec<u8>], want: &BTreeMap<usize, Vec<Vec<u8>>>) {
    r.check(got == &want[&i][..], "result depends on others", || format!("{}: {} keys {:?} ops {:?}: observed {} but alone {}", how, w.scripts[i].kind.name(), w.scripts[i].keys, w.scripts[i].ops, key(got), key(&want[&i])));
    r.count(&format!("histories judged: {}", how), 1);
    r.count("observations compared", got.len() as u64);
}

macro_rules! autotraits { ($r:expr; $($t:ty),* $(,)?) => { $({
    let s = {
        #[allow(dead_code)] struct P<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)] trait N { fn get(&self) -> bool { false } } impl<T: ?Sized> N for &P<T> {}
        #[allow(dead_code)] trait Y { fn get(&self) -> bool { true } } impl<T: ?Sized + Send> Y for P<T> {}
        (&P::<$t>(std::marker::PhantomData)).get()
    };
    let y = {
        #[allow(dead_code)] struct P<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)] trait N { fn get(&self) -> bool { false } } impl<T: ?Sized> N for &P<T> {}
        #[allow(dead_code)] trait Y { fn get(&self) -> bool { true } } impl<T: ?Sized + Sync> Y for P<T> {}
        (&P::<$t>(std::marker::PhantomData)).get()
    };
    $r.case("c15 Send and Sync", [0; 6]);
    $r.check(s, "not Send", || format!("{} cannot be moved to another thread", stringify!($t)));
    $r.check(y, "not Sync", || format!("{} cannot be shared with another thread", stringify!($t)));
    $r.count("types probed for Send and Sync", 1);
    $r.nontrivial(fp_bytes(stringify!($t).as_bytes()));
})* } }

fn threads_traits(r: &mut Rec) {
    autotraits!(r; sha1::Engine, sha256::Engine, sha384::Engine, sha512::Engine, sha512_256::Engine, ripemd160::Engine, siphash24::Engine,
        sha256t::Engine<TagA>, hmac::Engine<sha1::Engine>, hmac::Engine<sha256::Engine>, hmac::Engine<sha512::Engine>, hmac::Engine<sha384::Engine>, hmac::Engine<sha512_256::Engine>, hmac::Engine<ripemd160::Engine>, hmac::Engine<siphash24::Engine>,
        hmac::Engine<sha256t::Engine<TagA>>, hmac::Midstate<sha256::Engine>,
        sha1::Hash, sha256::Hash, sha384::Hash, sha512::Hash, sha512_256::Hash, ripemd160::Hash, siphash24::Hash, sha256t::Hash<TagA>, hmac::Hash<32>, hmac::Hash<64>,
        sha256::Midstate, siphash24::State, chf::FromSliceError);
}

/// In one thread, a random interleaving of k histories.
fn interleave(r: &mut Rec, w: &World, want: &BTreeMap<usize, Vec<Vec<u8>>>) {
    let k = 2 + r.rng.usize(12);
    let mut runs: Vec<(usize, Run)> = (0..k).map(|_| { let i = r.rng.usize(w.scripts.len()); (i, Run::new(w, i)) }).collect();
    r.case("c15 interleaving", [k as u64, runs[0].0 as u64, runs[1].0 as u64, 0, 0, 0]);
    let mut sc = Vec::new();
    let mut order = vec![15];
    while !runs.is_empty() {
        let j = r.rng.usize(runs.len());
        runs[j].1.step_caught(&mut sc);
        order.push((runs[j].0 * 64 + runs[j].1.at) as u64);
        if runs[j].1.done() { let (i, run) = runs.swap_remove(j); judge(r, "interleaved", w, i, &run.obs, want) }
        r.count("interleaved steps", 1);
    }
    r.nontrivial(fp(&order));
    r.sample(|| format!("one-thread interleaving (script*64+step): {:?}", order));
}

/// Threads take histories from a common pool, advance each by a few steps and put it back.
fn migrate(r: &mut Rec, w: &World, want: &BTreeMap<usize, Vec<Vec<u8>>>, nthreads: usize, n: usize) {
    let picks: Vec<usize> = (0..n).map(|_| r.rng.usize(w.scripts.len())).collect();
    r.case("c15 migrating", [nthreads as u64, n as u64, picks[0] as u64, 0, 0, 0]);
    let pool: Mutex<Vec<(usize, u64, Run)>> = Mutex::new(picks.iter().map(|i| (*i, 0, Run::new(w, *i))).collect());
    let finished: Mutex<Vec<(usize, Vec<Vec<u8>>)>> = Mutex::new(Vec::new());
    let moves = AtomicUsize::new(0);
    let order: Mutex<Vec<u64>> = Mutex::new(vec![16]);
    let bar = Barrier::new(nthreads);
    let seed = r.rng.u64();
    std::thread::scope(|s| for t in 0..nthreads {
        let (pool, finished, moves, bar, order) = (&pool, &finished, &moves, &bar, &order);
        s.spawn(move || {
            let mut rng = Rng::new(seed, t as u64);
            let mut sc = Vec::new();
            bar.wait();
            loop {
                let got = { let mut p = pool.lock().unwrap(); if p.is_empty() { None } else { let i = rng.usize(p.len()); Some(p.swap_remove(i)) } };
                let Some((i, last, mut run)) = got else {
                    if finished.lock().unwrap().len() >= n { break }
                    std::thread::yield_now();
                    continue
                };
                if last != 0 && last != t as u64 + 1 { moves.fetch_add(1, Ordering::Relaxed); }
                for _ in 0..1 + rng.usize(4) { if !run.done() { run.step_caught(&mut sc) } }
                order.lock().unwrap().push((i * 1024 + run.at * 16 + t) as u64);
                if run.done() { finished.lock().unwrap().push((i, std::mem::take(&mut run.obs))) }
                else { pool.lock().unwrap().push((i, t as u64 + 1, run)) }
            }
        });
    });
    for (i, obs) in finished.into_inner().unwrap() { judge(r, "migrating between threads", w, i, &obs, want) }
    r.count("hand-overs between threads", moves.into_inner() as u64);
    r.nontrivial(fp(&order.into_inner().unwrap()));
}

/// Every thread runs whole histories of its own, all at once, no synchronisation in between.
fn parallel(r: &mut Rec, w: &World, want: &BTreeMap<usize, Vec<Vec<u8>>>, nthreads: usize, per: usize) {
    r.case("c15 parallel", [nthreads as u64, per as u64, 0, 0, 0, 0]);
    let seed = r.rng.u64();
    let bar = Barrier::new(nthreads);
    let out: Mutex<Vec<(usize, Vec<Vec<u8>>)>> = Mutex::new(Vec::new());
    let kind = w.scripts[r.rng.usize(w.scripts.len())].kind;
    let same: Vec<usize> = (0..w.scripts.len()).filter(|i| w.scripts[*i].kind == kind).collect();
    let focus = r.rng.one_in(2);
    std::thread::scope(|s| for t in 0..nthreads {
        let (bar, out, same) = (&bar, &out, &same);
        s.spawn(move || {
            let mut rng = Rng::new(seed, 100 + t as u64);
            let mut sc = Vec::new();
            let mut mine = Vec::new();
            bar.wait();
            for _ in 0..per {
                // Half of the rounds hammer one engine type from every thread.
                let i = if focus { *rng.pick(same) } else { rng.usize(w.scripts.len()) };
                let mut run = Run::new(w, i);
                run.all_caught(&mut sc);
                mine.push((i, std::mem::take(&mut run.obs)));
            }
            out.lock().unwrap().extend(mine);
        });
    });
    for (i, obs) in out.into_inner().unwrap() { judge(r, "in parallel", w, i, &obs, want) }
    r.nontrivial(fp(&[17, seed]));
}

/// One engine, queried and cloned through shared references by every thread at once.
fn shared(r: &mut Rec, w: &World, nthreads: usize, per: usize) {
    let i = r.rng.usize(w.scripts.len());
    r.case("c15 shared reference", [nthreads as u64, i as u64, 0, 0, 0, 0]);
    let mut run = Run::new(w, i);
    let mut sc = Vec::new();
    for _ in 0..1 + r.rng.usize(4) { if run.at <= run.s.ops.len() { run.step_caught(&mut sc) } }
    let Some(e) = run.engine() else { return };
    let tail = w.bufs[0][..97].to_vec();
    let digest = |e: &dyn Dyn| { let mut c = e.dup(); c.input(&tail); c.finish() };
    let want = (e.count(), e.mid(), digest(e));
    let bad = AtomicBool::new(false);
    let bar = Barrier::new(nthreads);
    struct Share<'a>(&'a dyn Dyn);
    unsafe impl<'a> Sync for Share<'a> {}
    let sh = Share(e);
    let sh = &sh;
    std::thread::scope(|s| for _ in 0..nthreads {
        let (bad, bar, want, digest) = (&bad, &bar, &want, &digest);
        let digest = move |e: &dyn Dyn| digest(e);
        s.spawn(move || { bar.wait(); for _ in 0..per { if quiet(|| (sh.0.count(), sh.0.mid(), digest(sh.0))).as_ref() != Ok(want) { bad.store(true, Ordering::SeqCst) } } });
    });
    r.check(!bad.load(Ordering::SeqCst), "shared reference", || format!("{:?}: concurrent queries of one engine disagree with {:?}", w.scripts[i], want));
    r.count("concurrent queries of a shared engine", (nthreads * per) as u64);
    r.nontrivial(fp(&[18, i as u64, run.at as u64]));
}

/// The same question asked many times gets the same answer.
fn again(r: &mut Rec, k: Kind, n: usize) {
    let kr = &mut Rng::new(1, k.id());
    let keys = keys(kr, k);
    let m = kr.bytes(k.block() + 9);
    r.case("c15 repeated calls", [k.id(), n as u64, 0, 0, 0, 0]);
    let go = || { let mut e = make_engine(k, &keys); e.input(&m); e.finish() };
    let (want, one) = (go(), trait_hash(k, &m));
    for i in 0..n {
        let (a, b) = (go(), trait_hash(k, &m));
        if a != want || b != one { return r.viol("repeated call", || format!("{} call {} gave {} after {}", k.name(), i, hexs(&a), hexs(&want))) }
        if i % 4096 == 0 { r.case("c15 repeated calls", [k.id(), i as u64, 0, 0, 0, 0]); r.evals -= 1 }
    }
    r.count("repeated calls compared", 2 * n as u64);
    r.nontrivial(fp(&[19, k.id()]));
}

/// Concurrent first use. Nothing of the crate has run in this process yet; in every round all threads
/// leave a spin barrier together and run histories of one kind of engine (or operations on values).
/// Only afterwards are the same histories run alone, to compare.
fn first(cfg: &Cfg, out: Option<&str>) -> Total {
    let w = world(cfg.seed, 3 * kinds().len());
    let nt = cfg.threads.clamp(2, 8);
    let ks = kinds();
    let one = Cfg { threads: 1, only: None, ..cfg.clone() };
    crate::rec::run(&one, 1, out, &|_, r| {
        let mut rounds: Vec<usize> = (0..ks.len() + 1).collect();
        for i in (1..rounds.len()).rev() { let j = r.rng.usize(i + 1); rounds.swap(i, j) }
        let seed = r.rng.u64();
        // Half of the runs give every thread the same history, half different ones.
        let same = r.rng.one_in(2);
        let jitter = *r.rng.pick(&[0usize, 0, 20, 200, 2000]);
        let arrived = AtomicUsize::new(0);
        let got: Mutex<Vec<(usize, usize, Vec<Vec<u8>>)>> = Mutex::new(Vec::new());
        r.case("c15 concurrent first use", [cfg.seed, nt as u64, same as u64, jitter as u64, 0, 0]);
        std::thread::scope(|s| for t in 0..nt {
            let (arrived, got, rounds, w, ks) = (&arrived, &got, &rounds, &w, &ks);
            s.spawn(move || {
                let mut rng = Rng::new(seed, 300 + t as u64);
                let mut sc = Vec::with_capacity(4096);
                let mut mine = Vec::new();
                for (n, k) in rounds.iter().enumerate() {
                    let of: Vec<usize> = (0..w.scripts.len()).filter(|i| *k == ks.len() || w.scripts[*i].kind == ks[*k]).collect();
                    let i = of[if same { n } else { rng.usize(of.len()) } % of.len()];
                    let mut run = Run::new(w, i);
                    let wait = if jitter == 0 { 0 } else { rng.usize(jitter) };
                    arrived.fetch_add(1, Ordering::SeqCst);
                    let mut spins = 0u64;
                    while arrived.load(Ordering::SeqCst) < (n + 1) * nt { spins += 1; if spins > 20_000 { std::thread::yield_now() } else { std::hint::spin_loop() } }
                    for _ in 0..wait { std::hint::spin_loop() }
                    if *k == ks.len() { let o = quiet(|| run.vals(n % 5, 7 * n)).unwrap_or_else(|_| b"panic".to_vec()); mine.push((usize::MAX, n, vec![o])) }
                    else { run.all_caught(&mut sc); mine.push((i, n, std::mem::take(&mut run.obs))) }
                }
                got.lock().unwrap().extend(mine);
            });
        });
        let want = solo_all(&w, 0..w.scripts.len());
        for (i, n, obs) in got.into_inner().unwrap() {
            if i == usize::MAX {
                let solo = quiet(|| Run::new(&w, 0).vals(n % 5, 7 * n)).unwrap_or_else(|_| b"panic".to_vec());
                r.check(obs[0] == solo, "result depends on others", || format!("concurrent first use, value operations: {} but alone {}", String::from_utf8_lossy(&obs[0]), String::from_utf8_lossy(&solo)));
                r.count("histories judged: concurrent first use", 1);
            } else { judge(r, "concurrent first use", &w, i, &obs, &want) }
        }
        r.count("processes observed from their first call", 1);
        r.nontrivial(fp(&[20, cfg.seed, jitter as u64, same as u64]));
        r.sample(|| format!("order of first uses: {:?}", rounds.iter().map(|k| ks.get(*k).map(|k| k.name()).unwrap_or("values".into())).collect::<Vec<_>>()));
    })
}

pub fn c15(cfg: &Cfg, out: Option<&str>) -> Total {
    if cfg.extra.iter().any(|x| x == "first") { return first(cfg, out) }
    let part = |p: &str| cfg.extra.iter().any(|x| x == p);
    let w = world(cfg.seed, cfg.n(140, 600));
    let want = solo_all(&w, 0..w.scripts.len());
    let ks = kinds();
    // The threaded tasks own all the cores, so they run one at a time; the others share the pool.
    let mut tasks: Vec<(u8, usize)> = vec![(0, 0), (1, 0)];
    if part("single") || cfg.extra.is_empty() {
        for i in 0..cfg.n(40, 400) { tasks.push((2, i)) }
        for i in 0..ks.len() { tasks.push((3, i)) }
    }
    let mut total = crate::rec::run(cfg, tasks.len(), out, &|i, r| match tasks[i] {
        (0, _) => threads_traits(r),
        (1, _) => { // reverse order, and every history twice in a row
            let rev = solo_all(&w, (0..w.scripts.len()).rev());
            for (i, o) in &rev { r.case("c15 reverse order", [*i as u64, 0, 0, 0, 0, 0]); judge(r, "in reverse order", &w, *i, o, &want); r.nontrivial(fp(&[14, *i as u64])) }
            for i in 0..w.scripts.len() { let o = solo_all(&w, [i, i].into_iter()); judge(r, "twice in a row", &w, i, &o[&i], &want) }
        }
        (2, _) => for _ in 0..cfg.n(60, 100) { interleave(r, &w, &want) },
        (_, k) => again(r, ks[k], cfg.n(70_000, 300_000) / (1 + (ks[k].name().starts_with("hmac") as usize))),
    });
    if part("threads") || cfg.extra.is_empty() {
        let nt = cfg.threads.clamp(2, 8);
        let one = Cfg { threads: 1, only: None, ..cfg.clone() };
        let rounds = cfg.n(60, 600);
        let t = crate::rec::run(&one, rounds, out, &|i, r| {
            r.rng = Rng::new(cfg.seed, 5000 + i as u64);
            match i % 4 { 0 => migrate(r, &w, &want, nt, cfg.n(60, 120)), 1 | 2 => parallel(r, &w, &want, nt, cfg.n(60, 120)), _ => for _ in 0..5 { shared(r, &w, nt, cfg.n(30, 60)) } }
        });
        total.absorb(t);
    }
    total
}

/// Observations of every history, one line each, executed in the given order (for comparison
/// between processes).
pub fn transcript(seed: u64, n: usize, how: &str) -> String {
    let w = world(seed, n);
    let len = w.scripts.len();
    let mut order: Vec<usize> = (0..len).collect();
    match how {
        "reverse" => order.reverse(),
        "forward" => {}
        _ => { let mut rng = Rng::new(seed, fp_bytes(how.as_bytes())); for i in (1..len).rev() { let j = rng.usize(i + 1); order.swap(i, j) } }
    }
    let m = solo_all(&w, order.into_iter());
    m.iter().map(|(i, o)| format!("{}={}\n", i, key(o))).collect()
}
