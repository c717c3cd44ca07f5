//! Guided workloads. The engine (mon/src/engine.rs) proposes lists of numbers and byte strings; each
//! is read as a case of one property (keys, messages, piece lengths, resume points, texts) and judged
//! by the same oracles as the other monitors. The code under test is compiled with edge and
//! comparison feedback, so lengths and contents that the code treats specially are found rather than
//! guessed.
//!
//! guided <prop> <out.json> run <seed> <seconds>   |   guided <prop> <out.json> one <file>
#![allow(dead_code, unused_imports, unused_variables)]

mod refimpl { pub use mon::refimpl::*; }
mod rng { pub use mon::rng::*; }
mod rec { pub use mon::rec::*; }
mod gen { pub use mon::gen::*; }
#[path = "../../mon/src/engines.rs"]
mod engines;
#[cfg(feature = "serde")]
#[path = "../../mon/src/serdes.rs"]
mod serdes;
#[cfg(feature = "g-vals")]
#[path = "../../mon/src/vals.rs"]
mod vals;
#[cfg(feature = "g-vals")]
#[path = "../../mon/src/values.rs"]
mod values;
#[cfg(feature = "g-foreign")]
#[path = "../../mon/src/foreign.rs"]
mod foreign;

use std::collections::{BTreeMap, HashSet};

use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine};
use engines::*;
use mon::engine::{Case, Engine, Reader};
use gen::hexs;
use rec::{js, quiet, Cfg, Rec};
use refimpl::{digest, Alg, Md, Model, Sip, ALGS};
use rng::{fp, fp_bytes, splitmix};

#[cfg(feature = "g-hash")]
mod h {
use super::*;
pub fn keys(i: &mut Reader, k: Kind) -> Keys {
    let default = i.n() % 16 == 7;
    match k { Kind::Sip => Keys { k0: i.n(), k1: i.n(), default, ..Default::default() }, Kind::Hmac(_) => Keys { hkey: i.data(), default, ..Default::default() }, _ => Keys { k0: i.n(), default, ..Default::default() } }
}

pub fn oneshot(a: Alg, m: &[u8]) -> Vec<u8> {
    match a {
        Alg::Sha1 => sha1::Hash::hash(m).to_byte_array().to_vec(), Alg::Sha256 => sha256::Hash::hash(m).to_byte_array().to_vec(), Alg::Sha384 => sha384::Hash::hash(m).to_byte_array().to_vec(),
        Alg::Sha512 => sha512::Hash::hash(m).to_byte_array().to_vec(), Alg::Sha512_256 => sha512_256::Hash::hash(m).to_byte_array().to_vec(), Alg::Ripemd160 => ripemd160::Hash::hash(m).to_byte_array().to_vec(),
    }
}

pub fn c01(i: &mut Reader, r: &mut Rec) {
    let a = ALGS[i.n() as usize % ALGS.len()];
    let m = i.data();
    r.case("c01 guided alg,len", [a as u64, m.len() as u64, 0, 0, 0, 0]);
    let want = digest(a, &m);
    let off = m.len() % 13;
    let (p, o) = gen::place(&m, off);
    r.eqb(&oneshot(a, &p[o..]), &want, "digest", || format!("{} of {}", a.name(), hexs(&m)));
    r.eqb(&trait_hash(Kind::Plain(a), &m), &want, "digest", || format!("{} (engine trait) of {}", a.name(), hexs(&m)));
    r.nontrivial(fp(&[a as u64, fp_bytes(&m)]));
    r.count("digests judged", 2);
}

#[derive(PartialEq, Clone, Copy)]
pub enum Judge { Pieces, Resume, Count }

/// A life of an engine: input, clones, saves and resumes.
pub fn history(i: &mut Reader, r: &mut Rec, k: Kind, what: Judge) {
    let key = keys(i, k);
    let (mut e, mut m) = make(k, &key);
    let base = m.count();
    let unit = k.resume_unit() as u128;
    let mut all = Vec::new();
    let mut ops: Vec<String> = Vec::new();
    let mut cuts: Vec<usize> = Vec::new();
    r.case("c02/c06/c18 guided kind", [k.id(), 0, 0, 0, 0, 0]);
    i.limit(20_000);
    while !i.done() && ops.len() < 40 {
        let op = i.n() % 16;
        match op {
            0..=8 => {
                let d = i.data();
                let copies = if op == 8 { 1 + i.n() as usize % 20 } else { 1 };
                for _ in 0..copies { if all.len() > 30_000 { break } if op == 7 { for b in d.iter().take(600) { e.input(&[*b]) } let d = &d[..d.len().min(600)]; m.update(d); all.extend_from_slice(d); cuts.extend(d.iter().map(|_| 1)) } else { e.input(&d); m.update(&d); all.extend_from_slice(&d); cuts.push(d.len()) } }
                ops.push(format!("input {} bytes x{}{}", d.len(), copies, if op == 7 { " one at a time" } else { "" }));
                if all.len() > 30_000 { break }
            }
            9 => { e = e.dup(); ops.push("clone".into()) }
            10 => { let u = i.data(); e = e.dup_into(&u); ops.push(format!("clone_from into an engine fed {} bytes", u.len())) }
            11 => { let mut c = e.dup(); let d = i.data(); c.input(&d); let mut n = m.clone(); n.update(&d); ops.push(format!("clone fed {} bytes", d.len())); if what != Judge::Count { r.eqb(&c.finish(), &n.finish(), "digest", || format!("{} {:?}: {:?}", k.name(), key, ops)) } }
            12 => { let _ = e.mid(); ops.push("midstate queried".into()) }
            _ if what == Judge::Pieces => {}
            13 | 14 => if m.count() % unit == 0 {
                if what == Judge::Resume { if let (Some(g), Some(w)) = (e.mid(), m.chain()) { r.eqb(&g, &w, "midstate", || format!("{} {:?}: {:?}", k.name(), key, ops)) } }
                e = e.resume(m.count() as usize);
                ops.push(format!("resumed at {}", m.count()));
                r.count("resumes", 1);
            }
            _ => if let Kind::Plain(a) = k { if what == Judge::Resume {
                let l = i.n() as usize;
                let mid = match e.mid() { Some(x) => x, None => continue };
                if l as u128 >= 1 << 60 { continue }
                let ok = quiet(|| resume_bytes(a, &mid, l).count());
                r.check(ok == Ok(l) || (ok.is_err() && l % a.block() != 0), "resume length", || format!("{} resumed at {}: {:?}", k.name(), l, ok));
                r.count("resume lengths tried", 1);
            } }
        }
        if what != Judge::Pieces { let (g, w) = (e.count() as u128, m.count()); r.eq(g, w, "count", || format!("{} {:?}: {:?}", k.name(), key, ops)); r.count("counts judged", 1) }
    }
    r.count("engine operations", ops.len() as u64);
    r.nontrivial(fp(&[k.id(), fp_bytes(&all), ops.len() as u64, cuts.iter().fold(7, |h, c| fp(&[h, *c as u64]))]));
    if what == Judge::Count { return }
    let want = m.finish();
    let name = || format!("{} {:?}: {:?} message {}", k.name(), key, ops, hexs(&all));
    r.eqb(&e.finish(), &want, "digest", name);
    r.eq(m.count(), base + all.len() as u128, "model count", name);
    let plain = make_model(k, &Keys { default: true, ..Default::default() });
    if what == Judge::Pieces {
        let mut at = 0;
        let v: Vec<&[u8]> = cuts.iter().map(|c| { let p = &all[at..at + c]; at += c; p }).collect();
        let mut m = plain;
        m.update(&all);
        r.eqb(&trait_chunks(k, &v), &m.finish(), "hash_byte_chunks", name);
    }
    r.count("digests judged", 1);
}

pub fn c03(i: &mut Reader, r: &mut Rec) {
    let u = UNDERS[i.n() as usize % UNDERS.len()];
    let key = i.data();
    let k = Kind::Hmac(u);
    let (mut e, mut m) = make(k, &Keys { hkey: key.clone(), ..Default::default() });
    let mut all = Vec::new();
    let mut n = 0;
    r.case("c03 guided under,keylen", [k.id(), key.len() as u64, 0, 0, 0, 0]);
    loop { let d = i.data(); e.input(&d); m.update(&d); all.extend_from_slice(&d); n += 1; if i.done() || n > 20 { break } }
    r.eqb(&e.finish(), &m.finish(), "tag", || format!("{} key {} message {} in {} pieces", k.name(), hexs(&key), hexs(&all), n));
    r.nontrivial(fp(&[k.id(), fp_bytes(&key), fp_bytes(&all), n]));
    r.count("tags judged", 1);
}

pub fn c04(i: &mut Reader, r: &mut Rec) {
    let (k0, k1) = (i.n(), i.n());
    let mut e = siphash24::Engine::with_keys(k0, k1);
    let mut m = Sip::new(k0, k1);
    let mut all = Vec::new();
    let mut n = 0;
    r.case("c04 guided keys", [k0, k1, 0, 0, 0, 0]);
    loop { let d = i.data(); e.input(&d); m.update(&d); all.extend_from_slice(&d); n += 1; if i.done() || n > 30 { break } }
    let want = m.finish();
    let w = u64::from_le_bytes(<[u8; 8]>::try_from(&want[..]).unwrap());
    let name = || format!("siphash24 keys {:x} {:x} message {} in {} pieces", k0, k1, hexs(&all), n);
    let h = siphash24::Hash::from_engine(e.clone());
    r.eqb(&h.to_byte_array(), &want, "digest", name);
    r.eq(siphash24::Hash::from_engine_to_u64(e.clone()), w, "u64", name);
    r.eqb(&e.finalize(), &want, "digest", name);
    r.eqb(&siphash24::Hash::hash_with_keys(k0, k1, &all).to_byte_array(), &want, "digest", name);
    r.eq(siphash24::Hash::hash_to_u64_with_keys(k0, k1, &all), w, "u64", name);
    r.nontrivial(fp(&[k0, k1, fp_bytes(&all), n]));
    r.count("digests judged", 5);
}

pub fn c05(i: &mut Reader, r: &mut Rec) {
    let tag = i.data();
    let mut m = Model::tagged(&tag);
    r.case("c05 guided taglen", [tag.len() as u64, 0, 0, 0, 0, 0]);
    r.eqb(&sha256::Midstate::hash_tag(&tag).to_byte_array(), &m.chain().unwrap(), "tag midstate", || format!("tag {}", hexs(&tag)));
    set_tag(&tag);
    let mut e = sha256t::Hash::<TagDyn>::engine();
    let mut all = Vec::new();
    let mut n = 0;
    loop { let d = i.data(); e.input(&d); m.update(&d); all.extend_from_slice(&d); n += 1; if i.done() || n > 20 { break } }
    let want = m.finish();
    let name = || format!("tag {} message {} in {} pieces", hexs(&tag), hexs(&all), n);
    r.eqb(sha256t::Hash::<TagDyn>::from_engine(e).as_byte_array(), &want, "digest", name);
    r.eqb(sha256t::Hash::<TagDyn>::hash(&all).as_byte_array(), &want, "digest", name);
    r.eqb(&<sha256t::Engine<TagDyn> as HashEngine>::hash(&all), &want, "digest", name);
    r.nontrivial(fp(&[fp_bytes(&tag), fp_bytes(&all), n]));
    r.count("digests judged", 3);
}

pub fn c07(i: &mut Reader, r: &mut Rec) {
    let a = ALGS[i.n() as usize % ALGS.len()];
    let wide = a.block() == 128;
    let b = a.block() as u64;
    let mut len = i.n();
    if !wide { len &= (1 << 61) - 1 }
    len = len.min(if wide { u64::MAX - (1 << 20) } else { (1 << 61) - (1 << 20) }) / b * b;
    let clen = match a { Alg::Sha1 | Alg::Ripemd160 => 20, Alg::Sha256 => 32, _ => 64 };
    let mut chain = i.blob().to_vec();
    chain.resize(clen, 0x5a);
    let mut e = resume_bytes(a, &chain, len as usize);
    let mut m = Md::from_chain(a, &chain, len as u128);
    r.case("c07 guided alg,len", [a as u64, len, 0, 0, 0, 0]);
    let mut all = Vec::new();
    let mut n = 0;
    loop { let d = i.data(); e.input(&d); m.update(&d); all.extend_from_slice(&d); n += 1; if i.done() || n > 10 { break } }
    let name = || format!("{} resumed at {} (state {}) fed {} in {} pieces", a.name(), len, hexs(&chain), hexs(&all), n);
    r.eq(e.count() as u128, len as u128 + all.len() as u128, "count", name);
    r.eqb(&e.finish(), &m.finish(), "digest", name);
    r.nontrivial(fp(&[a as u64, len, fp_bytes(&all), fp_bytes(&chain)]));
    r.count("digests at resumed counts judged", 1);
}

pub fn c08(i: &mut Reader, r: &mut Rec) {
    let m = i.data();
    r.case("c08 guided len", [m.len() as u64, 0, 0, 0, 0, 0]);
    let want = digest(Alg::Sha256, &m);
    r.eqb(&sha256::Hash::const_hash(&m).to_byte_array(), &want, "const_hash", || hexs(&m));
    r.eqb(&sha256::Midstate::hash_tag(&m).to_byte_array(), &Model::tagged(&m).chain().unwrap(), "hash_tag", || hexs(&m));
    r.nontrivial(fp_bytes(&m));
    r.count("const_hash and hash_tag values judged", 2);
}

pub fn c12(i: &mut Reader, r: &mut Rec) {
    use chf::cmp::fixed_time_eq;
    let a = i.data();
    let mut b = if i.n() % 4 == 0 { i.data() } else { a.clone() };
    while !i.done() && !b.is_empty() { let p = (i.n() as usize) % b.len(); b[p] ^= i.n() as u8 }
    r.case("c12 guided lengths", [a.len() as u64, b.len() as u64, 0, 0, 0, 0]);
    if a.len() == b.len() {
        let (p, o) = gen::place(&a, a.len() % 7);
        let (q, s) = gen::place(&b, a.first().map_or(0, |x| *x as usize % 8));
        r.eq(fixed_time_eq(&p[o..], &q[s..]), a == b, "verdict", || format!("{} vs {}", hexs(&a), hexs(&b)));
        r.eq(fixed_time_eq(&q[s..], &p[o..]), a == b, "verdict", || format!("{} vs {}", hexs(&b), hexs(&a)));
        r.count(if a == b { "equal pairs" } else { "unequal pairs" }, 1);
    } else {
        let got = quiet(|| fixed_time_eq(&a, &b));
        r.check(got.is_err(), "unequal lengths", || format!("lengths {} and {} gave {:?}", a.len(), b.len(), got.ok()));
        r.count("unequal length pairs", 1);
    }
    r.nontrivial(fp(&[fp_bytes(&a), fp_bytes(&b)]));
}

}
#[cfg(feature = "g-hash")]
use h::*;

#[cfg(all(feature = "std", feature = "g-hash"))]
fn c16(i: &mut Reader, r: &mut Rec) {
    use std::io::{IoSlice, Write};
    fn go<E: HashEngine + Write + bitcoin_io::Write>(i: &mut Reader, r: &mut Rec, mut e: E, mut m: Model, name: &str) {
        let mut ops: Vec<String> = Vec::new();
        let mut all: Vec<u8> = Vec::new();
        let base = e.n_bytes_hashed();
        r.case("c16 guided", [fp_bytes(name.as_bytes()), 0, 0, 0, 0, 0]);
        while !i.done() && ops.len() < 30 {
            let op = i.n() % 8;
            let d = if op == 7 { Vec::new() } else { i.data() };
            let mut took = d.clone();
            ops.push(format!("op {} of {} bytes", op, d.len()));
            let ok = match op {
                0 | 1 => Write::write(&mut e, &d).ok() == Some(d.len()),
                2 => Write::write_all(&mut e, &d).is_ok(),
                3 => { let c = (i.n() as usize).min(d.len()); let (x, y) = d.split_at(c); match e.write_vectored(&[IoSlice::new(&[]), IoSlice::new(x), IoSlice::new(y)]) { Ok(n) => { took.truncate(n); n <= d.len() && (n > 0 || d.is_empty()) } _ => false } }
                4 => bitcoin_io::Write::write(&mut e, &d).ok() == Some(d.len()),
                5 => bitcoin_io::Write::write_all(&mut e, &d).is_ok(),
                6 => std::io::copy(&mut &d[..], &mut e).ok() == Some(d.len() as u64),
                _ => Write::flush(&mut e).is_ok() && bitcoin_io::Write::flush(&mut e).is_ok(),
            };
            m.update(&took);
            all.extend(&took);
            r.check(ok, "write result", || format!("{} {:?}", name, ops));
            r.eq(e.n_bytes_hashed(), base + all.len(), "bytes absorbed", || format!("{} {:?}", name, ops));
        }
        r.count("writer operations", ops.len() as u64);
        r.eqb(e.finalize().as_ref(), &m.finish(), "digest", || format!("{} {:?} {}", name, ops, hexs(&all)));
        r.nontrivial(fp(&[fp_bytes(name.as_bytes()), fp_bytes(&all), ops.len() as u64]));
    }
    match i.n() % 9 {
        0 => go(i, r, sha1::Engine::default(), Model::plain(Alg::Sha1), "sha1"),
        1 => go(i, r, sha256::Engine::default(), Model::plain(Alg::Sha256), "sha256"),
        2 => go(i, r, sha512::Engine::default(), Model::plain(Alg::Sha512), "sha512"),
        3 => go(i, r, ripemd160::Engine::default(), Model::plain(Alg::Ripemd160), "ripemd160"),
        4 => { let (a, b) = (i.n(), i.n()); go(i, r, siphash24::Engine::with_keys(a, b), Model::sip(a, b), "siphash24") }
        5 => go(i, r, sha256t::Engine::<TagA>::default(), Model::tagged(TAG_A), "sha256t"),
        6 => { let k = i.data(); go(i, r, hmac::Engine::<sha256::Engine>::new(&k), Model::hmac(&Model::plain(Alg::Sha256), 64, &k), "hmac-sha256") }
        7 => { let k = i.data(); go(i, r, hmac::Engine::<sha384::Engine>::new(&k), Model::hmac(&Model::plain(Alg::Sha384), 128, &k), "hmac-sha384") }
        _ => { let k = i.data(); go(i, r, hmac::Engine::<siphash24::Engine>::new(&k), Model::hmac(&Model::sip(0, 0), 32, &k), "hmac-siphash24") }
    }
}

#[cfg(feature = "g-foreign")]
fn c19(i: &mut Reader, r: &mut Rec) {
    let which = i.n() as usize;
    let key = i.data();
    let (mut m, mut cuts) = (Vec::new(), Vec::new());
    loop { let d = i.data(); cuts.push(d.len()); m.extend(d); if i.done() || cuts.len() > 12 { break } }
    foreign::guided(which, r, &key, &m, &cuts);
}

#[cfg(feature = "g-vals")]
fn values(prop: &str, i: &mut Reader, r: &mut Rec, cfg: &Cfg) {
    let t = i.n() as usize;
    let mode = i.n();
    let a = i.data();
    let b = if mode & 1 == 0 { i.data() } else { let mut b = a.clone(); while !i.done() && !b.is_empty() && mode & 2 != 0 { let p = i.n() as usize % b.len(); b[p] ^= i.n() as u8 } b };
    let s = i.text();
    let (w, p) = (i.n() as usize, i.n() as usize);
    match prop {
        #[cfg(feature = "serde")]
        "c10" => serdes::with_serde::guided(r, cfg, t, &a, &b, &s),
        _ => vals::guided(r, cfg, t, &a, &b, &s, w, p),
    }
}

fn case(prop: &str, c: &Case, r: &mut Rec, cfg: &Cfg) {
    let i = &mut Reader::new(c);
    match prop {
        #[cfg(feature = "g-hash")]
        "c01" => c01(i, r),
        #[cfg(feature = "g-hash")]
        "c02" | "c06" | "c18" => { let ks = kinds(); let k = ks[i.n() as usize % ks.len()]; history(i, r, k, match prop { "c02" => Judge::Pieces, "c06" => Judge::Resume, _ => Judge::Count }) }
        #[cfg(feature = "g-hash")]
        "c03" => c03(i, r),
        #[cfg(feature = "g-hash")]
        "c04" => c04(i, r),
        #[cfg(feature = "g-hash")]
        "c05" => c05(i, r),
        #[cfg(feature = "g-hash")]
        "c07" => c07(i, r),
        #[cfg(feature = "g-hash")]
        "c08" => c08(i, r),
        #[cfg(feature = "g-hash")]
        "c12" => c12(i, r),
        #[cfg(all(feature = "std", feature = "g-hash"))]
        "c16" => c16(i, r),
        #[cfg(feature = "g-foreign")]
        "c19" => c19(i, r),
        #[cfg(feature = "g-vals")]
        "c09" | "c10" | "c11" => values(prop, i, r, cfg),
        _ => panic!("property {}", prop),
    }
}

#[derive(Default)]
struct State { evals: u64, distinct: HashSet<u64>, counters: BTreeMap<String, u64>, samples: Vec<String>, viols: Vec<(String, String)>, herr: Vec<String>, bad: Option<Case> }

impl State {
    /// Judges a case; true when there is something to report.
    fn one(&mut self, prop: &str, c: &Case, cfg: &Cfg) -> bool {
        let mut r = Rec::new(0, c.nums.iter().fold(c.blobs.len() as u64, |h, n| fp(&[h, *n])), false);
        let res = quiet(|| case(prop, c, &mut r, cfg));
        self.evals += r.evals;
        if self.distinct.len() < 1 << 20 { self.distinct.extend(r.distinct.iter()) }
        for (k, v) in &r.counters { if let Some(x) = self.counters.get_mut(k) { *x += v } else { self.counters.insert(k.clone(), *v); } }
        if self.samples.len() < 3 && self.evals % 101 == 3 { self.samples.extend(r.samples.into_iter().take(1)) }
        if let Err(x) = res {
            if x.starts_with("src/") || x.contains("/verif/") || x.contains("../mon/") { self.herr.push(x) } else { self.viols.push(("panic".into(), format!("panic at {}", x))) }
        }
        for v in r.viols { self.viols.push((v.kind, v.detail)) }
        let stop = !self.viols.is_empty() || !self.herr.is_empty();
        if stop { self.bad = Some(c.clone()) }
        stop
    }
}

// A signal: leave the case behind.
static mut OUT: Option<(String, std::sync::Arc<std::sync::Mutex<(u64, Option<Case>)>>)> = None;
extern "C" { fn signal(n: i32, h: usize) -> usize; fn _exit(n: i32) -> !; }
#[allow(static_mut_refs)]
extern "C" fn crashed(_: i32) {
    unsafe {
        if let Some((f, m)) = &OUT { if let Ok(g) = m.try_lock() { if let (_, Some(c)) = &*g { let _ = std::fs::write(f, c.text()); } } }
        _exit(70)
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let Err(e) = refimpl::self_test() { eprintln!("{}", e); std::process::exit(3) }
    rec::install_panic_hook();
    let (prop, out) = (a[1].clone(), a[2].clone());
    let cfg = Cfg { prop: prop.clone(), seed: 1, thorough: false, config: "guided".into(), threads: 1, only: None, events: false, scale: 1000, extra: vec![] };
    let mut s = State::default();
    let t = if a[3] == "one" {
        let c = Case::parse(&std::fs::read_to_string(&a[4]).expect("case"));
        s.one(&prop, &c, &cfg);
        Default::default()
    } else {
        // The case being run is on disk should it never end or crash.
        let cur = format!("{}.current", out);
        let slow = std::sync::Arc::new(std::sync::Mutex::new((0u64, None::<Case>)));
        let w = slow.clone();
        let cur0 = cur.clone();
        std::thread::spawn(move || { // writes down a case that takes long
            let mut last = 0;
            loop {
                std::thread::sleep(std::time::Duration::from_millis(2000));
                let g = w.lock().unwrap();
                if let (n, Some(c)) = &*g { if *n == last { let _ = std::fs::write(&cur, c.text()); } last = *n }
            }
        });
        unsafe { OUT = Some((cur0, slow.clone())); for n in [4, 6, 7, 8, 11] { signal(n, crashed as usize); } }
        let mut run = |c: &Case| {
            { let mut g = slow.lock().unwrap(); g.0 += 1; g.1 = Some(c.clone()) }
            s.one(&prop, c, &cfg)
        };
        let mut e = Engine::new(a[4].parse().expect("seed"), a[5].parse().expect("seconds"), &mut run);
        e.search()
    };
    let c = s.counters.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    let v = s.viols.iter().take(5).map(|(k, d)| format!("{{\"kind\":{},\"detail\":{}}}", js(k), js(d))).collect::<Vec<_>>().join(",");
    let l = |x: &[String]| x.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    if let Some(c) = &s.bad { std::fs::write(format!("{}.case", out), c.text()).expect("case file") }
    std::fs::write(&out, format!("{{\"prop\":{},\"executions\":{},\"edges\":{},\"features\":{},\"corpus\":{},\"pairs\":{},\"met\":{},\"evaluations\":{},\"distinct\":{},\"counters\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"harness_errors\":[{}]}}\n",
        js(&prop), t.execs, t.edges, t.features, t.corpus, t.pairs, t.met, s.evals, s.distinct.len(), c, l(&s.samples), v, l(&s.herr))).expect("output");
    println!("{} executions, {} edges, {} features, {} kept, {} comparisons tried, {} steps gained, {} objections", t.execs, t.edges, t.features, t.corpus, t.pairs, t.met, s.viols.len());
}
