//! C19: engines defined outside the crate. The crate's generic code (HMAC, the functions the engine
//! trait provides, the writer traits on HMAC) is run over engines of the harness's own making, with
//! unusual block sizes, digest sizes and starting states. Such an engine keeps every byte it is given,
//! so the monitor sees exactly what the generic code fed it.

use std::cell::Cell;

use chf::{hmac, HashEngine};

use crate::gen::{self, hexs};
use crate::rec::{quiet, Cfg, Rec, Total};
use crate::refimpl::{digest, Alg};
use crate::rng::{fp, fp_bytes};

thread_local! { static FED: Cell<(u64, u64)> = Cell::new((0, 0)); }

/// Block of B bytes, digest of D bytes, S bytes absorbed at birth.
#[derive(Clone)]
pub struct F<const B: usize, const D: usize, const S: usize> { all: Vec<u8>, base: usize }

/// What the toy hash function is: SHA-512 in counter mode over everything absorbed, cut to D bytes.
fn toy(all: &[u8], d: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0u8;
    while out.len() < d { let mut m = vec![i]; m.extend_from_slice(all); out.extend(digest(Alg::Sha512, &m)); i += 1 }
    out.truncate(d);
    out
}
fn birth(s: usize) -> Vec<u8> { (0..s).map(|i| (i * 11 + 7) as u8).collect() }

impl<const B: usize, const D: usize, const S: usize> Default for F<B, D, S> { fn default() -> Self { F { all: birth(S), base: 0 } } }

impl<const B: usize, const D: usize, const S: usize> HashEngine for F<B, D, S> {
    type Digest = [u8; D];
    type Midstate = Vec<u8>;
    const BLOCK_SIZE: usize = B;
    fn input(&mut self, data: &[u8]) { FED.with(|f| { let (c, b) = f.get(); f.set((c + 1, b + data.len() as u64)) }); self.all.extend_from_slice(data) }
    fn n_bytes_hashed(&self) -> usize { self.base + self.all.len() }
    fn finalize(self) -> [u8; D] { let mut d = [0; D]; d.copy_from_slice(&toy(&self.all, D)); d }
    fn midstate(&self) -> Vec<u8> { self.all.clone() }
    fn from_midstate(m: Vec<u8>, length: usize) -> Self { let base = length.wrapping_sub(m.len()); F { all: m, base } }
}

/// RFC 2104 over the toy function.
fn tag(b: usize, d: usize, s: usize, key: &[u8], m: &[u8]) -> Vec<u8> {
    let h = |x: &[u8]| { let mut a = birth(s); a.extend_from_slice(x); toy(&a, d) };
    let mut k = if key.len() > b { h(key) } else { key.to_vec() };
    k.resize(b, 0);
    let mut inner: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    inner.extend_from_slice(m);
    let mut outer: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    outer.extend(h(&inner));
    h(&outer)
}

fn pieces<'a>(m: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    let mut at = 0;
    cuts.iter().map(|c| { let p = &m[at..at + c]; at += c; p }).collect()
}

fn one<const B: usize, const D: usize, const S: usize>(r: &mut Rec, key: &[u8], m: &[u8], cuts: &[usize]) {
    type H<const B: usize, const D: usize, const S: usize> = hmac::Engine<F<B, D, S>>;
    let name = || format!("user engine with block {} digest {} start {}: key {} message {} pieces {:?}", B, D, S, hexs(key), hexs(m), cuts);
    r.case("c19 block,digest,start,keylen,msglen", [B as u64, D as u64, S as u64, key.len() as u64, m.len() as u64, cuts.len() as u64]);
    let v = pieces(m, cuts);
    // the functions the trait provides
    let plain = { let mut a = birth(S); a.extend_from_slice(m); toy(&a, D) };
    r.eqb(&<F<B, D, S> as HashEngine>::hash(m), &plain, "trait hash", name);
    r.eqb(&<F<B, D, S> as HashEngine>::hash_byte_chunks(v.iter()), &plain, "trait hash_byte_chunks", name);
    r.eqb(&<F<B, D, S> as HashEngine>::new().midstate(), &birth(S), "trait new", name);
    // HMAC
    let want = tag(B, D, S, key, m);
    FED.with(|f| f.set((0, 0)));
    let mut e = H::<B, D, S>::new(key);
    r.eq(e.n_bytes_hashed(), S + B, "count", || format!("{} after new", name()));
    let mut saved = None;
    let stop = r.rng.usize(v.len() + 1);
    let mut sofar = 0;
    for (i, p) in v.iter().enumerate() {
        if i == stop { saved = Some((e.midstate(), e.n_bytes_hashed(), i)) }
        e.input(p);
        sofar += p.len();
        r.eq(e.n_bytes_hashed(), S + B + sofar, "count", name);
    }
    let dup = e.clone();
    let mut longer = e.clone();
    longer.input(b"more");
    let t = e.finalize();
    let (calls, bytes) = FED.with(|f| f.get());
    r.eqb(&t, &want, "tag", name);
    r.eqb(hmac::Hash::<D>::from_engine(dup).as_bytes(), &want, "tag of a clone", name);
    r.eqb(&longer.finalize(), &tag(B, D, S, key, &[m, b"more"].concat()), "tag of a clone that goes on", name);
    if let Some((mid, n, i)) = saved {
        let whole: Vec<u8> = { let mut a = birth(S); let mut k = if key.len() > B { toy(&[birth(S), key.to_vec()].concat(), D) } else { key.to_vec() }; k.resize(B, 0); a.extend(k.iter().map(|x| x ^ 0x36)); for p in &v[..i] { a.extend_from_slice(p) } a };
        r.eqb(&mid.inner, &whole, "inner midstate", name);
        let mut e = H::<B, D, S>::from_midstate(mid, n);
        for p in &v[i..] { e.input(p) }
        r.eq(e.n_bytes_hashed(), S + B + m.len(), "count after resume", name);
        r.eqb(&e.finalize(), &want, "tag after resume", name);
        r.count("resumes", 1);
    }
    if key.is_empty() {
        for mut e in [H::<B, D, S>::default(), <H<B, D, S> as HashEngine>::new(), hmac::Hash::<D>::engine::<H<B, D, S>>()] { for p in &v { e.input(p) } r.eqb(&e.finalize(), &want, "default key", name) }
        r.eqb(&<H<B, D, S> as HashEngine>::hash(m), &want, "trait hash of HMAC", name);
    }
    #[cfg(feature = "std")]
    {
        use std::io::Write;
        let mut e = H::<B, D, S>::new(key);
        for p in &v { let n = e.write(p).ok(); r.eq(n, Some(p.len()), "write", name) }
        r.check(e.flush().is_ok(), "flush", name);
        r.eqb(&e.finalize(), &want, "tag through the writer", name);
        let mut e = H::<B, D, S>::new(key);
        for p in &v { let n = bitcoin_io::Write::write(&mut e, p).ok(); r.eq(n, Some(p.len()), "write (bitcoin_io)", name) }
        r.check(bitcoin_io::Write::flush(&mut e).is_ok(), "flush (bitcoin_io)", name);
        r.eqb(&e.finalize(), &want, "tag through the bitcoin_io writer", name);
    }
    r.eq(<H<B, D, S> as HashEngine>::BLOCK_SIZE, B, "block size", name);
    r.count("calls of the user engine's input seen", calls);
    r.count("bytes fed to user engines", bytes);
    r.count("tags over user engines compared", 1);
    r.nontrivial(fp(&[B as u64, D as u64, S as u64, fp_bytes(key), fp_bytes(m), cuts.len() as u64]));
    r.sample(|| format!("{} -> {}", name(), hexs(&want)));
}

/// An engine whose blocks are too big for HMAC.
fn refused<const B: usize, const D: usize>(r: &mut Rec) {
    for kl in [0, 1, 64, 128, 129, B - 1, B, B + 1] {
        let key = r.rng.bytes(kl);
        r.case("c19 refused block,keylen", [B as u64, kl as u64, 0, 0, 0, 0]);
        let got = quiet(|| { let mut e = hmac::Engine::<F<B, D, 0>>::new(&key); e.input(b"x"); e.finalize() });
        r.check(got.is_err(), "answered", || format!("HMAC over an engine with blocks of {} bytes, key of {} bytes, gave a tag: {:?}", B, kl, got.map(|x| hexs(&x))));
        r.count("engines with large blocks refused", 1);
        r.nontrivial(fp(&[B as u64, kl as u64]));
    }
    // Everything but HMAC still works with them.
    let m = r.rng.bytes(3 * B);
    r.eqb(&<F<B, D, 0> as HashEngine>::hash(&m), &toy(&m, D), "trait hash", || format!("block {}", B));
}

type Case = (usize, fn(&mut Rec, &[u8], &[u8], &[usize]));
const CASES: &[Case] = &[
    (1, one::<1, 1, 0>), (2, one::<2, 2, 3>), (8, one::<8, 8, 0>), (16, one::<16, 16, 0>), (20, one::<20, 12, 0>), (32, one::<32, 8, 5>), (48, one::<48, 48, 48>), (63, one::<63, 32, 0>),
    (64, one::<64, 16, 64>), (64, one::<64, 64, 0>), (65, one::<65, 32, 0>), (72, one::<72, 32, 9>), (100, one::<100, 100, 0>), (104, one::<104, 64, 0>), (127, one::<127, 20, 1>), (128, one::<128, 64, 0>), (128, one::<128, 128, 256>),
];

/// One case for the guided workloads.
pub fn guided(which: usize, r: &mut Rec, key: &[u8], m: &[u8], cuts: &[usize]) { CASES[which % CASES.len()].1(r, key, m, cuts) }

pub fn c19(cfg: &Cfg, out: Option<&str>) -> Total {
    let n = CASES.len();
    crate::rec::run(cfg, 1 + n * 4, out, &|i, r| {
        if i == 0 {
            refused::<129, 32>(r); refused::<136, 32>(r); refused::<144, 28>(r); refused::<200, 64>(r); refused::<256, 32>(r); refused::<4096, 32>(r);
            return
        }
        let (b, f) = CASES[(i - 1) % n];
        let part = (i - 1) / n;
        // every key length around the block
        for kl in (0..3 * b + 4).filter(|x| x % 4 == part) {
            for _ in 0..cfg.n(1, 3) {
                let key = gen::message(&mut r.rng, kl);
                let ml = gen::length(&mut r.rng, b.max(8), 4 * b + 20);
                let m = gen::message(&mut r.rng, ml);
                let cuts = gen::partition(&mut r.rng, ml, b.max(8));
                f(r, &key, &m, &cuts);
            }
        }
        for _ in 0..cfg.n(20, 200) {
            let (kl, ml) = (r.rng.usize(4 * b + 2), if r.rng.one_in(10) { r.rng.usize(5000) } else { gen::length(&mut r.rng, b.max(8), 300) });
            let (key, m) = (gen::message(&mut r.rng, kl), gen::message(&mut r.rng, ml));
            let cuts = gen::partition(&mut r.rng, ml, b.max(8));
            f(r, &key, &m, &cuts);
        }
        if part == 0 { let m = r.rng.bytes(100); f(r, &[], &m, &[33, 0, 67]) }
    })
}
