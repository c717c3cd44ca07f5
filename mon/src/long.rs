//! C07: messages whose byte or bit count needs more than 32 bits.

use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine};

use crate::engines::*;
use crate::gen::{self, hex};
use crate::kat;
use crate::rec::{Cfg, Rec, Total};
use crate::refimpl::{Alg, Md, Model, Sip, ALGS};
use crate::rng::{fp, Rng};

fn pattern() -> Vec<u8> { Rng::new(0xC07, 7).bytes(1 << 20) }

/// Streams the repeated pattern through `e`, calling `at` when exactly `checks[i]` bytes are in.
fn stream(r: &mut Rec, e: &mut dyn Dyn, checks: &[u64], what: u64, mut at: impl FnMut(&mut Rec, usize, &dyn Dyn)) {
    let pat = pattern();
    let n = pat.len() as u64;
    let mut pos = 0u64;
    for (i, &c) in checks.iter().enumerate() {
        while pos < c {
            // Whole-pattern chunks with an uneven one now and then.
            let o = pos % n;
            let t = (n - o).min(c - pos).min(if pos % 7 == 3 { 100_003 } else { n });
            if pos % (64 << 20) < n { r.case("c07 streaming engine,pos", [what, pos, 0, 0, 0, 0]); r.evals -= 1; }
            e.input(&pat[o as usize..(o + t) as usize]);
            pos += t;
        }
        at(r, i, e);
    }
}

fn judge(r: &mut Rec, name: &str, e: &dyn Dyn, len: u64, count0: u64, want: &str) {
    r.case("c07 checkpoint len", [len, 0, 0, 0, 0, 0]);
    r.eq(e.count() as u64, len + count0, "count", || format!("{} after {} bytes", name, len));
    let got = hex(&e.dup().finish());
    r.eq(got.as_str(), want, "digest", || format!("{} of {} streamed bytes", name, len));
    r.count("long streamed digests judged", 1);
    r.nontrivial(fp(&[len, crate::rng::fp_bytes(name.as_bytes())]));
    r.sample(|| format!("{}({} streamed bytes) = {}", name, len, want));
}

pub fn c07(cfg: &Cfg, out: Option<&str>) -> Total {
    // Which parts: "stream" (multi-gigabyte), "zero" (one slice over 4 GiB), "resume" (cheap).
    let part = |p: &str| cfg.extra.iter().any(|x| x == p);
    let mut jobs: Vec<(u8, usize)> = Vec::new();
    if part("stream") { for i in [5, 1, 0, 3, 2, 4, 6, 7] { jobs.push((0, i)) } }
    if part("zero") { for i in [5, 1, 0, 3, 6] { jobs.push((1, i)) } }
    if part("resume") { for i in 0..cfg.n(64, 600) { jobs.push((2, i)) } }
    let jobs = &jobs;
    crate::rec::run(cfg, jobs.len(), out, &|i, r| match jobs[i] {
        (0, 6) => { // SipHash
            let mut e = make_engine(Kind::Sip, &Keys { k0: kat::SIP_KEYS.0, k1: kat::SIP_KEYS.1, ..Default::default() });
            let mut ch = kat::CHECK.to_vec();
            if cfg.thorough { ch.extend(kat::BIG) }
            stream(r, e.as_mut(), &ch.clone(), 6, |r, i, e| judge(r, "siphash24", e, ch[i], 0, kat::STREAM_SIP[i]));
        }
        (0, 7) => { // HMAC over a fast hash: tag of a long message equals H(K^opad || H(K^ipad || m))
            let key = [0x42u8; 40];
            let mut e: Box<dyn Dyn> = Box::new(Live(hmac::Engine::<siphash24::Engine>::new(&key)));
            let mut inner = Model::sip(0, 0);
            let mut kp = [0u8; 32];
            kp[..8].copy_from_slice(&{ let mut m = Model::sip(0, 0); m.update(&key); m.finish() });
            inner.update(&kp.map(|b| b ^ 0x36));
            let len = (1u64 << 29) + 9;
            stream(r, e.as_mut(), &[len], 7, |r, _, e| {
                // The model absorbs the same bytes.
                let pat = pattern();
                let mut pos = 0u64;
                while pos < len { let o = pos % (1 << 20); let t = ((1 << 20) - o).min(len - pos); inner.update(&pat[o as usize..(o + t) as usize]); pos += t; if pos % (64 << 20) < (1 << 20) { r.case("c07 model", [pos, 0, 0, 0, 0, 0]) } }
                let mut o = Model::sip(0, 0);
                o.update(&kp.map(|b| b ^ 0x5c));
                o.update(&inner.finish());
                let want = hex(&o.finish());
                judge(r, "hmac-siphash24", e, len, 32, &want);
            });
        }
        (0, a) => {
            let (alg, digs) = &kat::STREAM[a];
            let mut e = make_engine(Kind::Plain(*alg), &Keys::default());
            let mut ch = kat::CHECK.to_vec();
            if cfg.thorough { ch.extend(kat::BIG) }
            stream(r, e.as_mut(), &ch.clone(), a as u64, |r, i, e| judge(r, alg.name(), e, ch[i], 0, digs[i]));
        }
        (1, i) => { // one slice longer than 4 GiB, in one call
            let n = (1usize << 32) + 7;
            let z = vec![0u8; n];
            r.case("c07 one slice over 4 GiB", [i as u64, n as u64, 0, 0, 0, 0]);
            let (name, got, want) = if i == 6 {
                let (a, b) = kat::SIP_KEYS;
                ("siphash24", hex(&siphash24::Hash::hash_with_keys(a, b, &z).to_byte_array()), kat::ZERO_2_32_7_SIP)
            } else {
                let (alg, d) = kat::ZERO_2_32_7[i];
                let g = match alg {
                    Alg::Sha1 => hex(&sha1::Hash::hash(&z).to_byte_array()), Alg::Sha256 => hex(&sha256::Hash::hash(&z).to_byte_array()),
                    Alg::Sha384 => hex(&sha384::Hash::hash(&z).to_byte_array()), Alg::Sha512 => hex(&sha512::Hash::hash(&z).to_byte_array()),
                    Alg::Sha512_256 => hex(&sha512_256::Hash::hash(&z).to_byte_array()), Alg::Ripemd160 => hex(&ripemd160::Hash::hash(&z).to_byte_array()),
                };
                (alg.name(), g, d)
            };
            r.eq(got.as_str(), want, "digest", || format!("{} of one slice of {} zero bytes", name, n));
            r.count("slices over 4 GiB hashed in one call", 1);
            r.nontrivial(fp(&[1, i as u64]));
        }
        (_, _) => { for _ in 0..cfg.n(120, 200) { resume_case(r) } }
    })
}

/// A length the standard (and the platform) allows, biased to where 16/31/32-bit arithmetic breaks.
pub fn big_len(rng: &mut Rng, block: usize, wide: bool) -> u64 {
    let maxbits = if usize::BITS == 32 { 32 } else if wide { 63 } else { 60 };
    let e = match rng.usize(4) { 0 => *rng.pick(&[13usize, 16, 21, 24, 28, 29, 31]), 1 => 20 + rng.usize(maxbits - 20), 2 if usize::BITS == 64 => *rng.pick(&[32usize, 33, 35, 45, 53, 59, 60]), _ => rng.usize(maxbits) };
    let base = 1u64 << e;
    let b = block as u64;
    let x = match rng.usize(5) {
        0 => base, 1 => base + b * rng.below(5), 2 => base.saturating_sub(b * (1 + rng.below(4))),
        3 => base + rng.below(base), _ => base - 1,
    };
    let lim: u64 = if usize::BITS == 32 { u32::MAX as u64 - 4096 } else if wide { u64::MAX - (1 << 20) } else { (1 << 61) - (1 << 20) };
    x.min(lim) / b * b
}

/// An engine resumed at a huge count against the model resumed at the same count.
pub fn resume_case(r: &mut Rec) {
    let i = r.rng.usize(9);
    if i < 6 {
        let a = ALGS[i];
        let len = big_len(&mut r.rng, a.block(), a.block() == 128);
        let clen = match a { Alg::Sha1 | Alg::Ripemd160 => 20, Alg::Sha256 => 32, _ => 64 };
        let chain = r.rng.bytes(clen);
        let n = gen::length(&mut r.rng, a.block(), 4 * a.block());
        let tail = gen::message(&mut r.rng, n);
        r.case("c07 resumed alg,len,tail", [i as u64, len, n as u64, 0, 0, 0]);
        let mut e = resume_bytes(a, &chain, len as usize);
        let mut m = Md::from_chain(a, &chain, len as u128);
        let mut at = 0;
        for c in gen::partition(&mut r.rng, n, a.block()) { e.input(&tail[at..at + c]); at += c }
        m.update(&tail);
        r.eq(e.count() as u128, len as u128 + n as u128, "count", || format!("{} resumed at {} plus {}", a.name(), len, n));
        let want = m.finish();
        r.eqb(&e.finish(), &want, "digest", || format!("{} resumed at {} (chain {}) plus {} bytes {}", a.name(), len, hex(&chain), n, gen::hexs(&tail)));
        r.count("digests at huge counts judged", 1);
        r.nontrivial(fp(&[i as u64, len, n as u64]));
        r.sample(|| format!("{} resumed at {} bytes plus {} -> {}", a.name(), len, n, hex(&want)));
    } else if i == 6 { // SipHash: only the low byte of the count matters
        let len = big_len(&mut r.rng, 8, true).min(u64::MAX - 4096);
        let (k0, k1) = (r.rng.u64(), r.rng.u64());
        let pre = { let x = 8 * r.rng.usize(9); r.rng.bytes(x) };
        let n = r.rng.usize(300);
        let tail = r.rng.bytes(n);
        r.case("c07 siphash resumed len,tail", [len, n as u64, 0, 0, 0, 0]);
        let mut e0 = siphash24::Engine::with_keys(k0, k1);
        e0.input(&pre);
        let mut e = <siphash24::Engine as HashEngine>::from_midstate(e0.midstate(), len as usize);
        e.input(&tail);
        let mut m = Sip::new(k0, k1);
        m.update(&pre);
        m.set_total(len as u128);
        m.update(&tail);
        r.eq(e.n_bytes_hashed() as u64, len + n as u64, "count", || format!("siphash24 resumed at {} plus {}", len, n));
        r.eqb(&e.finalize(), &m.finish(), "digest", || format!("siphash24 resumed at {} plus {} bytes", len, n));
        r.count("digests at huge counts judged", 1);
        r.nontrivial(fp(&[6, len, n as u64]));
    } else if i == 8 { // tagged
        let len = big_len(&mut r.rng, 64, false);
        let chain = r.rng.bytes(32);
        let n = gen::length(&mut r.rng, 64, 4 * 64);
        let tail = gen::message(&mut r.rng, n);
        r.case("c07 tagged resumed len,tail", [len, n as u64, 0, 0, 0, 0]);
        let mid = sha256::Midstate::from_slice(&chain).expect("32 bytes");
        let mut e = <sha256t::Engine<TagA> as HashEngine>::from_midstate(mid, len as usize);
        e.input(&tail);
        let mut m = Md::from_chain(Alg::Sha256, &chain, len as u128);
        m.update(&tail);
        r.eq(e.n_bytes_hashed() as u64, len + n as u64, "count", || format!("sha256t resumed at {} plus {}", len, n));
        r.eqb(sha256t::Hash::<TagA>::from_engine(e).as_ref(), &m.finish(), "digest", || format!("sha256t resumed at {} plus {} bytes", len, n));
        r.count("digests at huge counts judged", 1);
        r.nontrivial(fp(&[8, len, n as u64]));
    } else { // HMAC resumed after a huge inner count
        let j = r.rng.usize(6);
        let a = ALGS[j];
        let len = big_len(&mut r.rng, a.block(), a.block() == 128);
        fn go<E: HashEngine>(r: &mut Rec, a: Alg, len: u64) where E::Midstate: Mid {
            let clen = match a { Alg::Sha1 | Alg::Ripemd160 => 20, Alg::Sha256 => 32, _ => 64 };
            let (ci, co) = (r.rng.bytes(clen), r.rng.bytes(clen));
            let n = gen::length(&mut r.rng, a.block(), 3 * a.block());
            let tail = r.rng.bytes(n);
            r.case("c07 hmac resumed alg,len,tail", [a as u64, len, n as u64, 0, 0, 0]);
            let mid = hmac::Midstate::<E> { inner: Mid::build(&ci).unwrap(), outer: Mid::build(&co).unwrap() };
            let mut e = <hmac::Engine<E> as HashEngine>::from_midstate(mid, len as usize);
            e.input(&tail);
            let mut i = Md::from_chain(a, &ci, len as u128);
            i.update(&tail);
            let mut o = Md::from_chain(a, &co, a.block() as u128);
            o.update(&i.finish());
            r.eq(e.n_bytes_hashed() as u64, len + n as u64, "count", || format!("hmac-{} resumed at {} plus {}", a.name(), len, n));
            let want = o.finish();
            r.eqb(e.finalize().as_ref(), &want, "digest", || format!("hmac-{} resumed at {} plus {} bytes", a.name(), len, n));
            r.count("digests at huge counts judged", 1);
            r.nontrivial(fp(&[7, a as u64, len, n as u64]));
        }
        match a {
            Alg::Sha1 => go::<sha1::Engine>(r, a, len), Alg::Sha256 => go::<sha256::Engine>(r, a, len), Alg::Sha384 => go::<sha384::Engine>(r, a, len),
            Alg::Sha512 => go::<sha512::Engine>(r, a, len), Alg::Sha512_256 => go::<sha512_256::Engine>(r, a, len), Alg::Ripemd160 => go::<ripemd160::Engine>(r, a, len),
        }
    }
}
