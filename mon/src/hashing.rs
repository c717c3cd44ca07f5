//! C01, C02, C03, C04, C05, C06, C08, C18: monitors of what the engines compute.

use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine};

use crate::engines::*;
use crate::gen::{self, hex, hexs};
use crate::rec::{quiet, Cfg, Rec, Total};
use crate::refimpl::{digest, Alg, Model, ALGS};
use crate::rng::{fp, fp_bytes};

fn pool(cfg: &Cfg, n: usize, out: Option<&str>, f: impl Fn(usize, &mut Rec) + Sync) -> Total { crate::rec::run(cfg, n, out, &f) }

// ---- C01 --------------------------------------------------------------------------------------

/// Every one-shot way to hash `m`.
pub fn oneshots(a: Alg, m: &[u8], all: bool) -> Vec<(&'static str, Vec<u8>)> {
    macro_rules! go { ($t:ident) => {{
        let mut v = vec![("Hash::hash", $t::Hash::hash(m).to_byte_array().to_vec())];
        if all {
            v.push(("Engine::hash", <$t::Engine as HashEngine>::hash(m).to_vec()));
            v.push(("hash_byte_chunks", <$t::Engine as HashEngine>::hash_byte_chunks(core::iter::once(m)).to_vec()));
            let mut e = $t::Hash::engine();
            e.input(m);
            v.push(("from_engine", $t::Hash::from_engine(e).to_byte_array().to_vec()));
            let mut e = $t::Engine::default();
            e.input(m);
            v.push(("finalize", e.finalize().to_vec()));
        }
        v
    }} }
    match a {
        Alg::Sha1 => go!(sha1), Alg::Sha256 => go!(sha256), Alg::Sha384 => go!(sha384), Alg::Sha512 => go!(sha512),
        Alg::Sha512_256 => go!(sha512_256), Alg::Ripemd160 => go!(ripemd160),
    }
}

fn c01_one(r: &mut Rec, a: Alg, m: &[u8], all: bool, how: u64) {
    r.case("c01 alg,len,how", [a as u64, m.len() as u64, how, fp_bytes(m), 0, 0]);
    let want = digest(a, m);
    for (entry, got) in oneshots(a, m, all) {
        r.eqb(&got, &want, "digest", || format!("{} via {} of {}", a.name(), entry, hexs(m)));
        r.count("digests compared", 1);
    }
    if !m.is_empty() { r.nontrivial(fp(&[a as u64, fp_bytes(m)])) }
    if m.len() <= 700 {
        r.event(|| format!("{{\"op\":\"hash\",\"alg\":\"{}\",\"msg\":\"{}\",\"out\":\"{}\"}}", a.name(), hex(m), hex(&oneshots(a, m, false)[0].1)));
    }
    r.sample(|| format!("{}({} bytes, fp {:016x}) = {}", a.name(), m.len(), fp_bytes(m), hex(&want)));
}

pub fn c01(cfg: &Cfg, out: Option<&str>) -> Total {
    let maxlen = cfg.n(3072, 16384);
    let slice = 64usize;
    let nsl = maxlen / slice + 1;
    let rand_tasks = cfg.n(24, 200);
    let per = nsl + 2 + rand_tasks;
    pool(cfg, 6 * per, out, |i, r| {
        let a = ALGS[i % 6];
        let j = i / 6;
        if j < nsl { // every length
            for len in j * slice..(j + 1) * slice {
                for kind in [0, 1, 2, 7, 1 + r.rng.usize(gen::KINDS - 1)] {
                    if len > 1024 && kind != 0 && kind != 7 { continue }
                    let m = gen::content(&mut r.rng, kind, len);
                    c01_one(r, a, &m, true, kind as u64);
                }
                r.count("lengths visited exhaustively", 1);
            }
        } else if j == nsl { // every single-bit message of a few lengths
            for len in [1usize, 55, 56, 63, 64, 65, 111, 112, 119, 127, 128, 129] {
                for bit in 0..len * 8 {
                    let mut m = vec![0u8; len];
                    m[bit / 8] = 0x80 >> (bit % 8);
                    c01_one(r, a, &m, false, 100);
                    m.iter_mut().for_each(|b| *b ^= 0xff);
                    c01_one(r, a, &m, false, 101);
                }
            }
        } else if j == nsl + 1 { // long
            for k in 0..cfg.n(6, 40) {
                let len = 65536 + r.rng.usize(1 << (17 + k % 7));
                let m = gen::message(&mut r.rng, len);
                c01_one(r, a, &m, k % 2 == 0, 102);
                r.count("messages over 64 KiB", 1);
            }
        } else { // random
            for _ in 0..cfg.n(150, 300) {
                let len = gen::length(&mut r.rng, a.block(), 60_000);
                let m = gen::message(&mut r.rng, len);
                let (p, o) = gen::place(&m, len % 17);
                c01_one(r, a, &p[o..], true, 103);
            }
        }
    })
}

// ---- C02 --------------------------------------------------------------------------------------

fn solo(k: Kind, keys: &Keys, m: &[u8]) -> Vec<u8> { let mut e = make_engine(k, keys); e.input(m); e.finish() }

pub fn c02(cfg: &Cfg, out: Option<&str>) -> Total {
    let ks = kinds();
    let nk = ks.len();
    let rand_tasks = cfg.n(30, 300);
    let slices = 8;
    let per = slices + slices + 2 + rand_tasks;
    pool(cfg, nk * per, out, |i, r| {
        let k = ks[i % nk];
        let j = i / nk;
        let b = k.block();
        let mut kr = crate::rng::Rng::new(cfg.seed, 77_000 + (i % nk) as u64);
        let mut keys = keys(&mut kr, k);
        if j < 2 * slices {
            // Exhaustive small partitions of one message against one-call hashing of the same bytes.
            let m = kr.bytes(5 * b + 8);
            let whole: Vec<Vec<u8>> = (0..=m.len()).map(|n| solo(k, &keys, &m[..n])).collect();
            if j < slices { // two chunks: all a < 2B, all b < 3B
                for x in (0..2 * b + 1).filter(|x| x % slices == j) {
                    for y in 0..3 * b {
                        r.case("c02 two chunks kind,a,b", [k.id(), x as u64, y as u64, 0, 0, 0]);
                        let mut e = make_engine(k, &keys);
                        e.input(&m[..x]);
                        e.input(&m[x..x + y]);
                        let d = e.finish();
                        r.eqb(&d, &whole[x + y], "partition", || format!("{} chunks [{},{}] of fp {:016x}", k.name(), x, y, fp_bytes(&m)));
                        r.nontrivial(fp(&[2, k.id(), x as u64, y as u64]));
                    }
                }
                r.count("two-chunk partitions", (2 * b as u64 + 1) / slices as u64 * 3 * b as u64);
            } else { // three or four chunks from a set that straddles every boundary
                let j = j - slices;
                let set: Vec<usize> = if k.resume_unit() == 8 { (0..18).collect() } else if cfg.thorough { (0..b + 2).collect() } else {
                    let mut s: Vec<usize> = (0..4).chain(b - 9..b + 10).chain([7, 8, 9, 15, 16, 17, 31, 32, 33, b / 2 + 1, 2 * b - 1, 2 * b]).collect();
                    s.sort_unstable(); s.dedup(); s
                };
                for (xi, &x) in set.iter().enumerate() {
                    if xi % slices != j { continue }
                    for &y in &set {
                        let mut e1 = make_engine(k, &keys);
                        e1.input(&m[..x]);
                        e1.input(&m[x..x + y]);
                        for &z in &set {
                            if x + y + z > m.len() { continue }
                            r.case("c02 three chunks kind,a,b,c", [k.id(), x as u64, y as u64, z as u64, 0, 0]);
                            let mut e = e1.dup();
                            e.input(&m[x + y..x + y + z]);
                            let d = e.finish();
                            r.eqb(&d, &whole[x + y + z], "partition", || format!("{} chunks [{},{},{}] of fp {:016x}", k.name(), x, y, z, fp_bytes(&m)));
                            r.nontrivial(fp(&[3, k.id(), x as u64, y as u64, z as u64]));
                        }
                    }
                }
                r.count("three-chunk sweeps", 1);
            }
        } else if j == 2 * slices { // list-of-slices entry point, default keys
            keys = Keys { default: true, ..Default::default() };
            for _ in 0..cfg.n(250, 2500) {
                let n = gen::length(&mut r.rng, b, 5000);
                let m = gen::message(&mut r.rng, n);
                let p = gen::partition(&mut r.rng, n, b);
                r.case("c02 chunks kind,len,nchunks", [k.id(), n as u64, p.len() as u64, 0, 0, 0]);
                let mut v: Vec<&[u8]> = Vec::new();
                let mut at = 0;
                for c in &p { v.push(&m[at..at + c]); at += c }
                let want = solo(k, &keys, &m);
                r.eqb(&trait_chunks(k, &v), &want, "chunks", || format!("{} hash_byte_chunks {:?} of {}", k.name(), p, hexs(&m)));
                let how = r.rng.usize(6);
                r.eqb(&trait_chunks_odd(k, &v, how), &want, "chunks", || format!("{} hash_byte_chunks (list kind {}) {:?} of {}", k.name(), how, p, hexs(&m)));
                r.eqb(&trait_hash(k, &m), &want, "oneshot", || format!("{} HashEngine::hash of {}", k.name(), hexs(&m)));
                r.nontrivial(fp(&[4, k.id(), fp_bytes(&m), p.len() as u64]));
                r.count("slices hashed as a list", p.len() as u64);
            }
            let none: [&[u8]; 0] = [];
            r.eqb(&trait_chunks(k, &none), &solo(k, &keys, &[]), "chunks", || format!("{} empty list", k.name()));
        } else if j == 2 * slices + 1 { // large pieces and very many pieces
            for t in 0..cfg.n(8, 40) {
                let n = if t == 7 { 66_000 + r.rng.usize(5000) } else { 70_000 + r.rng.usize(1 << (17 + t % 5)) };
                let m = gen::message(&mut r.rng, n);
                let mut p: Vec<usize> = match t % 8 {
                    0 => vec![0, n],
                    1 => { let a = 1 + r.rng.usize(b); vec![a, n - a] }
                    2 => { let a = r.rng.usize(n); vec![a, n - a] }
                    3 => { let a = 1 + r.rng.usize(b); let z = r.rng.usize(2 * b); vec![a, n - a - z, z] }
                    4 => { let a = n / 3 / b * b; vec![a, a, n - 2 * a] }
                    5 => vec![4096; n / 4096],
                    6 => vec![65536; n / 65536],
                    _ => vec![1; n], // more than 2^16 calls
                };
                p.push(n - p.iter().sum::<usize>());
                r.case("c02 large kind,len,nchunks", [k.id(), n as u64, p.len() as u64, t as u64, 0, 0]);
                let (mut e, mut model) = make(k, &keys);
                let mut at = 0;
                for c in &p { e.input(&m[at..at + c]); at += c }
                model.update(&m);
                let shape = if p.len() > 6 { format!("{} pieces of {}", p.len(), p[0]) } else { format!("{:?}", p) };
                r.eqb(&e.finish(), &model.finish(), "large", || format!("{} {} of fp {:016x}", k.name(), shape, fp_bytes(&m)));
                r.nontrivial(fp(&[5, k.id(), fp_bytes(&m), p.len() as u64]));
                r.count("large messages", 1);
                r.count("pieces of large messages", p.len() as u64);
            }
        } else { // histories with forks and queries
            for _ in 0..cfg.n(25, 50) { keys = crate::engines::keys(&mut r.rng, k); c02_history(r, k, &keys) }
        }
    })
}

fn c02_history(r: &mut Rec, k: Kind, keys: &Keys) {
    let b = k.block();
    let mut live: Vec<(Box<dyn Dyn>, Vec<u8>)> = vec![(make_engine(k, keys), Vec::new())];
    let nops = 3 + r.rng.usize(40);
    let mut trace: Vec<u64> = vec![k.id()];
    r.case("c02 history kind,nops", [k.id(), nops as u64, 0, 0, 0, 0]);
    for _ in 0..nops {
        let i = r.rng.usize(live.len());
        match r.rng.usize(12) {
            0..=6 => {
                let big = r.rng.one_in(20);
                let n = if big { r.rng.usize(70_000) } else { gen::length(&mut r.rng, b, 4 * b) };
                let d = gen::message(&mut r.rng, n);
                let (p, o) = gen::place(&d, n % 9);
                live[i].0.input(&p[o..]);
                live[i].1.extend_from_slice(&d);
                trace.push(n as u64);
                r.count("inputs", 1);
            }
            7 => { live[i].0.input(&[]); r.count("empty inputs", 1); trace.push(1 << 40) }
            8 | 9 => if live.len() < 6 {
                let c = if r.rng.one_in(3) {
                    let n = r.rng.usize(3 * b);
                    r.count("clones by assignment", 1);
                    live[i].0.dup_into(&vec![0x5a; n])
                } else { live[i].0.dup() };
                let m = live[i].1.clone();
                live.push((c, m));
                r.count("clones", 1);
                trace.push(1 << 41);
            },
            10 => { let _ = live[i].0.mid(); r.count("midstate queries", 1); trace.push(1 << 42) }
            _ => { let _ = live[i].0.count(); r.count("counter queries", 1) }
        }
        if r.rng.one_in(15) && live.len() > 1 { // finishing one must not disturb the others
            let (e, m) = live.swap_remove(i.min(live.len() - 1));
            let want = solo(k, keys, &m);
            r.eqb(&e.finish(), &want, "history", || format!("{} after {:?}: message {}", k.name(), trace, hexs(&m)));
        }
    }
    for (e, m) in live {
        let want = solo(k, keys, &m);
        r.eqb(&e.finish(), &want, "history", || format!("{} after {:?}: message {}", k.name(), trace, hexs(&m)));
        r.count("histories judged", 1);
    }
    r.nontrivial(fp(&trace));
    r.sample(|| format!("{} history {:?}", k.name(), trace));
}

// ---- C03 --------------------------------------------------------------------------------------

/// Every way to compute the tag of `chunks` under `key`.
fn hmac_tags(u: Under, key: Option<&[u8]>, chunks: &[&[u8]]) -> Vec<(&'static str, Vec<u8>)> {
    fn go<E: HashEngine, const N: usize>(key: Option<&[u8]>, chunks: &[&[u8]]) -> Vec<(&'static str, Vec<u8>)>
    where E: HashEngine<Digest = [u8; N]> {
        let feed = |mut e: hmac::Engine<E>| { for c in chunks { e.input(c) } e };
        match key {
            Some(k) => vec![
                ("finalize", feed(hmac::Engine::<E>::new(k)).finalize().to_vec()),
                ("hmac::Hash::from_engine", hmac::Hash::<N>::from_engine(feed(hmac::Engine::<E>::new(k))).to_byte_array().to_vec()),
            ],
            None => vec![
                ("default", feed(Default::default()).finalize().to_vec()),
                ("HashEngine::new", feed(<hmac::Engine<E> as HashEngine>::new()).finalize().to_vec()),
                ("Hash::engine", feed(hmac::Hash::<N>::engine::<hmac::Engine<E>>()).finalize().to_vec()),
                ("hash_byte_chunks", <hmac::Engine<E> as HashEngine>::hash_byte_chunks(chunks.iter()).to_vec()),
                ("empty key", feed(hmac::Engine::<E>::new(&[])).finalize().to_vec()),
            ],
        }
    }
    match u {
        Under::Plain(Alg::Sha1) => go::<sha1::Engine, 20>(key, chunks), Under::Plain(Alg::Sha256) => go::<sha256::Engine, 32>(key, chunks),
        Under::Plain(Alg::Sha384) => go::<sha384::Engine, 48>(key, chunks), Under::Plain(Alg::Sha512) => go::<sha512::Engine, 64>(key, chunks),
        Under::Plain(Alg::Sha512_256) => go::<sha512_256::Engine, 32>(key, chunks), Under::Plain(Alg::Ripemd160) => go::<ripemd160::Engine, 20>(key, chunks),
        Under::Sip => go::<siphash24::Engine, 8>(key, chunks), Under::TagA => go::<sha256t::Engine<TagA>, 32>(key, chunks),
        Under::Nested => go::<hmac::Engine<sha256::Engine>, 32>(key, chunks),
    }
}

fn c03_one(r: &mut Rec, u: Under, key: Option<&[u8]>, m: &[u8], parts: &[usize]) {
    let mut v: Vec<&[u8]> = Vec::new();
    let mut at = 0;
    for c in parts { v.push(&m[at..at + c]); at += c }
    let klen = key.map(|k| k.len() as u64).unwrap_or(u64::MAX);
    r.case("c03 under,keylen,msglen,chunks", [UNDERS.iter().position(|x| *x == u).unwrap() as u64, klen, m.len() as u64, parts.len() as u64, 0, 0]);
    let mut model = Model::hmac(&u.model(), u.block(), key.unwrap_or(&[]));
    model.update(m);
    let want = model.finish();
    let tags = hmac_tags(u, key, &v);
    for (how, got) in &tags {
        r.eqb(got, &want, "tag", || format!("hmac-{} via {} key {} msg {} parts {:?}", u.name(), how, key.map(hexs).unwrap_or("default".into()), hexs(m), parts));
        r.count("tags compared", 1);
    }
    r.nontrivial(fp(&[klen, fp_bytes(key.unwrap_or(&[])), fp_bytes(m), u.block() as u64, u.outlen() as u64, parts.len() as u64]));
    if let (Under::Plain(a), true) = (u, m.len() < 600 && klen != u64::MAX && klen < 600) {
        r.event(|| format!("{{\"op\":\"hmac\",\"alg\":\"{}\",\"key\":\"{}\",\"msg\":\"{}\",\"out\":\"{}\"}}", a.name(), hex(key.unwrap()), hex(m), hex(&tags[0].1)));
    }
    r.sample(|| format!("hmac-{} keylen {} msglen {} parts {:?} -> {}", u.name(), klen, m.len(), parts, hex(&want)));
}

pub fn c03(cfg: &Cfg, out: Option<&str>) -> Total {
    let nu = UNDERS.len();
    let sl = 8;
    let per = sl + cfg.n(16, 200);
    pool(cfg, nu * per, out, |i, r| {
        let u = UNDERS[i % nu];
        let j = i / nu;
        let b = u.block();
        if j == 0 {
            r.eq(block_const(Kind::Hmac(u)), b, "block size", || format!("hmac-{} BLOCK_SIZE", u.name()));
            for n in 0..3 * b {
                let m = gen::message(&mut r.rng, n);
                let p = gen::partition(&mut r.rng, n, b);
                c03_one(r, u, None, &m, &p);
            }
        }
        if j < sl { // every key length
            for kl in (0..cfg.n(3 * b + 3, 8 * b)).filter(|x| x % sl == j) {
                for _ in 0..cfg.n(4, 8) {
                    let kind = r.rng.usize(gen::KINDS);
                    let key = gen::content(&mut r.rng, kind, kl);
                    let n = gen::length(&mut r.rng, b, 3 * b);
                    let m = gen::message(&mut r.rng, n);
                    let p = gen::partition(&mut r.rng, n, b);
                    c03_one(r, u, Some(&key), &m, &p);
                }
                r.count("key lengths visited exhaustively", 1);
            }
        } else {
            for _ in 0..cfg.n(60, 100) {
                let kl = if r.rng.one_in(40) { r.rng.usize(200_000) } else { gen::length(&mut r.rng, b, 4096) };
                let key = gen::message(&mut r.rng, kl);
                let n = if r.rng.one_in(40) { r.rng.usize(200_000) } else { gen::length(&mut r.rng, b, 4096) };
                let m = gen::message(&mut r.rng, n);
                let p = gen::partition(&mut r.rng, n, b);
                c03_one(r, u, Some(&key), &m, &p);
            }
        }
    })
}

// ---- C04 --------------------------------------------------------------------------------------

fn c04_one(r: &mut Rec, k0: u64, k1: u64, m: &[u8], parts: &[usize]) {
    r.case("c04 k0,k1,len,chunks", [k0, k1, m.len() as u64, parts.len() as u64, 0, 0]);
    let mut s = Model::sip(k0, k1);
    s.update(m);
    let want = s.finish();
    let wu = u64::from_le_bytes(want[..8].try_into().unwrap());
    let mut outs: Vec<(&str, Vec<u8>)> = vec![
        ("hash_with_keys", siphash24::Hash::hash_with_keys(k0, k1, m).to_byte_array().to_vec()),
        ("hash_to_u64_with_keys", siphash24::Hash::hash_to_u64_with_keys(k0, k1, m).to_le_bytes().to_vec()),
        ("as_u64", siphash24::Hash::hash_with_keys(k0, k1, m).as_u64().to_le_bytes().to_vec()),
    ];
    let mut e = siphash24::Engine::with_keys(k0, k1);
    r.eq(e.keys(), (k0, k1), "keys", || "fresh engine".into());
    let mut at = 0;
    for c in parts {
        e.input(&m[at..at + c]);
        at += c;
        r.eq(e.keys(), (k0, k1), "keys", || format!("after {} bytes", at));
    }
    let c = e.clone();
    r.eq(c.keys(), (k0, k1), "keys", || "clone".into());
    outs.push(("from_engine_to_u64 streamed", siphash24::Hash::from_engine_to_u64(c).to_le_bytes().to_vec()));
    outs.push(("from_engine streamed", siphash24::Hash::from_engine(e.clone()).to_byte_array().to_vec()));
    outs.push(("finalize streamed", e.finalize().to_vec()));
    if k0 == 0 && k1 == 0 {
        outs.push(("Hash::hash", siphash24::Hash::hash(m).to_byte_array().to_vec()));
        outs.push(("HashEngine::hash", <siphash24::Engine as HashEngine>::hash(m).to_vec()));
        let mut e = siphash24::Engine::default();
        r.eq(e.keys(), (0, 0), "keys", || "default".into());
        e.input(m);
        outs.push(("default", e.finalize().to_vec()));
        let mut e = siphash24::Engine::new();
        e.input(m);
        outs.push(("new", e.finalize().to_vec()));
        let mut e = siphash24::Hash::engine();
        e.input(m);
        outs.push(("Hash::engine", e.finalize().to_vec()));
        outs.push(("hash_byte_chunks", <siphash24::Engine as HashEngine>::hash_byte_chunks([m]).to_vec()));
    }
    for (how, got) in outs {
        r.eqb(&got, &want, "siphash", || format!("{} k0 {:016x} k1 {:016x} msg {} parts {:?}", how, k0, k1, hexs(m), parts));
        r.count("outputs compared", 1);
    }
    let h = siphash24::Hash::from_u64(wu);
    r.eqb(h.as_bytes(), &want, "u64", || format!("from_u64({:016x})", wu));
    r.nontrivial(fp(&[k0, k1, fp_bytes(m), parts.len() as u64]));
    r.sample(|| format!("siphash k0={:016x} k1={:016x} len {} parts {:?} -> {}", k0, k1, m.len(), parts, hex(&want)));
}

pub fn c04(cfg: &Cfg, out: Option<&str>) -> Total {
    let sl = 16;
    pool(cfg, sl + 16 + cfg.n(64, 800), out, |i, r| {
        if i < sl {
            for n in (0..cfg.n(1400, 4000)).filter(|x| x % sl == i) {
                for t in 0..3 {
                    let m = gen::message(&mut r.rng, n);
                    let p = gen::partition(&mut r.rng, n, 8);
                    let (a, b) = if t == 0 { (0, 0) } else { (r.rng.u64(), r.rng.u64()) };
                    c04_one(r, a, b, &m, &p);
                }
                r.count("lengths visited exhaustively", 1);
            }
        } else if i < sl + 16 { // structured keys and integer values
            let j = i - sl;
            for bit in 0..64 {
                let x = 1u64 << bit;
                let n = r.rng.usize(70);
                let m = gen::message(&mut r.rng, n);
                match j {
                    0 => c04_one(r, x, 0, &m, &[n]), 1 => c04_one(r, 0, x, &m, &[n]), 2 => c04_one(r, !x, u64::MAX, &m, &[n]),
                    3 => c04_one(r, u64::MAX, !x, &m, &[n]), 4 => c04_one(r, x, x, &m, &[n]), 5 => c04_one(r, x, !x, &m, &[n]),
                    _ => {
                        for v in [x, !x, x - 1, x.wrapping_mul(0x9e3779b97f4a7c15), r.rng.u64()] {
                            r.case("c04 u64 conversion", [v, j as u64, 0, 0, 0, 0]);
                            let h = siphash24::Hash::from_u64(v);
                            r.eq(h.as_u64(), v, "u64", || "from_u64 then as_u64".into());
                            r.eqb(&h.to_byte_array(), &v.to_le_bytes(), "u64", || format!("bytes of {:016x}", v));
                            let h = siphash24::Hash::from_byte_array(v.to_be_bytes());
                            r.eq(h.as_u64(), v.swap_bytes(), "u64", || "as_u64 of bytes".into());
                            r.count("integer conversions", 1);
                            r.nontrivial(fp(&[9, v]));
                        }
                    }
                }
            }
        } else {
            for _ in 0..cfg.n(250, 600) {
                let n = if r.rng.one_in(60) { r.rng.usize(300_000) } else { gen::length(&mut r.rng, 8, 3000) };
                let m = gen::message(&mut r.rng, n);
                let p = gen::partition(&mut r.rng, n, 8);
                let (a, b) = (r.rng.u64(), r.rng.u64());
                let (pl, o) = gen::place(&m, n % 9);
                c04_one(r, a, b, &pl[o..], &p);
            }
        }
    })
}

// ---- C05 --------------------------------------------------------------------------------------

fn tagged_outs<T: sha256t::Tag>(m: &[u8], parts: &[usize]) -> Vec<(&'static str, Vec<u8>)> {
    type E<T> = sha256t::Engine<T>;
    let feed = |mut e: E<T>| { let mut at = 0; for c in parts { e.input(&m[at..at + c]); at += c } e };
    let mut v: Vec<&[u8]> = Vec::new();
    let mut at = 0;
    for c in parts { v.push(&m[at..at + c]); at += c }
    vec![
        ("Hash::hash", sha256t::Hash::<T>::hash(m).to_byte_array().to_vec()),
        ("Hash::engine", feed(sha256t::Hash::<T>::engine()).finalize().to_vec()),
        ("Hash::from_engine", sha256t::Hash::<T>::from_engine(feed(E::<T>::default())).to_byte_array().to_vec()),
        ("HashEngine::new", feed(<E<T> as HashEngine>::new()).finalize().to_vec()),
        ("HashEngine::hash", <E<T> as HashEngine>::hash(m).to_vec()),
        ("hash_byte_chunks", <E<T> as HashEngine>::hash_byte_chunks(v.iter()).to_vec()),
        ("Tag::engine", feed(T::engine()).finalize().to_vec()),
    ]
}

fn c05_tag(r: &mut Rec, tag: &[u8]) {
    r.case("c05 tag midstate", [tag.len() as u64, fp_bytes(tag), 0, 0, 0, 0]);
    let t = digest(Alg::Sha256, tag);
    let mut md = crate::refimpl::Md::new(Alg::Sha256);
    md.update(&t);
    md.update(&t);
    let mid = sha256::Midstate::hash_tag(tag);
    r.eqb(&mid.to_byte_array(), &md.chain(), "tag midstate", || format!("tag {}", hexs(tag)));
    r.nontrivial(fp(&[5, fp_bytes(tag)]));
    if tag.len() < 600 { r.event(|| format!("{{\"op\":\"tagged\",\"alg\":\"sha256\",\"tag\":\"{}\",\"msg\":\"00\",\"out\":\"{}\"}}", hex(tag), { set_tag(tag); hex(&sha256t::Hash::<TagDyn>::hash(&[0]).to_byte_array()) })) }
}

fn c05_msg(r: &mut Rec, tag: &[u8], m: &[u8], parts: &[usize]) {
    r.case("c05 tagged message", [tag.len() as u64, fp_bytes(tag), m.len() as u64, fp_bytes(m), parts.len() as u64, 0]);
    let mut model = Model::tagged(tag);
    model.update(m);
    let want = model.finish();
    set_tag(tag);
    for (how, got) in tagged_outs::<TagDyn>(m, parts) {
        r.eqb(&got, &want, "tagged hash", || format!("{} tag {} msg {} parts {:?}", how, hexs(tag), hexs(m), parts));
        r.count("tagged digests compared", 1);
    }
    let mut fixed: Vec<(&str, Vec<(&'static str, Vec<u8>)>, Model)> = vec![
        ("A", tagged_outs::<TagA>(m, parts), Model::tagged(TAG_A)),
        ("B", tagged_outs::<TagB>(m, parts), Model::tagged(TAG_B)),
    ];
    let mut ml = Model::plain(Alg::Sha256);
    ml.update(&tag_long_prefix());
    fixed.push(("long", tagged_outs::<TagLong>(m, parts), ml));
    for (name, outs, mut model) in fixed {
        model.update(m);
        let want = model.finish();
        for (how, got) in outs {
            r.eqb(&got, &want, "tagged hash", || format!("{} fixed tag type {} msg {} parts {:?}", how, name, hexs(m), parts));
            r.count("tagged digests compared", 1);
        }
    }
    // The plain engine resumed from the tag midstate at 64 is the same hash.
    let mut e = sha256::Engine::from_midstate(sha256::Midstate::hash_tag(tag), 64);
    e.input(m);
    r.eqb(&e.finalize(), &want, "tagged hash", || format!("sha256 engine from tag midstate, tag {} msg {}", hexs(tag), hexs(m)));
    r.nontrivial(fp(&[6, fp_bytes(tag), fp_bytes(m), parts.len() as u64]));
    r.sample(|| format!("tag {} msg {} bytes parts {:?} -> {}", hexs(tag), m.len(), parts, hex(&want)));
}

pub fn c05(cfg: &Cfg, out: Option<&str>) -> Total {
    let sl = 16;
    pool(cfg, sl + cfg.n(64, 600), out, |i, r| {
        if i < sl {
            for n in (0..cfg.n(1100, 4200)).filter(|x| x % sl == i) {
                for kind in [0, 5, 1, 2] { let t = gen::content(&mut r.rng, kind, n); c05_tag(r, &t) }
                let t = gen::message(&mut r.rng, n);
                let m = gen::message(&mut r.rng, n % 200);
                let p = gen::partition(&mut r.rng, m.len(), 64);
                c05_msg(r, &t, &m, &p);
                r.count("tag lengths visited exhaustively", 1);
            }
        } else {
            for _ in 0..cfg.n(40, 80) {
                let tl = if r.rng.one_in(40) { r.rng.usize(100_000) } else { gen::length(&mut r.rng, 64, 600) };
                let t = gen::message(&mut r.rng, tl);
                c05_tag(r, &t);
                let n = if r.rng.one_in(40) { r.rng.usize(100_000) } else { gen::length(&mut r.rng, 64, 1000) };
                let m = gen::message(&mut r.rng, n);
                let p = gen::partition(&mut r.rng, n, 64);
                c05_msg(r, &t, &m, &p);
            }
            // Interleaved engines of several tag types.
            for _ in 0..cfg.n(20, 40) {
                let m1 = r.rng.bytes(150);
                r.case("c05 interleaved tags", [fp_bytes(&m1), 0, 0, 0, 0, 0]);
                let t = { let n = r.rng.usize(40); r.rng.bytes(n) };
                set_tag(&t);
                let mut a = <sha256t::Engine<TagA>>::default();
                let mut b = <sha256t::Engine<TagB>>::default();
                let mut d = <sha256t::Engine<TagDyn>>::default();
                let mut p = sha256::Engine::default();
                for c in m1.chunks(1 + r.rng.usize(40)) { a.input(c); b.input(c); p.input(c); d.input(c) }
                let mk = |mut m: Model| { m.update(&m1); m.finish() };
                for (n, got, want) in [
                    ("A", a.finalize(), mk(Model::tagged(TAG_A))), ("B", b.finalize(), mk(Model::tagged(TAG_B))),
                    ("dyn", d.finalize(), mk(Model::tagged(&t))), ("plain", p.finalize(), mk(Model::plain(Alg::Sha256))),
                ] { r.eqb(&got, &want, "tag isolation", || format!("interleaved {} dyn tag {} msg {}", n, hexs(&t), hexs(&m1))) }
                r.count("interleaved tag sets", 1);
                r.nontrivial(fp(&[7, fp_bytes(&m1)]));
            }
        }
    })
}

// ---- C06 --------------------------------------------------------------------------------------

fn c06_history(r: &mut Rec, k: Kind, keys: &Keys) {
    let unit = k.resume_unit();
    let (mut e, mut model) = make(k, keys);
    let mut twin = make_engine(k, keys);
    let steps = 1 + r.rng.usize(5);
    let mut trace: Vec<u64> = vec![k.id()];
    r.case("c06 history kind,steps", [k.id(), steps as u64, 0, 0, 0, 0]);
    let far = r.rng.one_in(3);
    if far { // start far into a long message: both continue from a state at a large count
        let top = if usize::BITS == 64 { 58 } else { 28 };
        let bit = 16 + r.rng.usize(top - 16);
        let base = ((1usize << bit) + r.rng.usize(1 << 16)) / unit * unit;
        let m = r.rng.bytes(unit);
        twin.input(&m);
        twin = twin.resume(base);
        e = twin.dup();
        trace.push(base as u64 | 1 << 63);
        r.eq(e.count(), base, "count", || format!("{} {:?} at the start", k.name(), trace));
        r.count("histories at large counts", 1);
    }
    for _ in 0..steps {
        // Absorb a whole number of units, split arbitrarily.
        let nu = match r.rng.usize(6) { 0 => 0, 1 => 1, 2 => 2, 3 => r.rng.usize(9), 4 if r.rng.one_in(8) => (1 << 16) / unit + r.rng.usize(2000), _ => r.rng.usize(40) };
        let n = nu * unit;
        let m = gen::message(&mut r.rng, n);
        let mut at = 0;
        for c in gen::partition(&mut r.rng, n, k.block()) { e.input(&m[at..at + c]); at += c }
        twin.input(&m);
        model.update(&m);
        trace.push(n as u64);
        let cnt = e.count();
        r.eq(cnt, twin.count(), "count", || format!("{} {:?} before resuming", k.name(), trace));
        if let (Some(mid), Some(ch), false) = (e.mid(), model.chain(), far) {
            r.eqb(&mid, &ch, "midstate", || format!("{} {:?}: midstate is not the chaining value", k.name(), trace));
            r.count("midstates compared with the standard's chaining value", 1);
        }
        let old = e.dup();
        e = e.resume(cnt);
        r.count("resumes", 1);
        r.eq(e.count(), cnt, "count", || format!("{} {:?} after resuming", k.name(), trace));
        r.eq(e.mid(), twin.mid(), "midstate", || format!("{} {:?} after resuming", k.name(), trace));
        let want = twin.dup().finish();
        r.eqb(&e.dup().finish(), &want, "digest", || format!("{} {:?} digest right after resuming", k.name(), trace));
        if k == Kind::Plain(Alg::Sha256) {
            let mut a = [0u8; 32];
            a.copy_from_slice(&old.mid().unwrap());
            let mut x = sha256_inherent_resume(a, cnt);
            let mut y = twin.dup();
            let tail = r.rng.bytes(37);
            x.input(&tail);
            y.input(&tail);
            r.eqb(&x.finish(), &y.finish(), "digest", || format!("sha256 inherent from_midstate {:?}", trace));
        }
        // A continuation of any length, on clones.
        let n = gen::length(&mut r.rng, k.block(), 6 * k.block());
        let m = gen::message(&mut r.rng, n);
        let (mut x, mut y) = (e.dup(), twin.dup());
        let mut at = 0;
        for c in gen::partition(&mut r.rng, n, k.block()) {
            x.input(&m[at..at + c]);
            at += c;
        }
        y.input(&m);
        r.eq(x.count(), y.count(), "count", || format!("{} {:?} + {} bytes", k.name(), trace, n));
        r.eq(x.mid(), y.mid(), "midstate", || format!("{} {:?} + {} bytes", k.name(), trace, n));
        r.eqb(&x.finish(), &y.finish(), "digest", || format!("{} {:?} + {} bytes {}", k.name(), trace, n, hexs(&m)));
        r.count("continuations judged", 1);
    }
    r.eqb(&e.finish(), &twin.finish(), "digest", || format!("{} {:?} at the end", k.name(), trace));
    r.nontrivial(fp(&trace));
    r.sample(|| format!("{} saves/resumes at {:?}", k.name(), trace));
}

pub fn c06(cfg: &Cfg, out: Option<&str>) -> Total {
    let ks = kinds();
    let nk = ks.len();
    pool(cfg, nk * (2 + cfg.n(16, 200)), out, |i, r| {
        let k = ks[i % nk];
        let j = i / nk;
        let unit = k.resume_unit();
        if j == 0 { // every number of whole units, every short continuation
            for nu in 0..cfg.n(12, 40) {
                let keys = keys(&mut r.rng, k);
                let m = r.rng.bytes(nu * unit);
                let tail = r.rng.bytes(2 * k.block() + 3);
                let mut e = make_engine(k, &keys);
                e.input(&m);
                let base = e.count();
                for t in 0..tail.len() {
                    r.case("c06 prefix units, tail", [k.id(), nu as u64, t as u64, 0, 0, 0]);
                    let mut x = e.resume(base);
                    x.input(&tail[..t]);
                    let mut y = e.dup();
                    y.input(&tail[..t]);
                    r.eq(x.count(), y.count(), "count", || format!("{} {} units + {}", k.name(), nu, t));
                    r.eqb(&x.finish(), &y.finish(), "digest", || format!("{} {} units + {} bytes", k.name(), nu, t));
                    r.nontrivial(fp(&[61, k.id(), nu as u64, t as u64]));
                    r.count("continuations judged", 1);
                }
            }
        } else if j == 1 {
            if let Kind::Plain(a) = k { // refusal of impossible lengths, on both constructors
                let b = a.block();
                let mid = make_engine(k, &Keys::default()).mid().unwrap();
                let mut lens: Vec<usize> = (0..6 * b + 2).collect();
                for e in [16u32, 31, 32, 40, 48] { if let Some(x) = 1usize.checked_shl(e).filter(|x| *x > 0) { for d in [0, 1, b / 2, b - 1, b] { lens.push(x + d); lens.push(x - d) } } }
                for l in lens {
                    r.case("c06 refusal kind,len", [k.id(), l as u64, 0, 0, 0, 0]);
                    let ok = quiet(|| resume_bytes(a, &mid, l).count());
                    r.check(ok.is_ok() == (l % b == 0), "refusal", || format!("{} from_midstate(_, {}) {}", a.name(), l, if ok.is_ok() { "accepted" } else { "refused" }));
                    if let Ok(c) = ok { r.eq(c, l, "count", || format!("{} resumed at {}", a.name(), l)) }
                    if a == Alg::Sha256 {
                        let mut m32 = [0u8; 32];
                        m32.copy_from_slice(&mid);
                        let ok = quiet(|| sha256_inherent_resume(m32, l).count());
                        r.check(ok.is_ok() == (l % b == 0), "refusal", || format!("sha256 inherent from_midstate(_, {})", l));
                    }
                    r.count("resume lengths tried", 1);
                    r.nontrivial(fp(&[62, k.id(), l as u64]));
                }
            }
        } else {
            for _ in 0..cfg.n(30, 60) { let keys = keys(&mut r.rng, k); c06_history(r, k, &keys) }
        }
    })
}

// ---- C08 --------------------------------------------------------------------------------------

const fn parse(s: Option<&str>) -> u64 {
    match s { None => 1, Some(s) => { let b = s.as_bytes(); let mut i = 0; let mut n = 0u64; while i < b.len() { n = n.wrapping_mul(31).wrapping_add(b[i] as u64); i += 1 } n } }
}
const CT_SEED: u64 = parse(option_env!("VERIF_SEED"));
const CT_MAX: usize = 400;
const fn ct_bytes(n: u64, mode: u64) -> [u8; CT_MAX] {
    let mut a = [0u8; CT_MAX];
    let mut x = CT_SEED.wrapping_mul(0x9e3779b97f4a7c15) ^ n.wrapping_mul(0xd1342543de82ef95) | 1;
    let mut i = 0;
    while i < CT_MAX {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        a[i] = if mode == 0 { (x >> 24) as u8 } else if mode == 1 { 0xff } else { 0 };
        i += 1;
    }
    a
}
static CT_MSG: [[u8; CT_MAX]; 3] = [ct_bytes(1, 0), ct_bytes(2, 1), ct_bytes(3, 2)];
const fn ct_table(which: u64, mode: u64) -> [sha256::Hash; CT_MAX] {
    let m = ct_bytes(which, mode);
    let mut t = [sha256::Hash::const_hash(&[]); CT_MAX];
    let mut i = 0;
    while i < CT_MAX { let (p, _) = m.split_at(i); t[i] = sha256::Hash::const_hash(p); i += 1 }
    t
}
const fn ct_tags(which: u64, mode: u64) -> [sha256::Midstate; 200] {
    let m = ct_bytes(which, mode);
    let mut t = [sha256::Midstate::hash_tag(&[]); 200];
    let mut i = 0;
    while i < 200 { let (p, _) = m.split_at(i); t[i] = sha256::Midstate::hash_tag(p); i += 1 }
    t
}
/// Evaluated by the compiler.
#[cfg(feature = "const-tables")]
static CT_HASH: [[sha256::Hash; CT_MAX]; 3] = [ct_table(1, 0), ct_table(2, 1), ct_table(3, 2)];
#[cfg(feature = "const-tables")]
static CT_TAGS: [[sha256::Midstate; 200]; 2] = [ct_tags(1, 0), ct_tags(2, 1)];
#[cfg(not(feature = "const-tables"))]
#[allow(dead_code)]
fn unused_tables() { let _ = (ct_table as fn(u64, u64) -> _, ct_tags as fn(u64, u64) -> _, &CT_MSG); }

fn c08_one(r: &mut Rec, m: &[u8]) {
    r.case("c08 len", [m.len() as u64, fp_bytes(m), 0, 0, 0, 0]);
    let want = digest(Alg::Sha256, m);
    let c = sha256::Hash::const_hash(m).to_byte_array();
    let e = sha256::Hash::hash(m).to_byte_array();
    r.eqb(&c, &e, "const differs from engine", || format!("message {}", hexs(m)));
    r.eqb(&c, &want, "const differs from standard", || format!("message {}", hexs(m)));
    r.nontrivial(fp(&[8, fp_bytes(m)]));
    r.count("run-time const_hash calls compared", 1);
    if m.len() < 600 { r.event(|| format!("{{\"op\":\"hash\",\"alg\":\"sha256\",\"msg\":\"{}\",\"out\":\"{}\"}}", hex(m), hex(&c))) }
    r.sample(|| format!("const_hash({}) = {}", hexs(m), hex(&c)));
}

/// A long run-time message against the engine (whose own long messages are judged in C07).
fn c08_big(r: &mut Rec, n: usize) {
    let m = vec![r.rng.u64() as u8; n];
    r.case("c08 long", [n as u64, m[0] as u64, 0, 0, 0, 0]);
    let (c, e) = (sha256::Hash::const_hash(&m).to_byte_array(), sha256::Hash::hash(&m).to_byte_array());
    r.eqb(&c, &e, "const differs from engine", || format!("{} bytes {:#x}", n, m[0]));
    r.nontrivial(fp(&[83, n as u64, m[0] as u64]));
    r.count("run-time const_hash of long messages compared", 1);
}

fn c08_tag(r: &mut Rec, t: &[u8]) {
    r.case("c08 tag", [t.len() as u64, fp_bytes(t), 0, 0, 0, 0]);
    let d = sha256::Hash::hash(t).to_byte_array();
    let mut e = sha256::Engine::default();
    e.input(&d);
    e.input(&d);
    r.eqb(&sha256::Midstate::hash_tag(t).to_byte_array(), &e.midstate().to_byte_array(), "const tag differs from engine", || format!("tag {}", hexs(t)));
    r.nontrivial(fp(&[81, fp_bytes(t)]));
    r.count("run-time hash_tag calls compared", 1);
}

pub fn c08(cfg: &Cfg, out: Option<&str>) -> Total {
    let sl = 16;
    pool(cfg, 4 + sl + cfg.n(32, 400), out, |i, r| {
        if i < 3 {
            #[cfg(feature = "const-tables")]
            for n in 0..CT_MAX {
                r.case("c08 compile time", [i as u64, n as u64, 0, 0, 0, 0]);
                let m = &CT_MSG[i][..n];
                let got = CT_HASH[i][n].to_byte_array();
                r.eqb(&got, &digest(Alg::Sha256, m), "compile-time digest", || format!("message {}", hexs(m)));
                r.eqb(&got, &sha256::Hash::hash(m).to_byte_array(), "compile-time digest differs from engine", || format!("message {}", hexs(m)));
                r.nontrivial(fp(&[80, fp_bytes(m)]));
                r.count("digests evaluated by the compiler", 1);
                if i < 2 && n < 200 {
                    let mut e = sha256::Engine::default();
                    let d = sha256::Hash::hash(m).to_byte_array();
                    e.input(&d);
                    e.input(&d);
                    r.eqb(&CT_TAGS[i][n].to_byte_array(), &e.midstate().to_byte_array(), "compile-time tag", || format!("tag {}", hexs(m)));
                    r.count("tag midstates evaluated by the compiler", 1);
                }
            }
        } else if i == 3 { // lengths whose bit count spills into each byte of the length field
            for k in 0..cfg.n(3, 5) {
                for (base, d) in [(1usize << 13, 5usize), (1 << 16, 0), (1 << 21, 1), (1 << 24, 63), ((1 << 21) - 9, 0)] {
                    let m = gen::message(&mut r.rng, base + d + k);
                    c08_one(r, &m);
                }
            }
            // Lengths that set every bit of the length field that a message of this size can.
            for k in 13..=if cfg.thorough { 28 } else { 25 } {
                let n = (1usize << k) - 1 - r.rng.usize(64);
                c08_big(r, n);
                if k > 20 { let n = (1 << k) + r.rng.usize(4096); c08_big(r, n) }
            }
            // One run-time evaluation whose bit count needs more than 32 bits (zero pages, not resident).
            if cfg!(not(debug_assertions)) || cfg.thorough {
                let n = (1usize << 29) + 9;
                let m = vec![0u8; n];
                r.case("c08 2^29 bytes", [n as u64, 0, 0, 0, 0, 0]);
                let c = sha256::Hash::const_hash(&m).to_byte_array();
                r.case("c08 2^29 bytes engine", [n as u64, 0, 0, 0, 0, 0]);
                let e = sha256::Hash::hash(&m).to_byte_array();
                r.eqb(&c, &e, "const differs from engine", || format!("{} zero bytes", n));
                r.eqb(&c, &crate::kat::ZERO_2_29_9_SHA256, "const differs from standard", || format!("{} zero bytes", n));
                r.nontrivial(fp(&[82, n as u64]));
                r.count("run-time const_hash over 2^32 bits", 1);
            }
        } else if i < 4 + sl {
            for n in (0..cfg.n(3000, 10000)).filter(|x| x % sl == i - 4) {
                let m = gen::content(&mut r.rng, 0, n);
                c08_one(r, &m);
                let m = gen::message(&mut r.rng, n);
                c08_one(r, &m);
                if n < 1500 { c08_tag(r, &m) }
                r.count("lengths visited exhaustively", 1);
            }
        } else {
            for _ in 0..cfg.n(200, 500) {
                let n = gen::length(&mut r.rng, 64, 20_000);
                let m = gen::message(&mut r.rng, n);
                c08_one(r, &m);
                if n < 600 { c08_tag(r, &m) }
            }
        }
    })
}

// ---- C18 --------------------------------------------------------------------------------------

fn c18_history(r: &mut Rec, k: Kind, keys: &Keys, init: usize) {
    r.case("c18 history kind", [k.id(), 0, 0, 0, 0, 0]);
    let mut trace = vec![k.id()];
    let e = make_engine(k, keys);
    r.eq(e.count(), init, "initial count", || format!("{} fresh", k.name()));
    let mut live: Vec<(Box<dyn Dyn>, usize)> = vec![(e, init)];
    for _ in 0..2 + r.rng.usize(25) {
        let i = r.rng.usize(live.len());
        match r.rng.usize(10) {
            0..=5 => {
                let n = if r.rng.one_in(25) { r.rng.usize(150_000) } else { gen::length(&mut r.rng, k.block(), 5 * k.block()) };
                let m = vec![r.rng.u64() as u8; n];
                live[i].0.input(&m);
                live[i].1 += n;
                trace.push(n as u64);
            }
            6 => { live[i].0.input(&[]); trace.push(1 << 40) }
            7 => { let _ = live[i].0.mid(); trace.push(1 << 41) }
            8 => if live.len() < 5 { let c = live[i].0.dup(); let n = live[i].1; live.push((c, n)); trace.push(1 << 42) },
            _ => if live[i].1 % k.resume_unit() == 0 {
                let n = live[i].1;
                live[i].0 = live[i].0.resume(n);
                trace.push(1 << 43);
                r.count("resumes", 1);
            } else {
                let u = k.resume_unit();
                let n = r.rng.usize(1 << 20) / u * u;
                // A resumed engine reports the length it was given, whatever it is.
                let x = live[i].0.resume(n);
                r.eq(x.count(), n, "resumed count", || format!("{} resumed at {}", k.name(), n));
            },
        }
        for (j, (e, n)) in live.iter().enumerate() {
            r.eq(e.count(), *n, "count", || format!("{} engine {} after {:?}", k.name(), j, trace));
            r.count("counter readings judged", 1);
        }
    }
    r.nontrivial(fp(&trace));
    r.sample(|| format!("{} ops {:?}", k.name(), trace));
}

pub fn c18(cfg: &Cfg, out: Option<&str>) -> Total {
    let ks = kinds();
    let nk = ks.len();
    pool(cfg, nk * (1 + cfg.n(20, 300)), out, |i, r| {
        let k = ks[i % nk];
        let j = i / nk;
        let init = match k {
            Kind::Plain(_) | Kind::Sip => 0,
            Kind::TagA | Kind::TagB => 64,
            Kind::TagLong => 192,
            Kind::Hmac(Under::TagA) => 64 + 64,
            Kind::Hmac(Under::Nested) => 64 + 64,
            Kind::Hmac(u) => u.block(),
        };
        if j == 0 {
            r.eq(block_const(k), k.block(), "block size", || k.name());
            // byte at a time and every single chunk size
            let keys = keys(&mut r.rng, k);
            let mut e = make_engine(k, &keys);
            let m = r.rng.bytes(4 * k.block());
            for (n, b) in m.iter().enumerate() {
                r.case("c18 bytewise kind,n", [k.id(), n as u64, 0, 0, 0, 0]);
                r.eq(e.count(), init + n, "count", || format!("{} after {} single bytes", k.name(), n));
                e.input(&[*b]);
                let mut f = make_engine(k, &keys);
                f.input(&m[..n]);
                r.eq(f.count(), init + n, "count", || format!("{} after one chunk of {}", k.name(), n));
                r.nontrivial(fp(&[180, k.id(), n as u64]));
                r.count("counter readings judged", 2);
            }
            // resumed engines report exactly the given length, including large ones
            if k != Kind::TagLong {
                let b = k.resume_unit().max(k.block());
                for e2 in [7u32, 10, 16, 24, 31, 32, 40, 48, 60] {
                    let base = match 1usize.checked_shl(e2) { Some(x) if x > 0 => x, _ => continue };
                    for l in [base, base + b, base - b.min(base), base + 7 * b] {
                        r.case("c18 resumed kind,len", [k.id(), l as u64, 0, 0, 0, 0]);
                        let mut x = make_engine(k, &keys).resume(l);
                        r.eq(x.count(), l, "resumed count", || format!("{} resumed at {}", k.name(), l));
                        for n in [1usize, b - 1, b, 3 * b + 5] { x.input(&vec![7u8; n]) }
                        r.eq(x.count(), l + 5 * b + 5, "resumed count", || format!("{} resumed at {} and fed", k.name(), l));
                        r.nontrivial(fp(&[181, k.id(), l as u64]));
                        r.count("counter readings judged", 2);
                    }
                }
            }
        } else {
            for _ in 0..cfg.n(60, 100) { let keys = keys(&mut r.rng, k); c18_history(r, k, &keys, init) }
        }
    })
}
