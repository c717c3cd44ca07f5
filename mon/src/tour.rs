//! A deterministic walk over the whole public API that prints what it saw, one `key=value` line per
//! observation. Run under Miri, AddressSanitizer, ThreadSanitizer and valgrind for C13, and in every
//! build configuration for C14, where lines with the same key must be equal.

use chf::{cmp, hmac, sha256, siphash24, HashEngine};

use crate::engines::*;
use crate::gen::{self, hex};
use crate::rec::quiet;
use crate::refimpl::{Alg, ALGS};
use crate::rng::Rng;
use crate::values::*;

pub struct Tour { pub out: Vec<String>, pub rng: Rng, pub big: bool, pub seed: u64, pub shard: (usize, usize) }

impl Tour {
    fn put(&mut self, k: String, v: impl std::fmt::Display) { self.out.push(format!("{}={}", k, v)) }
    /// Is item `i` of a section in this shard?
    fn mine(&self, i: usize) -> bool { i % self.shard.1 == self.shard.0 }
    fn reseed(&mut self, s: u64) { self.rng = Rng::new(self.seed, s) }
}

fn show<T: std::fmt::Debug>(r: Result<T, String>) -> String { match r { Ok(v) => format!("{:?}", v), Err(_) => "panic".into() } }

/// Lengths around every boundary of a block.
fn lengths(t: &mut Tour, b: usize) -> Vec<usize> {
    if t.big { return (0..3 * b + 2).chain([1000, 4096, 70_001]).collect() }
    let mut v = vec![0, 1 + t.rng.usize(7), 8, b - 17 + t.rng.usize(10), b - 8, b - 1, b, b + 1 + t.rng.usize(8), 2 * b + t.rng.usize(20)];
    v.push(t.rng.usize(4 * b));
    v
}

fn engines(t: &mut Tour) {
    for (ki, k) in kinds().into_iter().enumerate() {
        if !t.mine(ki) { continue }
        t.reseed(10 + k.id());
        let b = k.block();
        let ls = lengths(t, b);
        for (j, n) in ls.into_iter().enumerate() {
            let keys = keys(&mut t.rng, k);
            let m = gen::message(&mut t.rng, n);
            let (p, o) = gen::place(&m, (j + n) % 9);
            let d = &p[o..];
            let cut = if n == 0 { 0 } else { t.rng.usize(n + 1) };
            let mut e = make_engine(k, &keys);
            let c0 = e.count();
            e.input(&d[..cut]);
            let fork = e.dup();
            // The rest sits at the very end of its own allocation too.
            let rest = d[cut..].to_vec().into_boxed_slice();
            e.input(&rest);
            let mid = e.mid().map(|x| hex(&x)).unwrap_or_default();
            let c1 = e.count();
            let dig = hex(&e.dup().finish());
            t.put(format!("engine/{}/{}/{}", k.name(), j, n), format!("{},{},{},{}", c0, c1, mid, dig));
            drop(fork.finish());
            // resume at the last boundary, if what is in ends on one
            if c1 % k.resume_unit() == 0 {
                let got = quiet(|| { let mut f = e.resume(c1); f.input(&rest); (f.count(), hex(&f.finish())) });
                t.put(format!("resume/{}/{}/{}", k.name(), j, n), show(got));
            }
            if !t.big && j > 5 { continue }
            let parts = gen::partition(&mut t.rng, n, b);
            let mut v: Vec<&[u8]> = Vec::new();
            let mut at = 0;
            for c in parts.iter().take(40) { v.push(&d[at..at + c]); at += c }
            if at < n { v.push(&d[at..]) }
            t.put(format!("chunks/{}/{}/{}", k.name(), j, n), hex(&trait_chunks(k, &v)));
        }
    }
}

fn hashes(t: &mut Tour) {
    for (i, a) in ALGS.iter().enumerate() {
        if !t.mine(i) { continue }
        t.reseed(100 + i as u64);
        let ls = if t.big { lengths(t, a.block()) } else { vec![0, 3, a.block() - 9, a.block() + 3] };
        for n in ls {
            let m = gen::message(&mut t.rng, n);
            let d: Box<[u8]> = m.into();
            for (how, h) in crate::hashing::oneshots(*a, &d, t.big || n == 3) { t.put(format!("oneshot/{}/{}/{}", a.name(), n, how), hex(&h)) }
        }
        // resumed at sizes that need every bit of a 32-bit counter, and more where there is more
        let clen = match a { Alg::Sha1 | Alg::Ripemd160 => 20, Alg::Sha256 => 32, _ => 64 };
        let mut lens: Vec<u64> = vec![1 << 16, (1 << 28) + 128, (1 << 29) - 128, 1 << 29, (1 << 29) + 1024, (1 << 30) + 128, 1 << 31, (1 << 31) + (1 << 30), (1 << 32) - 4096];
        if usize::BITS == 64 { lens.extend([1 << 32, (1 << 32) + 128, (1 << 35) + 256, 1 << 45, (1 << 60) + 128]); if a.block() == 128 { lens.extend([1 << 61, (1 << 61) + 128, 1 << 62, (1 << 63) + 1280]) } }
        for l in lens {
            let chain = t.rng.bytes(clen);
            let n = t.rng.usize(2 * a.block());
            let tail = t.rng.bytes(n).into_boxed_slice();
            let r = quiet(|| { let mut e = resume_bytes(*a, &chain, l as usize); e.input(&tail); (e.count(), hex(&e.finish())) });
            t.put(format!("far/{}/{}", a.name(), l), show(r));
        }
    }
}

fn sip(t: &mut Tour) {
    t.reseed(200);
    let ls: Vec<usize> = if t.big { (0..80).chain([255, 256, 257, 1000]).collect() } else { (0..18).chain([31, 63, 64, 65, 255, 256]).collect() };
    for n in ls {
        let (k0, k1) = (t.rng.u64(), t.rng.u64());
        let m = t.rng.bytes(n);
        let (p, o) = gen::place(&m, n % 8);
        let d = &p[o..];
        let h = siphash24::Hash::hash_with_keys(k0, k1, d);
        let u = siphash24::Hash::hash_to_u64_with_keys(k0, k1, d);
        let mut e = siphash24::Engine::with_keys(k0, k1);
        let cut = t.rng.usize(n + 1);
        e.input(&d[..cut]);
        e.input(&d[cut..].to_vec());
        let ks = e.keys();
        let v = siphash24::Hash::from_engine_to_u64(e.clone());
        t.put(format!("sip/{}", n), format!("{} {} {} {} {:?} {}", h, u, v, h.as_u64(), ks, siphash24::Hash::from_u64(u)));
        t.put(format!("sipdef/{}", n), siphash24::Hash::hash(d));
    }
}

fn consts(t: &mut Tour) {
    t.reseed(300);
    let ls: Vec<usize> = if t.big { (0..200).collect() } else { vec![0, 1, 55, 56, 63, 64, 119, 120, 128] };
    for n in ls {
        let m = t.rng.bytes(n).into_boxed_slice();
        t.put(format!("const/{}", n), sha256::Hash::const_hash(&m));
        t.put(format!("tag/{}", n), sha256::Midstate::hash_tag(&m));
    }
}

struct ValTour<'a>(&'a mut Tour, usize);
impl<'a> ValVisitor for ValTour<'a> {
    fn visit<V: Val>(&mut self) {
        let t = &mut *self.0;
        t.reseed(400 + self.1 as u64);
        let mut prev: Option<V> = None;
        for i in 0..if t.big { 12 } else { 3 } {
            let b = crate::vals::value(&mut t.rng, V::N);
            let v = V::from_bytes(&b);
            let k = |s: &str| format!("val/{}/{}/{}", V::NAME, i, s);
            t.put(k("text"), format!("{} {:x} {:X} {:?} {:#} {:.5} {:.6X} {:>140} {:<7}|", v, v, v, v, v, v, v, v, v));
            t.put(k("views"), v.views().iter().map(|x| hex(&x.1)).filter(|x| *x != hex(&b)).count());
            t.put(k("parse"), format!("{:?}", v.to_string().parse::<V>().map(|x| x == v).ok()));
            for bad in ["", "0", "zz", "0x00", "é"] { t.put(k(&format!("bad{}", bad)), bad.parse::<V>().is_err()) }
            // Text whose byte length is right but whose characters are not, and text that goes on.
            let lo = v.to_string();
            for (x, bad) in [lo[2..].to_string() + "é", "é".to_string() + &lo[2..], lo[3..].to_string() + "€", "é".repeat(V::N), "\0".repeat(2 * V::N), lo.clone() + "0", lo.clone() + &lo, lo[1..].to_string(), "g".to_string() + &lo[1..]].into_iter().enumerate() {
                t.put(k(&format!("badtext{}", x)), format!("{:?}", quiet(|| bad.parse::<V>().is_err())))
            }
            for l in [0, 1, V::N - 1, V::N, V::N + 1, 300] { let s = vec![7u8; l].into_boxed_slice(); t.put(k(&format!("slice{}", l)), format!("{:?}", V::from_sl(&s).map(|x| x.to_string()))) }
            let boxed: Box<V::Arr> = Box::new(v.to_arr());
            t.put(k("ref"), V::by_ref(&boxed).map(|x| *x == v).unwrap_or(true));
            let mut boxed: Box<V::Arr> = Box::new(v.to_arr());
            let ok = match V::by_mut(&mut boxed) { Some(x) => { let y = *x; *x = V::from_bytes(&vec![3; V::N]); y == v } None => true };
            boxed.as_mut().as_mut()[V::N - 1] ^= 1;
            t.put(k("mut"), format!("{} {}", ok, hex(boxed.as_ref().as_ref())));
            let idx = quiet(|| (v.idx(V::N - 1), v.idx_range(1..4).to_vec(), v.idx_from(V::N - 2..).to_vec(), v.idx_to(..3).to_vec(), v.idx_full().len(), v.idx_incl(0..=1).map(|x| x.to_vec()).unwrap_or_default(), v.idx_to_incl(..=2).map(|x| x.to_vec()).unwrap_or_default()));
            t.put(k("idx"), show(idx));
            t.put(k("oob"), show(quiet(|| v.idx(V::N))));
            if let Some(p) = prev { t.put(k("ord"), format!("{:?} {:?} {}", v.cmp(&p), v.partial_cmp(&p), v == p)) }
            let mut h = std::collections::HashSet::new();
            h.insert(v);
            t.put(k("set"), h.contains(&v));
            prev = Some(v);
            #[cfg(feature = "serde")]
            {
                let j = serde_json::to_string(&v).unwrap_or_default();
                let c = bincode::serialize(&v).unwrap_or_default();
                t.put(format!("serde/{}/{}", V::NAME, i), format!("{} {} {:?} {:?}", j, hex(&c), serde_json::from_str::<V>(&j).map(|x| x == v).ok(), bincode::deserialize::<V>(&c).map(|x| x == v).ok()));
                t.put(format!("serdebad/{}/{}", V::NAME, i), format!("{} {} {}", serde_json::from_str::<V>("\"00\"").is_err(), serde_json::from_str::<V>("7").is_err(), bincode::deserialize::<V>(&c[..c.len() - 1]).is_err()));
            }
        }
        for (n, z) in V::zeros() { t.put(format!("val/{}/{}", V::NAME, n), z) }
    }
}

/// Every way a format can hand over data, well-formed and not.
#[cfg(feature = "serde")]
struct SerdeTour<'a>(&'a mut Tour, usize);
#[cfg(feature = "serde")]
impl<'a> ValVisitor for SerdeTour<'a> {
    fn visit<V: Val>(&mut self) {
        use crate::serdes::with_serde::{Fmt, Item, Out};
        let t = &mut *self.0;
        t.reseed(700 + self.1 as u64);
        let n = V::N;
        for i in 0..if t.big { 6 } else { 1 } {
            let b = crate::vals::value(&mut t.rng, n);
            let v = V::from_bytes(&b);
            let lo = hex(&b);
            for h in [true, false] { t.put(format!("form/{}/{}/{}", V::NAME, i, h), format!("{:?}", v.serialize(Out(h)))) }
            let mut raw: Vec<Vec<u8>> = vec![b.clone(), vec![], b[1..].to_vec(), [&b[..], &[1]].concat(), lo.clone().into_bytes(), lo.to_uppercase().into_bytes(), vec![0xff; n], vec![0xff; 2 * n], [lo.as_bytes(), &[0xff]].concat(),
                [&[0xc3], &lo.as_bytes()[1..]].concat(), [&lo.as_bytes()[..2 * n - 2], "é".as_bytes()].concat(), [&lo.as_bytes()[..2 * n - 1], &[0xe2]].concat(), b[..n / 2].to_vec(), [&b[..], &b[..]].concat(), vec![b'a'; 300]];
            if !t.big { for r in raw.iter_mut() { r.shrink_to_fit() } }
            for (x, r) in raw.iter().enumerate() {
                let mut items = vec![Item::BorrowedBytes(r.clone()), Item::CopiedBytes(r.clone()), Item::OwnedBytes(r.clone()), Item::Seq(r.clone())];
                if let Ok(s) = String::from_utf8(r.clone()) { items.extend([Item::BorrowedStr(s.clone()), Item::CopiedStr(s.clone()), Item::OwnedStr(s)]) }
                for (y, it) in items.iter().enumerate() {
                    for readable in [true, false] {
                        let got = quiet(|| V::deserialize(Fmt { readable, item: it }).map(|v| v.to_string()).map_err(|e| { let _ = e.to_string(); "refused" })); // the wording may differ
                        t.put(format!("take/{}/{}/{}/{}/{}", V::NAME, i, x, y, readable), format!("{:?}", got));
                    }
                }
            }
            for it in [Item::U64(3), Item::Char('a'), Item::Unit] { let got = quiet(|| V::deserialize(Fmt { readable: true, item: &it }).is_err()); t.put(format!("type/{}/{}/{:?}", V::NAME, i, it), format!("{:?}", got)) }
        }
    }
}

fn misc(t: &mut Tour) {
    t.reseed(500);
    for n in if t.big { (0..70).collect::<Vec<usize>>() } else { vec![0, 1, 2, 7, 20, 33] } {
        let a = t.rng.bytes(n).into_boxed_slice();
        let mut b = a.clone();
        let same = cmp::fixed_time_eq(&a, &b);
        if n > 0 { b[n / 2] ^= 1 }
        t.put(format!("cmp/{}", n), format!("{} {} {}", same, cmp::fixed_time_eq(&a, &b), show(quiet(|| cmp::fixed_time_eq(&a, &b[..n / 2])))));
    }
    let e = chf::FromSliceError::new(3, 4);
    t.put("err".into(), format!("{} {:?} {} {}", e, e, e.expected_length(), e.invalid_length()));
    let key = t.rng.bytes(70);
    let mut m = hmac::Engine::<sha256::Engine>::new(&key);
    m.input(&key);
    let mid = m.midstate();
    t.put("hmac/mid".into(), format!("{} {}", mid.inner, mid.outer));
    t.put("hmac/hash".into(), hmac::Hash::<32>::from_engine(m));
}

#[cfg(any(feature = "std", feature = "io"))]
fn writers(t: &mut Tour) {
    use bitcoin_io::Write;
    t.reseed(600);
    let d = t.rng.bytes(200).into_boxed_slice();
    macro_rules! w { ($n:expr, $e:expr) => {{
        let mut e = $e;
        let a = Write::write(&mut e, &d[..77]).ok();
        let b = Write::write_all(&mut e, &d[77..]).is_ok();
        let c = Write::flush(&mut e).is_ok();
        t.put(format!("write/{}", $n), format!("{:?} {} {} {}", a, b, c, hex(e.finalize().as_ref())));
    }} }
    w!("sha1", chf::sha1::Engine::default());
    w!("sha256", sha256::Engine::default());
    w!("sha512", chf::sha512::Engine::default());
    w!("ripemd160", chf::ripemd160::Engine::default());
    w!("siphash24", siphash24::Engine::with_keys(3, 4));
    w!("hmac", hmac::Engine::<chf::sha512::Engine>::new(&[5; 200]));
    w!("sha256t", chf::sha256t::Engine::<TagA>::default());
}

#[cfg(feature = "schemars")]
fn schema(t: &mut Tour) {
    for ty in crate::serdes::with_schema::types() { t.put(format!("schema/{}", ty.name), ty.root_schema()) }
}

/// The same histories in several threads at once, from their first use on, and then alone.
fn threads(t: &mut Tour, window: usize) {
    let all = crate::iso::world(t.seed, if t.big { 60 } else { 2 * kinds().len() });
    let n = all.scripts.len();
    // A few kinds of engine per run, or the interpreter takes too long.
    let pick: Vec<usize> = if t.big { (0..n).collect() } else { (0..7).map(|i| (i + window * 7) % n).collect() };
    let (w, pick) = (&all, &pick);
    let parts: Vec<Vec<(usize, Vec<Vec<u8>>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..3usize).map(|k| s.spawn(move || pick.iter().filter(|i| k < 2 || *i % 2 == 0).map(|i| {
            let mut r = crate::iso::Run::new(w, *i);
            r.all_caught(&mut Vec::new());
            (*i, r.obs)
        }).collect::<Vec<_>>())).collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    let solo: Vec<(usize, Vec<Vec<u8>>)> = pick.iter().map(|i| { let mut r = crate::iso::Run::new(w, *i); r.all_caught(&mut Vec::new()); (*i, r.obs) }).collect();
    for (k, p) in parts.into_iter().chain([solo]).enumerate() {
        for (i, o) in p { t.put(format!("{}/{}/{}", if k == 3 { "alone" } else { "thread" }, k, i), o.iter().map(|x| hex(x)).collect::<Vec<_>>().join(",")) }
    }
}

/// Runs the tour; `parts` selects sections by name (all when empty).
pub fn run(seed: u64, big: bool, parts: &[String]) -> Vec<String> {
    let mut t = Tour { out: Vec::new(), rng: Rng::new(seed, 0), big, seed, shard: (0, 1) };
    if let Some((i, n)) = parts.iter().find_map(|x| x.strip_prefix("shard=")).and_then(|x| x.split_once('/')) { t.shard = (i.parse().expect("shard"), n.parse().expect("shards")) }
    let window = parts.iter().find_map(|x| x.strip_prefix("window=")).map(|x| x.parse().expect("window")).unwrap_or(0);
    let all = !parts.iter().any(|x| !x.starts_with("shard=") && !x.starts_with("window="));
    let on = |p: &str| all || parts.iter().any(|x| x == p);
    if on("engines") { engines(&mut t) }
    if on("hashes") { hashes(&mut t) }
    if on("sip") { sip(&mut t) }
    if on("consts") { consts(&mut t) }
    if on("values") { for i in 0..NVALS { if t.mine(i) { visit_val(i, &mut ValTour(&mut t, i)) } } }
    #[cfg(feature = "serde")]
    if on("serde") { for i in 0..NVALS { if t.mine(i) { visit_val(i, &mut SerdeTour(&mut t, i)) } } }
    if on("misc") {
        misc(&mut t);
        #[cfg(any(feature = "std", feature = "io"))]
        writers(&mut t);
        #[cfg(feature = "schemars")]
        schema(&mut t);
    }
    if on("threads") { threads(&mut t, window) }
    t.out
}
