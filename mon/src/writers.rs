//! C16: monitors of the writer adapters (std::io::Write and bitcoin_io::Write).

#[cfg(any(feature = "io", feature = "std"))]
use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine};

#[cfg(any(feature = "io", feature = "std"))]
use crate::engines::{TagA, TagB};
#[cfg(any(feature = "io", feature = "std"))]
use crate::gen::{self, hexs};
use crate::rec::{Cfg, Rec, Total};
#[cfg(any(feature = "io", feature = "std"))]
use crate::rng::{fp, fp_bytes};

pub const NWRITERS: usize = 14;

#[cfg(any(feature = "io", feature = "std"))]
macro_rules! each_writer { ($i:expr, $go:ident, $r:expr) => {
    match $i {
        0 => $go($r, "sha1", sha1::Engine::default()), 1 => $go($r, "sha256", sha256::Engine::default()),
        2 => $go($r, "sha512", sha512::Engine::default()), 3 => $go($r, "ripemd160", ripemd160::Engine::default()),
        4 => { let (a, b) = ($r.rng.u64(), $r.rng.u64()); $go($r, "siphash24", siphash24::Engine::with_keys(a, b)) }
        5 => { let k = key($r); $go($r, "hmac-sha256", hmac::Engine::<sha256::Engine>::new(&k)) }
        6 => { let k = key($r); $go($r, "hmac-sha512", hmac::Engine::<sha512::Engine>::new(&k)) }
        7 => { let k = key($r); $go($r, "hmac-sha1", hmac::Engine::<sha1::Engine>::new(&k)) }
        8 => { let k = key($r); $go($r, "hmac-ripemd160", hmac::Engine::<ripemd160::Engine>::new(&k)) }
        9 => { let k = key($r); $go($r, "hmac-siphash24", hmac::Engine::<siphash24::Engine>::new(&k)) }
        10 => { let k = key($r); $go($r, "hmac-sha384", hmac::Engine::<sha384::Engine>::new(&k)) }
        11 => { let k = key($r); $go($r, "hmac-sha512_256", hmac::Engine::<sha512_256::Engine>::new(&k)) }
        12 => $go($r, "sha256t/A", sha256t::Engine::<TagA>::default()),
        _ => $go($r, "sha256t/B", sha256t::Engine::<TagB>::default()),
    }
} }

#[cfg(any(feature = "io", feature = "std"))]
fn key(r: &mut Rec) -> Vec<u8> { let n = r.rng.usize(200); r.rng.bytes(n) }

/// Bytes for one write: mostly small, sometimes block-sized, now and then very large.
#[cfg(any(feature = "io", feature = "std"))]
fn buf(r: &mut Rec, block: usize) -> Vec<u8> {
    let n = match r.rng.usize(40) { 0 => r.rng.usize(300_000), 1 => 65_535 + r.rng.usize(3), 2 => 8191 + r.rng.usize(3), _ => gen::length(&mut r.rng, block, 5000) };
    gen::message(&mut r.rng, n)
}

#[cfg(any(feature = "io", feature = "std"))]
fn judge<E: HashEngine>(r: &mut Rec, name: &str, e: &E, fresh: &E, all: &[u8], ops: &[String]) {
    let base = fresh.n_bytes_hashed();
    let n = e.n_bytes_hashed();
    r.eq(n, base + all.len(), "bytes absorbed", || format!("{} after {:?}", name, ops));
    let mut s = fresh.clone();
    s.input(all);
    let want = s.finalize();
    r.eqb(e.clone().finalize().as_ref(), want.as_ref(), "digest", || format!("{} after {:?}: bytes {}", name, ops, hexs(all)));
    r.count("writer histories judged", 1);
}

#[cfg(feature = "std")]
mod s {
    use super::*;
    use std::io::{self, IoSlice, Read, Write};

    /// A reader that hands out its bytes in odd pieces, with interruptions.
    struct Dribble { d: Vec<u8>, at: usize, sizes: Vec<usize>, i: usize, interrupts: bool }
    impl Read for Dribble {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            self.i += 1;
            if self.interrupts && self.i % 5 == 2 { return Err(io::ErrorKind::Interrupted.into()) }
            let n = self.sizes[self.i % self.sizes.len()].max(1).min(b.len()).min(self.d.len() - self.at);
            b[..n].copy_from_slice(&self.d[self.at..self.at + n]);
            self.at += n;
            Ok(n)
        }
    }

    fn feed(r: &mut Rec, name: &'static str, w: &mut dyn Write, d: &[u8], ops: &[String]) {
        match w.write(d) {
            Ok(n) => r.eq(n, d.len(), "write count", || format!("{} write of {} bytes after {:?}", name, d.len(), ops)),
            Err(e) => r.viol("write error", || format!("{} write of {} bytes after {:?}: {}", name, d.len(), ops, e)),
        }
    }

    pub fn go<E: HashEngine + Write + bitcoin_io::Write>(r: &mut Rec, name: &'static str, e: E) {
        r.case("c16 std", [fp_bytes(name.as_bytes()), 0, 0, 0, 0, 0]);
        let fresh = e.clone();
        let mut e = e;
        let mut all: Vec<u8> = Vec::new();
        let mut ops: Vec<String> = Vec::new();
        let n = 1 + r.rng.usize(10);
        let mut shape = vec![fp_bytes(name.as_bytes()), 1];
        for _ in 0..n {
            let op = r.rng.usize(16);
            let d = buf(r, E::BLOCK_SIZE);
            shape.push(op as u64);
            shape.push(d.len() as u64);
            match op {
                0 | 1 => { ops.push(format!("write {}", d.len())); feed(r, name, &mut e, &d, &ops); all.extend(&d) }
                2 | 3 => {
                    ops.push(format!("write_all {}", d.len()));
                    if let Err(x) = Write::write_all(&mut e, &d) { r.viol("write error", || format!("{} {:?}: {}", name, ops, x)) }
                    all.extend(&d)
                }
                4 | 5 => { // vectored: the count says how much was taken
                    let k = r.rng.usize(6);
                    let mut cuts: Vec<usize> = (0..k).map(|_| if d.is_empty() { 0 } else { r.rng.usize(d.len() + 1) }).collect();
                    cuts.push(0); cuts.push(d.len()); cuts.sort_unstable();
                    let sl: Vec<IoSlice> = cuts.windows(2).map(|w| IoSlice::new(&d[w[0]..w[1]])).collect();
                    ops.push(format!("write_vectored {:?}", cuts));
                    match e.write_vectored(&sl) {
                        Ok(n) => { r.check(n <= d.len() && (n > 0 || d.is_empty()), "write_vectored count", || format!("{} {:?}: {}", name, ops, n)); all.extend(&d[..n.min(d.len())]) }
                        Err(x) => r.viol("write error", || format!("{} {:?}: {}", name, ops, x)),
                    }
                }
                6 => { ops.push("flush".into()); if let Err(x) = Write::flush(&mut e) { r.viol("flush error", || format!("{} {:?}: {}", name, ops, x)) } }
                7 => { // formatted
                    let (x, y) = (r.rng.u64(), r.rng.usize(300));
                    let t = format!("<{:x}|{:>w$}|{:?}>é", x, y, ops.last(), w = y);
                    ops.push(format!("write! {}", t.len()));
                    if let Err(z) = e.write_fmt(format_args!("<{:x}|{:>w$}|{:?}>é", x, y, if ops.len() > 1 { Some(&ops[ops.len() - 2]) } else { None }, w = y)) { r.viol("write error", || format!("{} {:?}: {}", name, ops, z)) }
                    all.extend(t.as_bytes())
                }
                8 | 9 => { // io::copy
                    let sizes = (0..5).map(|_| 1 + r.rng.usize(9000)).collect();
                    let mut rd = Dribble { d: d.clone(), at: 0, sizes, i: 0, interrupts: op == 9 };
                    ops.push(format!("copy {}", d.len()));
                    match io::copy(&mut rd, &mut e) {
                        Ok(n) => r.eq(n as usize, d.len(), "copy count", || format!("{} {:?}", name, ops)),
                        Err(x) => r.viol("write error", || format!("{} {:?}: {}", name, ops, x)),
                    }
                    all.extend(&d)
                }
                10 => { // through &mut, Box<dyn>, by_ref
                    ops.push(format!("by_ref/dyn {}", d.len()));
                    let (a, b) = d.split_at(d.len() / 3);
                    feed(r, name, &mut (&mut e), a, &ops);
                    { let mut w: Box<dyn Write + '_> = Box::new(e.by_ref()); feed(r, name, &mut w, b, &ops); }
                    all.extend(&d)
                }
                11 => { // a buffered writer on top
                    ops.push(format!("BufWriter {}", d.len()));
                    let cap = 1 + r.rng.usize(300);
                    let mut w = io::BufWriter::with_capacity(cap, &mut e);
                    let mut at = 0;
                    let mut ok = true;
                    for c in gen::partition(&mut r.rng, d.len(), 64) { ok &= w.write_all(&d[at..at + c]).is_ok(); at += c }
                    ok &= w.flush().is_ok();
                    drop(w);
                    r.check(ok, "write error", || format!("{} {:?}", name, ops));
                    all.extend(&d)
                }
                12 => { // through bitcoin_io::Write of the same engine
                    ops.push(format!("bitcoin_io {}", d.len()));
                    match bitcoin_io::Write::write(&mut e, &d) {
                        Ok(n) => r.eq(n, d.len(), "write count", || format!("{} {:?}", name, ops)),
                        Err(x) => r.viol("write error", || format!("{} {:?}: {}", name, ops, x)),
                    }
                    all.extend(&d)
                }
                13 => { // many tiny writes
                    let k = 1 + r.rng.usize(12);
                    ops.push(format!("tiny writes {} by {}", d.len().min(600), k));
                    for c in d[..d.len().min(600)].chunks(k) { feed(r, name, &mut e, c, &ops); all.extend(c) }
                }
                14 => { ops.push(format!("input {}", d.len())); e.input(&d); all.extend(&d) }
                _ => { ops.push("write 0".into()); feed(r, name, &mut e, &[], &ops) }
            }
            r.count("writer operations", 1);
            if r.rng.one_in(3) { judge(r, name, &e, &fresh, &all, &ops) }
        }
        judge(r, name, &e, &fresh, &all, &ops);
        r.nontrivial(fp(&shape));
        r.sample(|| format!("{} std::io::Write {:?}", name, ops));
    }
}

/// bitcoin_io's writer trait alone.
#[cfg(any(feature = "io", feature = "std"))]
mod b {
    use super::*;
    use bitcoin_io::Write;

    fn feed(r: &mut Rec, name: &'static str, w: &mut impl Write, d: &[u8], ops: &[String]) {
        match w.write(d) {
            Ok(n) => r.eq(n, d.len(), "write count", || format!("{} bitcoin_io write of {} bytes after {:?}", name, d.len(), ops)),
            Err(e) => r.viol("write error", || format!("{} bitcoin_io write of {} bytes after {:?}: {:?}", name, d.len(), ops, e)),
        }
    }

    pub fn go<E: HashEngine + Write>(r: &mut Rec, name: &'static str, e: E) {
        r.case("c16 bitcoin_io", [fp_bytes(name.as_bytes()), 0, 0, 0, 0, 0]);
        let fresh = e.clone();
        let mut e = e;
        let mut all: Vec<u8> = Vec::new();
        let mut ops: Vec<String> = Vec::new();
        let mut shape = vec![fp_bytes(name.as_bytes()), 2];
        for _ in 0..1 + r.rng.usize(10) {
            let op = r.rng.usize(8);
            let d = buf(r, E::BLOCK_SIZE);
            shape.push(op as u64);
            shape.push(d.len() as u64);
            match op {
                0..=2 => { ops.push(format!("write {}", d.len())); feed(r, name, &mut e, &d, &ops); all.extend(&d) }
                3 | 4 => {
                    ops.push(format!("write_all {}", d.len()));
                    if let Err(x) = e.write_all(&d) { r.viol("write error", || format!("{} {:?}: {:?}", name, ops, x)) }
                    all.extend(&d)
                }
                5 => { ops.push("flush".into()); if let Err(x) = e.flush() { r.viol("flush error", || format!("{} {:?}: {:?}", name, ops, x)) } }
                6 => { ops.push(format!("input {}", d.len())); e.input(&d); all.extend(&d) }
                _ => { ops.push("write 0".into()); feed(r, name, &mut e, &[], &ops) }
            }
            r.count("writer operations", 1);
            if r.rng.one_in(3) { judge(r, name, &e, &fresh, &all, &ops) }
        }
        judge(r, name, &e, &fresh, &all, &ops);
        r.nontrivial(fp(&shape));
        r.sample(|| format!("{} bitcoin_io::Write {:?}", name, ops));
    }
}

/// Every single write size.
#[cfg(any(feature = "io", feature = "std"))]
fn sizes<E: HashEngine + bitcoin_io::Write + MaybeStd>(r: &mut Rec, name: &'static str, e: E) {
    let d = r.rng.bytes(3 * E::BLOCK_SIZE + 600);
    for n in 0..d.len() {
        r.case("c16 one write", [fp_bytes(name.as_bytes()), n as u64, 0, 0, 0, 0]);
        let pre = n % 11;
        let mut a = e.clone();
        a.input(&d[..pre]);
        let mut want = a.clone();
        want.input(&d[..n]);
        let ops = [format!("input {}", pre), format!("write {}", n)];
        let mut x = a.clone();
        match bitcoin_io::Write::write(&mut x, &d[..n]) { Ok(k) => r.eq(k, n, "write count", || format!("{} {:?}", name, ops)), Err(e) => r.viol("write error", || format!("{} {:?}: {:?}", name, ops, e)) }
        r.eqb(x.finalize().as_ref(), want.clone().finalize().as_ref(), "digest", || format!("{} bitcoin_io {:?}", name, ops));
        let mut y = a.clone();
        if let Some(res) = y.std_write(&d[..n]) {
            r.eq(res, Ok(n), "write count", || format!("{} std {:?}", name, ops));
            r.eqb(y.finalize().as_ref(), want.finalize().as_ref(), "digest", || format!("{} std {:?}", name, ops));
        }
        r.nontrivial(fp(&[16, fp_bytes(name.as_bytes()), n as u64]));
        r.count("single writes judged", 1);
    }
}

/// One write of more than 4 GiB through each trait.
#[cfg(any(feature = "io", feature = "std"))]
fn huge<E: HashEngine + bitcoin_io::Write + MaybeStd>(r: &mut Rec, name: &'static str, e: E) {
    let z = gen::huge();
    if z.is_empty() { return }
    let base = e.n_bytes_hashed();
    let one = |r: &mut Rec, how: u64| {
        r.case("c16 huge write", [fp_bytes(name.as_bytes()), how, 0, 0, 0, 0]);
        let mut x = e.clone();
        let got = if how == 0 { Some(bitcoin_io::Write::write(&mut x, z).map_err(|e| format!("{:?}", e))) } else { x.std_write(z) };
        if let Some(g) = got {
            r.check(g == Ok(z.len()), "write count", || format!("{} trait {}: one write of {} bytes gave {:?}", name, how, z.len(), g));
            r.eq(x.n_bytes_hashed(), base + z.len(), "bytes absorbed", || format!("{} trait {}: one write of {} bytes", name, how, z.len()));
            r.nontrivial(fp(&[161, fp_bytes(name.as_bytes()), how]));
            r.count("writes of more than 4 GiB", 1);
        }
    };
    one(r, 0);
    // the fast ones through the other trait too
    if name.contains("siphash") { one(r, 1) }
}

#[cfg(feature = "std")]
pub trait MaybeStd: std::io::Write { fn std_write(&mut self, d: &[u8]) -> Option<Result<usize, String>> { Some(std::io::Write::write(self, d).map_err(|e| e.to_string())) } }
#[cfg(feature = "std")]
impl<E: std::io::Write> MaybeStd for E {}
#[cfg(not(feature = "std"))]
pub trait MaybeStd { fn std_write(&mut self, _: &[u8]) -> Option<Result<usize, String>> { None } }
#[cfg(not(feature = "std"))]
impl<E> MaybeStd for E {}

#[cfg(any(feature = "io", feature = "std"))]
pub fn c16(cfg: &Cfg, out: Option<&str>) -> Total {
    if cfg.extra.iter().any(|x| x == "huge") {
        let ws = [3usize, 2, 0, 1, 12, 4, 5, 9];
        return crate::rec::run(cfg, ws.len(), out, &|i, r| each_writer!(ws[i], huge, r));
    }
    crate::rec::run(cfg, NWRITERS * (1 + cfg.n(12, 120)), out, &|i, r| {
        let w = i % NWRITERS;
        if i / NWRITERS == 0 { return each_writer!(w, sizes, r) }
        for _ in 0..cfg.n(25, 50) {
            #[cfg(feature = "std")]
            { use s::go; each_writer!(w, go, r) }
            { use b::go; each_writer!(w, go, r) }
        }
    })
}
#[cfg(not(any(feature = "io", feature = "std")))]
pub fn c16(_: &Cfg, _: Option<&str>) -> Total { let _ = NWRITERS; let _: Option<&mut Rec> = None; Total::default() }
