//! C09, C11, C12 (functional half): monitors of hash values as values.

use std::collections::hash_map::DefaultHasher;
use std::hash::Hasher;

use crate::gen::{self, hex, hexs};
use crate::rec::{quiet, Cfg, Rec, Total};
use crate::rng::{fp, fp_bytes, Rng};
use crate::values::*;

/// Random, structured and extreme value bytes.
pub fn value(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.usize(8) {
        0 => vec![0; n], 1 => vec![0xff; n],
        2 => { let mut v = vec![0; n]; let i = rng.usize(n); v[i] = rng.u64() as u8; v }
        3 => (0..n).map(|i| i as u8).collect(),
        4 => (0..n).map(|_| *rng.pick(&[0u8, 1, 9, 10, 15, 16, 0x7f, 0x80, 0x9a, 0xa0, 0xa9, 0xf0, 0xff])).collect(),
        _ => rng.bytes(n),
    }
}

// ---- C09 --------------------------------------------------------------------------------------

fn lower(b: &[u8]) -> String { hex(b) }
fn upper(b: &[u8]) -> String { hex(b).to_ascii_uppercase() }

struct C09<'a> { r: &'a mut Rec, cfg: &'a Cfg, mode: usize }

impl<'a> C09<'a> {
    fn fmt<V: Val>(&mut self, v: V, b: &[u8]) {
        let r = &mut *self.r;
        r.case("c09 format", [V::N as u64, fp_bytes(b), 0, 0, 0, 0]);
        let (lo, up) = (lower(b), upper(b));
        for (spec, got, want) in [
            ("{}", format!("{}", v), &lo), ("to_string", v.to_string(), &lo), ("{:x}", format!("{:x}", v), &lo), ("{:X}", format!("{:X}", v), &up),
        ] { r.check(got == *want, "text", || format!("{} {} of {}: got {:?}", V::NAME, spec, lo, got)) }
        // Alternate forms and Debug: an optional 0x prefix, nothing else but the digits.
        for (spec, got, want) in [
            ("{:#}", format!("{:#}", v), &lo), ("{:#x}", format!("{:#x}", v), &lo), ("{:#X}", format!("{:#X}", v), &up),
            ("{:?}", format!("{:?}", v), &lo), ("{:#?}", format!("{:#?}", v), &lo),
        ] {
            let body = got.strip_prefix("0x").unwrap_or(&got);
            r.check(body == want, "text", || format!("{} {} of {}: got {:?}", V::NAME, spec, lo, got))
        }
        r.count("renderings judged", 9);
        // Round trip in any letter case.
        let mixed: String = lo.chars().enumerate().map(|(i, c)| if (i * 7 + b[0] as usize) % 3 == 0 { c.to_ascii_uppercase() } else { c }).collect();
        for s in [&lo, &up, &mixed] {
            match s.parse::<V>() {
                Ok(p) => r.check(p == v && p.to_arr().as_ref() == b, "parse", || format!("{} parses {:?} to {}", V::NAME, s, p)),
                Err(e) => r.viol("parse", || format!("{} rejects {:?}: {}", V::NAME, s, e)),
            }
            if let Some(x) = V::from_hex(s) { r.check(x.map(|p| p == v) == Ok(true), "parse", || format!("{} FromHex of {:?}", V::NAME, s)) }
            r.count("round trips", 1);
        }
        r.nontrivial(fp(&[9, V::N as u64, fp_bytes(b), V::SLICE_FMT as u64]));
        r.sample(|| format!("{} prints {}", V::NAME, lo));
    }

    fn precision<V: Val>(&mut self, v: V, b: &[u8]) {
        let r = &mut *self.r;
        let (lo, up) = (lower(b), upper(b));
        for p in 0..=2 * V::N + 3 {
            r.case("c09 precision", [V::N as u64, p as u64, fp_bytes(b), 0, 0, 0]);
            let k = p.min(2 * V::N);
            for (spec, got, want) in [
                ("{:.P}", format!("{:.*}", p, v), &lo[..k]), ("{:.Px}", format!("{:.*x}", p, v), &lo[..k]), ("{:.PX}", format!("{:.*X}", p, v), &up[..k]),
            ] { r.check(got == want, "precision", || format!("{} {} with P={} of {}: got {:?}", V::NAME, spec, p, lo, got)) }
            r.count("precisions judged", 3);
            r.nontrivial(fp(&[91, V::N as u64, p as u64, V::SLICE_FMT as u64]));
        }
        // Width pads outside the digits and never cuts them.
        for w in [0usize, 1, 2 * V::N - 1, 2 * V::N, 2 * V::N + 1, 2 * V::N + 17] {
            r.case("c09 width", [V::N as u64, w as u64, 0, 0, 0, 0]);
            for (spec, got, want) in [
                ("{:_<W}", format!("{:_<w$}", v, w = w), &lo), ("{:_>W}", format!("{:_>w$}", v, w = w), &lo), ("{:_^W}", format!("{:_^w$}", v, w = w), &lo),
                ("{:_<Wx}", format!("{:_<w$x}", v, w = w), &lo), ("{:_>WX}", format!("{:_>w$X}", v, w = w), &up),
            ] {
                let t = got.trim_matches('_');
                r.check(t == want && got.len() == w.max(2 * V::N), "width", || format!("{} {} with W={} of {}: got {:?}", V::NAME, spec, w, lo, got));
                r.count("widths judged", 1);
            }
        }
        // Width and precision together: the padded cut.
        for p in [0usize, 1, 2, 3, 7, 8, V::N, 2 * V::N - 1, 2 * V::N] {
            let w = 2 * V::N + 5;
            r.case("c09 width and precision", [V::N as u64, w as u64, p as u64, 0, 0, 0]);
            let got = format!("{:_>w$.p$}", v, w = w, p = p);
            r.check(got.trim_start_matches('_') == &lo[..p] && got.len() == w, "width and precision", || format!("{} W={} P={} of {}: got {:?}", V::NAME, w, p, lo, got));
        }
    }

    /// One string against the only acceptable outcome.
    fn text<V: Val>(&mut self, s: &str) {
        let r = &mut *self.r;
        r.case("c09 parse", [V::N as u64, s.len() as u64, fp_bytes(s.as_bytes()), 0, 0, 0]);
        let good = s.len() == 2 * V::N && s.bytes().all(|c| c.is_ascii_hexdigit());
        let want: Option<Vec<u8>> = if good { Some((0..V::N).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()) } else { None };
        let mut outcomes: Vec<(&str, Result<Option<V>, String>)> = vec![("FromStr", quiet(|| s.parse::<V>().ok()))];
        if V::from_hex("").is_some() { outcomes.push(("FromHex", quiet(|| V::from_hex(s).unwrap().ok()))) }
        for (how, o) in outcomes {
            match o {
                Err(p) => r.viol("parse panic", || format!("{} {} of {:?}: {}", V::NAME, how, s, p)),
                Ok(got) => {
                    let g = got.map(|v| v.to_arr().as_ref().to_vec());
                    r.check(g == want, "parse", || format!("{} {} of {:?}: got {:?}, expected {:?}", V::NAME, how, s, g, want));
                }
            }
        }
        r.count(if good { "valid strings judged" } else { "invalid strings judged" }, 1);
        r.nontrivial(fp(&[92, V::N as u64, fp_bytes(s.as_bytes())]));
    }
}

impl<'a> ValVisitor for C09<'a> {
    fn visit<V: Val>(&mut self) {
        let n = V::N;
        match self.mode {
            0 => {
                for byte in 0..=255u8 { // every byte value at every position class
                    for pos in [0, n / 2, n - 1] {
                        let mut b = vec![0x5a; n];
                        b[pos] = byte;
                        let v = V::from_bytes(&b);
                        self.fmt(v, &b);
                    }
                }
                for z in [vec![0; n], vec![255; n], (0..n).map(|i| (i * 17 + 1) as u8).collect::<Vec<_>>()] { let v = V::from_bytes(&z); self.fmt(v, &z); self.precision(v, &z) }
                let b: Vec<u8> = (0..n).map(|i| [0x1f, 0xa2, 0xb3, 0x4c, 0xd5, 0xe6, 0x7f, 0x98][i % 8]).collect();
                self.precision(V::from_bytes(&b), &b);
            }
            1 => { // every ASCII character at every position; every length
                let base: String = lower(&(0..n).map(|i| (i * 29 + 0xab) as u8).collect::<Vec<_>>());
                let mut bytes = base.clone().into_bytes();
                for pos in 0..2 * n {
                    let old = bytes[pos];
                    for c in 0..128u8 {
                        bytes[pos] = c;
                        let s = String::from_utf8(bytes.clone()).unwrap();
                        self.text::<V>(&s);
                    }
                    bytes[pos] = old;
                }
                for len in 0..=4 * n + 2 { let s: String = base.chars().cycle().take(len).collect(); self.text::<V>(&s) }
            }
            2 => { // multi-byte characters arranged so that byte length or char length matches
                let base = lower(&vec![0xcd; n]);
                for ch in ['é', '０', '€', '𝟘', '\u{0}', 'ａ', '\u{ff10}', '\u{660}', '٠'] {
                    let l = ch.len_utf8();
                    for pos in 0..2 * n {
                        let mut s: String = base[..pos].to_string();
                        s.push(ch);
                        let mut t = s.clone();
                        t.push_str(&base[pos + 1..]);
                        self.text::<V>(&t);
                        if pos + l <= 2 * n { s.push_str(&base[pos + l..]); self.text::<V>(&s) }
                    }
                }
                for pre in ["0x", "0X", " ", "+", "-", "#", "\\x", "\t", "\n", "0b", "\"", "00", "0"] {
                    self.text::<V>(&format!("{}{}", pre, base));
                    self.text::<V>(&format!("{}{}", base, pre));
                    if pre.len() <= base.len() {
                        self.text::<V>(&format!("{}{}", pre, &base[pre.len()..]));
                        self.text::<V>(&format!("{}{}", &base[pre.len()..], pre));
                    }
                }
                for s in ["", "0", "x", "0x", "zz", "💥"] { self.text::<V>(s) }
                let big = "ab".repeat(5000);
                self.text::<V>(&big);
            }
            _ => {
                for _ in 0..self.cfg.n(150, 600) {
                    let b = value(&mut self.r.rng, n);
                    let v = V::from_bytes(&b);
                    self.fmt(v, &b);
                    // a random mutation of the text
                    let mut s = lower(&b).into_bytes();
                    for _ in 0..1 + self.r.rng.usize(3) {
                        match self.r.rng.usize(4) {
                            0 => { let i = self.r.rng.usize(s.len().max(1)); if i < s.len() { s[i] = self.r.rng.u64() as u8 & 0x7f } }
                            1 => { s.pop(); }
                            2 => { let i = self.r.rng.usize(s.len() + 1); s.insert(i, b'0' + self.r.rng.usize(10) as u8) }
                            _ => { let i = self.r.rng.usize(s.len().max(1)); if i < s.len() { s[i] = s[i].to_ascii_uppercase() } }
                        }
                    }
                    let s = String::from_utf8(s).unwrap();
                    self.text::<V>(&s);
                }
                for _ in 0..self.cfg.n(4, 10) { let b = value(&mut self.r.rng, n); self.precision(V::from_bytes(&b), &b) }
            }
        }
    }
}

pub fn c09(cfg: &Cfg, out: Option<&str>) -> Total {
    let tasks = NVALS * (3 + cfg.n(6, 60));
    crate::rec::run(cfg, tasks, out, &|i, r| { let mut v = C09 { r, cfg, mode: i / NVALS }; visit_val(i % NVALS, &mut v) })
}

// ---- C11 --------------------------------------------------------------------------------------

fn std_hash<T: std::hash::Hash>(v: &T) -> u64 { let mut h = DefaultHasher::new(); v.hash(&mut h); h.finish() }

struct C11<'a> { r: &'a mut Rec, cfg: &'a Cfg, mode: usize }

impl<'a> C11<'a> {
    fn single<V: Val>(&mut self, b: &[u8]) {
        let r = &mut *self.r;
        r.case("c11 value", [V::N as u64, fp_bytes(b), 0, 0, 0, 0]);
        let v = V::from_bytes(b);
        for (how, got) in v.views() { r.eqb(&got, b, "accessor", || format!("{} {}", V::NAME, how)); r.count("accessor readings judged", 1) }
        match V::from_sl(b) {
            Ok(x) => r.check(x == v && x.to_arr().as_ref() == b, "from_slice", || format!("{} from_slice changed {}", V::NAME, hex(b))),
            Err(e) => r.viol("from_slice", || format!("{} from_slice of {} bytes: {}", V::NAME, b.len(), e)),
        }
        // The accessors of a placed value point into the value itself.
        let base = &v as *const V as usize;
        for (how, p) in v.ptrs() { r.check((p as usize) == base, "view", || format!("{} {} points outside the value", V::NAME, how)) }
        // Reference conversions are views.
        let mut arr = v.to_arr();
        let addr = &arr as *const V::Arr as usize;
        if let Some(x) = V::by_ref(&arr) {
            r.check(x as *const V as usize == addr && *x == v, "from_bytes_ref", || format!("{} from_bytes_ref is not a view", V::NAME));
            r.count("reference views judged", 1);
        }
        let i = r.rng.usize(V::N);
        let other = value(&mut r.rng, V::N);
        if let Some(x) = V::by_mut(&mut arr) {
            r.check(x as *const V as usize == addr && *x == v, "from_bytes_mut", || format!("{} from_bytes_mut is not a view", V::NAME));
            *x = V::from_bytes(&other);
            r.eqb(arr.as_ref(), &other, "from_bytes_mut", || format!("{} writing through the view", V::NAME));
            arr.as_mut()[i] ^= 0xff;
            let y = V::by_mut(&mut arr).map(|y| y.to_arr().as_ref().to_vec()).unwrap();
            let mut w = other.clone();
            w[i] ^= 0xff;
            r.eqb(&y, &w, "from_bytes_mut", || format!("{} writing through the array", V::NAME));
            r.count("mutable views judged", 1);
        }
        // Indexing.
        for i in 0..V::N { r.eq(v.idx(i), b[i], "index", || format!("{} [{}]", V::NAME, i)) }
        r.nontrivial(fp(&[11, V::N as u64, fp_bytes(b)]));
        let c = v;
        #[allow(clippy::clone_on_copy)]
        let d = v.clone();
        r.check(c == v && d == v, "copy", || format!("{} copy", V::NAME));
        r.sample(|| format!("{} over {}", V::NAME, hex(b)));
    }

    fn pair<V: Val>(&mut self, a: &[u8], b: &[u8]) {
        let r = &mut *self.r;
        r.case("c11 pair", [V::N as u64, fp_bytes(a), fp_bytes(b), 0, 0, 0]);
        let (x, y) = (V::from_bytes(a), V::from_bytes(b));
        let d = || format!("{} {} vs {}", V::NAME, hexs(a), hexs(b));
        r.eq(x == y, a == b, "eq", d);
        r.eq(x != y, a != b, "ne", d);
        r.eq(x.cmp(&y), a.cmp(b), "cmp", d);
        r.eq(x.partial_cmp(&y), a.partial_cmp(b), "partial_cmp", d);
        r.eq((x < y, x <= y, x > y, x >= y), (a < b, a <= b, a > b, a >= b), "operators", d);
        r.eq(x.max(y).to_arr().as_ref().to_vec(), a.max(b).to_vec(), "max", d);
        r.eq(std_hash(&x) == std_hash(&y), a == b, "std hash", d);
        r.count("pairs compared", 1);
        r.nontrivial(fp(&[110, V::N as u64, fp_bytes(a), fp_bytes(b)]));
    }
}

impl<'a> ValVisitor for C11<'a> {
    fn visit<V: Val>(&mut self) {
        let n = V::N;
        match self.mode {
            0 => {
                for b in [vec![0; n], vec![255; n], (0..n).map(|i| i as u8).collect::<Vec<_>>()] { self.single::<V>(&b) }
                let r = &mut *self.r;
                for (how, z) in V::zeros() {
                    r.case("c11 zeros", [n as u64, 0, 0, 0, 0, 0]);
                    r.eqb(z.to_arr().as_ref(), &vec![0; n], "zero value", || format!("{} {}", V::NAME, how));
                }
                if let Some(l) = V::len_const() { r.eq(l, n, "LEN", || V::NAME.into()) }
                r.eq(std::mem::size_of::<V>(), n, "size", || V::NAME.into());
                // Every slice length.
                let long = r.rng.bytes(4 * n + 70);
                let huge = if self.cfg.config.starts_with("std") { gen::huge() } else { &[][..] };
                for l in (0..long.len()).chain([255, 256, 257, 1 << 16, (1 << 16) + n, 256 + n, 512 + n]).chain([(1u64 << 32) as usize, (1u64 << 32) as usize + n].into_iter().filter(|l| *l <= huge.len())) {
                    r.case("c11 from_slice", [n as u64, l as u64, 0, 0, 0, 0]);
                    let s: Vec<u8> = if l < 1 << 20 { long.iter().cycle().take(l).copied().collect() } else { Vec::new() };
                    let s = if l < 1 << 20 { &s[..] } else { &huge[..l] };
                    match quiet(|| V::from_sl(s)) {
                        Err(p) => r.viol("from_slice panic", || format!("{} from {} bytes: {}", V::NAME, l, p)),
                        Ok(Ok(v)) => r.check(l == n && v.to_arr().as_ref() == s, "from_slice", || format!("{} accepted {} bytes", V::NAME, l)),
                        Ok(Err(e)) => {
                            r.check(l != n, "from_slice", || format!("{} rejected {} bytes", V::NAME, l));
                            r.eq((e.got, e.expected), (l, n), "error fields", || format!("{} from {} bytes", V::NAME, l));
                            r.eq((e.invalid_length(), e.expected_length()), (l, n), "error accessors", || format!("{} from {} bytes", V::NAME, l));
                            let t = e.to_string();
                            let nums: Vec<usize> = t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect();
                            r.check(nums.contains(&l) && nums.contains(&n), "error text", || format!("{:?} does not name {} and {}", t, l, n));
                            r.check(e == chf::FromSliceError::new(l, n), "error new", || format!("{:?}", e));
                            r.check(e.clone() == e, "error clone", || format!("{:?}", e));
                        }
                    }
                    r.count("slice lengths judged", 1);
                    r.nontrivial(fp(&[111, n as u64, l as u64]));
                }
            }
            1 => { // every index expression, in and out of range
                let b: Vec<u8> = self.r.rng.bytes(n);
                let v = V::from_bytes(&b);
                let r = &mut *self.r;
                for i in 0..n + 3 {
                    r.case("c11 index", [n as u64, i as u64, 0, 0, 0, 0]);
                    let (g, w) = (quiet(|| v.idx(i)).ok(), b.get(i).copied());
                    r.eq(g, w, "index", || format!("{} [{}]", V::NAME, i));
                    let g = quiet(|| v.idx_from(i..).to_vec()).ok();
                    r.eq(g, b.get(i..).map(|x| x.to_vec()), "index", || format!("{} [{}..]", V::NAME, i));
                    let g = quiet(|| v.idx_to(..i).to_vec()).ok();
                    r.eq(g, b.get(..i).map(|x| x.to_vec()), "index", || format!("{} [..{}]", V::NAME, i));
                    let g = quiet(|| v.idx_to_incl(..=i).map(|x| x.to_vec()));
                    if g != Ok(None) { r.eq(g.ok().flatten(), b.get(..=i).map(|x| x.to_vec()), "index", || format!("{} [..={}]", V::NAME, i)) }
                    for j in 0..n + 3 {
                        let g = quiet(|| v.idx_range(i..j).to_vec()).ok();
                        r.eq(g, b.get(i..j).map(|x| x.to_vec()), "index", || format!("{} [{}..{}]", V::NAME, i, j));
                        if j < 4 || j + 4 > n {
                            let g = quiet(|| v.idx_incl(i..=j).map(|x| x.to_vec()));
                            if g != Ok(None) { r.eq(g.ok().flatten(), b.get(i..=j).map(|x| x.to_vec()), "index", || format!("{} [{}..={}]", V::NAME, i, j)) }
                        }
                    }
                    r.count("index expressions judged", (n + 7) as u64);
                    r.nontrivial(fp(&[112, n as u64, i as u64]));
                }
                r.eqb(v.idx_full(), &b, "index", || format!("{} [..]", V::NAME));
            }
            2 => { // differences in exactly one position, every position, several byte pairs
                for pos in 0..n {
                    for (p, q) in [(0u8, 1u8), (0x7f, 0x80), (0xff, 0), (0x10, 0x01), (0x80, 0xff), (5, 5)] {
                        let mut a = self.r.rng.bytes(n);
                        let mut b = a.clone();
                        a[pos] = p;
                        b[pos] = q;
                        self.pair::<V>(&a, &b);
                        // and an opposite difference later on
                        if pos + 1 < n { a[n - 1] = q.wrapping_add(1); b[n - 1] = p; self.pair::<V>(&a, &b) }
                    }
                }
            }
            _ => {
                for _ in 0..self.cfg.n(300, 1500) {
                    let a = value(&mut self.r.rng, n);
                    let b = if self.r.rng.one_in(3) { let mut b = a.clone(); let i = self.r.rng.usize(n); b[i] ^= 1 << self.r.rng.usize(8); b } else { value(&mut self.r.rng, n) };
                    self.pair::<V>(&a, &b);
                    self.single::<V>(&a);
                }
                // Sorting a batch of values is sorting their bytes; a set holds each byte string once.
                for _ in 0..self.cfg.n(5, 20) {
                    let mut bs: Vec<Vec<u8>> = (0..60).map(|_| value(&mut self.r.rng, n)).collect();
                    self.r.case("c11 sort", [n as u64, fp_bytes(&bs[0]), 0, 0, 0, 0]);
                    let mut vs: Vec<V> = bs.iter().map(|b| V::from_bytes(b)).collect();
                    vs.sort();
                    let set: std::collections::HashSet<V> = vs.iter().copied().collect();
                    bs.sort();
                    let same = vs.iter().zip(&bs).all(|(v, b)| v.to_arr().as_ref() == &b[..]);
                    self.r.check(same, "sort", || format!("{} sorts differently from its bytes", V::NAME));
                    bs.dedup();
                    self.r.eq(set.len(), bs.len(), "hash set", || V::NAME.into());
                    self.r.count("batches sorted", 1);
                }
            }
        }
    }
}

pub fn c11(cfg: &Cfg, out: Option<&str>) -> Total {
    let tasks = NVALS * (3 + cfg.n(6, 60));
    crate::rec::run(cfg, tasks, out, &|i, r| { let mut v = C11 { r, cfg, mode: i / NVALS }; visit_val(i % NVALS, &mut v) })
}

/// One case of C09 or C11 for the guided workloads.
#[allow(clippy::too_many_arguments)]
pub fn guided(r: &mut Rec, cfg: &Cfg, i: usize, a: &[u8], b: &[u8], s: &str, w: usize, p: usize) {
    struct G<'a>(&'a mut Rec, &'a Cfg, &'a [u8], &'a [u8], &'a str, usize, usize);
    impl<'a> ValVisitor for G<'a> {
        fn visit<V: Val>(&mut self) {
            let fit = |x: &[u8]| { let mut v = x.to_vec(); v.resize(V::N, 0); v };
            let (a, b) = (fit(self.2), fit(self.3));
            if self.1.prop == "c09" {
                let v = V::from_bytes(&a);
                let (w, p) = (self.5 % 5000, self.6 % 5000); // the formatter itself refuses 2^16 and more
                let mut c = C09 { r: self.0, cfg: self.1, mode: 0 };
                c.fmt(v, &a);
                c.text::<V>(self.4);
                // The text with one character replaced by what the case brings.
                let lo = lower(&a);
                if let Some(ch) = self.4.chars().next() { let at = w % (2 * V::N); c.text::<V>(&format!("{}{}{}", &lo[..at], ch, &lo[at + 1..])); c.text::<V>(&format!("{}{}{}", &lo[..at], self.4, lo.get(at + self.4.len()..).unwrap_or(""))) }
                let r = &mut *self.0;
                let k = p.min(2 * V::N);
                let cut = |x: &str| if k <= x.len() { x[..k].to_string() } else { x.to_string() };
                for (spec, got, want) in [("{:_>W.P}", format!("{:_>w$.p$}", v, w = w, p = p), cut(&lo)), ("{:_<W.Px}", format!("{:_<w$.p$x}", v, w = w, p = p), cut(&lo)), ("{:_^W.PX}", format!("{:_^w$.p$X}", v, w = w, p = p), cut(&upper(&a)))] {
                    let t = got.trim_matches('_');
                    r.check(t == want && got.len() == w.max(k), "width and precision", || format!("{} {} W={} P={} of {}: got {:?}", V::NAME, spec, w, p, lo, got));
                }
            } else {
                let mut c = C11 { r: self.0, cfg: self.1, mode: 0 };
                c.single::<V>(&a);
                c.pair::<V>(&a, &b);
                let s = self.2;
                let r = &mut *self.0;
                match V::from_sl(s) {
                    Ok(v) => r.check(s.len() == V::N && v.to_arr().as_ref() == s, "from_slice", || format!("{} from {}", V::NAME, hexs(s))),
                    Err(e) => { r.check(s.len() != V::N, "from_slice", || format!("{} rejected {}", V::NAME, hexs(s))); r.eq((e.got, e.expected), (s.len(), V::N), "error fields", || format!("{} from {} bytes", V::NAME, s.len())) }
                }
                let (x, y) = (self.5, self.6);
                let v = V::from_bytes(&a);
                r.eq(quiet(|| v.idx(x)).ok(), a.get(x).copied(), "index", || format!("{} [{}]", V::NAME, x));
                r.eq(quiet(|| v.idx_range(x..y).to_vec()).ok(), a.get(x..y).map(|z| z.to_vec()), "index", || format!("{} [{}..{}]", V::NAME, x, y));
                r.eq(quiet(|| v.idx_from(x..).to_vec()).ok(), a.get(x..).map(|z| z.to_vec()), "index", || format!("{} [{}..]", V::NAME, x));
                r.eq(quiet(|| v.idx_to(..x).to_vec()).ok(), a.get(..x).map(|z| z.to_vec()), "index", || format!("{} [..{}]", V::NAME, x));
            }
        }
    }
    visit_val(i % NVALS, &mut G(r, cfg, a, b, s, w, p))
}

// ---- C12 (what it returns) -----------------------------------------------------------------------

pub fn c12(cfg: &Cfg, out: Option<&str>) -> Total {
    use chf::cmp::fixed_time_eq;
    let sl = 16;
    if cfg.extra.iter().any(|x| x == "huge") { // more than 4 GiB, different at the end only
        return crate::rec::run(cfg, 2, out, &|i, r| {
            let z = gen::huge();
            if z.is_empty() { return }
            let mut b = vec![0u8; z.len()];
            let at = if i == 0 { z.len() - 1 } else { 1usize << 31 };
            b[at] = 4;
            r.case("c12 huge, difference at", [at as u64, 0, 0, 0, 0, 0]);
            r.check(!fixed_time_eq(z, &b), "verdict", || format!("{} bytes that differ at {} compared equal", z.len(), at));
            r.count("pairs of more than 4 GiB", 1);
            r.nontrivial(fp(&[123, at as u64]));
        });
    }
    crate::rec::run(cfg, sl + 2 + cfg.n(16, 200), out, &|i, r| {
        let one = |r: &mut Rec, a: &[u8], b: &[u8], how: u64| {
            r.case("c12 compare", [a.len() as u64, how, fp_bytes(a), fp_bytes(b), 0, 0]);
            let (p, o) = gen::place(a, (how % 13) as usize);
            let (q, s) = gen::place(b, (how / 13 % 11) as usize);
            r.eq(fixed_time_eq(&p[o..], &q[s..]), a == b, "verdict", || format!("{} vs {}", hexs(a), hexs(b)));
            r.count(if a == b { "equal pairs" } else { "unequal pairs" }, 1);
            r.nontrivial(fp(&[12, fp_bytes(a), fp_bytes(b)]));
        };
        if i < sl { // every length; every single-bit difference
            for n in (0..cfg.n(300, 700)).filter(|x| x % sl == i) {
                let k = r.rng.usize(gen::KINDS);
                let a = gen::content(&mut r.rng, k, n);
                one(r, &a, &a, n as u64);
                let mut b = a.clone();
                for pos in 0..n {
                    for bit in 0..8 { b[pos] ^= 1 << bit; one(r, &a, &b, (pos * 8 + bit) as u64); b[pos] = a[pos] }
                }
                // several differences that cancel under xor, add or average
                if n >= 2 {
                    for _ in 0..30 {
                        let (x, y) = (r.rng.usize(n), r.rng.usize(n));
                        let d = r.rng.u64() as u8;
                        b[x] ^= d;
                        b[y] ^= d;
                        one(r, &a, &b, 7);
                        b.copy_from_slice(&a);
                        b[x] = b[x].wrapping_add(d);
                        b[y] = b[y].wrapping_sub(d);
                        one(r, &a, &b, 8);
                        b.copy_from_slice(&a);
                        b.swap(x, y);
                        one(r, &a, &b, 9);
                        b.copy_from_slice(&a);
                    }
                }
                r.count("lengths visited exhaustively", 1);
            }
        } else if i == sl { // every pair of bytes, alone and inside 3 bytes
            for x in 0..=255u8 { for y in 0..=255u8 {
                one(r, &[x], &[y], 0);
                one(r, &[7, x, 9], &[7, y, 9], 3);
            } }
            // differences in all positions at once
            for n in 1..200 { let a = r.rng.bytes(n); for d in [1u8, 2, 0x10, 0x80, 0xff] { let b: Vec<u8> = a.iter().map(|z| z ^ d).collect(); one(r, &a, &b, 5) } }
        } else if i == sl + 1 { // unequal lengths must panic
            for n in 0..70usize { for m in 0..70usize {
                if n == m { continue }
                r.case("c12 unequal lengths", [n as u64, m as u64, 0, 0, 0, 0]);
                let a = vec![0u8; n];
                let b = vec![0u8; m];
                let got = quiet(|| fixed_time_eq(&a, &b));
                r.check(got.is_err(), "unequal lengths", || format!("lengths {} and {} gave an answer {:?}", n, m, got.ok()));
                r.count("unequal length pairs", 1);
                r.nontrivial(fp(&[121, n as u64, m as u64]));
            } }
            for (n, m) in [(0usize, 256usize), (256, 0), (1, 257), (300, 44), (65536, 0), (0, 65536), (65537, 1), (100_000, 34_464)] {
                r.case("c12 unequal lengths", [n as u64, m as u64, 0, 0, 0, 0]);
                let (a, b) = (vec![0u8; n], vec![0u8; m]);
                let got = quiet(|| fixed_time_eq(&a, &b));
                r.check(got.is_err(), "unequal lengths", || format!("lengths {} and {} gave an answer {:?}", n, m, got.ok()));
                let v = vec![0u8; n.max(m)];
                let got = quiet(|| fixed_time_eq(&v[..n], &v[..m]));
                r.check(got.is_err(), "unequal lengths", || format!("views of {} and {} bytes of one buffer gave an answer {:?}", n, m, got.ok()));
            }
            // Lengths that agree in their low 32 bits.
            let z = gen::huge();
            if z.len() as u64 > 1 << 32 {
                for n in [0usize, 1, 33] {
                    r.case("c12 unequal lengths", [n as u64, 1 << 32, 0, 0, 0, 0]);
                    for (a, b) in [(&z[..n], &z[..(1u64 << 32) as usize + n]), (&z[..(1u64 << 32) as usize + n], &z[..n])] {
                        let got = quiet(|| fixed_time_eq(a, b));
                        r.check(got.is_err(), "unequal lengths", || format!("lengths {} and {} gave an answer {:?}", a.len(), b.len(), got.ok()));
                        r.count("unequal length pairs", 1);
                    }
                }
            }
            // Views of one buffer: the same, overlapping, and of different lengths.
            for _ in 0..400 {
                let n = 1 + r.rng.usize(200);
                let v: Vec<u8> = if r.rng.one_in(2) { vec![r.rng.u64() as u8; n] } else { r.rng.bytes(n) };
                let (x, y) = (r.rng.usize(n), r.rng.usize(n));
                let l = r.rng.usize(n - x.max(y) + 1);
                r.case("c12 views", [n as u64, x as u64, y as u64, l as u64, 0, 0]);
                r.eq(fixed_time_eq(&v[x..x + l], &v[y..y + l]), v[x..x + l] == v[y..y + l], "verdict", || format!("{}.. and {}.., {} bytes of {}", x, y, l, hexs(&v)));
                r.eq(fixed_time_eq(&v[x..], &v[x..]), true, "verdict", || format!("one slice with itself, {}", hexs(&v[x..])));
                if x != y {
                    let got = quiet(|| fixed_time_eq(&v[x..], &v[y..]));
                    r.check(got.is_err(), "unequal lengths", || format!("suffixes of {} and {} bytes gave an answer {:?}", n - x, n - y, got.ok()));
                    let got = quiet(|| fixed_time_eq(&v[..x], &v[..y]));
                    r.check(got.is_err(), "unequal lengths", || format!("prefixes of {} and {} bytes gave an answer {:?}", x, y, got.ok()));
                }
                r.count("views of one buffer compared", 1);
                r.nontrivial(fp(&[122, x as u64, y as u64, fp_bytes(&v)]));
            }
        } else {
            for _ in 0..cfg.n(150, 400) {
                let n = gen::length(&mut r.rng, 64, 70_000);
                let a = gen::message(&mut r.rng, n);
                one(r, &a, &a, n as u64);
                if n > 0 {
                    let mut b = a.clone();
                    let p = match r.rng.usize(4) { 0 => 0, 1 => n - 1, _ => r.rng.usize(n) };
                    b[p] ^= 1 << r.rng.usize(8);
                    one(r, &a, &b, n as u64 + 1);
                    let b = gen::message(&mut r.rng, n);
                    one(r, &a, &b, n as u64 + 2);
                }
            }
        }
    })
}
