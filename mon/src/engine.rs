//! A coverage- and comparison-guided workload engine.
//!
//! The code under test is compiled with SanitizerCoverage. This module receives what it reports:
//! which edges ran, and what was compared with what. A case is a list of numbers (lengths, keys,
//! choices) and a list of byte strings. Cases that reach new edges or come closer to satisfying a
//! comparison are kept and varied; for every comparison seen, the engine also tries to change the
//! case so that the two sides meet, which finds lengths and contents the code treats specially.
//! This module itself must not be compiled with SanitizerCoverage.

use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

use crate::rng::Rng;

// ---- what the instrumented code calls -----------------------------------------------------------

const VP: usize = 1 << 16;
const LOGCAP: usize = 20_000;
static mut COUNTERS: [(usize, usize); 16] = [(0, 0); 16];
static mut NCOUNTERS: usize = 0;
static mut SEEN: [u8; VP] = [0; VP];
static mut SOLVED: [bool; VP] = [false; VP];
static mut NEWLY: bool = false;
static mut LOG: Vec<Pair> = Vec::new();
static mut MEM: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
static mut READ: Vec<(usize, Vec<u8>)> = Vec::new();
static LOGGING: AtomicBool = AtomicBool::new(false);
static ACTIVE: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Copy)]
pub struct Pair { site: usize, a: u64, b: u64, size: u8, konst: bool }

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, end: *mut u8) {
    unsafe {
        let n = NCOUNTERS;
        for i in 0..n { if COUNTERS[i].0 == start as usize { return } }
        if n < 16 && (start as usize) < end as usize { COUNTERS[n] = (start as usize, end as usize); NCOUNTERS = n + 1 }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_indir(_: usize) {}

#[no_mangle]
#[allow(static_mut_refs)]
unsafe extern "C" fn guided_cmp(a: u64, b: u64, site: usize, size: u64) {
    if !ACTIVE.load(Ordering::Relaxed) { return }
    // How close the two sides are, per place in the code.
    let d = 64 - (a ^ b).leading_zeros() as usize;
    SEEN[(site.wrapping_mul(0x9e3779b1) ^ d.wrapping_mul(0x85eb)) & (VP - 1)] = 1;
    if a == b && !SOLVED[(site.wrapping_mul(0x9e3779b1) >> 3) & (VP - 1)] { SOLVED[(site.wrapping_mul(0x9e3779b1) >> 3) & (VP - 1)] = true; NEWLY = true }
    if LOGGING.load(Ordering::Relaxed) && LOG.len() < LOGCAP {
        let (konst, size) = (size >= 16, (size & 15) as u8);
        LOG.push(Pair { site, a, b, size, konst })
    }
}

/// switch: [number of cases, bits of the value, case, case, ...]
#[no_mangle]
unsafe extern "C" fn guided_switch(v: u64, cases: *const u64, site: usize) {
    if !LOGGING.load(Ordering::Relaxed) { return }
    let n = *cases as usize;
    for i in 0..n.min(64) { guided_cmp(*cases.add(2 + i), v, site.wrapping_add(i), 16 + (*cases.add(1) / 8).clamp(1, 8)) }
}

// The place of a comparison is the return address, so these begin in assembly.
std::arch::global_asm!(
    ".macro cmphook name, ext1, ext2, size",
    ".globl \\name",
    ".type \\name, @function",
    "\\name:",
    "\\ext1",
    "\\ext2",
    "mov rdx, [rsp]",
    "mov ecx, \\size",
    "jmp guided_cmp",
    ".endm",
    "cmphook __sanitizer_cov_trace_cmp1, \"movzx edi, dil\", \"movzx esi, sil\", 1",
    "cmphook __sanitizer_cov_trace_cmp2, \"movzx edi, di\", \"movzx esi, si\", 2",
    "cmphook __sanitizer_cov_trace_cmp4, \"mov edi, edi\", \"mov esi, esi\", 4",
    "cmphook __sanitizer_cov_trace_cmp8, \"nop\", \"nop\", 8",
    "cmphook __sanitizer_cov_trace_const_cmp1, \"movzx edi, dil\", \"movzx esi, sil\", 17",
    "cmphook __sanitizer_cov_trace_const_cmp2, \"movzx edi, di\", \"movzx esi, si\", 18",
    "cmphook __sanitizer_cov_trace_const_cmp4, \"mov edi, edi\", \"mov esi, esi\", 20",
    "cmphook __sanitizer_cov_trace_const_cmp8, \"nop\", \"nop\", 24",
    ".globl __sanitizer_cov_trace_switch",
    ".type __sanitizer_cov_trace_switch, @function",
    "__sanitizer_cov_trace_switch:",
    "mov rdx, [rsp]",
    "jmp guided_switch",
);

#[allow(static_mut_refs)]
unsafe fn mem_log(a: *const u8, b: *const u8, n: usize) {
    if !LOGGING.load(Ordering::Relaxed) || n == 0 || n > 64 || MEM.len() > 4000 { return }
    LOGGING.store(false, Ordering::Relaxed); // the vectors below must not be logged
    MEM.push((std::slice::from_raw_parts(a, n).to_vec(), std::slice::from_raw_parts(b, n).to_vec()));
    LOGGING.store(true, Ordering::Relaxed);
}
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    mem_log(a, b, n);
    let mut i = 0;
    while i + 8 <= n && (a.add(i) as *const u64).read_unaligned() == (b.add(i) as *const u64).read_unaligned() { i += 8 }
    while i < n {
        let (x, y) = (std::ptr::read_volatile(a.add(i)), *b.add(i));
        if x != y { return x as i32 - y as i32 }
        i += 1;
    }
    0
}
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 { memcmp(a, b, n) }

// ---- cases ----------------------------------------------------------------------------------------

#[derive(Clone, Default, PartialEq)]
pub struct Case { pub nums: Vec<u64>, pub blobs: Vec<Vec<u8>> }

impl Case {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for n in &self.nums { s += &format!("n {}\n", n) }
        for b in &self.blobs { s += &format!("b {}\n", crate::gen::hex(b)) }
        s
    }
    pub fn parse(t: &str) -> Case {
        let mut c = Case::default();
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("n ") { c.nums.push(x.parse().expect("number")) }
            if let Some(x) = l.strip_prefix("b ") { c.blobs.push((0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).expect("hex")).collect()) }
        }
        c
    }
}

/// Reads a case in order; zeros and empty strings when it is used up.
pub struct Reader<'a> { c: &'a Case, ni: usize, bi: usize, room: usize }
impl<'a> Reader<'a> {
    pub fn new(c: &'a Case) -> Reader<'a> { Reader { c, ni: 0, bi: 0, room: 1 << 18 } }
    pub fn limit(&mut self, n: usize) { self.room = self.room.min(n) }
    pub fn done(&self) -> bool { self.ni >= self.c.nums.len() }
    pub fn n(&mut self) -> u64 { let x = self.c.nums.get(self.ni).copied().unwrap_or(0); self.ni += 1; x }
    pub fn blob(&mut self) -> &'a [u8] { let x = self.c.blobs.get(self.bi).map_or(&[][..], |b| &b[..]); self.bi += 1; x }
    /// Text: as it comes, or hex digits with something written over them.
    pub fn text(&mut self) -> String {
        let f = self.n();
        let b = self.data();
        let h = crate::gen::hex(&b);
        match f % 8 {
            0 => String::from_utf8_lossy(&b).into_owned(),
            1 => h,
            2 => h.to_ascii_uppercase(),
            3 => format!("{}{}", h, String::from_utf8_lossy(self.blob())),
            4 => format!("{}{}", String::from_utf8_lossy(self.blob()), h),
            _ => { let at = self.n() as usize % (h.len() + 1); let o = String::from_utf8_lossy(self.blob()).into_owned(); format!("{}{}{}", &h[..at], o, h.get(at + o.len()..).unwrap_or("")) }
        }
    }
    /// A byte string: a length and contents stretched or cut to it.
    pub fn data(&mut self) -> Vec<u8> {
        let (n, f) = (self.n(), self.n());
        let b = self.blob();
        let n = if n == u64::MAX { b.len() } else if n <= 1 << 17 { n as usize } else { n as usize & 0x3ff }.min(self.room);
        self.room -= n;
        let mut v = Vec::with_capacity(n + 8);
        v.extend_from_slice(&b[..b.len().min(n)]);
        let mut x = f;
        while v.len() < n {
            match f % 4 { 0 => { let k = n - v.len(); v.extend(std::iter::repeat((f >> 2) as u8).take(k)) } 1 if !b.is_empty() => { let k = b.len().min(n - v.len()); v.extend_from_slice(&b[..k]) } _ => v.extend(crate::rng::splitmix(&mut x).to_le_bytes()) }
        }
        v.truncate(n);
        if LOGGING.load(Ordering::Relaxed) {
            LOGGING.store(false, Ordering::Relaxed);
            #[allow(static_mut_refs)]
            unsafe { READ.push((self.bi - 1, v.clone())) }
            LOGGING.store(true, Ordering::Relaxed);
        }
        v
    }
}

// ---- the search -----------------------------------------------------------------------------------

struct Entry { c: Case, micros: u32, tried: bool, met: bool }

#[derive(Default, Clone)]
pub struct Stats { pub execs: u64, pub edges: usize, pub features: usize, pub corpus: usize, pub pairs: u64, pub met: u64 }

pub struct Engine<'a> {
    rng: Rng,
    run: &'a mut dyn FnMut(&Case) -> bool,
    corpus: Vec<Entry>,
    virgin: Vec<u8>,
    vp: Vec<u8>,
    tries: HashMap<(usize, u64), u32>,
    hints: Vec<u64>,
    hintset: HashSet<u64>,
    words: Vec<Vec<u8>>,
    end: Instant,
    stop: bool,
    pace: u32,
    fresh: Vec<usize>,
    pub stats: Stats,
}

const NICE: &[u64] = &[0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40, 47, 48, 55, 56, 57, 63, 64, 65, 79, 80, 100, 111, 112, 113, 119, 120, 127, 128, 129, 191, 192, 239, 240, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 65535, 65536, u64::MAX];

impl<'a> Engine<'a> {
    /// `run` judges a case and says whether to stop.
    pub fn new(seed: u64, secs: u64, run: &'a mut dyn FnMut(&Case) -> bool) -> Engine<'a> {
        let n = unsafe { (0..NCOUNTERS).map(|i| COUNTERS[i].1 - COUNTERS[i].0).sum() };
        Engine { rng: Rng::new(seed, 77), run, corpus: Vec::new(), virgin: vec![0; n], vp: vec![0; VP], tries: HashMap::new(), hints: Vec::new(), hintset: HashSet::new(), words: Vec::new(), end: Instant::now() + Duration::from_secs(secs), stop: false, pace: 0, fresh: Vec::new(), stats: Stats::default() }
    }

    /// Runs a case; true when it showed something new.
    #[allow(static_mut_refs)]
    fn exec(&mut self, c: &Case, log: bool) -> (bool, u32) {
        unsafe {
            for i in 0..NCOUNTERS { std::ptr::write_bytes(COUNTERS[i].0 as *mut u8, 0, COUNTERS[i].1 - COUNTERS[i].0) }
            NEWLY = false;
            if log { LOG.clear(); MEM.clear(); READ.clear(); LOG.reserve(LOGCAP + 1) }
        }
        let t = Instant::now();
        ACTIVE.store(true, Ordering::SeqCst);
        LOGGING.store(log, Ordering::SeqCst);
        let stop = (self.run)(c);
        LOGGING.store(false, Ordering::SeqCst);
        ACTIVE.store(false, Ordering::SeqCst);
        let micros = t.elapsed().as_micros() as u32;
        self.stop |= stop;
        self.stats.execs += 1;
        let mut new = false;
        unsafe {
            let mut at = 0;
            for i in 0..NCOUNTERS {
                for p in COUNTERS[i].0..COUNTERS[i].1 {
                    let x = *(p as *const u8);
                    if x != 0 {
                        let bit = match x { 1 => 1u8, 2 => 2, 3 => 4, 4..=7 => 8, 8..=15 => 16, 16..=31 => 32, 32..=127 => 64, _ => 128 };
                        let v = &mut self.virgin[at];
                        if *v & bit == 0 { if *v == 0 { self.stats.edges += 1 } *v |= bit; new = true }
                    }
                    at += 1;
                }
            }
            for (k, w) in SEEN.chunks_exact_mut(8).enumerate() {
                if w == [0; 8] { continue }
                for (j, x) in w.iter_mut().enumerate() { if *x != 0 { *x = 0; let v = &mut self.vp[k * 8 + j]; if *v == 0 { *v = 1; self.stats.features += 1; new = true } } }
            }
        }
        (new, micros)
    }

    fn offer(&mut self, c: Case) -> bool {
        if self.stop || Instant::now() > self.end { self.stop = true; return false }
        let (new, micros) = self.exec(&c, false);
        // slow cases are followed up less often
        self.pace = (self.pace * 15 + micros.min(20_000)) / 16;
        let slow = micros > 400 && micros > self.pace * 3;
        if new && self.corpus.len() < 20_000 { let met = unsafe { NEWLY }; let tried = slow && !met && !self.rng.one_in(6); if met { self.fresh.push(self.corpus.len()) } self.corpus.push(Entry { c, micros, tried, met }); }
        new
    }

    fn num(&mut self) -> u64 {
        let r = &mut self.rng;
        match r.usize(9) {
            0..=2 => *r.pick(NICE), 3 | 4 => r.below(256), 5 => r.below(4096), 6 => { let b = r.usize(64); r.u64() >> b }
            _ => if self.hints.is_empty() { r.below(64) } else { let h = *r.pick(&self.hints); match r.usize(5) { 0 => h.wrapping_add(1), 1 => h.wrapping_sub(1), _ => h } }
        }
    }
    fn blob(&mut self) -> Vec<u8> { let n = match self.rng.usize(4) { 0 => self.rng.usize(9), 1 => self.rng.usize(70), _ => self.rng.usize(200) }; crate::gen::message(&mut self.rng, n) }

    fn mutate(&mut self, c: &mut Case) {
        for _ in 0..1 + self.rng.usize(4) {
            let (nn, nb) = (c.nums.len(), c.blobs.len());
            match self.rng.usize(14) {
                0..=2 if nn > 0 => { let i = self.rng.usize(nn); c.nums[i] = self.num() }
                3 if nn > 0 => { let i = self.rng.usize(nn); c.nums[i] = if self.rng.one_in(2) { c.nums[i].wrapping_add(1 + self.rng.below(4)) } else { c.nums[i].wrapping_sub(1 + self.rng.below(4)) } }
                4 if nn > 0 => { let i = self.rng.usize(nn); let b = self.rng.usize(64); c.nums[i] ^= 1 << b }
                5 if nn < 60 => { let i = self.rng.usize(nn + 1); for _ in 0..1 + self.rng.usize(4) { let x = self.num(); c.nums.insert(i, x) } }
                6 if nn > 1 => { let i = self.rng.usize(nn); c.nums.remove(i); }
                7 if nn > 0 && nn < 60 => { let i = self.rng.usize(nn); let j = i + 1 + self.rng.usize(6.min(nn - i)); let v: Vec<u64> = c.nums[i..j.min(nn)].to_vec(); for (k, x) in v.into_iter().enumerate() { c.nums.insert(i + k, x) } }
                8 | 9 if nb > 0 => {
                    let i = self.rng.usize(nb);
                    let l = c.blobs[i].len();
                    if l == 0 { c.blobs[i] = self.blob(); continue }
                    let p = self.rng.usize(l);
                    match self.rng.usize(6) {
                        0 => { let b = self.rng.usize(8); c.blobs[i][p] ^= 1 << b }
                        1 => c.blobs[i][p] = self.rng.u64() as u8,
                        2 => c.blobs[i][p] = *self.rng.pick(&[0, 1, 0x7f, 0x80, 0xff, b'0', b'a', b'F', b'x', b' ']),
                        3 => { let n = 1 + self.rng.usize(l - p); c.blobs[i].drain(p..p + n); }
                        4 => if !self.hints.is_empty() { let h = *self.rng.pick(&self.hints); let w = *self.rng.pick(&[1usize, 2, 4, 8]); let b = if self.rng.one_in(2) { h.to_le_bytes()[..w].to_vec() } else { h.to_be_bytes()[8 - w..].to_vec() }; for (k, x) in b.into_iter().enumerate() { if p + k < l { c.blobs[i][p + k] = x } } },
                        _ => if !self.words.is_empty() { let w = self.rng.pick(&self.words).clone(); for (k, x) in w.into_iter().enumerate() { if p + k < l { c.blobs[i][p + k] = x } } },
                    }
                }
                10 if nb < 12 => { let i = self.rng.usize(nb + 1); let b = self.blob(); c.blobs.insert(i, b) }
                11 if nb > 0 => { let i = self.rng.usize(nb); c.blobs[i] = self.blob() }
                12 if !self.words.is_empty() => { let w = self.rng.pick(&self.words).clone(); if nb > 0 { c.blobs[0] = w } else { c.blobs.push(w) } }
                _ => if !self.corpus.is_empty() { // cross with another case
                    let k = self.rng.usize(self.corpus.len());
                    let o = self.corpus[k].c.clone();
                    let (i, j) = (self.rng.usize(nn + 1), self.rng.usize(o.nums.len() + 1));
                    c.nums.truncate(i);
                    c.nums.extend_from_slice(&o.nums[j..]);
                    c.nums.truncate(60);
                    if self.rng.one_in(2) { c.blobs = o.blobs }
                },
            }
        }
    }

    /// What was compared where while the case ran, in order.
    #[allow(static_mut_refs)]
    fn compared(&mut self, c: &Case) -> (HashMap<usize, Vec<Pair>>, Vec<(Vec<u8>, Vec<u8>)>) {
        let (_, _) = self.exec(c, true);
        let (log, mem) = unsafe { (std::mem::take(&mut LOG), std::mem::take(&mut MEM)) };
        let mut m: HashMap<usize, Vec<Pair>> = HashMap::new();
        for p in log { let v = m.entry(p.site).or_default(); if v.len() < 200 { v.push(p) } }
        (m, mem)
    }

    /// For every comparison this case leads to, try to make both sides equal. Which number of the
    /// case feeds which comparison is found by changing one number at a time.
    fn meet(&mut self, c: &Case, met: bool) {
        let (base, mem) = self.compared(c);
        // the same case with every byte string written out in full, so that all bytes can be replaced
        let mut full = c.clone();
        #[allow(static_mut_refs)]
        for (i, v) in unsafe { std::mem::take(&mut READ) } {
            if i < 40 && v.len() <= 5000 { while full.blobs.len() <= i { full.blobs.push(Vec::new()) } if v.len() >= full.blobs[i].len() { full.blobs[i] = v } }
        }
        let full = &full;
        let mut sites: Vec<usize> = base.keys().copied().collect();
        sites.sort_by_key(|s| (!base[s][0].konst, *s));
        struct Want { site: usize, k: usize, have: u64, want: u64, left: bool, size: u8, konst: bool }
        let mut wants: Vec<Want> = Vec::new();
        for s in sites {
            let mut seen = HashSet::new();
            let mut mine = Vec::new();
            for (k, p) in base[&s].iter().enumerate() {
                if p.a == p.b || !seen.insert((p.a, p.b)) { continue }
                // a constant comes first
                if !p.konst { mine.push(Want { site: s, k, have: p.a, want: p.b, left: true, size: p.size, konst: false }) }
                mine.push(Want { site: s, k, have: p.b, want: p.a, left: false, size: p.size, konst: p.konst });
            }
            let n = mine.len();
            for (j, w) in mine.into_iter().enumerate() {
                if j >= 6 && !(self.rng.usize(n) < 4) { continue }
                if w.konst && self.hints.len() < 3000 && self.hintset.insert(w.want) { self.hints.push(w.want) }
                let t = self.tries.entry((w.site, w.want)).or_insert(0);
                if j == 0 || !w.konst { *t += 1 }
                let t = *t;
                let limit = match (w.konst, met) { (true, true) => 400, (true, false) => 40, (false, true) => 8, _ => 4 };
                if t > limit && !(w.konst && self.rng.below(t as u64) < 20) { continue }
                wants.push(w);
            }
        }
        if wants.is_empty() { return }
        self.stats.pairs += wants.len() as u64;
        for i in 0..c.nums.len() {
            if self.stop || Instant::now() > self.end { return }
            let v = c.nums[i];
            let mut d = c.clone();
            d.nums[i] = v.wrapping_add(1);
            let (moved, _) = self.compared(&d);
            if self.stop { return }
            let mut cands: Vec<u64> = Vec::new();
            for w in &wants {
                let q = moved.get(&w.site).and_then(|x| x.get(w.k));
                let now = match q { Some(q) => if w.left { q.a } else { q.b }, None => w.have };
                let (delta, slope) = (w.want.wrapping_sub(w.have), now.wrapping_sub(w.have));
                let wide = |x: u64| if w.size == 4 { x as u32 as i32 as i64 } else if w.size == 8 { x as i64 } else { x as u16 as i16 as i64 };
                let (delta, slope) = (wide(delta), wide(slope));
                if slope != 0 {
                    if delta % slope == 0 { let x = v.wrapping_add((delta / slope) as u64); cands.extend([x, x.wrapping_add(1), x.wrapping_sub(1)]) }
                    else { cands.push(v.wrapping_add((delta / slope) as u64)) }
                    cands.push(v ^ w.have ^ w.want);
                    if v == w.have { cands.push(w.want) }
                } else if v == w.have && w.size >= 4 { cands.push(w.want) }
            }
            cands.sort();
            cands.dedup();
            while cands.len() > 150 { let k = self.rng.usize(cands.len()); cands.swap_remove(k); }
            for x in cands { if x == v { continue } let mut n = c.clone(); n.nums[i] = x; if self.offer(n) { self.stats.met += 1 } if self.stop { return } }
        }
        let mut done = HashSet::new();
        let before = self.stats.execs;
        for w in &wants {
            if self.stop || self.stats.execs - before > 1500 { break }
            if !done.insert((w.have, w.want, w.size)) { continue }
            let n = w.size as usize;
            for (le, h, g) in [(true, w.have.to_le_bytes(), w.want.to_le_bytes()), (false, w.have.to_be_bytes(), w.want.to_be_bytes())] {
                let (h, g) = if le { (&h[..n], &g[..n]) } else { (&h[8 - n..], &g[8 - n..]) };
                if !le && n == 1 { continue }
                self.replace(full, h, g);
                // bytes compared as wider numbers
                if n > 1 && w.have < 256 && w.want < 256 && le { self.replace(full, &h[..1], &g[..1]) }
            }
        }
        let mut seen = HashSet::new();
        for (a, b) in mem {
            if !seen.insert((a.clone(), b.clone())) || seen.len() > 60 { continue }
            for (x, y) in [(&a, &b), (&b, &a)] {
                if self.words.len() < 500 && !self.words.contains(y) { self.words.push(y.clone()) }
                if x == y { continue }
                self.replace(full, x, y);
                // text that was made from bytes
                let bytes = |t: &[u8]| -> Option<Vec<u8>> { if t.len() % 2 == 1 { return None } t.chunks(2).map(|p| std::str::from_utf8(p).ok().filter(|s| s.bytes().all(|b| b.is_ascii_hexdigit())).and_then(|s| u8::from_str_radix(s, 16).ok())).collect() };
                if let (Some(x), Some(y)) = (bytes(x), bytes(y)) { self.replace(full, &x, &y) }
            }
        }
    }

    /// Replaces occurrences of `have` in the byte strings.
    fn replace(&mut self, c: &Case, have: &[u8], want: &[u8]) {
        let n = have.len();
        let mut left = 12;
        for i in 0..c.blobs.len() {
            let l = c.blobs[i].len();
            if l < n { continue }
            for p in 0..=l - n {
                if &c.blobs[i][p..p + n] != have { continue }
                if left == 0 || self.stop { return }
                left -= 1;
                let mut x = c.clone();
                x.blobs[i][p..p + n].copy_from_slice(want);
                if self.offer(x) { self.stats.met += 1 }
            }
        }
    }

    pub fn search(&mut self) -> Stats {
        for k in 0..400u64 {
            let (nn, nb) = (3 + self.rng.usize(16), self.rng.usize(6));
            let mut c = Case { nums: (0..nn).map(|_| self.num()).collect(), blobs: (0..nb).map(|_| self.blob()).collect() };
            c.nums[0] = k;
            let (_, micros) = self.exec(&c, false);
            if k < 60 || micros < 2000 { self.corpus.push(Entry { c, micros, tried: k >= 60 && k % 4 != 0, met: false }) }
            if self.stop { break }
        }
        while !self.stop && Instant::now() < self.end {
            // Newest untried case first, else a quick one.
            let start = if self.rng.one_in(2) { 0 } else { self.rng.usize(self.corpus.len()) };
            let fresh = if self.rng.one_in(4) { None } else { self.fresh.pop() };
            if let Some(k) = fresh.or_else(|| (0..self.corpus.len() - start).rev().take(400).find(|k| !self.corpus[*k].tried)).or_else(|| (0..self.corpus.len()).find(|k| !self.corpus[*k].tried)).filter(|_| fresh.is_some() || !self.rng.one_in(3)) {
                self.corpus[k].tried = true;
                let c = self.corpus[k].c.clone();
                let met = self.corpus[k].met;
                self.meet(&c, met);
            } else {
                for _ in 0..40 {
                    let n = self.corpus.len();
                    let (a, b) = (self.rng.usize(n), if self.rng.one_in(2) { n - 1 - self.rng.usize(n.min(50)) } else { self.rng.usize(n) });
                    let k = if self.corpus[a].micros < self.corpus[b].micros { a } else { b };
                    let mut c = self.corpus[k].c.clone();
                    self.mutate(&mut c);
                    self.offer(c);
                    if self.stop { break }
                }
            }
        }
        self.stats.corpus = self.corpus.len();
        self.stats.clone()
    }
}
