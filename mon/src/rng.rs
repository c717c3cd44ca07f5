//! Deterministic PRNG (xoshiro256**), so that every run is replayable from VERIF_SEED.

#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut s = seed ^ 0x5bd1e995u64.wrapping_mul(stream.wrapping_add(0x1234567));
        let mut a = [0u64; 4];
        for w in a.iter_mut() { *w = splitmix(&mut s) ^ splitmix(&mut s).rotate_left(17) }
        a[0] |= 1;
        Rng(a)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.usize(hi - lo + 1) }
    pub fn one_in(&mut self, n: u64) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.usize(v.len())] }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let r = self.u64().to_le_bytes();
            c.copy_from_slice(&r[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { let mut v = vec![0; n]; self.fill(&mut v); v }
    pub fn array<const N: usize>(&mut self) -> [u8; N] { let mut v = [0; N]; self.fill(&mut v); v }
}

/// 64-bit FNV-style fingerprint used to count distinct cases.
pub fn fp(parts: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts { let mut x = h ^ *p; h = splitmix(&mut x); }
    h
}
pub fn fp_bytes(b: &[u8]) -> u64 {
    let mut h = 0x9e3779b97f4a7c15u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        let mut x = h ^ u64::from_le_bytes(w);
        h = splitmix(&mut x);
    }
    h
}
