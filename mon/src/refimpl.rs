//! Executable reference model: textbook SHA-1, SHA-2, RIPEMD-160, SipHash-2-4 and RFC 2104 HMAC.
//!
//! Written from the standards, one round per line of the standard, with constants derived by
//! tools/gen_consts.py. Shares no code with the crate under test. Lengths are 128-bit.

use crate::consts::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Alg { Sha1, Sha256, Sha384, Sha512, Sha512_256, Ripemd160 }

pub const ALGS: [Alg; 6] = [Alg::Sha1, Alg::Sha256, Alg::Sha384, Alg::Sha512, Alg::Sha512_256, Alg::Ripemd160];

impl Alg {
    pub fn name(self) -> &'static str {
        match self {
            Alg::Sha1 => "sha1", Alg::Sha256 => "sha256", Alg::Sha384 => "sha384",
            Alg::Sha512 => "sha512", Alg::Sha512_256 => "sha512_256", Alg::Ripemd160 => "ripemd160",
        }
    }
    pub fn block(self) -> usize {
        match self { Alg::Sha384 | Alg::Sha512 | Alg::Sha512_256 => 128, _ => 64 }
    }
    pub fn len(self) -> usize {
        match self {
            Alg::Sha1 | Alg::Ripemd160 => 20, Alg::Sha256 | Alg::Sha512_256 => 32,
            Alg::Sha384 => 48, Alg::Sha512 => 64,
        }
    }
}

/// Chaining value: 32-bit words are kept in the low half.
#[derive(Clone)]
pub struct Md { pub alg: Alg, h: [u64; 8], buf: Vec<u8>, pub total: u128 }

fn be32(b: &[u8]) -> u32 { (b[0] as u32) << 24 | (b[1] as u32) << 16 | (b[2] as u32) << 8 | b[3] as u32 }
fn le32(b: &[u8]) -> u32 { (b[3] as u32) << 24 | (b[2] as u32) << 16 | (b[1] as u32) << 8 | b[0] as u32 }

impl Md {
    pub fn new(alg: Alg) -> Md {
        let mut h = [0u64; 8];
        let iv1: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
        match alg {
            Alg::Sha1 | Alg::Ripemd160 => for i in 0..5 { h[i] = iv1[i] as u64 },
            Alg::Sha256 => for i in 0..8 { h[i] = IV256[i] as u64 },
            Alg::Sha384 => h = IV384,
            Alg::Sha512 => h = IV512,
            Alg::Sha512_256 => h = IV512_256,
        }
        Md { alg, h, buf: Vec::with_capacity(128), total: 0 }
    }

    fn words(&self) -> (usize, bool, bool) {
        // (number of words, 64-bit?, little-endian?)
        match self.alg {
            Alg::Sha1 => (5, false, false), Alg::Ripemd160 => (5, false, true),
            Alg::Sha256 => (8, false, false), _ => (8, true, false),
        }
    }

    /// Chaining value in the byte order the standard uses for its output.
    pub fn chain(&self) -> Vec<u8> {
        let (n, wide, le) = self.words();
        let mut out = Vec::new();
        for i in 0..n {
            if wide { out.extend_from_slice(&self.h[i].to_be_bytes()) }
            else if le { out.extend_from_slice(&(self.h[i] as u32).to_le_bytes()) }
            else { out.extend_from_slice(&(self.h[i] as u32).to_be_bytes()) }
        }
        out
    }

    /// Engine with an arbitrary chaining value and byte count (count must be a block multiple).
    pub fn from_chain(alg: Alg, chain: &[u8], total: u128) -> Md {
        let mut m = Md::new(alg);
        let (n, wide, le) = m.words();
        for i in 0..n {
            m.h[i] = if wide {
                (be32(&chain[i * 8..]) as u64) << 32 | be32(&chain[i * 8 + 4..]) as u64
            } else if le { le32(&chain[i * 4..]) as u64 } else { be32(&chain[i * 4..]) as u64 };
        }
        assert!(total % alg.block() as u128 == 0);
        m.total = total;
        m
    }

    pub fn update(&mut self, mut data: &[u8]) {
        self.total += data.len() as u128;
        let b = self.alg.block();
        if !self.buf.is_empty() {
            let n = (b - self.buf.len()).min(data.len());
            self.buf.extend_from_slice(&data[..n]);
            data = &data[n..];
            if self.buf.len() < b { return; }
            let blk = core::mem::take(&mut self.buf);
            self.compress(&blk);
        }
        while data.len() >= b {
            self.compress(&data[..b]);
            data = &data[b..];
        }
        self.buf.extend_from_slice(data);
    }

    pub fn finish(&self) -> Vec<u8> {
        let mut m = self.clone();
        let b = m.alg.block();
        let lenlen = if b == 128 { 16 } else { 8 };
        let mut pad = vec![0x80u8];
        while (m.buf.len() + pad.len() + lenlen) % b != 0 { pad.push(0) }
        let bits = self.total * 8;
        if b == 128 { pad.extend_from_slice(&bits.to_be_bytes()) }
        else if m.alg == Alg::Ripemd160 { pad.extend_from_slice(&(bits as u64).to_le_bytes()) }
        else { pad.extend_from_slice(&(bits as u64).to_be_bytes()) }
        m.update(&pad);
        assert!(m.buf.is_empty());
        let mut out = m.chain();
        out.truncate(self.alg.len());
        out
    }

    fn compress(&mut self, blk: &[u8]) {
        match self.alg {
            Alg::Sha1 => self.sha1(blk),
            Alg::Sha256 => self.sha256(blk),
            Alg::Ripemd160 => self.rmd(blk),
            _ => self.sha512(blk),
        }
    }

    // FIPS 180-4 6.1.2
    fn sha1(&mut self, blk: &[u8]) {
        let mut w = [0u32; 80];
        for t in 0..16 { w[t] = be32(&blk[4 * t..]) }
        for t in 16..80 { w[t] = (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1) }
        let h: Vec<u32> = self.h.iter().map(|&x| x as u32).collect();
        let (mut a, mut b, mut c, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        for t in 0..80 {
            let f = match t / 20 {
                0 => (b & c) ^ (!b & d),
                2 => (b & c) ^ (b & d) ^ (c & d),
                _ => b ^ c ^ d,
            };
            let tmp = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(K1[t / 20]).wrapping_add(w[t]);
            e = d; d = c; c = b.rotate_left(30); b = a; a = tmp;
        }
        for (i, v) in [a, b, c, d, e].iter().enumerate() { self.h[i] = h[i].wrapping_add(*v) as u64 }
    }

    // FIPS 180-4 6.2.2
    fn sha256(&mut self, blk: &[u8]) {
        let mut w = [0u32; 64];
        for t in 0..16 { w[t] = be32(&blk[4 * t..]) }
        for t in 16..64 {
            let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
            let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
            w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
        }
        let mut v = [0u32; 8];
        for i in 0..8 { v[i] = self.h[i] as u32 }
        for t in 0..64 {
            let (a, b, c, e, f, g) = (v[0], v[1], v[2], v[4], v[5], v[6]);
            let t1 = v[7]
                .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
                .wrapping_add((e & f) ^ (!e & g)).wrapping_add(K256[t]).wrapping_add(w[t]);
            let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22))
                .wrapping_add((a & b) ^ (a & c) ^ (b & c));
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { self.h[i] = (self.h[i] as u32).wrapping_add(v[i]) as u64 }
    }

    // FIPS 180-4 6.4.2
    fn sha512(&mut self, blk: &[u8]) {
        let mut w = [0u64; 80];
        for t in 0..16 { w[t] = (be32(&blk[8 * t..]) as u64) << 32 | be32(&blk[8 * t + 4..]) as u64 }
        for t in 16..80 {
            let s0 = w[t - 15].rotate_right(1) ^ w[t - 15].rotate_right(8) ^ (w[t - 15] >> 7);
            let s1 = w[t - 2].rotate_right(19) ^ w[t - 2].rotate_right(61) ^ (w[t - 2] >> 6);
            w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
        }
        let mut v = self.h;
        for t in 0..80 {
            let (a, b, c, e, f, g) = (v[0], v[1], v[2], v[4], v[5], v[6]);
            let t1 = v[7]
                .wrapping_add(e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41))
                .wrapping_add((e & f) ^ (!e & g)).wrapping_add(K512[t]).wrapping_add(w[t]);
            let t2 = (a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39))
                .wrapping_add((a & b) ^ (a & c) ^ (b & c));
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { self.h[i] = self.h[i].wrapping_add(v[i]) }
    }

    // Dobbertin, Bosselaers, Preneel: RIPEMD-160, appendix A pseudo-code
    fn rmd(&mut self, blk: &[u8]) {
        let mut x = [0u32; 16];
        for t in 0..16 { x[t] = le32(&blk[4 * t..]) }
        fn f(j: usize, x: u32, y: u32, z: u32) -> u32 {
            match j / 16 {
                0 => x ^ y ^ z,
                1 => (x & y) | (!x & z),
                2 => (x | !y) ^ z,
                3 => (x & z) | (y & !z),
                _ => x ^ (y | !z),
            }
        }
        let h: Vec<u32> = self.h.iter().map(|&x| x as u32).collect();
        let (mut a, mut b, mut c, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        let (mut a2, mut b2, mut c2, mut d2, mut e2) = (a, b, c, d, e);
        for j in 0..80 {
            let t = a.wrapping_add(f(j, b, c, d)).wrapping_add(x[RL[j]]).wrapping_add(KL[j / 16])
                .rotate_left(SL[j]).wrapping_add(e);
            a = e; e = d; d = c.rotate_left(10); c = b; b = t;
            let t = a2.wrapping_add(f(79 - j, b2, c2, d2)).wrapping_add(x[RR[j]]).wrapping_add(KR[j / 16])
                .rotate_left(SR[j]).wrapping_add(e2);
            a2 = e2; e2 = d2; d2 = c2.rotate_left(10); c2 = b2; b2 = t;
        }
        let t = h[1].wrapping_add(c).wrapping_add(d2);
        self.h[1] = h[2].wrapping_add(d).wrapping_add(e2) as u64;
        self.h[2] = h[3].wrapping_add(e).wrapping_add(a2) as u64;
        self.h[3] = h[4].wrapping_add(a).wrapping_add(b2) as u64;
        self.h[4] = h[0].wrapping_add(b).wrapping_add(c2) as u64;
        self.h[0] = t as u64;
    }
}

/// SipHash-2-4 (Aumasson, Bernstein), byte at a time.
#[derive(Clone)]
pub struct Sip { v: [u64; 4], word: u64, n: u32, pub total: u128 }

impl Sip {
    pub fn new(k0: u64, k1: u64) -> Sip {
        Sip {
            v: [k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573],
            word: 0, n: 0, total: 0,
        }
    }
    fn round(v: &mut [u64; 4]) {
        v[0] = v[0].wrapping_add(v[1]); v[2] = v[2].wrapping_add(v[3]);
        v[1] = v[1].rotate_left(13); v[3] = v[3].rotate_left(16);
        v[1] ^= v[0]; v[3] ^= v[2];
        v[0] = v[0].rotate_left(32);
        v[2] = v[2].wrapping_add(v[1]); v[0] = v[0].wrapping_add(v[3]);
        v[1] = v[1].rotate_left(17); v[3] = v[3].rotate_left(21);
        v[1] ^= v[2]; v[3] ^= v[0];
        v[2] = v[2].rotate_left(32);
    }
    fn absorb(v: &mut [u64; 4], m: u64) {
        v[3] ^= m;
        Self::round(v); Self::round(v);
        v[0] ^= m;
    }
    pub fn update(&mut self, data: &[u8]) {
        self.total += data.len() as u128;
        for &b in data {
            self.word |= (b as u64) << (8 * self.n);
            self.n += 1;
            if self.n == 8 {
                Self::absorb(&mut self.v, self.word);
                self.word = 0;
                self.n = 0;
            }
        }
    }
    /// Overrides the byte count (used to model resumed engines with huge counts).
    pub fn set_total(&mut self, t: u128) { self.total = t }
    pub fn finish(&self) -> Vec<u8> {
        let mut v = self.v;
        Self::absorb(&mut v, self.word | ((self.total & 0xff) as u64) << 56);
        v[2] ^= 0xff;
        for _ in 0..4 { Self::round(&mut v) }
        (v[0] ^ v[1] ^ v[2] ^ v[3]).to_le_bytes().to_vec()
    }
}

/// A model of any engine of the crate.
#[derive(Clone)]
pub enum Model { Md(Md), Sip(Sip), Hmac(Box<Model>, Box<Model>) }

impl Model {
    pub fn plain(a: Alg) -> Model { Model::Md(Md::new(a)) }
    pub fn sip(k0: u64, k1: u64) -> Model { Model::Sip(Sip::new(k0, k1)) }
    /// BIP-340 style tagged SHA-256.
    pub fn tagged(tag: &[u8]) -> Model {
        let t = digest(Alg::Sha256, tag);
        let mut m = Md::new(Alg::Sha256);
        m.update(&t);
        m.update(&t);
        Model::Md(m)
    }
    /// RFC 2104 over `h` (a fresh model of the underlying hash) with the given block size.
    pub fn hmac(h: &Model, block: usize, key: &[u8]) -> Model {
        let mut k = if key.len() > block {
            let mut m = h.clone();
            m.update(key);
            m.finish()
        } else { key.to_vec() };
        k.resize(block, 0);
        let mut i = h.clone();
        let mut o = h.clone();
        i.update(&k.iter().map(|b| b ^ 0x36).collect::<Vec<_>>());
        o.update(&k.iter().map(|b| b ^ 0x5c).collect::<Vec<_>>());
        Model::Hmac(Box::new(i), Box::new(o))
    }
    pub fn update(&mut self, d: &[u8]) {
        match self { Model::Md(m) => m.update(d), Model::Sip(s) => s.update(d), Model::Hmac(i, _) => i.update(d) }
    }
    pub fn finish(&self) -> Vec<u8> {
        match self {
            Model::Md(m) => m.finish(),
            Model::Sip(s) => s.finish(),
            Model::Hmac(i, o) => { let mut o = (**o).clone(); o.update(&i.finish()); o.finish() }
        }
    }
    /// Bytes absorbed, prefix included.
    pub fn count(&self) -> u128 {
        match self { Model::Md(m) => m.total, Model::Sip(s) => s.total, Model::Hmac(i, _) => i.count() }
    }
    /// Chaining values, or None where the exported state has no standard byte form.
    pub fn chain(&self) -> Option<Vec<u8>> {
        match self {
            Model::Md(m) => Some(m.chain()),
            Model::Sip(_) => None,
            Model::Hmac(i, o) => { let mut v = i.chain()?; v.extend(o.chain()?); Some(v) }
        }
    }
}

pub fn digest(a: Alg, m: &[u8]) -> Vec<u8> { let mut r = Md::new(a); r.update(m); r.finish() }

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Published vectors. A failure means the oracle itself is broken: the run is void, not a verdict.
pub fn self_test() -> Result<(), String> {
    let two448 = b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq";
    let two896 = b"abcdefghbcdefghicdefghijdefghijkefghijklfghijklmghijklmnhijklmnoijklmnopjklmnopqklmnopqrlmnopqrsmnopqrstnopqrstu";
    let v: &[(Alg, &[u8], &str)] = &[
        (Alg::Sha1, b"abc", "a9993e364706816aba3e25717850c26c9cd0d89d"),
        (Alg::Sha1, two448, "84983e441c3bd26ebaae4aa1f95129e5e54670f1"),
        (Alg::Sha256, b"abc", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
        (Alg::Sha256, two448, "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1"),
        (Alg::Sha384, b"abc", "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7"),
        (Alg::Sha384, two896, "09330c33f71147e83d192fc782cd1b4753111b173b3b05d22fa08086e3b0f712fcc7c71a557e2db966c3e9fa91746039"),
        (Alg::Sha512, b"abc", "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"),
        (Alg::Sha512, two896, "8e959b75dae313da8cf4f72814fc143f8f7779c6eb9f7fa17299aeadb6889018501d289e4900f7e4331b99dec4b5433ac7d329eeb6dd26545e96e55b874be909"),
        (Alg::Sha512_256, b"abc", "53048e2681941ef99b2e29b76b4c7dabe4c2d0c634fc6d46e0e2f13107e7af23"),
        (Alg::Sha512_256, two896, "3928e184fb8690f840da3988121d31be65cb9d3ef83ee6146feac861e19b563a"),
        (Alg::Ripemd160, b"", "9c1185a5c5e9fc54612808977ee8f548b2258d31"),
        (Alg::Ripemd160, b"abc", "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"),
        (Alg::Ripemd160, b"12345678901234567890123456789012345678901234567890123456789012345678901234567890", "9b752e45573d4b39f4dbd3323cab82bf63326bfb"),
    ];
    for (a, m, d) in v {
        if digest(*a, m) != unhex(d) { return Err(format!("reference {} broken", a.name())); }
    }
    // SipHash paper, appendix A: key 00..0f, message 00..0e.
    let msg: Vec<u8> = (0..15).collect();
    let mut s = Sip::new(0x0706050403020100, 0x0f0e0d0c0b0a0908);
    s.update(&msg);
    if s.finish() != 0xa129ca6149be45e5u64.to_le_bytes().to_vec() { return Err("reference siphash broken".into()); }
    // RFC 4231 test cases 1 and 6 (SHA-256, SHA-512)
    let mut h = Model::hmac(&Model::plain(Alg::Sha256), 64, &[0x0b; 20]);
    h.update(b"Hi There");
    if h.finish() != unhex("b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7") { return Err("reference hmac broken".into()); }
    let mut h = Model::hmac(&Model::plain(Alg::Sha512), 128, &[0xaa; 131]);
    h.update(b"Test Using Larger Than Block-Size Key - Hash Key First");
    if h.finish() != unhex("80b24263c7c1a3ebb71493c1dd7be8b49b46d1f41b4aeec1121b013783f8f3526b56d037e05f2598bd0fd2215d6a1e5295e64f73f63f0aec8b915a985d786598") { return Err("reference hmac-sha512 broken".into()); }
    Ok(())
}
