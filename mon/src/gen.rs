//! Workload generators: message contents, lengths and partitions.

use crate::rng::Rng;

/// Kinds of message content.
pub const KINDS: usize = 10;

pub fn content(rng: &mut Rng, kind: usize, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    match kind {
        0 => rng.fill(&mut v),
        1 => {}
        2 => v.iter_mut().for_each(|b| *b = 0xff),
        3 => v.iter_mut().enumerate().for_each(|(i, b)| *b = i as u8),
        4 => { // a single set bit
            if len > 0 { let i = rng.usize(len); v[i] = 1 << rng.usize(8) }
        }
        5 => { // text
            v.iter_mut().for_each(|b| *b = b' ' + rng.usize(95) as u8)
        }
        6 => { // constant byte
            let c = rng.u64() as u8;
            v.iter_mut().for_each(|b| *b = c)
        }
        7 => { // looks like padding: 0x80 then zeros, at a random spot
            if len > 0 { let i = rng.usize(len); v[i] = 0x80; }
            if len > 8 && rng.one_in(2) { let n = (len as u64 * 8).to_be_bytes(); v[len - 8..].copy_from_slice(&n) }
        }
        8 => { // high bits everywhere, maximal carries
            v.iter_mut().for_each(|b| *b = if rng.one_in(8) { rng.u64() as u8 } else { [0x7f, 0x80, 0xff, 0xfe][rng.usize(4)] })
        }
        _ => { // sparse
            for _ in 0..(len / 16 + 1) { if len > 0 { let i = rng.usize(len); v[i] = rng.u64() as u8 } }
        }
    }
    v
}

/// Random content of a random kind.
pub fn message(rng: &mut Rng, len: usize) -> Vec<u8> { let k = if rng.one_in(2) { 0 } else { rng.usize(KINDS) }; content(rng, k, len) }

/// A length: mixes tiny, around multiples of the block, powers of two and log-uniform.
pub fn length(rng: &mut Rng, block: usize, max: usize) -> usize {
    let n = match rng.usize(8) {
        0 => rng.usize(10),
        1 | 2 => { // near a multiple of the block
            let k = rng.usize(9);
            let d = rng.usize(20) as isize - 10;
            (k * block) as isize + d
        }
        .max(0) as usize,
        3 => { // padding boundary
            let k = rng.usize(6);
            (k * block + block - if block == 128 { 16 } else { 8 }).saturating_sub(rng.usize(3))
        }
        4 => { // near a power of two
            let e = rng.usize(22);
            ((1usize << e) + rng.usize(7)).saturating_sub(3)
        }
        5 => rng.usize(4 * block),
        _ => { // log-uniform
            let bits = rng.usize(usize::BITS as usize - (max.max(1)).leading_zeros() as usize + 1);
            rng.usize((1usize << bits).max(1))
        }
    };
    n.min(max)
}

/// Splits n bytes into chunks; the sum is n, empty chunks are allowed.
pub fn partition(rng: &mut Rng, n: usize, block: usize) -> Vec<usize> {
    let mut out = Vec::new();
    let mut left = n;
    let style = rng.usize(9);
    let fixed = match rng.usize(6) {
        0 => block, 1 => block - 1, 2 => block + 1, 3 => 8, 4 => 1 + rng.usize(17), _ => 1 + rng.usize(3 * block),
    };
    let mut guard = 0usize;
    while left > 0 {
        guard += 1;
        let c = match style {
            0 => 1 + rng.usize(3),
            1 => rng.usize(2 * block + 3),
            2 => fixed,
            3 => *rng.pick(&[0, 1, 7, 8, 9, block - 1, block, block + 1, 2 * block, 2 * block - 1, 3 * block + 1]),
            4 => rng.usize(left + 1),
            5 => { let e = rng.usize(16); rng.usize((1 << e) + 1) }
            6 => left,
            7 => if guard == 1 { rng.usize(block) } else { left },
            _ => *rng.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 13, 31, 33]),
        };
        let c = if guard > 4000 { left } else { c.min(left) };
        out.push(c);
        left -= c;
        if rng.one_in(12) { out.push(0) }
    }
    if rng.one_in(6) { out.insert(0, 0) }
    out
}

/// Copies `d` so that it starts at the given offset modulo 16 inside its own allocation and ends
/// exactly at the end of it (an over-read leaves the allocation).
pub fn place(d: &[u8], off: usize) -> (Vec<u8>, usize) {
    let mut v = Vec::with_capacity(off + d.len());
    v.resize(off, 0xa5);
    v.extend_from_slice(d);
    v.shrink_to_fit();
    (v, off)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { s.push(char::from_digit((x >> 4) as u32, 16).unwrap()); s.push(char::from_digit((x & 15) as u32, 16).unwrap()) }
    s
}
/// Hex, shortened in the middle when long.
pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 160 { hex(b) } else { format!("{}..{}({} bytes, fp {:016x})", hex(&b[..32]), hex(&b[b.len() - 16..]), b.len(), crate::rng::fp_bytes(b)) }
}

/// Zeros reaching beyond 4 GiB (never written to, so they take no memory); empty where there is no room.
pub fn huge() -> &'static [u8] {
    use std::sync::OnceLock;
    static Z: OnceLock<Vec<u8>> = OnceLock::new();
    #[cfg(all(target_pointer_width = "64", not(miri)))]
    { Z.get_or_init(|| vec![0; (1usize << 32) + 4096]) }
    #[cfg(not(all(target_pointer_width = "64", not(miri))))]
    { Z.get_or_init(Vec::new) }
}
