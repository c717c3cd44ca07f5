//! C12, what it leaks: runs fixed_time_eq under valgrind with both strings marked undefined, so that
//! memcheck reports every conditional jump and every address that depends on their contents.
//!
//! ct <seed> <thorough 0|1>       judged: the real function
//! ct <seed> <0|1> leaky-branch   self test of the monitor: must be reported
//! ct <seed> <0|1> leaky-index    self test of the monitor: must be reported

use std::hint::black_box;

use mon::rng::Rng;

/// A valgrind client request (a no-op outside valgrind).
#[cfg(target_arch = "x86_64")]
#[inline(never)]
fn request(default: usize, args: &[usize; 6]) -> usize {
    let mut res = default;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rdx") res, in("rax") args.as_ptr(), options(nostack),
        );
    }
    res
}
#[cfg(not(target_arch = "x86_64"))]
fn request(default: usize, _: &[usize; 6]) -> usize { default }

const MC: usize = ((b'M' as usize) << 24) | ((b'C' as usize) << 16);
fn undefined(b: &[u8]) { request(0, &[MC + 1, b.as_ptr() as usize, b.len(), 0, 0, 0]); }
fn defined(p: *const u8, n: usize) { request(0, &[MC + 2, p as usize, n, 0, 0, 0]); }
fn running_on_valgrind() -> bool { request(0, &[0x1001, 0, 0, 0, 0, 0]) != 0 }
fn errors() -> usize { request(0, &[0x1201, 0, 0, 0, 0, 0]) }

#[inline(never)]
fn leaky_branch(a: &[u8], b: &[u8]) -> bool { for i in 0..a.len() { if black_box(a[i]) != b[i] { return false } } true }
#[inline(never)]
fn leaky_index(a: &[u8], b: &[u8]) -> bool {
    static T: [u8; 256] = [1; 256];
    let mut r = 0u8;
    for i in 0..a.len() { r |= T[black_box((a[i] ^ b[i]) as usize)].wrapping_sub(1) | (a[i] ^ b[i]) }
    r == 0
}

fn main() {
    let mut args = std::env::args().skip(1);
    let seed: u64 = args.next().and_then(|x| x.parse().ok()).unwrap_or(1);
    let thorough = args.next().as_deref() == Some("1");
    let f: fn(&[u8], &[u8]) -> bool = match args.next().as_deref() {
        Some("leaky-branch") => leaky_branch, Some("leaky-index") => leaky_index, _ => chf::cmp::fixed_time_eq,
    };
    if !running_on_valgrind() { println!("{{\"valgrind\":false}}"); std::process::exit(4) }
    let mut rng = Rng::new(seed, 12);
    let (mut pairs, mut wrong, mut bytes) = (0u64, 0u64, 0u64);
    let mut leaky: Vec<String> = Vec::new();
    let mut lens: Vec<usize> = (0..if thorough { 600 } else { 140 }).collect();
    lens.extend([255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 5000, 16_390, 65_536, 70_001]);
    for n in lens {
        for how in 0..if thorough { 14 } else { 7 } {
            let a = rng.bytes(n);
            let mut b = a.clone();
            if n > 0 {
                match how % 7 {
                    0 => {}
                    1 => b[0] ^= 1, 2 => b[n - 1] ^= 0x80, 3 => { let i = rng.usize(n); b[i] = !b[i] }
                    4 => b = rng.bytes(n),
                    5 => b.iter_mut().for_each(|x| *x = !*x),
                    _ => { let i = n / 2; b[i] ^= 1 << rng.usize(8) }
                }
            }
            let want = a == b;
            // Alignment of each side varies.
            let (pa, oa) = mon::gen::place(&a, rng.usize(9));
            let (pb, ob) = mon::gen::place(&b, rng.usize(9));
            let before = errors();
            undefined(&pa[oa..]);
            undefined(&pb[ob..]);
            let r = black_box(f)(black_box(&pa[oa..]), black_box(&pb[ob..]));
            let r = black_box(r);
            defined(&r as *const bool as *const u8, 1);
            let got = unsafe { std::ptr::read_volatile(&r) };
            defined(pa.as_ptr(), pa.len());
            defined(pb.as_ptr(), pb.len());
            if got != want { wrong += 1 }
            if errors() != before && leaky.len() < 5 { leaky.push(format!("len {} case {} equal {}", n, how, want)) }
            pairs += 1;
            bytes += 2 * n as u64;
        }
    }
    println!("{{\"valgrind\":true,\"pairs\":{},\"secret_bytes\":{},\"wrong\":{},\"reports\":{},\"leaky\":{:?}}}", pairs, bytes, wrong, errors(), leaky);
}
