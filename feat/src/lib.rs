//! Uses the API that every feature set promises, and what single features add. Only checked, never run.
#![no_std]
#![allow(dead_code)]
pub use chf;
use chf::{cmp, hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine};
use core::fmt;
use core::str::FromStr;

#[derive(Clone)]
struct T;
impl sha256t::Tag for T { fn engine() -> sha256t::Engine<Self> { sha256t::Engine::from_midstate(sha256::Midstate::hash_tag(b"t"), 64) } }

fn value<V: Copy + Ord + core::hash::Hash + fmt::Display + fmt::Debug + fmt::LowerHex + fmt::UpperHex + FromStr + AsRef<[u8]> + core::ops::Index<usize, Output = u8>>(_: V) {}
fn engine<E: HashEngine + Clone + Default>(mut e: E) -> E::Digest {
    e.input(b"x");
    let _ = (e.n_bytes_hashed(), E::BLOCK_SIZE, E::hash(b"y"), E::hash_byte_chunks([b"z"]));
    let m = e.midstate();
    let n = e.n_bytes_hashed();
    E::from_midstate(m, n).finalize()
}
macro_rules! all {
    ($($m:ident $n:literal),*) => { $({
        value($m::Hash::hash(b"a"));
        let h = $m::Hash::from_byte_array([0; $n]);
        let _: [u8; $n] = h.to_byte_array();
        let _: &[u8; $n] = h.as_byte_array();
        let _ = ($m::Hash::from_slice(&[0; $n]), $m::Hash::from_engine($m::Hash::engine()), h.as_ref() as &[u8], &h[..], &h[1..2]);
        let _: [u8; $n] = engine($m::Engine::default());
        value(hmac::Hash::<$n>::from_engine(hmac::Engine::<$m::Engine>::new(b"k")));
        engine(hmac::Engine::<$m::Engine>::default());
        #[cfg(any(feature = "alloc", feature = "std"))]
        let _ = (h.to_bytes(), hmac::Hash::<$n>::all_zeros().to_bytes());
        more(h);
        more(hmac::Hash::<$n>::all_zeros());
    })* };
}
#[cfg(feature = "serde")]
fn more<V: chf::serde::Serialize + for<'a> chf::serde::Deserialize<'a>>(_: V) {}
#[cfg(not(feature = "serde"))]
fn more<V>(_: V) {}

const CONST: sha256::Hash = sha256::Hash::const_hash(b"c");
const TAG: sha256::Midstate = sha256::Midstate::hash_tag(b"t");

pub fn uses() {
    all!(ripemd160 20, sha1 20, sha256 32, sha384 48, sha512 64, sha512_256 32, siphash24 8);
    value(sha256t::Hash::<T>::hash(b"a"));
    more(sha256t::Hash::<T>::hash(b"a"));
    engine(sha256t::Engine::<T>::default());
    value(CONST);
    more(TAG);
    let e = siphash24::Engine::with_keys(1, 2);
    let _ = (e.keys(), siphash24::Hash::hash_with_keys(1, 2, b"a"), siphash24::Hash::hash_to_u64_with_keys(1, 2, b"a"), siphash24::Hash::from_engine_to_u64(e));
    let _ = (cmp::fixed_time_eq(b"a", b"b"), chf::FromSliceError { expected: 1, got: 2 });
    let _ = chf::hex::DisplayHex::as_hex(&[1u8][..]);
}

#[cfg(any(feature = "std", feature = "io"))]
pub fn writers() {
    fn w<E: bitcoin_io::Write>(_: E) {}
    w(sha1::Engine::default());
    w(sha256::Engine::default());
    w(sha512::Engine::default());
    w(ripemd160::Engine::default());
    w(siphash24::Engine::default());
    w(sha256t::Engine::<T>::default());
    w(hmac::Engine::<sha384::Engine>::default());
}
#[cfg(feature = "std")]
pub fn std_writers() {
    extern crate std;
    fn w<E: std::io::Write>(_: E) {}
    w(sha1::Engine::default());
    w(sha256::Engine::default());
    w(sha512::Engine::default());
    w(ripemd160::Engine::default());
    w(siphash24::Engine::default());
    w(sha256t::Engine::<T>::default());
    w(hmac::Engine::<sha384::Engine>::default());
}
#[cfg(feature = "schemars")]
pub fn schemas() {
    fn s<T: schemars::JsonSchema>() {}
    s::<sha1::Hash>();
    s::<sha256::Hash>();
    s::<sha384::Hash>();
    s::<sha512::Hash>();
    s::<sha512_256::Hash>();
    s::<ripemd160::Hash>();
    s::<siphash24::Hash>();
    s::<hmac::Hash<32>>();
}

/// A type of our own with the exported macro, which does nothing without serde.
#[derive(Clone, Copy)]
pub struct Mine([u8; 4]);
impl Mine { pub fn from_slice(s: &[u8]) -> Result<Self, chf::FromSliceError> { <[u8; 4]>::try_from(s).map(Mine).map_err(|_| chf::FromSliceError { expected: 4, got: s.len() }) } }
impl<I: core::slice::SliceIndex<[u8]>> core::ops::Index<I> for Mine { type Output = I::Output; fn index(&self, i: I) -> &I::Output { &self.0[i] } }
impl fmt::Display for Mine { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:08x}", u32::from_be_bytes(self.0)) } }
impl FromStr for Mine { type Err = core::num::ParseIntError; fn from_str(s: &str) -> Result<Self, Self::Err> { u32::from_str_radix(s, 16).map(|x| Mine(x.to_be_bytes())) } }
chf::serde_impl!(Mine, 4);
pub fn mine(m: Mine) { more(m) }
