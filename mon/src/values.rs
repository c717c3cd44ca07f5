//! The hash value types under test behind one trait.

use std::fmt::{Debug, Display, LowerHex, UpperHex};
use std::str::FromStr;

use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, FromSliceError};

use crate::engines::{TagA, TagB};

/// One observation of a value's bytes through some accessor.
pub type View = (&'static str, Vec<u8>);

#[cfg(feature = "serde")]
pub trait MaybeSerde: serde::Serialize + serde::de::DeserializeOwned {}
#[cfg(feature = "serde")]
impl<T: serde::Serialize + serde::de::DeserializeOwned> MaybeSerde for T {}
#[cfg(not(feature = "serde"))]
pub trait MaybeSerde {}
#[cfg(not(feature = "serde"))]
impl<T> MaybeSerde for T {}

pub trait Val: Sized + Copy + Eq + Ord + std::hash::Hash + Display + Debug + LowerHex + UpperHex
    + FromStr<Err = chf::hex::HexToArrayError> + AsRef<[u8]> + MaybeSerde + 'static
{
    const N: usize;
    const NAME: &'static str;
    /// Formatting goes through the slice formatter of the hex crate rather than the exact one.
    const SLICE_FMT: bool;
    /// The type carries a JSON schema.
    const SCHEMA: bool;
    type Arr: Copy + AsRef<[u8]> + AsMut<[u8]> + Default2;
    fn from_arr(a: Self::Arr) -> Self;
    fn to_arr(self) -> Self::Arr;
    fn from_sl(b: &[u8]) -> Result<Self, FromSliceError>;
    /// Every read accessor.
    fn views(&self) -> Vec<View>;
    /// Shared and exclusive reference conversions; None where the type has none.
    fn by_ref(a: &Self::Arr) -> Option<&Self>;
    fn by_mut(a: &mut Self::Arr) -> Option<&mut Self>;
    /// Addresses the reference-returning accessors hand out.
    fn ptrs(&self) -> Vec<(&'static str, *const u8)>;
    /// The zero values (all_zeros, Default) the type offers.
    fn zeros() -> Vec<(&'static str, Self)>;
    fn idx(&self, i: usize) -> u8;
    fn idx_range(&self, r: std::ops::Range<usize>) -> &[u8];
    fn idx_from(&self, r: std::ops::RangeFrom<usize>) -> &[u8];
    fn idx_to(&self, r: std::ops::RangeTo<usize>) -> &[u8];
    fn idx_full(&self) -> &[u8];
    /// Index forms only some types have: inclusive ranges.
    fn idx_incl(&self, _: std::ops::RangeInclusive<usize>) -> Option<&[u8]> { None }
    fn idx_to_incl(&self, _: std::ops::RangeToInclusive<usize>) -> Option<&[u8]> { None }
    /// Length constant, when public.
    fn len_const() -> Option<usize>;
    fn from_bytes(b: &[u8]) -> Self { let mut a = Self::Arr::zero(); a.as_mut().copy_from_slice(b); Self::from_arr(a) }
    /// FromHex, where the type implements it in addition to FromStr.
    fn from_hex(_: &str) -> Option<Result<Self, chf::hex::HexToArrayError>> { None }
}

pub trait Default2 { fn zero() -> Self; }
impl<const N: usize> Default2 for [u8; N] { fn zero() -> Self { [0; N] } }

macro_rules! common { () => {
    fn from_arr(a: Self::Arr) -> Self { Self::from_byte_array(a) }
    fn to_arr(self) -> Self::Arr { self.to_byte_array() }
    fn from_sl(b: &[u8]) -> Result<Self, FromSliceError> { Self::from_slice(b) }
    fn idx(&self, i: usize) -> u8 { self[i] }
    fn idx_range(&self, r: std::ops::Range<usize>) -> &[u8] { &self[r] }
    fn idx_from(&self, r: std::ops::RangeFrom<usize>) -> &[u8] { &self[r] }
    fn idx_to(&self, r: std::ops::RangeTo<usize>) -> &[u8] { &self[r] }
    fn idx_full(&self) -> &[u8] { &self[..] }
} }
macro_rules! incl { () => {
    fn idx_incl(&self, r: std::ops::RangeInclusive<usize>) -> Option<&[u8]> { Some(&self[r]) }
    fn idx_to_incl(&self, r: std::ops::RangeToInclusive<usize>) -> Option<&[u8]> { Some(&self[r]) }
} }
macro_rules! refs { () => {
    fn by_ref(a: &Self::Arr) -> Option<&Self> { Some(Self::from_bytes_ref(a)) }
    fn by_mut(a: &mut Self::Arr) -> Option<&mut Self> { Some(Self::from_bytes_mut(a)) }
} }
macro_rules! views_hash { ($n:expr) => {
    fn views(&self) -> Vec<View> {
        #[allow(unused_mut)]
        let mut v: Vec<View> = vec![
            ("to_byte_array", self.to_byte_array().to_vec()), ("as_byte_array", self.as_byte_array().to_vec()),
            ("as_bytes", self.as_bytes().to_vec()), ("AsRef<[u8]>", <Self as AsRef<[u8]>>::as_ref(self).to_vec()),
            ("[..]", self[..].to_vec()), ("[i]", (0..$n).map(|i| self[i]).collect()),
        ];
        #[cfg(any(feature = "alloc", feature = "std"))]
        v.push(("to_bytes", self.to_bytes()));
        Self::more_views(self, &mut v);
        v
    }
} }

trait More { fn more_views(&self, v: &mut Vec<View>); }

macro_rules! plain { ($t:ty, $n:expr, $name:expr) => {
    impl More for $t { fn more_views(&self, v: &mut Vec<View>) { v.push(("AsRef<[u8; N]>", <$t as AsRef<[u8; $n]>>::as_ref(self).to_vec())) } }
    impl Val for $t {
        const N: usize = $n; const NAME: &'static str = $name; const SLICE_FMT: bool = false; const SCHEMA: bool = true;
        type Arr = [u8; $n];
        common!(); refs!(); incl!(); views_hash!($n);
        fn ptrs(&self) -> Vec<(&'static str, *const u8)> {
            vec![("as_byte_array", self.as_byte_array().as_ptr()), ("as_bytes", self.as_bytes().as_ptr()),
                ("AsRef<[u8]>", <Self as AsRef<[u8]>>::as_ref(self).as_ptr()), ("AsRef<[u8; N]>", <Self as AsRef<[u8; $n]>>::as_ref(self).as_ptr()), ("[..]", self[..].as_ptr())]
        }
        fn zeros() -> Vec<(&'static str, Self)> { vec![("all_zeros", Self::all_zeros())] }
        fn len_const() -> Option<usize> { Some(<$t>::LEN) }
    }
} }
plain!(sha1::Hash, 20, "sha1::Hash");
plain!(sha256::Hash, 32, "sha256::Hash");
plain!(sha384::Hash, 48, "sha384::Hash");
plain!(sha512::Hash, 64, "sha512::Hash");
plain!(sha512_256::Hash, 32, "sha512_256::Hash");
plain!(ripemd160::Hash, 20, "ripemd160::Hash");
plain!(siphash24::Hash, 8, "siphash24::Hash");

macro_rules! tagged { ($t:ty, $name:expr) => {
    impl More for $t { fn more_views(&self, v: &mut Vec<View>) { v.push(("AsRef<[u8; N]>", <$t as AsRef<[u8; 32]>>::as_ref(self).to_vec())) } }
    impl Val for $t {
        const N: usize = 32; const NAME: &'static str = $name; const SLICE_FMT: bool = false; const SCHEMA: bool = true;
        type Arr = [u8; 32];
        common!(); refs!(); incl!(); views_hash!(32);
        fn ptrs(&self) -> Vec<(&'static str, *const u8)> {
            vec![("as_byte_array", self.as_byte_array().as_ptr()), ("as_bytes", self.as_bytes().as_ptr()),
                ("AsRef<[u8]>", <Self as AsRef<[u8]>>::as_ref(self).as_ptr()), ("[..]", self[..].as_ptr())]
        }
        fn zeros() -> Vec<(&'static str, Self)> { vec![("all_zeros", Self::all_zeros()), ("default", Self::default())] }
        fn len_const() -> Option<usize> { Some(<$t>::LEN) }
    }
} }
tagged!(sha256t::Hash<TagA>, "sha256t::Hash<A>");
tagged!(sha256t::Hash<TagB>, "sha256t::Hash<B>");

macro_rules! mac { ($n:expr) => {
    impl More for hmac::Hash<$n> { fn more_views(&self, _: &mut Vec<View>) {} }
    impl Val for hmac::Hash<$n> {
        const N: usize = $n; const NAME: &'static str = concat!("hmac::Hash<", $n, ">"); const SLICE_FMT: bool = true; const SCHEMA: bool = true;
        type Arr = [u8; $n];
        common!(); refs!(); views_hash!($n);
        fn ptrs(&self) -> Vec<(&'static str, *const u8)> {
            vec![("as_byte_array", self.as_byte_array().as_ptr()), ("as_bytes", self.as_bytes().as_ptr()),
                ("AsRef<[u8]>", <Self as AsRef<[u8]>>::as_ref(self).as_ptr()), ("[..]", self[..].as_ptr())]
        }
        fn zeros() -> Vec<(&'static str, Self)> { vec![("all_zeros", Self::all_zeros())] }
        fn len_const() -> Option<usize> { None }
    }
} }
mac!(8);
mac!(20);
mac!(32);
mac!(48);
mac!(64);

impl Val for sha256::Midstate {
    const N: usize = 32; const NAME: &'static str = "sha256::Midstate"; const SLICE_FMT: bool = false; const SCHEMA: bool = false;
    type Arr = [u8; 32];
    common!(); incl!();
    fn views(&self) -> Vec<View> {
        vec![("to_byte_array", self.to_byte_array().to_vec()), (".0", self.0.to_vec()), ("AsRef<[u8]>", AsRef::<[u8]>::as_ref(self).to_vec()),
            ("[..]", self[..].to_vec()), ("[i]", (0..32).map(|i| self[i]).collect())]
    }
    fn by_ref(_: &Self::Arr) -> Option<&Self> { None }
    fn by_mut(_: &mut Self::Arr) -> Option<&mut Self> { None }
    fn ptrs(&self) -> Vec<(&'static str, *const u8)> { vec![("AsRef<[u8]>", AsRef::<[u8]>::as_ref(self).as_ptr()), ("[..]", self[..].as_ptr())] }
    fn zeros() -> Vec<(&'static str, Self)> { vec![("default", Self::default())] }
    fn len_const() -> Option<usize> { None }
    fn from_hex(s: &str) -> Option<Result<Self, chf::hex::HexToArrayError>> { Some(<Self as chf::hex::FromHex>::from_hex(s)) }
}

/// Something to do for every value type.
pub trait ValVisitor { fn visit<V: Val>(&mut self); }

pub const NVALS: usize = 15;

pub fn visit_val(i: usize, v: &mut impl ValVisitor) {
    match i {
        0 => v.visit::<sha1::Hash>(), 1 => v.visit::<sha256::Hash>(), 2 => v.visit::<sha384::Hash>(), 3 => v.visit::<sha512::Hash>(),
        4 => v.visit::<sha512_256::Hash>(), 5 => v.visit::<ripemd160::Hash>(), 6 => v.visit::<siphash24::Hash>(),
        7 => v.visit::<sha256t::Hash<TagA>>(), 8 => v.visit::<sha256t::Hash<TagB>>(),
        9 => v.visit::<hmac::Hash<8>>(), 10 => v.visit::<hmac::Hash<20>>(), 11 => v.visit::<hmac::Hash<32>>(),
        12 => v.visit::<hmac::Hash<48>>(), 13 => v.visit::<hmac::Hash<64>>(), _ => v.visit::<sha256::Midstate>(),
    }
}
