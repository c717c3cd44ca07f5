//! The engines under test behind one object-safe interface, each paired with its reference model.

use std::cell::RefCell;

use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine};

use crate::refimpl::{Alg, Model};
use crate::rng::Rng;

/// Byte view of midstates, where the API gives one.
pub trait Mid: Sized {
    fn bytes(&self) -> Option<Vec<u8>>;
    fn build(b: &[u8]) -> Option<Self>;
}
impl<const N: usize> Mid for [u8; N] {
    fn bytes(&self) -> Option<Vec<u8>> { Some(self.to_vec()) }
    fn build(b: &[u8]) -> Option<Self> { let mut a = [0; N]; if b.len() != N { return None } a.copy_from_slice(b); Some(a) }
}
impl Mid for sha256::Midstate {
    fn bytes(&self) -> Option<Vec<u8>> { Some(self.to_byte_array().to_vec()) }
    fn build(b: &[u8]) -> Option<Self> { let mut a = [0; 32]; if b.len() != 32 { return None } a.copy_from_slice(b); Some(sha256::Midstate::from_byte_array(a)) }
}
impl Mid for siphash24::State {
    fn bytes(&self) -> Option<Vec<u8>> { None }
    fn build(_: &[u8]) -> Option<Self> { None }
}
impl<E: HashEngine> Mid for hmac::Midstate<E> where E::Midstate: Mid {
    fn bytes(&self) -> Option<Vec<u8>> { let mut v = self.inner.bytes()?; v.extend(self.outer.bytes()?); Some(v) }
    fn build(b: &[u8]) -> Option<Self> {
        if b.len() % 2 != 0 { return None }
        let (i, o) = b.split_at(b.len() / 2);
        Some(hmac::Midstate { inner: Mid::build(i)?, outer: Mid::build(o)? })
    }
}

/// A live engine.
pub trait Dyn {
    fn input(&mut self, d: &[u8]);
    fn count(&self) -> usize;
    fn finish(self: Box<Self>) -> Vec<u8>;
    fn dup(&self) -> Box<dyn Dyn>;
    /// A clone made by assigning into another engine that has been used already.
    fn dup_into(&self, used: &[u8]) -> Box<dyn Dyn>;
    /// Midstate as bytes, if it has a byte form; always calls the query.
    fn mid(&self) -> Option<Vec<u8>>;
    /// A new engine built from this one's midstate and the given length.
    fn resume(&self, len: usize) -> Box<dyn Dyn>;
}

pub struct Live<E: HashEngine>(pub E);

impl<E: HashEngine + 'static> Dyn for Live<E> where E::Midstate: Mid {
    fn input(&mut self, d: &[u8]) { self.0.input(d) }
    fn count(&self) -> usize { self.0.n_bytes_hashed() }
    fn finish(self: Box<Self>) -> Vec<u8> { self.0.finalize().as_ref().to_vec() }
    fn dup(&self) -> Box<dyn Dyn> { Box::new(Live(self.0.clone())) }
    fn dup_into(&self, used: &[u8]) -> Box<dyn Dyn> { let mut e = E::default(); e.input(used); e.clone_from(&self.0); Box::new(Live(e)) }
    fn mid(&self) -> Option<Vec<u8>> { self.0.midstate().bytes() }
    fn resume(&self, len: usize) -> Box<dyn Dyn> { Box::new(Live(E::from_midstate(self.0.midstate(), len))) }
}

/// sha256 through the inherent constructor rather than the trait's.
pub fn sha256_inherent_resume(mid: [u8; 32], len: usize) -> Box<dyn Dyn> {
    Box::new(Live(sha256::Engine::from_midstate(sha256::Midstate::from_byte_array(mid), len)))
}

/// Builds an engine of a named type from midstate bytes.
pub fn resume_bytes(alg: Alg, mid: &[u8], len: usize) -> Box<dyn Dyn> {
    fn go<E: HashEngine + 'static>(mid: &[u8], len: usize) -> Box<dyn Dyn> where E::Midstate: Mid {
        Box::new(Live(E::from_midstate(E::Midstate::build(mid).expect("midstate size"), len)))
    }
    match alg {
        Alg::Sha1 => go::<sha1::Engine>(mid, len), Alg::Sha256 => go::<sha256::Engine>(mid, len),
        Alg::Sha384 => go::<sha384::Engine>(mid, len), Alg::Sha512 => go::<sha512::Engine>(mid, len),
        Alg::Sha512_256 => go::<sha512_256::Engine>(mid, len), Alg::Ripemd160 => go::<ripemd160::Engine>(mid, len),
    }
}

macro_rules! dispatch { ($kind:expr, $go:ident, $arg:expr) => {
    match $kind {
        Kind::Plain(Alg::Sha1) => $go::<sha1::Engine>($arg), Kind::Plain(Alg::Sha256) => $go::<sha256::Engine>($arg),
        Kind::Plain(Alg::Sha384) => $go::<sha384::Engine>($arg), Kind::Plain(Alg::Sha512) => $go::<sha512::Engine>($arg),
        Kind::Plain(Alg::Sha512_256) => $go::<sha512_256::Engine>($arg), Kind::Plain(Alg::Ripemd160) => $go::<ripemd160::Engine>($arg),
        Kind::Sip => $go::<siphash24::Engine>($arg),
        Kind::TagA => $go::<sha256t::Engine<TagA>>($arg), Kind::TagB => $go::<sha256t::Engine<TagB>>($arg), Kind::TagLong => $go::<sha256t::Engine<TagLong>>($arg),
        Kind::Hmac(Under::Plain(Alg::Sha1)) => $go::<hmac::Engine<sha1::Engine>>($arg),
        Kind::Hmac(Under::Plain(Alg::Sha256)) => $go::<hmac::Engine<sha256::Engine>>($arg),
        Kind::Hmac(Under::Plain(Alg::Sha384)) => $go::<hmac::Engine<sha384::Engine>>($arg),
        Kind::Hmac(Under::Plain(Alg::Sha512)) => $go::<hmac::Engine<sha512::Engine>>($arg),
        Kind::Hmac(Under::Plain(Alg::Sha512_256)) => $go::<hmac::Engine<sha512_256::Engine>>($arg),
        Kind::Hmac(Under::Plain(Alg::Ripemd160)) => $go::<hmac::Engine<ripemd160::Engine>>($arg),
        Kind::Hmac(Under::Sip) => $go::<hmac::Engine<siphash24::Engine>>($arg),
        Kind::Hmac(Under::TagA) => $go::<hmac::Engine<sha256t::Engine<TagA>>>($arg),
        Kind::Hmac(Under::Nested) => $go::<hmac::Engine<hmac::Engine<sha256::Engine>>>($arg),
    }
} }

// ---- tags -------------------------------------------------------------------------------------

pub const TAG_A: &[u8] = b"mon/tag/A";
pub const TAG_B: &[u8] = b"BIP0340/challenge";

#[derive(Clone)]
pub struct TagA;
impl sha256t::Tag for TagA {
    fn engine() -> sha256t::Engine<Self> { HashEngine::from_midstate(sha256::Midstate::hash_tag(TAG_A), 64) }
}
#[derive(Clone)]
pub struct TagB;
impl sha256t::Tag for TagB {
    fn engine() -> sha256t::Engine<Self> {
        const M: sha256::Midstate = sha256::Midstate::hash_tag(TAG_B);
        HashEngine::from_midstate(M, 64)
    }
}
thread_local! { static TAG: RefCell<Vec<u8>> = RefCell::new(Vec::new()); }
/// A tag type whose tag string is chosen at run time (per thread).
#[derive(Clone)]
pub struct TagDyn;
impl sha256t::Tag for TagDyn {
    fn engine() -> sha256t::Engine<Self> { TAG.with(|t| HashEngine::from_midstate(sha256::Midstate::hash_tag(&t.borrow()), 64)) }
}
pub fn set_tag(t: &[u8]) { TAG.with(|x| *x.borrow_mut() = t.to_vec()) }
/// A tag whose engine does not start at 64 bytes: the state after absorbing three blocks.
#[derive(Clone)]
pub struct TagLong;
pub fn tag_long_prefix() -> Vec<u8> { (0..192u32).map(|i| (i * 7 + 3) as u8).collect() }
impl sha256t::Tag for TagLong {
    fn engine() -> sha256t::Engine<Self> {
        let mut e = sha256::Engine::default();
        e.input(&tag_long_prefix());
        HashEngine::from_midstate(e.midstate(), 192)
    }
}

// ---- engine kinds -----------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Plain(Alg), Sip, TagA, TagB, TagLong, Hmac(Under) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Under { Plain(Alg), Sip, TagA, Nested }

pub const UNDERS: [Under; 9] = [
    Under::Plain(Alg::Sha1), Under::Plain(Alg::Sha256), Under::Plain(Alg::Sha384), Under::Plain(Alg::Sha512),
    Under::Plain(Alg::Sha512_256), Under::Plain(Alg::Ripemd160), Under::Sip, Under::TagA, Under::Nested,
];

pub fn kinds() -> Vec<Kind> {
    let mut v: Vec<Kind> = crate::refimpl::ALGS.iter().map(|a| Kind::Plain(*a)).collect();
    v.extend([Kind::Sip, Kind::TagA, Kind::TagB, Kind::TagLong]);
    v.extend(UNDERS.iter().map(|u| Kind::Hmac(*u)));
    v
}

impl Under {
    pub fn block(self) -> usize { match self { Under::Plain(a) => a.block(), Under::Sip => 32, _ => 64 } }
    pub fn outlen(self) -> usize { match self { Under::Plain(a) => a.len(), Under::Sip => 8, _ => 32 } }
    pub fn model(self) -> Model {
        match self {
            Under::Plain(a) => Model::plain(a), Under::Sip => Model::sip(0, 0), Under::TagA => Model::tagged(TAG_A),
            Under::Nested => Model::hmac(&Model::plain(Alg::Sha256), 64, &[]),
        }
    }
    pub fn name(self) -> String { match self { Under::Plain(a) => a.name().into(), Under::Sip => "siphash24".into(), Under::TagA => "sha256t".into(), Under::Nested => "hmac-sha256".into() } }
}

impl Kind {
    pub fn name(self) -> String {
        match self { Kind::Plain(a) => a.name().into(), Kind::Sip => "siphash24".into(), Kind::TagA => "sha256t/A".into(), Kind::TagB => "sha256t/B".into(), Kind::TagLong => "sha256t/long".into(), Kind::Hmac(u) => format!("hmac-{}", u.name()) }
    }
    pub fn block(self) -> usize { match self { Kind::Plain(a) => a.block(), Kind::Sip => 32, Kind::Hmac(u) => u.block(), _ => 64 } }
    /// Granularity at which a midstate captures the whole state.
    pub fn resume_unit(self) -> usize { match self { Kind::Sip | Kind::Hmac(Under::Sip) => 8, k => k.block() } }
    pub fn id(self) -> u64 { kinds().iter().position(|k| *k == self).unwrap() as u64 }
}

/// Key material: SipHash keys or HMAC key.
#[derive(Clone, Debug, Default)]
pub struct Keys { pub k0: u64, pub k1: u64, pub hkey: Vec<u8>, pub default: bool }

pub fn keys(rng: &mut Rng, k: Kind) -> Keys {
    let default = rng.one_in(8);
    let b = k.block();
    let n = match rng.usize(5) { 0 => rng.usize(b), 1 => b, 2 => b + 1 + rng.usize(b), 3 => b - 1, _ => rng.usize(300) };
    Keys { k0: rng.u64(), k1: rng.u64(), hkey: rng.bytes(n), default }
}

fn boxed<E: HashEngine + 'static>(e: E) -> Box<dyn Dyn> where E::Midstate: Mid { Box::new(Live(e)) }
fn hm<E: HashEngine + 'static>(k: &Keys) -> Box<dyn Dyn> where E::Midstate: Mid {
    boxed(if k.default { hmac::Engine::<E>::default() } else { hmac::Engine::<E>::new(&k.hkey) })
}

/// A fresh engine and the model of it.
pub fn make(kind: Kind, k: &Keys) -> (Box<dyn Dyn>, Model) { (make_engine(kind, k), make_model(kind, k)) }

pub fn make_model(kind: Kind, k: &Keys) -> Model {
    match kind {
        Kind::Plain(a) => Model::plain(a),
        Kind::Sip => if k.default { Model::sip(0, 0) } else { Model::sip(k.k0, k.k1) },
        Kind::TagA => Model::tagged(TAG_A),
        Kind::TagB => Model::tagged(TAG_B),
        Kind::TagLong => { let mut m = Model::plain(Alg::Sha256); m.update(&tag_long_prefix()); m }
        Kind::Hmac(u) => Model::hmac(&u.model(), u.block(), if k.default { &[] } else { &k.hkey }),
    }
}

pub fn make_engine(kind: Kind, k: &Keys) -> Box<dyn Dyn> {
    let d = k.default;
    macro_rules! plain { ($m:ident) => { boxed(if d { <$m::Engine as Default>::default() } else { <$m::Engine as HashEngine>::new() }) } }
    macro_rules! tag { ($t:ty) => { boxed(match (d, k.k0 & 1) { (true, _) => <sha256t::Engine<$t>>::default(), (_, 0) => <sha256t::Engine<$t> as HashEngine>::new(), _ => <sha256t::Hash<$t>>::engine() }) } }
    match kind {
        Kind::Plain(Alg::Sha1) => plain!(sha1), Kind::Plain(Alg::Sha256) => plain!(sha256),
        Kind::Plain(Alg::Sha384) => plain!(sha384), Kind::Plain(Alg::Sha512) => plain!(sha512),
        Kind::Plain(Alg::Sha512_256) => plain!(sha512_256), Kind::Plain(Alg::Ripemd160) => plain!(ripemd160),
        Kind::Sip => boxed(if d { siphash24::Engine::default() } else { siphash24::Engine::with_keys(k.k0, k.k1) }),
        Kind::TagA => tag!(TagA), Kind::TagB => tag!(TagB), Kind::TagLong => tag!(TagLong),
        Kind::Hmac(u) => match u {
            Under::Plain(Alg::Sha1) => hm::<sha1::Engine>(k), Under::Plain(Alg::Sha256) => hm::<sha256::Engine>(k),
            Under::Plain(Alg::Sha384) => hm::<sha384::Engine>(k), Under::Plain(Alg::Sha512) => hm::<sha512::Engine>(k),
            Under::Plain(Alg::Sha512_256) => hm::<sha512_256::Engine>(k), Under::Plain(Alg::Ripemd160) => hm::<ripemd160::Engine>(k),
            Under::Sip => hm::<siphash24::Engine>(k), Under::TagA => hm::<sha256t::Engine<TagA>>(k),
            Under::Nested => hm::<hmac::Engine<sha256::Engine>>(k),
        },
    }
}

/// `HashEngine::hash_byte_chunks` and `HashEngine::hash` of each engine type, with default keys.
pub fn trait_chunks(kind: Kind, chunks: &[&[u8]]) -> Vec<u8> {
    fn go<E: HashEngine>(c: &[&[u8]]) -> Vec<u8> { E::hash_byte_chunks(c.iter()).as_ref().to_vec() }
    dispatch!(kind, go, chunks)
}
/// The same through lists of other kinds: owned items, iterators of unknown or misleading length.
pub fn trait_chunks_odd(kind: Kind, chunks: &[&[u8]], how: usize) -> Vec<u8> {
    struct Lies<I>(I, (usize, Option<usize>));
    impl<I: Iterator> Iterator for Lies<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> { self.0.next() }
        fn size_hint(&self) -> (usize, Option<usize>) { self.1 }
    }
    fn go<E: HashEngine>((c, how): (&[&[u8]], usize)) -> Vec<u8> {
        match how % 6 {
            0 => E::hash_byte_chunks(c.iter().map(|x| x.to_vec())),
            1 => E::hash_byte_chunks(c.iter().filter(|x| x.len() < usize::MAX)),
            2 => E::hash_byte_chunks(Lies(c.iter(), (0, Some(0)))),
            3 => E::hash_byte_chunks(Lies(c.iter(), (3, None))),
            4 => E::hash_byte_chunks(c.iter().map(|x| x.to_vec()).collect::<std::collections::LinkedList<_>>()),
            _ => { let mut n = 0; E::hash_byte_chunks(core::iter::from_fn(|| { n += 1; c.get(n - 1).map(|x| Box::<[u8]>::from(*x)) })) }
        }.as_ref().to_vec()
    }
    dispatch!(kind, go, (chunks, how))
}
pub fn trait_hash(kind: Kind, d: &[u8]) -> Vec<u8> {
    fn go<E: HashEngine>(d: &[u8]) -> Vec<u8> { E::hash(d).as_ref().to_vec() }
    dispatch!(kind, go, d)
}
pub fn block_const(kind: Kind) -> usize {
    fn go<E: HashEngine>(_: ()) -> usize { E::BLOCK_SIZE }
    dispatch!(kind, go, ())
}


