//! C10 and C17: monitors of the serialised forms and the published schema.

#[allow(unused_imports)]
use crate::rec::{Cfg, Total};

#[cfg(not(feature = "serde"))]
pub fn c10(_: &Cfg, _: Option<&str>) -> Total { Total::default() }
#[cfg(not(feature = "schemars"))]
pub fn c17(_: &Cfg, _: Option<&str>) -> Total { Total::default() }

#[cfg(feature = "serde")]
pub use with_serde::c10;
#[cfg(feature = "schemars")]
pub use with_schema::c17;

#[cfg(feature = "serde")]
pub mod with_serde {
    use std::fmt;

    use serde::de::{self, DeserializeOwned, Deserializer, Visitor};
    use serde::ser::{self, Serialize, Serializer};

    use crate::gen::{self, hex};
    use crate::rec::{quiet, Cfg, Rec, Total};
    use crate::rng::{fp, fp_bytes, Rng};
    use crate::vals::value;
    use crate::values::*;

    #[derive(Debug, PartialEq, Clone)]
    pub struct SErr(pub String);
    impl fmt::Display for SErr { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
    impl std::error::Error for SErr {}
    impl de::Error for SErr { fn custom<T: fmt::Display>(m: T) -> Self { SErr(m.to_string()) } }
    impl ser::Error for SErr { fn custom<T: fmt::Display>(m: T) -> Self { SErr(m.to_string()) } }

    /// What a format hands to the visitor.
    #[derive(Debug, Clone)]
    pub enum Item {
        BorrowedStr(String), CopiedStr(String), OwnedStr(String),
        BorrowedBytes(Vec<u8>), CopiedBytes(Vec<u8>), OwnedBytes(Vec<u8>),
        U64(u64), I64(i64), F64(f64), Bool(bool), Char(char), Unit, None, SomeStr(String), Seq(Vec<u8>), EmptyMap, NewtypeStr(String),
    }

    /// A format of our own: readable or not, delivering exactly one item.
    pub struct Fmt<'de> { pub readable: bool, pub item: &'de Item }
    impl<'de> Deserializer<'de> for Fmt<'de> {
        type Error = SErr;
        fn is_human_readable(&self) -> bool { self.readable }
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SErr> {
            match self.item {
                Item::BorrowedStr(s) => v.visit_borrowed_str(s), Item::CopiedStr(s) => v.visit_str(&s.clone()), Item::OwnedStr(s) => v.visit_string(s.clone()),
                Item::BorrowedBytes(b) => v.visit_borrowed_bytes(b), Item::CopiedBytes(b) => v.visit_bytes(&b.clone()), Item::OwnedBytes(b) => v.visit_byte_buf(b.clone()),
                Item::U64(x) => v.visit_u64(*x), Item::I64(x) => v.visit_i64(*x), Item::F64(x) => v.visit_f64(*x), Item::Bool(x) => v.visit_bool(*x),
                Item::Char(c) => v.visit_char(*c), Item::Unit => v.visit_unit(), Item::None => v.visit_none(),
                Item::SomeStr(s) => v.visit_some(de::value::StrDeserializer::<SErr>::new(s)),
                Item::Seq(b) => v.visit_seq(de::value::SeqDeserializer::<_, SErr>::new(b.iter().copied())),
                Item::EmptyMap => v.visit_map(de::value::MapDeserializer::<_, SErr>::new(std::iter::empty::<(u8, u8)>())),
                Item::NewtypeStr(s) => v.visit_newtype_struct(de::value::StrDeserializer::<SErr>::new(s)),
            }
        }
        serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    }

    /// A format of our own on the way out: records the one call made.
    #[derive(Debug, PartialEq)]
    pub enum Said { Str(String), Bytes(Vec<u8>), Other(&'static str) }
    pub struct Out(pub bool);
    macro_rules! other { ($($m:ident($t:ty)),*) => { $(fn $m(self, _: $t) -> Result<Said, SErr> { Ok(Said::Other(stringify!($m))) })* } }
    impl Serializer for Out {
        type Ok = Said; type Error = SErr;
        type SerializeSeq = ser::Impossible<Said, SErr>; type SerializeTuple = ser::Impossible<Said, SErr>; type SerializeTupleStruct = ser::Impossible<Said, SErr>;
        type SerializeTupleVariant = ser::Impossible<Said, SErr>; type SerializeMap = ser::Impossible<Said, SErr>; type SerializeStruct = ser::Impossible<Said, SErr>;
        type SerializeStructVariant = ser::Impossible<Said, SErr>;
        fn is_human_readable(&self) -> bool { self.0 }
        fn serialize_str(self, s: &str) -> Result<Said, SErr> { Ok(Said::Str(s.into())) }
        fn serialize_bytes(self, b: &[u8]) -> Result<Said, SErr> { Ok(Said::Bytes(b.to_vec())) }
        other!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64), serialize_char(char));
        fn serialize_none(self) -> Result<Said, SErr> { Ok(Said::Other("none")) }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Said, SErr> { Ok(Said::Other("some")) }
        fn serialize_unit(self) -> Result<Said, SErr> { Ok(Said::Other("unit")) }
        fn serialize_unit_struct(self, _: &'static str) -> Result<Said, SErr> { Ok(Said::Other("unit struct")) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Said, SErr> { Ok(Said::Other("variant")) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Said, SErr> { v.serialize(self) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Said, SErr> { Ok(Said::Other("variant")) }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, SErr> { Err(SErr("seq".into())) }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, SErr> { Err(SErr("tuple".into())) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, SErr> { Err(SErr("tuple struct".into())) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, SErr> { Err(SErr("variant".into())) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, SErr> { Err(SErr("map".into())) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, SErr> { Err(SErr("struct".into())) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, SErr> { Err(SErr("variant".into())) }
    }

    struct C10<'a> { r: &'a mut Rec, cfg: &'a Cfg, mode: usize }

    impl<'a> C10<'a> {
        /// A decoding attempt that must give `want` (None: an error).
        fn take<V: Val, X: fmt::Debug>(&mut self, how: &str, payload: &dyn fmt::Debug, want: Option<V>, f: impl FnOnce() -> Result<V, X>) {
            let r = &mut *self.r;
            match (quiet(f), want) {
                (Err(p), _) => r.viol("panic", || format!("{} from {} {:?}: {}", V::NAME, how, payload, p)),
                (Ok(Ok(v)), Some(w)) => r.check(v.to_arr().as_ref() == w.to_arr().as_ref(), "round trip", || format!("{} from {} {:?}: got {}", V::NAME, how, payload, v)),
                (Ok(Ok(v)), None) => r.viol("malformed accepted", || format!("{} from {} {:?}: got {}", V::NAME, how, payload, v)),
                (Ok(Err(e)), Some(_)) => r.viol("rejected", || format!("{} from {} {:?}: {:?}", V::NAME, how, payload, e)),
                (Ok(Err(_)), None) => {}
            }
            r.count(if want.is_some() { "good payloads judged" } else { "malformed payloads judged" }, 1);
        }

        fn good<V: Val>(&mut self, b: &[u8]) {
            let v = V::from_bytes(b);
            let n = V::N;
            let lo = hex(b);
            self.r.case("c10 value", [n as u64, fp_bytes(b), 0, 0, 0, 0]);
            self.r.nontrivial(fp(&[10, fp_bytes(V::NAME.as_bytes()), fp_bytes(b)]));
            // Our own formats.
            for (h, w) in [(true, Said::Str(lo.clone())), (false, Said::Bytes(b.to_vec()))] {
                let got = Serialize::serialize(&v, Out(h));
                self.r.check(got == Ok(w), "serialised form", || format!("{} readable={} of {}: {:?}", V::NAME, h, lo, got));
            }
            let mixed: String = lo.chars().enumerate().map(|(i, c)| if (i * 5 + b[0] as usize) % 3 == 0 { c.to_ascii_uppercase() } else { c }).collect();
            for s in [&lo, &lo.to_ascii_uppercase(), &mixed] {
                for it in [Item::BorrowedStr(s.clone()), Item::CopiedStr(s.clone()), Item::OwnedStr(s.clone()), Item::BorrowedBytes(s.clone().into()), Item::CopiedBytes(s.clone().into()), Item::OwnedBytes(s.clone().into())] {
                    self.take("readable", &it, Some(v), || V::deserialize(Fmt { readable: true, item: &it }));
                }
            }
            for it in [Item::BorrowedBytes(b.to_vec()), Item::CopiedBytes(b.to_vec()), Item::OwnedBytes(b.to_vec())] {
                self.take("binary", &it, Some(v), || V::deserialize(Fmt { readable: false, item: &it }));
            }
            // JSON, in each way its reader delivers strings.
            let js = serde_json::to_string(&v).map_err(|e| e.to_string());
            let q = format!("\"{}\"", lo);
            self.r.eq(js, Ok(q.clone()), "json text", || V::NAME.into());
            self.r.eq(serde_json::to_value(v).ok(), Some(serde_json::Value::String(lo.clone())), "json value", || V::NAME.into());
            self.take("json str", &q, Some(v), || serde_json::from_str(&q));
            self.take("json slice", &q, Some(v), || serde_json::from_slice(q.as_bytes()));
            self.take("json reader", &q, Some(v), || serde_json::from_reader(Bits(q.as_bytes(), 1 + b[0] as usize % 7)));
            self.take("json value", &q, Some(v), || serde_json::from_value(serde_json::Value::String(lo.clone())));
            let i = self.r.rng.usize(lo.len());
            let esc: String = lo.chars().enumerate().map(|(j, c)| if j == i || j % 17 == 3 { format!("\\u{:04x}", c as u32) } else { c.to_string() }).collect();
            let esc = format!(" \"{}\" ", esc);
            self.take("json escaped str", &esc, Some(v), || serde_json::from_str(&esc));
            self.take("json escaped slice", &esc, Some(v), || serde_json::from_slice(esc.as_bytes()));
            self.take("json escaped reader", &esc, Some(v), || serde_json::from_reader(esc.as_bytes()));
            // bincode
            let mut w = (n as u64).to_le_bytes().to_vec();
            w.extend(b);
            self.r.eq(bincode::serialize(&v).ok(), Some(w.clone()), "bincode bytes", || V::NAME.into());
            self.take("bincode slice", &w, Some(v), || bincode::deserialize(&w));
            self.take("bincode reader", &w, Some(v), || bincode::deserialize_from(Bits(&w, 1 + b[0] as usize % 5)));
            // CBOR
            let mut c = Vec::new();
            let ok = ciborium::into_writer(&v, &mut c).is_ok();
            let mut wc = if n < 24 { vec![0x40 + n as u8] } else { vec![0x58, n as u8] };
            wc.extend(b);
            self.r.check(ok && c == wc, "cbor bytes", || format!("{}: {}", V::NAME, hex(&c)));
            self.take("cbor reader", &wc, Some(v), || ciborium::from_reader(Bits(&wc, 1 + b[0] as usize % 9)));
            // Inside other data.
            let tup = (7u8, v, Some(v), vec![v, v], "x".to_string());
            let j = serde_json::to_string(&tup).unwrap_or_default();
            self.nested("json", &tup, serde_json::from_str(&j).map_err(|e| e.to_string()));
            self.nested("json reader", &tup, serde_json::from_reader(j.as_bytes()).map_err(|e| e.to_string()));
            let bc = bincode::serialize(&tup).unwrap_or_default();
            self.nested("bincode", &tup, bincode::deserialize(&bc).map_err(|e| e.to_string()));
            let mut cb = Vec::new();
            let _ = ciborium::into_writer(&tup, &mut cb);
            self.nested("cbor", &tup, ciborium::from_reader(&cb[..]).map_err(|e| e.to_string()));
            let m: std::collections::BTreeMap<V, u8> = [(v, 1)].into_iter().collect();
            let j = serde_json::to_string(&m).unwrap_or_default();
            self.r.eq(serde_json::from_str::<std::collections::BTreeMap<V, u8>>(&j).ok(), Some(m), "map key", || format!("{} {}", V::NAME, j));
            self.r.sample(|| format!("{} as {} / {}", V::NAME, q, hex(&w)));
        }

        fn nested<T: PartialEq + fmt::Debug>(&mut self, how: &str, want: &T, got: Result<T, String>) {
            self.r.check(got.as_ref() == Ok(want), "nested round trip", || format!("{}: {:?} became {:?}", how, want, got));
            self.r.count("nested documents judged", 1);
        }

        /// Everything that is not exactly the right text, readable formats.
        fn bad_text<V: Val>(&mut self, s: &str) {
            let want = s.len() == 2 * V::N && s.bytes().all(|c| c.is_ascii_hexdigit());
            if want { return }
            self.r.case("c10 bad text", [V::N as u64, s.len() as u64, fp_bytes(s.as_bytes()), 0, 0, 0]);
            self.r.nontrivial(fp(&[100, fp_bytes(V::NAME.as_bytes()), fp_bytes(s.as_bytes())]));
            for it in [Item::BorrowedStr(s.into()), Item::CopiedStr(s.into()), Item::OwnedStr(s.into()), Item::BorrowedBytes(s.into()), Item::CopiedBytes(s.into()), Item::OwnedBytes(s.into())] {
                self.take::<V, _>("readable", &it, None, || V::deserialize(Fmt { readable: true, item: &it }));
            }
            let j = serde_json::to_string(s).unwrap();
            self.take::<V, _>("json str", &j, None, || serde_json::from_str(&j));
            self.take::<V, _>("json reader", &j, None, || serde_json::from_reader(j.as_bytes()));
            self.take::<V, _>("json value", &j, None, || serde_json::from_value(serde_json::Value::String(s.into())));
        }

        /// Byte strings of a wrong length, binary formats.
        fn bad_bytes<V: Val>(&mut self, b: &[u8]) {
            if b.len() == V::N { return }
            self.r.case("c10 bad bytes", [V::N as u64, b.len() as u64, fp_bytes(b), 0, 0, 0]);
            self.r.nontrivial(fp(&[101, fp_bytes(V::NAME.as_bytes()), fp_bytes(b)]));
            for it in [Item::BorrowedBytes(b.to_vec()), Item::CopiedBytes(b.to_vec()), Item::OwnedBytes(b.to_vec())] {
                self.take::<V, _>("binary", &it, None, || V::deserialize(Fmt { readable: false, item: &it }));
            }
            let bc = bincode::serialize(&ByteBuf(b)).unwrap();
            self.take::<V, _>("bincode", &bc, None, || bincode::deserialize(&bc));
            self.take::<V, _>("bincode reader", &bc, None, || bincode::deserialize_from(&bc[..]));
            let mut cb = Vec::new();
            ciborium::into_writer(&ByteBuf(b), &mut cb).unwrap();
            self.take::<V, _>("cbor", &cb, None, || ciborium::from_reader(&cb[..]));
        }

        /// Other data types than the expected one.
        fn bad_type<V: Val>(&mut self) {
            let n = V::N;
            let b = value(&mut self.r.rng, n);
            let lo = hex(&b);
            self.r.case("c10 bad type", [n as u64, fp_bytes(&b), 0, 0, 0, 0]);
            self.r.nontrivial(fp(&[102, fp_bytes(V::NAME.as_bytes()), fp_bytes(&b)]));
            let x = self.r.rng.u64();
            for readable in [true, false] {
                for it in [Item::U64(x), Item::U64(0), Item::U64(n as u64), Item::I64(-1), Item::F64(0.5), Item::Bool(true), Item::Unit, Item::None, Item::EmptyMap, Item::Char('a'), Item::Seq(vec![]), Item::Seq(b[1..].to_vec())] {
                    self.take::<V, _>(if readable { "readable" } else { "binary" }, &it, None, || V::deserialize(Fmt { readable, item: &it }));
                }
                // A sequence of the right bytes is the wrong type too; should it be accepted, only as that value.
                let it = Item::Seq(b.clone());
                let r = quiet(|| V::deserialize(Fmt { readable, item: &it }));
                self.r.check(matches!(&r, Ok(Err(_))) || matches!(&r, Ok(Ok(v)) if v.to_arr().as_ref() == &b[..]), "sequence", || format!("{} {:?}", V::NAME, r.map(|x| x.map(|v| v.to_string()))));
            }
            // Text where bytes belong and bytes where text belongs.
            for it in [Item::BorrowedStr(lo.clone()), Item::CopiedStr("a".repeat(n)), Item::OwnedStr("\0".repeat(n)), Item::OwnedBytes(lo.clone().into_bytes())] {
                self.take::<V, _>("binary", &it, None, || V::deserialize(Fmt { readable: false, item: &it }));
            }
            for it in [Item::BorrowedBytes(b.clone()), Item::CopiedBytes(b.clone()), Item::OwnedBytes(b.clone())] {
                self.take::<V, _>("readable raw bytes", &it, None, || V::deserialize(Fmt { readable: true, item: &it }));
            }
            // Invalid UTF-8 of the right length, and with one bad byte.
            let mut u = lo.clone().into_bytes();
            let i = self.r.rng.usize(u.len());
            u[i] = 0x80 | self.r.rng.u64() as u8;
            for it in [Item::BorrowedBytes(u.clone()), Item::CopiedBytes(u.clone()), Item::OwnedBytes(u.clone()), Item::OwnedBytes(vec![0xff; 2 * n])] {
                self.take::<V, _>("readable invalid utf-8", &it, None, || V::deserialize(Fmt { readable: true, item: &it }));
            }
            // The right text with something that is not UTF-8 (or not text) before, after or inside it.
            for junk in [&[0xff][..], &[0x80], &[0xc3], &[0xe2, 0x82], &[0xf0, 0x9f, 0x92], &[0xc0, 0xaf], &[0xed, 0xa0, 0x80], &[0], b" ", b"\n", &[0xef, 0xbb, 0xbf], &[0xff; 9]] {
                for at in [0, 1, n, self.r.rng.usize(2 * n), 2 * n - 1, 2 * n] {
                    let mut t = lo.clone().into_bytes();
                    for (k, c) in junk.iter().enumerate() { t.insert(at + k, *c) }
                    let mut w = t.clone();
                    if at < 2 * n { w.truncate(2 * n) } else { w.drain(..junk.len()); }
                    for x in [t, w] {
                        for it in [Item::BorrowedBytes(x.clone()), Item::CopiedBytes(x.clone()), Item::OwnedBytes(x.clone())] {
                            self.take::<V, _>("readable, junk in the text", &it, None, || V::deserialize(Fmt { readable: true, item: &it }));
                        }
                        let mut q = b"\"".to_vec();
                        q.extend(&x);
                        q.push(b'"');
                        self.take::<V, _>("json, junk in the text", &q, None, || serde_json::from_slice(&q));
                    }
                }
            }
            let mut q = b"\"".to_vec();
            q.extend(&u);
            q.push(b'"');
            self.take::<V, _>("json invalid utf-8", &q, None, || serde_json::from_slice(&q));
            self.take::<V, _>("json invalid utf-8", &q, None, || serde_json::from_reader(&q[..]));
            for j in ["null", "true", "0", "-1", "1e5", "[]", "{}", "[\"00\"]", "\"\"", "", "\"", "nul", "{\"Hash\":\"00\"}"] {
                self.take::<V, _>("json", &j, None, || serde_json::from_str(j));
                self.take::<V, _>("json", &j, None, || serde_json::from_reader(j.as_bytes()));
            }
            let arr = serde_json::to_string(&b).unwrap();
            let r = quiet(|| serde_json::from_str::<V>(&arr));
            self.r.check(r.as_ref().map(|x| x.is_err()) == Ok(true), "malformed accepted", || format!("{} from json {}", V::NAME, arr));
            let one = format!("[\"{}\"]", lo);
            self.take::<V, _>("json", &one, None, || serde_json::from_str(&one));
            // CBOR: text, integers, arrays, tags, truncations.
            for mk in 0..6 {
                let mut cb = Vec::new();
                let _ = match mk {
                    0 => ciborium::into_writer(&lo, &mut cb), 1 => ciborium::into_writer(&x, &mut cb), 2 => ciborium::into_writer(&(), &mut cb),
                    3 => ciborium::into_writer(&"a".repeat(n), &mut cb), 4 => ciborium::into_writer(&1.5f64, &mut cb), _ => ciborium::into_writer(&vec![lo.clone()], &mut cb),
                };
                self.take::<V, _>("cbor", &cb, None, || ciborium::from_reader(&cb[..]));
            }
            // Truncated binary payloads.
            let v = V::from_bytes(&b);
            let bc = bincode::serialize(&v).unwrap();
            for k in 0..bc.len() { let t = bc[..k].to_vec(); self.take::<V, _>("bincode truncated", &t, None, || bincode::deserialize(&t)) }
            let mut cb = Vec::new();
            let _ = ciborium::into_writer(&v, &mut cb);
            for k in 0..cb.len() { let t = cb[..k].to_vec(); self.take::<V, _>("cbor truncated", &t, None, || ciborium::from_reader(&t[..])) }
        }
    }

    /// A byte string as serde bytes.
    struct ByteBuf<'a>(&'a [u8]);
    impl<'a> Serialize for ByteBuf<'a> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(self.0) } }

    /// A reader that returns a few bytes at a time.
    struct Bits<'a>(&'a [u8], usize);
    impl<'a> std::io::Read for Bits<'a> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let n = self.1.min(b.len()).min(self.0.len());
            b[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }

    fn assert_owned<T: DeserializeOwned>() {}

    pub fn bad_string(rng: &mut Rng, n: usize) -> String {
        let mut s: Vec<char> = hex(&rng.bytes(n)).chars().collect();
        match rng.usize(8) {
            0 => { let k = rng.usize(2 * n); s.truncate(k) }
            1 => { let k = 1 + rng.usize(2 * n + 2); for _ in 0..k { s.push(*rng.pick(&['0', 'a', 'F', '9'])) } }
            2 => { let i = rng.usize(s.len()); s[i] = *rng.pick(&['g', 'G', 'x', ' ', '-', '+', '_', '/', ':', '@', '`', '\0', '\n', 'é', '\u{ff10}', '\u{1d7d8}', '.', '"', '\\']) }
            3 => { s.insert(0, '0'); s.insert(1, 'x') }
            4 => { s[0] = '0'; s[1] = 'x' }
            5 => { let i = rng.usize(s.len() + 1); let i = if rng.one_in(3) { s.len() } else { i }; s.insert(i, *rng.pick(&[' ', '\n', '\t', '\0', '\u{feff}'])) }
            6 => { let i = rng.usize(s.len()); s.remove(i); let j = rng.usize(s.len()); s.remove(j); s.push('é') }
            _ => { let k = rng.usize(4 * n); s = gen::content(rng, 5, k).into_iter().map(|b| b as char).collect() }
        }
        s.into_iter().collect()
    }

    impl<'a> ValVisitor for C10<'a> {
        fn visit<V: Val>(&mut self) {
            assert_owned::<V>();
            let n = V::N;
            match self.mode {
                0 => {
                    for b in [vec![0; n], vec![255; n], (0..n).map(|i| (i * 17) as u8).collect::<Vec<_>>()] { self.good::<V>(&b) }
                    for l in (0..4 * n + 40).chain([256, 256 + n, 65536 + n, 512 + 2 * n]) {
                        let b = self.r.rng.bytes(l);
                        self.bad_bytes::<V>(&b);
                        let s: String = hex(&self.r.rng.bytes(l / 2 + 1))[..l].to_string();
                        self.bad_text::<V>(&s);
                    }
                }
                1 => for _ in 0..self.cfg.n(20, 100) { self.bad_type::<V>() },
                _ => for _ in 0..self.cfg.n(40, 150) {
                    let b = value(&mut self.r.rng, n);
                    self.good::<V>(&b);
                    let s = bad_string(&mut self.r.rng, n);
                    self.bad_text::<V>(&s);
                    let l = self.r.rng.usize(3 * n);
                    let b = self.r.rng.bytes(l);
                    self.bad_bytes::<V>(&b);
                },
            }
        }
    }

    /// Types of our own given serde implementations by the exported macro; their text is what their
    /// own `Display` and `FromStr` say, which is not plain hex.
    pub mod user {
        use std::marker::PhantomData;
        use std::slice::SliceIndex;

        use super::*;

        pub trait Marker: Copy + PartialEq + fmt::Debug {}
        #[derive(Clone, Copy, PartialEq, Debug)]
        pub struct M;
        impl Marker for M {}

        #[derive(Clone, Copy, PartialEq, Debug)]
        pub struct Rev([u8; 32]);
        #[derive(Clone, Copy, PartialEq, Debug)]
        pub struct Short([u8; 5]);
        #[derive(Clone, Copy, PartialEq, Debug)]
        pub struct Gen<T: Marker>([u8; 9], PhantomData<T>);

        pub trait User: Copy + PartialEq + fmt::Debug + Serialize + DeserializeOwned { const N: usize; fn of(b: &[u8]) -> Self; fn bytes(&self) -> Vec<u8>; fn written(b: &[u8]) -> String; fn read(s: &str) -> Option<Vec<u8>>; }
        fn plain(s: &str, n: usize) -> Option<Vec<u8>> { if s.len() == 2 * n && s.bytes().all(|c| c.is_ascii_hexdigit()) { Some((0..n).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()) } else { None } }
        fn rev(b: &[u8]) -> Vec<u8> { b.iter().rev().copied().collect() }

        macro_rules! user {
            ($t:ident, $n:expr, [$($g:ident: $gt:ident)?], $mk:expr, $w:expr, $r:expr, $u:ty) => {
                impl<$($g: $gt)?> $t<$($g)?> { pub fn from_slice(s: &[u8]) -> Result<Self, chf::FromSliceError> { match <[u8; $n]>::try_from(s) { Ok(a) => { let f: fn([u8; $n]) -> Self = $mk; Ok(f(a)) } Err(_) => Err(chf::FromSliceError { expected: $n, got: s.len() }) } } }
                impl<I: SliceIndex<[u8]>, $($g: $gt)?> std::ops::Index<I> for $t<$($g)?> { type Output = I::Output; fn index(&self, i: I) -> &I::Output { &self.0[i] } }
                impl<$($g: $gt)?> fmt::Display for $t<$($g)?> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { let w: fn(&[u8]) -> String = $w; f.write_str(&w(&self.0)) } }
                impl<$($g: $gt)?> std::str::FromStr for $t<$($g)?> { type Err = SErr; fn from_str(s: &str) -> Result<Self, SErr> { let r: fn(&str) -> Option<Vec<u8>> = $r; r(s).and_then(|b| Self::from_slice(&b).ok()).ok_or(SErr("text".into())) } }
                chf::serde_impl!($t, $n $(, $g: $gt)?);
                impl User for $u { const N: usize = $n; fn of(b: &[u8]) -> Self { Self::from_slice(b).ok().expect("length") } fn bytes(&self) -> Vec<u8> { self.0.to_vec() } fn written(b: &[u8]) -> String { let w: fn(&[u8]) -> String = $w; w(b) } fn read(s: &str) -> Option<Vec<u8>> { let r: fn(&str) -> Option<Vec<u8>> = $r; r(s) } }
            };
        }
        user!(Rev, 32, [], Rev, |b| hex(&rev(b)), |s| plain(s, 32).map(|b| rev(&b)), Rev);
        user!(Short, 5, [], Short, |b| format!("short<{}>", hex(b).to_ascii_uppercase()), |s| s.strip_prefix("short<").and_then(|s| s.strip_suffix('>')).and_then(|s| plain(s, 5)), Short);
        user!(Gen, 9, [T: Marker], |b| Gen(b, PhantomData), |b| format!("\u{e9}{}", hex(b)), |s| s.strip_prefix('\u{e9}').and_then(|s| plain(s, 9)), Gen<M>);

        fn judge<U: User>(r: &mut Rec) {
            let b = value(&mut r.rng, U::N);
            let v = U::of(&b);
            let text = U::written(&b);
            let name = std::any::type_name::<U>();
            r.case("c10 user type", [U::N as u64, fp_bytes(&b), 0, 0, 0, 0]);
            r.nontrivial(fp(&[104, fp_bytes(name.as_bytes()), fp_bytes(&b)]));
            for (h, w) in [(true, Said::Str(text.clone())), (false, Said::Bytes(b.clone()))] {
                let got = quiet(|| Serialize::serialize(&v, Out(h)));
                r.check(got == Ok(Ok(w)), "serialised form", || format!("{} readable={} of {}: {:?}", name, h, hex(&b), got));
            }
            let junk = bad_string(&mut r.rng, U::N);
            let l = r.rng.usize(3 * U::N);
            let raw = r.rng.bytes(l);
            for s in [text.clone(), hex(&b), junk, format!("{} ", text), text[..text.len() - 1].to_string(), String::new()] {
                let want = U::read(&s).map(|b| U::of(&b));
                for it in [Item::BorrowedStr(s.clone()), Item::CopiedStr(s.clone()), Item::OwnedStr(s.clone()), Item::BorrowedBytes(s.clone().into()), Item::CopiedBytes(s.clone().into()), Item::OwnedBytes(s.clone().into())] {
                    let got = quiet(|| U::deserialize(Fmt { readable: true, item: &it }).ok());
                    r.check(got == Ok(want), "readable", || format!("{} from {:?}: {:?}", name, it, got));
                    r.count("payloads of types outside the crate", 1);
                }
            }
            for x in [b.clone(), raw, text.clone().into_bytes(), b[1..].to_vec(), Vec::new()] {
                let want = if x.len() == U::N { Some(U::of(&x)) } else { None };
                for it in [Item::BorrowedBytes(x.clone()), Item::CopiedBytes(x.clone()), Item::OwnedBytes(x.clone())] {
                    let got = quiet(|| U::deserialize(Fmt { readable: false, item: &it }).ok());
                    r.check(got == Ok(want), "binary", || format!("{} from {:?}: {:?}", name, it, got));
                    r.count("payloads of types outside the crate", 1);
                }
            }
            r.eq(serde_json::to_string(&v).ok().and_then(|j| serde_json::from_str::<U>(&j).ok()), Some(v), "json", || name.into());
            r.eq(bincode::serialize(&v).ok().and_then(|j| bincode::deserialize::<U>(&j).ok()), Some(v), "bincode", || name.into());
            r.sample(|| format!("{} as {}", name, text));
        }
        pub fn any(i: usize, r: &mut Rec) { match i % 3 { 0 => judge::<Rev>(r), 1 => judge::<Short>(r), _ => judge::<Gen<M>>(r) } }
    }

    /// One case for the guided workloads.
    pub fn guided(r: &mut Rec, cfg: &Cfg, i: usize, a: &[u8], b: &[u8], s: &str) {
        struct G<'a>(&'a mut Rec, &'a Cfg, &'a [u8], &'a [u8], &'a str);
        impl<'a> ValVisitor for G<'a> {
            fn visit<V: Val>(&mut self) {
                let mut a = self.2.to_vec();
                a.resize(V::N, 0);
                let mut c = C10 { r: self.0, cfg: self.1, mode: 0 };
                c.r.case("c10 guided", [V::N as u64, fp_bytes(&a), fp_bytes(self.3), fp_bytes(self.4.as_bytes()), 0, 0]);
                c.r.nontrivial(fp(&[103, fp_bytes(V::NAME.as_bytes()), fp_bytes(&a), fp_bytes(self.3), fp_bytes(self.4.as_bytes())]));
                // Out and back in, in every form.
                let v = V::from_bytes(&a);
                let lo = hex(&a);
                for (h, w) in [(true, Said::Str(lo.clone())), (false, Said::Bytes(a.clone()))] {
                    let got = Serialize::serialize(&v, Out(h));
                    c.r.check(got == Ok(w), "serialised form", || format!("{} readable={} of {}: {:?}", V::NAME, h, lo, got));
                }
                for s in [lo.clone(), lo.to_ascii_uppercase()] {
                    for it in [Item::BorrowedStr(s.clone()), Item::CopiedStr(s.clone()), Item::OwnedStr(s.clone()), Item::BorrowedBytes(s.clone().into()), Item::CopiedBytes(s.clone().into()), Item::OwnedBytes(s.clone().into())] { c.take("readable", &it, Some(v), || V::deserialize(Fmt { readable: true, item: &it })) }
                }
                for it in [Item::BorrowedBytes(a.clone()), Item::CopiedBytes(a.clone()), Item::OwnedBytes(a.clone())] { c.take("binary", &it, Some(v), || V::deserialize(Fmt { readable: false, item: &it })) }
                // Arbitrary bytes to a binary format, arbitrary text to a readable one.
                let b = self.3.to_vec();
                let want = if b.len() == V::N { Some(V::from_bytes(&b)) } else { None };
                for it in [Item::BorrowedBytes(b.clone()), Item::CopiedBytes(b.clone()), Item::OwnedBytes(b)] { c.take("binary", &it, want, || V::deserialize(Fmt { readable: false, item: &it })) }
                let s = self.4.to_string();
                let want = if s.len() == 2 * V::N && s.bytes().all(|c| c.is_ascii_hexdigit()) { Some(V::from_bytes(&(0..V::N).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<_>>())) } else { None };
                for it in [Item::BorrowedStr(s.clone()), Item::CopiedStr(s.clone()), Item::OwnedStr(s.clone()), Item::BorrowedBytes(s.clone().into()), Item::CopiedBytes(s.clone().into()), Item::OwnedBytes(s.into())] { c.take("readable", &it, want, || V::deserialize(Fmt { readable: true, item: &it })) }
                // A readable format handing over arbitrary bytes.
                let t = self.3.to_vec();
                let want = if t.len() == 2 * V::N && t.iter().all(|c| c.is_ascii_hexdigit()) { std::str::from_utf8(&t).ok().map(|s| V::from_bytes(&(0..V::N).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<_>>())) } else { None };
                for it in [Item::BorrowedBytes(t.clone()), Item::CopiedBytes(t.clone()), Item::OwnedBytes(t)] { c.take::<V, _>("readable", &it, want, || V::deserialize(Fmt { readable: true, item: &it })) }
            }
        }
        visit_val(i % NVALS, &mut G(r, cfg, a, b, s))
    }

    pub fn c10(cfg: &Cfg, out: Option<&str>) -> Total {
        let n = NVALS * (2 + cfg.n(8, 60));
        crate::rec::run(cfg, n + 3 * cfg.n(2, 20), out, &|i, r| if i < n { let mut v = C10 { r, cfg, mode: i / NVALS }; visit_val(i % NVALS, &mut v) } else { for _ in 0..cfg.n(20, 80) { user::any(i - n, r) } })
    }
}

#[cfg(feature = "schemars")]
pub mod with_schema {
    use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24};
    use schemars::gen::{SchemaGenerator, SchemaSettings};
    use schemars::JsonSchema;
    use serde_json::{json, Value};

    use crate::engines::{TagA, TagB};
    use crate::gen::hex;
    use crate::rec::{quiet, Cfg, Rec, Total};
    use crate::rng::{fp, fp_bytes};
    use crate::vals::value;
    use crate::values::Val;

    /// The part of JSON Schema such schemas can use. Err: a keyword we do not judge.
    pub fn valid(root: &Value, s: &Value, v: &Value, depth: usize) -> Result<bool, String> {
        if depth > 40 { return Err("recursive schema".into()) }
        let o = match s { Value::Bool(b) => return Ok(*b), Value::Object(o) => o, _ => return Err("schema is not an object".into()) };
        let mut ok = true;
        for (k, x) in o {
            ok &= match k.as_str() {
                "$schema" | "$id" | "title" | "description" | "default" | "examples" | "definitions" | "components" | "$defs" | "$comment" | "deprecated" | "readOnly" | "writeOnly" | "format" => true,
                "$ref" => {
                    let p = x.as_str().ok_or("bad $ref")?;
                    let p = p.strip_prefix('#').ok_or_else(|| format!("foreign $ref {}", p))?;
                    match root.pointer(p) { Some(t) => valid(root, t, v, depth + 1)?, None => return Err(format!("dangling $ref {}", p)) }
                }
                "type" => {
                    let is = |t: &str| match t { "string" => v.is_string(), "null" => v.is_null(), "array" => v.is_array(), "object" => v.is_object(), "boolean" => v.is_boolean(), "integer" => v.is_i64() || v.is_u64(), "number" => v.is_number(), _ => false };
                    match x { Value::String(t) => is(t), Value::Array(a) => a.iter().any(|t| t.as_str().map(is).unwrap_or(false)), _ => return Err("bad type".into()) }
                }
                "nullable" => true,
                "minLength" => v.as_str().map(|t| t.chars().count() as u64 >= x.as_u64().unwrap_or(0)).unwrap_or(true),
                "maxLength" => v.as_str().map(|t| t.chars().count() as u64 <= x.as_u64().unwrap_or(u64::MAX)).unwrap_or(true),
                "pattern" => match v.as_str() { Some(t) => re::search(x.as_str().ok_or("bad pattern")?, t)?, None => true },
                "enum" => x.as_array().map(|a| a.contains(v)).unwrap_or(false),
                "const" => x == v,
                "allOf" => { let mut r = true; for t in x.as_array().ok_or("allOf")? { r &= valid(root, t, v, depth + 1)? } r }
                "anyOf" => { let mut r = false; for t in x.as_array().ok_or("anyOf")? { r |= valid(root, t, v, depth + 1)? } r }
                "oneOf" => { let mut r = 0; for t in x.as_array().ok_or("oneOf")? { r += valid(root, t, v, depth + 1)? as u32 } r == 1 }
                "not" => !valid(root, x, v, depth + 1)?,
                "properties" => { let mut r = true; if let Some(m) = v.as_object() { for (n, t) in x.as_object().ok_or("properties")? { if let Some(y) = m.get(n) { r &= valid(root, t, y, depth + 1)? } } } r }
                "required" => match v.as_object() { Some(m) => x.as_array().ok_or("required")?.iter().all(|n| n.as_str().map(|n| m.contains_key(n)).unwrap_or(false)), None => true },
                "items" => match (x, v.as_array()) {
                    (_, None) => true,
                    (Value::Array(ts), Some(a)) => { let mut r = true; for (t, y) in ts.iter().zip(a) { r &= valid(root, t, y, depth + 1)? } r }
                    (t, Some(a)) => { let mut r = true; for y in a { r &= valid(root, t, y, depth + 1)? } r }
                },
                "minItems" => v.as_array().map(|a| a.len() as u64 >= x.as_u64().unwrap_or(0)).unwrap_or(true),
                "maxItems" => v.as_array().map(|a| a.len() as u64 <= x.as_u64().unwrap_or(u64::MAX)).unwrap_or(true),
                "uniqueItems" => true,
                "additionalProperties" => match v.as_object() {
                    Some(m) => { let known = o.get("properties").and_then(|p| p.as_object()); let mut r = true; for (n, y) in m { if !known.map(|k| k.contains_key(n)).unwrap_or(false) { r &= valid(root, x, y, depth + 1)? } } r }
                    None => true,
                },
                other => return Err(format!("keyword {}", other)),
            };
        }
        Ok(ok)
    }

    /// Regular expressions as such schemas use them: classes, groups, alternation, anchors, counts.
    pub mod re {
        #[derive(Debug, Clone)]
        enum N { Set(bool, Vec<(char, char)>), Seq(Vec<N>), Alt(Vec<N>), Rep(Box<N>, usize, usize), Start, End }
        struct P<'a> { s: Vec<char>, i: usize, p: &'a str }
        impl<'a> P<'a> {
            fn bad<T>(&self) -> Result<T, String> { Err(format!("pattern {:?} not understood at {}", self.p, self.i)) }
            fn alt(&mut self) -> Result<N, String> {
                let mut v = vec![self.seq()?];
                while self.s.get(self.i) == Some(&'|') { self.i += 1; v.push(self.seq()?) }
                Ok(if v.len() == 1 { v.pop().unwrap() } else { N::Alt(v) })
            }
            fn seq(&mut self) -> Result<N, String> {
                let mut v = Vec::new();
                while let Some(&c) = self.s.get(self.i) {
                    if c == '|' || c == ')' { break }
                    let a = self.atom()?;
                    v.push(self.quant(a)?);
                }
                Ok(N::Seq(v))
            }
            fn num(&mut self) -> Option<usize> { let st = self.i; while self.s.get(self.i).map(|c| c.is_ascii_digit()).unwrap_or(false) { self.i += 1 } self.s[st..self.i].iter().collect::<String>().parse().ok() }
            fn quant(&mut self, a: N) -> Result<N, String> {
                let r = match self.s.get(self.i) {
                    Some('*') => { self.i += 1; N::Rep(Box::new(a), 0, usize::MAX) }
                    Some('+') => { self.i += 1; N::Rep(Box::new(a), 1, usize::MAX) }
                    Some('?') => { self.i += 1; N::Rep(Box::new(a), 0, 1) }
                    Some('{') => {
                        self.i += 1;
                        let lo = match self.num() { Some(n) => n, None => return self.bad() };
                        let hi = if self.s.get(self.i) == Some(&',') { self.i += 1; self.num().unwrap_or(usize::MAX) } else { lo };
                        if self.s.get(self.i) != Some(&'}') { return self.bad() }
                        self.i += 1;
                        N::Rep(Box::new(a), lo, hi)
                    }
                    _ => return Ok(a),
                };
                if let Some('?') | Some('+') = self.s.get(self.i) { self.i += 1 } // laziness does not change what matches
                Ok(r)
            }
            fn esc(&mut self) -> Result<Vec<(char, char)>, String> {
                let c = match self.s.get(self.i) { Some(c) => *c, None => return self.bad() };
                self.i += 1;
                Ok(match c { 'd' => vec![('0', '9')], 'w' => vec![('0', '9'), ('a', 'z'), ('A', 'Z'), ('_', '_')], 's' => vec![(' ', ' '), ('\t', '\r')], 'n' => vec![('\n', '\n')], c if c.is_ascii_alphanumeric() => return self.bad(), c => vec![(c, c)] })
            }
            fn atom(&mut self) -> Result<N, String> {
                let c = self.s[self.i];
                self.i += 1;
                Ok(match c {
                    '^' => N::Start, '$' => N::End, '.' => N::Set(true, vec![('\n', '\n')]),
                    '\\' => N::Set(false, self.esc()?),
                    '(' => {
                        if self.s.get(self.i) == Some(&'?') { if self.s.get(self.i + 1) == Some(&':') { self.i += 2 } else { return self.bad() } }
                        let n = self.alt()?;
                        if self.s.get(self.i) != Some(&')') { return self.bad() }
                        self.i += 1;
                        n
                    }
                    '[' => {
                        let neg = self.s.get(self.i) == Some(&'^');
                        if neg { self.i += 1 }
                        let mut v = Vec::new();
                        loop {
                            let c = match self.s.get(self.i) { Some(c) => *c, None => return self.bad() };
                            self.i += 1;
                            if c == ']' { break }
                            if c == '\\' { v.extend(self.esc()?); continue }
                            if self.s.get(self.i) == Some(&'-') && self.s.get(self.i + 1).map(|x| *x != ']').unwrap_or(false) { let d = self.s[self.i + 1]; self.i += 2; v.push((c, d)) } else { v.push((c, c)) }
                        }
                        N::Set(neg, v)
                    }
                    '*' | '+' | '?' | '{' => return self.bad(),
                    c => N::Set(false, vec![(c, c)]),
                })
            }
        }
        fn step(n: &N, s: &[char], from: &[usize]) -> Vec<usize> {
            let mut out: Vec<usize> = match n {
                N::Set(neg, v) => from.iter().filter(|&&i| i < s.len() && (v.iter().any(|(a, b)| *a <= s[i] && s[i] <= *b) != *neg)).map(|i| i + 1).collect(),
                N::Start => from.iter().copied().filter(|i| *i == 0).collect(),
                N::End => from.iter().copied().filter(|i| *i == s.len()).collect(),
                N::Seq(v) => { let mut c = from.to_vec(); for m in v { c = step(m, s, &c) } c }
                N::Alt(v) => v.iter().flat_map(|m| step(m, s, from)).collect(),
                N::Rep(m, lo, hi) => {
                    let mut c = from.to_vec();
                    let mut acc = if *lo == 0 { c.clone() } else { vec![] };
                    let mut k = 0;
                    while k < *hi && !c.is_empty() && k < s.len() + lo + 1 { c = step(m, s, &c); k += 1; if k >= *lo { acc.extend(&c) } }
                    acc
                }
            };
            out.sort_unstable();
            out.dedup();
            out
        }
        pub fn search(p: &str, t: &str) -> Result<bool, String> {
            let mut q = P { s: p.chars().collect(), i: 0, p };
            let n = q.alt()?;
            if q.i != q.s.len() { return q.bad() }
            let s: Vec<char> = t.chars().collect();
            Ok((0..=s.len()).any(|i| !step(&n, &s, &[i]).is_empty()))
        }
    }

    pub struct Ty { pub name: &'static str, pub n: usize, sub: fn(&mut SchemaGenerator, u8) -> Value, root: fn() -> Value, ser: fn(&[u8]) -> Value }

    impl Ty { pub fn root_schema(&self) -> Value { (self.root)() } }

    fn ty<V: Val + JsonSchema>() -> Ty {
        Ty {
            name: V::NAME, n: V::N,
            sub: |g, shape| serde_json::to_value(match shape {
                0 => g.subschema_for::<V>(), 1 => g.subschema_for::<Vec<V>>(), 2 => g.subschema_for::<Option<V>>(),
                3 => g.subschema_for::<(V, V)>(), _ => g.subschema_for::<std::collections::BTreeMap<String, V>>(),
            }).unwrap(),
            root: || serde_json::to_value(SchemaGenerator::default().into_root_schema_for::<V>()).unwrap(),
            ser: |b| serde_json::to_value(V::from_bytes(b)).unwrap(),
        }
    }

    pub fn types() -> Vec<Ty> {
        vec![ty::<sha1::Hash>(), ty::<sha256::Hash>(), ty::<sha384::Hash>(), ty::<sha512::Hash>(), ty::<sha512_256::Hash>(), ty::<ripemd160::Hash>(), ty::<siphash24::Hash>(),
            ty::<sha256t::Hash<TagA>>(), ty::<sha256t::Hash<TagB>>(), ty::<hmac::Hash<8>>(), ty::<hmac::Hash<20>>(), ty::<hmac::Hash<32>>(), ty::<hmac::Hash<48>>(), ty::<hmac::Hash<64>>()]
    }

    fn judge(r: &mut Rec, what: &str, root: &Value, s: &Value, v: &Value, want: bool) {
        match valid(root, s, v, 0) {
            Ok(g) => r.check(g == want, if want { "valid value rejected" } else { "bad length accepted" }, || format!("{}: {} against {} in {}", what, v, s, root)),
            // A reference that leads nowhere accepts nothing.
            Err(e) if e.starts_with("dangling") => r.viol("dangling reference", || format!("{}: {} ({})", what, e, root)),
            Err(_) => r.count("schemas with keywords outside the validator", 1),
        }
        r.count(if want { "valid documents judged" } else { "wrong-length documents judged" }, 1);
    }

    fn lens(r: &mut Rec, n: usize) -> Vec<usize> {
        let mut v = vec![0, 1, 2 * n - 2, 2 * n - 1, 2 * n + 1, 2 * n + 2, 4 * n, n, 16, 40, 64, 96, 128, 256];
        v.push(r.rng.usize(300));
        v.retain(|l| *l != 2 * n);
        v
    }

    fn text(r: &mut Rec, l: usize) -> String { hex(&r.rng.bytes(l / 2 + 1))[..l].to_string() }

    fn settings(i: usize) -> SchemaSettings {
        match i % 5 { 0 => SchemaSettings::draft07(), 1 => SchemaSettings::draft2019_09(), 2 => SchemaSettings::openapi3(), 3 => SchemaSettings::draft07().with(|s| s.inline_subschemas = true), _ => SchemaSettings::default() }
    }

    /// One document whose fields are the given types.
    fn combo(r: &mut Rec, ts: &[Ty], pick: &[(usize, u8)], st: usize) {
        r.case("c17 combination", [pick.len() as u64, st as u64, pick[0].0 as u64, pick.get(1).map(|x| x.0 as u64).unwrap_or(99), 0, 0]);
        let made = quiet(|| {
            let mut g = settings(st).into_generator();
            let mut props = serde_json::Map::new();
            for (i, (t, shape)) in pick.iter().enumerate() { props.insert(format!("f{}", i), (ts[*t].sub)(&mut g, *shape)); }
            let defs = serde_json::to_value(g.take_definitions()).unwrap();
            let mut root = json!({"type": "object", "properties": props, "required": props.keys().collect::<Vec<_>>(), "definitions": defs.clone()});
            root["$defs"] = defs.clone();
            root["components"] = json!({ "schemas": defs });
            root
        });
        let root = match made { Ok(x) => x, Err(p) => return r.viol("panic", || p) };
        let label: Vec<String> = pick.iter().map(|(t, s)| format!("{}/{}", ts[*t].name, s)).collect();
        let wrap = |v: Value, shape: u8| match shape { 0 | 2 => v, 1 => json!([v, v]), 3 => json!([v, v]), _ => json!({ "k": v }) };
        let mut doc = serde_json::Map::new();
        for (i, (t, shape)) in pick.iter().enumerate() { let b = value(&mut r.rng, ts[*t].n); doc.insert(format!("f{}", i), wrap((ts[*t].ser)(&b), *shape)); }
        judge(r, &format!("{:?}", label), &root, &root, &Value::Object(doc.clone()), true);
        for (i, (t, shape)) in pick.iter().enumerate() {
            for l in lens(r, ts[*t].n) {
                let v = wrap(Value::String(text(r, l)), *shape);
                judge(r, &format!("{:?} field {} with {} digits", label, i, l), &root, &root["properties"][&format!("f{}", i)], &v, false);
            }
        }
        r.nontrivial(fp(&[17, st as u64 % 5, fp_bytes(format!("{:?}", label).as_bytes())]));
        r.sample(|| format!("{:?}: {}", label, root["properties"]));
    }

    pub fn c17(cfg: &Cfg, out: Option<&str>) -> Total {
        let nt = types().len();
        crate::rec::run(cfg, 2 * nt + cfg.n(40, 600), out, &|i, r| {
            let ts = types();
            if i < nt { // alone
                let t = &ts[i];
                let root = (t.root)();
                for k in 0..cfg.n(200, 2000) {
                    let b = if k == 0 { vec![0; t.n] } else if k == 1 { vec![255; t.n] } else { value(&mut r.rng, t.n) };
                    r.case("c17 alone", [i as u64, fp_bytes(&b), 0, 0, 0, 0]);
                    let v = (t.ser)(&b);
                    judge(r, t.name, &root, &root, &v, true);
                    r.nontrivial(fp(&[170, i as u64, fp_bytes(&b)]));
                }
                for l in 0..400 { if l != 2 * t.n { r.case("c17 length", [i as u64, l as u64, 0, 0, 0, 0]); let s = text(r, l); judge(r, t.name, &root, &root, &Value::String(s), false) } }
            } else if i < 2 * nt { // every ordered pair
                for j in 0..nt { for st in 0..5 { combo(r, &ts, &[(i - nt, 0), (j, 0)], st) } }
            } else {
                for _ in 0..cfg.n(4, 10) {
                    let n = 1 + r.rng.usize(7);
                    let pick: Vec<(usize, u8)> = (0..n).map(|_| (r.rng.usize(nt), r.rng.usize(5) as u8)).collect();
                    let st = r.rng.usize(5);
                    combo(r, &ts, &pick, st)
                }
            }
        })
    }
}
