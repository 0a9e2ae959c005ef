//! C12: serialization round trips and deserialization of arbitrary streams.
//!
//! The data format is our own value tree, so that the length hints, the order
//! of the entries and the place of an error are all generated.

use crate::engine::{Ctx, Rng, Src};
use crate::maps::{draw_size, shuffle, verify_map, weights, Drv, Keys, MapLike, Mdl, Slot};
use crate::sets::{adopt_all, sweights, SDrv, SSlot, SetLike};
use crate::track::{Tk, Tv};
use crate::{ensure, ensure_eq, fail};
use serde::de::{self, Deserialize, DeserializeOwned, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};
use std::collections::BTreeMap as Std;
use std::fmt;

// ------------------------------------------------------------ element types

impl Serialize for Tk {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_i64((self.k() as i64) << 32 | self.tag as i64)
    }
}
impl Serialize for Tv {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_i64(self.v() as i64)
    }
}
struct IntV;
impl<'de> Visitor<'de> for IntV {
    type Value = i64;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("an integer")
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<i64, E> {
        Ok(v)
    }
}
impl<'de> Deserialize<'de> for Tk {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let x = d.deserialize_i64(IntV)?;
        Ok(Tk::new((x >> 32) as i32, x as u32))
    }
}
impl<'de> Deserialize<'de> for Tv {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Tv::new(d.deserialize_i64(IntV)? as u32))
    }
}

// ---------------------------------------------------------------- the format

#[derive(Debug, PartialEq, Clone)]
pub struct SErr(pub String);
impl fmt::Display for SErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SErr {}
impl ser::Error for SErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        SErr(m.to_string())
    }
}
impl de::Error for SErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        SErr(m.to_string())
    }
}

/// the length hint a deserializer gives for a stream
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Hint {
    None,
    /// given once and then unchanged
    Fixed(usize),
    /// the number of entries left
    Left,
    /// entries left plus a constant
    LeftPlus(usize),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    Unit,
    Int(i64),
    Seq { len: Option<usize>, hint: Hint, items: Vec<Val> },
    Map { len: Option<usize>, hint: Hint, items: Vec<(Val, Val)>, end: Option<String> },
    Struct(&'static str, Vec<(&'static str, Val)>),
    /// deserializing this reports the error
    Bad(String),
}

struct Ser;
struct SerSeq(Option<usize>, Vec<Val>);
struct SerMap(Option<usize>, Vec<(Val, Val)>, Option<Val>);
struct SerStruct(&'static str, Vec<(&'static str, Val)>);
type R = Result<Val, SErr>;
fn no<T>(w: &str) -> Result<T, SErr> {
    Err(SErr(format!("the test format has no {w}")))
}
impl ser::Serializer for Ser {
    type Ok = Val;
    type Error = SErr;
    type SerializeSeq = SerSeq;
    type SerializeTuple = SerSeq;
    type SerializeTupleStruct = SerSeq;
    type SerializeTupleVariant = SerSeq;
    type SerializeMap = SerMap;
    type SerializeStruct = SerStruct;
    type SerializeStructVariant = SerStruct;
    fn is_human_readable(&self) -> bool {
        !bin()
    }
    fn serialize_bool(self, v: bool) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_i8(self, v: i8) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_i16(self, v: i16) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_i32(self, v: i32) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_i64(self, v: i64) -> R {
        Ok(Val::Int(v))
    }
    fn serialize_u8(self, v: u8) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_u16(self, v: u16) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_u32(self, v: u32) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_u64(self, v: u64) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_f32(self, _: f32) -> R {
        no("f32")
    }
    fn serialize_f64(self, _: f64) -> R {
        no("f64")
    }
    fn serialize_char(self, _: char) -> R {
        no("char")
    }
    fn serialize_str(self, _: &str) -> R {
        no("str")
    }
    fn serialize_bytes(self, _: &[u8]) -> R {
        no("bytes")
    }
    fn serialize_none(self) -> R {
        Ok(Val::Unit)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        Ok(Val::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        Ok(Val::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R {
        no("variants")
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R {
        no("variants")
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<SerSeq, SErr> {
        Ok(SerSeq(len, vec![]))
    }
    fn serialize_tuple(self, len: usize) -> Result<SerSeq, SErr> {
        Ok(SerSeq(Some(len), vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<SerSeq, SErr> {
        Ok(SerSeq(Some(len), vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<SerSeq, SErr> {
        no("variants")
    }
    fn serialize_map(self, len: Option<usize>) -> Result<SerMap, SErr> {
        Ok(SerMap(len, vec![], None))
    }
    fn serialize_struct(self, name: &'static str, _: usize) -> Result<SerStruct, SErr> {
        Ok(SerStruct(name, vec![]))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<SerStruct, SErr> {
        no("variants")
    }
}
impl SerSeq {
    fn put<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SErr> {
        self.1.push(v.serialize(Ser)?);
        Ok(())
    }
    fn fin(self) -> R {
        Ok(Val::Seq { len: self.0, hint: Hint::Left, items: self.1 })
    }
}
impl ser::SerializeSeq for SerSeq {
    type Ok = Val;
    type Error = SErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SErr> {
        self.put(v)
    }
    fn end(self) -> R {
        self.fin()
    }
}
impl ser::SerializeTuple for SerSeq {
    type Ok = Val;
    type Error = SErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SErr> {
        self.put(v)
    }
    fn end(self) -> R {
        self.fin()
    }
}
impl ser::SerializeTupleStruct for SerSeq {
    type Ok = Val;
    type Error = SErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SErr> {
        self.put(v)
    }
    fn end(self) -> R {
        self.fin()
    }
}
impl ser::SerializeTupleVariant for SerSeq {
    type Ok = Val;
    type Error = SErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SErr> {
        self.put(v)
    }
    fn end(self) -> R {
        self.fin()
    }
}
impl ser::SerializeMap for SerMap {
    type Ok = Val;
    type Error = SErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), SErr> {
        ensure!(self.2.is_none(), "serialize: a key without its value");
        self.2 = Some(k.serialize(Ser)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SErr> {
        match self.2.take() {
            Some(k) => self.1.push((k, v.serialize(Ser)?)),
            None => fail!("serialize: a value without its key"),
        }
        Ok(())
    }
    fn end(self) -> R {
        ensure!(self.2.is_none(), "serialize: a key without its value");
        Ok(Val::Map { len: self.0, hint: Hint::Left, items: self.1, end: None })
    }
}
impl ser::SerializeStruct for SerStruct {
    type Ok = Val;
    type Error = SErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), SErr> {
        self.1.push((n, v.serialize(Ser)?));
        Ok(())
    }
    fn end(self) -> R {
        Ok(Val::Struct(self.0, self.1))
    }
}
impl ser::SerializeStructVariant for SerStruct {
    type Ok = Val;
    type Error = SErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), SErr> {
        self.1.push((n, v.serialize(Ser)?));
        Ok(())
    }
    fn end(self) -> R {
        Ok(Val::Struct(self.0, self.1))
    }
}

struct De<'v>(&'v Val);
struct Name(&'static str);
impl<'de> de::Deserializer<'de> for Name {
    type Error = SErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SErr> {
        v.visit_str(self.0)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
fn hint_of(h: Hint, left: usize) -> Option<usize> {
    match h {
        Hint::None => None,
        Hint::Fixed(n) => Some(n),
        Hint::Left => Some(left),
        Hint::LeftPlus(n) => Some(left.saturating_add(n)),
    }
}
struct SeqA<'v>(&'v [Val], usize, Hint);
impl<'de, 'v> de::SeqAccess<'de> for SeqA<'v> {
    type Error = SErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, SErr> {
        match self.0.get(self.1) {
            None => Ok(None),
            Some(v) => {
                self.1 += 1;
                seed.deserialize(De(v)).map(Some)
            }
        }
    }
    fn size_hint(&self) -> Option<usize> {
        hint_of(self.2, self.0.len() - self.1)
    }
}
struct MapA<'v>(&'v [(Val, Val)], usize, Hint, &'v Option<String>);
impl<'de, 'v> de::MapAccess<'de> for MapA<'v> {
    type Error = SErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, SErr> {
        match self.0.get(self.1) {
            None => match self.3 {
                None => Ok(None),
                Some(e) => Err(SErr(e.clone())),
            },
            Some((k, _)) => seed.deserialize(De(k)).map(Some),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, SErr> {
        match self.0.get(self.1) {
            None => fail!("a value was asked for without a key"),
            Some((_, v)) => {
                self.1 += 1;
                seed.deserialize(De(v))
            }
        }
    }
    fn size_hint(&self) -> Option<usize> {
        hint_of(self.2, self.0.len() - self.1)
    }
}
struct StructA<'v>(&'v [(&'static str, Val)], usize);
impl<'de, 'v> de::MapAccess<'de> for StructA<'v> {
    type Error = SErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, SErr> {
        match self.0.get(self.1) {
            None => Ok(None),
            Some((n, _)) => seed.deserialize(Name(n)).map(Some),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, SErr> {
        self.1 += 1;
        seed.deserialize(De(&self.0[self.1 - 1].1))
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.len() - self.1)
    }
}
thread_local! {
    /// a format like bincode: it cannot tell what comes next, so every value
    /// must be asked for by its type, and structs have no field names
    static BIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn bin() -> bool {
    BIN.with(|b| b.get())
}
struct FieldsA<'v>(&'v [(&'static str, Val)], usize);
impl<'de, 'v> de::SeqAccess<'de> for FieldsA<'v> {
    type Error = SErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, SErr> {
        self.1 += 1;
        self.0.get(self.1 - 1).map(|f| seed.deserialize(De(&f.1))).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.len() - self.1)
    }
}
fn format(ctx: &mut Ctx, binary: bool) {
    BIN.with(|b| b.set(binary));
    ctx.label(if binary { "format: binary, not self-describing" } else { "format: self-describing" });
}
impl<'de, 'v> De<'v> {
    fn plain<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SErr> {
        match self.0 {
            Val::Unit => v.visit_unit(),
            Val::Int(i) => v.visit_i64(*i),
            Val::Seq { hint, items, .. } => v.visit_seq(SeqA(items, 0, *hint)),
            Val::Map { hint, items, end, .. } => v.visit_map(MapA(items, 0, *hint, end)),
            Val::Struct(_, fs) if bin() => v.visit_seq(FieldsA(fs, 0)),
            Val::Struct(_, fs) => v.visit_map(StructA(fs, 0)),
            Val::Bad(e) => Err(SErr(e.clone())),
        }
    }
    fn typed<V: Visitor<'de>>(self, ok: bool, v: V) -> Result<V::Value, SErr> {
        if bin() && !ok && !matches!(self.0, Val::Bad(_)) {
            return Err(SErr("the value was asked for by the wrong type, in a format that is not self-describing".into()));
        }
        self.plain(v)
    }
}
macro_rules! typed {
    ($($p:pat => $($f:ident($($a:ty),*))*;)*) => { $($(
        fn $f<V: Visitor<'de>>(self, $(_: $a,)* v: V) -> Result<V::Value, SErr> {
            let ok = matches!(self.0, $p);
            self.typed(ok, v)
        }
    )*)* };
}
impl<'de, 'v> de::Deserializer<'de> for De<'v> {
    type Error = SErr;
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, SErr> {
        v.visit_newtype_struct(self)
    }
    fn is_human_readable(&self) -> bool {
        !bin()
    }
    typed! {
        Val::Int(_) => deserialize_bool() deserialize_i8() deserialize_i16() deserialize_i32() deserialize_i64()
            deserialize_i128() deserialize_u8() deserialize_u16() deserialize_u32() deserialize_u64() deserialize_u128();
        Val::Unit => deserialize_unit() deserialize_unit_struct(&'static str);
        Val::Seq { .. } => deserialize_seq() deserialize_tuple(usize) deserialize_tuple_struct(&'static str, usize);
        Val::Map { .. } => deserialize_map();
        Val::Struct(..) => deserialize_struct(&'static str, &'static [&'static str]);
        Val::Bad(_) => deserialize_any() deserialize_ignored_any() deserialize_identifier() deserialize_option()
            deserialize_char() deserialize_str() deserialize_string() deserialize_bytes() deserialize_byte_buf()
            deserialize_f32() deserialize_f64() deserialize_enum(&'static str, &'static [&'static str]);
    }
}

// ------------------------------------------------------------- the generator

fn code(k: i32, tag: u32) -> i64 {
    (k as i64) << 32 | tag as i64
}

struct Stream {
    entries: Vec<(i32, u32)>, // key, value (also used as the tag)
    hint: Hint,
    /// (position, 0: before the entry, 1: in the key, 2: in the value)
    fail: Option<(usize, u8)>,
}

fn draw_stream(src: &mut Src, ctx: &mut Ctx, sizes: &[(u32, u32, u32)]) -> Stream {
    let n = draw_size(src, sizes) as usize;
    let mut ks: Vec<i32> = (0..n as i32).map(|i| i * 2).collect();
    let some = |src: &mut Src, n: usize| if n == 0 { 0 } else { (src.u16() as usize) % n };
    let shape = src.weighted(&[4, 4, 4, 2, 3, 3, 2, 2]);
    ctx.label(match shape {
        0 => "stream: ascending",
        1 => "stream: ascending with repeated neighbours",
        2 => "stream: ascending with one key out of place",
        3 => "stream: descending",
        4 => "stream: shuffled",
        5 => "stream: drawn with repetitions",
        6 => "stream: two ascending runs",
        _ => "stream: ascending, last keys repeat earlier ones",
    });
    if n > 1 {
        match shape {
            0 => (),
            1 => {
                for _ in 0..1 + src.below(3) {
                    let i = some(src, n - 1);
                    ks[i + 1] = ks[i];
                }
                ks.sort();
            }
            2 => {
                let (i, j) = (some(src, n), some(src, n));
                match src.below(3) {
                    0 => ks.swap(i, j),
                    1 => ks[i] = ks[j],
                    _ => ks[i] = ks[j] + 1,
                }
            }
            3 => ks.reverse(),
            4 => shuffle(&mut ks, src.byte() as u64),
            5 => {
                let span = 1 + some(src, 2 * n) as u64;
                let mut r = Rng::new(src.byte() as u64 + 7);
                for k in ks.iter_mut() {
                    *k = r.below(span) as i32;
                }
            }
            6 => {
                let c = some(src, n);
                ks.rotate_left(c);
                if src.chance(128) {
                    let m = ks[0];
                    for k in ks[n - c..].iter_mut() {
                        *k += m % 2 + 1;
                    }
                }
            }
            _ => {
                let t = 1 + some(src, n.min(8));
                for i in n - t..n {
                    ks[i] = ks[some(src, n)];
                }
            }
        }
    }
    let base = [0, -50, i32::MAX / 2][src.weighted(&[4, 2, 1])];
    let entries: Vec<(i32, u32)> = ks.iter().enumerate().map(|(i, k)| (k + base, i as u32 + 1)).collect();
    let small = 1 + src.below(9) as usize;
    let hint = match src.weighted(&[3, 5, 3, 3, 3, 2, 2]) {
        0 => Hint::None,
        1 => {
            if src.chance(128) {
                Hint::Left
            } else {
                Hint::Fixed(n)
            }
        }
        2 => Hint::Fixed(n.saturating_sub(small)),
        3 => Hint::Fixed(n * src.byte() as usize / 256),
        4 => {
            if src.chance(128) {
                Hint::LeftPlus(small)
            } else {
                Hint::Fixed(n + small)
            }
        }
        5 => Hint::Fixed(n * (1 + small) + small),
        _ => Hint::Fixed(
            [usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 40, 1 << 32, 1 << 20, usize::MAX - 7]
                [src.usize(8)],
        ),
    };
    ctx.label(match hint {
        Hint::None => "hint: absent",
        Hint::Left => "hint: exact",
        Hint::LeftPlus(_) => "hint: too large",
        Hint::Fixed(h) if h == n => "hint: exact",
        Hint::Fixed(h) if h < n => "hint: too small",
        Hint::Fixed(h) if h < 1 << 20 => "hint: too large",
        Hint::Fixed(_) => "hint: absurd",
    });
    let fail = if src.weighted(&[5, 2]) == 1 {
        let p = some(src, n + 1);
        let kind = if p == n { 0 } else { 1 + src.below(2) as u8 };
        ctx.label("stream: fails part way");
        Some((p, kind))
    } else {
        None
    };
    let s = Stream { entries, hint, fail };
    ctx.t(|| {
        let e: Vec<String> = s.entries.iter().take(40).map(|(k, v)| format!("{k}={v}")).collect();
        format!("stream of {n} entries, hint {:?}, failure {:?}: {}", s.hint, s.fail, e.join(" "))
    });
    s
}

impl Stream {
    fn val(&self, set: bool) -> Val {
        let mut items: Vec<(Val, Val)> = self
            .entries
            .iter()
            .map(|&(k, v)| (Val::Int(code(k, v)), if set { Val::Unit } else { Val::Int(v as i64) }))
            .collect();
        let mut end = None;
        if let Some((p, kind)) = self.fail {
            if p >= items.len() {
                end = Some(format!("boom {p}"));
            } else {
                items.truncate(p + 1);
                let b = Val::Bad(format!("boom {p}"));
                if kind == 1 {
                    items[p].0 = b
                } else {
                    items[p].1 = b
                }
            }
        }
        Val::Map { len: None, hint: self.hint, items, end }
    }
}

fn read<T: DeserializeOwned>(v: &Val) -> Result<T, SErr> {
    match crate::quiet(|| T::deserialize(De(v))) {
        Some(r) => r,
        None => fail!("deserializing panicked: {}", crate::engine::last_panic()),
    }
}
fn write<T: Serialize>(t: &T) -> Val {
    match crate::quiet(|| t.serialize(Ser)) {
        Some(Ok(v)) => v,
        Some(Err(e)) => fail!("serializing failed: {e}"),
        None => fail!("serializing panicked: {}", crate::engine::last_panic()),
    }
}
fn with_hint(v: &mut Val, h: Hint) {
    match v {
        Val::Map { hint, .. } | Val::Seq { hint, .. } => *hint = h,
        Val::Struct(_, fs) => {
            for f in fs.iter_mut() {
                with_hint(&mut f.1, h)
            }
        }
        _ => (),
    }
}

fn outcome<T>(r: Result<T, SErr>, s: &Stream) -> Option<T> {
    match (r, s.fail) {
        (Ok(m), None) => Some(m),
        (Ok(_), Some((p, _))) => fail!("the stream failed at entry {p}, but deserializing returned a collection"),
        (Err(e), None) => fail!("deserializing a stream that does not fail reports: {e}"),
        (Err(e), Some((p, _))) => {
            ensure_eq!(e.0, format!("boom {p}"), "the error reported for a failing stream");
            None
        }
    }
}

/// the memory taken is a matter of the entries, not of the length hint
fn read_lean<T: DeserializeOwned>(v: &Val, n: usize) -> Result<T, SErr> {
    let most = 2_000_000 + 1024 * n as u64;
    let (r, bytes, _) = crate::heap::measure(|| read(v));
    ensure!(bytes <= most, "deserializing {n} entries allocates {bytes} bytes, allowed {most}");
    r
}

const SZ: &[(u32, u32, u32)] = &[(6, 0, 12), (6, 13, 70), (3, 71, 400), (1, 401, 2500)];

fn map_case<M: MapLike + Serialize + DeserializeOwned>(src: &mut Src, ctx: &mut Ctx) {
    if src.weighted(&[3, 2]) == 0 {
        let s = draw_stream(src, ctx, SZ);
        let n = s.entries.len();
        format(ctx, n % 3 == 2);
        let v = s.val(false);
        let r = outcome(read_lean::<M>(&v, n), &s);
        crate::track::check_errs("deserializing");
        ctx.nontrivial = n >= 4;
        let Some(m) = r else {
            ensure!(crate::track::live() == 0, "failed deserialization keeps {} elements alive", crate::track::live());
            return;
        };
        let mut md = Mdl::new();
        for &(k, v) in &s.entries {
            md.insert(k, v);
        }
        verify_map(&m, &md, true, &|| "deserialized map".to_string());
        let base = md.keys().next().copied().unwrap_or(0);
        let span = md.keys().last().map_or(8, |l| l - base + 4) as u32;
        further(src, ctx, m, md, base, span);
    } else {
        // round trip of a map with a history
        let mut d = Drv::<M>::new(src, ctx, SZ);
        d.check = true;
        d.src.plan(&[(3, 4), (3, 20)]);
        d.run(&w_short());
        let j = d.src.usize(d.slots.len());
        let Slot { m, md } = d.slots.swap_remove(j);
        let max = d.max_len;
        format(ctx, md.len() % 7 >= 4);
        let mut v = write(&m);
        match &v {
            Val::Map { len, items, .. } => {
                ensure_eq!(*len, Some(md.len()), "length announced by serialize");
                let got: Vec<(i64, i64)> = items.iter().map(int_pair).collect();
                let got: Vec<(i32, u32)> = got.iter().map(|e| ((e.0 >> 32) as i32, e.1 as u32)).collect();
                let exp: Vec<(i32, u32)> = md.iter().map(|(k, v)| (*k, *v)).collect();
                ensure_eq!(got, exp, "serialized entries");
            }
            x => fail!("a map serializes as {x:?}"),
        }
        let h = [Hint::Left, Hint::None, Hint::Fixed(md.len() / 2), Hint::Fixed(md.len() + 3)][md.len() % 4];
        with_hint(&mut v, h);
        let m2: M = match read(&v) {
            Ok(m) => m,
            Err(e) => fail!("deserializing what was serialized fails: {e}"),
        };
        ensure!(m2 == m, "round trip gives a different map");
        verify_map(&m2, &md, true, &|| "map after a round trip".to_string());
        verify_map(&m, &md, true, &|| "map that was serialized".to_string());
        // what is no map at all
        for x in [Val::Unit, Val::Int(md.len() as i64)] {
            ensure!(read::<M>(&x).is_err(), "deserializing {x:?} gives a map");
        }
        ctx.label("round trip: map");
        ctx.nontrivial = max >= 4;
        drop(m);
        crate::track::check_errs("round trip");
    }
}

fn int_pair(e: &(Val, Val)) -> (i64, i64) {
    let i = |v: &Val| match v {
        Val::Int(i) => *i,
        Val::Unit => 0,
        x => fail!("an element serializes as {x:?}"),
    };
    (i(&e.0), i(&e.1))
}

fn w_short() -> crate::maps::Weights {
    use crate::maps::Op::*;
    weights(&[
        (Insert, 10), (Remove, 10), (Lookup, 3), (Pops, 4), (Append, 3), (SplitOff, 4), (Retain, 3),
        (Entry, 2), (Extend, 2), (CloneTo, 6), (Iter, 2), (IterMut, 2), (Range, 3), (IntoIter, 2),
        (Run, 4), (GetMut, 2),
    ])
}

/// carry on with a deserialized map
fn further<M: MapLike>(src: &mut Src, ctx: &mut Ctx, m: M, md: Mdl, base: i32, span: u32) {
    let mut d = Drv::<M>::empty(src, ctx, span);
    d.keys = Keys { base: base as i64, span };
    d.next = 100_000;
    d.check = true;
    d.slots.push(Slot { m, md });
    d.src.plan(&[(4, 5), (3, 20)]);
    d.run(&w_short());
}

fn set_case<S: SetLike + Serialize + DeserializeOwned>(src: &mut Src, ctx: &mut Ctx) {
    use crate::sets::Op::*;
    let w = sweights(&[
        (Insert, 10), (Remove, 10), (Take, 2), (Replace, 2), (Lookup, 3), (Pops, 4), (Append, 3),
        (SplitOff, 4), (Retain, 3), (Extend, 2), (CloneTo, 6), (Iter, 2), (IntoIter, 2), (Range, 3),
        (Run, 4),
    ]);
    if src.weighted(&[3, 2]) == 0 {
        let s = draw_stream(src, ctx, SZ);
        let n = s.entries.len();
        format(ctx, n % 3 == 2);
        // the stream in whatever wrapping sets use
        let v = wrap(&write(&S::fresh()), s.val(true));
        let r = outcome(read_lean::<S>(&v, n), &s);
        crate::track::check_errs("deserializing");
        ctx.nontrivial = n >= 4;
        let Some(set) = r else {
            ensure!(crate::track::live() == 0, "failed deserialization keeps {} elements alive", crate::track::live());
            return;
        };
        let mut all: Std<i32, Vec<u32>> = Std::new();
        for &(k, t) in &s.entries {
            all.entry(k).or_default().push(t);
        }
        let md = adopt_all(&set, &all, "deserialized set");
        let base = md.keys().next().copied().unwrap_or(0);
        let span = md.keys().last().map_or(8, |l| l - base + 4) as u32;
        let mut d = SDrv::<S>::empty(src, ctx, span);
        d.keys = Keys { base: base as i64, span };
        d.next = 100_000;
        d.check = true;
        d.slots.push(SSlot { s: set, md });
        d.src.plan(&[(4, 5), (3, 20)]);
        d.run(&w);
    } else {
        let mut d = SDrv::<S>::new(src, ctx, SZ);
        d.check = true;
        d.src.plan(&[(3, 4), (3, 20)]);
        d.run(&w);
        let j = d.src.usize(d.slots.len());
        let SSlot { s, md } = d.slots.swap_remove(j);
        let max = d.max_len;
        format(ctx, md.len() % 7 >= 4);
        let mut v = write(&s);
        let (len, got) = elements(&v);
        if let Some(len) = len {
            ensure_eq!(len, md.len(), "length announced by serialize");
        }
        let exp: Vec<i64> = md.iter().map(|(k, t)| code(*k, *t)).collect();
        ensure_eq!(got, exp, "serialized elements");
        let h = [Hint::Left, Hint::None, Hint::Fixed(md.len() / 2), Hint::Fixed(md.len() + 3)][md.len() % 4];
        with_hint(&mut v, h);
        let s2: S = match read(&v) {
            Ok(m) => m,
            Err(e) => fail!("deserializing what was serialized fails: {e}"),
        };
        ensure!(s2 == s, "round trip gives a different set");
        crate::sets::verify_set(&s2, &md, true, &|| "set after a round trip".to_string());
        crate::sets::verify_set(&s, &md, true, &|| "set that was serialized".to_string());
        // what is no set at all
        for x in [Val::Unit, Val::Int(md.len() as i64)] {
            ensure!(read::<S>(&x).is_err(), "deserializing {x:?} gives a set");
        }
        ctx.label("round trip: set");
        ctx.nontrivial = max >= 4;
        drop(s);
        crate::track::check_errs("round trip");
    }
}

/// the elements inside a serialized set, and the count announced
fn elements(v: &Val) -> (Option<usize>, Vec<i64>) {
    match v {
        Val::Map { len, items, .. } => (*len, items.iter().map(|e| int_pair(e).0).collect()),
        Val::Seq { len, items, .. } => {
            (*len, items.iter().map(|e| int_pair(&(e.clone(), Val::Unit)).0).collect())
        }
        Val::Struct(_, fs) if fs.len() == 1 => elements(&fs[0].1),
        x => fail!("a set serializes as {x:?}"),
    }
}
fn wrap(shape: &Val, stream: Val) -> Val {
    match shape {
        Val::Map { .. } => stream,
        Val::Seq { .. } => match stream {
            Val::Map { hint, items, end, .. } => {
                let mut items: Vec<Val> = items
                    .into_iter()
                    .map(|e| if matches!(e.1, Val::Bad(_)) { e.1 } else { e.0 })
                    .collect();
                if let Some(e) = end {
                    items.push(Val::Bad(e));
                }
                Val::Seq { len: None, hint, items }
            }
            x => x,
        },
        Val::Struct(n, fs) if fs.len() == 1 => Val::Struct(n, vec![(fs[0].0, wrap(&fs[0].1, stream))]),
        x => fail!("a set serializes as {x:?}"),
    }
}

type AMap = crate::maps::AMap;
type ASet = crate::sets::ASet;
use crate::maps::BMap;
use crate::sets::BSet;

pub fn run(src: &mut Src, ctx: &mut Ctx) {
    macro_rules! n {
        ($f:ident, $t:ident) => {
            match src.weighted(&[3, 3, 2, 2, 5, 2, 1, 1]) {
                0 => $f::<$t<1>>(src, ctx),
                1 => $f::<$t<2>>(src, ctx),
                2 => $f::<$t<3>>(src, ctx),
                3 => $f::<$t<4>>(src, ctx),
                4 => $f::<$t<5>>(src, ctx),
                5 => $f::<$t<6>>(src, ctx),
                6 => $f::<$t<9>>(src, ctx),
                _ => $f::<$t<16>>(src, ctx),
            }
        };
    }
    match src.weighted(&[4, 6, 2, 3]) {
        0 => {
            ctx.label("type: AvlMap");
            map_case::<AMap>(src, ctx)
        }
        1 => {
            ctx.label("type: BTreeMap");
            n!(map_case, BMap)
        }
        2 => {
            ctx.label("type: AvlSet");
            set_case::<ASet>(src, ctx)
        }
        _ => {
            ctx.label("type: BTreeSet");
            n!(set_case, BSet)
        }
    }
}
