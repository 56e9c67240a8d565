//! serde, with a minimal token format
use crate::*;
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use serde::Deserialize;

/// Tokens are pairs (kind, value).
pub const U64: u64 = 1;
pub const SEQ: u64 = 2; // value: length
pub const KEY_WIDTH: u64 = 3;
pub const KEY_DIGITS: u64 = 4;
pub const KEY_OTHER: u64 = 5;
pub const MAP: u64 = 6; // value: number of entries
pub const UNIT: u64 = 7;
pub const NEWTYPE: u64 = 8;

#[derive(Debug)]
pub struct Er;
impl core::fmt::Display for Er {
    fn fmt(&self, _f: &mut core::fmt::Formatter) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Er {}
impl de::Error for Er {
    fn custom<T: core::fmt::Display>(_m: T) -> Er {
        Er
    }
}
impl ser::Error for Er {
    fn custom<T: core::fmt::Display>(_m: T) -> Er {
        Er
    }
}

pub struct Buf {
    pub human: bool,
    pub k: [u64; 48],
    pub v: [u64; 48],
    pub n: usize,
}
impl Buf {
    fn put(&mut self, k: u64, v: u64) -> core::result::Result<(), Er> {
        self.k[self.n] = k;
        self.v[self.n] = v;
        self.n += 1;
        Ok(())
    }
}

type R<T> = core::result::Result<T, Er>;

impl<'a> Serializer for &'a mut Buf {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn serialize_bool(self, v: bool) -> R<()> {
        self.put(U64, v as u64)
    }
    fn serialize_i8(self, v: i8) -> R<()> {
        self.put(U64, v as u64)
    }
    fn serialize_i16(self, v: i16) -> R<()> {
        self.put(U64, v as u64)
    }
    fn serialize_i32(self, v: i32) -> R<()> {
        self.put(U64, v as u64)
    }
    fn serialize_i64(self, v: i64) -> R<()> {
        self.put(U64, v as u64)
    }
    fn serialize_u8(self, v: u8) -> R<()> {
        self.put(U64, v as u64)
    }
    fn serialize_u16(self, v: u16) -> R<()> {
        self.put(U64, v as u64)
    }
    fn serialize_u32(self, v: u32) -> R<()> {
        self.put(U64, v as u64)
    }
    fn serialize_u64(self, v: u64) -> R<()> {
        self.put(U64, v)
    }
    fn serialize_f32(self, _v: f32) -> R<()> {
        Err(Er)
    }
    fn serialize_f64(self, _v: f64) -> R<()> {
        Err(Er)
    }
    fn serialize_char(self, _v: char) -> R<()> {
        Err(Er)
    }
    fn serialize_str(self, _v: &str) -> R<()> {
        Err(Er)
    }
    fn serialize_bytes(self, _v: &[u8]) -> R<()> {
        Err(Er)
    }
    fn serialize_none(self) -> R<()> {
        self.put(UNIT, 0)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R<()> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> R<()> {
        self.put(UNIT, 0)
    }
    fn serialize_unit_struct(self, _n: &'static str) -> R<()> {
        self.put(UNIT, 0)
    }
    fn serialize_unit_variant(self, _n: &'static str, i: u32, _v: &'static str) -> R<()> {
        self.put(U64, i as u64)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _n: &'static str, v: &T) -> R<()> {
        self.put(NEWTYPE, 0)?;
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _n: &'static str, _i: u32, _v: &'static str, _x: &T) -> R<()> {
        Err(Er)
    }
    fn serialize_seq(self, len: Option<usize>) -> R<Self> {
        match len {
            Some(n) => {
                self.put(SEQ, n as u64)?;
                Ok(self)
            }
            None => Err(Er),
        }
    }
    fn serialize_tuple(self, len: usize) -> R<Self> {
        self.put(SEQ, len as u64)?;
        Ok(self)
    }
    fn serialize_tuple_struct(self, _n: &'static str, len: usize) -> R<Self> {
        self.put(SEQ, len as u64)?;
        Ok(self)
    }
    fn serialize_tuple_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> R<Self> {
        Err(Er)
    }
    fn serialize_map(self, len: Option<usize>) -> R<Self> {
        self.put(MAP, len.unwrap_or(0) as u64)?;
        Ok(self)
    }
    fn serialize_struct(self, _n: &'static str, len: usize) -> R<Self> {
        self.put(MAP, len as u64)?;
        Ok(self)
    }
    fn serialize_struct_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> R<Self> {
        Err(Er)
    }
}
impl<'a> ser::SerializeSeq for &'a mut Buf {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
        v.serialize(&mut **self)
    }
    fn end(self) -> R<()> {
        Ok(())
    }
}
impl<'a> ser::SerializeTuple for &'a mut Buf {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
        v.serialize(&mut **self)
    }
    fn end(self) -> R<()> {
        Ok(())
    }
}
impl<'a> ser::SerializeTupleStruct for &'a mut Buf {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
        v.serialize(&mut **self)
    }
    fn end(self) -> R<()> {
        Ok(())
    }
}
impl<'a> ser::SerializeTupleVariant for &'a mut Buf {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
        v.serialize(&mut **self)
    }
    fn end(self) -> R<()> {
        Ok(())
    }
}
impl<'a> ser::SerializeMap for &'a mut Buf {
    type Ok = ();
    type Error = Er;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
        v.serialize(&mut **self)
    }
    fn end(self) -> R<()> {
        Ok(())
    }
}
fn key(k: &'static str) -> u64 {
    match k {
        "width" => KEY_WIDTH,
        "digits" => KEY_DIGITS,
        _ => KEY_OTHER,
    }
}
impl<'a> ser::SerializeStruct for &'a mut Buf {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> R<()> {
        self.put(key(k), 0)?;
        v.serialize(&mut **self)
    }
    fn end(self) -> R<()> {
        Ok(())
    }
}
impl<'a> ser::SerializeStructVariant for &'a mut Buf {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> R<()> {
        self.put(key(k), 0)?;
        v.serialize(&mut **self)
    }
    fn end(self) -> R<()> {
        Ok(())
    }
}

/// reads tokens; gives the visitor what the token says, whatever it asked for
pub struct Rd<'b> {
    b: &'b Buf,
    at: usize,
}
impl<'b> Rd<'b> {
    fn next(&mut self) -> R<(u64, u64)> {
        if self.at >= self.b.n {
            return Err(Er);
        }
        let t = (self.b.k[self.at], self.b.v[self.at]);
        self.at += 1;
        Ok(t)
    }
    fn any<'de, V: Visitor<'de>>(&mut self, v: V) -> R<V::Value> {
        let (k, x) = self.next()?;
        match k {
            U64 => v.visit_u64(x),
            SEQ => v.visit_seq(Acc { r: self, left: x }),
            MAP => v.visit_map(Acc { r: self, left: x }),
            KEY_WIDTH => v.visit_str("width"),
            KEY_DIGITS => v.visit_str("digits"),
            KEY_OTHER => v.visit_str("other"),
            NEWTYPE => v.visit_newtype_struct(self),
            _ => v.visit_unit(),
        }
    }
}
struct Acc<'a, 'b> {
    r: &'a mut Rd<'b>,
    left: u64,
}
impl<'de, 'a, 'b> SeqAccess<'de> for Acc<'a, 'b> {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<Option<T::Value>> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        s.deserialize(&mut *self.r).map(Some)
    }
}
impl<'de, 'a, 'b> MapAccess<'de> for Acc<'a, 'b> {
    type Error = Er;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<Option<T::Value>> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        s.deserialize(&mut *self.r).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<T::Value> {
        s.deserialize(&mut *self.r)
    }
}
macro_rules! fwd {
    ($($f:ident)*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> R<V::Value> { self.any(v) })* };
}
impl<'de, 'a, 'b> Deserializer<'de> for &'a mut Rd<'b> {
    type Error = Er;
    fn is_human_readable(&self) -> bool {
        self.b.human
    }
    fwd!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64
         deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64
         deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf
         deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier
         deserialize_ignored_any);
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> R<V::Value> {
        self.any(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> R<V::Value> {
        self.any(v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _l: usize, v: V) -> R<V::Value> {
        self.any(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _n: &'static str, _l: usize, v: V) -> R<V::Value> {
        self.any(v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _n: &'static str, _f: &'static [&'static str], v: V) -> R<V::Value> {
        self.any(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _n: &'static str, _f: &'static [&'static str], _v: V) -> R<V::Value> {
        Err(Er)
    }
}

fn fresh(human: u64) -> Buf {
    Buf { human: human != 0, k: [0; 48], v: [0; 48], n: 0 }
}

/// serialize and read back
#[no_mangle]
pub extern "C" fn h_serde(wa: u64, human: u64, _z: u64) {
    let a = any("a", width("w", wa));
    let mut b = fresh(human);
    let r = a.serialize(&mut b);
    out("ser", r.is_ok() as u64);
    out("ntok", b.n as u64);
    for i in 0..b.n {
        outi("tk", i as u64, b.k[i]);
        outi("tv", i as u64, b.v[i]);
    }
    let mut rd = Rd { b: &b, at: 0 };
    match ApInt::deserialize(&mut rd) {
        Ok(r) => {
            out("used", rd.at as u64);
            out_val("r.w", "r", &r)
        }
        Err(_) => out("err", 1),
    }
    out_val("a.w", "a'", &a);
}

/// compact form: outer sequence of `outer` elements; the digit sequence announces `dig` digits.
/// shape bits: 0 width token is a unit, 1 digits token is a number, 2 the outer token is a map
#[no_mangle]
pub extern "C" fn h_de_compact(outer: u64, dig: u64, shape: u64) {
    let mut b = fresh(0);
    let _ = b.put(if shape & 4 != 0 { MAP } else { SEQ }, outer);
    if outer > 0 {
        let v = inp("v", NOIDX, 64);
        let _ = b.put(if shape & 1 != 0 { UNIT } else { U64 }, v);
    }
    if outer > 1 {
        if shape & 2 != 0 {
            let _ = b.put(U64, 5);
        } else {
            let _ = b.put(SEQ, dig);
            for i in 0..dig {
                let _ = b.put(U64, inp("d", i, 64));
            }
        }
    }
    fin(b, shape >> 8);
}

/// cut: the data ends after that many tokens (0: it does not)
fn fin(mut b: Buf, cut: u64) {
    if cut != 0 && (cut as usize) < b.n {
        b.n = cut as usize;
    }
    let mut rd = Rd { b: &b, at: 0 };
    match ApInt::deserialize(&mut rd) {
        Ok(r) => out_val("r.w", "r", &r),
        Err(_) => out("err", 1),
    }
}

/// readable form: a map whose entries are given by `keys` (4 bits each, first entry lowest; 3 width, 4 digits, 5 other, 0 end);
/// width values are inputs; digit sequences have (dig >> 4*j) & 15 digits in the j-th entry.
/// shape bit 0: the width value is a bare number, 1: an empty sequence, 2: digits are a number
#[no_mangle]
pub extern "C" fn h_de_human(keys: u64, dig: u64, shape: u64) {
    let mut b = fresh(1);
    let mut n = 0;
    while (keys >> (4 * n)) & 15 != 0 {
        n += 1;
    }
    let _ = b.put(MAP, n);
    for j in 0..n {
        let k = (keys >> (4 * j)) & 15;
        let _ = b.put(k, 0);
        match k {
            KEY_WIDTH => {
                if shape & 1 == 0 {
                    let _ = b.put(SEQ, if shape & 2 == 0 { 1 } else { 0 });
                }
                if shape & 2 == 0 {
                    let _ = b.put(U64, inp("v", j, 64));
                }
            }
            KEY_DIGITS => {
                if shape & 4 != 0 {
                    let _ = b.put(U64, 1);
                } else {
                    let m = (dig >> (4 * j)) & 15;
                    let _ = b.put(SEQ, m);
                    for i in 0..m {
                        let _ = b.put(U64, inp("d", 16 * j + i, 64));
                    }
                }
            }
            _ => {
                let _ = b.put(U64, 1);
            }
        }
    }
    fin(b, shape >> 8);
}

table!(h_serde, h_de_compact, h_de_human);
