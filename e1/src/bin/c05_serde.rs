//! C05: serde: Serialize. What a serializer is told must be exactly what the active variant's
//! value tells it (the enum is not serialized as an enum).
#![allow(dead_code)]
use auto_enums::enum_derive;
#[path = "../fw.rs"]
#[macro_use]
mod fw;
use fw::*;
extern crate serde_crate as serde;
use serde::ser::{self, Impossible, Serialize, Serializer};
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Bad(u8);
impl std::fmt::Display for Bad { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Bad {}
impl ser::Error for Bad { fn custom<T: std::fmt::Display>(_: T) -> Bad { Bad(255) } }
/// Tells what it was told, with a tag, and fails when the tag says so.
pub struct Tell(u64);
type O = (u64, u8, u64);
type T0 = Result<O, Bad>;
impl Tell { fn out(self, kind: u8, x: u64) -> T0 { if self.0 & 3 == 3 { Err(Bad(kind)) } else { Ok((self.0, kind, x)) } } }
type Imp = Impossible<O, Bad>;
impl Serializer for Tell {
    type Ok = O; type Error = Bad;
    type SerializeSeq = Imp; type SerializeTuple = Imp; type SerializeTupleStruct = Imp; type SerializeTupleVariant = Imp; type SerializeMap = Imp; type SerializeStruct = Imp; type SerializeStructVariant = Imp;
    fn serialize_bool(self, v: bool) -> T0 { self.out(1, v as u64) }
    fn serialize_i8(self, v: i8) -> T0 { self.out(2, v as u64) }
    fn serialize_i16(self, v: i16) -> T0 { self.out(3, v as u64) }
    fn serialize_i32(self, v: i32) -> T0 { self.out(4, v as u64) }
    fn serialize_i64(self, v: i64) -> T0 { self.out(5, v as u64) }
    fn serialize_u8(self, v: u8) -> T0 { self.out(6, v as u64) }
    fn serialize_u16(self, v: u16) -> T0 { self.out(7, v as u64) }
    fn serialize_u32(self, v: u32) -> T0 { self.out(8, v as u64) }
    fn serialize_u64(self, v: u64) -> T0 { self.out(9, v) }
    fn serialize_f32(self, v: f32) -> T0 { self.out(10, v.to_bits() as u64) }
    fn serialize_f64(self, v: f64) -> T0 { self.out(11, v.to_bits()) }
    fn serialize_char(self, v: char) -> T0 { self.out(12, v as u64) }
    fn serialize_str(self, v: &str) -> T0 { self.out(13, v.len() as u64) }
    fn serialize_bytes(self, v: &[u8]) -> T0 { self.out(14, v.len() as u64) }
    fn serialize_none(self) -> T0 { self.out(15, 0) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> T0 { self.out(16, 0) }
    fn serialize_unit(self) -> T0 { self.out(17, 0) }
    fn serialize_unit_struct(self, n: &'static str) -> T0 { self.out(18, n.len() as u64) }
    fn serialize_unit_variant(self, n: &'static str, i: u32, _: &'static str) -> T0 { self.out(19, n.len() as u64 ^ (i as u64) << 8) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, _: &T) -> T0 { self.out(20, n.len() as u64) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, i: u32, _: &'static str, _: &T) -> T0 { self.out(21, n.len() as u64 ^ (i as u64) << 8) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, Bad> { Err(Bad(22)) }
    fn serialize_tuple(self, _: usize) -> Result<Imp, Bad> { Err(Bad(23)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, Bad> { Err(Bad(24)) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, Bad> { Err(Bad(25)) }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, Bad> { Err(Bad(26)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, Bad> { Err(Bad(27)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, Bad> { Err(Bad(28)) }
}
impl<const K: u8> Serialize for P<K> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let r = self.hit(1, 0, 0, 0); match r & 3 { 0 => s.serialize_u64(r), 1 => s.serialize_unit(), 2 => s.serialize_bool(r & 4 == 4), _ => s.serialize_unit_struct("P") } } }
variants!(#[enum_derive(serde::Serialize)] E);
contract!(serialize, E, rf, (t: u64), Result<(u64, u8, u64), Bad>, |e| Serialize::serialize(&*e, Tell(t)));
harnesses!(serialize);
