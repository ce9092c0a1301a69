// A serializer which records the names it is given.
use serde::ser::{self, Serialize as _, Impossible, SerializeStruct};
#[derive(Debug)] pub struct NE; impl core::fmt::Display for NE { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } } impl std::error::Error for NE {} impl ser::Error for NE { fn custom<T: core::fmt::Display>(_: T) -> Self { NE } }
#[derive(Clone, Copy)] enum Val { Nothing, Num(i64), Name(&'static str), Text(u8), Null }
pub struct Names { keys: [&'static str; 8], vals: [Val; 8], n: usize }
struct One(Val);
macro_rules! no { ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<Self::Ok, NE> { Err(NE) })* } }
impl<'a> ser::Serializer for &'a mut One { type Ok = (); type Error = NE; type SerializeSeq = Impossible<(), NE>; type SerializeTuple = Impossible<(), NE>; type SerializeTupleStruct = Impossible<(), NE>; type SerializeTupleVariant = Impossible<(), NE>; type SerializeMap = Impossible<(), NE>; type SerializeStruct = Impossible<(), NE>; type SerializeStructVariant = Impossible<(), NE>;
  no!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_bytes &[u8], serialize_unit_struct &'static str);
  fn serialize_i64(self, v: i64) -> Result<(), NE> { self.0 = Val::Num(v); Ok(()) }
  fn serialize_str(self, v: &str) -> Result<(), NE> { if v.len() != 1 { return Err(NE); } self.0 = Val::Text(v.as_bytes()[0]); Ok(()) }
  fn serialize_none(self) -> Result<(), NE> { self.0 = Val::Null; Ok(()) } fn serialize_unit(self) -> Result<(), NE> { self.0 = Val::Null; Ok(()) }
  fn serialize_some<T: ?Sized + serde::Serialize>(self, v: &T) -> Result<(), NE> { v.serialize(self) }
  fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), NE> { self.0 = Val::Name(v); Ok(()) }
  fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<(), NE> { Err(NE) } fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), NE> { Err(NE) }
  fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, NE> { Err(NE) } fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, NE> { Err(NE) } fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, NE> { Err(NE) } fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, NE> { Err(NE) } fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, NE> { Err(NE) } fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, NE> { Err(NE) } fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, NE> { Err(NE) } }
impl<'a> ser::Serializer for &'a mut Names { type Ok = (); type Error = NE; type SerializeSeq = Impossible<(), NE>; type SerializeTuple = Impossible<(), NE>; type SerializeTupleStruct = Impossible<(), NE>; type SerializeTupleVariant = Impossible<(), NE>; type SerializeMap = Impossible<(), NE>; type SerializeStruct = Self; type SerializeStructVariant = Impossible<(), NE>;
  no!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_bytes &[u8], serialize_str &str, serialize_unit_struct &'static str);
  fn serialize_none(self) -> Result<(), NE> { Err(NE) } fn serialize_unit(self) -> Result<(), NE> { Err(NE) } fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<(), NE> { Err(NE) } fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), NE> { Err(NE) }
  fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<(), NE> { Err(NE) } fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), NE> { Err(NE) }
  fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, NE> { Err(NE) } fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, NE> { Err(NE) } fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, NE> { Err(NE) } fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, NE> { Err(NE) } fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, NE> { Err(NE) } fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, NE> { Ok(self) } fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, NE> { Err(NE) } }
impl<'a> SerializeStruct for &'a mut Names { type Ok = (); type Error = NE;
  fn serialize_field<T: ?Sized + serde::Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), NE> { let mut o = One(Val::Nothing); v.serialize(&mut o)?; if self.n < 8 { self.keys[self.n] = k; self.vals[self.n] = o.0; self.n += 1; } Ok(()) }
  fn end(self) -> Result<(), NE> { Ok(()) } }
fn eq(a: &str, b: &str) -> bool { let (a, b) = (a.as_bytes(), b.as_bytes()); if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }
/// The names serde gives an event's fields and values.
#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(24))]
pub fn names() {
    let e = any_u8(); let p = any_u8(); assume(e < 6 && p < 6); let t = i64::from_le_bytes(any_bytes::<8>()); let a = any_bool();
    use super::{EffectType as E, PathType as P};
    let (ee, en) = match e { 0 => (E::Rename, "rename"), 1 => (E::Modify, "modify"), 2 => (E::Create, "create"), 3 => (E::Destroy, "destroy"), 4 => (E::Owner, "owner"), _ => (E::Other, "other") };
    let (pp, pn) = match p { 0 => (P::Dir, "dir"), 1 => (P::File, "file"), 2 => (P::HardLink, "hard_link"), 3 => (P::SymLink, "sym_link"), 4 => (P::Watcher, "watcher"), _ => (P::Other, "other") };
    let ev = Event { effect_time: t, path_name: "p".to_string(), associated_path_name: if a { Some("q".to_string()) } else { None }, effect_type: ee, path_type: pp };
    let mut n = Names { keys: [""; 8], vals: [Val::Nothing; 8], n: 0 };
    let r = ev.serialize(&mut n); check!(r.is_ok() && n.n == 5, "rs-convert:serializes");
    let mut found = 0; let mut i = 0;
    while i < n.n { let v = n.vals[i]; let k = n.keys[i];
        if eq(k, "effect_time") { found |= 1; check!(matches!(v, Val::Num(x) if x == t), "rs-convert:serialized-time"); }
        if eq(k, "path_name") { found |= 2; check!(matches!(v, Val::Text(b'p')), "rs-convert:serialized-path"); }
        if eq(k, "associated_path_name") { found |= 4; check!(if a { matches!(v, Val::Text(b'q')) } else { matches!(v, Val::Null) }, "rs-convert:serialized-associated"); }
        if eq(k, "effect_type") { found |= 8; check!(matches!(v, Val::Name(s) if eq(s, en)), "rs-convert:serialized-effect"); }
        if eq(k, "path_type") { found |= 16; check!(matches!(v, Val::Name(s) if eq(s, pn)), "rs-convert:serialized-type"); }
        i += 1; }
    check!(found == 31, "rs-convert:serialized-fields"); core::mem::forget(ev);
}
