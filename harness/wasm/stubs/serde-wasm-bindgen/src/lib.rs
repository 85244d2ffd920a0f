//! Stands in for serde-wasm-bindgen: what a value would be in JavaScript, as JSON.
//! Like the real one it refuses integers that JavaScript numbers cannot hold.
use serde::ser::{self, Serialize};
use serde_json::{Map, Value};
pub type Error = serde_json::Error;
type Result<T = Value> = std::result::Result<T, Error>;

#[derive(Clone, Copy)]
pub struct Serializer { maps: bool, bigints: bool, missing: bool }
impl Default for Serializer { fn default() -> Self { Self::new() } }
impl Serializer {
    pub const fn new() -> Self { Serializer { maps: false, bigints: false, missing: false } }
    pub const fn json_compatible() -> Self { Serializer { maps: true, bigints: false, missing: true } }
    pub const fn serialize_maps_as_objects(mut self, v: bool) -> Self { self.maps = v; self }
    pub const fn serialize_missing_as_null(mut self, v: bool) -> Self { self.missing = v; self }
    pub const fn serialize_large_number_types_as_bigints(mut self, v: bool) -> Self { self.bigints = v; self }
}
pub fn to_value<T: Serialize + ?Sized>(v: &T) -> Result { v.serialize(&Serializer::new()) }

pub struct Seq<'a>(&'a Serializer, Vec<Value>, Option<&'static str>);
pub struct Obj<'a>(&'a Serializer, Map<String, Value>, Option<String>, Option<&'static str>);
fn named(n: Option<&'static str>, v: Value) -> Value {
    match n { None => v, Some(n) => Value::Object([(n.to_string(), v)].into_iter().collect()) }
}
impl<'a> Seq<'a> {
    fn add<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> { self.1.push(v.serialize(self.0)?); Ok(()) }
    fn done(self) -> Result { Ok(named(self.2, Value::Array(self.1))) }
}
macro_rules! seq { ($($t:ident $f:ident),*) => { $(impl<'a> ser::$t for Seq<'a> {
    type Ok = Value; type Error = Error;
    fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> { self.add(v) }
    fn end(self) -> Result { self.done() }
})* } }
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl<'a> ser::SerializeMap for Obj<'a> {
    type Ok = Value; type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<()> {
        match k.serialize(self.0)? { Value::String(s) => { self.2 = Some(s); Ok(()) } _ => Err(ser::Error::custom("Map key is not a string and cannot be an object key")) }
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        let k = self.2.take().unwrap();
        self.1.insert(k, v.serialize(self.0)?); Ok(())
    }
    // a Map of JavaScript is no object
    fn end(self) -> Result { if self.0.maps { Ok(Value::Object(self.1)) } else { Ok(serde_json::json!(["Map", self.1])) } }
}
macro_rules! obj { ($($t:ident),*) => { $(impl<'a> ser::$t for Obj<'a> {
    type Ok = Value; type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<()> { self.1.insert(k.to_string(), v.serialize(self.0)?); Ok(()) }
    fn end(self) -> Result { Ok(named(self.3, Value::Object(self.1))) }
})* } }
obj!(SerializeStruct, SerializeStructVariant);

const SAFE: i128 = 9007199254740991;
impl Serializer {
    fn int(&self, v: i128, big: bool) -> Result {
        if big && !self.bigints && !(-SAFE..=SAFE).contains(&v) { return Err(ser::Error::custom(format_args!("{v} can't be represented as a JavaScript number"))) }
        match i64::try_from(v) { Ok(n) => Ok(n.into()), _ => Ok((v as f64).into()) }
    }
}
impl<'a> ser::Serializer for &'a Serializer {
    type Ok = Value; type Error = Error;
    type SerializeSeq = Seq<'a>; type SerializeTuple = Seq<'a>; type SerializeTupleStruct = Seq<'a>; type SerializeTupleVariant = Seq<'a>;
    type SerializeMap = Obj<'a>; type SerializeStruct = Obj<'a>; type SerializeStructVariant = Obj<'a>;
    fn serialize_bool(self, v: bool) -> Result { Ok(v.into()) }
    fn serialize_i8(self, v: i8) -> Result { self.int(v as i128, false) }
    fn serialize_i16(self, v: i16) -> Result { self.int(v as i128, false) }
    fn serialize_i32(self, v: i32) -> Result { self.int(v as i128, false) }
    fn serialize_i64(self, v: i64) -> Result { self.int(v as i128, true) }
    fn serialize_u8(self, v: u8) -> Result { self.int(v as i128, false) }
    fn serialize_u16(self, v: u16) -> Result { self.int(v as i128, false) }
    fn serialize_u32(self, v: u32) -> Result { self.int(v as i128, false) }
    fn serialize_u64(self, v: u64) -> Result { self.int(v as i128, true) }
    fn serialize_f32(self, v: f32) -> Result { self.serialize_f64(v as f64) }
    fn serialize_f64(self, v: f64) -> Result { Ok(match serde_json::Number::from_f64(v) { Some(n) => n.into(), None => format!("{v} the number").into() }) }
    fn serialize_char(self, v: char) -> Result { Ok(v.to_string().into()) }
    fn serialize_str(self, v: &str) -> Result { Ok(v.into()) }
    fn serialize_bytes(self, v: &[u8]) -> Result { Ok(v.to_vec().into()) }
    fn serialize_none(self) -> Result { self.serialize_unit() }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result { v.serialize(self) }
    // undefined, unless asked for null: in JSON there is only null
    fn serialize_unit(self) -> Result { Ok(Value::Null) }
    fn serialize_unit_struct(self, _: &'static str) -> Result { self.serialize_unit() }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result { Ok(v.into()) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result { v.serialize(self) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result { Ok(named(Some(n), v.serialize(self)?)) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq<'a>> { Ok(Seq(self, vec![], None)) }
    fn serialize_tuple(self, _: usize) -> Result<Seq<'a>> { Ok(Seq(self, vec![], None)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq<'a>> { Ok(Seq(self, vec![], None)) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Seq<'a>> { Ok(Seq(self, vec![], Some(n))) }
    fn serialize_map(self, _: Option<usize>) -> Result<Obj<'a>> { Ok(Obj(self, Map::new(), None, None)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Obj<'a>> { Ok(Obj(self, Map::new(), None, None)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Obj<'a>> { Ok(Obj(self, Map::new(), None, Some(n))) }
}
