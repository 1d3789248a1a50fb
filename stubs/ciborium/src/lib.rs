//! stand-in: CBOR values, their encoding and decoding
use serde::{de, ser, Deserialize, Serialize};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Integer(i128), Bytes(Vec<u8>), Float(f64), Text(String), Bool(bool), Null, Tag(u64, Box<Value>), Array(Vec<Value>), Map(Vec<(Value, Value)>),
}
#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl ser::Error for Error { fn custom<T: fmt::Display>(t: T) -> Self { Self(t.to_string()) } }

fn head(out: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    if n < 24 { out.push(m | n as u8) } else if n < 256 { out.extend([m | 24, n as u8]) } else if n < 65536 { out.push(m | 25); out.extend((n as u16).to_be_bytes()) }
    else if n < 1 << 32 { out.push(m | 26); out.extend((n as u32).to_be_bytes()) } else { out.push(m | 27); out.extend(n.to_be_bytes()) }
}
impl Value {
    pub fn serialized<T: ?Sized + Serialize>(v: &T) -> Result<Self, Error> { v.serialize(Ser) }
    pub fn encode(&self, out: &mut Vec<u8>) {
        match self {
            Self::Integer(i) => if *i >= 0 { head(out, 0, *i as u64) } else { head(out, 1, (-1 - *i) as u64) },
            Self::Bytes(b) => { head(out, 2, b.len() as u64); out.extend(b) }
            Self::Text(s) => { head(out, 3, s.len() as u64); out.extend(s.as_bytes()) }
            Self::Array(a) => { head(out, 4, a.len() as u64); a.iter().for_each(|x| x.encode(out)) }
            Self::Map(m) => { head(out, 5, m.len() as u64); m.iter().for_each(|(k, v)| { k.encode(out); v.encode(out) }) }
            Self::Tag(t, v) => { head(out, 6, *t); v.encode(out) }
            Self::Bool(b) => out.push(if *b { 0xf5 } else { 0xf4 }),
            Self::Null => out.push(0xf6),
            Self::Float(f) => { out.push(0xfb); out.extend(f.to_be_bytes()) }
        }
    }
    pub fn decode(b: &[u8]) -> Result<Self, Error> { let mut i = 0; let v = dec(b, &mut i)?; if i != b.len() { return Err(Error("trailing data".into())); } Ok(v) }
}
fn dec(b: &[u8], i: &mut usize) -> Result<Value, Error> {
    let e = || Error("truncated".into());
    let h = *b.get(*i).ok_or_else(e)?;
    *i += 1;
    let (major, info) = (h >> 5, h & 31);
    if major == 7 {
        return Ok(match info { 20 => Value::Bool(false), 21 => Value::Bool(true), 22 | 23 => Value::Null,
            27 => { let s = b.get(*i..*i + 8).ok_or_else(e)?; *i += 8; Value::Float(f64::from_be_bytes(s.try_into().unwrap())) }
            _ => return Err(Error("simple".into())) });
    }
    let n = match info { 0..=23 => u64::from(info), 24..=27 => { let l = 1usize << (info - 24); let s = b.get(*i..*i + l).ok_or_else(e)?; *i += l; s.iter().fold(0u64, |a, x| a << 8 | u64::from(*x)) } _ => return Err(Error("length".into())) };
    Ok(match major {
        0 => Value::Integer(n as i128), 1 => Value::Integer(-1 - n as i128),
        2 | 3 => { let s = b.get(*i..*i + n as usize).ok_or_else(e)?.to_vec(); *i += n as usize; if major == 2 { Value::Bytes(s) } else { Value::Text(String::from_utf8(s).map_err(|_| Error("utf8".into()))?) } }
        4 => { let mut a = vec![]; for _ in 0..n { a.push(dec(b, i)?) } Value::Array(a) }
        5 => { let mut a = vec![]; for _ in 0..n { let k = dec(b, i)?; a.push((k, dec(b, i)?)) } Value::Map(a) }
        _ => Value::Tag(n, Box::new(dec(b, i)?)),
    })
}
/// marks a tagged value on its way through serde
pub const TAG: &str = "@@TAG@@";
impl Serialize for Value {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::{SerializeMap, SerializeSeq};
        match self {
            Self::Integer(i) => if *i >= 0 { s.serialize_u64(*i as u64) } else { s.serialize_i64(*i as i64) },
            Self::Bytes(b) => s.serialize_bytes(b), Self::Float(f) => s.serialize_f64(*f), Self::Text(t) => s.serialize_str(t), Self::Bool(b) => s.serialize_bool(*b), Self::Null => s.serialize_unit(),
            Self::Tag(t, v) => { use ser::SerializeTupleVariant; let mut q = s.serialize_tuple_variant(TAG, 0, TAG, 2)?; q.serialize_field(t)?; q.serialize_field(v)?; q.end() }
            Self::Array(a) => { let mut q = s.serialize_seq(Some(a.len()))?; for x in a { q.serialize_element(x)? } q.end() }
            Self::Map(m) => { let mut q = s.serialize_map(Some(m.len()))?; for (k, v) in m { q.serialize_entry(k, v)? } q.end() }
        }
    }
}
impl<'de> Deserialize<'de> for Value { fn deserialize<D: de::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { Err(de::Error::custom("stand-in: not supported")) } }

struct Ser;
pub struct Seq(Vec<Value>, Option<&'static str>);
pub struct MapS(Vec<(Value, Value)>, Option<Value>, Option<&'static str>);
fn vari(name: Option<&'static str>, v: Value) -> Value { match name { Some(n) => Value::Map(vec![(Value::Text(n.into()), v)]), None => v } }
impl ser::Serializer for Ser {
    type Ok = Value; type Error = Error;
    type SerializeSeq = Seq; type SerializeTuple = Seq; type SerializeTupleStruct = Seq; type SerializeTupleVariant = Seq; type SerializeMap = MapS; type SerializeStruct = MapS; type SerializeStructVariant = MapS;
    fn serialize_bool(self, v: bool) -> Result<Value, Error> { Ok(Value::Bool(v)) }
    fn serialize_i8(self, v: i8) -> Result<Value, Error> { Ok(Value::Integer(v.into())) }
    fn serialize_i16(self, v: i16) -> Result<Value, Error> { Ok(Value::Integer(v.into())) }
    fn serialize_i32(self, v: i32) -> Result<Value, Error> { Ok(Value::Integer(v.into())) }
    fn serialize_i64(self, v: i64) -> Result<Value, Error> { Ok(Value::Integer(v.into())) }
    fn serialize_u8(self, v: u8) -> Result<Value, Error> { Ok(Value::Integer(v.into())) }
    fn serialize_u16(self, v: u16) -> Result<Value, Error> { Ok(Value::Integer(v.into())) }
    fn serialize_u32(self, v: u32) -> Result<Value, Error> { Ok(Value::Integer(v.into())) }
    fn serialize_u64(self, v: u64) -> Result<Value, Error> { Ok(Value::Integer(v.into())) }
    fn serialize_f32(self, v: f32) -> Result<Value, Error> { Ok(Value::Float(v.into())) }
    fn serialize_f64(self, v: f64) -> Result<Value, Error> { Ok(Value::Float(v)) }
    fn serialize_char(self, v: char) -> Result<Value, Error> { Ok(Value::Text(v.into())) }
    fn serialize_str(self, v: &str) -> Result<Value, Error> { Ok(Value::Text(v.into())) }
    fn serialize_bytes(self, v: &[u8]) -> Result<Value, Error> { Ok(Value::Bytes(v.into())) }
    fn serialize_none(self) -> Result<Value, Error> { Ok(Value::Null) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Value, Error> { v.serialize(self) }
    fn serialize_unit(self) -> Result<Value, Error> { Ok(Value::Null) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Value, Error> { Ok(Value::Null) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Value, Error> { Ok(Value::Text(v.into())) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Value, Error> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Value, Error> { Ok(vari(Some(n), v.serialize(self)?)) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq, Error> { Ok(Seq(vec![], None)) }
    fn serialize_tuple(self, _: usize) -> Result<Seq, Error> { Ok(Seq(vec![], None)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq, Error> { Ok(Seq(vec![], None)) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Seq, Error> { Ok(Seq(vec![], Some(n))) }
    fn serialize_map(self, _: Option<usize>) -> Result<MapS, Error> { Ok(MapS(vec![], None, None)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<MapS, Error> { Ok(MapS(vec![], None, None)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<MapS, Error> { Ok(MapS(vec![], None, Some(n))) }
}
impl Seq {
    fn fin(self) -> Value {
        if self.1 == Some(TAG) { if let [Value::Integer(t), v] = &self.0[..] { return Value::Tag(*t as u64, Box::new(v.clone())); } }
        vari(self.1, Value::Array(self.0))
    }
}
impl ser::SerializeSeq for Seq { type Ok = Value; type Error = Error; fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.0.push(v.serialize(Ser)?); Ok(()) } fn end(self) -> Result<Value, Error> { Ok(self.fin()) } }
impl ser::SerializeTuple for Seq { type Ok = Value; type Error = Error; fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.0.push(v.serialize(Ser)?); Ok(()) } fn end(self) -> Result<Value, Error> { Ok(self.fin()) } }
impl ser::SerializeTupleStruct for Seq { type Ok = Value; type Error = Error; fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.0.push(v.serialize(Ser)?); Ok(()) } fn end(self) -> Result<Value, Error> { Ok(self.fin()) } }
impl ser::SerializeTupleVariant for Seq { type Ok = Value; type Error = Error; fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.0.push(v.serialize(Ser)?); Ok(()) } fn end(self) -> Result<Value, Error> { Ok(self.fin()) } }
impl ser::SerializeMap for MapS {
    type Ok = Value; type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.1 = Some(v.serialize(Ser)?); Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { let k = self.1.take().unwrap(); self.0.push((k, v.serialize(Ser)?)); Ok(()) }
    fn end(self) -> Result<Value, Error> { Ok(vari(self.2, Value::Map(self.0))) }
}
impl ser::SerializeStruct for MapS { type Ok = Value; type Error = Error; fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> { self.0.push((Value::Text(k.into()), v.serialize(Ser)?)); Ok(()) } fn end(self) -> Result<Value, Error> { Ok(vari(self.2, Value::Map(self.0))) } }
impl ser::SerializeStructVariant for MapS { type Ok = Value; type Error = Error; fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> { self.0.push((Value::Text(k.into()), v.serialize(Ser)?)); Ok(()) } fn end(self) -> Result<Value, Error> { Ok(vari(self.2, Value::Map(self.0))) } }
#[macro_export]
macro_rules! cbor { ($v:expr) => { $crate::Value::serialized(&$v) }; }
