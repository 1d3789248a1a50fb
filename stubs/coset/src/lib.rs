//! stand-in: COSE_Sign1 as a CBOR array
use ciborium::Value;
pub mod iana { #[derive(Clone, Copy, Debug, PartialEq)] pub enum Algorithm { EdDSA, ES256K } }
#[derive(Debug)] pub struct CoseError(pub String);
impl std::fmt::Display for CoseError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
#[derive(Clone, Debug, Default, PartialEq)] pub struct Header { pub alg: Option<iana::Algorithm>, pub key_id: Vec<u8> }
impl Header {
    fn map(&self) -> Value {
        let mut m = vec![];
        if let Some(a) = self.alg { m.push((Value::Integer(1), Value::Integer(if a == iana::Algorithm::EdDSA { -8 } else { -47 }))) }
        if !self.key_id.is_empty() { m.push((Value::Integer(4), Value::Bytes(self.key_id.clone()))) }
        Value::Map(m)
    }
}
#[derive(Default)] pub struct HeaderBuilder(Header);
impl HeaderBuilder { pub fn new() -> Self { Self::default() } pub fn algorithm(mut self, a: iana::Algorithm) -> Self { self.0.alg = Some(a); self } pub fn key_id(mut self, k: Vec<u8>) -> Self { self.0.key_id = k; self } pub fn build(self) -> Header { self.0 } }
#[derive(Clone, Debug, Default, PartialEq)] pub struct CoseSign1 { pub protected: Header, pub unprotected: Header, pub payload: Option<Vec<u8>>, pub signature: Vec<u8> }
#[derive(Default)] pub struct CoseSign1Builder(CoseSign1);
impl CoseSign1Builder {
    pub fn new() -> Self { Self::default() }
    pub fn protected(mut self, h: Header) -> Self { self.0.protected = h; self }
    pub fn unprotected(mut self, h: Header) -> Self { self.0.unprotected = h; self }
    pub fn payload(mut self, p: Vec<u8>) -> Self { self.0.payload = Some(p); self }
    pub fn signature(mut self, s: Vec<u8>) -> Self { self.0.signature = s; self }
    pub fn build(self) -> CoseSign1 { self.0 }
}
pub trait AsCborValue: Sized { fn to_cbor_value(self) -> Result<Value, CoseError>; fn from_cbor_value(v: Value) -> Result<Self, CoseError>; }
impl AsCborValue for CoseSign1 {
    fn to_cbor_value(self) -> Result<Value, CoseError> {
        let mut p = vec![];
        self.protected.map().encode(&mut p);
        Ok(Value::Array(vec![Value::Bytes(p), self.unprotected.map(), self.payload.map_or(Value::Null, Value::Bytes), Value::Bytes(self.signature)]))
    }
    fn from_cbor_value(_: Value) -> Result<Self, CoseError> { Err(CoseError("stand-in: not supported".into())) }
}
