//! stand-in for vercre-infosec.  Signatures: sha256(public key || message), so that a verifier rejects any other key or message.
use std::fmt;
use std::future::Future;
pub use jose::jwa::Algorithm;
pub use jose::jwk::{Curve, KeyType, PublicKeyJwk};

pub trait SecOps: Send + Sync {
    fn signer(&self, identifier: &str) -> anyhow::Result<impl Signer>;
    fn encryptor(&self, identifier: &str) -> anyhow::Result<impl Encryptor>;
    fn decryptor(&self, identifier: &str) -> anyhow::Result<impl Decryptor>;
}
pub trait Signer: Send + Sync {
    fn sign(&self, msg: &[u8]) -> impl Future<Output = Vec<u8>> + Send { let v = self.try_sign(msg); async move { v.await.expect("should sign") } }
    fn try_sign(&self, msg: &[u8]) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn public_key(&self) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn algorithm(&self) -> Algorithm;
    fn verification_method(&self) -> String;
}
pub trait Encryptor: Send + Sync {
    fn encrypt(&self, plaintext: &[u8], recipient: &[u8]) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn public_key(&self) -> Vec<u8>;
}
pub trait Decryptor: Send + Sync {
    fn decrypt(&self, ciphertext: &[u8], sender: &[u8]) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
}
pub mod jose {
    pub mod jwa {
        use serde::{Deserialize, Serialize};
        #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
        pub enum Algorithm { #[default] EdDSA, ES256K }
        impl std::fmt::Display for Algorithm { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
    }
    pub mod jwk {
        use serde::{Deserialize, Serialize};
        #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
        pub enum KeyType { #[default] #[serde(rename = "OKP")] Okp, #[serde(rename = "EC")] Ec }
        #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
        pub enum Curve { #[default] Ed25519, #[serde(rename = "secp256k1")] Es256K }
        #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
        pub struct PublicKeyJwk { #[serde(skip_serializing_if = "Option::is_none")] pub kid: Option<String>, pub kty: KeyType, pub crv: Curve, pub x: String, #[serde(skip_serializing_if = "Option::is_none")] pub y: Option<String> }
    }
    pub mod jwt { pub use super::jws::Jwt; }
    pub mod jws {
        use super::{jwa::Algorithm, jwk::PublicKeyJwk};
        use anyhow::{anyhow, bail};
        use base64ct::{Base64UrlUnpadded as B, Encoding};
        use serde::{de::DeserializeOwned, Deserialize, Serialize};
        use sha2::{Digest, Sha256};
        use std::future::Future;
        #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
        pub enum Type {
            #[default] #[serde(rename = "vc+jwt")] Credential, #[serde(rename = "vp+jwt")] Presentation,
            #[serde(rename = "openid4vci-proof+jwt")] Proof, #[serde(rename = "oauth-authz-req+jwt")] Request,
        }
        impl std::fmt::Display for Type { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", serde_json::to_value(self).unwrap().as_str().unwrap()) } }
        #[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
        pub enum KeyType { #[serde(rename = "kid")] KeyId(String), #[serde(rename = "jwk")] Jwk(PublicKeyJwk) }
        #[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
        pub struct Header { pub typ: Type, pub alg: Algorithm, #[serde(flatten)] pub key: KeyType }
        #[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
        pub struct Jwt<T> { pub header: Header, pub claims: T }
        pub fn mac(key: &[u8], msg: &[u8]) -> Vec<u8> { let mut h = Sha256::new(); h.update(key); h.update(msg); h.finalize().to_vec() }
        pub async fn encode<T: Serialize + Send + Sync>(typ: Type, claims: &T, signer: impl crate::Signer) -> anyhow::Result<String> {
            let header = Header { typ, alg: signer.algorithm(), key: KeyType::KeyId(signer.verification_method()) };
            encode_with(&header, claims, &signer).await
        }
        pub async fn encode_with<T: Serialize + Send + Sync>(header: &Header, claims: &T, signer: &impl crate::Signer) -> anyhow::Result<String> {
            let p = format!("{}.{}", B::encode_string(&serde_json::to_vec(header)?), B::encode_string(&serde_json::to_vec(claims)?));
            let s = signer.try_sign(p.as_bytes()).await?;
            Ok(format!("{p}.{}", B::encode_string(&s)))
        }
        pub async fn decode<F, Fut, T>(token: &str, pk_cb: F) -> anyhow::Result<Jwt<T>>
        where T: DeserializeOwned + Send, F: Fn(String) -> Fut + Send + Sync, Fut: Future<Output = anyhow::Result<PublicKeyJwk>> + Send {
            let parts: Vec<_> = token.split('.').collect();
            if parts.len() != 3 { bail!("invalid Compact JWS format") }
            let header: Header = serde_json::from_slice(&B::decode_vec(parts[0]).map_err(|e| anyhow!("issue decoding header: {e}"))?)?;
            let claims = B::decode_vec(parts[1]).map_err(|e| anyhow!("issue decoding claims: {e}"))?;
            let sig = B::decode_vec(parts[2]).map_err(|e| anyhow!("issue decoding signature: {e}"))?;
            let KeyType::KeyId(kid) = header.key.clone() else { bail!("'kid' is not set") };
            let jwk = pk_cb(kid).await?;
            let key = B::decode_vec(&jwk.x).map_err(|e| anyhow!("issue decoding key: {e}"))?;
            if mac(&key, format!("{}.{}", parts[0], parts[1]).as_bytes()) != sig { bail!("signature error") }
            Ok(Jwt { header, claims: serde_json::from_slice(&claims)? })
        }
    }
}
pub mod cose {
    use super::{Curve, KeyType};
    use ciborium::Value;
    use serde::{de, Deserialize, Serialize, Serializer};
    pub mod cbor {
        use serde::{de::DeserializeOwned, Serialize};
        pub fn to_vec<T: Serialize>(v: &T) -> anyhow::Result<Vec<u8>> { let mut o = vec![]; ciborium::Value::serialized(v)?.encode(&mut o); Ok(o) }
        pub fn from_slice<T: DeserializeOwned>(_: &[u8]) -> anyhow::Result<T> { Err(anyhow::anyhow!("stand-in: not supported")) }
    }
    #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
    pub struct CoseKey { pub kty: KeyType, pub crv: Curve, pub x: Vec<u8>, pub y: Option<Vec<u8>> }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Tag24<T>(pub T);
    impl<T: Serialize> Tag24<T> { pub fn to_vec(&self) -> anyhow::Result<Vec<u8>> { cbor::to_vec(self) } }
    impl<T> std::ops::Deref for Tag24<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
    impl<T: Serialize> Serialize for Tag24<T> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let b = cbor::to_vec(&self.0).map_err(serde::ser::Error::custom)?; Value::Tag(24, Box::new(Value::Bytes(b))).serialize(s) }
    }
    impl<'de, T> Deserialize<'de> for Tag24<T> { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { Err(de::Error::custom("stand-in: not supported")) } }
}
impl fmt::Display for Curve { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
