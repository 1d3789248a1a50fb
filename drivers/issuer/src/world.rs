//! A provider with arbitrary metadata, an inspectable store and a clock that can be moved forward.
use std::collections::HashMap;
use std::future::Future;
use std::pin::pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use anyhow::{anyhow, Result};
use base64ct::{Base64UrlUnpadded as B, Encoding};
use chrono::{DateTime, TimeDelta, Utc};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use vercre_did::{DidResolver, Document, MethodType, VerificationMethod};
use vercre_infosec::jose::jws::mac;
use vercre_infosec::{Algorithm, Decryptor, Encryptor, PublicKeyJwk, SecOps, Signer};
use vercre_issuer::provider::{Client, Dataset, Issuer, Metadata, Provider, Server, StateStore, Status, Subject};
use vercre_issuer::{Claim, ClaimDefinition};

pub const ISSUER: &str = "http://iss.example";
pub const ISSUER_KEY: &[u8] = b"issuer-key";
pub const ISSUER_DID: &str = "did:web:iss.example";

pub fn rnd(n: usize) -> usize {
    fastrand::usize(0..n)
}
/// true once in n
pub fn one_in(n: usize) -> bool {
    rnd(n) == 0
}
pub fn pick<T: Clone>(v: &[T]) -> T {
    v[rnd(v.len())].clone()
}

struct Noop;
impl Wake for Noop {
    fn wake(self: Arc<Self>) {}
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let w = Waker::from(Arc::new(Noop));
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}

pub type Claims = HashMap<String, Claim>;

#[derive(Clone, Debug)]
pub struct Data {
    pub config: String,
    pub claims: Map<String, Value>,
    pub pending: bool,
}

#[derive(Default, Debug)]
pub struct Inner {
    pub store: HashMap<String, Value>,
    pub expiry: HashMap<String, DateTime<Utc>>,
    pub data: HashMap<String, HashMap<String, Data>>,
    pub fail_put: bool,
    pub fail_purge: bool,
    pub status_calls: Vec<(String, String)>,
}

#[derive(Clone, Debug)]
pub struct World {
    pub inner: Arc<Mutex<Inner>>,
    pub issuer: Issuer,
    pub server: Server,
    pub clients: HashMap<String, Client>,
}

pub fn claims(depth: usize, max: usize) -> Claims {
    let names = ["a", "b", "c", "given_name"];
    let mut m = Claims::new();
    for _ in 0..rnd(max + 1) {
        let c = if depth > 0 && one_in(3) {
            let s = claims(depth - 1, 3);
            // an empty set does not survive serialization as one
            if s.is_empty() { Claim::default() } else { Claim::Set(s) }
        } else {
            Claim::Entry(ClaimDefinition { mandatory: [None, None, Some(true), Some(false)][rnd(4)], ..ClaimDefinition::default() })
        };
        m.insert(names[rnd(names.len())].to_string(), c);
    }
    m
}

/// a request for claims derived from the supported ones, with small deviations
pub fn derive(sup: &Claims) -> Claims {
    let mut out = Claims::new();
    for (k, v) in sup {
        if one_in(8) {
            continue;
        }
        out.insert(
            k.clone(),
            match v {
                Claim::Set(s) => {
                    let d = derive(s);
                    if d.is_empty() { Claim::default() } else { Claim::Set(d) }
                }
                Claim::Entry(_) => Claim::default(),
            },
        );
    }
    if one_in(10) {
        out.insert("zz".into(), Claim::default());
    }
    out
}

pub fn supported(req: &Claims, sup: &Claims) -> bool {
    req.iter().all(|(k, r)| match (r, sup.get(k)) {
        (_, None) => false,
        (Claim::Entry(_), Some(_)) => true,
        (Claim::Set(a), Some(Claim::Set(b))) => supported(a, b),
        (Claim::Set(_), Some(Claim::Entry(_))) => false,
    })
}
pub fn complete(req: &Claims, sup: &Claims) -> bool {
    sup.iter().all(|(k, s)| match (s, req.get(k)) {
        (Claim::Entry(d), r) => !d.mandatory.unwrap_or(false) || r.is_some(),
        (Claim::Set(b), Some(Claim::Set(a))) => complete(a, b),
        (Claim::Set(_), Some(Claim::Entry(_))) => false,
        (Claim::Set(b), None) => complete(&Claims::new(), b),
    })
}

fn cfg(i: usize) -> Value {
    let cl = claims(1, 4);
    let mut c = json!({"scope": pick(&["s0", "s1", "s2"])});
    if i < 3 {
        c["format"] = json!("jwt_vc_json");
        c["credential_definition"] = json!({"type": ["VerifiableCredential", format!("Type{i}")], "credentialSubject": cl});
        if one_in(4) {
            c["credential_definition"].as_object_mut().unwrap().remove("credentialSubject");
        }
    } else {
        c["format"] = json!("mso_mdoc");
        c["doctype"] = json!("org.iso.18013.5.1.mDL");
        c["claims"] = json!(cl);
    }
    match rnd(6) {
        0 => {}
        1 => c["proof_types_supported"] = json!({"ldp": {"proof_signing_alg_values_supported": ["EdDSA"]}}),
        _ => c["proof_types_supported"] = json!({"jwt": {"proof_signing_alg_values_supported": ["EdDSA"]}}),
    }
    if one_in(2) {
        c["display"] = json!([{"name": "N", "locale": "en", "description": "D"}, {"name": "M"}]);
    }
    c
}

fn subset(v: &[&str]) -> Vec<String> {
    v.iter().filter(|_| !one_in(8)).map(|s| s.to_string()).collect()
}

pub const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";
pub const AUTH: &str = "authorization_code";

impl World {
    pub fn random() -> Self {
        let mut configs = Map::new();
        for i in 0..4 {
            configs.insert(format!("cfg{i}"), cfg(i));
        }
        let mut iss = json!({"credential_issuer": ISSUER, "credential_endpoint": "x", "credential_configurations_supported": configs});
        match rnd(4) {
            0 => iss["authorization_servers"] = json!([]),
            1 => iss["authorization_servers"] = json!(["http://as1", "http://as2"]),
            _ => {}
        }
        let issuer: Issuer = serde_json::from_value(iss).expect("issuer");
        let mut srv = json!({"issuer": ISSUER, "authorization_endpoint": "/auth", "token_endpoint": "/token",
            "response_types_supported": if one_in(20) { json!([]) } else { json!(["code"]) },
            "pre-authorized_grant_anonymous_access_supported": one_in(2)});
        if !one_in(20) {
            srv["scopes_supported"] = json!(if one_in(12) { vec!["openid"] } else { vec!["openid", "credential"] });
        }
        if !one_in(20) {
            srv["grant_types_supported"] = json!(subset(&[AUTH, PRE]));
        }
        if !one_in(20) {
            srv["code_challenge_methods_supported"] = json!(if one_in(20) { vec![] } else { vec!["S256"] });
        }
        if one_in(3) {
            srv["require_pushed_authorization_requests"] = json!(one_in(2));
        }
        let server: Server = serde_json::from_value(srv).expect("server");
        let mut clients = HashMap::new();
        for i in 0..3 {
            let mut c = json!({"client_id": format!("client{i}"), "credential_offer_endpoint": "o://"});
            if !one_in(20) {
                c["scope"] = json!(pick(&["openid credential", "openid", "openid   credential", "credential openid", "openid credential "]));
                if one_in(12) {
                    c["scope"] = json!(pick(&["openid other", "other", "credential opened openid"]));
                }
            }
            if !one_in(20) {
                c["redirect_uris"] = json!([format!("http://cb{i}/"), "http://shared/"]);
            }
            if !one_in(20) {
                c["grant_types"] = json!(subset(&[AUTH, PRE]));
            }
            if !one_in(20) {
                c["response_types"] = json!(if one_in(20) { vec!["vp_token"] } else { vec!["code"] });
            }
            clients.insert(format!("client{i}"), serde_json::from_value(c).expect("client"));
        }
        let mut data = HashMap::new();
        for s in ["alice", "bob"] {
            let mut m = HashMap::new();
            for i in 0..4 {
                for j in 0..rnd(3) {
                    let mut cl = Map::new();
                    for n in ["a", "b", "c", "given_name", "extra"] {
                        if !one_in(4) {
                            cl.insert(n.into(), if i == 3 { json!({"e1": format!("{s}-{n}"), "e2": 4}) } else { json!(format!("{s}-{i}-{j}-{n}")) });
                        }
                    }
                    m.insert(format!("{s}-cfg{i}-{j}"), Data { config: format!("cfg{i}"), claims: cl, pending: one_in(6) });
                }
            }
            data.insert(s.to_string(), m);
        }
        Self { inner: Arc::new(Mutex::new(Inner { data, ..Inner::default() })), issuer, server, clients }
    }

    /// let `secs` seconds pass: every point in time the store holds is that much earlier
    pub fn advance(&self, secs: i64) {
        fn shift(v: &mut Value, secs: i64) {
            match v {
                Value::String(s) => {
                    if s.len() >= 20 {
                        if let Ok(t) = DateTime::parse_from_rfc3339(s) {
                            *s = (t.with_timezone(&Utc) - TimeDelta::seconds(secs)).to_rfc3339_opts(chrono::SecondsFormat::Nanos, true);
                        }
                    }
                }
                Value::Array(a) => a.iter_mut().for_each(|x| shift(x, secs)),
                Value::Object(o) => o.values_mut().for_each(|x| shift(x, secs)),
                _ => {}
            }
        }
        let mut i = self.inner.lock().unwrap();
        i.store.values_mut().for_each(|v| shift(v, secs));
        i.expiry.values_mut().for_each(|t| *t -= TimeDelta::seconds(secs));
    }
    pub fn authorize_ids(&self, subject: &str, config: &str) -> Option<Vec<String>> {
        let i = self.inner.lock().unwrap();
        let mut ids: Vec<String> = i.data.get(subject)?.iter().filter(|(_, d)| d.config == config).map(|(k, _)| k.clone()).collect();
        ids.sort();
        if ids.is_empty() { None } else { Some(ids) }
    }
    pub fn data(&self, subject: &str, id: &str) -> Option<Data> {
        self.inner.lock().unwrap().data.get(subject)?.get(id).cloned()
    }
}

impl Provider for World {}
impl Metadata for World {
    async fn client(&self, id: &str) -> Result<Client> {
        self.clients.get(id).cloned().ok_or_else(|| anyhow!("no client"))
    }
    async fn register(&self, c: &Client) -> Result<Client> {
        Ok(c.clone())
    }
    async fn issuer(&self, id: &str) -> Result<Issuer> {
        if id == ISSUER { Ok(self.issuer.clone()) } else { Err(anyhow!("no issuer")) }
    }
    async fn server(&self, id: &str, _: Option<&str>) -> Result<Server> {
        if id == ISSUER { Ok(self.server.clone()) } else { Err(anyhow!("no server")) }
    }
}
impl Subject for World {
    async fn authorize(&self, s: &str, c: &str) -> Result<Vec<String>> {
        self.authorize_ids(s, c).ok_or_else(|| anyhow!("not authorized"))
    }
    async fn dataset(&self, s: &str, id: &str) -> Result<Dataset> {
        let d = self.data(s, id).ok_or_else(|| anyhow!("no data"))?;
        Ok(Dataset { claims: d.claims, pending: d.pending })
    }
}
impl StateStore for World {
    async fn put(&self, key: &str, state: impl Serialize, dt: DateTime<Utc>) -> Result<()> {
        let mut i = self.inner.lock().unwrap();
        if i.fail_put {
            return Err(anyhow!("store is down"));
        }
        i.store.insert(key.into(), serde_json::to_value(&state)?);
        i.expiry.insert(key.into(), dt);
        Ok(())
    }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> {
        let v = self.inner.lock().unwrap().store.get(key).cloned().ok_or_else(|| anyhow!("no state"))?;
        // through text, as a real store would
        Ok(serde_json::from_str(&v.to_string())?)
    }
    async fn purge(&self, key: &str) -> Result<()> {
        let mut i = self.inner.lock().unwrap();
        if i.fail_purge {
            return Err(anyhow!("store is down"));
        }
        i.store.remove(key);
        i.expiry.remove(key);
        Ok(())
    }
}
pub fn holder_key(did: &str) -> Vec<u8> {
    format!("key of {did}").into_bytes()
}
pub fn jwk(key: &[u8]) -> PublicKeyJwk {
    PublicKeyJwk { x: B::encode_string(key), ..PublicKeyJwk::default() }
}
impl DidResolver for World {
    async fn resolve(&self, url: &str) -> Result<Document> {
        let did = url.to_string();
        let key = if did == ISSUER_DID {
            ISSUER_KEY.to_vec()
        } else if did.starts_with("did:key:") {
            holder_key(&did)
        } else {
            return Err(anyhow!("no such DID"));
        };
        Ok(Document { id: did.clone(), keys: vec![VerificationMethod { id: format!("{did}#k"), method_type: MethodType(jwk(&key)) }] })
    }
}
pub struct Key {
    pub key: Vec<u8>,
    pub kid: String,
}
impl SecOps for World {
    fn signer(&self, id: &str) -> Result<impl Signer> {
        if id != ISSUER {
            return Err(anyhow!("no key"));
        }
        Ok(Key { key: ISSUER_KEY.to_vec(), kid: format!("{ISSUER_DID}#k") })
    }
    fn encryptor(&self, _: &str) -> Result<impl Encryptor> {
        Ok(Key { key: vec![], kid: String::new() })
    }
    fn decryptor(&self, _: &str) -> Result<impl Decryptor> {
        Ok(Key { key: vec![], kid: String::new() })
    }
}
impl Signer for Key {
    async fn try_sign(&self, msg: &[u8]) -> Result<Vec<u8>> {
        Ok(mac(&self.key, msg))
    }
    async fn public_key(&self) -> Result<Vec<u8>> {
        Ok(self.key.clone())
    }
    fn algorithm(&self) -> Algorithm {
        Algorithm::EdDSA
    }
    fn verification_method(&self) -> String {
        self.kid.clone()
    }
}
impl Encryptor for Key {
    async fn encrypt(&self, _: &[u8], _: &[u8]) -> Result<Vec<u8>> {
        Err(anyhow!("unused"))
    }
    fn public_key(&self) -> Vec<u8> {
        vec![]
    }
}
impl Decryptor for Key {
    async fn decrypt(&self, _: &[u8], _: &[u8]) -> Result<Vec<u8>> {
        Err(anyhow!("unused"))
    }
}
impl Status for World {
    async fn status(&self, s: &str, id: &str) -> Result<Option<vercre_core::Quota<vercre_issuer::CredentialStatus>>> {
        self.inner.lock().unwrap().status_calls.push((s.into(), id.into()));
        if id.is_empty() { Err(anyhow!("no such credential")) } else { Ok(None) }
    }
}
