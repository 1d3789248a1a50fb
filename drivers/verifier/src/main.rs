//! Replay driver for vercre-verifier: requests, their retrieval and responses (V01, V02), against an independent model.
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use anyhow::{anyhow, Result};
use base64ct::{Base64UrlUnpadded as B, Encoding};
use chrono::{DateTime, TimeDelta, Utc};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use vercre_did::{DidResolver, Document, MethodType, VerificationMethod};
use vercre_infosec::jose::jws::mac;
use vercre_infosec::{Algorithm, Decryptor, Encryptor, PublicKeyJwk, SecOps, Signer};
use vercre_openid::verifier::RequestObjectType;
use vercre_verifier::provider::{Metadata, Provider, StateStore, Verifier, Wallet};
use vercre_verifier::*;

struct Noop;
impl Wake for Noop {
    fn wake(self: Arc<Self>) {}
}
fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let w = Waker::from(Arc::new(Noop));
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}
struct Report {
    prop: String,
    fails: usize,
    n: usize,
}
impl Report {
    fn check(&mut self, prop: &str, good: bool, what: impl FnOnce() -> String) -> bool {
        if prop == self.prop {
            self.n += 1;
            if !good {
                self.fails += 1;
                if self.fails <= 5 {
                    println!("FAIL {}", what());
                }
            }
        }
        good
    }
}
fn rnd(n: usize) -> usize {
    fastrand::usize(..n)
}
fn one_in(n: usize) -> bool {
    rnd(n) == 0
}
fn pick(xs: &[&str]) -> String {
    xs[rnd(xs.len())].to_string()
}
/// something close to a text, but not it
fn near(s: &str) -> String {
    match rnd(6) {
        0 => String::new(),
        1 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
        2 => format!("{s}x"),
        3 => s.chars().skip(1).collect(),
        4 => format!("{s} "),
        _ => if s.to_uppercase() == s { s.to_lowercase() + "y" } else { s.to_uppercase() },
    }
}
fn call<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

// ------------------------------------------------------------------ provider
#[derive(Default)]
struct Inner {
    store: BTreeMap<String, Value>,
    expiry: BTreeMap<String, DateTime<Utc>>,
    fail_put: bool,
    fail_purge: bool,
}
#[derive(Clone, Default)]
struct World(Arc<Mutex<Inner>>);
impl Provider for World {}
const CLIENTS: [&str; 2] = ["http://v.example", "http://w.example"];
impl Metadata for World {
    async fn verifier(&self, id: &str) -> Result<Verifier> {
        if !CLIENTS.contains(&id) {
            return Err(anyhow!("no such client"));
        }
        Ok(serde_json::from_value(json!({"client_id": id, "client_name": format!("name of {id}")}))?)
    }
    async fn wallet(&self, _: &str) -> Result<Wallet> {
        Err(anyhow!("unused"))
    }
    async fn register(&self, v: &Verifier) -> Result<Verifier> {
        Ok(v.clone())
    }
}
impl StateStore for World {
    async fn put(&self, key: &str, state: impl Serialize, dt: DateTime<Utc>) -> Result<()> {
        let mut i = self.0.lock().unwrap();
        if i.fail_put {
            return Err(anyhow!("store is down"));
        }
        i.store.insert(key.into(), serde_json::to_value(&state)?);
        i.expiry.insert(key.into(), dt);
        Ok(())
    }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> {
        let v = self.0.lock().unwrap().store.get(key).cloned().ok_or_else(|| anyhow!("no state"))?;
        Ok(serde_json::from_str(&v.to_string())?)
    }
    async fn purge(&self, key: &str) -> Result<()> {
        let mut i = self.0.lock().unwrap();
        if i.fail_purge {
            return Err(anyhow!("store is down"));
        }
        i.store.remove(key);
        i.expiry.remove(key);
        Ok(())
    }
}
fn key_of(did: &str) -> Vec<u8> {
    format!("key of {did}").into_bytes()
}
impl DidResolver for World {
    async fn resolve(&self, url: &str) -> Result<Document> {
        if !url.starts_with("did:key:") {
            return Err(anyhow!("no such DID"));
        }
        let jwk = PublicKeyJwk { x: B::encode_string(&key_of(url)), ..PublicKeyJwk::default() };
        Ok(Document { id: url.into(), keys: vec![VerificationMethod { id: format!("{url}#k"), method_type: MethodType(jwk) }] })
    }
}
struct Key(String);
impl SecOps for World {
    fn signer(&self, id: &str) -> Result<impl Signer> {
        if id == CLIENTS[0] { Ok(Key("did:key:v".into())) } else if id == CLIENTS[1] { Ok(Key("did:key:w".into())) } else { Err(anyhow!("no key")) }
    }
    fn encryptor(&self, _: &str) -> Result<impl Encryptor> {
        Ok(Key(String::new()))
    }
    fn decryptor(&self, _: &str) -> Result<impl Decryptor> {
        Ok(Key(String::new()))
    }
}
impl Signer for Key {
    async fn try_sign(&self, msg: &[u8]) -> Result<Vec<u8>> {
        Ok(mac(&key_of(&self.0), msg))
    }
    async fn public_key(&self) -> Result<Vec<u8>> {
        Ok(key_of(&self.0))
    }
    fn algorithm(&self) -> Algorithm {
        Algorithm::EdDSA
    }
    fn verification_method(&self) -> String {
        format!("{}#k", self.0)
    }
}
impl Encryptor for Key {
    async fn encrypt(&self, _: &[u8], _: &[u8]) -> Result<Vec<u8>> {
        Err(anyhow!("unused"))
    }
    fn public_key(&self) -> Vec<u8> {
        vec![]
    }
}
impl Decryptor for Key {
    async fn decrypt(&self, _: &[u8], _: &[u8]) -> Result<Vec<u8>> {
        Err(anyhow!("unused"))
    }
}

// ------------------------------------------------------------------ tokens
fn token(typ: &str, did: &str, good: bool, claims: &Value) -> String {
    let h = json!({"typ": typ, "alg": "EdDSA", "kid": format!("{did}#k")});
    let p = format!("{}.{}", B::encode_string(h.to_string().as_bytes()), B::encode_string(claims.to_string().as_bytes()));
    let key = if good { key_of(did) } else { key_of("did:key:mallory") };
    format!("{p}.{}", B::encode_string(&mac(&key, p.as_bytes())))
}
/// the header and claims of a validly signed token
fn open(t: &str) -> Option<(Value, Value)> {
    let ps: Vec<_> = t.split('.').collect();
    if ps.len() != 3 {
        return None;
    }
    let j = |i: usize| serde_json::from_slice::<Value>(&B::decode_vec(ps[i]).ok()?).ok();
    let (h, c) = (j(0)?, j(1)?);
    let (did, _) = h["kid"].as_str()?.split_once("#k")?;
    (did.starts_with("did:key:") && B::decode_vec(ps[2]).ok()? == mac(&key_of(did), format!("{}.{}", ps[0], ps[1]).as_bytes())).then_some((h, c))
}

// ------------------------------------------------------------------ requests
const ROLES: [&str; 3] = ["clerk", "chief", "cook"];
fn descriptor(id: &str) -> Value {
    let mut d = json!({"id": id, "constraints": {}});
    if !one_in(6) {
        let fields: Vec<Value> = (0..rnd(3))
            .map(|_| {
                let mut f = json!({"path": [pick(&["$.credentialSubject.role", "$.credentialSubject.team", "$.credentialSubject.rank"])]});
                if one_in(3) {
                    f["path"].as_array_mut().unwrap().push(json!("$.credentialSubject.rank"));
                }
                if !one_in(4) {
                    f["filter"] = json!({"type": "string", "const": pick(&ROLES)});
                }
                if one_in(3) {
                    f["optional"] = json!(one_in(2));
                }
                f
            })
            .collect();
        d["constraints"]["fields"] = json!(fields);
    }
    if one_in(4) {
        d["constraints"]["limit_disclosure"] = json!(pick(&["required", "preferred"]));
    }
    if one_in(3) {
        d["format"] = json!({"jwt_vc_json": {}, "other": {}});
        if one_in(4) {
            d["format"] = json!({"other": {"alg": ["EdDSA"]}});
        }
    }
    if one_in(3) {
        d["name"] = json!("a name");
    }
    d
}
fn lookup<'a>(doc: &'a Value, path: &str) -> Vec<&'a Value> {
    // $.a.b[0][*]
    let mut cur = vec![doc];
    for step in path.trim_start_matches('$').replace('[', ".[").split('.').filter(|s| !s.is_empty()) {
        cur = if step == "[*]" {
            cur.into_iter().flat_map(|v| match v { Value::Array(a) => a.iter().collect::<Vec<_>>(), Value::Object(o) => o.values().collect(), _ => vec![] }).collect()
        } else if let Some(i) = step.strip_prefix('[') {
            let i: usize = i.trim_end_matches(']').parse().unwrap();
            cur.into_iter().filter_map(|v| v.as_array().and_then(|a| a.get(i))).collect()
        } else {
            cur.into_iter().filter_map(|v| v.as_object().and_then(|o| o.get(step))).collect()
        };
    }
    cur
}
fn satisfied(d: &Value, vc: &Value) -> bool {
    let Some(fields) = d["constraints"]["fields"].as_array() else { return true };
    fields.iter().all(|f| {
        let vals: Vec<&Value> = f["path"].as_array().unwrap().iter().filter_map(|p| lookup(vc, p.as_str().unwrap()).first().copied()).collect();
        vals.iter().any(|v| f.get("filter").is_none() || f["filter"]["const"] == **v) || (vals.is_empty() && f["optional"] == json!(true))
    })
}

fn create(r: &mut Report, w: &World) -> Option<(String, Value)> {
    let n = if one_in(12) { 0 } else { 1 + rnd(3) };
    let ds: Vec<Value> = (0..n).map(|i| descriptor(&["ab", "a", "abc"][i])).collect();
    let cid = if one_in(12) { pick(&["", "http://x.example", "http://v.example/"]) } else { pick(&CLIENTS) };
    let cross = one_in(2);
    let purpose = pick(&["", "to check", "é"]);
    let mut q: CreateRequestRequest = serde_json::from_value(json!({"purpose": purpose, "input_descriptors": ds, "device_flow": if cross { "CrossDevice" } else { "SameDevice" }})).unwrap();
    q.client_id = cid.clone();
    let before = w.0.lock().unwrap().store.clone();
    w.0.lock().unwrap().fail_put = one_in(20);
    let down = w.0.lock().unwrap().fail_put;
    let t0 = Utc::now();
    let res = call(|| block_on(create_request(w.clone(), &q)));
    let t1 = Utc::now();
    w.0.lock().unwrap().fail_put = false;
    let after = w.0.lock().unwrap().store.clone();
    let say = |what: &str| format!("{what}: create_request {} by {cid:?}", json!(q));
    let Some(res) = res else {
        r.check("V01", false, || say("panic"));
        return None;
    };
    let fit = n > 0 && CLIENTS.contains(&cid.as_str()) && !down;
    r.check("V01", res.is_ok() == fit, || say(&format!("expected {fit}, got {:?}", res.as_ref().err())));
    let Ok(res) = res else {
        r.check("V01", before == after, || say("a refused request is stored"));
        return None;
    };
    let new: Vec<_> = after.keys().filter(|k| !before.contains_key(*k)).cloned().collect();
    let kept = before.iter().all(|(k, v)| after.get(k) == Some(v));
    if !r.check("V01", new.len() == 1 && kept, || say(&format!("stored under {new:?}; others kept: {kept}"))) && new.len() != 1 {
        return None;
    }
    let (key, st) = (new[0].clone(), after[&new[0]].clone());
    let o = &st["request_object"];
    let exp: Option<DateTime<Utc>> = serde_json::from_value(st["expires_at"].clone()).ok();
    let near = |t: DateTime<Utc>| t >= t0 + TimeDelta::seconds(300) && t <= t1 + TimeDelta::seconds(300);
    r.check("V01", exp.is_some_and(near), || say(&format!("expires {exp:?}")));
    let until = w.0.lock().unwrap().expiry[&key];
    r.check("V01", exp.is_some_and(|e| until >= e), || say(&format!("kept until {until}")));
    let nonce = o["nonce"].as_str().unwrap_or_default().to_string();
    r.check("V01", nonce.len() >= 16 && nonce != key && o["state"] == json!(key), || say(&format!("nonce {nonce}, state {}, key {key}", o["state"])));
    let seen: Vec<Value> = before.values().map(|s| s["request_object"]["nonce"].clone()).collect();
    r.check("V01", !seen.contains(&json!(nonce)), || say("a nonce used before"));
    let d = &o["presentation_definition"];
    r.check("V01", d["input_descriptors"] == json!(q.input_descriptors) && d["purpose"] == json!(purpose), || say(&format!("definition {d}")));
    let ids: Vec<Value> = before.values().map(|s| s["request_object"]["presentation_definition"]["id"].clone()).collect();
    r.check("V01", d["id"].as_str().is_some_and(|i| !i.is_empty()) && !ids.contains(&d["id"]), || say(&format!("definition id {}", d["id"])));
    r.check("V01", o["client_metadata"] == json!(block_on(w.verifier(&cid)).unwrap()) && o["response_type"] == "vp_token", || say(&format!("metadata {}", o["client_metadata"])));
    if cross {
        r.check("V01", o["response_mode"] == "direct_post" && o["client_id"] == json!(format!("{cid}/post")) && o["response_uri"] == json!(format!("{cid}/post")), || say(&format!("request {o}")));
        r.check("V01", res.request_object.is_none() && res.request_uri == Some(format!("{cid}/request/{key}")), || say(&format!("answer {}", json!(res))));
    } else {
        r.check("V01", o["client_id"] == json!(format!("{cid}/callback")) && o.get("response_uri").is_none_or(Value::is_null), || say(&format!("request {o}")));
        r.check("V01", res.request_uri.is_none() && json!(res.request_object) == *o, || say(&format!("answer {}", json!(res))));
    }
    Some((key, st))
}
fn fetch(r: &mut Report, w: &World, keys: &[String]) {
    let id = if keys.is_empty() || one_in(8) { pick(&["", "nope"]) } else { keys[rnd(keys.len())].clone() };
    let cid = if one_in(8) { pick(&["", "http://x.example", "http://v.example/post"]) } else { pick(&CLIENTS) };
    let before = w.0.lock().unwrap().store.clone();
    let res = call(|| block_on(request_object(w.clone(), &RequestObjectRequest { client_id: cid.clone(), id: id.clone() })));
    let after = w.0.lock().unwrap().store.clone();
    let say = |what: &str| format!("{what}: request_object {id:?} for {cid:?}, stored {:?}", before.get(&id));
    let own = before.get(&id).is_some_and(|s| s["request_object"]["client_id"] == json!(format!("{cid}/post")));
    let can = CLIENTS.contains(&cid.as_str());
    let Some(res) = res else {
        r.check("V01", false, || say("panic"));
        return;
    };
    r.check("V01", before == after, || say("the store changed"));
    r.check("V01", res.is_ok() == (own && can), || say(&format!("expected {own} and {can}, got {:?}", res.as_ref().err())));
    if let Ok(x) = res {
        let RequestObjectType::Jwt(t) = x.request_object else {
            r.check("V01", false, || say("not signed"));
            return;
        };
        let did = if cid == CLIENTS[0] { "did:key:v#k" } else { "did:key:w#k" };
        let good = open(&t).is_some_and(|(h, c)| h["kid"] == did && before.get(&id).is_some_and(|s| c == s["request_object"]));
        r.check("V01", good, || say(&format!("served {t}")));
    }
}

// ------------------------------------------------------------------ responses
fn credential() -> Value {
    // claims of a credential token
    let mut s = json!({"id": "did:key:h"});
    for k in ["role", "team", "rank"] {
        if !one_in(4) {
            s[k] = json!(pick(&ROLES));
        }
    }
    let mut vc = json!({"@context": ["https://www.w3.org/2018/credentials/v1"], "type": ["VerifiableCredential", "X"], "issuer": "did:key:i", "credentialSubject": s});
    if one_in(2) {
        vc["id"] = json!(pick(&ROLES));
    }
    if one_in(2) {
        let d = if one_in(4) { -600 } else { 600 };
        vc["validUntil"] = json!(Utc::now() + TimeDelta::seconds(d));
    }
    json!({"sub": "did:key:h", "iss": "did:key:i", "iat": 1, "jti": "j", "vc": vc})
}
fn cred_token(want: Option<&Value>) -> Value {
    for _ in 0..40 {
        let c = credential();
        if want.is_some_and(|d| !satisfied(d, &c["vc"])) && !one_in(20) {
            continue;
        }
        return if one_in(40) { c["vc"].clone() } else { json!(token("vc+jwt", "did:key:i", !one_in(20), &c)) };
    }
    json!(token("vc+jwt", "did:key:i", true, &credential()))
}
fn presentation(nonce: &str, aud: &str, creds: Vec<Value>) -> Value {
    let mut vp = json!({"@context": ["https://www.w3.org/2018/credentials/v1"], "type": ["VerifiablePresentation", "Y"], "verifiableCredential": creds});
    let other = if one_in(2) { "stale".to_string() } else { near(nonce) };
    let nonce = if one_in(25) { &other } else { nonce };
    if one_in(3) {
        match rnd(15) {
            0 => {}
            1 => vp["proof"] = json!([{"challenge": nonce}]),
            2 => vp["proof"] = json!({"domain": nonce}),
            _ => vp["proof"] = json!({"challenge": nonce}),
        }
        return vp;
    }
    let other = if one_in(2) { "http://other.example/post".to_string() } else { near(aud) };
    let aud = if one_in(25) { &other } else { aud };
    let c = json!({"iss": "did:key:h", "jti": "j", "aud": aud, "nonce": nonce, "nbf": 1, "iat": 2, "exp": 3, "vp": vp});
    json!(token("vp+jwt", "did:key:h", !one_in(25), &c))
}
/// the presentation, if it verifies for this nonce and audience
fn good_vp(v: &Value, nonce: &Value, aud: &Value) -> Option<Value> {
    match v {
        Value::String(t) => {
            let (_, c) = open(t)?;
            (c["nonce"] == *nonce && c["aud"] == *aud).then(|| c["vp"].clone())
        }
        _ => {
            let p = v.get("proof")?.as_object()?;
            (p.get("challenge").cloned().unwrap_or(json!("")) == *nonce).then(|| v.clone())
        }
    }
}
fn good_path(p: &str) -> bool {
    p != "bad["
}
fn answers(st: &Value, q: &Value, now: DateTime<Utc>) -> bool {
    let exp: DateTime<Utc> = serde_json::from_value(st["expires_at"].clone()).unwrap();
    let o = &st["request_object"];
    let Some(toks) = q["vp_token"].as_array() else { return false };
    let vps: Option<Vec<Value>> = toks.iter().map(|t| good_vp(t, &o["nonce"], &o["client_id"])).collect();
    let Some(vps) = vps else { return false };
    let d = &o["presentation_definition"];
    let subm = &q["presentation_submission"];
    if exp < now || subm.is_null() || subm["definition_id"] != d["id"] {
        return false;
    }
    let doc = if vps.len() == 1 { vps[0].clone() } else { json!(vps) };
    d["input_descriptors"].as_array().unwrap().iter().all(|x| {
        let Some(m) = subm["descriptor_map"].as_array().unwrap().iter().find(|m| m["id"] == x["id"]) else { return false };
        let n = &m["path_nested"];
        let (p, f) = (n["path"].as_str().unwrap(), n["format"].as_str().unwrap());
        if x.get("format").is_some_and(|fs| fs.get(f).is_none()) || !good_path(p) {
            return false;
        }
        let nodes = lookup(&doc, p);
        let [Value::String(t)] = nodes[..] else { return false };
        let Some((_, c)) = open(t) else { return false };
        let Some(vc) = c.get("vc") else { return false };
        let until: Option<DateTime<Utc>> = vc.get("validUntil").and_then(|u| serde_json::from_value(u.clone()).ok());
        satisfied(x, vc) && until.is_none_or(|u| u >= now)
    })
}
fn respond(r: &mut Report, w: &World, key: &str, st: &Value) {
    let o = &st["request_object"];
    let (nonce, aud) = (o["nonce"].as_str().unwrap_or(""), o["client_id"].as_str().unwrap_or(""));
    let ds = o["presentation_definition"]["input_descriptors"].as_array().cloned().unwrap_or_default();
    let nvp = if one_in(15) { 0 } else { 1 + rnd(2) };
    let mut held: Vec<Vec<Value>> = vec![vec![]; nvp];
    let mut map = vec![];
    for d in &ds {
        if nvp == 0 {
            continue;
        }
        let i = rnd(nvp);
        if one_in(4) {
            held[i].push(cred_token(None));
        }
        held[i].push(cred_token(Some(d)));
        let j = held[i].len() - 1;
        let at = if nvp == 1 { format!("$.verifiableCredential[{j}]") } else { format!("$[{i}].verifiableCredential[{j}]") };
        let at = match rnd(40) { 0 => "$.verifiableCredential[*]".into(), 1 => "bad[".into(), 2 => "$.type".into(), 3 => "$[*].verifiableCredential[0]".into(), 4 => "$.verifiableCredential[9]".into(), 5 => "$.verifiableCredential[0]".into(), _ => at };
        let fmt = if one_in(12) { "jwt_vc" } else if d.get("format").is_some_and(|f| f.get("jwt_vc_json").is_none()) { "other" } else { "jwt_vc_json" };
        let e = json!({"id": d["id"], "format": (["jwt_vc_json", "jwt_vc"][rnd(2)]), "path": "$", "path_nested": {"format": fmt, "path": at}});
        if one_in(6) {
            map.push(json!({"id": (if one_in(2) { "zz".to_string() } else { near(d["id"].as_str().unwrap()) }), "format": "jwt_vc_json", "path": "$", "path_nested": {"format": "jwt_vc_json", "path": "$.verifiableCredential[0]"}}));
        }
        if !one_in(25) {
            map.push(e);
        }
    }
    if one_in(4) {
        map.reverse();
    }
    let vps: Vec<Value> = held.into_iter().map(|h| presentation(nonce, aud, h)).collect();
    let did = if one_in(40) { json!("other") } else if one_in(30) { json!(near(o["presentation_definition"]["id"].as_str().unwrap_or(""))) } else { o["presentation_definition"]["id"].clone() };
    let mut q = json!({"vp_token": vps, "presentation_submission": {"id": "s", "definition_id": did, "descriptor_map": map}, "state": key});
    match rnd(40) {
        0 => { q.as_object_mut().unwrap().remove("vp_token"); }
        1 => { q.as_object_mut().unwrap().remove("presentation_submission"); }
        2 => { q.as_object_mut().unwrap().remove("state"); }
        3 => q["state"] = json!("nope"),
        _ => {}
    }
    // the request may be old
    if one_in(10) {
        let mut i = w.0.lock().unwrap();
        let e = Utc::now() - TimeDelta::seconds(5 + rnd(900) as i64);
        if let Some(s) = i.store.get_mut(key) {
            s["expires_at"] = json!(e);
        }
    }
    w.0.lock().unwrap().fail_purge = one_in(25);
    let down = w.0.lock().unwrap().fail_purge;
    send(r, w, &q, down);
    w.0.lock().unwrap().fail_purge = false;
    if one_in(3) {
        send(r, w, &q, false); // again
    }
}
fn send(r: &mut Report, w: &World, q: &Value, down: bool) {
    let Ok(req) = serde_json::from_value::<ResponseRequest>(q.clone()) else { return };
    let before = w.0.lock().unwrap().store.clone();
    let st = q["state"].as_str().and_then(|k| before.get(k)).cloned();
    let want = st.as_ref().is_some_and(|s| answers(s, q, Utc::now()));
    let say = |what: String| format!("{what}: response {q} to {:?}; tokens {:?}", st, q["vp_token"].as_array().map(|ts| ts.iter().map(|t| t.as_str().and_then(open)).collect::<Vec<_>>()));
    let Some(res) = call(|| block_on(response(w.clone(), &req))) else {
        r.check("V02", false, || say("panic".into()));
        return;
    };
    let after = w.0.lock().unwrap().store.clone();
    r.check("V02", res.is_ok() == (want && !down), || say(format!("expected {want}, got {:?}", res.as_ref().err())));
    let mut left = before.clone();
    if res.is_ok() {
        left.remove(q["state"].as_str().unwrap_or(""));
    }
    r.check("V02", after == left, || say(format!("the store holds {:?} instead of {:?}", after.keys().collect::<Vec<_>>(), left.keys().collect::<BTreeSet<_>>())));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    fastrand::seed(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1));
    let scale: usize = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Report { prop: a[1].clone(), fails: 0, n: 0 };
    for _ in 0..600 * scale {
        let w = World::default();
        let mut keys = vec![];
        for _ in 0..4 {
            if let Some((k, _)) = create(&mut r, &w) {
                keys.push(k);
            }
            fetch(&mut r, &w, &keys);
        }
        for k in &keys {
            let st = w.0.lock().unwrap().store.get(k).cloned();
            if let Some(st) = st {
                for _ in 0..3 {
                    respond(&mut r, &w, k, &st);
                }
            }
        }
    }
    println!("STAT cases {}", r.n);
    if r.fails > 0 {
        std::process::exit(3);
    }
}
