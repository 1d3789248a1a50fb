//! Replay driver for vercre-holder: issuance (H01, H02, H03) and presentation (H04), against an independent model.
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::pin;
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use anyhow::{anyhow, Result};
use base64ct::{Base64UrlUnpadded as B, Encoding};
use chrono::{DateTime, Utc};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use vercre_core::{pkce, urlencode, Kind};
use vercre_did::{DidResolver, Document, MethodType, VerificationMethod};
use vercre_dif_exch::Constraints;
use vercre_holder::credential::{Credential, Logo};
use vercre_holder::issuance::{self, *};
use vercre_holder::presentation::{self, Presentation};
use vercre_holder::provider::{CredentialStorer, HolderProvider, Issuer as IssuerApi, StateStore, Verifier as VerifierApi};
use vercre_infosec::jose::jws::mac;
use vercre_infosec::{Algorithm, PublicKeyJwk, Signer};
use vercre_openid::issuer::*;
use vercre_openid::verifier::{RequestObject as Asked, RequestObjectResponse, RequestObjectType, ResponseRequest, ResponseResponse};

struct Noop;
impl Wake for Noop {
    fn wake(self: Arc<Self>) {}
}
fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let w = Waker::from(Arc::new(Noop));
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}
struct Report {
    prop: String,
    fails: usize,
    n: usize,
}
impl Report {
    fn check(&mut self, prop: &str, good: bool, what: impl FnOnce() -> String) -> bool {
        if prop == self.prop {
            self.n += 1;
            if !good {
                self.fails += 1;
                if self.fails <= 5 {
                    println!("FAIL {}", what());
                }
            }
        }
        good
    }
}
fn rnd(n: usize) -> usize {
    fastrand::usize(..n)
}
fn one_in(n: usize) -> bool {
    rnd(n) == 0
}
fn pick(xs: &[&str]) -> String {
    xs[rnd(xs.len())].to_string()
}
/// something close to a text, but not it
fn near(s: &str) -> String {
    match rnd(6) {
        0 => String::new(),
        1 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
        2 => format!("{s}x"),
        3 => s.chars().skip(1).collect(),
        4 => format!("{s} "),
        _ => if s.to_uppercase() == s { s.to_lowercase() + "y" } else { s.to_uppercase() },
    }
}
fn call<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}


// ------------------------------------------------------------------ provider
#[derive(Clone, Debug)]
enum Call {
    Authorization(AuthorizationRequest, Option<AuthorizationResponse>),
    Token(TokenRequest, Option<TokenResponse>),
    Credential(CredentialRequest, Option<CredentialResponse>),
    Deferred(DeferredCredentialRequest, Option<CredentialResponse>),
    Notification(NotificationRequest, bool),
    Save(Credential, bool),
    Find(Option<Constraints>),
    Fetch(String),
    Present(Option<String>, ResponseRequest),
}
use Call as C;
#[derive(Default)]
struct Inner {
    store: BTreeMap<String, Value>,
    expiry: BTreeMap<String, DateTime<Utc>>,
    fail: bool,
    issuer: Issuer,
    server: Server,
    no_server: bool,
    log: Vec<Call>,
    wallet: Vec<Credential>,
    asked: Option<RequestObjectType>,
    n: usize,
}
#[derive(Clone, Default)]
struct World(Arc<Mutex<Inner>>);
impl HolderProvider for World {}
const ISSUER: &str = "http://i.example";
impl World {
    fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T {
        f(&mut self.0.lock().unwrap())
    }
    fn next(&self) -> usize {
        self.with(|i| {
            i.n += 1;
            i.n
        })
    }
    fn flow(&self, id: &str) -> Option<Issuance> {
        self.with(|i| i.store.get(id).cloned()).and_then(|v| serde_json::from_str(&v.to_string()).ok())
    }
    fn response(&self) -> CredentialResponse {
        let n = self.next();
        let response = match rnd(6) {
            0 => CredentialResponseType::Credentials((0..rnd(4)).map(|_| self.cred()).collect()),
            1 => CredentialResponseType::TransactionId(pick(&["t1", "t2", "t3", "t4"])),
            _ => CredentialResponseType::Credential(self.cred()),
        };
        CredentialResponse {
            response,
            c_nonce: (!one_in(4)).then(|| format!("nonce{n}")),
            c_nonce_expires_in: (!one_in(4)).then_some(n as i64),
            notification_id: one_in(2).then(|| "note".into()),
        }
    }
    fn cred(&self) -> Kind<vercre_w3c_vc::model::VerifiableCredential> {
        let mut vc = json!({"@context": ["https://www.w3.org/2018/credentials/v1"], "type": ["VerifiableCredential", "X"],
            "issuer": "did:key:i", "credentialSubject": {"id": "did:key:h", "role": pick(&["clerk", "chief"])}});
        if !one_in(4) {
            vc["id"] = json!(format!("vc{}", self.next()));
        }
        if one_in(3) {
            vc["issuer"] = json!({"id": "did:key:j", "name": "J"});
        }
        if one_in(60) {
            return Kind::Object(serde_json::from_value(vc).unwrap());
        }
        let iat = if one_in(60) { i64::MAX } else { rnd(2_000_000_000) as i64 };
        let c = json!({"sub": "did:key:h", "iss": "did:key:i", "iat": iat, "jti": "j", "vc": vc});
        Kind::String(token("vc+jwt", "did:key:i", !one_in(40), &c))
    }
}
impl IssuerApi for World {
    async fn metadata(&self, req: MetadataRequest) -> Result<MetadataResponse> {
        if req.credential_issuer != ISSUER {
            return Err(anyhow!("no such issuer"));
        }
        Ok(MetadataResponse { credential_issuer: self.with(|i| i.issuer.clone()) })
    }
    async fn oauth_server(&self, req: OAuthServerRequest) -> Result<OAuthServerResponse> {
        if req.credential_issuer != ISSUER || self.with(|i| i.no_server) {
            return Err(anyhow!("no such issuer"));
        }
        Ok(OAuthServerResponse { authorization_server: self.with(|i| i.server.clone()) })
    }
    async fn authorization(&self, req: AuthorizationRequest) -> Result<AuthorizationResponse> {
        let n = self.next();
        let a = (!one_in(12)).then(|| AuthorizationResponse { code: format!("code{n}"), state: Some(format!("s{n}")), redirect_uri: "r".into() });
        self.with(|i| i.log.push(C::Authorization(req, a.clone())));
        a.ok_or_else(|| anyhow!("denied"))
    }
    async fn token(&self, req: TokenRequest) -> Result<TokenResponse> {
        let n = self.next();
        let all: Vec<String> = self.with(|i| i.issuer.credential_configurations_supported.keys().cloned().collect());
        let mut details = vec![];
        for _ in 0..rnd(4) {
            let k = if one_in(25) { "unknown".to_string() } else { all[rnd(all.len())].clone() };
            let mut d = AuthorizedDetail::default();
            d.authorization_detail.credential = CredentialAuthorization::ConfigurationId { credential_configuration_id: k.clone(), claims: None };
            if one_in(5) {
                let mut f = self.with(|i| i.issuer.credential_configurations_supported.get(&k).map(|c| c.format.clone())).unwrap_or_default();
                if one_in(10) {
                    f = Format::VcSdJwt(ProfileSdJwt { vct: "unheard of".into(), claims: None });
                }
                d.authorization_detail.credential = CredentialAuthorization::Format(f);
            }
            d.credential_identifiers = (0..rnd(3)).map(|_| pick(&["c1", "c2", "c3", "c11"])).collect();
            details.push(d);
        }
        let t = TokenResponse {
            access_token: format!("token{n}"),
            c_nonce: (!one_in(6)).then(|| format!("nonce{n}")),
            c_nonce_expires_in: Some(n as i64),
            authorization_details: (!one_in(5)).then_some(details),
            ..TokenResponse::default()
        };
        let a = (!one_in(12)).then_some(t);
        self.with(|i| i.log.push(C::Token(req, a.clone())));
        a.ok_or_else(|| anyhow!("denied"))
    }
    async fn credential(&self, req: CredentialRequest) -> Result<CredentialResponse> {
        let a = (!one_in(25)).then(|| self.response());
        self.with(|i| i.log.push(C::Credential(req, a.clone())));
        a.ok_or_else(|| anyhow!("denied"))
    }
    async fn deferred(&self, req: DeferredCredentialRequest) -> Result<DeferredCredentialResponse> {
        let a = (!one_in(12)).then(|| self.response());
        self.with(|i| i.log.push(C::Deferred(req, a.clone())));
        Ok(DeferredCredentialResponse { credential_response: a.ok_or_else(|| anyhow!("denied"))? })
    }
    async fn logo(&self, url: &str) -> Result<Logo> {
        logo_of(url).ok_or_else(|| anyhow!("no logo"))
    }
    async fn notification(&self, req: NotificationRequest) -> Result<NotificationResponse> {
        let ok = !one_in(5);
        self.with(|i| i.log.push(C::Notification(req, ok)));
        if ok { Ok(NotificationResponse {}) } else { Err(anyhow!("denied")) }
    }
}
fn logo_of(url: &str) -> Option<Logo> {
    (url != "http://x/none").then(|| Logo { image: format!("image of {url}"), media_type: "image/png".into() })
}
impl VerifierApi for World {
    async fn request_object(&self, req: &str) -> Result<RequestObjectResponse> {
        self.with(|i| i.log.push(C::Fetch(req.into())));
        let request_object = self.with(|i| i.asked.clone()).ok_or_else(|| anyhow!("no request"))?;
        Ok(RequestObjectResponse { request_object })
    }
    async fn present(&self, uri: Option<&str>, p: &ResponseRequest) -> Result<ResponseResponse> {
        self.with(|i| i.log.push(C::Present(uri.map(Into::into), p.clone())));
        if self.with(|i| i.asked.is_none()) {
            return Err(anyhow!("refused"));
        }
        Ok(ResponseResponse { redirect_uri: Some("http://v.example/done".into()), response_code: Some(format!("rc{:?}", p.state)) })
    }
}
impl CredentialStorer for World {
    async fn save(&self, c: &Credential) -> Result<()> {
        let ok = !one_in(8);
        self.with(|i| i.log.push(C::Save(c.clone(), ok)));
        if ok { Ok(()) } else { Err(anyhow!("wallet is full")) }
    }
    async fn load(&self, _: &str) -> Result<Option<Credential>> {
        Err(anyhow!("unused"))
    }
    async fn find(&self, f: Option<Constraints>) -> Result<Vec<Credential>> {
        self.with(|i| i.log.push(C::Find(f)));
        if one_in(25) { Err(anyhow!("wallet is locked")) } else { Ok(self.with(|i| i.wallet.clone())) }
    }
    async fn remove(&self, _: &str) -> Result<()> {
        Err(anyhow!("unused"))
    }
}
impl StateStore for World {
    async fn put(&self, key: &str, state: impl Serialize, dt: DateTime<Utc>) -> Result<()> {
        if self.with(|i| i.fail) {
            return Err(anyhow!("store is down"));
        }
        let v = serde_json::to_value(&state)?;
        self.with(|i| {
            i.store.insert(key.into(), v);
            i.expiry.insert(key.into(), dt);
        });
        Ok(())
    }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> {
        let v = self.with(|i| i.store.get(key).cloned()).ok_or_else(|| anyhow!("no state"))?;
        Ok(serde_json::from_str(&v.to_string())?)
    }
    async fn purge(&self, key: &str) -> Result<()> {
        if self.with(|i| i.fail) {
            return Err(anyhow!("store is down"));
        }
        self.with(|i| i.store.remove(key));
        Ok(())
    }
}
fn key_of(did: &str) -> Vec<u8> {
    format!("key of {did}").into_bytes()
}
impl DidResolver for World {
    async fn resolve(&self, url: &str) -> Result<Document> {
        if !url.starts_with("did:key:") {
            return Err(anyhow!("no such DID"));
        }
        let jwk = PublicKeyJwk { x: B::encode_string(&key_of(url)), ..PublicKeyJwk::default() };
        Ok(Document { id: url.into(), keys: vec![VerificationMethod { id: format!("{url}#k"), method_type: MethodType(jwk) }] })
    }
}
impl Signer for World {
    async fn try_sign(&self, msg: &[u8]) -> Result<Vec<u8>> {
        Ok(mac(&key_of("did:key:h"), msg))
    }
    async fn public_key(&self) -> Result<Vec<u8>> {
        Ok(key_of("did:key:h"))
    }
    fn algorithm(&self) -> Algorithm {
        Algorithm::EdDSA
    }
    fn verification_method(&self) -> String {
        "did:key:h#k".into()
    }
}

// ------------------------------------------------------------------ tokens
fn token(typ: &str, did: &str, good: bool, claims: &Value) -> String {
    let h = json!({"typ": typ, "alg": "EdDSA", "kid": format!("{did}#k")});
    let p = format!("{}.{}", B::encode_string(h.to_string().as_bytes()), B::encode_string(claims.to_string().as_bytes()));
    let key = if good { key_of(did) } else { key_of("did:key:mallory") };
    format!("{p}.{}", B::encode_string(&mac(&key, p.as_bytes())))
}
/// the header and claims of a validly signed token
fn open(t: &str) -> Option<(Value, Value)> {
    let ps: Vec<_> = t.split('.').collect();
    if ps.len() != 3 {
        return None;
    }
    let j = |i: usize| serde_json::from_slice::<Value>(&B::decode_vec(ps[i]).ok()?).ok();
    let (h, c) = (j(0)?, j(1)?);
    let (did, _) = h["kid"].as_str()?.split_once("#k")?;
    (did.starts_with("did:key:") && B::decode_vec(ps[2]).ok()? == mac(&key_of(did), format!("{}.{}", ps[0], ps[1]).as_bytes())).then_some((h, c))
}


// ------------------------------------------------------------------ model
type Store = BTreeMap<String, Value>;
enum Change {
    Nothing,
    Put(Box<Issuance>),
    Purge(String),
}
struct Ran<T> {
    res: Option<Result<T>>,
    before: Store,
    after: Store,
    log: Vec<Call>,
    down: bool,
}
fn run<T>(w: &World, f: impl FnOnce() -> Result<T>) -> Ran<T> {
    let down = one_in(25);
    let before = w.with(|i| {
        i.fail = down;
        i.log.clear();
        i.store.clone()
    });
    let res = call(f);
    let (after, log) = w.with(|i| {
        i.fail = false;
        (i.store.clone(), std::mem::take(&mut i.log))
    });
    Ran { res, before, after, log, down }
}
/// the outcome of a step in an existing flow
fn settle<T>(r: &mut Report, w: &World, p: &str, x: &Ran<T>, want: &Change, say: &dyn Fn(&str) -> String) -> bool {
    let Some(res) = &x.res else {
        r.check(p, false, || say("panic"));
        return false;
    };
    let can = !matches!(want, Change::Nothing) && !x.down;
    r.check(p, res.is_ok() == can, || say(&format!("expected success: {can}, got {:?}", res.as_ref().err())));
    let mut s = x.before.clone();
    if can {
        match want {
            Change::Put(f) => {
                s.insert(f.id.clone(), json!(f));
            }
            Change::Purge(k) => {
                s.remove(k);
            }
            Change::Nothing => {}
        }
    }
    let diff = || {
        let mut o = String::new();
        for k in s.keys().chain(x.after.keys()) {
            if s.get(k) != x.after.get(k) {
                match (s.get(k).and_then(Value::as_object), x.after.get(k).and_then(Value::as_object)) {
                    (Some(a), Some(b)) => {
                        for (f, v) in a {
                            if b.get(f) != Some(v) {
                                o += &format!("{f} is {:?} and should be {v}; ", b.get(f));
                            }
                        }
                    }
                    (a, b) => o += &format!("{k}: there should be {}, there is {}; ", if a.is_some() { "a flow" } else { "none" }, if b.is_some() { "one" } else { "none" }),
                }
                break;
            }
        }
        o
    };
    r.check(p, x.after == s, || say(&format!("the flow kept is wrong: {}", diff())));
    if let (true, Change::Put(f)) = (res.is_ok(), want) {
        let e = w.with(|i| i.expiry.get(&f.id).copied());
        r.check(p, e.is_some_and(|e| e > Utc::now() + chrono::TimeDelta::seconds(3600)), || say(&format!("kept until {e:?}")));
    }
    res.is_ok()
}
fn claims() -> HashMap<String, Claim> {
    ["a", "b"].iter().filter(|_| one_in(2)).map(|k| (k.to_string(), Claim::default())).collect()
}
fn format(k: usize) -> Format {
    let c = (!one_in(3)).then(claims);
    let w3c = |c| ProfileW3c { credential_definition: CredentialDefinition { context: one_in(2).then(|| vec!["ctx".into()]), type_: Some(vec![format!("T{k}")]), credential_subject: c } };
    match rnd(5) {
        0 => Format::LdpVc(w3c(c)),
        1 => Format::JwtVcJsonLd(w3c(c)),
        2 => Format::IsoMdl(ProfileIsoMdl { doctype: format!("D{k}"), claims: c }),
        3 => Format::VcSdJwt(ProfileSdJwt { vct: format!("V{k}"), claims: c }),
        _ => Format::JwtVcJson(w3c(c)),
    }
}
const IDS: [&str; 4] = ["A", "B", "C", "AB"];
fn world() -> World {
    let w = World::default();
    w.with(|i| {
        i.issuer.credential_issuer = if one_in(3) { "http://alias.example".into() } else { ISSUER.into() };
        for (k, id) in IDS.iter().enumerate().take(1 + rnd(4)) {
            let display = match rnd(4) {
                0 => None,
                1 => Some(vec![]),
                _ => Some(
                    (0..1 + rnd(2))
                        .map(|_| CredentialDisplay {
                            name: pick(&["one", "two"]),
                            logo: (!one_in(3)).then(|| Image { uri: (!one_in(3)).then(|| pick(&["http://x/l1", "http://x/l2", "http://x/none"])), alt_text: None }),
                            ..CredentialDisplay::default()
                        })
                        .collect(),
                ),
            };
            i.issuer.credential_configurations_supported.insert(id.to_string(), CredentialConfiguration { format: format(k), scope: (!one_in(4)).then(|| pick(&["S", "SS"])), display, ..CredentialConfiguration::default() });
        }
        let o = &mut i.server.oauth;
        o.grant_types_supported = match rnd(4) {
            0 => None,
            1 => Some(vec![GrantType::PreAuthorizedCode]),
            _ => Some(vec![GrantType::PreAuthorizedCode, GrantType::AuthorizationCode]),
        };
        o.response_types_supported = if one_in(8) { vec![] } else { vec![serde_json::from_value(json!("code")).unwrap()] };
        o.code_challenge_methods_supported = match rnd(10) {
            0 => None,
            1 => Some(vec![]),
            _ => Some(vec![serde_json::from_value(json!("S256")).unwrap()]),
        };
        i.no_server = one_in(12);
    });
    w
}

fn do_offer(r: &mut Report, w: &World) -> Option<String> {
    let (iss, srv, no_server) = w.with(|i| (i.issuer.clone(), i.server.clone(), i.no_server));
    let sup = &iss.credential_configurations_supported;
    let n = if one_in(10) { 0 } else { 1 + rnd(3) };
    let ids: Vec<String> = (0..n).map(|_| if one_in(8) { pick(&["D", "", "a"]) } else { pick(&IDS[..sup.len()]) }).collect();
    let grants = (!one_in(4)).then(|| Grants {
        authorization_code: (!one_in(3)).then(|| AuthorizationCodeGrant { issuer_state: one_in(2).then(|| "state".into()), authorization_server: None }),
        pre_authorized_code: (!one_in(3)).then(|| PreAuthorizedCodeGrant { pre_authorized_code: "pre".into(), tx_code: one_in(2).then(|| TxCode { length: one_in(2).then(|| rnd(8) as _), description: one_in(2).then(|| pick(&["", "in the letter"])), ..TxCode::default() }), authorization_server: None }),
    });
    let q = OfferRequest {
        client_id: pick(&["client", "other"]),
        subject_id: pick(&["sub", "jekt"]),
        offer: CredentialOffer { credential_issuer: if one_in(15) { "http://other.example".into() } else { ISSUER.into() }, credential_configuration_ids: ids.clone(), grants },
    };
    let x = run(w, || block_on(offer(w.clone(), &q)));
    let say = |what: &str| format!("{what}: offer {} with {:?} supported", json!(q), sup.keys().collect::<Vec<_>>());
    let fit = n > 0 && ids.iter().all(|k| sup.contains_key(k)) && q.offer.credential_issuer == ISSUER && !no_server && !x.down;
    let Some(res) = x.res else {
        r.check("H01", false, || say("panic"));
        return None;
    };
    r.check("H01", res.is_ok() == fit, || say(&format!("expected {fit}, got {:?}", res.as_ref().err())));
    let new: Vec<&String> = x.after.keys().filter(|k| !x.before.contains_key(*k)).collect();
    r.check("H01", new.len() == usize::from(res.is_ok()) && x.before.iter().all(|(k, v)| x.after.get(k) == Some(v)), || say(&format!("kept under {new:?}")));
    let res = res.ok()?;
    let id = (*new.first()?).clone();
    let want = Issuance {
        id: id.clone(),
        client_id: q.client_id.clone(),
        subject_id: q.subject_id.clone(),
        status: issuance::Status::Ready,
        offer: q.offer.clone(),
        issuer: iss.clone(),
        authorization_server: srv,
        ..Issuance::default()
    };
    r.check("H01", x.after[&id] == json!(want), || say(&format!("kept {}", x.after[&id])));
    let shown: HashMap<String, CredentialConfiguration> = ids.iter().filter_map(|k| Some((k.clone(), sup.get(k)?.clone()))).collect();
    r.check("H01", res.issuance_id == id && res.issuer == q.offer.credential_issuer && json!(res.grants) == json!(q.offer.grants) && json!(res.offered) == json!(shown), || say(&format!("answer {}", json!(res))));
    Some(id)
}
fn narrowed(f: &Format, c: &HashMap<String, Claim>) -> ProfileClaims {
    match f {
        Format::JwtVcJson(_) | Format::LdpVc(_) | Format::JwtVcJsonLd(_) => ProfileClaims::W3c(CredentialDefinition { credential_subject: Some(c.clone()), ..CredentialDefinition::default() }),
        Format::IsoMdl(_) => ProfileClaims::IsoMdl(c.clone()),
        Format::VcSdJwt(_) => ProfileClaims::SdJwt(c.clone()),
    }
}
fn do_accept(r: &mut Report, w: &World, id: &str) {
    let f = w.flow(id);
    let all: Vec<String> = f.as_ref().map(|f| f.issuer.credential_configurations_supported.keys().cloned().collect()).unwrap_or_default();
    let on: Vec<String> = f.as_ref().map(|f| f.offer.credential_configuration_ids.clone()).unwrap_or_default();
    let accept = one_in(2).then(|| {
        (0..if one_in(10) { 0 } else { 1 + rnd(2) })
            .map(|_| AuthorizationSpec {
                credential_configuration_id: if on.is_empty() || one_in(12) { if all.is_empty() || one_in(2) { "D".into() } else { all[rnd(all.len())].clone() } } else { on[rnd(on.len())].clone() },
                claims: one_in(2).then(claims),
            })
            .collect::<Vec<_>>()
    });
    let q = AcceptRequest { issuance_id: id.into(), accept };
    let say = |what: &str| format!("{what}: accept {} of {on:?}, status {:?}", json!(q), f.as_ref().map(|f| f.status.clone()));
    let fit = f.as_ref().is_some_and(|f| {
        f.status == issuance::Status::Ready && q.accept.as_ref().is_none_or(|a| !a.is_empty() && a.iter().all(|s| on.contains(&s.credential_configuration_id)))
    });
    let want = match &f {
        Some(f) if fit => {
            let mut n = f.clone();
            n.accepted = q.accept.as_ref().map(|a| {
                a.iter()
                    .map(|s| AuthorizationDetail {
                        credential: CredentialAuthorization::ConfigurationId {
                            credential_configuration_id: s.credential_configuration_id.clone(),
                            claims: s.claims.as_ref().map(|c| narrowed(&f.issuer.credential_configurations_supported[&s.credential_configuration_id].format, c)),
                        },
                        ..AuthorizationDetail::default()
                    })
                    .collect()
            });
            let pin = f.offer.grants.as_ref().and_then(|g| g.pre_authorized_code.as_ref()).is_some_and(|p| p.tx_code.is_some());
            n.status = if pin { issuance::Status::PendingPin } else { issuance::Status::Accepted };
            Change::Put(Box::new(n))
        }
        _ => Change::Nothing,
    };
    let x = run(w, || block_on(issuance::accept(w.clone(), &q)));
    settle(r, w, "H01", &x, &want, &say);
}
fn do_pin(r: &mut Report, w: &World, id: &str) {
    let f = w.flow(id);
    let q = PinRequest { issuance_id: id.into(), pin: pick(&["1234", "", "0001"]) };
    let say = |what: &str| format!("{what}: pin {:?}, status {:?}", q.pin, f.as_ref().map(|f| f.status.clone()));
    let want = match &f {
        Some(f) if f.status == issuance::Status::PendingPin => Change::Put(Box::new(Issuance { pin: Some(q.pin.clone()), status: issuance::Status::Accepted, ..f.clone() })),
        _ => Change::Nothing,
    };
    let x = run(w, || block_on(pin(w.clone(), &q)));
    settle(r, w, "H01", &x, &want, &say);
}
/// the issuer is told one event, if it gave a notification id; true: and was told
fn told(r: &mut Report, f: &Issuance, log: &[Call], event: NotificationEvent, say: &dyn Fn(&str) -> String) -> bool {
    let ns: Vec<_> = log.iter().filter_map(|c| if let C::Notification(q, ok) = c { Some((q, *ok)) } else { None }).collect();
    match &f.notification_id {
        None => {
            r.check("H01", ns.is_empty(), || say("the issuer is told without having asked"));
            true
        }
        Some(n) => {
            let good = ns.len() == 1 && ns[0].0.credential_issuer == f.issuer.credential_issuer && ns[0].0.access_token == f.token.access_token && ns[0].0.notification_id == *n && ns[0].0.event == event;
            r.check("H01", good, || say(&format!("the issuer is told {ns:?}")));
            ns.last().is_some_and(|x| x.1)
        }
    }
}
/// what issuers do not set in this version, a wallet may have set
fn notify(w: &World, id: &str) {
    if one_in(3) {
        w.with(|i| {
            if let Some(v) = i.store.get_mut(id) {
                v["notification_id"] = json!("note 1");
            }
        });
    }
}
fn do_cancel(r: &mut Report, w: &World, id: &str) {
    notify(w, id);
    let f = w.flow(id);
    let q = CancelRequest { issuance_id: id.into() };
    let x = run(w, || block_on(cancel(w.clone(), &q)));
    let say = |what: &str| format!("{what}: cancel, flow {}", json!(f));
    let want = match &f {
        Some(f) if told(r, f, &x.log, NotificationEvent::CredentialDeleted, &say) => Change::Purge(id.into()),
        _ => Change::Nothing,
    };
    settle(r, w, "H01", &x, &want, &say);
}
fn do_save(r: &mut Report, w: &World, id: &str) {
    notify(w, id);
    let f = w.flow(id);
    let q = SaveRequest { issuance_id: id.into() };
    let x = run(w, || block_on(save(w.clone(), &q)));
    let say = |what: &str| format!("{what}: save, flow {}", json!(f));
    let mut want = Change::Nothing;
    if let Some(f) = &f {
        let saved: Vec<_> = x.log.iter().filter_map(|c| if let C::Save(c, ok) = c { Some((c, *ok)) } else { None }).collect();
        let all = saved.iter().all(|s| s.1);
        let some = saved.iter().zip(&f.credentials).all(|(s, c)| s.0 == c) && saved.len() <= f.credentials.len();
        r.check("H01", some && (!all || saved.len() == f.credentials.len()), || say(&format!("{} credentials saved of {}", saved.len(), f.credentials.len())));
        let ev = if all { NotificationEvent::CredentialAccepted } else { NotificationEvent::CredentialFailure };
        if told(r, f, &x.log, ev, &say) && all {
            want = if f.deferred.is_empty() { Change::Purge(id.into()) } else { Change::Put(Box::new(Issuance { credentials: vec![], notification_id: None, ..f.clone() })) };
        }
    }
    settle(r, w, "H01", &x, &want, &say);
}

// ------------------------------------------------------------------ tokens and authorization
fn config_of(iss: &Issuer, c: &CredentialAuthorization) -> Vec<String> {
    match c {
        CredentialAuthorization::ConfigurationId { credential_configuration_id, .. } => vec![credential_configuration_id.clone()],
        CredentialAuthorization::Format(f) => iss.credential_configurations_supported.iter().filter(|(_, c)| c.format == *f).map(|(k, _)| k.clone()).collect(),
    }
}
fn reported(r: &mut Report, iss: &Issuer, t: &TokenResponse, a: &AuthorizedCredentials, empty: bool, say: &dyn Fn(&str) -> String) {
    let ds = t.authorization_details.as_ref().filter(|d| empty || !d.is_empty());
    let good = match (ds, &a.authorized) {
        (None, None) => true,
        (Some(d), Some(m)) => {
            d.iter().all(|x| config_of(iss, &x.authorization_detail.credential).iter().any(|k| m.contains_key(k)))
                && m.iter().all(|(k, v)| d.iter().any(|x| config_of(iss, &x.authorization_detail.credential).contains(k) && x.credential_identifiers == *v))
        }
        _ => false,
    };
    r.check("H02", good, || say(&format!("told {}, token {}", json!(a), json!(t))));
}
fn known(iss: &Issuer, t: &TokenResponse) -> bool {
    t.authorization_details.as_ref().is_none_or(|d| d.iter().all(|x| !config_of(iss, &x.authorization_detail.credential).is_empty()))
}
fn do_token(r: &mut Report, w: &World, id: &str) {
    let f = w.flow(id);
    let x = run(w, || block_on(issuance::token(w.clone(), id)));
    let say = |what: &str| format!("{what}: token, flow {}", json!(f));
    let mut want = Change::Nothing;
    let mut tok = None;
    let pre = f.as_ref().and_then(|f| f.offer.grants.clone()).and_then(|g| g.pre_authorized_code);
    let ready = f.as_ref().is_some_and(|f| f.status == issuance::Status::Accepted) && pre.is_some();
    r.check("H02", x.log.len() == usize::from(ready), || say(&format!("requests {:?}", x.log)));
    if let (Some(f), Some(C::Token(q, a)), Some(pre)) = (&f, x.log.first(), &pre) {
        let g = TokenGrantType::PreAuthorizedCode { pre_authorized_code: pre.pre_authorized_code.clone(), tx_code: f.pin.clone() };
        let good = q.grant_type == g && q.credential_issuer == f.issuer.credential_issuer && q.client_id.as_ref() == Some(&f.client_id) && q.authorization_details == f.accepted;
        r.check("H02", good, || say(&format!("request {q:?}")));
        if let Some(t) = a.as_ref().filter(|t| known(&f.issuer, t)) {
            want = Change::Put(Box::new(Issuance { token: t.clone(), status: issuance::Status::TokenReceived, ..f.clone() }));
            tok = Some(t.clone());
        }
    }
    settle(r, w, "H02", &x, &want, &say);
    if let (Some(f), Some(Ok(a)), Some(t)) = (&f, &x.res, &tok) {
        r.check("H02", a.issuance_id == id, || say(&format!("answer {}", json!(a))));
        reported(r, &f.issuer, t, a, true, &say);
    }
}
fn details(iss: &Issuer) -> Vec<AuthorizationDetail> {
    let all: Vec<&String> = iss.credential_configurations_supported.keys().collect();
    (0..1 + rnd(2)).map(|_| AuthorizationDetail { credential: CredentialAuthorization::ConfigurationId { credential_configuration_id: all[rnd(all.len())].clone(), claims: None }, ..AuthorizationDetail::default() }).collect()
}
fn do_authorize(r: &mut Report, w: &World, id: Option<&str>) -> Option<String> {
    let (iss, srv, no_server) = w.with(|i| (i.issuer.clone(), i.server.clone(), i.no_server));
    let det = one_in(3).then(|| details(&iss));
    let initiator = match id {
        Some(id) => Initiator::Issuer { issuance_id: id.into() },
        None => Initiator::Wallet {
            client_id: pick(&["client", "other"]),
            issuer: if one_in(12) { "http://other.example".into() } else { ISSUER.into() },
            scope: one_in(2).then(|| pick(&["S", "SS", "none"])),
            subject_id: pick(&["sub", "jekt"]),
        },
    };
    let q = AuthorizeRequest { initiator, redirect_uri: one_in(2).then(|| "http://wallet".into()), authorization_details: det.clone() };
    let old = id.and_then(|id| w.flow(id));
    let say = |what: &str| format!("{what}: authorize {}, flow {}, server {}", json!(q), json!(old), json!(srv));
    // the flow, and whether it may be authorized
    let (base, mut ready) = match &q.initiator {
        Initiator::Issuer { .. } => (
            old.clone(),
            old.as_ref().is_some_and(|f| {
                f.status == issuance::Status::Accepted
                    && match &f.offer.grants {
                        Some(g) => g.authorization_code.is_some(),
                        None => f.authorization_server.oauth.grant_types_supported.as_ref().is_some_and(|g| g.contains(&GrantType::AuthorizationCode)),
                    }
            }),
        ),
        Initiator::Wallet { client_id, issuer, scope, subject_id } => (
            Some(Issuance { client_id: client_id.clone(), subject_id: subject_id.clone(), issuer: iss.clone(), authorization_server: srv.clone(), scope: scope.clone(), ..Issuance::default() }),
            det.is_some() != scope.is_some() && issuer == ISSUER && !no_server,
        ),
    };
    let oauth = base.as_ref().map(|f| f.authorization_server.oauth.clone()).unwrap_or_default();
    ready = ready && oauth.code_challenge_methods_supported.is_some_and(|m| !m.is_empty()) && !oauth.response_types_supported.is_empty();
    let x = run(w, || block_on(authorize(w.clone(), &q)));
    r.check("H02", x.log.is_empty() != ready, || say(&format!("expected a request: {ready}; requests {:?}", x.log)));
    let new: Vec<String> = x.after.keys().filter(|k| !x.before.contains_key(*k)).cloned().collect();
    let mut want = Change::Nothing;
    let mut tok = None;
    if let (Some(f), Some(C::Authorization(a, ar)), true) = (&base, x.log.first(), ready) {
        let acc = if det.is_some() { det.clone() } else { f.accepted.clone() };
        if let AuthorizationRequest::Object(o) = a {
            let wallet = id.is_none();
            let good = o.credential_issuer == f.issuer.credential_issuer && o.client_id == f.client_id && o.subject_id == f.subject_id && o.redirect_uri == q.redirect_uri;
            r.check("H02", good, || say(&format!("request {o:?}")));
            let st = if wallet { None } else { f.offer.grants.as_ref().and_then(|g| g.authorization_code.as_ref()).and_then(|c| c.issuer_state.clone()) };
            r.check("H02", o.issuer_state == st && o.scope == f.scope, || say(&format!("state {:?}, scope {:?}", o.issuer_state, o.scope)));
            let d = if f.scope.is_some() {
                None
            } else {
                Some(acc.clone().unwrap_or_else(|| {
                    f.offer
                        .credential_configuration_ids
                        .iter()
                        .map(|k| {
                            let c = &f.issuer.credential_configurations_supported[k];
                            AuthorizationDetail { credential: CredentialAuthorization::ConfigurationId { credential_configuration_id: k.clone(), claims: None.or_else(|| c.format.claims().map(|m| narrowed(&c.format, &m))) }, ..AuthorizationDetail::default() }
                        })
                        .collect()
                }))
            };
            r.check("H02", strip(&json!(o.authorization_details)) == strip(&json!(d)), || say(&format!("details {}, expected {}", json!(o.authorization_details), json!(d))));
            if let (Some(ar), Some(C::Token(t, a))) = (ar, x.log.get(1)) {
                let TokenGrantType::AuthorizationCode { code, redirect_uri, code_verifier } = &t.grant_type else {
                    r.check("H02", false, || say(&format!("token request {t:?}")));
                    return None;
                };
                let v = code_verifier.clone().unwrap_or_default();
                r.check("H02", *code == ar.code && *redirect_uri == q.redirect_uri && v.len() >= 43 && o.code_challenge == pkce::code_challenge(&v), || say(&format!("token request {t:?}, challenge {}", o.code_challenge)));
                let used = x.before.values().any(|s| s["code_verifier"] == json!(v));
                r.check("H02", !used, || say("a code verifier used before"));
                r.check("H02", t.credential_issuer == f.issuer.credential_issuer && t.client_id.as_ref() == Some(&f.client_id) && t.authorization_details == acc, || say(&format!("token request {t:?}")));
                if let Some(a) = a.as_ref().filter(|t| known(&f.issuer, t)) {
                    let nid = id.map(Into::into).or_else(|| new.first().cloned()).unwrap_or_default();
                    want = Change::Put(Box::new(Issuance { id: nid, token: a.clone(), status: issuance::Status::TokenReceived, accepted: acc, code_challenge: Some(o.code_challenge.clone()), code_verifier: Some(v), ..f.clone() }));
                    tok = Some(a.clone());
                }
            } else {
                r.check("H02", ar.is_none() && x.log.len() == 1, || say(&format!("requests {:?}", x.log)));
            }
        } else {
            r.check("H02", false, || say(&format!("request {a:?}")));
        }
    }
    settle(r, w, "H02", &x, &want, &say);
    let a = x.res?.ok()?;
    if let (Some(t), Change::Put(f)) = (&tok, &want) {
        r.check("H02", a.issuance_id == f.id, || say(&format!("answer {}", json!(a))));
        reported(r, &f.issuer, t, &a, false, &say);
    }
    Some(a.issuance_id)
}
/// narrowing to the claims of a format may keep its other members or not
fn strip(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(a) = v.as_array_mut() {
        for d in a {
            if let Some(o) = d.get_mut("credential_definition").and_then(Value::as_object_mut) {
                o.remove("type");
                o.remove("@context");
            }
        }
    }
    v
}

// ------------------------------------------------------------------ credentials
/// what a wallet keeps of a credential; None: it does not verify
fn received(k: &Kind<vercre_w3c_vc::model::VerifiableCredential>, cfg: &CredentialConfiguration) -> Option<Credential> {
    let Kind::String(t) = k else { return None };
    let (_, c) = open(t)?;
    let vc: vercre_w3c_vc::model::VerifiableCredential = serde_json::from_value(c["vc"].clone()).ok()?;
    let issuer = c["vc"]["issuer"].as_str().or(c["vc"]["issuer"]["id"].as_str())?.to_string();
    let logo = cfg.display.as_ref().and_then(|d| d.first()).and_then(|d| d.logo.as_ref()).and_then(|l| l.uri.as_ref()).and_then(|u| logo_of(u));
    Some(Credential { id: vc.id.clone().unwrap_or_default(), issuer, vc, issued: t.clone(), issuance_date: DateTime::from_timestamp(c["iat"].as_i64()?, 0)?, display: cfg.display.clone(), logo })
}
/// adds what an answer holds to a flow; None: something does not verify
fn gather(f: &mut Issuance, cfg_id: &str, a: &CredentialResponse) -> Option<()> {
    let cfg = f.issuer.credential_configurations_supported.get(cfg_id)?.clone();
    match &a.response {
        CredentialResponseType::Credential(k) => f.credentials.push(received(k, &cfg)?),
        CredentialResponseType::Credentials(ks) => f.credentials.extend(ks.iter().map(|k| received(k, &cfg)).collect::<Option<Vec<_>>>()?),
        CredentialResponseType::TransactionId(t) => {
            f.deferred.insert(t.clone(), cfg_id.into());
        }
    }
    // the nonce received is the one to prove with from now on
    if a.c_nonce.is_some() {
        f.token.c_nonce = a.c_nonce.clone();
    }
    if a.c_nonce_expires_in.is_some() {
        f.token.c_nonce_expires_in = a.c_nonce_expires_in;
    }
    Some(())
}
/// credentials without an id of their own are named by the wallet
fn unname(s: &mut Store, id: &str) -> bool {
    let mut good = true;
    if let Some(cs) = s.get_mut(id).and_then(|v| v["credentials"].as_array_mut()) {
        for c in cs {
            if c["vc"]["id"].is_null() {
                let n = c["id"].as_str().unwrap_or_default();
                good &= n.is_empty() || n.len() > 16;
                c["id"] = json!("");
            }
        }
    }
    good
}
fn proof_good(f: &Issuance, q: &CredentialRequest) -> bool {
    let Some(Proof::Single { proof_type: SingleProof::Jwt { jwt } }) = &q.proof else { return false };
    let Some((h, c)) = open(jwt) else { return false };
    h["kid"] == "did:key:h#k" && c["iss"] == json!(f.client_id) && c["aud"] == json!(f.issuer.credential_issuer) && c.get("nonce").cloned().unwrap_or(Value::Null) == json!(f.token.c_nonce) && h["typ"] == "openid4vci-proof+jwt"
}
fn do_credentials(r: &mut Report, w: &World, id: &str) {
    let f = w.flow(id);
    let cfgs: Vec<_> = f.as_ref().map(|f| f.issuer.credential_configurations_supported.values().cloned().collect()).unwrap_or_default();
    let scoped = f.as_ref().is_some_and(|f| f.scope.is_some());
    let q = CredentialsRequest {
        issuance_id: id.into(),
        credential_identifiers: if scoped && !one_in(8) { None } else { one_in(2).then(|| (0..rnd(3)).map(|_| pick(&["c1", "c2", "c3", "c11", "c"])).collect()) },
        format: if cfgs.is_empty() || one_in(8) { None } else { Some(cfgs[rnd(cfgs.len())].format.clone()) },
    };
    let say = |what: &str| format!("{what}: credentials {}, flow {}", json!(q), json!(f));
    let mut x = run(w, || block_on(credentials(w.clone(), &q)));
    let mut want = Change::Nothing;
    let reqs: Vec<_> = x.log.iter().filter_map(|c| if let C::Credential(q, a) = c { Some((q, a)) } else { None }).collect();
    let mut made = 0;
    if let Some(f0) = f.as_ref().filter(|f| f.status == issuance::Status::TokenReceived) {
        let mut f = f0.clone();
        for c in &mut f.credentials {
            if c.vc.id.is_none() {
                c.id = String::new();
            }
        }
        let mut good = true;
        if let Some(scope) = &f0.scope {
            let fit: Vec<&String> = f0.issuer.credential_configurations_supported.iter().filter(|(_, c)| c.scope.as_ref() == Some(scope) && q.format.as_ref() == Some(&c.format)).map(|(k, _)| k).collect();
            good = q.credential_identifiers.is_none() && !fit.is_empty();
            if good {
                if let Some((cq, a)) = reqs.first() {
                    made = 1;
                    let is = matches!(&cq.credential, CredentialIssuance::Format(g) if Some(g) == q.format.as_ref());
                    r.check("H03", is && cq.credential_issuer == f.issuer.credential_issuer && cq.access_token == f.token.access_token && proof_good(&f, cq), || say(&format!("request {cq:?}, nonce {:?}", f.token.c_nonce)));
                    good = a.as_ref().is_some_and(|a| fit.len() != 1 || gather(&mut f, fit[0], a).is_some());
                    if fit.len() != 1 && a.is_some() {
                        return; // any of them may be taken
                    }
                }
            }
        } else if let Some(ds) = &f0.token.authorization_details {
            'all: for d in ds {
                let ks = config_of(&f0.issuer, &d.authorization_detail.credential);
                if ks.len() > 1 {
                    return; // any of them may be taken
                }
                let Some(k) = ks.first().filter(|k| f0.issuer.credential_configurations_supported.contains_key(*k)) else {
                    good = false;
                    break;
                };
                for c in &d.credential_identifiers {
                    if q.credential_identifiers.as_ref().is_some_and(|i| !i.contains(c)) {
                        continue;
                    }
                    let Some((cq, a)) = reqs.get(made) else {
                        made += 1;
                        break 'all;
                    };
                    made += 1;
                    let is = matches!(&cq.credential, CredentialIssuance::Identifier { credential_identifier } if credential_identifier == c);
                    r.check("H03", is && cq.credential_issuer == f.issuer.credential_issuer && cq.access_token == f.token.access_token && proof_good(&f, cq), || say(&format!("request {made}: {cq:?}, nonce {:?}", f.token.c_nonce)));
                    if !a.as_ref().is_some_and(|a| gather(&mut f, k, a).is_some()) {
                        good = false;
                        break 'all;
                    }
                }
            }
        } else {
            good = false;
        }
        if good {
            want = Change::Put(Box::new(f));
        }
    }
    r.check("H03", reqs.len() == made, || say(&format!("{} requests, expected {made}", reqs.len())));
    let named = unname(&mut x.after, id);
    r.check("H03", named, || say("a credential without a name"));
    unname(&mut x.before, id);
    settle(r, w, "H03", &x, &want, &say);
    answer(r, &x, &want, &say);
}
fn answer(r: &mut Report, x: &Ran<CredentialsResponse>, want: &Change, say: &dyn Fn(&str) -> String) {
    if let (Some(Ok(a)), Change::Put(f)) = (&x.res, want) {
        r.check("H03", a.issuance_id == f.id && a.deferred.clone().unwrap_or_default() == f.deferred, || say(&format!("answer {}", json!(a))));
    }
}
fn do_deferred(r: &mut Report, w: &World, id: &str) {
    let f = w.flow(id);
    let waits: Vec<(String, String)> = f.as_ref().map(|f| f.deferred.clone().into_iter().collect()).unwrap_or_default();
    let (t, k) = if waits.is_empty() || one_in(6) { (pick(&["t1", "t9"]), pick(&IDS)) } else { waits[rnd(waits.len())].clone() };
    let q = DeferredRequest { issuance_id: id.into(), transaction_id: t.clone(), credential_configuration_id: k.clone() };
    let say = |what: &str| format!("{what}: deferred {}, flow {}", json!(q), json!(f));
    let mut x = run(w, || block_on(deferred(w.clone(), &q)));
    let mut want = Change::Nothing;
    let mut made = 0;
    if let Some(f0) = f.as_ref().filter(|f| f.status == issuance::Status::TokenReceived) {
        let known = f0.issuer.credential_configurations_supported.contains_key(&k);
        if let Some(C::Deferred(d, a)) = x.log.first() {
            made = 1;
            r.check("H03", d.transaction_id == t && d.credential_issuer == f0.issuer.credential_issuer && d.access_token == f0.token.access_token, || say(&format!("request {d:?}")));
            let mut n = f0.clone();
            for c in &mut n.credentials {
                if c.vc.id.is_none() {
                    c.id = String::new();
                }
            }
            n.deferred.remove(&t);
            if a.as_ref().is_some_and(|a| gather(&mut n, &k, a).is_some()) {
                want = if n.credentials.is_empty() && n.deferred.is_empty() { Change::Purge(id.into()) } else { Change::Put(Box::new(n)) };
            }
        } else {
            made = usize::from(known);
        }
    }
    r.check("H03", x.log.len() == made, || say(&format!("requests {:?}", x.log)));
    let named = unname(&mut x.after, id);
    r.check("H03", named, || say("a credential without a name"));
    unname(&mut x.before, id);
    settle(r, w, "H03", &x, &want, &say);
    answer(r, &x, &want, &say);
}

// ------------------------------------------------------------------ presentations
fn asked() -> Asked {
    let mut o: Asked = serde_json::from_value(json!({
        "response_type": "vp_token", "client_id": pick(&["http://v.example/post", "http://v.example/p&st"]), "nonce": pick(&["n1", "n=2"]),
        "presentation_definition": {"id": pick(&["pd1", "pd2"]), "input_descriptors": []}, "client_metadata": {"client_id": "http://v.example"}
    }))
    .unwrap();
    o.state = one_in(2).then(|| pick(&["s1", "s2"]));
    o.response_uri = (!one_in(4)).then(|| pick(&["http://v.example/post", "http://v.example/post/", "http://v.example"]));
    let n = if one_in(10) { 0 } else { 1 + rnd(3) };
    let ds: Vec<Value> = (0..n)
        .map(|i| {
            let name = ["d", "dd", "e"][i];
            let mut d = json!({"id": name, "constraints": {}});
            if !one_in(5) {
                d["constraints"]["fields"] = json!((0..1 + rnd(2))
                    .map(|_| {
                        let mut f = json!({"path": [pick(&["$.type", "$.credentialSubject.role"])]});
                        if !one_in(4) {
                            f["filter"] = json!({"type": "string", "const": pick(&["X", "Y"])});
                        }
                        f
                    })
                    .collect::<Vec<_>>());
            }
            d
        })
        .collect();
    if let Kind::Object(pd) = &mut o.presentation_definition {
        pd.input_descriptors = serde_json::from_value(json!(ds)).unwrap();
    }
    if one_in(12) {
        o.presentation_definition = Kind::String("http://v.example/pd".into());
    }
    o
}
fn fits(o: &Asked) -> Option<Constraints> {
    match &o.presentation_definition {
        Kind::Object(pd) => pd.input_descriptors.first().map(|d| d.constraints.clone()),
        Kind::String(_) => None,
    }
}
fn do_request(r: &mut Report, w: &World) -> Option<String> {
    let o = asked();
    let mut want = Some(o.clone());
    let inline = one_in(2);
    let text = if inline {
        let t = urlencode::to_string(&o).unwrap();
        if urlencode::from_str::<Asked>(&t).ok().as_ref() != Some(&o) {
            return None; // C04, C05
        }
        t
    } else {
        w.with(|i| {
            i.asked = Some(match rnd(12) {
                0 => RequestObjectType::Object(o.clone()),
                1 => RequestObjectType::Jwt(token("oauth-authz-req+jwt", "did:key:v", false, &json!(o))),
                _ => RequestObjectType::Jwt(token("oauth-authz-req+jwt", "did:key:v", true, &json!(o))),
            });
            if one_in(12) {
                i.asked = None;
            }
            if !matches!(&i.asked, Some(RequestObjectType::Jwt(t)) if open(t).is_some()) {
                want = None;
            }
        });
        pick(&["http%3A%2F%2Fv.example%2Frequest%2F1", "http://v.example/request/1"])
    };
    if one_in(4) {
        w.with(|i| i.wallet.clear());
    }
    w.with(|i| {
        for n in 0..rnd(3) {
            i.wallet.push(Credential { id: format!("w{n}"), issued: format!("token{}", rnd(100)), ..Credential::default() });
        }
    });
    let x = run(w, || block_on(presentation::request(w.clone(), &text)));
    let say = |what: &str| format!("{what}: request {text}, asked {}", json!(o));
    let Some(res) = x.res else {
        r.check("H04", false, || say("panic"));
        return None;
    };
    let fetched: Vec<_> = x.log.iter().filter_map(|c| if let C::Fetch(u) = c { Some(u.as_str()) } else { None }).collect();
    r.check("H04", if inline { fetched.is_empty() } else { fetched == ["http://v.example/request/1"] }, || say(&format!("fetched {fetched:?}")));
    let f = want.as_ref().and_then(fits);
    let found: Vec<_> = x.log.iter().filter_map(|c| if let C::Find(f) = c { Some(f.clone()) } else { None }).collect();
    r.check("H04", found.len() == usize::from(f.is_some()) && found.iter().all(|x| json!(x) == json!(f)), || say(&format!("looked for {found:?}")));
    let new: Vec<&String> = x.after.keys().filter(|k| !x.before.contains_key(*k)).collect();
    r.check("H04", new.len() == usize::from(res.is_ok()) && x.before.iter().all(|(k, v)| x.after.get(k) == Some(v)), || say(&format!("kept under {new:?}")));
    if f.is_none() || x.down {
        r.check("H04", res.is_err(), || say("taken up"));
    }
    let res = match res {
        Ok(a) => a,
        Err(e) => {
            r.check("H04", f.is_none() || x.down || e.to_string() == "wallet is locked", || say(&format!("refused: {e}")));
            return None;
        }
    };
    let id = (*new.first()?).clone();
    let wallet = w.with(|i| i.wallet.clone());
    let p = Presentation { id: id.clone(), status: presentation::Status::Requested, request: o.clone(), credentials: wallet.clone(), filter: f?, ..Presentation::default() };
    r.check("H04", x.after[&id] == json!(p), || say(&format!("kept {}, expected {}", x.after[&id], json!(p))));
    r.check("H04", res.presentation_id == id && res.status == presentation::Status::Requested && res.credentials == wallet, || say(&format!("answer {}", json!(res))));
    Some(id)
}
fn do_agree(r: &mut Report, w: &World, id: &str) {
    let x = run(w, || block_on(presentation::authorize(w.clone(), id.into())));
    let say = |what: &str| format!("{what}: authorize {}", json!(x.before.get(id)));
    let Some(res) = &x.res else {
        r.check("H04", false, || say("panic"));
        return;
    };
    let fit = x.before.get(id).is_some_and(|v| v["status"] == "Requested") && !x.down;
    r.check("H04", res.is_ok() == fit, || say(&format!("expected {fit}, got {res:?}")));
    let mut s = x.before.clone();
    if fit {
        if let Some(v) = s.get_mut(id) {
            v["status"] = json!("Authorized");
        }
        r.check("H04", matches!(res, Ok(presentation::Status::Authorized)), || say(&format!("answer {res:?}")));
    }
    r.check("H04", x.after == s && x.log.is_empty(), || say(&format!("kept {:?}, calls {:?}", x.after.get(id), x.log)));
}
fn do_present(r: &mut Report, w: &World, id: &str) {
    w.with(|i| i.asked = (!one_in(8)).then(RequestObjectType::default));
    let up = w.with(|i| i.asked.is_some());
    let x = run(w, || block_on(presentation::present(w.clone(), id.into())));
    let say = |what: &str| format!("{what}: present {}", json!(x.before.get(id)));
    let Some(res) = &x.res else {
        r.check("H04", false, || say("panic"));
        return;
    };
    r.check("H04", x.after == x.before, || say("the store changed"));
    let p: Option<Presentation> = x.before.get(id).and_then(|v| serde_json::from_str(&v.to_string()).ok());
    let p = p.filter(|p| p.status == presentation::Status::Authorized);
    // a presentation needs a type besides its own
    let typed = p.as_ref().is_some_and(|p| json!(p.request)["presentation_definition"]["input_descriptors"].as_array().is_some_and(|a| a.iter().any(|d| d["constraints"]["fields"].as_array().is_some_and(|f| f.iter().any(|f| f["filter"].get("const").is_some())))));
    r.check("H04", res.is_ok() == (typed && up), || say(&format!("expected {typed} and {up}, got {res:?}")));
    r.check("H04", x.log.len() == usize::from(typed), || say(&format!("sent {:?}", x.log)));
    let (Some(p), Some(C::Present(uri, b))) = (&p, x.log.first()) else { return };
    let d = json!(p.request)["presentation_definition"].clone();
    let sent = match b.vp_token.as_deref() {
        Some([Kind::String(t)]) => open(t),
        _ => None,
    };
    let Some((h, c)) = sent else {
        r.check("H04", false, || say(&format!("sent {}", json!(b))));
        return;
    };
    let creds = c["vp"].get("verifiableCredential").cloned().unwrap_or(json!([]));
    let toks: Vec<&String> = p.credentials.iter().map(|c| &c.issued).collect();
    r.check("H04", creds == json!(toks), || say(&format!("presents {creds}, found {toks:?}")));
    r.check("H04", h["kid"] == "did:key:h#k" && c["vp"]["holder"] == "did:key:h" && c["aud"] == json!(p.request.client_id) && c["nonce"] == json!(p.request.nonce), || say(&format!("claims {c}")));
    let s = json!(b.presentation_submission);
    let ids: Vec<&Value> = d["input_descriptors"].as_array().unwrap().iter().map(|x| &x["id"]).collect();
    let got: Vec<&Value> = s["descriptor_map"].as_array().map(|a| a.iter().map(|m| &m["id"]).collect()).unwrap_or_default();
    r.check("H04", s["definition_id"] == d["id"] && ids == got && s["descriptor_map"].as_array().unwrap().iter().all(|m| m["path"] == "$"), || say(&format!("submission {s}")));
    r.check("H04", b.state == p.request.state && uri.as_deref().map(|u| u.trim_end_matches('/')) == p.request.response_uri.as_deref().map(|u| u.trim_end_matches('/')), || say(&format!("to {uri:?}, state {:?}", b.state)));
    if let Ok(a) = res {
        r.check("H04", a.redirect_uri.as_deref() == Some("http://v.example/done") && a.response_code == Some(format!("rc{:?}", p.request.state)), || say(&format!("answer {a:?}")));
    }
}
fn statuses(r: &mut Report) {
    use presentation::Status as S;
    let m = pick(&["", "e", "é: Failed: x", "Failed: ", " x"]);
    for s in [S::Inactive, S::Requested, S::Authorized, S::Failed(m)] {
        let t = s.to_string();
        let back = call(|| S::from_str(&t));
        r.check("H04", matches!(&back, Some(Ok(b)) if *b == s), || format!("status {t:?} is read as {back:?}"));
    }
    let t = pick(&["Failed", "Failed:", "Failedé", "", "Inactiv", "requested", "Failed: \u{e9}", "Faile"]);
    r.check("H04", call(|| S::from_str(&t).is_ok()).is_some(), || format!("panic reading the status {t:?}"));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    fastrand::seed(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1));
    let scale: usize = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Report { prop: a[1].clone(), fails: 0, n: 0 };
    for _ in 0..500 * scale {
        let w = world();
        if a[1] == "H04" {
            let mut ids = vec!["nope".to_string()];
            for _ in 0..4 {
                ids.extend(do_request(&mut r, &w));
                statuses(&mut r);
            }
            // flows that failed or never began are not taken up again
            for id in ids.iter().filter(|_| one_in(8)) {
                let st = if one_in(2) { presentation::Status::Failed(pick(&["", "no"])) } else { presentation::Status::Inactive };
                w.with(|i| if let Some(v) = i.store.get_mut(id) { v["status"] = json!(st) });
            }
            for _ in 0..12 {
                let id = ids[rnd(ids.len())].clone();
                if one_in(2) { do_agree(&mut r, &w, &id) } else { do_present(&mut r, &w, &id) }
            }
            continue;
        }
        let mut ids = vec!["nope".to_string()];
        for _ in 0..2 {
            ids.extend(do_offer(&mut r, &w));
        }
        ids.extend(do_authorize(&mut r, &w, None));
        for _ in 0..24 {
            let id = ids[rnd(ids.len())].clone();
            let st = w.flow(&id).map(|f| f.status);
            // mostly what comes next, at times anything
            let n = if one_in(6) {
                rnd(8)
            } else {
                match st {
                    Some(issuance::Status::Ready) => 0,
                    Some(issuance::Status::PendingPin) => 1,
                    Some(issuance::Status::Accepted) => 2 + rnd(2),
                    Some(issuance::Status::TokenReceived) => 4 + rnd(3),
                    _ => rnd(8),
                }
            };
            match n {
                0 => do_accept(&mut r, &w, &id),
                1 => do_pin(&mut r, &w, &id),
                2 => do_token(&mut r, &w, &id),
                3 => {
                    do_authorize(&mut r, &w, Some(&id));
                }
                4 => do_credentials(&mut r, &w, &id),
                5 => do_deferred(&mut r, &w, &id),
                6 => do_save(&mut r, &w, &id),
                _ => do_cancel(&mut r, &w, &id),
            }
        }
    }
    println!("STAT cases {}", r.n);
    if r.fails > 0 {
        std::process::exit(3);
    }
}
