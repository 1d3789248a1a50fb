//! W01: securing and verifying credentials and presentations. W02: builders.
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::pin;
use std::str::FromStr;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use base64ct::{Base64UrlUnpadded as B, Encoding};
use chrono::{DateTime, TimeDelta, Utc};
use serde_json::{json, Value};
use vercre_core::{Kind, Quota};
use vercre_did::{DidResolver, Document, MethodType, VerificationMethod};
use vercre_infosec::jose::jws::mac;
use vercre_infosec::{Algorithm, PublicKeyJwk, Signer};
use vercre_w3c_vc::model::{CredentialStatus, CredentialSubject, VerifiableCredential, VerifiablePresentation};
use vercre_w3c_vc::model::types::{LangString, LangValue};
use vercre_w3c_vc::proof::integrity::Proof;
use vercre_w3c_vc::proof::{create, verify, Payload, Verify, W3cFormat};

struct Noop;
impl Wake for Noop {
    fn wake(self: Arc<Self>) {}
}
fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let w = Waker::from(Arc::new(Noop));
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}
struct Report {
    prop: String,
    fails: usize,
    n: usize,
}
impl Report {
    fn check(&mut self, prop: &str, good: bool, what: impl FnOnce() -> String) -> bool {
        if prop == self.prop {
            self.n += 1;
            if !good {
                self.fails += 1;
                if self.fails <= 5 {
                    println!("FAIL {}", what());
                }
            }
        }
        good
    }
}
fn rnd(n: usize) -> usize {
    fastrand::usize(..n)
}
fn one_in(n: usize) -> bool {
    rnd(n) == 0
}
fn call<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
fn text() -> String {
    ["", "a", "http://x.example/1", "did:key:zA", "é☃", "urn:uuid:7"][rnd(6)].to_string()
}
fn opt<T>(f: impl FnOnce() -> T) -> Option<T> {
    if one_in(3) { None } else { Some(f()) }
}

// ------------------------------------------------------------------ keys
fn key(did: &str, n: usize) -> Vec<u8> {
    mac(did.as_bytes(), &[n as u8])
}
struct Key {
    did: String,
    n: usize,
    fails: bool,
}
impl Signer for Key {
    async fn try_sign(&self, msg: &[u8]) -> anyhow::Result<Vec<u8>> {
        if self.fails { anyhow::bail!("no key") }
        Ok(mac(&key(&self.did, self.n), msg))
    }
    async fn public_key(&self) -> anyhow::Result<Vec<u8>> {
        Ok(key(&self.did, self.n))
    }
    fn algorithm(&self) -> Algorithm {
        Algorithm::EdDSA
    }
    fn verification_method(&self) -> String {
        format!("{}#k{}", self.did, self.n)
    }
}
struct Dids;
impl DidResolver for Dids {
    async fn resolve(&self, url: &str) -> anyhow::Result<Document> {
        if !url.starts_with("did:key:") { anyhow::bail!("unknown DID") }
        let keys = (0..3)
            .map(|n| VerificationMethod { id: format!("{url}#k{n}"), method_type: MethodType(PublicKeyJwk { x: B::encode_string(&key(url, n)), ..PublicKeyJwk::default() }) })
            .collect();
        Ok(Document { id: url.into(), keys })
    }
}
fn token(typ: &str, kid: &str, key: &[u8], claims: &Value) -> String {
    let h = json!({"typ": typ, "alg": "EdDSA", "kid": kid});
    let p = format!("{}.{}", B::encode_string(h.to_string().as_bytes()), B::encode_string(claims.to_string().as_bytes()));
    format!("{p}.{}", B::encode_string(&mac(key, p.as_bytes())))
}
fn claims_of(t: &str) -> Option<(Value, Value, bool)> {
    let ps: Vec<_> = t.split('.').collect();
    if ps.len() != 3 {
        return None;
    }
    let j = |i: usize| serde_json::from_slice::<Value>(&B::decode_vec(ps[i]).ok()?).ok();
    let (h, c) = (j(0)?, j(1)?);
    let (did, n) = h["kid"].as_str()?.split_once("#k")?;
    let good = B::decode_vec(ps[2]).ok()? == mac(&key(did, n.parse().ok()?), format!("{}.{}", ps[0], ps[1]).as_bytes());
    Some((h, c, good))
}

// ------------------------------------------------------------------ values
fn subject() -> CredentialSubject {
    let mut s = CredentialSubject { id: opt(text), ..CredentialSubject::default() };
    for _ in 0..rnd(3) {
        s.claims.insert(["a", "b", "é"][rnd(3)].into(), [json!(1), json!("x"), json!({"y": null})][rnd(3)].clone());
    }
    s
}
fn time() -> DateTime<Utc> {
    DateTime::from_timestamp(1_600_000_000 + rnd(400_000_000) as i64, 0).unwrap()
}
fn proof() -> Proof {
    Proof { id: opt(text), challenge: opt(text), proof_value: text(), ..Proof::default() }
}
fn credential() -> VerifiableCredential {
    let issuer = if one_in(3) { serde_json::from_value(json!({"id": text(), "name": "x"})).unwrap() } else { Kind::String(text()) };
    VerifiableCredential {
        context: (0..1 + rnd(2)).map(|_| Kind::String(text())).collect(),
        id: opt(text),
        type_: if one_in(2) { Quota::Many((0..rnd(3)).map(|_| text()).collect()) } else { Quota::One(text()) },
        issuer,
        credential_subject: if one_in(2) { Quota::One(subject()) } else { Quota::Many((0..rnd(3)).map(|_| subject()).collect()) },
        valid_from: opt(time),
        valid_until: opt(time),
        name: opt(|| LangString::new_string(&text())),
        proof: opt(|| Quota::One(proof())),
        ..VerifiableCredential::default()
    }
}
fn presentation() -> VerifiablePresentation {
    VerifiablePresentation {
        context: (0..1 + rnd(2)).map(|_| Kind::String(text())).collect(),
        id: opt(text),
        type_: if one_in(2) { Quota::Many((0..2 + rnd(3)).map(|_| text()).collect()) } else { Quota::One(text()) },
        verifiable_credential: opt(|| (0..rnd(3)).map(|_| if one_in(2) { Kind::String(text()) } else { Kind::String("a.b.c".into()) }).collect()),
        holder: opt(text),
        proof: opt(|| if one_in(3) { Quota::Many((0..1 + rnd(2)).map(|_| proof()).collect()) } else { Quota::One(proof()) }),
    }
}

// ------------------------------------------------------------------ W01
fn w01(r: &mut Report) {
    let did = ["did:key:zA", "did:key:zB"][rnd(2)].to_string();
    let k = Key { did: did.clone(), n: rnd(3), fails: one_in(12) };
    let (kid, kb, fails) = (k.verification_method(), key(&did, k.n), k.fails);
    let fmt = [W3cFormat::JwtVcJson, W3cFormat::JwtVcJsonLd, W3cFormat::DataIntegrityJsonLd][rnd(3)].then();
    let jwt = fmt != W3cFormat::DataIntegrityJsonLd;
    let t0 = Utc::now().timestamp();
    if one_in(2) {
        let (vc, at) = (credential(), rnd(2_000_000_000) as i64 - 1000);
        let Some(res) = call(|| block_on(create(fmt, Payload::Vc { vc: vc.clone(), issued_at: at }, k))) else {
            r.check("W01", false, || format!("create panics on {}", json!(vc)));
            return;
        };
        r.check("W01", res.is_ok() == (jwt && !fails), || format!("create: {res:?} for {}", json!(vc)));
        let Ok(t) = res else { return };
        let Some((h, c, good)) = claims_of(&t) else {
            r.check("W01", false, || format!("no token: {t}"));
            return;
        };
        let subs: Vec<CredentialSubject> = match &vc.credential_subject { Quota::One(s) => vec![s.clone()], Quota::Many(s) => s.clone() };
        let iss = match &vc.issuer { Kind::String(s) => s.clone(), Kind::Object(i) => i.id.clone() };
        r.check("W01", good && h["typ"] == "vc+jwt" && h["kid"] == json!(kid), || format!("header {h}, signature good: {good}"));
        r.check("W01", c["vc"] == json!(vc) && c["iss"] == json!(iss) && c["iat"] == json!(at) && c["jti"] == json!(vc.id.clone().unwrap_or_default())
            && c["sub"] == json!(subs.first().and_then(|s| s.id.clone()).unwrap_or_default()) && c.get("exp").cloned() == vc.valid_until.map(|t| json!(t.timestamp())),
            || format!("claims {c} of credential {}", json!(vc)));
        check_vc(r, &vc, at, &t, true);
        // another key under this id, a changed claim, another type
        check_vc(r, &vc, at, &token("vc+jwt", &kid, &key(&did, 7), &c), false);
        check_vc(r, &vc, at, &token("vc+jwt", "did:key:zC#k0", &kb, &c), false);
        check_vc(r, &vc, at, &token("vc+jwt", &format!("{did}#k9"), &kb, &c), false);
        let mut c2 = c.clone();
        c2["vc"]["id"] = json!("changed");
        let (p, s) = t.rsplit_once('.').unwrap();
        let h1 = p.split('.').next().unwrap();
        check_vc(r, &vc, at, &format!("{h1}.{}.{s}", B::encode_string(c2.to_string().as_bytes())), false);
        let obj = block_on(verify(Verify::Vc(&Kind::Object(vc.clone())), &Dids));
        r.check("W01", obj.is_err(), || format!("unsigned credential verified: {}", json!(vc)));
    } else {
        let (vp, aud, nonce) = (presentation(), text(), text());
        let Some(res) = call(|| block_on(create(fmt, Payload::Vp { vp: vp.clone(), client_id: aud.clone(), nonce: nonce.clone() }, k))) else {
            r.check("W01", false, || format!("create panics on {}", json!(vp)));
            return;
        };
        r.check("W01", res.is_ok() == (jwt && !fails), || format!("create: {res:?} for {}", json!(vp)));
        let obj = block_on(verify(Verify::Vp(&Kind::Object(vp.clone())), &Dids));
        let want = match &vp.proof { Some(Quota::One(p)) => Some(p.challenge.clone().unwrap_or_default()), _ => None };
        r.check("W01", match (&obj, &want) {
            (Ok(Payload::Vp { vp: v, client_id, nonce }), Some(w)) => *v == vp && client_id.is_empty() && nonce == w,
            (Err(_), None) => true,
            _ => false,
        }, || format!("embedded proof: {} gives {}", json!(vp), obj.is_ok()));
        let Ok(t) = res else { return };
        let Some((h, c, good)) = claims_of(&t) else {
            r.check("W01", false, || format!("no token: {t}"));
            return;
        };
        let now = Utc::now().timestamp();
        let near = |v: &Value, d: i64| v.as_i64().is_some_and(|x| t0 + d <= x && x <= now + d);
        r.check("W01", good && h["typ"] == "vp+jwt" && h["kid"] == json!(kid), || format!("header {h}, signature good: {good}"));
        r.check("W01", c["vp"] == json!(vp) && c["iss"] == json!(vp.holder.clone().unwrap_or_default()) && c["jti"] == json!(vp.id.clone().unwrap_or_default())
            && c["aud"] == json!(aud) && c["nonce"] == json!(nonce) && near(&c["iat"], 0) && near(&c["nbf"], 0) && near(&c["exp"], 3600),
            || format!("claims {c} of presentation {}", json!(vp)));
        check_vp(r, &vp, &aud, &nonce, &t, true);
        check_vp(r, &vp, &aud, &nonce, &token("vp+jwt", &kid, &key(&did, 7), &c), false);
        check_vp(r, &vp, &aud, &nonce, &token("vp+jwt", "did:web:zC#k0", &kb, &c), false);
        check_vp(r, &vp, &aud, &nonce, &format!("{t}A"), false);
        // a token made elsewhere
        let c = json!({"iss": "i", "jti": "j", "aud": nonce, "nonce": aud, "nbf": 1, "iat": 2, "exp": 3, "vp": vp});
        check_vp(r, &vp, &nonce, &aud, &token("vp+jwt", &kid, &kb, &c), true);
    }
}
trait Then {
    fn then(&self) -> W3cFormat;
}
impl Then for W3cFormat {
    fn then(&self) -> W3cFormat {
        serde_json::from_value(json!(self)).unwrap()
    }
}
fn check_vc(r: &mut Report, vc: &VerifiableCredential, at: i64, t: &str, good: bool) {
    let k = Kind::String(t.to_string());
    let res = call(|| block_on(verify(Verify::Vc(&k), &Dids)));
    let same = match &res {
        Some(Ok(Payload::Vc { vc: v, issued_at })) => json!(v) == json!(vc) && *issued_at == at,
        _ => false,
    };
    r.check("W01", if good { same } else { matches!(res, Some(Err(_))) }, || format!("verify of {t}: {:?}, expected {}", res.map(|x| json!(x.ok())), if good { json!(vc) } else { json!("an error") }));
}
fn check_vp(r: &mut Report, vp: &VerifiablePresentation, aud: &str, nonce: &str, t: &str, good: bool) {
    let k = Kind::String(t.to_string());
    let res = call(|| block_on(verify(Verify::Vp(&k), &Dids)));
    let same = match &res {
        Some(Ok(Payload::Vp { vp: v, client_id, nonce: n })) => json!(v) == json!(vp) && client_id == aud && n == nonce,
        _ => false,
    };
    r.check("W01", if good { same } else { matches!(res, Some(Err(_))) }, || format!("verify of {t}: {:?}, expected {}", res.map(|x| json!(x.ok())), if good { json!(vp) } else { json!("an error") }));
}

// ------------------------------------------------------------------ W02
fn w02(r: &mut Report) {
    // credential
    let mut b = VerifiableCredential::builder();
    let mut want = VerifiableCredential { context: vec![Kind::String("https://www.w3.org/2018/credentials/v1".into())], type_: Quota::One("VerifiableCredential".into()), ..VerifiableCredential::default() };
    let mut types = vec!["VerifiableCredential".to_string()];
    let mut subs: Vec<CredentialSubject> = vec![];
    let mut proofs: Vec<Proof> = vec![];
    let mut log = vec![];
    for _ in 0..rnd(9) {
        let k = rnd(9);
        log.push(k);
        b = match k {
            0 => { let c = Kind::String(text()); want.context.push(c.clone()); b.add_context(c) }
            1 => { let t = text(); want.id = Some(t.clone()); b.id(t) }
            2 | 8 => { let t = text(); types.push(t.clone()); b.add_type(t) }
            3 => { let t = text(); want.issuer = Kind::String(t.clone()); b.issuer(t) }
            4 => { let s = subject(); if subs.len() == 1 && subs[0] == CredentialSubject::default() { subs.clear() } subs.push(s.clone()); b.add_subject(s) }
            5 => { let p = proof(); proofs.push(p.clone()); b.add_proof(p) }
            6 => { let n = opt(|| LangString::new_string(&text())); want.name = n.clone(); b.add_name(n) }
            _ => { let s = opt(|| Quota::One(CredentialStatus { id: opt(text), ..CredentialStatus::default() })); want.credential_status = s.clone(); b.status(s) }
        };
    }
    if types.len() > 1 { want.type_ = Quota::Many(types.clone()) }
    want.credential_subject = match subs.len() { 0 => Quota::One(CredentialSubject::default()), 1 => Quota::One(subs[0].clone()), _ => Quota::Many(subs.clone()) };
    want.proof = match proofs.len() { 0 => None, 1 => Some(Quota::One(proofs[0].clone())), _ => Some(Quota::Many(proofs.clone())) };
    let complete = want.context.len() > 1 && types.len() > 1 && want.issuer != Kind::String(String::new()) && want.credential_subject != Quota::One(CredentialSubject::default());
    let got = call(|| b.build());
    r.check("W02", matches!((&got, complete), (Some(Ok(v)), true) if *v == want) || matches!((&got, complete), (Some(Err(_)), false)), || {
        format!("credential builder, steps {log:?}: got {:?}, expected {}", got.map(|g| json!(g.ok())), if complete { json!(want) } else { json!("an error") })
    });
    // presentation
    let mut b = VerifiablePresentation::builder();
    let mut want = VerifiablePresentation { context: vec![Kind::String("https://www.w3.org/2018/credentials/v1".into())], ..VerifiablePresentation::default() };
    let mut types = vec!["VerifiablePresentation".to_string()];
    for _ in 0..rnd(7) {
        b = match rnd(4) {
            0 => { let c = Kind::String(text()); want.context.push(c.clone()); b.add_context(c) }
            1 => { let t = text(); types.push(t.clone()); b.add_type(t) }
            2 => { let t = text(); want.holder = Some(t.clone()); b.holder(t) }
            _ => {
                let c = if one_in(2) { Kind::String(text()) } else { Kind::Object(credential()) };
                want.verifiable_credential.get_or_insert_with(Vec::new).push(c.clone());
                b.add_credential(c)
            }
        };
    }
    want.type_ = Quota::Many(types.clone());
    let complete = want.context.len() > 1 && types.len() > 1;
    let got = call(|| b.build());
    let good = match &got {
        Some(Ok(v)) => { want.id = v.id.clone(); complete && v.id.as_ref().is_some_and(|i| i.starts_with("urn:uuid:") && i.len() > 20) && *v == want }
        Some(Err(_)) => !complete,
        None => false,
    };
    r.check("W02", good, || format!("presentation builder: got {:?}, expected {}", got.map(|g| json!(g.ok())), if complete { json!(want) } else { json!("an error") }));
    // reading presentations
    let js = json!(want).to_string();
    for (t, good) in [(js.clone(), true), (B::encode_string(js.as_bytes()), true), (text(), false), ("{".into(), false), ("é".into(), false)] {
        let got = call(|| VerifiablePresentation::from_str(&t));
        r.check("W02", matches!((&got, good), (Some(Ok(v)), true) if *v == want) || matches!((&got, good), (Some(Err(_)), false)), || {
            format!("VerifiablePresentation::from_str({t:?}): {:?}", got.map(|g| g.is_ok()))
        });
    }
    // language strings
    let lv = || -> LangValue { serde_json::from_value(if one_in(3) { json!({"@value": text()}) } else { json!({"@value": text(), "@language": (["en", "fr", "de"][rnd(3)])}) }).unwrap() };
    let (mut s, plain, mut vals) = if one_in(3) {
        let t = text();
        (LangString::new_string(&t), Some(t.clone()), vec![serde_json::from_value::<LangValue>(json!({"@value": t})).unwrap()])
    } else {
        let v = lv();
        (LangString::new_object(v.clone()), None, vec![v])
    };
    let n = rnd(4);
    for _ in 0..n {
        let v = lv();
        s.add(v.clone());
        vals.push(v);
    }
    r.check("W02", s.len() == vals.len() && !s.is_empty(), || format!("length of {}", json!(s)));
    for l in ["en", "fr", "xx"] {
        let want = match &plain { Some(t) if n == 0 => Some(t.clone()), _ => vals.iter().find(|v| v.language.as_deref() == Some(l)).map(|v| v.value.clone()) };
        let got = call(|| s.value(l).ok());
        r.check("W02", got == Some(want.clone()), || format!("{} in {l}: {got:?}, expected {want:?}", json!(s)));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    fastrand::seed(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1));
    let scale: usize = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Report { prop: a[1].clone(), fails: 0, n: 0 };
    let _ = TimeDelta::zero();
    for _ in 0..4000 * scale {
        match a[1].as_str() {
            "W01" => w01(&mut r),
            _ => w02(&mut r),
        }
    }
    println!("STAT cases {}", r.n);
    if r.fails > 0 {
        std::process::exit(3);
    }
}
