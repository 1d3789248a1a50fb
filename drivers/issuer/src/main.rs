//! Replay driver for vercre-issuer: random histories of the issuance protocol through the public endpoints, against an
//! independent model of what each endpoint may grant.  usage: driver PROPERTY SEED SCALE
mod world;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

use base64ct::{Base64UrlUnpadded as B, Encoding};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use vercre_core::Kind;
use vercre_infosec::jose::jws::mac;
use vercre_issuer::*;
use vercre_openid::issuer::{ClientAssertion, MultipleProofs, NotificationEvent, NotificationRequest, RequestUri};
use vercre_openid::Error;
use world::*;

const AUTHORIZED: i64 = 300;
const ACCESS: i64 = 900;
const NONCE: i64 = 600;
const PAR: i64 = 600;

struct Report {
    prop: String,
    fails: usize,
    n: usize,
    bad: bool, // this history has left the model
    out: Vec<String>,
}
impl Report {
    fn check(&mut self, props: &str, good: bool, what: impl FnOnce() -> String) -> bool {
        let mine = props.split(' ').any(|p| p == self.prop);
        if mine {
            self.n += 1;
        }
        if !good {
            self.bad = true;
            if mine {
                self.fails += 1;
                if self.fails <= 5 {
                    self.out.push(format!("FAIL {}", what()));
                }
            }
        }
        good
    }
}

#[derive(Clone, Debug)]
struct Item {
    detail: Option<AuthorizationDetail>,
    config: String,
    ids: Vec<String>,
}
#[derive(Clone, Debug)]
struct Grant {
    pre: bool,
    subject: Option<String>,
    tx_code: Option<String>,
    client: String,
    redirect: Option<String>,
    challenge: String,
    items: Option<Vec<Item>>,
    t: i64,
}
#[derive(Clone, Debug)]
struct Tok {
    subject: Option<String>,
    creds: BTreeMap<String, String>,
    nonce: String,
    nonce_t: i64,
    t: i64,
}
#[derive(Default)]
struct Model {
    now: i64,
    grants: HashMap<String, Grant>, // by code (offers: also the issuer state)
    pending: HashMap<String, (CredentialOffer, i64)>,
    pars: HashMap<String, (RequestObject, i64)>,
    tokens: HashMap<String, Tok>,
    deferred: HashMap<String, (CredentialRequest, i64)>,
    old_nonces: Vec<String>,
    used: Vec<String>,
    notes: Vec<String>,
    log: Vec<String>,
}
impl Model {
    fn fresh(&self, t: i64, life: i64) -> Option<bool> {
        let age = self.now - t;
        if (age - life).abs() < 5 { None } else { Some(age < life) }
    }
}

fn call<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn conf_of(w: &World, c: &CredentialAuthorization) -> Option<(String, Option<Claims>)> {
    match c {
        CredentialAuthorization::ConfigurationId { credential_configuration_id, claims } => Some((
            credential_configuration_id.clone(),
            claims.as_ref().and_then(|p| match p {
                ProfileClaims::W3c(d) => d.credential_subject.clone(),
                ProfileClaims::IsoMdl(c) | ProfileClaims::SdJwt(c) => Some(c.clone()),
            }),
        )),
        CredentialAuthorization::Format(f) => Some((config_of_format(w, f)?, format_claims(f))),
    }
}
fn same_kind(a: &Format, b: &Format) -> bool {
    match (a, b) {
        (Format::JwtVcJson(x), Format::JwtVcJson(y)) | (Format::LdpVc(x), Format::LdpVc(y)) | (Format::JwtVcJsonLd(x), Format::JwtVcJsonLd(y)) => {
            x.credential_definition.type_ == y.credential_definition.type_
        }
        (Format::IsoMdl(x), Format::IsoMdl(y)) => x.doctype == y.doctype,
        (Format::VcSdJwt(x), Format::VcSdJwt(y)) => x.vct == y.vct,
        _ => false,
    }
}
fn same_cred(a: &CredentialAuthorization, b: &CredentialAuthorization) -> bool {
    use CredentialAuthorization as C;
    match (a, b) {
        (C::ConfigurationId { credential_configuration_id: x, .. }, C::ConfigurationId { credential_configuration_id: y, .. }) => x == y,
        (C::Format(x), C::Format(y)) => same_kind(x, y),
        _ => false,
    }
}
fn config_of_format(w: &World, f: &Format) -> Option<String> {
    w.issuer.credential_configurations_supported.iter().find(|(_, c)| same_kind(&c.format, f)).map(|(k, _)| k.clone())
}
fn format_claims(f: &Format) -> Option<Claims> {
    match f {
        Format::JwtVcJson(p) | Format::LdpVc(p) | Format::JwtVcJsonLd(p) => p.credential_definition.credential_subject.clone(),
        Format::IsoMdl(p) => p.claims.clone(),
        Format::VcSdJwt(p) => p.claims.clone(),
    }
}
fn claims_fit(w: &World, config: &str, claims: &Option<Claims>) -> bool {
    let Some(c) = w.issuer.credential_configurations_supported.get(config) else { return false };
    match (claims, format_claims(&c.format)) {
        (Some(r), Some(s)) => supported(r, &s) && complete(r, &s),
        _ => true,
    }
}

/// a string that is almost the given one
fn near(s: &str) -> String {
    match rnd(5) {
        0 => format!("{s}x"),
        1 => s[..s.len().saturating_sub(1)].to_string(),
        2 => s.to_uppercase(),
        3 => format!("x{s}"),
        _ => format!("{s}/"),
    }
}
/// now and then not quite the string
fn mostly(s: String) -> String {
    if one_in(12) { near(&s) } else { s }
}
fn assertion() -> Option<ClientAssertion> {
    if one_in(4) { Some(ClientAssertion::JwtBearer { client_assertion: "a.b.c".into() }) } else { None }
}
fn config_id() -> String {
    if one_in(12) { "cfg9".to_string() } else if one_in(20) { near(&format!("cfg{}", rnd(4))) } else { format!("cfg{}", rnd(4)) }
}

fn detail(w: &World) -> AuthorizationDetail {
    let id = config_id();
    let cfg = w.issuer.credential_configurations_supported.get(&id);
    let sup = cfg.and_then(|c| format_claims(&c.format));
    let credential = if let (Some(c), true) = (cfg, one_in(3)) {
        let mut f = c.format.clone();
        let cl = match rnd(3) {
            0 => None,
            1 => sup.clone(),
            _ => sup.as_ref().map(derive),
        };
        match &mut f {
            Format::JwtVcJson(p) => p.credential_definition.credential_subject = cl,
            Format::IsoMdl(p) => p.claims = cl,
            _ => {}
        }
        if one_in(12) {
            if let Format::JwtVcJson(p) = &mut f {
                p.credential_definition.type_ = Some(vec!["Other".into()]);
            }
        }
        CredentialAuthorization::Format(f)
    } else {
        let cl = match rnd(3) {
            0 => None,
            1 => sup.clone(),
            _ => sup.as_ref().map(derive),
        };
        let claims = cl.map(|c| ProfileClaims::W3c(CredentialDefinition { credential_subject: Some(c), ..CredentialDefinition::default() }));
        CredentialAuthorization::ConfigurationId { credential_configuration_id: id, claims }
    };
    AuthorizationDetail { type_: AuthorizationDetailType::OpenIdCredential, credential, locations: None }
}

// ------------------------------------------------------------------ offers
fn offer(w: &World, m: &mut Model, r: &mut Report) {
    let mut gts = vec![];
    if !one_in(3) {
        gts.push(GrantType::PreAuthorizedCode);
    }
    if one_in(2) {
        gts.push(GrantType::AuthorizationCode);
    }
    let grant_types = if one_in(10) { None } else { Some(gts.clone()) };
    let gts = grant_types.clone().unwrap_or_default();
    let ids: Vec<String> = (0..if one_in(15) { 0 } else { 1 + rnd(4) }).map(|_| config_id()).collect();
    let req = CreateOfferRequest {
        credential_issuer: if one_in(30) { near(ISSUER) } else { ISSUER.into() },
        subject_id: if one_in(10) { None } else { Some(pick(&["alice".to_string(), "bob".to_string()])) },
        credential_configuration_ids: ids.clone(),
        grant_types: grant_types.clone(),
        tx_code_required: one_in(2),
        send_type: if one_in(3) { SendType::ByRef } else { SendType::ByVal },
    };
    let pre = gts.contains(&GrantType::PreAuthorizedCode);
    let auth = gts.contains(&GrantType::AuthorizationCode);
    let sup = &w.issuer.credential_configurations_supported;
    let granted = match (&grant_types, &w.server.oauth.grant_types_supported) {
        (Some(g), Some(s)) => g.iter().all(|x| s.contains(x)),
        _ => true,
    };
    let items: Option<Vec<Item>> = req.credential_configuration_ids.iter().map(|c| {
        let ids = w.authorize_ids(req.subject_id.as_deref().unwrap_or_default(), c)?;
        Some(Item {
            detail: Some(AuthorizationDetail { type_: AuthorizationDetailType::OpenIdCredential,
                credential: CredentialAuthorization::ConfigurationId { credential_configuration_id: c.clone(), claims: None }, locations: None }),
            config: c.clone(), ids,
        })
    }).collect();
    let want = req.credential_issuer == ISSUER && !ids.is_empty() && ids.iter().all(|c| sup.contains_key(c)) && granted
        && !(pre && req.subject_id.is_none()) && !(pre && items.is_none());
    m.log.push(format!("create_offer {}", json!(req)));
    let before: BTreeSet<String> = w.inner.lock().unwrap().store.keys().cloned().collect();
    let Some(res) = call(|| block_on(create_offer(w.clone(), req.clone()))) else {
        r.check("I09", false, || format!("create_offer panics: {}", m.log.join(" ; ")));
        return;
    };
    if !r.check("I09", res.is_ok() == want, || format!("create_offer: expected {}, got {res:?}; {}", if want { "an offer" } else { "a refusal" }, m.log.join(" ; "))) {
        return;
    }
    let Ok(resp) = res else {
        let after: BTreeSet<String> = w.inner.lock().unwrap().store.keys().cloned().collect();
        r.check("I09", before == after, || format!("refused offer leaves state behind: {}", m.log.join(" ; ")));
        return;
    };
    let want_tx = req.tx_code_required && pre;
    r.check("I09", resp.tx_code.is_some() == want_tx, || format!("create_offer: tx_code {:?}; {}", resp.tx_code, m.log.join(" ; ")));
    let offer = match (&resp.offer_type, &req.send_type) {
        (OfferType::Object(o), SendType::ByVal) => o.clone(),
        (OfferType::Uri(u), SendType::ByRef) => {
            let pfx = format!("{ISSUER}/credential_offer/");
            let Some(id) = u.strip_prefix(&pfx) else {
                r.check("I09", false, || format!("offer uri {u}"));
                return;
            };
            // who asks for another issuer's offer gets nothing, and it is gone
            if one_in(6) {
                let bad = block_on(credential_offer(w.clone(), CredentialOfferRequest { credential_issuer: near(ISSUER), id: id.into() }));
                r.check("I09", bad.is_err(), || "offer handed out under another issuer's name".into());
                let again = block_on(credential_offer(w.clone(), CredentialOfferRequest { credential_issuer: ISSUER.into(), id: id.into() }));
                r.check("I09", again.is_err(), || "offer retrievable after an attempt to retrieve it".into());
                return;
            }
            if one_in(8) {
                w.advance(AUTHORIZED + 20);
                m.now += AUTHORIZED + 20;
                let late = block_on(credential_offer(w.clone(), CredentialOfferRequest { credential_issuer: ISSUER.into(), id: id.into() }));
                r.check("I09", late.is_err(), || "expired offer handed out".into());
                return;
            }
            if one_in(4) {
                w.advance(AUTHORIZED - 20);
                m.now += AUTHORIZED - 20;
            }
            let t0 = if m.now > 0 { m.now } else { 0 };
            let _ = t0;
            let got = block_on(credential_offer(w.clone(), CredentialOfferRequest { credential_issuer: ISSUER.into(), id: id.into() }));
            let Ok(got) = got else {
                r.check("I09", false, || format!("offer cannot be retrieved: {got:?}; {}", m.log.join(" ; ")));
                return;
            };
            let again = block_on(credential_offer(w.clone(), CredentialOfferRequest { credential_issuer: ISSUER.into(), id: id.into() }));
            r.check("I09", again.is_err(), || format!("offer retrieved twice: {}", m.log.join(" ; ")));
            got.credential_offer
        }
        _ => {
            r.check("I09", false, || format!("offer sent the wrong way: {resp:?}"));
            return;
        }
    };
    r.check("I09", offer.credential_issuer == ISSUER && offer.credential_configuration_ids == ids, || format!("offer differs from the request: {offer:?}; {}", m.log.join(" ; ")));
    let g = offer.grants.clone().unwrap_or_default();
    r.check("I09", g.pre_authorized_code.is_some() == pre && g.authorization_code.is_some() == auth && offer.grants.is_some() == (pre || auth), || {
        format!("grants of the offer: {g:?}; {}", m.log.join(" ; "))
    });
    if let Some(p) = &g.pre_authorized_code {
        r.check("I09", p.tx_code.is_some() == want_tx, || format!("offer announces tx_code {:?}; {}", p.tx_code, m.log.join(" ; ")));
    }
    let mut keys: BTreeSet<String> = BTreeSet::new();
    if let Some(p) = &g.pre_authorized_code {
        keys.insert(p.pre_authorized_code.clone());
    }
    if let Some(Some(s)) = g.authorization_code.as_ref().map(|a| a.issuer_state.clone()) {
        keys.insert(s);
    }
    r.check("I09", keys.len() == usize::from(pre || auth), || format!("codes of the offer: {keys:?}"));
    let t = if matches!(req.send_type, SendType::ByRef) { offer_time(w, &keys, m.now) } else { m.now };
    for k in keys {
        m.grants.insert(k, Grant { pre: true, subject: req.subject_id.clone(), tx_code: resp.tx_code.clone(), client: String::new(), redirect: None,
            challenge: String::new(), items: if pre { items.clone() } else { None }, t });
    }
}
/// creation time of the offer state, from its expiry as seen by the store
fn offer_time(w: &World, keys: &BTreeSet<String>, now: i64) -> i64 {
    let i = w.inner.lock().unwrap();
    keys.iter().next().and_then(|k| i.expiry.get(k)).map_or(now, |e| now + (*e - chrono::Utc::now()).num_seconds() + 1 - AUTHORIZED)
}

// ------------------------------------------------------------------ authorization
const VERIFIER: &str = "verifier-verifier-verifier-verifier-verifier-1";
fn challenge() -> String {
    B::encode_string(&Sha256::digest(VERIFIER.as_bytes()))
}

fn request_object(w: &World, m: &Model) -> RequestObject {
    let client = if one_in(30) { "nobody".to_string() } else if one_in(30) { near(&format!("client{}", rnd(3))) } else { format!("client{}", rnd(3)) };
    let mut q = RequestObject {
        credential_issuer: if one_in(30) { near(ISSUER) } else { ISSUER.into() },
        client_id: client.clone(),
        redirect_uri: match rnd(12) {
            0 => None,
            1 => Some(near(&pick(&["http://shared/", "http://cb0/", "http://cb1/", "http://cb2/"]))),
            2 => Some("http://cb1/".into()),
            3..=6 => Some("http://shared/".into()),
            _ => Some(format!("http://cb{}/", &client[client.len() - 1..])),
        },
        state: if one_in(2) { Some(format!("st{}", rnd(100))) } else { None },
        code_challenge: match rnd(14) {
            0 => "x".repeat(42),
            1 => "x".repeat(129),
            2 => "x".repeat(128),
            _ => challenge(),
        },
        subject_id: if one_in(20) { String::new() } else { pick(&["alice".to_string(), "bob".to_string()]) },
        ..RequestObject::default()
    };
    if one_in(30) {
        q.response_type = vercre_openid::oauth::ResponseType::VpToken;
    }
    if !one_in(3) {
        q.authorization_details = Some((0..1 + rnd(3)).map(|_| detail(w)).collect());
    }
    if !one_in(8) && (q.authorization_details.is_none() || one_in(4)) {
        q.scope = Some(pick(&["s0", "s1", "s2", "s0 s1", "s1  s2", "s2 s1 s0", "s9", "s0 s9", "s9 s0", "S0", "s", "s00", ""]).to_string());
    }
    if one_in(3) {
        let mut ks: Vec<_> = m.grants.iter().filter(|(_, g)| g.pre).map(|(k, _)| k.clone()).collect();
        ks.sort();
        ks.extend(m.used.iter().cloned().take(2));
        if !ks.is_empty() {
            let k = pick(&ks);
            if let (Some(g), true) = (m.grants.get(&k), !one_in(3)) {
                q.subject_id = g.subject.clone().unwrap_or_default();
            }
            q.issuer_state = Some(k);
        } else if one_in(3) {
            q.issuer_state = Some("unknown".into());
        }
    }
    q
}

/// None: too close to an expiry to say
fn may_authorize(w: &World, m: &Model, q: &RequestObject, par: bool) -> Option<Result<Vec<Item>, String>> {
    macro_rules! need { ($c:expr, $w:expr) => { if !$c { return Some(Err($w.to_string())); } } }
    need!(q.credential_issuer == ISSUER, "issuer");
    let Some(c) = w.clients.get(&q.client_id) else { return Some(Err("client".into())) };
    let s = &w.server.oauth;
    need!(s.require_pushed_authorization_requests != Some(true) || par, "must be pushed");
    need!(s.response_types_supported.contains(&q.response_type), "server response type");
    need!(c.oauth.response_types.clone().unwrap_or_default().contains(&q.response_type), "client response type");
    let (Some(cs), Some(ss)) = (&c.oauth.scope, &s.scopes_supported) else { return Some(Err("scopes".into())) };
    need!(cs.split(' ').filter(|x| !x.is_empty()).all(|x| ss.iter().any(|y| y == x)), "client scope");
    need!(c.oauth.grant_types.clone().unwrap_or_default().contains(&GrantType::AuthorizationCode), "client grant");
    need!(s.grant_types_supported.clone().unwrap_or_default().contains(&GrantType::AuthorizationCode), "server grant");
    need!(!q.subject_id.is_empty(), "subject");
    if let Some(k) = &q.issuer_state {
        let Some(g) = m.grants.get(k) else { return Some(Err("issuer state".into())) };
        need!(m.fresh(g.t, AUTHORIZED)?, "issuer state expired");
        need!(g.subject.as_ref() == Some(&q.subject_id), "issuer state subject");
    }
    need!(q.authorization_details.is_some() || q.scope.is_some(), "nothing requested");
    let mut dets: BTreeMap<String, AuthorizationDetail> = BTreeMap::new();
    for d in q.authorization_details.iter().flatten() {
        let Some((cfg, cl)) = conf_of(w, &d.credential) else { return Some(Err("configuration".into())) };
        need!(w.issuer.credential_configurations_supported.contains_key(&cfg), "configuration");
        need!(claims_fit(w, &cfg, &cl), "claims");
        dets.insert(cfg, d.clone());
    }
    let mut scopes = BTreeSet::new();
    for s in q.scope.iter().flat_map(|s| s.split(' ')).filter(|s| !s.is_empty()) {
        let cs: Vec<_> = w.issuer.credential_configurations_supported.iter().filter(|(k, c)| c.scope.as_deref() == Some(s) && !dets.contains_key(*k)).map(|(k, _)| k.clone()).collect();
        need!(!cs.is_empty(), "scope");
        scopes.extend(cs);
    }
    let Some(u) = &q.redirect_uri else { return Some(Err("redirect".into())) };
    need!(c.oauth.redirect_uris.iter().flatten().any(|x| x == u), "redirect");
    need!(s.code_challenge_methods_supported.iter().flatten().any(|x| *x == q.code_challenge_method), "method");
    need!((43..=128).contains(&q.code_challenge.len()), "challenge");
    let mut items = vec![];
    for (cfg, d) in dets {
        let Some(ids) = w.authorize_ids(&q.subject_id, &cfg) else { return Some(Err("holder".into())) };
        items.push(Item { detail: Some(d), config: cfg, ids });
    }
    for cfg in scopes {
        let Some(ids) = w.authorize_ids(&q.subject_id, &cfg) else { return Some(Err("holder".into())) };
        items.push(Item { detail: None, config: cfg, ids });
    }
    need!(!items.is_empty(), "holder");
    Some(Ok(items))
}
/// refused before the holder's rights are looked at?
fn verified(r: &Result<Vec<Item>, String>) -> bool {
    !matches!(r, Err(e) if e != "holder")
}

fn do_par(w: &World, m: &mut Model, r: &mut Report) {
    let q = request_object(w, m);
    let Some(want) = may_authorize(w, m, &q, true) else { return };
    m.log.push(format!("par {}", json!(q)));
    let Some(res) = call(|| block_on(par(w.clone(), PushedAuthorizationRequest { request: q.clone(), client_assertion: assertion() }))) else {
        r.check("I08", false, || format!("par panics: {}", m.log.join(" ; ")));
        return;
    };
    if !r.check("I08 I07", res.is_ok() == verified(&want), || format!("par: expected {want:?}, got {res:?}; {}", m.log.join(" ; "))) {
        return;
    }
    if let Ok(p) = res {
        r.check("I08", p.request_uri.starts_with("urn:ietf:params:oauth:request_uri:") && p.expires_in == PAR && !m.pars.contains_key(&p.request_uri), || {
            format!("par response {p:?}")
        });
        m.pars.insert(p.request_uri, (q, m.now));
    }
}

fn do_authorize(w: &World, m: &mut Model, r: &mut Report) {
    let uris: Vec<String> = m.pars.keys().cloned().collect();
    let (req, q, is_par, live) = if !uris.is_empty() && one_in(2) {
        let u = pick(&uris);
        let (q, t) = m.pars[&u].clone();
        let Some(live) = m.fresh(t, PAR) else { return };
        (AuthorizationRequest::Uri(RequestUri { request_uri: u }), q, true, live)
    } else if one_in(25) {
        (AuthorizationRequest::Uri(RequestUri { request_uri: "urn:ietf:params:oauth:request_uri:nope".into() }), RequestObject::default(), true, false)
    } else {
        let q = request_object(w, m);
        (AuthorizationRequest::Object(q.clone()), q, false, true)
    };
    let want = if live { may_authorize(w, m, &q, is_par) } else { Some(Err("request_uri".into())) };
    let Some(want) = want else { return };
    m.log.push(format!("authorize {}", json!(req)));
    let Some(res) = call(|| block_on(authorize(w.clone(), req.clone()))) else {
        r.check("I07", false, || format!("authorize panics: {}", m.log.join(" ; ")));
        return;
    };
    if !r.check(if is_par { "I08" } else { "I07" }, res.is_ok() == want.is_ok(), || format!("authorize: expected {want:?}, got {res:?}; {}", m.log.join(" ; "))) {
        return;
    }
    let (Ok(a), Ok(items)) = (res, want) else { return };
    r.check("I07", Some(&a.redirect_uri) == q.redirect_uri.as_ref() && a.state == q.state, || format!("authorization response {a:?} to {q:?}"));
    r.check("I07", !m.grants.contains_key(&a.code), || "authorization code used before".into());
    if let Some(k) = &q.issuer_state {
        m.grants.remove(k);
        m.used.push(k.clone());
        r.check("I07", !w.inner.lock().unwrap().store.contains_key(k), || format!("offer still open after authorization: {}", m.log.join(" ; ")));
    }
    m.grants.insert(a.code, Grant { pre: false, subject: Some(q.subject_id.clone()), tx_code: None, client: q.client_id.clone(), redirect: q.redirect_uri.clone(),
        challenge: q.code_challenge.clone(), items: Some(items), t: m.now });
}

// ------------------------------------------------------------------ token
fn do_token(w: &World, m: &mut Model, r: &mut Report) {
    let mut codes: Vec<String> = m.grants.keys().cloned().collect();
    codes.sort();
    if codes.is_empty() || one_in(10) {
        codes.extend(m.used.iter().cloned());
        codes.push("nope".into());
    }
    let code = if one_in(20) { near(&pick(&codes)) } else { pick(&codes) };
    let g = m.grants.get(&code).cloned();
    let kind_pre = g.as_ref().map_or(one_in(2), |g| g.pre) ^ one_in(15);
    let client_id = match (&g, rnd(10)) {
        (_, 0) => None,
        (None, 1) => Some("nobody".to_string()),
        (Some(g), 1) => Some(near(if g.client.is_empty() { "client1" } else { &g.client })),
        (Some(g), 2..=8) if !g.client.is_empty() => Some(g.client.clone()),
        (Some(g), 4..=6) if g.client.is_empty() => None,
        _ => Some(format!("client{}", rnd(3))),
    };
    let grant_type = if kind_pre {
        let tx = g.as_ref().and_then(|g| g.tx_code.clone());
        let tx_code = match rnd(10) {
            0 => None,
            1 => Some("000000".into()),
            2 => tx.as_deref().map(near),
            3 => Some(String::new()),
            _ => tx,
        };
        TokenGrantType::PreAuthorizedCode { pre_authorized_code: code.clone(), tx_code }
    } else {
        let red = g.as_ref().and_then(|g| g.redirect.clone());
        TokenGrantType::AuthorizationCode {
            code: code.clone(),
            redirect_uri: match rnd(10) {
                0 => None,
                1 => Some(near(&pick(&["http://shared/".to_string(), red.clone().unwrap_or_default()]))),
                2 => Some("http://shared/".into()),
                _ => red,
            },
            code_verifier: match rnd(10) {
                0 => None,
                1 => Some("wrong".into()),
                2 => Some(challenge()),
                3 => Some(near(VERIFIER)),
                _ => Some(VERIFIER.into()),
            },
        }
    };
    let authorization_details = if one_in(2) {
        let mut ds: Vec<AuthorizationDetail> = g.iter().flat_map(|g| g.items.iter().flatten()).filter_map(|i| i.detail.clone()).filter(|_| !one_in(3)).collect();
        if one_in(5) {
            ds.push(detail(w));
        }
        for d in &mut ds {
            if let (true, CredentialAuthorization::ConfigurationId { credential_configuration_id: c, claims }) = (one_in(4), &mut d.credential) {
                let sup = w.issuer.credential_configurations_supported.get(c).and_then(|c| format_claims(&c.format));
                *claims = sup.map(|s| ProfileClaims::W3c(CredentialDefinition { credential_subject: Some(derive(&s)), ..CredentialDefinition::default() }));
            }
        }
        Some(ds)
    } else {
        None
    };
    let req = TokenRequest {
        credential_issuer: if one_in(30) { near(ISSUER) } else { ISSUER.into() },
        client_id, grant_type, authorization_details, client_assertion: assertion(),
    };
    let ctx = |m: &Model| m.log.join(" ; ");
    let mut why = String::new();
    // may this request be granted at all?
    let mut allowed = true;
    let mut items = vec![];
    let mut scope_reason = false;
    'v: {
        macro_rules! need { ($c:expr, $w:expr) => { if !$c { allowed = false; why = $w.into(); break 'v; } } }
        need!(g.is_some(), "unknown code");
        let g = g.as_ref().unwrap();
        let Some(f) = m.fresh(g.t, AUTHORIZED) else { return };
        need!(f, "expired");
        need!(req.credential_issuer == ISSUER, "issuer");
        let Some(grants) = &w.server.oauth.grant_types_supported else { need!(false, "no grants"); break 'v };
        match &req.grant_type {
            TokenGrantType::PreAuthorizedCode { tx_code, .. } => {
                need!(g.pre, "wrong kind of code");
                need!(grants.contains(&GrantType::PreAuthorizedCode), "grant type");
                need!(req.client_id.is_some() || w.server.pre_authorized_grant_anonymous_access_supported, "anonymous");
                need!(*tx_code == g.tx_code, "tx_code");
            }
            TokenGrantType::AuthorizationCode { redirect_uri, code_verifier, .. } => {
                need!(!g.pre, "wrong kind of code");
                need!(grants.contains(&GrantType::AuthorizationCode), "grant type");
                need!(req.client_id.as_ref() == Some(&g.client), "client_id");
                need!(*redirect_uri == g.redirect, "redirect_uri");
                need!(code_verifier.as_ref().is_some_and(|v| B::encode_string(&Sha256::digest(v.as_bytes())) == g.challenge), "verifier");
            }
        }
        if let Some(c) = &req.client_id {
            let Some(c) = w.clients.get(c) else { need!(false, "unknown client"); break 'v };
            let (Some(cs), Some(ss)) = (&c.oauth.scope, &w.server.oauth.scopes_supported) else { need!(false, "scopes"); break 'v };
            need!(cs.split(' ').filter(|x| !x.is_empty()).all(|x| ss.iter().any(|y| y == x)), "client scope");
        }
        scope_reason = true;
        need!(g.items.is_some(), "nothing authorized");
        let all = g.items.as_ref().unwrap();
        match &req.authorization_details {
            None => items = all.clone(),
            Some(ds) => {
                for d in ds {
                    let Some(i) = all.iter().find(|i| i.detail.as_ref().is_some_and(|x| same_cred(&x.credential, &d.credential))) else {
                        need!(false, "not authorized");
                        break 'v;
                    };
                    let Some((cfg, cl)) = conf_of(w, &d.credential) else { need!(false, "configuration"); break 'v };
                    need!(cl.is_none() || claims_fit(w, &cfg, &cl), "claims");
                    items.push(i.clone());
                }
            }
        }
    }
    m.log.push(format!("token {} [{}]", json!(req), if allowed { "grant" } else { why.as_str() }));
    let fail = if one_in(25) { 1 + rnd(2) } else { 0 };
    {
        let mut i = w.inner.lock().unwrap();
        i.fail_put = fail == 1;
        i.fail_purge = fail == 2;
    }
    let res = call(|| block_on(token(w.clone(), req.clone())));
    {
        let mut i = w.inner.lock().unwrap();
        i.fail_put = false;
        i.fail_purge = false;
    }
    let Some(res) = res else {
        r.check("I01 I03", false, || format!("token panics: {}", ctx(m)));
        return;
    };
    if fail == 2 && g.is_some() {
        r.check("I02", res.is_err(), || format!("token granted although its code cannot be withdrawn: {}", ctx(m)));
        return;
    }
    if fail == 1 && g.is_some() {
        r.check("I03", res.is_err(), || format!("token granted although it is not stored: {}", ctx(m)));
    } else {
        let lab = if why == "unknown code" { "I01 I02" } else if scope_reason { "I03" } else { "I01" };
        if !r.check(if allowed { "I01 I03" } else { lab }, res.is_ok() == allowed, || format!("token: expected {}, got {res:?}; {}", if allowed { "a token" } else { why.as_str() }, ctx(m))) {
            return;
        }
    }
    if g.is_some() {
        // the code is gone, whatever became of the request
        r.check("I02", !w.inner.lock().unwrap().store.contains_key(&code), || format!("code still usable after the token request: {}", ctx(m)));
        m.grants.remove(&code);
        m.used.push(code.clone());
    }
    let Ok(resp) = res else { return };
    let g = g.unwrap();
    let want: BTreeSet<String> = items.iter().filter_map(|i| i.detail.as_ref().map(|d| {
        let mut ids = i.ids.clone();
        ids.sort();
        json!([serde_json::to_value(d).unwrap(), ids]).to_string()
    })).collect();
    let got: BTreeSet<String> = resp.authorization_details.iter().flatten().map(|d| {
        let mut ids = d.credential_identifiers.clone();
        ids.sort();
        json!([serde_json::to_value(&d.authorization_detail).unwrap(), ids]).to_string()
    }).collect();
    r.check("I03", want == got, || format!("details granted: {got:?}, expected {want:?}; {}", ctx(m)));
    r.check("I03", resp.expires_in == ACCESS && resp.c_nonce_expires_in == Some(NONCE), || format!("lifetimes {resp:?}"));
    let Some(nonce) = resp.c_nonce.clone() else {
        r.check("I03", false, || "no c_nonce".into());
        return;
    };
    r.check("I03", !m.tokens.contains_key(&resp.access_token), || "token used before".into());
    {
        let i = w.inner.lock().unwrap();
        let left = i.expiry.get(&resp.access_token).map(|e| (*e - chrono::Utc::now()).num_seconds());
        r.check("I03", left.is_some_and(|l| (l - ACCESS).abs() <= 2), || format!("token is stored for {left:?} s: {}", ctx(m)));
    }
    let mut creds = BTreeMap::new();
    for i in &items {
        for id in &i.ids {
            creds.insert(id.clone(), i.config.clone());
        }
    }
    m.tokens.insert(resp.access_token, Tok { subject: g.subject, creds, nonce, nonce_t: m.now, t: m.now });
}

// ------------------------------------------------------------------ credential
#[derive(Clone, Copy, PartialEq, Debug)]
enum Flaw {
    None,
    Nonce,
    NoNonce,
    Typ,
    Sig,
    Key,
    Garbage,
    Jwk,
}
fn proof_jwt(did: &str, nonce: &str, old: Option<&String>, flaw: Flaw) -> String {
    let typ = if flaw == Flaw::Typ { "vp+jwt" } else { "openid4vci-proof+jwt" };
    let mut h = json!({"typ": typ, "alg": "EdDSA", "kid": format!("{did}#k")});
    if flaw == Flaw::Jwk {
        h = json!({"typ": typ, "alg": "EdDSA", "jwk": jwk(&holder_key(did))});
    }
    let mut c = json!({"iss": "client0", "aud": ISSUER, "iat": chrono::Utc::now().timestamp(), "nonce": nonce});
    match flaw {
        Flaw::Nonce => c["nonce"] = json!(old.map_or("other", |o| o.as_str())),
        Flaw::NoNonce => _ = c.as_object_mut().unwrap().remove("nonce"),
        Flaw::Garbage => return "abc.def".into(),
        _ => {}
    }
    let p = format!("{}.{}", B::encode_string(h.to_string().as_bytes()), B::encode_string(c.to_string().as_bytes()));
    let key = if flaw == Flaw::Key { holder_key("did:key:zOther") } else { holder_key(did) };
    let mut s = mac(&key, p.as_bytes());
    if flaw == Flaw::Sig {
        s[0] ^= 1;
    }
    format!("{p}.{}", B::encode_string(&s))
}
struct Want {
    issue: bool,
    why: String,
    bad_proof: bool,
    ids: Vec<String>, // identifiers that may be issued
    did: String,
}
/// what a credential request may get; None if too close to an expiry
fn may_issue(w: &World, m: &Model, req: &CredentialRequest) -> Option<Want> {
    let mut out = Want { issue: false, why: String::new(), bad_proof: false, ids: vec![], did: String::new() };
    macro_rules! need { ($c:expr, $w:expr) => { if !$c { out.why = $w.into(); return Some(out); } } }
    let Some(t) = m.tokens.get(&req.access_token) else { need!(false, "unknown token"); return None };
    need!(req.credential_issuer == ISSUER, "issuer");
    let cands: Vec<(String, String)> = match &req.credential {
        CredentialIssuance::Identifier { credential_identifier: i } => t.creds.get(i).map(|c| (i.clone(), c.clone())).into_iter().collect(),
        CredentialIssuance::Format(f) => {
            let cfg = config_of_format(w, f);
            t.creds.iter().filter(|(_, c)| Some(*c) == cfg.as_ref()).map(|(a, b)| (a.clone(), b.clone())).collect()
        }
    };
    need!(!cands.is_empty(), "not authorized");
    let Some(cfg) = w.issuer.credential_configurations_supported.get(&cands[0].1) else { need!(false, "configuration"); return None };
    need!(m.fresh(t.t, ACCESS)?, "token expired");
    need!(m.fresh(t.nonce_t, NONCE)?, "nonce expired");
    if let Some(types) = &cfg.proof_types_supported {
        let Some(p) = &req.proof else { out.bad_proof = true; need!(false, "no proof"); return None };
        need!(types.contains_key("jwt"), "proof type");
        let jwts: Vec<String> = match p {
            Proof::Single { proof_type: SingleProof::Jwt { jwt } } => vec![jwt.clone()],
            Proof::Multiple(MultipleProofs::Jwt(v)) => v.clone(),
        };
        if jwts.is_empty() {
            out.bad_proof = true;
            need!(false, "no proof");
        }
        for j in &jwts {
            let parts: Vec<&str> = j.split('.').collect();
            let dec = |i: usize| parts.get(i).and_then(|p| B::decode_vec(p).ok());
            let json_of = |i: usize| dec(i).and_then(|b| serde_json::from_slice::<Value>(&b).ok());
            let good = parts.len() == 3 && (|| {
                let (h, c) = (json_of(0)?, json_of(1)?);
                let kid = h["kid"].as_str()?;
                let (did, frag) = kid.split_once('#')?;
                if !did.starts_with("did:key:") || frag != "k" || h["typ"] != "openid4vci-proof+jwt" || c["nonce"] != json!(t.nonce) {
                    return None;
                }
                if mac(&holder_key(did), format!("{}.{}", parts[0], parts[1]).as_bytes()) != dec(2)? {
                    return None;
                }
                out.did = did.to_string();
                Some(())
            })().is_some();
            if !good {
                out.bad_proof = true;
                need!(false, "bad proof");
            }
        }
    }
    need!(t.subject.is_some(), "subject");
    out.ids = cands.into_iter().map(|x| x.0).collect();
    out.issue = true;
    Some(out)
}

fn credential_request(w: &World, m: &Model) -> Option<CredentialRequest> {
    let mut toks: Vec<String> = m.tokens.keys().cloned().collect();
    toks.sort();
    if one_in(20) {
        toks = vec!["nope".into(), toks.first().map_or(String::new(), |t| near(t))];
    }
    if toks.is_empty() {
        return None;
    }
    let tok = pick(&toks);
    let t = m.tokens.get(&tok);
    let ids: Vec<String> = t.map(|t| t.creds.keys().cloned().collect()).unwrap_or_default();
    let credential = if one_in(8) {
        CredentialIssuance::Identifier { credential_identifier: pick(&["alice-cfg0-0", "bob-cfg1-0", "alice-cfg2-1", "nope"]).into() }
    } else if !ids.is_empty() && one_in(20) {
        CredentialIssuance::Identifier { credential_identifier: near(&pick(&ids)) }
    } else if !ids.is_empty() && !one_in(3) {
        CredentialIssuance::Identifier { credential_identifier: pick(&ids) }
    } else {
        let c = if ids.is_empty() || one_in(6) { format!("cfg{}", rnd(4)) } else { t?.creds[&pick(&ids)].clone() };
        let mut f = w.issuer.credential_configurations_supported.get(&c)?.format.clone();
        let cl = format_claims(&f);
        let narrowed = match rnd(4) {
            0 => None,
            1 => cl,
            2 => Some(["a", "extra"].iter().map(|k| (k.to_string(), Claim::default())).collect()),
            _ => cl.as_ref().map(derive),
        };
        match &mut f {
            Format::JwtVcJson(p) => p.credential_definition.credential_subject = narrowed,
            Format::IsoMdl(p) => p.claims = narrowed,
            _ => {}
        }
        if one_in(12) {
            if let Format::JwtVcJson(p) = f {
                f = Format::JwtVcJsonLd(p);
            }
        }
        CredentialIssuance::Format(f)
    };
    let nonce = t.map_or("none".to_string(), |t| t.nonce.clone());
    let did = pick(&["did:key:zHolder1", "did:key:zHolder2"]);
    let one = |bad: usize| {
        let flaw = if one_in(bad) { pick(&[Flaw::Nonce, Flaw::NoNonce, Flaw::Typ, Flaw::Sig, Flaw::Key, Flaw::Garbage, Flaw::Nonce, Flaw::Jwk]) } else { Flaw::None };
        proof_jwt(if flaw == Flaw::None && one_in(40) { "did:web:unknown" } else { did }, &nonce, if m.old_nonces.is_empty() { None } else { m.old_nonces.last() }, flaw)
    };
    let proof = match rnd(10) {
        0 => None,
        1 => Some(Proof::Multiple(MultipleProofs::Jwt(vec![]))),
        2 | 3 => Some(Proof::Multiple(MultipleProofs::Jwt((0..1 + rnd(3)).map(|_| one(6)).collect()))),
        _ => Some(Proof::Single { proof_type: SingleProof::Jwt { jwt: one(4) } }),
    };
    Some(CredentialRequest { credential_issuer: if one_in(30) { near(ISSUER) } else { ISSUER.into() }, access_token: tok, credential, proof, credential_response_encryption: None })
}

/// effects common to a credential request and a deferred one; true when a credential was issued
fn judge(w: &World, m: &mut Model, r: &mut Report, req: &CredentialRequest, want: &Want, res: Result<CredentialResponse, Error>, lab: &str) -> Option<CredentialResponse> {
    let ctx = |m: &Model| m.log.join(" ; ");
    let tok = m.tokens.get(&req.access_token).cloned();
    if want.issue {
        let t = tok.unwrap();
        let subject = t.subject.clone().unwrap();
        let data: Vec<(String, Data)> = want.ids.iter().filter_map(|i| w.data(&subject, i).map(|d| (i.clone(), d))).collect();
        let resp = match res {
            Ok(x) => x,
            Err(e) => {
                r.check(&format!("{lab} I05"), false, || format!("credential refused ({e:?}) to a valid request: {}", ctx(m)));
                return None;
            }
        };
        r.check(lab, true, String::new);
        match &resp.response {
            CredentialResponseType::TransactionId(_) => {
                r.check("I10", data.iter().any(|(_, d)| d.pending), || format!("credential deferred although it is ready: {}", ctx(m)));
                return Some(resp);
            }
            CredentialResponseType::Credential(k) => {
                if !r.check("I10", data.iter().any(|(_, d)| !d.pending), || format!("credential issued although it is pending: {}", ctx(m))) {
                    return None;
                }
                let Kind::String(jwt) = k else {
                    r.check("I06", false, || "credential is not encoded".into());
                    return None;
                };
                content(w, m, r, req, want, &subject, &data, jwt);
            }
            CredentialResponseType::Credentials(_) => {
                r.check("I06", false, || "several credentials".into());
            }
        }
        let Some(n) = resp.c_nonce.clone() else {
            r.check("I05", false, || format!("no new c_nonce: {}", ctx(m)));
            return None;
        };
        r.check("I05", n != t.nonce && !m.old_nonces.contains(&n), || format!("c_nonce not renewed after issuance: {}", ctx(m)));
        r.check("I05", resp.c_nonce_expires_in.is_some_and(|e| (e - NONCE).abs() <= 2), || format!("nonce lifetime {:?}", resp.c_nonce_expires_in));
        m.old_nonces.push(t.nonce.clone());
        let e = m.tokens.get_mut(&req.access_token).unwrap();
        e.nonce = n;
        e.nonce_t = m.now;
        e.t = m.now;
        return Some(resp);
    }
    match res {
        Ok(x) => {
            r.check(lab, false, || format!("credential endpoint grants {x:?} although: {}; {}", want.why, ctx(m)));
        }
        Err(Error::InvalidProof { c_nonce, c_nonce_expires_in, .. }) => {
            r.check(lab, true, String::new);
            if r.check("I05", want.bad_proof, || format!("proof called invalid although: {}; {}", want.why, ctx(m))) {
                let t = tok.unwrap();
                r.check("I05", c_nonce != t.nonce && !m.old_nonces.contains(&c_nonce) && (c_nonce_expires_in - NONCE).abs() <= 2, || format!("c_nonce not renewed after a bad proof: {}", ctx(m)));
                m.old_nonces.push(t.nonce.clone());
                let e = m.tokens.get_mut(&req.access_token).unwrap();
                e.nonce = c_nonce;
                e.nonce_t = m.now;
                e.t = m.now;
            }
        }
        Err(e) => {
            r.check(lab, true, String::new);
            r.check("I05", !want.bad_proof, || format!("bad proof answered with {e:?} and no new nonce: {}", ctx(m)));
        }
    }
    None
}

fn content(w: &World, m: &Model, r: &mut Report, req: &CredentialRequest, want: &Want, subject: &str, data: &[(String, Data)], jwt: &str) {
    let cfg_id = &data[0].1.config;
    let cfg = &w.issuer.credential_configurations_supported[cfg_id];
    let narrowed = |d: &Data| {
        let mut c = d.claims.clone();
        if let CredentialIssuance::Format(f) = &req.credential {
            if let Some(cl) = format_claims(f) {
                c.retain(|k, _| cl.contains_key(k));
            }
        }
        c
    };
    if let Format::IsoMdl(_) = cfg.format {
        return; // the encoded document is the subject of another property
    }
    let parts: Vec<&str> = jwt.split('.').collect();
    let dec = |i: usize| parts.get(i).and_then(|p| B::decode_vec(p).ok()).unwrap_or_default();
    let sig = parts.len() == 3 && mac(ISSUER_KEY, format!("{}.{}", parts[0], parts[1]).as_bytes()) == dec(2);
    let h: Value = serde_json::from_slice(&dec(0)).unwrap_or_default();
    let c: Value = serde_json::from_slice(&dec(1)).unwrap_or_default();
    r.check("I06", sig && h["typ"] == "vc+jwt" && h["kid"] == format!("{ISSUER_DID}#k"), || format!("credential is not signed by the issuer: {h}"));
    let vc = &c["vc"];
    let mut cs = vc["credentialSubject"].clone();
    let id = cs.as_object_mut().and_then(|o| o.remove("id"));
    r.check("I06", id == Some(json!(want.did)) && c["sub"] == json!(want.did), || format!("credential for {id:?}, proof by {:?}; {}", want.did, m.log.join(" ; ")));
    r.check("I06", data.iter().any(|(_, d)| !d.pending && cs == Value::Object(narrowed(d))), || format!("claims issued: {cs}; data {data:?}; {}", m.log.join(" ; ")));
    let Format::JwtVcJson(p) = &cfg.format else { return };
    let ty = p.credential_definition.type_.clone().unwrap_or_default();
    r.check("I06", vc["type"].as_array().is_some_and(|a| a.contains(&json!(ty[1]))) && vc["issuer"] == ISSUER && c["iss"] == ISSUER, || format!("credential {vc}"));
    let now = chrono::Utc::now().timestamp();
    r.check("I06", c["iat"].as_i64().is_some_and(|t| (now - t).abs() <= 2), || format!("iat {}", c["iat"]));
    let st = w.inner.lock().unwrap().status_calls.last().cloned();
    r.check("I06", st.is_some_and(|(s, i)| s == subject && want.ids.contains(&i)), || "status looked up for another credential".into());
}

fn do_credential(w: &World, m: &mut Model, r: &mut Report) {
    let Some(req) = credential_request(w, m) else { return };
    let Some(want) = may_issue(w, m, &req) else { return };
    m.log.push(format!("credential {} [{}]", json!(req), want.why));
    let Some(res) = call(|| block_on(credential(w.clone(), req.clone()))) else {
        r.check("I04", false, || format!("credential panics: {}", m.log.join(" ; ")));
        return;
    };
    if let Some(resp) = judge(w, m, r, &req, &want, res, "I04") {
        if let Some(id) = resp.notification_id.clone() {
            let fresh = !m.notes.contains(&id);
            r.check("I11", fresh, || "notification id used before".into());
            m.notes.push(id.clone());
            let again = CredentialRequest { access_token: id.clone(), ..req.clone() };
            r.check("I05", !matches!(call(|| block_on(credential(w.clone(), again))), Some(Ok(_))), || format!("the same proof buys a second credential under the notification id: {}", m.log.join(" ; ")));
            do_notify(w, m, r, &id);
        }
        if let CredentialResponseType::TransactionId(t) = resp.response {
            r.check("I10", !m.deferred.contains_key(&t) && resp.c_nonce.is_none(), || "transaction id used before".into());
            m.deferred.insert(t, (req, m.now));
        }
    }
}

fn do_notify(w: &World, m: &mut Model, r: &mut Report, id: &str) {
    let event = pick(&[NotificationEvent::CredentialAccepted, NotificationEvent::CredentialFailure, NotificationEvent::CredentialDeleted]);
    let text = pick(&[None, Some("why".to_string())]);
    let note = |id: &str| NotificationRequest {
        credential_issuer: ISSUER.into(),
        access_token: String::new(),
        notification_id: id.into(),
        event: event.clone(),
        event_description: text.clone(),
    };
    if one_in(2) {
        return;
    }
    let send = |id: &str| call(|| block_on(notification(w.clone(), note(id)))).is_some_and(|x| x.is_ok());
    r.check("I11", !send("nope"), || "notification for an unknown id accepted".into());
    for k in m.tokens.keys().chain(m.deferred.keys()) {
        let before = w.inner.lock().unwrap().store.len();
        r.check("I11", !send(k) && w.inner.lock().unwrap().store.len() == before, || format!("notification under a token or transaction id accepted: {}", m.log.join(" ; ")));
    }
    r.check("I11", send(id), || format!("notification for an issued credential refused: {}", m.log.join(" ; ")));
    r.check("I11", !send(id), || format!("notification accepted twice: {}", m.log.join(" ; ")));
}

fn do_deferred(w: &World, m: &mut Model, r: &mut Report) {
    let mut ks: Vec<String> = m.deferred.keys().cloned().collect();
    ks.sort();
    if one_in(12) {
        ks.push("nope".into());
    }
    if ks.is_empty() {
        return;
    }
    let k = pick(&ks);
    let st = m.deferred.get(&k).cloned();
    let mut tok = st.as_ref().map_or("nope".to_string(), |s| s.0.access_token.clone());
    if one_in(12) {
        tok = "nope".into();
    }
    if one_in(2) {
        for m in w.inner.lock().unwrap().data.values_mut() {
            m.values_mut().for_each(|d| d.pending = false);
        }
    }
    let issuer = if one_in(20) { near(ISSUER) } else { ISSUER.to_string() };
    let req = DeferredCredentialRequest { credential_issuer: issuer.clone(), access_token: tok.clone(), transaction_id: k.clone() };
    let (cred, live) = match &st {
        Some((q, t)) => {
            let Some(live) = m.fresh(*t, ACCESS) else { return };
            let mut q = q.clone();
            q.access_token = tok;
            q.credential_issuer = issuer.into();
            (q, live)
        }
        None => (CredentialRequest::default(), false),
    };
    let want = if live { may_issue(w, m, &cred) } else { None };
    if live && want.is_none() {
        return;
    }
    m.log.push(format!("deferred {} for {} [{:?}]", json!(req), json!(cred), want.as_ref().map(|w| w.why.clone())));
    let Some(res) = call(|| block_on(deferred(w.clone(), req.clone()))) else {
        r.check("I10", false, || format!("deferred panics: {}", m.log.join(" ; ")));
        return;
    };
    let Some(want) = want else {
        r.check("I10", res.is_err(), || format!("deferred credential from an unknown or expired transaction: {}", m.log.join(" ; ")));
        return;
    };
    if let Err(Error::IssuancePending(_)) = &res {
        let ready = want.issue && m.tokens.get(&cred.access_token).and_then(|t| t.subject.clone()).is_some_and(|s| want.ids.iter().all(|i| w.data(&s, i).is_some_and(|d| !d.pending)));
        r.check("I10", want.issue && !ready, || format!("issuance called pending: {}", m.log.join(" ; ")));
        r.check("I10", w.inner.lock().unwrap().store.contains_key(&k), || format!("pending transaction forgotten: {}", m.log.join(" ; ")));
        return;
    }
    let okay = res.is_ok();
    let out = judge(w, m, r, &cred, &want, res.map(|d| d.credential_response), "I10 I04");
    if okay {
        if let Some(CredentialResponse { response: CredentialResponseType::TransactionId(_), .. }) = out {
            r.check("I10", false, || "deferred answers with another transaction".into());
        }
        r.check("I10", !w.inner.lock().unwrap().store.contains_key(&k), || format!("transaction survives the credential: {}", m.log.join(" ; ")));
        m.deferred.remove(&k);
    }
}

fn history(r: &mut Report, steps: usize) {
    let w = World::random();
    let mut m = Model::default();
    r.bad = false;
    for _ in 0..steps {
        match rnd(20) {
            0..=3 => offer(&w, &mut m, r),
            4 => do_par(&w, &mut m, r),
            5..=7 => do_authorize(&w, &mut m, r),
            8..=11 => do_token(&w, &mut m, r),
            12..=16 => do_credential(&w, &mut m, r),
            17 => do_deferred(&w, &mut m, r),
            _ => {
                let d = pick(&[20, 60, 280, 310, 580, 610, 880, 920]);
                if one_in(2) {
                    w.advance(d);
                    m.now += d;
                    m.log.push(format!("{d} s pass"));
                }
            }
        }
        if r.bad {
            return;
        }
        if m.log.len() > 12 {
            m.log.drain(..m.log.len() - 12);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: usize = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    fastrand::seed(seed);
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Report { prop: a[1].clone(), fails: 0, n: 0, bad: false, out: vec![] };
    for _ in 0..1500 * scale {
        history(&mut r, 40);
    }
    r.out.sort_by_key(String::len);
    for o in &r.out {
        println!("{o}");
    }
    println!("STAT cases {}", r.n);
    if r.fails > 0 {
        std::process::exit(3);
    }
}
