import re
W0 = open('/verif/drivers/issuer/src/world.rs').read()
i, j = W0.index('    pub fn random() -> Self {'), W0.index('    /// let `secs` seconds pass')
FIXED = '''    pub fn fixed() -> Self {
        let cfg = |i: usize| json!({"scope": format!("s{i}"), "format": "jwt_vc_json",
            "credential_definition": {"type": ["VerifiableCredential", format!("Type{i}")], "credentialSubject": {"a": {"mandatory": true}, "b": {}, "n": {"n1": {"mandatory": true}, "n2": {}}}},
            "proof_types_supported": {"jwt": {"proof_signing_alg_values_supported": ["EdDSA"]}}});
        let issuer = serde_json::from_value(json!({"credential_issuer": ISSUER, "credential_endpoint": "x",
            "credential_configurations_supported": {"cfg0": cfg(0), "cfg1": cfg(1), "cfg2": cfg(2)}})).unwrap();
        let server = serde_json::from_value(json!({"issuer": ISSUER, "authorization_endpoint": "/auth", "token_endpoint": "/token",
            "response_types_supported": ["code"], "pre-authorized_grant_anonymous_access_supported": true, "scopes_supported": ["openid", "credential"],
            "grant_types_supported": [AUTH, PRE], "code_challenge_methods_supported": ["S256"]})).unwrap();
        let mut clients = HashMap::new();
        for i in 0..3 {
            clients.insert(format!("client{i}"), serde_json::from_value(json!({"client_id": format!("client{i}"), "credential_offer_endpoint": "o://",
                "scope": "openid credential", "redirect_uris": [format!("http://cb{i}/"), "http://shared/"], "grant_types": [AUTH, PRE], "response_types": ["code"]})).unwrap());
        }
        let mut data = HashMap::new();
        for s in ["alice", "bob"] {
            let mut m = HashMap::new();
            for i in 0..3 {
                for j in 0..2 {
                    let mut cl = Map::new();
                    for n in ["a", "b", "n"] {
                        cl.insert(n.into(), if n == "n" { json!({"n1": 1, "n2": 2}) } else { json!(format!("{s}-{i}-{j}-{n}")) });
                    }
                    m.insert(format!("{s}-cfg{i}-{j}"), Data { config: format!("cfg{i}"), claims: cl, pending: false });
                }
            }
            data.insert(s.to_string(), m);
        }
        Self { inner: Arc::new(Mutex::new(Inner { data, ..Inner::default() })), issuer, server, clients }
    }

'''
WORLD = W0[:i] + FIXED + '''    pub fn pend(&self, subject: &str, id: &str, yes: bool) {
        self.inner.lock().unwrap().data.get_mut(subject).unwrap().get_mut(id).unwrap().pending = yes;
    }
    /// the state stored under `id` has expired
    pub fn expire(&self, id: &str) {
        let old = chrono::Utc::now() - chrono::Duration::seconds(60);
        let mut i = self.inner.lock().unwrap();
        i.store.get_mut(id).expect("stored")["expires_at"] = json!(old);
    }
''' + W0[j:]
WORLD = '#![allow(dead_code)]\n' + re.sub(r'(?s)pub fn rnd.*?(?=struct Noop)', '', WORLD)
WORLD = re.sub(r'(?s)pub type Claims.*?\n', 'pub type Claims = HashMap<String, Claim>;\n', WORLD, count=1)
k, l = WORLD.index('pub fn claims(depth'), WORLD.index('pub const PRE')
WORLD = WORLD[:k] + WORLD[l:]
WORLD = WORLD.replace('use vercre_issuer::{Claim, ClaimDefinition};', 'use vercre_issuer::Claim;')
PRELUDE = '''#![allow(unused_imports, dead_code)]
mod world;
use serde_json::{json, Value};
use base64ct::{Base64UrlUnpadded as B, Encoding};
use sha2::{Digest, Sha256};
use vercre_infosec::jose::jws::mac;
use vercre_issuer::*;
use world::*;
const PREG: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";
fn offer(w: &World, v: Value) -> Result<CreateOfferResponse, vercre_openid::Error> {
    let mut q = json!({"credential_issuer": ISSUER, "subject_id": "alice", "credential_configuration_ids": ["cfg0"], "grant_types": [PREG], "tx_code_required": false, "send_type": "ByVal"});
    for (k, x) in v.as_object().unwrap() { q[k] = x.clone(); }
    let mut q: CreateOfferRequest = serde_json::from_value(q).expect("offer request");
    q.credential_issuer = ISSUER.into();
    block_on(create_offer(w.clone(), q))
}
fn code_of(r: &CreateOfferResponse) -> String {
    let v = serde_json::to_value(r).unwrap().to_string();
    let k = v.find("\\"pre-authorized_code\\":\\"").expect("code") + 23;
    v[k..].split('"').next().unwrap().to_string()
}
fn tok(w: &World, v: Value) -> Result<TokenResponse, vercre_openid::Error> {
    let mut q: TokenRequest = serde_json::from_value(v).expect("token request");
    q.credential_issuer = ISSUER.into();
    block_on(token(w.clone(), q))
}
fn pre_token(w: &World, code: &str) -> Result<TokenResponse, vercre_openid::Error> {
    tok(w, json!({"credential_issuer": ISSUER, "client_id": "client0", "grant_type": PREG, "pre-authorized_code": code}))
}
fn challenge(v: &str) -> String { B::encode_string(&Sha256::digest(v.as_bytes())) }
const VERIFIER: &str = "0123456789012345678901234567890123456789012";
fn auth(w: &World, v: Value) -> Result<AuthorizationResponse, vercre_openid::Error> {
    let mut q = json!({"credential_issuer": ISSUER, "response_type": "code", "client_id": "client0", "redirect_uri": "http://cb0/", "state": "xyz",
        "code_challenge": challenge(VERIFIER), "code_challenge_method": "S256", "subject_id": "alice", "wallet_issuer": null,
        "authorization_details": [{"type": "openid_credential", "credential_configuration_id": "cfg0"}]});
    for (k, x) in v.as_object().unwrap() { q[k] = x.clone(); }
    let mut q: RequestObject = serde_json::from_value(q).expect("authorization request");
    q.credential_issuer = ISSUER.into();
    block_on(authorize(w.clone(), AuthorizationRequest::Object(q)))
}
fn auth_token(w: &World, code: &str, v: Value) -> Result<TokenResponse, vercre_openid::Error> {
    let mut q = json!({"credential_issuer": ISSUER, "client_id": "client0", "grant_type": "authorization_code", "code": code, "redirect_uri": "http://cb0/", "code_verifier": VERIFIER});
    for (k, x) in v.as_object().unwrap() { if x.is_null() { q.as_object_mut().unwrap().remove(k); } else { q[k] = x.clone(); } }
    tok(w, q)
}
fn proof(did: &str, nonce: &str) -> Value {
    let h = json!({"alg": "EdDSA", "typ": "openid4vci-proof+jwt", "kid": format!("{did}#k")});
    let c = json!({"iss": did, "aud": ISSUER, "iat": chrono::Utc::now().timestamp(), "nonce": nonce});
    let m = format!("{}.{}", B::encode_string(h.to_string().as_bytes()), B::encode_string(c.to_string().as_bytes()));
    json!({"proof_type": "jwt", "jwt": format!("{m}.{}", B::encode_string(&mac(&holder_key(did), m.as_bytes())))})
}
fn proof_with(did: &str, claims: Value) -> Value {
    let h = json!({"alg": "EdDSA", "typ": "openid4vci-proof+jwt", "kid": format!("{did}#k")});
    let mut c = json!({"iss": did, "aud": ISSUER, "iat": chrono::Utc::now().timestamp()});
    for (k, x) in claims.as_object().unwrap() { c[k] = x.clone(); }
    let m = format!("{}.{}", B::encode_string(h.to_string().as_bytes()), B::encode_string(c.to_string().as_bytes()));
    json!({"proof_type": "jwt", "jwt": format!("{m}.{}", B::encode_string(&mac(&holder_key(did), m.as_bytes())))})
}
fn w_token(w: &World) -> TokenResponse {
    let o = offer(w, json!({})).expect("offer");
    pre_token(w, &code_of(&o)).expect("token")
}
fn cred(w: &World, token: &str, v: Value) -> Result<CredentialResponse, vercre_openid::Error> {
    let mut q: CredentialRequest = serde_json::from_value(v).expect("credential request");
    q.credential_issuer = ISSUER.into();
    q.access_token = token.into();
    block_on(credential(w.clone(), q))
}
'''
CR = ['crates/core', 'crates/dif-exch', 'crates/w3c-vc', 'crates/status', 'crates/openid', 'crates/iso-mdl', 'vercre-issuer']
DEPS = '''vercre-issuer = { path = "../vercre-issuer" }
vercre-openid = { path = "../crates/openid" }
vercre-core = { path = "../crates/core" }
vercre-did.workspace = true
vercre-infosec.workspace = true
anyhow.workspace = true
base64ct.workspace = true
chrono.workspace = true
serde.workspace = true
serde_json.workspace = true
sha2 = "0.10.8"'''
T = 'vercre-issuer/src/token.rs'
OI = 'crates/openid/src/issuer.rs'
def iss(id, prop, needs, breaks, edits, body):
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, crates=CR, deps=DEPS, extra={'world.rs': WORLD},
                main=PRELUDE + 'fn main() {\n    let w = World::fixed();\n' + body + '}\n')
CRD, AZ, CO, DE, NO = ['vercre-issuer/src/%s.rs' % x for x in ('credential', 'authorize', 'create_offer', 'deferred', 'notification')]
TOKEN = '''
    let t = w_token(&w);
'''
SEEDS = [
 iss('I01-txcode', 'I01', 'an offer with a transaction code, redeemed without one', 'a pre-authorized code protected by a PIN is redeemed without the PIN',
  [(T, 'if tx_code != &auth_state.tx_code {', 'if tx_code.as_ref().is_some_and(|c| Some(c) != auth_state.tx_code.as_ref()) {')], '''
    let o = offer(&w, json!({"tx_code_required": true})).expect("offer");
    let pin = o.tx_code.clone().expect("pin");
    assert!(tok(&w, json!({"credential_issuer": ISSUER, "client_id": "client0", "grant_type": PREG, "pre-authorized_code": code_of(&o), "tx_code": pin})).is_ok());
    let o = offer(&w, json!({"tx_code_required": true})).expect("offer");
    assert!(pre_token(&w, &code_of(&o)).is_err(), "redeemed without the PIN");
'''),
 iss('I02-late', 'I02', 'a token request that fails verification, repeated with the right values', 'a code survives a refused token request, so that its PIN or verifier can be guessed',
  [(T, '''    // authorization code is one-time use
    StateStore::purge(&provider, state_key)
        .await
        .map_err(|e| Error::ServerError(format!("issue purging authorizaiton state: {e}")))?;

    let ctx = Context { state };

    ctx.verify(&provider, &request).await?;
''', '''    let ctx = Context { state };

    ctx.verify(&provider, &request).await?;

    // authorization code is one-time use
    StateStore::purge(&provider, state_key)
        .await
        .map_err(|e| Error::ServerError(format!("issue purging authorizaiton state: {e}")))?;

''')], '''
    let a = auth(&w, json!({})).expect("authorized");
    assert!(auth_token(&w, &a.code, json!({"code_verifier": "x".repeat(50)})).is_err());
    assert!(auth_token(&w, &a.code, json!({})).is_err(), "a code presented with a wrong verifier still works");
    let a = auth(&w, json!({})).expect("authorized");
    assert!(auth_token(&w, &a.code, json!({})).is_ok());
    assert!(auth_token(&w, &a.code, json!({})).is_err());
'''),
 iss('I03-details', 'I03', 'a token request with two authorization details of which the second was not authorized', 'a detail that was never authorized is silently accepted after an authorized one',
  [(T, '        if !found {', '        if !found && retained.is_empty() {')], '''
    let d = |c: &str| json!({"type": "openid_credential", "credential_configuration_id": c});
    let a = auth(&w, json!({})).expect("authorized");
    assert!(auth_token(&w, &a.code, json!({"authorization_details": [d("cfg0")]})).is_ok());
    let a = auth(&w, json!({})).expect("authorized");
    assert!(auth_token(&w, &a.code, json!({"authorization_details": [d("cfg0"), d("cfg1")]})).is_err(), "unauthorized detail accepted");
'''),
 iss('O01-nested', 'O01', 'a request that leaves out a claim set with a mandatory member altogether', 'mandatory claims inside a set are not required when the set is not requested at all',
  [(OI, 'requested.get(key).unwrap_or(&Claim::Set(HashMap::new()))', 'requested.get(key).unwrap_or(&Claim::Set(sup_nested.clone()))')], '''
    let d = |c: Value| json!([{"type": "openid_credential", "credential_configuration_id": "cfg0", "credential_definition": {"credentialSubject": c}}]);
    assert!(auth(&w, json!({"authorization_details": d(json!({"a": {}, "n": {"n1": {}}}))})).is_ok());
    assert!(auth(&w, json!({"authorization_details": d(json!({"a": {}}))})).is_err(), "a mandatory nested claim is missing");
'''),
 iss('O02-types', 'O02', 'two configurations of the same format and number of types', 'a format is resolved to a configuration of another credential type',
  [(OI, 'self.credential_definition.type_ == other.credential_definition.type_', 'self.credential_definition.type_.as_ref().and_then(|t| t.first()) == other.credential_definition.type_.as_ref().and_then(|t| t.first())')], '''
    let f = |n: usize| json!([{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": ["VerifiableCredential", format!("Type{n}")]}}]);
    for n in 0..3 {
        let a = auth(&w, json!({"authorization_details": f(n)})).expect("authorized");
        let t = auth_token(&w, &a.code, json!({})).expect("token");
        let s = serde_json::to_string(&t).unwrap();
        assert!(s.contains(&format!("alice-cfg{n}-0")), "{s}");
    }
    assert!(auth(&w, json!({"authorization_details": f(7)})).is_err(), "unsupported type accepted");
'''),

 iss('I04-nonce', 'I04', 'a proof token that carries no nonce at all', 'a proof without nonce is accepted, so that an old proof of possession can be replayed for any token',
  [(CRD, 'if jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {', 'if jwt.claims.nonce.as_ref().is_some_and(|n| n != &token_state.c_nonce) {')], TOKEN + """
    let mut q = json!({"credential_identifier": "alice-cfg0-0", "proof": proof_with("did:key:zH", json!({}))});
    assert!(cred(&w, &t.access_token, q.clone()).is_err(), "a proof without nonce is accepted");
    let t = w_token(&w);
    q["proof"] = proof("did:key:zH", &t.c_nonce.clone().expect("nonce"));
    assert!(cred(&w, &t.access_token, q).is_ok());
"""),
 iss('I05-stale', 'I05', 'a request with an invalid proof, followed by one with a proof for the nonce of before', 'after an invalid proof the old nonce goes on working, and the new one does not work',
  [(CRD, '        token_state.c_nonce.clone_from(&c_nonce);\n', '        token_state.c_nonce_expires_at = Utc::now();\n')], TOKEN + """
    let n0 = t.c_nonce.clone().expect("nonce");
    let q = |n: &str| json!({"credential_identifier": "alice-cfg0-0", "proof": proof("did:key:zH", n)});
    let e = cred(&w, &t.access_token, q("wrong")).expect_err("wrong nonce");
    let vercre_openid::Error::InvalidProof { c_nonce, .. } = e else { panic!("{e:?}") };
    assert_ne!(c_nonce, n0);
    assert!(cred(&w, &t.access_token, q(&n0)).is_err(), "the nonce of before still works");
    let t = w_token(&w);
    let e = cred(&w, &t.access_token, q("wrong")).expect_err("wrong nonce");
    let vercre_openid::Error::InvalidProof { c_nonce, .. } = e else { panic!("{e:?}") };
    assert!(cred(&w, &t.access_token, q(&c_nonce)).is_ok(), "the new nonce does not work");
"""),
 iss('I06-did', 'I06', 'a holder key whose DID URL has a query', 'a credential is bound to a truncated name instead of the DID that proved possession',
  [(CRD, """kid.split('#').next()""", """kid.split(['#', '?']).next()""")], TOKEN + """
    let did = "did:key:zH?versionId=1";
    let q = json!({"credential_identifier": "alice-cfg0-0", "proof": proof(did, &t.c_nonce.clone().expect("nonce"))});
    let r = cred(&w, &t.access_token, q).expect("credential");
    let v = serde_json::to_value(&r).unwrap();
    let jwt = v["credential"].as_str().expect("jwt").to_string();
    let body: Value = serde_json::from_slice(&B::decode_vec(jwt.split('.').nth(1).unwrap()).unwrap()).unwrap();
    assert!(body.to_string().contains(did), "bound to another holder: {body}");
"""),
 iss('I07-redirect', 'I07', 'a redirect URI that extends a registered one', 'an authorization code is sent to a URI the client never registered',
  [(AZ, 'if !redirect_uris.contains(redirect_uri) {', 'if !redirect_uris.iter().any(|u| redirect_uri.starts_with(u.as_str())) {')], """
    assert!(auth(&w, json!({})).is_ok());
    assert!(auth(&w, json!({"redirect_uri": "http://shared/"})).is_ok());
    assert!(auth(&w, json!({"redirect_uri": "http://cb0/@evil"})).is_err(), "unregistered redirect URI");
"""),
 iss('I07-scope', 'I07', 'a request with details and an unknown scope beside a known one', 'an unknown scope is ignored when other scopes are known',
  [(AZ, 'if scope_map.is_empty() {', 'if scope_map.is_empty() && self.scope_items.is_empty() {')], """
    assert!(auth(&w, json!({"scope": "s1 s2"})).is_ok());
    assert!(auth(&w, json!({"scope": "zz"})).is_err());
    assert!(auth(&w, json!({"scope": "s1 zz"})).is_err(), "unknown scope accepted");
"""),
 iss('I08-late', 'I08', 'a request URI used after it expired', 'an expired pushed request is honoured',
  [(AZ, 'if par.expires_at < Utc::now() {', 'if par.expires_at + Expire::Authorized.duration() < Utc::now() {')], """
    let push = || {
        let mut q: RequestObject = serde_json::from_value(json!({"credential_issuer": ISSUER, "response_type": "code", "client_id": "client0", "redirect_uri": "http://cb0/",
            "code_challenge": challenge(VERIFIER), "code_challenge_method": "S256", "subject_id": "alice", "wallet_issuer": null,
            "authorization_details": [{"type": "openid_credential", "credential_configuration_id": "cfg0"}]})).expect("request");
        q.credential_issuer = ISSUER.into();
        block_on(par(w.clone(), PushedAuthorizationRequest { request: q, client_assertion: None })).expect("pushed").request_uri
    };
    let go = |u: String| block_on(authorize(w.clone(), AuthorizationRequest::Uri(vercre_openid::issuer::RequestUri { request_uri: u })));
    assert!(go(push()).is_ok());
    let u = push();
    w.advance(500);
    assert!(go(u).is_ok());
    let u = push();
    w.advance(700);
    assert!(go(u).is_err(), "expired request URI accepted");
"""),
 iss('I09-pin', 'I09', 'an offer by reference that requires a transaction code', 'the transaction code of an offer sent by reference is not stored, so the code in it is redeemed without it',
  [(CO, """                    tx_code: tx_code.clone(),
                }),""", """                    tx_code: tx_code.clone().filter(|_| request.send_type == SendType::ByVal),
                }),""")], """
    let o = offer(&w, json!({"tx_code_required": true, "send_type": "ByRef"})).expect("offer");
    let OfferType::Uri(u) = &o.offer_type else { panic!("not by reference") };
    let id = u.rsplit('/').next().unwrap().to_string();
    let got = block_on(credential_offer(w.clone(), CredentialOfferRequest { credential_issuer: ISSUER.into(), id })).expect("retrieved");
    let code = got.credential_offer.grants.expect("grants").pre_authorized_code.expect("pre-authorized").pre_authorized_code;
    let r = tok(&w, json!({"credential_issuer": ISSUER, "client_id": "client0", "grant_type": PREG, "pre-authorized_code": code, "tx_code": o.tx_code}));
    assert!(r.is_ok(), "the PIN does not work");
"""),
 iss('I09-open', 'I09', 'an offer that can only be redeemed by authorization, made to a named holder', 'an offer meant for the authorization code flow can be redeemed directly',
  [(CO, 'let auth_items = if grant_types.contains(&GrantType::PreAuthorizedCode) {', 'let auth_items = if request.subject_id.is_some() {')], """
    let o = offer(&w, json!({"grant_types": ["authorization_code"]})).expect("offer");
    let OfferType::Object(c) = &o.offer_type else { panic!("not by value") };
    let state = c.grants.clone().expect("grants").authorization_code.expect("grant").issuer_state.expect("state");
    assert!(pre_token(&w, &state).is_err(), "redeemed without authorization");
"""),
 iss('I10-expired', 'I10', 'a deferred request collected after its transaction expired, with a fresh token', 'an expired transaction is still delivered',
  [(DE, 'if state.is_expired() {', 'if state.is_expired() && request.access_token.is_empty() {')], TOKEN + """
    w.pend("alice", "alice-cfg0-0", true);
    let q = |t: &TokenResponse| json!({"credential_identifier": "alice-cfg0-0", "proof": proof("did:key:zH", &t.c_nonce.clone().expect("nonce"))});
    let txn = |r: CredentialResponse| { let CredentialResponseType::TransactionId(t) = r.response else { panic!("not deferred") }; t };
    let collect = |t: &str, a: &str| block_on(deferred(w.clone(), DeferredCredentialRequest { credential_issuer: ISSUER.into(), access_token: a.into(), transaction_id: t.into() }));
    let id = txn(cred(&w, &t.access_token, q(&t)).expect("deferred"));
    w.pend("alice", "alice-cfg0-0", false);
    assert!(collect(&id, &t.access_token).is_ok());
    assert!(collect(&id, &t.access_token).is_err());
    w.pend("alice", "alice-cfg0-0", true);
    let t = w_token(&w);
    let id = txn(cred(&w, &t.access_token, q(&t)).expect("deferred"));
    w.pend("alice", "alice-cfg0-0", false);
    w.expire(&id);
    assert!(collect(&id, &t.access_token).is_err(), "expired transaction delivered");
"""),
 iss('I11-twice', 'I11', 'a notification with a description, repeated', 'a notification with a description can be sent again and again',
  [(NO, """    StateStore::purge(provider, &request.notification_id)
        .await
        .map_err(|e| Error::ServerError(format!("failed to purge state: {e}")))?;
""", """    if request.event_description.is_none() {
        StateStore::purge(provider, &request.notification_id)
            .await
            .map_err(|e| Error::ServerError(format!("failed to purge state: {e}")))?;
    }
""")], TOKEN + """
    let q = json!({"credential_identifier": "alice-cfg0-0", "proof": proof("did:key:zH", &t.c_nonce.clone().expect("nonce"))});
    let id = cred(&w, &t.access_token, q).expect("credential").notification_id.expect("id");
    let note = || block_on(notification(w.clone(), vercre_openid::issuer::NotificationRequest { credential_issuer: ISSUER.into(), access_token: String::new(),
        notification_id: id.clone(), event: vercre_openid::issuer::NotificationEvent::CredentialFailure, event_description: Some("lost".into()) }));
    assert!(note().is_ok());
    assert!(note().is_err(), "notification accepted twice");
"""),
]
