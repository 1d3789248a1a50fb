# planted bugs in vercre-verifier and w3c-vc (see mkseed.py)
M0 = open('/verif/drivers/verifier/src/main.rs').read()
W3 = open('/verif/drivers/w3c/src/main.rs').read()
def cut(s, a, b): return s[s.index(a):s.index(b)]
CR = ['crates/core', 'crates/dif-exch', 'crates/w3c-vc', 'crates/status', 'crates/openid', 'vercre-verifier']
DEPS = '''vercre-verifier = { path = "../vercre-verifier" }
vercre-openid = { path = "../crates/openid" }
vercre-core = { path = "../crates/core" }
vercre-did.workspace = true
vercre-infosec.workspace = true
anyhow.workspace = true
base64ct.workspace = true
chrono.workspace = true
serde.workspace = true
serde_json.workspace = true'''
DEPS3 = '''vercre-w3c-vc = { path = "../crates/w3c-vc" }
vercre-core = { path = "../crates/core" }
vercre-did.workspace = true
vercre-infosec.workspace = true
anyhow.workspace = true
base64ct.workspace = true
chrono.workspace = true
serde_json.workspace = true'''
PRE = '#![allow(unused_imports, dead_code)]\n' + cut(M0, 'use std::collections', 'struct Report') + cut(M0, '#[derive(Default)]\nstruct Inner', '// ------------------------------------------------------------------ requests') + '''
fn request(w: &World, cid: &str, flow: &str, ds: Value) -> vercre_verifier::Result<CreateRequestResponse> {
    let mut q: CreateRequestRequest = serde_json::from_value(json!({"purpose": "p", "input_descriptors": ds, "device_flow": flow})).unwrap();
    q.client_id = cid.into();
    block_on(create_request(w.clone(), &q))
}
fn stored(w: &World) -> (String, Value) {
    let i = w.0.lock().unwrap();
    let (k, v) = i.store.iter().next().expect("stored");
    (k.clone(), v["request_object"].clone())
}
fn desc(id: &str, role: &str) -> Value {
    json!({"id": id, "constraints": {"fields": [{"path": ["$.credentialSubject.role"], "filter": {"type": "string", "const": role}}]}})
}
fn vc(role: &str) -> String {
    token("vc+jwt", "did:key:i", true, &json!({"sub": "did:key:h", "iss": "did:key:i", "iat": 1, "jti": "j", "vc": {"@context": ["https://www.w3.org/2018/credentials/v1"],
        "type": ["VerifiableCredential", "X"], "issuer": "did:key:i", "credentialSubject": {"id": "did:key:h", "role": role}}}))
}
fn vp(o: &Value, nonce: Option<&str>, creds: Vec<String>) -> Value {
    let vp = json!({"@context": ["https://www.w3.org/2018/credentials/v1"], "type": ["VerifiablePresentation", "Y"], "verifiableCredential": creds});
    let n = nonce.map_or(o["nonce"].clone(), |n| json!(n));
    json!(token("vp+jwt", "did:key:h", true, &json!({"iss": "did:key:h", "jti": "j", "aud": o["client_id"], "nonce": n, "nbf": 1, "iat": 2, "exp": 3, "vp": vp})))
}
fn map(id: &str, path: &str) -> Value {
    json!({"id": id, "format": "jwt_vc_json", "path": "$", "path_nested": {"format": "jwt_vc_json", "path": path}})
}
fn answer(w: &World, key: &str, o: &Value, vps: Vec<Value>, maps: Vec<Value>) -> vercre_verifier::Result<ResponseResponse> {
    let q = json!({"vp_token": vps, "presentation_submission": {"id": "s", "definition_id": o["presentation_definition"]["id"], "descriptor_map": maps}, "state": key});
    block_on(response(w.clone(), &serde_json::from_value(q).unwrap()))
}
'''
PRE3 = '#![allow(unused_imports, dead_code)]\n' + cut(W3, 'use std::future', 'struct Report') + cut(W3, 'fn key(did: &str', '// ------------------------------------------------------------------ values')
def ver(id, prop, needs, breaks, edits, body):
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, crates=CR, deps=DEPS, main=PRE + 'fn main() {\n    let w = World::default();\n' + body + '}\n')
def w3c(id, prop, needs, breaks, edits, body):
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, crates=CR[:3], deps=DEPS3, main=PRE3 + 'fn main() {\n' + body + '}\n')
RE, RQ, RO = ['vercre-verifier/src/%s.rs' % x for x in ('response', 'create_request', 'request_object')]
SEEDS = [
 ver('V01-foreign', 'V01', 'a request fetched under a client whose id is a prefix of the other\'s', 'a request is signed and served for a client it is not of',
  [(RO, 'if req_obj.client_id != format!("{}/post", request.client_id) {', 'if !req_obj.client_id.starts_with(&request.client_id) || !req_obj.client_id.ends_with("/post") {')], """
    request(&w, CLIENTS[0], "CrossDevice", json!([desc("a", "cook")])).expect("created");
    let (key, _) = stored(&w);
    // http://v.example/post is also what a client called http://v.example would use; store it under a longer name
    let mut i = w.0.lock().unwrap();
    let mut v = i.store[&key].clone();
    v["request_object"]["client_id"] = json!("http://v.example/tenant7/post");
    i.store.insert("t7".into(), v);
    drop(i);
    let get = |id: &str| block_on(request_object(w.clone(), &RequestObjectRequest { client_id: CLIENTS[0].into(), id: id.into() }));
    assert!(get(&key).is_ok());
    assert!(get("t7").is_err(), "the request of another client is served");
"""),
 ver('V01-same', 'V01', 'a same-device request', 'the request handed to the caller in the same-device flow lacks the nonce or name that is stored',
  [(RQ, 'response.request_object = Some(req_obj.clone());', 'response.request_object = Some(req_obj.clone());\n        req_obj.state = None;')], """
    let r = request(&w, CLIENTS[0], "SameDevice", json!([desc("a", "cook")])).expect("created");
    assert_eq!(json!(r.request_object), stored(&w).1, "not the request stored");
"""),
 ver('V02-nonce', 'V02', 'two presentations, the second made for another request', 'only the first presentation has to carry the nonce of the request, so an old presentation is accepted beside it',
  [(RE, 'if nonce != saved_req.nonce {', 'if nonce != saved_req.nonce && vps.is_empty() {')], """
    let go = |stale: Option<&str>| {
        let w = World::default();
        request(&w, CLIENTS[0], "CrossDevice", json!([desc("a", "cook")])).expect("created");
        let (key, o) = stored(&w);
        answer(&w, &key, &o, vec![vp(&o, None, vec![]), vp(&o, stale, vec![vc("cook")])], vec![map("a", "$[1].verifiableCredential[0]")])
    };
    assert!(go(None).is_ok());
    assert!(go(Some("old")).is_err(), "a replayed presentation is accepted");
"""),
 ver('V02-missing', 'V02', 'a request for two credentials, answered with a mapping for the first only', 'descriptors beyond the number of mappings are not checked, so a credential asked for need not be presented',
  [(RE, 'for input in input_descs {', 'for (input, _) in input_descs.iter().zip(desc_map) {')], """
    let go = |maps: Vec<Value>| {
        let w = World::default();
        request(&w, CLIENTS[0], "CrossDevice", json!([desc("a", "cook"), desc("b", "chief")])).expect("created");
        let (key, o) = stored(&w);
        answer(&w, &key, &o, vec![vp(&o, None, vec![vc("cook"), vc("chief")])], maps)
    };
    assert!(go(vec![map("a", "$.verifiableCredential[0]"), map("b", "$.verifiableCredential[1]")]).is_ok());
    assert!(go(vec![map("a", "$.verifiableCredential[0]")]).is_err(), "the second credential is missing");
"""),
 ver('V02-twice', 'V02', 'a response sent again while the store cannot purge', 'a failure to end the request is ignored, so the same response is accepted again',
  [(RE, """    StateStore::purge(&provider, state_key)
        .await
        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
""", """    if let Err(e) = StateStore::purge(&provider, state_key).await {
        tracing::error!("issue purging state: {e}");
    }
""")], """
    request(&w, CLIENTS[0], "CrossDevice", json!([desc("a", "cook")])).expect("created");
    let (key, o) = stored(&w);
    let go = || answer(&w, &key, &o, vec![vp(&o, None, vec![vc("cook")])], vec![map("a", "$.verifiableCredential[0]")]);
    w.0.lock().unwrap().fail_purge = true;
    assert!(go().is_err(), "accepted without ending the request");
    w.0.lock().unwrap().fail_purge = false;
    assert!(go().is_ok());
    assert!(go().is_err());
"""),
 w3c('W01-exp', 'W01', 'a credential with a start but no end of validity', 'a credential without end of validity is signed with an expiry',
  [('crates/w3c-vc/src/proof/jose.rs', 'exp: vc.valid_until.map(|exp| exp.timestamp()),', 'exp: vc.valid_until.or(vc.valid_from).map(|exp| exp.timestamp()),')], """
    let sub = CredentialSubject { id: Some("did:key:h".into()), ..CredentialSubject::default() };
    let go = |until: Option<DateTime<Utc>>| {
        let vc = VerifiableCredential { credential_subject: Quota::One(sub.clone()), valid_from: DateTime::from_timestamp(1_700_000_000, 0), valid_until: until, ..VerifiableCredential::default() };
        let t = block_on(create(W3cFormat::JwtVcJson, Payload::Vc { vc, issued_at: 7 }, Key { did: "did:key:zA".into(), n: 0, fails: false })).expect("signed");
        claims_of(&t).expect("token").1.get("exp").cloned()
    };
    assert_eq!(go(DateTime::from_timestamp(1_800_000_000, 0)), Some(json!(1_800_000_000)));
    assert_eq!(go(None), None, "an expiry nobody asked for");
"""),
 w3c('W02-subjects', 'W02', 'three or more subjects, one of them added twice', 'a subject added again is dropped from the credential',
  [('crates/w3c-vc/src/model/vc.rs', """                set.push(subj);
                Quota::Many(set)""", """                if !set.contains(&subj) {
                    set.push(subj);
                }
                Quota::Many(set)""")], """
    let s = |id: &str| CredentialSubject { id: Some(id.into()), ..CredentialSubject::default() };
    let b = VerifiableCredential::builder().add_context(Kind::String("c".into())).add_type("A").issuer("i").add_subject(s("x")).add_subject(s("y")).add_subject(s("x"));
    assert_eq!(b.build().expect("built").credential_subject, Quota::Many(vec![s("x"), s("y"), s("x")]));
"""),
]
