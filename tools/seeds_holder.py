# planted bugs in vercre-holder (see mkseed.py)
M0 = open('/verif/drivers/holder/src/main.rs').read()
def cut(s, a, b): return s[s.index(a):s.index(b)]
CR = ['crates/core', 'crates/dif-exch', 'crates/w3c-vc', 'crates/status', 'crates/openid', 'crates/macros', 'crates/iso-mdl', 'vercre-issuer', 'vercre-holder']
DEPS = '''vercre-w3c-vc = { path = "../crates/w3c-vc" }
vercre-core = { path = "../crates/core" }
vercre-openid = { path = "../crates/openid" }
vercre-dif-exch = { path = "../crates/dif-exch" }
vercre-issuer = { path = "../vercre-issuer" }
vercre-holder = { path = "../vercre-holder" }
vercre-did.workspace = true
vercre-infosec.workspace = true
anyhow.workspace = true
base64ct.workspace = true
chrono.workspace = true
serde.workspace = true
serde_json.workspace = true'''
PRE = '#![allow(unused_imports, dead_code, unused_variables)]\n' + cut(M0, 'use std::collections', 'struct Report') + '''
// nothing fails, and the last choice is taken
fn rnd(n: usize) -> usize { n - 1 }
fn one_in(_: usize) -> bool { false }
fn pick(xs: &[&str]) -> String { xs[xs.len() - 1].to_string() }
''' + cut(M0, '// ------------------------------------------------------------------ provider', '// ------------------------------------------------------------------ model') + '''
fn world() -> World {
    let w = World::default();
    w.with(|i| {
        i.issuer.credential_issuer = ISSUER.into();
        for id in ["A", "B"] {
            i.issuer.credential_configurations_supported.insert(id.into(), CredentialConfiguration::default());
        }
        let o = &mut i.server.oauth;
        o.grant_types_supported = Some(vec![GrantType::PreAuthorizedCode, GrantType::AuthorizationCode]);
        o.response_types_supported = vec![serde_json::from_value(json!("code")).unwrap()];
        o.code_challenge_methods_supported = Some(vec![serde_json::from_value(json!("S256")).unwrap()]);
    });
    w
}
fn offered(w: &World, grants: Option<Grants>) -> String {
    let q = OfferRequest { client_id: "client".into(), subject_id: "sub".into(), offer: CredentialOffer { credential_issuer: ISSUER.into(), credential_configuration_ids: vec!["A".into(), "B".into()], grants } };
    block_on(offer(w.clone(), &q)).expect("offered").issuance_id
}
fn pre(tx_code: Option<TxCode>) -> Option<Grants> {
    Some(Grants { authorization_code: None, pre_authorized_code: Some(PreAuthorizedCodeGrant { pre_authorized_code: "pre".into(), tx_code, authorization_server: None }) })
}
fn accepted(w: &World, id: &str, accept: Option<Vec<AuthorizationSpec>>) {
    block_on(accept_(w, &AcceptRequest { issuance_id: id.into(), accept })).expect("accepted");
}
async fn accept_(w: &World, q: &AcceptRequest) -> Result<String> { issuance::accept(w.clone(), q).await }
/// a flow with a token for the identifiers given
fn granted(w: &World, ids: &[&str]) -> String {
    let id = offered(w, pre(None));
    accepted(w, &id, None);
    block_on(token_(w, &id)).expect("token");
    let mut f = w.flow(&id).expect("flow");
    let mut d = AuthorizedDetail::default();
    d.authorization_detail.credential = CredentialAuthorization::ConfigurationId { credential_configuration_id: "A".into(), claims: None };
    d.credential_identifiers = ids.iter().map(|x| x.to_string()).collect();
    f.token.authorization_details = Some(vec![d]);
    w.with(|i| {
        i.store.insert(id.clone(), json!(f));
        i.log.clear();
    });
    id
}
async fn token_(w: &World, id: &str) -> Result<AuthorizedCredentials> { issuance::token(w.clone(), id).await }
fn log(w: &World) -> Vec<Call> { w.with(|i| i.log.clone()) }
fn object() -> Asked {
    serde_json::from_value(json!({"response_type": "vp_token", "client_id": "http://v.example/post", "nonce": "n",
        "presentation_definition": {"id": "pd", "input_descriptors": [{"id": "d", "constraints": {}}]}, "client_metadata": {"client_id": "http://v.example"}})).unwrap()
}
'''
def hold(id, prop, needs, breaks, edits, body, subs=()):
    m = PRE
    for a, b in subs:
        assert m.count(a) == 1, a
        m = m.replace(a, b)
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, crates=CR, deps=DEPS, main=m + 'fn main() {\n    let w = world();\n' + body + '}\n')
I, P = 'vercre-holder/src/issuance/', 'vercre-holder/src/presentation/'
SEEDS = [
 hold('H01-pin', 'H01', 'an offer that asks for a transaction code without saying how long it is', 'the flow does not wait for the PIN and asks for a token without it',
  [(I + 'accept.rs', 'if pre_auth_code.tx_code.is_some() {', 'if pre_auth_code.tx_code.as_ref().is_some_and(|tx_code| tx_code.length.is_some()) {')], """
    for length in [Some(4), None] {
        let id = offered(&w, pre(Some(TxCode { length, ..TxCode::default() })));
        accepted(&w, &id, None);
        assert_eq!(w.flow(&id).unwrap().status, issuance::Status::PendingPin, "not waiting for a PIN of length {length:?}");
    }
"""),
 hold('H01-dup', 'H01', 'two credentials of the same type from one issuer received in one flow', 'only the first of them is stored, and the flow ends',
  [(I + 'save.rs', """    for credential in &issuance.credentials {
        match""", """    for (i, credential) in issuance.credentials.iter().enumerate() {
        // a credential of this kind is already stored
        if issuance.credentials[..i]
            .iter()
            .any(|c| c.issuer == credential.issuer && c.vc.type_ == credential.vc.type_)
        {
            continue;
        }
        match""")], """
    let id = granted(&w, &["c1", "c2"]);
    block_on(credentials(w.clone(), &CredentialsRequest { issuance_id: id.clone(), credential_identifiers: None, format: None })).expect("received");
    assert_eq!(w.flow(&id).unwrap().credentials.len(), 2);
    w.with(|i| i.log.clear());
    block_on(save(w.clone(), &SaveRequest { issuance_id: id.clone() })).expect("saved");
    let n = log(&w).iter().filter(|c| matches!(c, C::Save(..))).count();
    assert_eq!(n, 2, "credentials were lost");
"""),
 hold('H02-narrow', 'H02', 'every credential offered is accepted, one of them with fewer claims', 'the token is requested without the narrowing, for everything offered',
  [(I + 'token.rs', '        authorization_details: issuance.accepted.clone(),', """        // details are only needed to accept part of an offer
        authorization_details: issuance
            .accepted
            .clone()
            .filter(|a| a.len() < issuance.offer.credential_configuration_ids.len()),""")], """
    for ids in [vec!["A"], vec!["A", "B"]] {
        let id = offered(&w, pre(None));
        let claims = HashMap::from([("a".to_string(), Claim::default())]);
        let n = ids.len();
        accepted(&w, &id, Some(ids.into_iter().map(|k| AuthorizationSpec { credential_configuration_id: k.into(), claims: (k == "A").then(|| claims.clone()) }).collect()));
        w.with(|i| i.log.clear());
        block_on(token_(&w, &id)).expect("token");
        let Some(C::Token(q, _)) = log(&w).pop() else { panic!("no request") };
        assert_eq!(json!(q.authorization_details), json!(w.flow(&id).unwrap().accepted), "not what was accepted");
    }
"""),
 hold('H02-noaccept', 'H02', 'an offer without grants, authorized before the holder accepts it', 'a token is requested and granted for an offer nobody accepted',
  [(I + 'authorize.rs', """                        if !grant_types.contains(&GrantType::AuthorizationCode)
                            || issuance.status != Status::Accepted""", """                        if !grant_types.contains(&GrantType::AuthorizationCode)
                            && issuance.status != Status::Accepted""")], """
    let go = |accept: bool| {
        let id = offered(&w, None);
        if accept {
            accepted(&w, &id, None);
        }
        block_on(issuance::authorize(w.clone(), &AuthorizeRequest { initiator: Initiator::Issuer { issuance_id: id }, redirect_uri: None, authorization_details: None }))
    };
    assert!(go(true).is_ok());
    assert!(go(false).is_err(), "authorized an offer that is not accepted");
"""),
 hold('H03-nonce', 'H03', 'two credentials from an issuer that sends nonces without a lifetime', 'the second request proves possession with a nonce that is no longer current',
  [(I + 'credentials.rs', """            if cred_res.c_nonce.is_some() {
                issuance""", """            if cred_res.c_nonce.is_some() && cred_res.c_nonce_expires_in.is_some() {
                issuance""")], """
    let id = granted(&w, &["c1", "c2"]);
    block_on(credentials(w.clone(), &CredentialsRequest { issuance_id: id.clone(), credential_identifiers: None, format: None })).expect("received");
    let l = log(&w);
    let [C::Credential(_, Some(a)), C::Credential(q, _)] = &l[..] else { panic!("{l:?}") };
    let Some(Proof::Single { proof_type: SingleProof::Jwt { jwt } }) = &q.proof else { panic!("no proof") };
    assert_eq!(open(jwt).expect("signed").1["nonce"], json!(a.c_nonce), "not the current nonce");
""", [('c_nonce_expires_in: (!one_in(4)).then_some(n as i64),', 'c_nonce_expires_in: None,')]),
 hold('H03-prefix', 'H03', 'a credential identifier that starts with another one that is wanted', 'a credential the holder does not want is requested and received',
  [(I + 'credentials.rs', 'if !ids.contains(cred_id) {', 'if !ids.iter().any(|id| cred_id.starts_with(id.as_str())) {')], """
    let id = granted(&w, &["c2", "c1", "c11"]);
    block_on(credentials(w.clone(), &CredentialsRequest { issuance_id: id.clone(), credential_identifiers: Some(vec!["c1".into()]), format: None })).expect("received");
    assert_eq!(log(&w).len(), 1, "more than was wanted");
"""),
 hold('H04-unsigned', 'H04', 'a request fetched from a verifier that answers with a plain object', 'an unsigned presentation request is taken up',
  [(P + 'request.rs', """    let RequestObjectType::Jwt(token) = &res.request_object else {
        bail!("no serialized JWT found in response");
    };
""", """    let token = match &res.request_object {
        RequestObjectType::Jwt(token) => token,
        RequestObjectType::Object(req_obj) => return Ok(req_obj.clone()),
    };
""")], """
    let go = |o: RequestObjectType| {
        w.with(|i| i.asked = Some(o));
        block_on(presentation::request(w.clone(), &"http://v.example/request/1".to_string()))
    };
    let t = token("oauth-authz-req+jwt", "did:key:v", true, &json!(object()));
    assert!(go(RequestObjectType::Jwt(t)).is_ok());
    assert!(go(RequestObjectType::Object(object())).is_err(), "an unsigned request is taken up");
"""),
 hold('H04-failed', 'H04', 'a flow that has failed, authorized again', 'a presentation flow that failed can be authorized',
  [(P + 'authorize.rs', 'if presentation.status != Status::Requested {', 'if matches!(presentation.status, Status::Inactive | Status::Authorized) {')], """
    let go = |status: presentation::Status| {
        let p = Presentation { id: "p".into(), status, request: object(), ..Presentation::default() };
        w.with(|i| i.store.insert("p".into(), json!(p)));
        block_on(presentation::authorize(w.clone(), "p".into()))
    };
    assert!(go(presentation::Status::Requested).is_ok());
    assert!(go(presentation::Status::Failed("no".into())).is_err(), "a failed flow is authorized");
"""),
]
