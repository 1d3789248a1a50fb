//! views of the request types, field by field
use serde_json::{json, Value};
use vercre_openid::issuer::*;

pub fn check(kind: &str, src: &str, got: Value, want: &str) {
    let want: Value = serde_json::from_str(want).unwrap();
    if got != want {
        println!("FAIL {kind}_request!({src}) built {got}, not {want}");
    }
}
fn claims(m: &std::collections::HashMap<String, Claim>) -> Value {
    Value::Object(m.iter().map(|(k, v)| (k.clone(), match v {
        Claim::Set(s) => claims(s),
        Claim::Entry(d) => if *d == ClaimDefinition::default() { Value::Null } else { json!(format!("{d:?}")) },
    })).collect())
}
fn definition(d: &CredentialDefinition) -> Value {
    json!({"context": d.context, "type": d.type_, "subject": d.credential_subject.as_ref().map(claims)})
}
fn format(f: &Format) -> Value {
    match f { Format::JwtVcJson(w) => json!({"jwt_vc_json": definition(&w.credential_definition)}), o => json!(format!("{o:?}")) }
}
fn details(d: &Option<Vec<AuthorizationDetail>>) -> Value {
    json!(d.as_ref().map(|v| v.iter().map(|d| json!({
        "type": format!("{:?}", d.type_), "locations": d.locations,
        "credential": match &d.credential {
            CredentialAuthorization::ConfigurationId { credential_configuration_id, claims } => json!({"id": credential_configuration_id,
                "claims": claims.as_ref().map(|c| match c { ProfileClaims::W3c(d) => json!({"w3c": definition(d)}), o => json!(format!("{o:?}")) })}),
            CredentialAuthorization::Format(f) => json!({"format": format(f)}),
        }
    })).collect::<Vec<_>>()))
}
pub fn create_offer(r: &CreateOfferRequest) -> Value {
    json!({"credential_issuer": r.credential_issuer, "subject_id": r.subject_id, "credential_configuration_ids": r.credential_configuration_ids,
        "grant_types": r.grant_types.as_ref().map(|g| g.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>()), "tx_code_required": r.tx_code_required, "send_type": format!("{:?}", r.send_type)})
}
pub fn authorization(r: &AuthorizationRequest) -> Value {
    let AuthorizationRequest::Object(r) = r else { return json!("not a request object") };
    json!({"credential_issuer": r.credential_issuer, "response_type": r.response_type, "client_id": r.client_id, "redirect_uri": r.redirect_uri, "state": r.state,
        "code_challenge": r.code_challenge, "code_challenge_method": r.code_challenge_method, "authorization_details": details(&r.authorization_details), "scope": r.scope,
        "resource": r.resource, "subject_id": r.subject_id, "wallet_issuer": r.wallet_issuer, "user_hint": r.user_hint, "issuer_state": r.issuer_state})
}
pub fn token(r: &TokenRequest) -> Value {
    json!({"credential_issuer": r.credential_issuer, "client_id": r.client_id, "authorization_details": details(&r.authorization_details),
        "client_assertion": r.client_assertion.as_ref().map(|_| "set"),
        "grant_type": match &r.grant_type {
            TokenGrantType::PreAuthorizedCode { pre_authorized_code, tx_code } => json!({"pre": {"code": pre_authorized_code, "tx_code": tx_code}}),
            TokenGrantType::AuthorizationCode { code, redirect_uri, code_verifier } => json!({"auth": {"code": code, "redirect_uri": redirect_uri, "code_verifier": code_verifier}}),
        }})
}
pub fn credential(r: &CredentialRequest) -> Value {
    json!({"credential_issuer": r.credential_issuer, "access_token": r.access_token, "encryption": r.credential_response_encryption.as_ref().map(|_| "set"),
        "credential": match &r.credential { CredentialIssuance::Identifier { credential_identifier } => json!({"id": credential_identifier}), CredentialIssuance::Format(f) => json!({"format": format(f)}) },
        "proof": r.proof.as_ref().map(|p| match p { Proof::Single { proof_type: SingleProof::Jwt { jwt } } => json!(jwt), o => json!(format!("{o:?}")) })})
}
