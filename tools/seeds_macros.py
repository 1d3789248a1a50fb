A = 'crates/macros/src/'
MOCK = '''#[allow(dead_code)]
mod vercre_issuer {
    use std::collections::HashMap;
    #[derive(Debug, PartialEq, Clone, Copy)] pub enum GrantType { PreAuthorizedCode, AuthorizationCode }
    #[derive(Debug, PartialEq)] pub enum SendType { ByVal, ByRef }
    #[derive(Debug, PartialEq)] pub struct CreateOfferRequest { pub credential_issuer: String, pub subject_id: Option<String>, pub credential_configuration_ids: Vec<String>,
        pub grant_types: Option<Vec<GrantType>>, pub tx_code_required: bool, pub send_type: SendType }
    #[derive(Debug, PartialEq, Default)] pub struct ClaimDefinition { pub mandatory: Option<bool> }
    #[derive(Debug, PartialEq)] pub enum Claim { Set(HashMap<String, Claim>), Entry(ClaimDefinition) }
    #[derive(Debug, PartialEq)] pub struct CredentialDefinition { pub context: Option<Vec<String>>, pub type_: Option<Vec<String>>, pub credential_subject: Option<HashMap<String, Claim>> }
    #[derive(Debug, PartialEq)] pub struct ProfileW3c { pub credential_definition: CredentialDefinition }
    #[derive(Debug, PartialEq)] pub enum Format { JwtVcJson(ProfileW3c) }
    #[derive(Debug, PartialEq)] pub enum ProfileClaims { W3c(CredentialDefinition) }
    #[derive(Debug, PartialEq)] pub enum CredentialAuthorization { ConfigurationId { credential_configuration_id: String, claims: Option<ProfileClaims> }, Format(Format) }
    #[derive(Debug, PartialEq)] pub enum AuthorizationDetailType { OpenIdCredential }
    #[derive(Debug, PartialEq)] pub struct AuthorizationDetail { pub type_: AuthorizationDetailType, pub credential: CredentialAuthorization, pub locations: Option<Vec<String>> }
    #[derive(Debug, PartialEq)] pub enum TokenGrantType { PreAuthorizedCode { pre_authorized_code: String, tx_code: Option<String> },
        AuthorizationCode { code: String, redirect_uri: Option<String>, code_verifier: Option<String> } }
    #[derive(Debug, PartialEq)] pub struct TokenRequest { pub credential_issuer: String, pub client_id: Option<String>, pub grant_type: TokenGrantType,
        pub authorization_details: Option<Vec<AuthorizationDetail>>, pub client_assertion: Option<String> }
}
use vercre_issuer::*;
'''
def mac(id, needs, breaks, edits, main):
    return dict(id=id, property='M01', needs=needs, breaks=breaks, edits=edits, main='#![allow(unused_imports)]\n' + MOCK + main, crate='macros', pkg='vercre-macros', deps='')
SEEDS = [
 mac('M01-nested', 'a claim set with exactly one nested claim', 'nested claim sets with one member are requested as a plain claim, dropping the nested claim',
  [(A + 'authorization.rs', '&& !nested.is_empty()', '&& nested.len() > 1')],
  '''
fn main() {
    let r = vercre_macros::token_request!({
        "credential_issuer": "http://vercre.io",
        "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code",
        "pre-authorized_code": "1234",
        "authorization_details": [{
            "type": "openid_credential",
            "credential_configuration_id": "Employee",
            "credential_definition": { "credentialSubject": { "address": { "street": {} }, "name": {} } }
        }]
    });
    let CredentialAuthorization::ConfigurationId { claims: Some(ProfileClaims::W3c(def)), .. } = &r.authorization_details.as_ref().unwrap()[0].credential else { panic!() };
    let subject = def.credential_subject.as_ref().unwrap();
    assert!(matches!(&subject["name"], Claim::Entry(_)));
    assert!(matches!(&subject["address"], Claim::Set(s) if s.contains_key("street")), "{subject:?}");
}
'''),
 mac('M01-empty', 'an optional field given as empty text', 'an optional field written as empty text is left out of the request',
  [(A + 'parse.rs', '''        self.fields.remove(key).map_or_else(''', '''        self.fields.remove(key).filter(|v| v.as_str() != Some("")).map_or_else(''')],
  '''
fn main() {
    let r = vercre_macros::token_request!({
        "credential_issuer": "http://vercre.io",
        "client_id": "",
        "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code",
        "pre-authorized_code": "1234",
        "tx_code": "1"
    });
    assert_eq!(r.client_id, Some(String::new()));
    assert_eq!(r.grant_type, TokenGrantType::PreAuthorizedCode { pre_authorized_code: "1234".into(), tx_code: Some("1".into()) });
}
'''),
]
