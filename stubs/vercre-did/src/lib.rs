//! stand-in for vercre-did: a document holds the keys of its verification methods
use serde::{Deserialize, Serialize};
use std::future::Future;
use vercre_infosec::PublicKeyJwk;
pub trait DidResolver: Send + Sync { fn resolve(&self, url: &str) -> impl Future<Output = anyhow::Result<Document>> + Send; }
#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub struct Document { pub id: String, pub keys: Vec<VerificationMethod> }
#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub struct MethodType(pub PublicKeyJwk);
impl MethodType { pub fn jwk(&self) -> anyhow::Result<PublicKeyJwk> { Ok(self.0.clone()) } }
#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub struct VerificationMethod { pub id: String, pub method_type: MethodType }
pub enum Resource { Document(Document), VerificationMethod(VerificationMethod) }
pub struct Dereferenced { pub content_stream: Option<Resource> }
pub struct Options;
pub async fn dereference(url: &str, _: Option<Options>, resolver: &impl DidResolver) -> anyhow::Result<Dereferenced> {
    let did = url.split('#').next().unwrap_or_default();
    let doc = resolver.resolve(did).await?;
    let vm = doc.keys.iter().find(|k| k.id == url).cloned();
    Ok(Dereferenced { content_stream: vm.map(Resource::VerificationMethod) })
}
