//! stand-in: process-unique identifiers
use std::sync::atomic::{AtomicU64, Ordering};
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Uuid(u64);
static N: AtomicU64 = AtomicU64::new(1);
impl Uuid { pub fn new_v4() -> Self { Self(N.fetch_add(1, Ordering::SeqCst)) } }
impl std::fmt::Display for Uuid {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:08x}-0000-4000-8000-{:012x}", self.0, self.0) }
}
