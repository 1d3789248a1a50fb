//! stand-in: drops every event
pub use tracing_attributes::instrument;
#[macro_export] macro_rules! debug { ($($t:tt)*) => { { } } }
#[macro_export] macro_rules! error { ($($t:tt)*) => { { } } }
#[macro_export] macro_rules! info { ($($t:tt)*) => { { } } }
#[macro_export] macro_rules! trace { ($($t:tt)*) => { { } } }
#[macro_export] macro_rules! warn { ($($t:tt)*) => { { } } }
