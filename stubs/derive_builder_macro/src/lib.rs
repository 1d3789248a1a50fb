//! stand-in: derives nothing
#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(_: proc_macro::TokenStream) -> proc_macro::TokenStream { proc_macro::TokenStream::new() }
