//! stand-in: leaves the function as it is
#[proc_macro_attribute]
pub fn instrument(_: proc_macro::TokenStream, item: proc_macro::TokenStream) -> proc_macro::TokenStream { item }
