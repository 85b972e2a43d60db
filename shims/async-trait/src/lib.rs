//! Stand-in for `async-trait` (not available offline): async functions in traits are part of the language now.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream { item }
