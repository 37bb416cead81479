//! Stand-in (not available offline): re-exports an ordinary macro unchanged.
extern crate proc_macro;
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn proc_macro_hack(_args: TokenStream, item: TokenStream) -> TokenStream { item }
