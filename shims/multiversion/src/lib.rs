//! Verification stand-in for `multiversion`: the attribute compiles the same body for
//! several instruction sets and picks one at run time; here the body is compiled once.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn multiversion(_attr: TokenStream, item: TokenStream) -> TokenStream { item }
