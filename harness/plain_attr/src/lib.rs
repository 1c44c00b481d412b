//! The builtin attribute without its calling convention: the function stays as written.
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn monoruby_builtin(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}

#[proc_macro_attribute]
pub fn monoruby_object(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}
