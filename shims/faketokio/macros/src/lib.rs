use proc_macro::TokenStream;
/// Leaves the function as it is: the harness runs it.
#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
