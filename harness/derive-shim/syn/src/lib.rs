//! The real `syn`, with the entry points that take the compiler's token streams taking `proc_macro2`'s.
pub use syn::*;

pub fn parse<T: syn::parse::Parse>(tokens: proc_macro2::TokenStream) -> syn::Result<T> {
    syn::parse2(tokens)
}

#[macro_export]
macro_rules! parse_macro_input {
    ($tokens:ident as $ty:ty) => {
        match $crate::parse::<$ty>($tokens) {
            Ok(x) => x,
            Err(e) => return e.to_compile_error().into(),
        }
    };
    ($tokens:ident) => {
        $crate::parse_macro_input!($tokens as _)
    };
}
