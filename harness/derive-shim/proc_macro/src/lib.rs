//! Stands in for the compiler's `proc_macro`.
pub use proc_macro2::*;
