#[path = "../../common/sym.rs"]
#[macro_use]
mod sym;
mod c21s;
mod util;

harnesses! {
    c21s::h_c21_statics, c21s::h_c21_values,
}
