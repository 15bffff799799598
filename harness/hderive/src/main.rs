#[path = "../../common/sym.rs"]
#[macro_use]
mod sym;
mod c21;
mod util;

harnesses! {
    c21::h_c21_args2, c21::h_c21_args3, c21::h_c21_args4, c21::h_c21_orders, c21::h_c21_malformed, c21::h_c21_literals,
}
