#[path = "../../common/sym.rs"]
#[macro_use]
mod sym;
mod c09;
mod statics;

harnesses! {
    c09::h_c09_complete, c09::h_c09_mix, c09::h_c09_mix3, c09::h_c09_mix4, c09::h_c09_dyn, c09::h_c09_dyn3, c09::h_c09_many,
}
