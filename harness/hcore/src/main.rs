#[path = "../../common/sym.rs"]
#[macro_use]
mod sym;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c10;
mod c11;
mod c12;
mod c13;
mod c23;
mod c24;
mod stat;
mod util;

harnesses! {
    c01::h_c01_seq, c01::h_c01_ops, c01::h_c01_par2, c01::h_c01_par3, c01::h_c01_entry, c01::h_c01_contended,
    c02::h_c02_seq, c02::h_c02_ops, c02::h_c02_par2, c02::h_c02_par3, c02::h_c02_contended,
    c03::h_c03_static, c03::h_c03_dynamic, c03::h_c03_par,
    c04::h_c04_seq, c04::h_c04_default, c04::h_c04_registry, c04::h_c04_race_touch, c04::h_c04_race_look, c04::h_c04_race3, c04::h_c04_panic, c04::h_c04_reenter,
    c05::h_c05_small, c05::h_c05_mid, c05::h_c05_wide, c05::h_c05_wide2, c05::h_c05_two, c05::h_c05_race, c05::h_c05_race_load, c05::h_c05_many, c05::h_c05_wide3, c05::h_c05_wide5, c05::h_c05_wide7, c05::h_c05_config,
    c06::h_c06_seq, c06::h_c06_race_load, c06::h_c06_race_reject, c06::h_c06_race_update,
    c07::h_c07_history, c07::h_c07_history_long, c07::h_c07_annotated, c07::h_c07_pinned, c07::h_c07_drop_order, c07::h_c07_race, c07::h_c07_handover, c07::h_c07_unwind, c07::h_c07_adjacent, c07::h_c07_old,
    c08::h_c08_hold, c08::h_c08_views, c08::h_c08_shared, c08::h_c08_writers, c08::h_c08_unwind,
    c10::h_c10_dynamic, c10::h_c10_dynamic_walk, c10::h_c10_static, c10::h_c10_static_walk, c10::h_c10_anykey,
    c11::h_c11_two, c11::h_c11_three, c11::h_c11_entry,
    c12::h_c12_calls2, c12::h_c12_calls3, c12::h_c12_calls4, c12::h_c12_two, c12::h_c12_static,
    c13::h_c13_dynamic, c13::h_c13_static, c13::h_c13_custom,
    c23::h_c23_static, c23::h_c23_dynamic, c23::h_c23_nested,
    c24::h_c24_life, c24::h_c24_life3, c24::h_c24_life4, c24::h_c24_order, c24::h_c24_unwind, c24::h_c24_kinds, c24::h_c24_lazy, c24::h_c24_race,
}
