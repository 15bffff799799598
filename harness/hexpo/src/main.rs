#[path = "../../common/sym.rs"]
#[macro_use]
mod sym;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c22;
mod c25;
mod expo;
mod parq;
mod stat;
mod util;

harnesses! {
    c14::h_c14_states, c14::h_c14_filter, c14::h_c14_dynamic, c14::h_c14_race, c14::h_c14_collide, c14::h_c14_same_name, c14::h_c14_panic,
    c15::h_c15_known, c15::h_c15_other, c15::h_c15_histogram, c15::h_c15_two,
    c16::h_c16_two, c16::h_c16_sparse, c16::h_c16_three, c16::h_c16_groups, c16::h_c16_time, c16::h_c16_same_name, c16::h_c16_labels,
    c17::h_c17_labels, c17::h_c17_file, c17::h_c17_options, c17::h_c17_groups,
    c18::h_c18_accessors,
    c19::h_c19_equal, c19::h_c19_three, c19::h_c19_pieces, c19::h_c19_long, c19::h_c19_truncated, c19::h_c19_corrupt_c, c19::h_c19_corrupt_g, c19::h_c19_corrupt_h, c19::h_c19_corrupt_all, c19::h_c19_garbage, c19::h_c19_read_fault, c19::h_c19_write_fault,
    c20::h_c20_mp_values, c20::h_c20_mp_time, c20::h_c20_mp_hist, c20::h_c20_hist_wide, c20::h_c20_mp_text, c20::h_c20_mp_text3, c20::h_c20_json_text, c20::h_c20_sizes, c20::h_c20_json_values, c20::h_c20_json_values20, c20::h_c20_json_time,
    c22::h_c22_configs, c22::h_c22_wide, c22::h_c22_many, c22::h_c22_huge, c22::h_c22_rows,
    c25::h_c25_quiet, c25::h_c25_copy, c25::h_c25_race,
}
