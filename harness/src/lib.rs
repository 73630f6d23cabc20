//! Symbolic harnesses over the public API of the `json` crate. Every `h_*` function is an entry
//! point `extern "C" fn(u64, u64, u64)`; its symbolic inputs come from `sym`.
#![allow(dead_code)]
pub mod cmp;
pub mod flt;
pub mod num;
pub mod obj;
pub mod parse;
pub mod refp;
pub mod sym;
pub mod val;
pub mod ser;
pub mod shr;
pub mod doc;
pub mod own;

macro_rules! table {
    ($($m:ident: $($f:ident),*;)*) => {
        /// harnesses by name, for the native replay
        #[cfg(feature = "native")]
        pub static TABLE: &[(&str, extern "C" fn(u64, u64, u64))] = &[$($((stringify!($f), $m::$f)),*),*];
    };
}
table! {
    parse: h_parse_n, h_parse_str, h_parse_t, h_parse_buf, h_parse_deep, h_parse_abyss, h_parse_mut, h_parse_long, h_parse_num, h_parse_numlong, h_parse_far, h_parse_gen;
    num: h_print, h_from_int, h_to_int, h_fixed, h_num_eq, h_parts;
    obj: h_obj, h_clone, h_obj_many;
    val: h_eq, h_eq_shape, h_eq_native, h_array, h_array_many, h_contains, h_access, h_mix, h_string, h_build, h_build_many;
    flt: h_read, h_read_nan, h_from_f64, h_from_sub64, h_from_f32, h_from_sub32, h_from_special;
    ser: h_escape, h_layout, h_layout_deep, h_layout_wide, h_round_wide, h_display_wide, h_fault, h_round, h_round_deep, h_round_str, h_round_num, h_display, h_error;
    shr: h_share, h_share_num;
    doc: h_edit, h_edit_two;
    own: h_gen, h_gen_deep, h_gen_parts;
}
