mod disp;
mod gen;
mod mat;
mod res;
mod rt;
mod sel;
mod store;
mod tok;
use disp::*;
use mat::*;
use res::*;
use rt::*;
use sel::*;
use store::*;
use tok::*;

macro_rules! table { ($($n:ident),* $(,)?) => { &[$((stringify!($n), $n as extern "C" fn())),*] } }

fn main() {
    native(table![
        c01_full1, c01_full2, c01_full3, c01_alpha3, c01_alpha5, c01_multi2, c01_multi3, c01_long, c01_many, c01_vast, c01_string,
        c02_full1, c02_full2, c02_alpha3, c02_alpha4, c02_alpha5, c02_in_word, c02_digits, c02_joined2, c02_joined4, c02_joined3, c02_mid, c02_vast, c02_long,
        c03_full1, c03_full2, c03_mix, c03_alpha4, c03_long, c03_many, c03_vast,
        c04_pipe_long, c04_pipe2, c04_pipe3, c04_pipe_any, c04_full1, c04_full2, c04_digit_any, c04_alpha4, c04_in_word, c04_vast, c04_empty, c04_empty_str,
        c05_two, c05_three, c05_four, c05_shapes1, c05_shapes2, c05_load, c05_pieces, c05_own_types,
        c06_two, c06_three, c06_three_p, c06_four_p, c06_wide, c06_far, c06_vast, c06_load, c06_ranges, c06_pass, c06_types, c06_one_pass, c06_many, c06_kinds, c06_any_kinds,
        c07_one, c07_two, c07_wide, c07_far, c07_single, c07_passes, c07_commute, c07_empty, c07_kinds, c07_again, c07_dense, c07_crowd,
        c08_two, c08_three, c08_wide, c08_far, c08_far2, c08_vast, c08_dense,
        c09_fwd2, c09_fwd3, c09_fwd_wide, c09_far, c09_vast, c09_fwd6, c09_bare, c09_dense, c09_sets, c09_kinds,
        c10_bwd2, c10_bwd3, c10_bwd_wide, c10_far, c10_vast, c10_bwd6, c10_bare, c10_mirror, c10_dense, c10_kinds,
        c11_fwd2, c11_bwd2, c11_three_fwd, c11_three_bwd, c11_fwd3, c11_bwd3, c11_far_fwd, c11_far_bwd, c11_dense_fwd, c11_dense_bwd, c11_kinds_fwd, c11_kinds_bwd, c11_fan_fwd, c11_fan_bwd,
        c12_fwd2, c12_bwd2, c12_fwd3, c12_bwd3, c12_product, c12_dense_fwd, c12_dense_bwd, c12_kinds_fwd, c12_kinds_bwd, c12_fan,
        c13_ops2, c13_ops2m, c13_ops3, c13_ops3m, c13_wide, c13_eq, c13_kinds,
        c14_two, c14_three, c14_three_p, c14_wide, c14_far, c14_vast, c14_grid, c14_grid3, c14_many, c14_dense, c14_lone, c14_kinds,
        c15_two, c15_three, c15_wide, c15_far, c15_vast, c15_far2, c15_walk, c15_grid, c15_grid3, c15_many, c15_dense, c15_kinds,
        c16_two, c16_three, c16_types, c16_wide, c16_far, c16_far2, c16_list, c16_list8, c16_grid, c16_grid3, c16_many, c16_dense, c16_vast, c16_kinds,
        c17_cut, c17_cut6, c17_cut9, c17_far, c17_vast, c17_other_line, c17_kinds,
        c18_two, c18_two4, c18_three, c18_wide, c18_far, c18_far2, c18_blanks, c18_grid, c18_grid3, c18_dense, c18_vast, c18_kinds,
        c19_exact, c19_nocase, c19_arr, c19_exact3, c19_nocase3, c19_arr3, c19_letters, c19_whole, c19_many, c19_odd, c19_long, c19_vast,
        c20_en4, c20_en5, c20_en6, c20_fr4, c20_fr5, c20_cu4, c20_cu5, c20_fr6, c20_big, c20_huge, c20_rows, c20_rows3, c20_delims, c20_groups, c20_groups2, c20_groups3, c20_many, c20_long_int, c20_long_groups, c20_long_frac, c20_long_both, c20_config, c20_doc, c20_doc_frac,
        c21_chain1, c21_chain2, c21_chain2m, c21_far, c21_lists, c21_lists3, c21_dense, c21_lists_far, c21_vast, c21_kinds,
        c22_letters, c22_words2, c22_words3, c22_lists, c22_odd, c22_many, c22_long,
        c23_four, c23_five, c23_six, c23_long, c23_long5, c23_many, c23_vast, c23_marks, c23_ranges, c23_ranges7, c23_ranges3,
        c24_case, c24_mixed2, c24_mixed3, c24_odd, c24_known, c24_vast, c24_many, c24_letters, c24_letter1,
        c25_one, c25_two, c25_types, c25_three, c25_widths2, c25_widths3, c25_lengths, c25_empty, c25_values, c25_many, c25_vast,
        c26_extract, c26_owned, c26_mixed, c26_many, c26_drops,
    ]);
}
