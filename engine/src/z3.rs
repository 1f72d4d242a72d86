//! Minimal hand-written FFI to the system libz3 (C API).
#![allow(non_camel_case_types, non_snake_case)]
use std::os::raw::{c_char, c_int, c_uint, c_void};
pub type P = *mut c_void;
extern "C" {
    pub fn Z3_mk_config() -> P;
    pub fn Z3_del_config(c: P);
    pub fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    pub fn Z3_mk_context_rc(c: P) -> P;
    pub fn Z3_inc_ref(c: P, a: P);
    pub fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    pub fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    pub fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    pub fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    pub fn Z3_mk_true(c: P) -> P;
    pub fn Z3_mk_false(c: P) -> P;
    pub fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_not(c: P, a: P) -> P;
    pub fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    pub fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    pub fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    pub fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    pub fn Z3_solver_inc_ref(c: P, s: P);
    pub fn Z3_solver_assert(c: P, s: P, a: P);
    pub fn Z3_mk_simple_solver(c: P) -> P;
    pub fn Z3_mk_bool_sort(c: P) -> P;
    pub fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    pub fn Z3_solver_dec_ref(c: P, s: P);
    pub fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    pub fn Z3_solver_get_model(c: P, s: P) -> P;
    pub fn Z3_solver_set_params(c: P, s: P, p: P);
    pub fn Z3_mk_params(c: P) -> P;
    pub fn Z3_params_inc_ref(c: P, p: P);
    pub fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    pub fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    pub fn Z3_model_inc_ref(c: P, m: P);
    pub fn Z3_model_dec_ref(c: P, m: P);
    pub fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    pub fn Z3_get_numeral_uint64(c: P, v: P, o: *mut u64) -> bool;
    pub fn Z3_get_error_code(c: P) -> c_int;
    pub fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    pub fn Z3_get_full_version() -> *const c_char;
}
