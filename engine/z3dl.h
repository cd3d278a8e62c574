// The Z3 C API through dlopen(RTLD_DEEPBIND): the solver must not pick up the instrumented
// instances of libstdc++ templates that the symbolic executable exports.
#pragma once
#include <dlfcn.h>
#include <z3.h>
#define Z3_FUNCTIONS X(Z3_del_config) X(Z3_get_bool_value) X(Z3_get_error_msg) X(Z3_get_numeral_uint64) X(Z3_inc_ref) X(Z3_mk_and) X(Z3_mk_bool_sort) \
    X(Z3_mk_bv_sort) X(Z3_mk_bvadd) X(Z3_mk_bvand) X(Z3_mk_bvashr) X(Z3_mk_bvlshr) X(Z3_mk_bvmul) X(Z3_mk_bvor) X(Z3_mk_bvsdiv) X(Z3_mk_bvshl) \
    X(Z3_mk_bvslt) X(Z3_mk_bvsrem) X(Z3_mk_bvsub) X(Z3_mk_bvudiv) X(Z3_mk_bvule) X(Z3_mk_bvult) X(Z3_mk_bvurem) X(Z3_mk_bvxor) X(Z3_mk_concat) \
    X(Z3_mk_config) X(Z3_mk_const) X(Z3_mk_context) X(Z3_mk_eq) X(Z3_mk_extract) X(Z3_mk_false) X(Z3_mk_fpa_add) X(Z3_mk_fpa_div) X(Z3_mk_fpa_mul) \
    X(Z3_mk_fpa_rne) X(Z3_mk_fpa_rtz) X(Z3_mk_fpa_sort_32) X(Z3_mk_fpa_sort_64) X(Z3_mk_fpa_sub) X(Z3_mk_fpa_to_fp_bv) X(Z3_mk_fpa_to_fp_float) \
    X(Z3_mk_fpa_to_fp_signed) X(Z3_mk_fpa_to_fp_unsigned) X(Z3_mk_fpa_to_ieee_bv) X(Z3_mk_fpa_to_sbv) X(Z3_mk_fpa_to_ubv) X(Z3_mk_iff) X(Z3_mk_ite) \
    X(Z3_mk_not) X(Z3_mk_or) X(Z3_mk_params) X(Z3_mk_sign_ext) X(Z3_mk_simple_solver) X(Z3_mk_solver_for_logic) X(Z3_mk_string_symbol) X(Z3_mk_true) \
    X(Z3_mk_unsigned_int64) X(Z3_mk_xor) X(Z3_mk_zero_ext) X(Z3_model_dec_ref) X(Z3_model_eval) X(Z3_model_inc_ref) X(Z3_params_inc_ref) \
    X(Z3_params_set_uint) X(Z3_set_error_handler) X(Z3_set_param_value) X(Z3_solver_assert) X(Z3_solver_check) X(Z3_solver_get_model) \
    X(Z3_solver_get_reason_unknown) X(Z3_solver_inc_ref) X(Z3_solver_pop) X(Z3_solver_push) X(Z3_solver_set_params) X(Z3_sort_to_ast) 
namespace z3dl {
#define X(f) static decltype(&::f) f;
Z3_FUNCTIONS
#undef X
inline bool open(const char* path)
{
    void* h = dlopen(path, RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND);
    if (!h) { fprintf(stderr, "symx: %s\n", dlerror()); return false; }
#define X(f) if (!(f = (decltype(f))dlsym(h, #f))) { fprintf(stderr, "symx: no %s\n", #f); return false; }
Z3_FUNCTIONS
#undef X
    return true;
}
}
#define Z3_del_config z3dl::Z3_del_config
#define Z3_get_bool_value z3dl::Z3_get_bool_value
#define Z3_get_error_msg z3dl::Z3_get_error_msg
#define Z3_get_numeral_uint64 z3dl::Z3_get_numeral_uint64
#define Z3_inc_ref z3dl::Z3_inc_ref
#define Z3_mk_and z3dl::Z3_mk_and
#define Z3_mk_bool_sort z3dl::Z3_mk_bool_sort
#define Z3_mk_bv_sort z3dl::Z3_mk_bv_sort
#define Z3_mk_bvadd z3dl::Z3_mk_bvadd
#define Z3_mk_bvand z3dl::Z3_mk_bvand
#define Z3_mk_bvashr z3dl::Z3_mk_bvashr
#define Z3_mk_bvlshr z3dl::Z3_mk_bvlshr
#define Z3_mk_bvmul z3dl::Z3_mk_bvmul
#define Z3_mk_bvor z3dl::Z3_mk_bvor
#define Z3_mk_bvsdiv z3dl::Z3_mk_bvsdiv
#define Z3_mk_bvshl z3dl::Z3_mk_bvshl
#define Z3_mk_bvslt z3dl::Z3_mk_bvslt
#define Z3_mk_bvsrem z3dl::Z3_mk_bvsrem
#define Z3_mk_bvsub z3dl::Z3_mk_bvsub
#define Z3_mk_bvudiv z3dl::Z3_mk_bvudiv
#define Z3_mk_bvule z3dl::Z3_mk_bvule
#define Z3_mk_bvult z3dl::Z3_mk_bvult
#define Z3_mk_bvurem z3dl::Z3_mk_bvurem
#define Z3_mk_bvxor z3dl::Z3_mk_bvxor
#define Z3_mk_concat z3dl::Z3_mk_concat
#define Z3_mk_config z3dl::Z3_mk_config
#define Z3_mk_const z3dl::Z3_mk_const
#define Z3_mk_context z3dl::Z3_mk_context
#define Z3_mk_eq z3dl::Z3_mk_eq
#define Z3_mk_extract z3dl::Z3_mk_extract
#define Z3_mk_false z3dl::Z3_mk_false
#define Z3_mk_fpa_add z3dl::Z3_mk_fpa_add
#define Z3_mk_fpa_div z3dl::Z3_mk_fpa_div
#define Z3_mk_fpa_mul z3dl::Z3_mk_fpa_mul
#define Z3_mk_fpa_rne z3dl::Z3_mk_fpa_rne
#define Z3_mk_fpa_rtz z3dl::Z3_mk_fpa_rtz
#define Z3_mk_fpa_sort_32 z3dl::Z3_mk_fpa_sort_32
#define Z3_mk_fpa_sort_64 z3dl::Z3_mk_fpa_sort_64
#define Z3_mk_fpa_sub z3dl::Z3_mk_fpa_sub
#define Z3_mk_fpa_to_fp_bv z3dl::Z3_mk_fpa_to_fp_bv
#define Z3_mk_fpa_to_fp_float z3dl::Z3_mk_fpa_to_fp_float
#define Z3_mk_fpa_to_fp_signed z3dl::Z3_mk_fpa_to_fp_signed
#define Z3_mk_fpa_to_fp_unsigned z3dl::Z3_mk_fpa_to_fp_unsigned
#define Z3_mk_fpa_to_ieee_bv z3dl::Z3_mk_fpa_to_ieee_bv
#define Z3_mk_fpa_to_sbv z3dl::Z3_mk_fpa_to_sbv
#define Z3_mk_fpa_to_ubv z3dl::Z3_mk_fpa_to_ubv
#define Z3_mk_iff z3dl::Z3_mk_iff
#define Z3_mk_ite z3dl::Z3_mk_ite
#define Z3_mk_not z3dl::Z3_mk_not
#define Z3_mk_or z3dl::Z3_mk_or
#define Z3_mk_params z3dl::Z3_mk_params
#define Z3_mk_sign_ext z3dl::Z3_mk_sign_ext
#define Z3_mk_simple_solver z3dl::Z3_mk_simple_solver
#define Z3_mk_solver_for_logic z3dl::Z3_mk_solver_for_logic
#define Z3_mk_string_symbol z3dl::Z3_mk_string_symbol
#define Z3_mk_true z3dl::Z3_mk_true
#define Z3_mk_unsigned_int64 z3dl::Z3_mk_unsigned_int64
#define Z3_mk_xor z3dl::Z3_mk_xor
#define Z3_mk_zero_ext z3dl::Z3_mk_zero_ext
#define Z3_model_dec_ref z3dl::Z3_model_dec_ref
#define Z3_model_eval z3dl::Z3_model_eval
#define Z3_model_inc_ref z3dl::Z3_model_inc_ref
#define Z3_params_inc_ref z3dl::Z3_params_inc_ref
#define Z3_params_set_uint z3dl::Z3_params_set_uint
#define Z3_set_error_handler z3dl::Z3_set_error_handler
#define Z3_set_param_value z3dl::Z3_set_param_value
#define Z3_solver_assert z3dl::Z3_solver_assert
#define Z3_solver_check z3dl::Z3_solver_check
#define Z3_solver_get_model z3dl::Z3_solver_get_model
#define Z3_solver_get_reason_unknown z3dl::Z3_solver_get_reason_unknown
#define Z3_solver_inc_ref z3dl::Z3_solver_inc_ref
#define Z3_solver_pop z3dl::Z3_solver_pop
#define Z3_solver_push z3dl::Z3_solver_push
#define Z3_solver_set_params z3dl::Z3_solver_set_params
#define Z3_sort_to_ast z3dl::Z3_sort_to_ast
