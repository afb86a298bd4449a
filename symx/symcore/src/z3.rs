//! Minimal FFI to libz3 (the release shipped in the tooling venv).
#![allow(non_camel_case_types, non_snake_case)]
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

pub type Ctx = *mut c_void;
pub type Ast = *mut c_void;
pub type Sort = *mut c_void;
pub type Solver = *mut c_void;
pub type Model = *mut c_void;
pub type Params = *mut c_void;
pub type Sym = *mut c_void;

extern "C" {
    pub fn Z3_mk_config() -> *mut c_void;
    pub fn Z3_mk_context_rc(c: *mut c_void) -> Ctx;
    pub fn Z3_del_config(c: *mut c_void);
    pub fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    pub fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    pub fn Z3_solver_get_unsat_core(c: Ctx, s: Solver) -> *mut c_void;
    pub fn Z3_ast_vector_inc_ref(c: Ctx, v: *mut c_void);
    pub fn Z3_ast_vector_dec_ref(c: Ctx, v: *mut c_void);
    pub fn Z3_ast_vector_size(c: Ctx, v: *mut c_void) -> c_uint;
    pub fn Z3_ast_vector_get(c: Ctx, v: *mut c_void, i: c_uint) -> Ast;
    pub fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    pub fn Z3_inc_ref(c: Ctx, a: Ast);
    pub fn Z3_dec_ref(c: Ctx, a: Ast);
    pub fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Solver;
    pub fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    pub fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    pub fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    pub fn Z3_solver_check_assumptions(c: Ctx, s: Solver, n: c_uint, a: *const Ast) -> c_int;
    pub fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    pub fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    pub fn Z3_mk_bool_sort(c: Ctx) -> Sort;
    pub fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    pub fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    pub fn Z3_mk_params(c: Ctx) -> Params;
    pub fn Z3_params_inc_ref(c: Ctx, p: Params);
    pub fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    pub fn Z3_model_inc_ref(c: Ctx, m: Model);
    pub fn Z3_model_dec_ref(c: Ctx, m: Model);
    pub fn Z3_model_eval(c: Ctx, m: Model, t: Ast, completion: bool, v: *mut Ast) -> bool;
    pub fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    pub fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    pub fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Sort;
    pub fn Z3_mk_const(c: Ctx, s: Sym, ty: Sort) -> Ast;
    pub fn Z3_mk_numeral(c: Ctx, s: *const c_char, ty: Sort) -> Ast;
    pub fn Z3_mk_true(c: Ctx) -> Ast;
    pub fn Z3_mk_false(c: Ctx) -> Ast;
    pub fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    pub fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    pub fn Z3_get_full_version() -> *const c_char;
}

pub fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}
pub unsafe fn st(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
pub fn version() -> String {
    unsafe { st(Z3_get_full_version()) }
}
pub extern "C" fn on_error(c: Ctx, e: c_int) {
    let m = unsafe { st(Z3_get_error_msg(c, e)) };
    eprintln!("Z3 error {e}: {m}");
    std::process::abort();
}
