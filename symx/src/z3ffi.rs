//! Minimal bindings to the installed libz3 (C API).
#![allow(non_camel_case_types, dead_code)]
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

pub type Cfg = *mut c_void;
pub type Ctx = *mut c_void;
pub type Ast = *mut c_void;
pub type Sort = *mut c_void;
pub type Symbol = *mut c_void;
pub type Solver = *mut c_void;
pub type Model = *mut c_void;
pub type Params = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_config() -> Cfg;
    fn Z3_del_config(c: Cfg);
    fn Z3_mk_context(c: Cfg) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Symbol;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Symbol;
    fn Z3_mk_uninterpreted_sort(c: Ctx, s: Symbol) -> Sort;
    fn Z3_mk_bool_sort(c: Ctx) -> Sort;
    fn Z3_mk_const(c: Ctx, s: Symbol, ty: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, l: Ast, r: Ast) -> Ast;
    fn Z3_mk_distinct(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_iff(c: Ctx, l: Ast, r: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_is_eq_ast(c: Ctx, a: Ast, b: Ast) -> bool;
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Symbol, v: c_uint);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_get_error_code(c: Ctx) -> c_int;
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

/// One z3 context with two incremental solvers: `s` holds the assumptions and the path (small, asked for models), `p`
/// also the definitions of the specification (asked whether the property follows). Terms are not reference counted
/// (the context owns every term until it is dropped).
pub struct Z3 {
    c: Ctx,
    s: Solver,
    p: Solver,
    /// assertions go to: 0 both solvers, 1 only the property solver, 2 only the path solver
    pub phase: std::cell::Cell<u8>,
    usort: Sort,
    next: std::cell::Cell<c_int>,
    pub queries: std::cell::Cell<u64>,
    pub nanos: std::cell::Cell<u64>,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let (k, v) = (CString::new("model.compact").unwrap(), CString::new("false").unwrap());
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let sp = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, sp);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3_solver_set_params(c, sp, p);
            let n = CString::new("Symbol").unwrap();
            let usort = Z3_mk_uninterpreted_sort(c, Z3_mk_string_symbol(c, n.as_ptr()));
            Z3 { c, s, p: sp, phase: Default::default(), usort, next: std::cell::Cell::new(0), queries: Default::default(), nanos: Default::default() }
        }
    }
    fn named(&self, name: &str) -> Symbol {
        let k = CString::new(name).unwrap();
        unsafe { Z3_mk_string_symbol(self.c, k.as_ptr()) }
    }
    pub fn constant(&self, name: &str) -> Ast {
        unsafe { Z3_mk_const(self.c, self.named(name), self.usort) }
    }
    pub fn fresh_bool(&self) -> Ast {
        let i = self.next.get();
        self.next.set(i + 1);
        unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i), Z3_mk_bool_sort(self.c)) }
    }
    pub fn tru(&self) -> Ast {
        unsafe { Z3_mk_true(self.c) }
    }
    pub fn fls(&self) -> Ast {
        unsafe { Z3_mk_false(self.c) }
    }
    pub fn eq(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_eq(self.c, a, b) }
    }
    pub fn distinct(&self, v: &[Ast]) -> Ast {
        unsafe { Z3_mk_distinct(self.c, v.len() as c_uint, v.as_ptr()) }
    }
    pub fn not(&self, a: Ast) -> Ast {
        unsafe { Z3_mk_not(self.c, a) }
    }
    pub fn iff(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_iff(self.c, a, b) }
    }
    pub fn and(&self, v: &[Ast]) -> Ast {
        unsafe { Z3_mk_and(self.c, v.len() as c_uint, v.as_ptr()) }
    }
    pub fn or(&self, v: &[Ast]) -> Ast {
        unsafe { Z3_mk_or(self.c, v.len() as c_uint, v.as_ptr()) }
    }
    pub fn push(&self) {
        unsafe { Z3_solver_push(self.c, self.s) }
    }
    pub fn pop(&self, n: u32) {
        if n > 0 {
            unsafe { Z3_solver_pop(self.c, self.s, n) }
        }
    }
    pub fn assert(&self, a: Ast) {
        let f = self.phase.get();
        unsafe {
            if f != 1 {
                Z3_solver_assert(self.c, self.s, a)
            }
            if f != 2 {
                Z3_solver_assert(self.c, self.p, a)
            }
        }
    }
    /// The property solver: assert, ask, and (see `done`) forget again.
    pub fn ask(&self, v: &[Ast]) -> Res {
        unsafe {
            Z3_solver_push(self.c, self.p);
            for a in v {
                Z3_solver_assert(self.c, self.p, *a)
            }
        }
        self.check_with(self.p)
    }
    pub fn done(&self) {
        unsafe { Z3_solver_pop(self.c, self.p, 1) }
    }
    pub fn check(&self) -> Res {
        self.check_with(self.s)
    }
    fn check_with(&self, s: Solver) -> Res {
        let t = std::time::Instant::now();
        let r = unsafe { Z3_solver_check(self.c, s) };
        self.queries.set(self.queries.get() + 1);
        self.nanos.set(self.nanos.get() + t.elapsed().as_nanos() as u64);
        if unsafe { Z3_get_error_code(self.c) } != 0 {
            return Res::Unknown;
        }
        match r {
            1 => Res::Sat,
            -1 => Res::Unsat,
            _ => Res::Unknown,
        }
    }
    /// The equality classes of `vars` in the current model: `out[i]` = class number of vars[i].
    pub fn classes(&self, vars: &[Ast], of_property: bool) -> Vec<u32> {
        unsafe {
            let m = Z3_solver_get_model(self.c, if of_property { self.p } else { self.s });
            Z3_model_inc_ref(self.c, m);
            let mut seen: std::collections::HashMap<usize, u32> = Default::default();
            let mut out = Vec::with_capacity(vars.len());
            for v in vars {
                let mut r: Ast = std::ptr::null_mut();
                let ok = Z3_model_eval(self.c, m, *v, true, &mut r);
                assert!(ok, "model evaluation failed");
                // values of an uninterpreted sort are hash-consed constants: identity is equality
                let n = seen.len() as u32;
                out.push(*seen.entry(r as usize).or_insert(n));
            }
            Z3_model_dec_ref(self.c, m);
            out
        }
    }
    pub fn dump(&self) -> String {
        unsafe { CStr::from_ptr(Z3_solver_to_string(self.c, self.p)).to_string_lossy().into_owned() }
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_solver_dec_ref(self.c, self.p);
            Z3_del_context(self.c);
        }
    }
}
