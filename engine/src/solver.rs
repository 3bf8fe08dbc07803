//! Z3 (C API) back end: satisfiability of a conjunction of width-1 expressions.
use crate::expr::{self, node, BinOpK, E, K};
use crate::ir::Pred;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Sol = *mut c_void;
type Mdl = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, ty: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, n: *const c_char, ty: Sort) -> Ast;
    fn Z3_mk_eq(c: Ctx, l: Ast, r: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, logic: *mut c_void) -> Sol;
    fn Z3_solver_inc_ref(c: Ctx, s: Sol);
    fn Z3_solver_push(c: Ctx, s: Sol);
    fn Z3_solver_pop(c: Ctx, s: Sol, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Sol, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Sol) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Sol) -> Mdl;
    fn Z3_model_eval(c: Ctx, m: Mdl, t: Ast, complete: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Sol, p: *mut c_void);
    fn Z3_get_full_version() -> *const c_char;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    c: Ctx,
    s: Sol,
    cache: HashMap<E, Ast>,
    qcache: HashMap<Vec<E>, (Sat, Option<std::rc::Rc<Vec<(u32, u128)>>>)>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub secs: f64,
    pub max_secs: f64,
}

impl Solver {
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver { c, s, cache: HashMap::new(), qcache: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, cache_hits: 0, secs: 0.0, max_secs: 0.0 }
        }
    }
    fn num(&self, v: u128, w: u32) -> Ast {
        unsafe {
            let s = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w))
        }
    }
    /// every expression is a bit-vector (booleans are width 1)
    fn ast(&mut self, e: E) -> Ast {
        if let Some(a) = self.cache.get(&e) {
            return *a;
        }
        let n = node(e);
        let c = self.c;
        let r = unsafe {
            match n.k {
                K::Const(v) => self.num(v, n.w),
                K::Var(i) => {
                    let s = CString::new(format!("v{}_{}", i, n.w)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, n.w))
                }
                K::Bin(op, a, b) => {
                    let (x, y) = (self.ast(a), self.ast(b));
                    match op {
                        BinOpK::Add => Z3_mk_bvadd(c, x, y),
                        BinOpK::Sub => Z3_mk_bvsub(c, x, y),
                        BinOpK::Mul => Z3_mk_bvmul(c, x, y),
                        BinOpK::UDiv => Z3_mk_bvudiv(c, x, y),
                        BinOpK::SDiv => Z3_mk_bvsdiv(c, x, y),
                        BinOpK::URem => Z3_mk_bvurem(c, x, y),
                        BinOpK::SRem => Z3_mk_bvsrem(c, x, y),
                        BinOpK::Shl => Z3_mk_bvshl(c, x, y),
                        BinOpK::LShr => Z3_mk_bvlshr(c, x, y),
                        BinOpK::AShr => Z3_mk_bvashr(c, x, y),
                        BinOpK::And => Z3_mk_bvand(c, x, y),
                        BinOpK::Or => Z3_mk_bvor(c, x, y),
                        BinOpK::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
                K::Cmp(p, a, b) => {
                    let (x, y) = (self.ast(a), self.ast(b));
                    let bo = match p {
                        Pred::Eq => Z3_mk_eq(c, x, y),
                        Pred::Ne => Z3_mk_not(c, Z3_mk_eq(c, x, y)),
                        Pred::Ult => Z3_mk_bvult(c, x, y),
                        Pred::Ule => Z3_mk_bvule(c, x, y),
                        Pred::Slt => Z3_mk_bvslt(c, x, y),
                        Pred::Sle => Z3_mk_bvsle(c, x, y),
                        Pred::Ugt => Z3_mk_bvult(c, y, x),
                        Pred::Uge => Z3_mk_bvule(c, y, x),
                        Pred::Sgt => Z3_mk_bvslt(c, y, x),
                        Pred::Sge => Z3_mk_bvsle(c, y, x),
                    };
                    let one = self.num(1, 1);
                    let zero = self.num(0, 1);
                    Z3_mk_ite(c, bo, one, zero)
                }
                K::Ite(d, a, b) => {
                    let (d, x, y) = (self.ast(d), self.ast(a), self.ast(b));
                    let one = self.num(1, 1);
                    Z3_mk_ite(c, Z3_mk_eq(c, d, one), x, y)
                }
                K::Extract(lo, a) => {
                    let x = self.ast(a);
                    Z3_mk_extract(c, lo + n.w - 1, lo, x)
                }
                K::Concat(a, b) => {
                    let (x, y) = (self.ast(a), self.ast(b));
                    Z3_mk_concat(c, x, y)
                }
                K::ZExt(a) => {
                    let wa = expr::width(a);
                    let x = self.ast(a);
                    Z3_mk_zero_ext(c, n.w - wa, x)
                }
                K::SExt(a) => {
                    let wa = expr::width(a);
                    let x = self.ast(a);
                    Z3_mk_sign_ext(c, n.w - wa, x)
                }
                K::Not(a) => {
                    let x = self.ast(a);
                    Z3_mk_bvnot(c, x)
                }
            }
        };
        self.cache.insert(e, r);
        r
    }

    /// Satisfiability of the conjunction; with a model for the variables that occur in it.
    pub fn check(&mut self, cs: &[E], varw: &[u32]) -> (Sat, Option<std::rc::Rc<Vec<(u32, u128)>>>) {
        let mut key: Vec<E> = Vec::with_capacity(cs.len());
        for &e in cs {
            match expr::as_const(e) {
                Some(0) => return (Sat::Unsat, None),
                Some(_) => continue,
                None => key.push(e),
            }
        }
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.qcache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let mut vs = 0u128;
        for &e in &key {
            vs |= expr::vars(e);
        }
        let r;
        let mut model = None;
        unsafe {
            Z3_solver_push(self.c, self.s);
            let one = self.num(1, 1);
            for &e in &key {
                let a = self.ast(e);
                let b = Z3_mk_eq(self.c, a, one);
                Z3_solver_assert(self.c, self.s, b);
            }
            r = match Z3_solver_check(self.c, self.s) {
                1 => Sat::Sat,
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            if r == Sat::Sat {
                let m = Z3_solver_get_model(self.c, self.s);
                let mut out = vec![];
                for i in 0..varw.len() as u32 {
                    if vs >> i.min(127) & 1 == 1 {
                        let v = expr::var(i, varw[i as usize]);
                        let a = self.ast(v);
                        let mut o: Ast = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, a, true, &mut o) {
                            let s = CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_string_lossy();
                            out.push((i, s.parse::<u128>().unwrap_or(0)));
                        }
                    }
                }
                model = Some(std::rc::Rc::new(out));
            }
            Z3_solver_pop(self.c, self.s, 1);
        }
        let d = t0.elapsed().as_secs_f64();
        self.secs += d;
        if d > self.max_secs {
            self.max_secs = d;
        }
        self.queries += 1;
        match r {
            Sat::Sat => self.sat += 1,
            Sat::Unsat => self.unsat += 1,
            Sat::Unknown => self.unknown += 1,
        }
        self.qcache.insert(key, (r, model.clone()));
        (r, model)
    }
}
