//! Z3 back end (libz3 C API): one solver object, push/pop per query.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, s: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
}

pub type Model = Vec<u128>; // by variable; missing = 0

pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub secs: f64,
    pub max_secs: f64,
}

pub struct Solver {
    c: P,
    inc: P,
    bv: HashMap<E, P, BuildFx>,
    bo: HashMap<E, P, BuildFx>,
    cache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    pub stats: Stats,
    rlimit: u32,
    n_inc: u64,
    pub dump: Option<Vec<(String, bool)>>, // sampled queries for cross-checking
    dump_every: u64,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            let mut s = Solver {
                c,
                inc: std::ptr::null_mut(),
                bv: HashMap::default(),
                bo: HashMap::default(),
                cache: HashMap::new(),
                stats: Stats::default(),
                rlimit,
                n_inc: 0,
                dump: None,
                dump_every: 1,
            };
            s.fresh();
            s
        }
    }
    pub fn enable_dump(&mut self, every: u64) {
        self.dump = Some(vec![]);
        self.dump_every = every.max(1);
    }
    fn fresh(&mut self) {
        unsafe {
            if !self.inc.is_null() {
                Z3_solver_dec_ref(self.c, self.inc);
            }
            let s = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("rlimit").unwrap();
            let ks = Z3_mk_string_symbol(self.c, k.as_ptr());
            Z3_params_set_uint(self.c, p, ks, 3_000_000.min(self.rlimit));
            Z3_solver_set_params(self.c, s, p);
            self.inc = s;
            self.n_inc = 0;
        }
    }
    fn heavy(&mut self) -> P {
        unsafe {
            let l = CString::new("QF_BV").unwrap();
            let ls = Z3_mk_string_symbol(self.c, l.as_ptr());
            let s = Z3_mk_solver_for_logic(self.c, ls);
            Z3_solver_inc_ref(self.c, s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("rlimit").unwrap();
            let ks = Z3_mk_string_symbol(self.c, k.as_ptr());
            Z3_params_set_uint(self.c, p, ks, self.rlimit);
            Z3_solver_set_params(self.c, s, p);
            s
        }
    }

    fn konst(&self, v: u128, w: u32) -> P {
        let c = self.c;
        unsafe {
            if w <= 64 {
                keep(c, Z3_mk_unsigned_int64(c, v as u64, keep(c, Z3_mk_bv_sort(c, w))))
            } else {
                let hi = self.konst(v >> 64, w - 64);
                let lo = self.konst(v & u64::MAX as u128, 64);
                keep(c, Z3_mk_concat(c, hi, lo))
            }
        }
    }

    fn to_bool(&mut self, e: E) -> P {
        if let Some(&p) = self.bo.get(&e) {
            return p;
        }
        let n = *cx().n(e);
        let k = n.key;
        let c = self.c;
        if matches!(k.op, Op::FEq | Op::FLt | Op::FLe) {
            if let Some(t) = self.table(e) {
                let r = unsafe {
                    let one = keep(c, self.konst(1, 1));
                    keep(c, Z3_mk_eq(c, t, one))
                };
                self.bo.insert(e, r);
                return r;
            }
        }
        let r = unsafe {
            match k.op {
                Op::Const => if k.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Eq => {
                    if cx().w(k.a) == 1 {
                        let (x, y) = (self.to_bool(k.a), self.to_bool(k.b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.to_bv(k.a), self.to_bv(k.b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (x, y) = (self.to_bv(k.a), self.to_bv(k.b));
                    match k.op {
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                Op::FEq | Op::FLt | Op::FLe => {
                    let (x, y) = (self.to_fp(k.a), self.to_fp(k.b));
                    match k.op {
                        Op::FEq => Z3_mk_fpa_eq(c, x, y),
                        Op::FLt => Z3_mk_fpa_lt(c, x, y),
                        _ => Z3_mk_fpa_leq(c, x, y),
                    }
                }
                Op::And => {
                    let v = [self.to_bool(k.a), self.to_bool(k.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.to_bool(k.a), self.to_bool(k.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    if cx().as_const(k.b) == Some(1) {
                        let x = self.to_bool(k.a);
                        Z3_mk_not(c, x)
                    } else {
                        let (x, y) = (self.to_bool(k.a), self.to_bool(k.b));
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Ite => {
                    let (x, y, z) = (self.to_bool(k.a), self.to_bool(k.b), self.to_bool(k.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.to_bv(e);
                    let one = self.konst(1, 1);
                    Z3_inc_ref(c, one);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bo.insert(e, r);
        r
    }

    /// An expensive operation over one narrow variable is encoded as its table of values.
    fn table(&mut self, e: E) -> Option<P> {
        let vs = cx().varsets[cx().n(e).vs as usize].clone();
        let [v] = vs[..] else { return None };
        let ve = cx().var(v);
        let vw = cx().w(ve);
        if vw > 8 {
            return None;
        }
        let mut rows: Vec<u128> = vec![];
        for x in 0..1u128 << vw {
            cx().eval_begin();
            rows.push(cx().eval(e, &|_| x));
        }
        let bv = self.to_bv(ve);
        let w = cx().w(e);
        let c = self.c;
        let bits: Vec<P> = (0..vw)
            .map(|i| unsafe {
                let b = keep(c, Z3_mk_extract(c, i, i, bv));
                let one = keep(c, self.konst(1, 1));
                keep(c, Z3_mk_eq(c, b, one))
            })
            .collect();
        let mut cur: Vec<P> = rows.iter().map(|&r| unsafe { keep(c, self.konst(r, w)) }).collect();
        let mut same: Vec<u32> = {
            let mut ids: HashMap<u128, u32> = HashMap::new();
            rows.iter()
                .map(|r| {
                    let n = ids.len() as u32;
                    *ids.entry(*r).or_insert(n)
                })
                .collect()
        };
        for b in bits {
            let mut next = vec![];
            let mut nsame = vec![];
            let mut ids: HashMap<(u32, u32), (u32, P)> = HashMap::new();
            for i in (0..cur.len()).step_by(2) {
                let k = (same[i], same[i + 1]);
                let n = ids.len() as u32;
                let (id, p) = match ids.get(&k) {
                    Some(x) => *x,
                    None => {
                        let p = if k.0 == k.1 { cur[i] } else { unsafe { keep(c, Z3_mk_ite(c, b, cur[i + 1], cur[i])) } };
                        ids.insert(k, (n, p));
                        (n, p)
                    }
                };
                next.push(p);
                nsame.push(id);
            }
            cur = next;
            same = nsame;
        }
        Some(cur[0])
    }

    fn to_fp(&mut self, e: E) -> P {
        let x = self.to_bv(e);
        unsafe {
            let s = keep(self.c, if cx().w(e) == 64 { Z3_mk_fpa_sort_double(self.c) } else { Z3_mk_fpa_sort_single(self.c) });
            let r = Z3_mk_fpa_to_fp_bv(self.c, x, s);
            Z3_inc_ref(self.c, r);
            r
        }
    }

    fn to_bv(&mut self, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let n = *cx().n(e);
        let k = n.key;
        let c = self.c;
        let w = k.w as u32;
        let is_boolish = matches!(k.op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe)
            || (w == 1 && matches!(k.op, Op::And | Op::Or | Op::Xor | Op::Ite));
        let r = unsafe {
            let costly = matches!(
                k.op,
                Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FCvtUI | Op::FCvtSI | Op::FExt | Op::FToUI | Op::FToSI | Op::FEq | Op::FLt | Op::FLe
            ) || k.op == Op::Tab || k.op == Op::Mul && cx().as_const(k.b).is_none();
            if let Some(t) = if costly { self.table(e) } else { None } {
                t
            } else if is_boolish {
                let b = self.to_bool(e);
                let (one, zero) = (self.konst(1, 1), self.konst(0, 1));
                Z3_inc_ref(c, one);
                Z3_inc_ref(c, zero);
                Z3_mk_ite(c, b, one, zero)
            } else {
                match k.op {
                    Op::Const => self.konst(k.k, w),
                    Op::Var => {
                        let s = Z3_mk_int_symbol(c, k.k as c_int);
                        Z3_mk_const(c, s, Z3_mk_bv_sort(c, w))
                    }
                    Op::Extract => {
                        let x = self.to_bv(k.a);
                        Z3_mk_extract(c, k.k as u32 + w - 1, k.k as u32, x)
                    }
                    Op::Concat => {
                        let (x, y) = (self.to_bv(k.a), self.to_bv(k.b));
                        Z3_mk_concat(c, x, y)
                    }
                    Op::ZExt => {
                        let x = self.to_bv(k.a);
                        Z3_mk_zero_ext(c, w - cx().w(k.a), x)
                    }
                    Op::SExt => {
                        let x = self.to_bv(k.a);
                        Z3_mk_sign_ext(c, w - cx().w(k.a), x)
                    }
                    Op::Ite => {
                        let (x, y, z) = (self.to_bool(k.a), self.to_bv(k.b), self.to_bv(k.c));
                        Z3_mk_ite(c, x, y, z)
                    }
                    Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                        let (x, y) = (self.to_fp(k.a), self.to_fp(k.b));
                        let rm = keep(c, Z3_mk_fpa_rne(c));
                        let f = match k.op {
                            Op::FAdd => Z3_mk_fpa_add(c, rm, x, y),
                            Op::FSub => Z3_mk_fpa_sub(c, rm, x, y),
                            Op::FMul => Z3_mk_fpa_mul(c, rm, x, y),
                            _ => Z3_mk_fpa_div(c, rm, x, y),
                        };
                        Z3_inc_ref(c, f);
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                    Op::FCvtUI | Op::FCvtSI => {
                        let x = self.to_bv(k.a);
                        let s = keep(c, if w == 64 { Z3_mk_fpa_sort_double(c) } else { Z3_mk_fpa_sort_single(c) });
                        let rm = keep(c, Z3_mk_fpa_rne(c));
                        let f = if k.op == Op::FCvtUI { Z3_mk_fpa_to_fp_unsigned(c, rm, x, s) } else { Z3_mk_fpa_to_fp_signed(c, rm, x, s) };
                        Z3_inc_ref(c, f);
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                    Op::FExt => {
                        let x = self.to_fp(k.a);
                        let s = keep(c, if w == 64 { Z3_mk_fpa_sort_double(c) } else { Z3_mk_fpa_sort_single(c) });
                        let f = Z3_mk_fpa_to_fp_float(c, keep(c, Z3_mk_fpa_rne(c)), x, s);
                        Z3_inc_ref(c, f);
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                    Op::FToUI | Op::FToSI => {
                        let x = self.to_fp(k.a);
                        let rm = keep(c, Z3_mk_fpa_rtz(c));
                        if k.op == Op::FToUI { Z3_mk_fpa_to_ubv(c, rm, x, w) } else { Z3_mk_fpa_to_sbv(c, rm, x, w) }
                    }
                    _ => {
                        let (x, y) = (self.to_bv(k.a), self.to_bv(k.b));
                        match k.op {
                            Op::Add => Z3_mk_bvadd(c, x, y),
                            Op::Sub => Z3_mk_bvsub(c, x, y),
                            Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y),
                            Op::URem => Z3_mk_bvurem(c, x, y),
                            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y),
                            Op::Or => Z3_mk_bvor(c, x, y),
                            Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y),
                            Op::LShr => Z3_mk_bvlshr(c, x, y),
                            Op::AShr => Z3_mk_bvashr(c, x, y),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        };
        unsafe {
            if Z3_get_error_code(c) != 0 {
                panic!("z3 error building {}", cx().show(e, 3));
            }
            Z3_inc_ref(c, r)
        };
        self.bv.insert(e, r);
        r
    }

    /// Decide satisfiability of the conjunction. Returns a (partial) model.
    pub fn check(&mut self, mut cs: Vec<E>) -> Res {
        cs.sort_unstable();
        cs.dedup();
        if cs.len() > 1 {
            // constraints over the same narrow variable are joined into one
            let mut by: std::collections::BTreeMap<u32, Vec<E>> = Default::default();
            let mut rest = vec![];
            for &e in &cs {
                let vs = &cx().varsets[cx().n(e).vs as usize];
                match vs[..] {
                    [v] if cx().vars[v as usize] <= 8 => by.entry(v).or_default().push(e),
                    _ => rest.push(e),
                }
            }
            for (v, es) in by {
                rest.push(if es.len() == 1 { es[0] } else { cx().conjoin(&es, v) });
            }
            cs = rest;
            cs.sort_unstable();
            cs.dedup();
        }
        if let Some(r) = self.cache.get(&cs) {
            self.stats.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat((**m).clone()),
                None => Res::Unsat,
            };
        }
        let t = Instant::now();
        self.stats.queries += 1;
        let asts: Vec<P> = cs.iter().map(|&e| self.to_bool(e)).collect();
        let c = self.c;
        let mut vars: Vec<u32> = vec![];
        for &e in &cs {
            vars.extend_from_slice(&cx().varsets[cx().n(e).vs as usize].clone());
        }
        vars.sort_unstable();
        vars.dedup();
        let res = unsafe {
            let mut s = self.inc;
            Z3_solver_push(c, s);
            for &a in &asts {
                Z3_solver_assert(c, s, a);
            }
            let mut r = Z3_solver_check(c, s);
            let mut heavy = false;
            if r == 0 {
                Z3_solver_pop(c, s, 1);
                self.fresh();
                s = self.heavy();
                heavy = true;
                for &a in &asts {
                    Z3_solver_assert(c, s, a);
                }
                r = Z3_solver_check(c, s);
                if r == 0 {
                    let why = CStr::from_ptr(Z3_solver_get_reason_unknown(c, s)).to_string_lossy().into_owned();
                    eprintln!("symx: solver gave up: {why}");
                    if std::env::var("SYMX_DUMP_UNKNOWN").is_ok() {
                        let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                        eprintln!("{t}");
                    }
                }
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for v in vars {
                        let e = cx().var(v);
                        let a = self.to_bv(e);
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(c, m, a, true, &mut o) {
                            Z3_inc_ref(c, o);
                            let mut x = 0u64;
                            if Z3_get_numeral_uint64(c, o, &mut x) {
                                out.push((v, x as u128));
                            } else {
                                let st = CStr::from_ptr(Z3_get_numeral_string(c, o)).to_string_lossy().into_owned();
                                out.push((v, st.parse::<u128>().unwrap_or(0)));
                            }
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if let Some(d) = &mut self.dump {
                if !matches!(out, Res::Unknown) && self.stats.queries % self.dump_every == 0 && d.len() < 400 {
                    let txt = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                    d.push((txt, matches!(out, Res::Sat(_))));
                }
            }
            if heavy {
                Z3_solver_dec_ref(c, s);
            } else {
                Z3_solver_pop(c, s, 1);
                self.n_inc += 1;
                if self.n_inc > 20000 {
                    self.fresh();
                }
            }
            out
        };
        let d = t.elapsed().as_secs_f64();
        if let Ok(l) = std::env::var("SYMX_SLOW") {
            if d > l.parse::<f64>().unwrap() {
                eprintln!("slow query {d:.2}s:");
                for &e in &cs {
                    eprintln!("   {}", cx().show(e, 40));
                }
            }
        }
        self.stats.secs += d;
        if d > self.stats.max_secs {
            self.stats.max_secs = d;
        }
        match &res {
            Res::Sat(m) => {
                self.stats.sat += 1;
                self.cache.insert(cs, Some(Rc::new(m.clone())));
            }
            Res::Unsat => {
                self.stats.unsat += 1;
                self.cache.insert(cs, None);
            }
            Res::Unknown => self.stats.unknown += 1,
        }
        res
    }
}

/// Objects of a reference-counted context may go at the next call unless they are held.
unsafe fn keep(c: P, x: P) -> P {
    Z3_inc_ref(c, x);
    x
}
