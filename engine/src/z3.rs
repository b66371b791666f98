//! Z3 back end: translation of the expression DAG and satisfiability queries.
#![allow(non_snake_case)]
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, logic: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, v: P) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}
static SLOW: std::sync::OnceLock<Option<f64>> = std::sync::OnceLock::new();
pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}
pub enum Res {
    Sat(Vec<u128>),
    Unsat,
    Unknown,
}
pub struct Solver {
    c: P,
    s: P,
    bv: Vec<P>,
    bo: Vec<P>,
    vars: Vec<P>,
    pub rlimit: u32,
    os: P,
    ints: std::collections::HashMap<(u32, u8), P>,
}
impl Solver {
    pub fn new(rlimit: u32, fp: bool) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let mode = std::env::var("SYMEX_Z3").unwrap_or("simple".into());
            let s = if fp {
                let l = CString::new("QF_FPBV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            } else if mode == "bv" {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            } else if mode == "full" {
                Z3_mk_solver(c)
            } else {
                Z3_mk_simple_solver(c)
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let rl = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, rl.as_ptr()), rlimit);
            Z3_solver_set_params(c, s, p);
            let os = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, os);
            Z3_solver_set_params(c, os, p);
            Solver { c, s, bv: vec![], bo: vec![], vars: vec![], rlimit, os, ints: Default::default() }
        }
    }
    fn grow(&mut self, p: &Pool) {
        if self.bv.len() < p.nodes.len() {
            self.bv.resize(p.nodes.len(), std::ptr::null_mut());
            self.bo.resize(p.nodes.len(), std::ptr::null_mut());
        }
    }
    fn var(&mut self, p: &Pool, id: u32) -> P {
        while self.vars.len() <= id as usize {
            let i = self.vars.len();
            unsafe {
                let sort = Z3_mk_bv_sort(self.c, p.vars[i].w as u32);
                let v = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as i32), sort);
                self.vars.push(v);
            }
        }
        self.vars[id as usize]
    }
    fn num(&self, w: u8, k: u128) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w as u32);
            if k <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, k as u64, s)
            } else {
                let t = CString::new(k.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    /// Boolean view of a width-1 node.
    fn b(&mut self, p: &Pool, i: u32) -> P {
        if !self.bo[i as usize].is_null() { return self.bo[i as usize]; }
        let n = p.nodes[i as usize];
        debug_assert!(n.w == 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::And => { let x = [self.b(p, n.a), self.b(p, n.b)]; Z3_mk_and(c, 2, x.as_ptr()) }
                Op::Or => { let x = [self.b(p, n.a), self.b(p, n.b)]; Z3_mk_or(c, 2, x.as_ptr()) }
                Op::Xor | Op::Add | Op::Sub => {
                    if p.is_k(n.b) == Some(1) { let x = self.b(p, n.a); Z3_mk_not(c, x) }
                    else { let x = self.b(p, n.a); let y = self.b(p, n.b); Z3_mk_xor(c, x, y) }
                }
                Op::Ite => { let x = self.b(p, n.a); let y = self.b(p, n.b); let z = self.b(p, n.c); Z3_mk_ite(c, x, y, z) }
                Op::Eq => {
                    if p.w(n.a) == 1 { let x = self.b(p, n.a); let y = self.b(p, n.b); Z3_mk_eq(c, x, y) }
                    else { let x = self.v(p, n.a); let y = self.v(p, n.b); Z3_mk_eq(c, x, y) }
                }
                Op::Ult => { let x = self.v(p, n.a); let y = self.v(p, n.b); Z3_mk_bvult(c, x, y) }
                Op::Ule => { let x = self.v(p, n.a); let y = self.v(p, n.b); Z3_mk_bvule(c, x, y) }
                Op::Slt => { let x = self.v(p, n.a); let y = self.v(p, n.b); Z3_mk_bvslt(c, x, y) }
                Op::Sle => { let x = self.v(p, n.a); let y = self.v(p, n.b); Z3_mk_bvsle(c, x, y) }
                _ => { let x = self.v(p, i); let one = self.num(1, 1); Z3_mk_eq(c, x, one) }
            }
        };
        self.bo[i as usize] = r;
        r
    }
    fn v(&mut self, p: &Pool, i: u32) -> P {
        if !self.bv[i as usize].is_null() { return self.bv[i as usize]; }
        let n = p.nodes[i as usize];
        let c = self.c;
        let r = unsafe {
            if n.w == 1 && matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Ite | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
                let x = self.b(p, i);
                let (o, z) = (self.num(1, 1), self.num(1, 0));
                Z3_mk_ite(c, x, o, z)
            } else {
                macro_rules! bin { ($f:ident) => {{ let x = self.v(p, n.a); let y = self.v(p, n.b); $f(c, x, y) }}; }
                match n.op {
                    Op::Const => self.num(n.w, n.k),
                    Op::Var => self.var(p, n.a),
                    Op::Add => bin!(Z3_mk_bvadd),
                    Op::Sub => bin!(Z3_mk_bvsub),
                    Op::Mul => bin!(Z3_mk_bvmul),
                    Op::UDiv => bin!(Z3_mk_bvudiv),
                    Op::SDiv => bin!(Z3_mk_bvsdiv),
                    Op::URem => bin!(Z3_mk_bvurem),
                    Op::SRem => bin!(Z3_mk_bvsrem),
                    Op::And => bin!(Z3_mk_bvand),
                    Op::Or => bin!(Z3_mk_bvor),
                    Op::Xor => bin!(Z3_mk_bvxor),
                    Op::Shl => bin!(Z3_mk_bvshl),
                    Op::LShr => bin!(Z3_mk_bvlshr),
                    Op::AShr => bin!(Z3_mk_bvashr),
                    Op::Concat => bin!(Z3_mk_concat),
                    Op::Extract => { let x = self.v(p, n.a); Z3_mk_extract(c, n.k as u32 + n.w as u32 - 1, n.k as u32, x) }
                    Op::ZExt => { let x = self.v(p, n.a); Z3_mk_zero_ext(c, (n.w - p.w(n.a)) as u32, x) }
                    Op::SExt => { let x = self.v(p, n.a); Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as u32, x) }
                    Op::Ite => { let q = self.b(p, n.a); let x = self.v(p, n.b); let y = self.v(p, n.c); Z3_mk_ite(c, q, x, y) }
                    Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                        let s = if n.w == 64 { Z3_mk_fpa_sort_64(c) } else { Z3_mk_fpa_sort_32(c) };
                        let x = self.v(p, n.a); let y = self.v(p, n.b);
                        let x = Z3_mk_fpa_to_fp_bv(c, x, s); let y = Z3_mk_fpa_to_fp_bv(c, y, s);
                        let rm = Z3_mk_fpa_rne(c);
                        let r = match n.op {
                            Op::FAdd => Z3_mk_fpa_add(c, rm, x, y), Op::FSub => Z3_mk_fpa_sub(c, rm, x, y),
                            Op::FMul => Z3_mk_fpa_mul(c, rm, x, y), _ => Z3_mk_fpa_div(c, rm, x, y) };
                        Z3_mk_fpa_to_ieee_bv(c, r)
                    }
                    Op::FFromU | Op::FFromS => {
                        let s = if n.w == 64 { Z3_mk_fpa_sort_64(c) } else { Z3_mk_fpa_sort_32(c) };
                        let x = self.v(p, n.a);
                        let rm = Z3_mk_fpa_rne(c);
                        let r = if n.op == Op::FFromU { Z3_mk_fpa_to_fp_unsigned(c, rm, x, s) } else { Z3_mk_fpa_to_fp_signed(c, rm, x, s) };
                        Z3_mk_fpa_to_ieee_bv(c, r)
                    }
                    Op::FToU | Op::FToS => {
                        let s = if p.w(n.a) == 64 { Z3_mk_fpa_sort_64(c) } else { Z3_mk_fpa_sort_32(c) };
                        let x = self.v(p, n.a);
                        let x = Z3_mk_fpa_to_fp_bv(c, x, s);
                        let rm = Z3_mk_fpa_rtz(c);
                        if n.op == Op::FToU { Z3_mk_fpa_to_ubv(c, rm, x, n.w as u32) } else { Z3_mk_fpa_to_sbv(c, rm, x, n.w as u32) }
                    }
                    Op::FConv => {
                        let s0 = if p.w(n.a) == 64 { Z3_mk_fpa_sort_64(c) } else { Z3_mk_fpa_sort_32(c) };
                        let s1 = if n.w == 64 { Z3_mk_fpa_sort_64(c) } else { Z3_mk_fpa_sort_32(c) };
                        let x = self.v(p, n.a);
                        let x = Z3_mk_fpa_to_fp_bv(c, x, s0);
                        let r = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, s1);
                        Z3_mk_fpa_to_ieee_bv(c, r)
                    }
                    _ => unreachable!(),
                }
            }
        };
        self.bv[i as usize] = r;
        r
    }
    pub fn assert(&mut self, p: &Pool, e: u32) {
        self.grow(p);
        let a = self.b(p, e);
        unsafe { Z3_solver_assert(self.c, self.s, a) }
    }
    /// Is (path condition and extras) satisfiable?
    pub fn check(&mut self, p: &Pool, extra: &[u32]) -> Res {
        self.grow(p);
        unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in extra {
                let a = self.b(p, e);
                Z3_solver_assert(self.c, self.s, a);
            }
            let t0 = std::time::Instant::now();
            let r = Z3_solver_check(self.c, self.s);
            if let Some(lim) = *SLOW.get_or_init(|| std::env::var("SYMEX_SLOW").ok().and_then(|x| x.parse::<f64>().ok())) {
                if t0.elapsed().as_secs_f64() > lim { eprintln!("SLOW {:.3}\n{}", t0.elapsed().as_secs_f64(), std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy()); }
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut vals = Vec::with_capacity(p.vars.len());
                    for i in 0..p.vars.len() {
                        if i >= self.vars.len() { vals.push(p.model.get(i).copied().unwrap_or(0)); continue; }
                        let mut o = std::ptr::null_mut();
                        let mut u = 0u64;
                        Z3_model_eval(self.c, m, self.vars[i], true, &mut o);
                        if Z3_get_numeral_uint64(self.c, o, &mut u) { vals.push(u as u128) }
                        else {
                            let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_string_lossy().into_owned();
                            vals.push(s.parse().unwrap_or(0));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(vals)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.c, self.s, 1);
            if Z3_get_error_code(self.c) != 0 { return Res::Unknown; }
            out
        }
    }
    fn int_num(&self, v: i128) -> P {
        unsafe { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), Z3_mk_int_sort(self.c)) }
    }
    fn int_var(&mut self, id: u32, cl: u8) -> P {
        let c = self.c;
        *self.ints.entry((id, cl)).or_insert_with(|| unsafe {
            let sort = if cl == 0 { Z3_mk_bool_sort(c) } else { Z3_mk_int_sort(c) };
            Z3_mk_const(c, Z3_mk_int_symbol(c, (id * 3 + cl as u32 + 1_000_000) as i32), sort)
        })
    }
    fn ob(&mut self, p: &Pool, cl: &crate::order::Classes, memo: &mut std::collections::HashMap<u32, P>, used: &mut Vec<(u32, u8)>, i: u32) -> P {
        if let Some(&x) = memo.get(&i) { return x; }
        let n = p.nodes[i as usize];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Var => { used.push((n.a, 0)); self.int_var(n.a, 0) }
                Op::And => { let x = [self.ob(p, cl, memo, used, n.a), self.ob(p, cl, memo, used, n.b)]; Z3_mk_and(c, 2, x.as_ptr()) }
                Op::Or => { let x = [self.ob(p, cl, memo, used, n.a), self.ob(p, cl, memo, used, n.b)]; Z3_mk_or(c, 2, x.as_ptr()) }
                Op::Xor | Op::Add | Op::Sub => {
                    let x = self.ob(p, cl, memo, used, n.a);
                    if p.is_k(n.b) == Some(1) { Z3_mk_not(c, x) } else { let y = self.ob(p, cl, memo, used, n.b); Z3_mk_xor(c, x, y) }
                }
                Op::Ite => { let x = self.ob(p, cl, memo, used, n.a); let y = self.ob(p, cl, memo, used, n.b); let z = self.ob(p, cl, memo, used, n.c); Z3_mk_ite(c, x, y, z) }
                Op::Eq if p.w(n.a) == 1 => { let x = self.ob(p, cl, memo, used, n.a); let y = self.ob(p, cl, memo, used, n.b); Z3_mk_eq(c, x, y) }
                _ => {
                    let sg = crate::order::signed_cmp(p, cl, i);
                    let x = self.oi(p, cl, memo, used, n.a, sg);
                    let y = self.oi(p, cl, memo, used, n.b, sg);
                    match n.op { Op::Eq => Z3_mk_eq(c, x, y), Op::Ult | Op::Slt => Z3_mk_lt(c, x, y), _ => Z3_mk_le(c, x, y) }
                }
            }
        };
        memo.insert(i, r);
        r
    }
    fn oi(&mut self, p: &Pool, cl: &crate::order::Classes, memo: &mut std::collections::HashMap<u32, P>, used: &mut Vec<(u32, u8)>, i: u32, sg: bool) -> P {
        let n = p.nodes[i as usize];
        match n.op {
            Op::Const => self.int_num(if sg { sext(n.k, n.w) } else { n.k as i128 }),
            Op::Var => { let k = cl.class.get(&n.a).copied().unwrap_or(1); used.push((n.a, k)); self.int_var(n.a, k) }
            Op::ZExt => { let v = p.nodes[n.a as usize].a; used.push((v, 1)); self.int_var(v, 1) }
            Op::SExt => { let v = p.nodes[n.a as usize].a; used.push((v, 2)); self.int_var(v, 2) }
            Op::Add => { let x = [self.oi(p, cl, memo, used, n.a, sg), self.oi(p, cl, memo, used, n.b, sg)]; unsafe { Z3_mk_add(self.c, 2, x.as_ptr()) } }
            _ => {
                let q = self.ob(p, cl, memo, used, n.a);
                let x = self.oi(p, cl, memo, used, n.b, sg);
                let y = self.oi(p, cl, memo, used, n.c, sg);
                unsafe { Z3_mk_ite(self.c, q, x, y) }
            }
        }
    }
    /// Decide the conjunction of `fs` over the integers; None when outside the fragment or undecided.
    pub fn check_order(&mut self, p: &Pool, fs: &[u32]) -> Option<Res> {
        let cl = match crate::order::classify(p, fs) { Some(c) => c, None => { if std::env::var_os("SYMEX_WHY").is_some() { for &f in fs { if crate::order::classify(p, &[f]).is_none() { eprintln!("WHY {}", p.show(f, 8)); } } } return None; } };
        let mut memo = std::collections::HashMap::new();
        let mut used = vec![];
        unsafe {
            let c = self.c;
            let fz: Vec<P> = fs.iter().map(|&f| self.ob(p, &cl, &mut memo, &mut used, f)).collect();
            used.sort(); used.dedup();
            Z3_solver_push(c, self.os);
            for &(v, k) in &used {
                if k == 0 { continue; }
                let w = p.vars[v as usize].w;
                let (lo, hi) = if k == 1 { (0i128, mask(w) as i128) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
                let x = self.int_var(v, k);
                let (l, h) = (self.int_num(lo), self.int_num(hi));
                Z3_solver_assert(c, self.os, Z3_mk_le(c, l, x));
                Z3_solver_assert(c, self.os, Z3_mk_le(c, x, h));
            }
            for f in fz { Z3_solver_assert(c, self.os, f); }
            let t0 = std::time::Instant::now();
            let r = Z3_solver_check(c, self.os);
            if let Some(lim) = *SLOW.get_or_init(|| std::env::var("SYMEX_SLOW").ok().and_then(|x| x.parse::<f64>().ok())) {
                if t0.elapsed().as_secs_f64() > lim { eprintln!("SLOWO {:.3}\n{}", t0.elapsed().as_secs_f64(), std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.os)).to_string_lossy()); }
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, self.os);
                    Z3_model_inc_ref(c, m);
                    let mut vals = p.model.clone();
                    for &(v, k) in &used {
                        let x = self.int_var(v, k);
                        let mut o = std::ptr::null_mut();
                        Z3_model_eval(c, m, x, true, &mut o);
                        if k == 0 { vals[v as usize] = (Z3_get_bool_value(c, o) == 1) as u128; continue; }
                        let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, o)).to_string_lossy().into_owned();
                        let i: i128 = s.parse().unwrap_or(0);
                        vals[v as usize] = (i as u128) & mask(p.vars[v as usize].w);
                    }
                    Z3_model_dec_ref(c, m);
                    Some(Res::Sat(vals))
                }
                -1 => Some(Res::Unsat),
                _ => None,
            };
            Z3_solver_pop(c, self.os, 1);
            if Z3_get_error_code(c) != 0 { return None; }
            out
        }
    }
    #[allow(dead_code)]
    pub fn drop_solver(&mut self) { unsafe { Z3_solver_dec_ref(self.c, self.s) } }
}
