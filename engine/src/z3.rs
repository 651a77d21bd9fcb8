//! Minimal binding to the Z3 C API.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_del_context(c: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
}
extern "C" fn on_err(_c: P, code: c_int) { eprintln!("z3 error {code}"); std::process::exit(3); }

pub struct Z3 { c: P, s: P, cache: Vec<P>, pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub ns: u64, pub max_ns: u64 }
impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            //LOGIC
            let s = { let k = CString::new("QF_FD").unwrap(); let _ = Z3_mk_simple_solver as usize; Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, k.as_ptr())) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, cache: vec![], queries: 0, sat: 0, unsat: 0, unknown: 0, ns: 0, max_ns: 0 }
        }
    }
    /// a new context with the counters kept
    pub fn reset(&mut self) {
        let mut n = Z3::new(20_000);
        n.queries = self.queries; n.sat = self.sat; n.unsat = self.unsat; n.unknown = self.unknown; n.ns = self.ns; n.max_ns = self.max_ns;
        unsafe { Z3_solver_dec_ref(self.c, self.s); Z3_del_context(self.c); }
        *self = n;
    }
    unsafe fn num(&self, w: u8, v: u64) -> P { Z3_mk_unsigned_int64(self.c, v, Z3_mk_bv_sort(self.c, w as c_uint)) }
    unsafe fn b2bv(&self, b: P) -> P { Z3_mk_ite(self.c, b, self.num(1, 1), self.num(1, 0)) }
    fn var(&self, i: usize) -> P {
        unsafe {
            let n = CString::new(format!("v{i}")).unwrap();
            Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, 8))
        }
    }
    pub fn ast(&mut self, x: &Exprs, e: E) -> P {
        let i = e as usize;
        if self.cache.len() <= i { self.cache.resize(x.v.len().max(i + 1), std::ptr::null_mut()); }
        if !self.cache[i].is_null() { return self.cache[i]; }
        let w = x.w(e);
        let c = self.c;
        let r = unsafe {
            match x.v[i].node.clone() {
                Node::Const(k) => self.num(w, k),
                Node::Var(v) => self.var(v as usize),
                Node::Bin(op, a, b) => {
                    let (p, q) = (self.ast(x, a), self.ast(x, b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, p, q), Op::Sub => Z3_mk_bvsub(c, p, q), Op::Mul => Z3_mk_bvmul(c, p, q),
                        Op::UDiv => Z3_mk_bvudiv(c, p, q), Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                        Op::URem => Z3_mk_bvurem(c, p, q), Op::SRem => Z3_mk_bvsrem(c, p, q),
                        Op::And => Z3_mk_bvand(c, p, q), Op::Or => Z3_mk_bvor(c, p, q), Op::Xor => Z3_mk_bvxor(c, p, q),
                        Op::Shl => Z3_mk_bvshl(c, p, q), Op::LShr => Z3_mk_bvlshr(c, p, q), Op::AShr => Z3_mk_bvashr(c, p, q),
                        Op::Eq => self.b2bv(Z3_mk_eq(c, p, q)), Op::Ult => self.b2bv(Z3_mk_bvult(c, p, q)),
                        Op::Ule => self.b2bv(Z3_mk_bvule(c, p, q)), Op::Slt => self.b2bv(Z3_mk_bvslt(c, p, q)),
                        Op::Sle => self.b2bv(Z3_mk_bvsle(c, p, q)), Op::Concat => Z3_mk_concat(c, p, q),
                        Op::MulHi => { let m = Z3_mk_bvmul(c, Z3_mk_zero_ext(c, 64, p), Z3_mk_zero_ext(c, 64, q)); Z3_mk_extract(c, 127, 64, m) }
                    }
                }
                Node::Ite(g, a, b) => { let g = self.ast(x, g); let g = Z3_mk_eq(c, g, self.num(1, 1)); let (p, q) = (self.ast(x, a), self.ast(x, b)); Z3_mk_ite(c, g, p, q) }
                Node::Zext(a) => { let p = self.ast(x, a); Z3_mk_zero_ext(c, (w - x.w(a)) as c_uint, p) }
                Node::Sext(a) => { let p = self.ast(x, a); Z3_mk_sign_ext(c, (w - x.w(a)) as c_uint, p) }
                Node::Extract(a, lo) => { let p = self.ast(x, a); Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, p) }
                Node::Un(op, a) => {
                    let p = self.ast(x, a); let wa = x.w(a);
                    let bit = |i: u8| Z3_mk_eq(c, Z3_mk_extract(c, i as c_uint, i as c_uint, p), self.num(1, 1));
                    match op {
                        UnOp::Cttz => { let mut r = self.num(wa, wa as u64); for i in (0..wa).rev() { r = Z3_mk_ite(c, bit(i), self.num(wa, i as u64), r); } r }
                        UnOp::Ctlz => { let mut r = self.num(wa, wa as u64); for i in 0..wa { r = Z3_mk_ite(c, bit(i), self.num(wa, (wa - 1 - i) as u64), r); } r }
                        UnOp::Ctpop => { let mut r = self.num(wa, 0); for i in 0..wa { r = Z3_mk_bvadd(c, r, Z3_mk_ite(c, bit(i), self.num(wa, 1), self.num(wa, 0))); } r }
                        UnOp::Bswap => { let n = wa / 8; let mut r = Z3_mk_extract(c, 7, 0, p); for i in 1..n { let b = Z3_mk_extract(c, (i * 8 + 7) as c_uint, (i * 8) as c_uint, p); r = Z3_mk_concat(c, r, b); } r }
                        UnOp::BitRev => { let mut r = Z3_mk_extract(c, 0, 0, p); for i in 1..wa { let b = Z3_mk_extract(c, i as c_uint, i as c_uint, p); r = Z3_mk_concat(c, r, b); } r }
                    }
                }
                Node::Read(a, ents) => {
                    let p = self.ast(x, a); let wa = x.w(a);
                    let mut r = self.num(w, ents[0].1);
                    // group equal values to keep the chain short
                    let mut groups: std::collections::BTreeMap<u64, Vec<u64>> = Default::default();
                    for (k, v) in ents.iter() { if *v != ents[0].1 { groups.entry(*v).or_default().push(*k); } }
                    for (v, ks) in groups {
                        let cs: Vec<P> = ks.iter().map(|k| Z3_mk_eq(c, p, self.num(wa, *k))).collect();
                        let g = if cs.len() == 1 { cs[0] } else { Z3_mk_or(c, cs.len() as c_uint, cs.as_ptr()) };
                        r = Z3_mk_ite(c, g, self.num(w, v), r);
                    }
                    r
                }
            }
        };
        if self.cache.len() <= i { self.cache.resize(i + 1, std::ptr::null_mut()); }
        self.cache[i] = r;
        r
    }
    fn set_formula(&self, var: usize, b: &Bits) -> P {
        unsafe {
            let c = self.c; let v = self.var(var);
            let mut rs: Vec<P> = vec![];
            let mut i = 0usize;
            while i < 256 {
                if (b[i >> 6] >> (i & 63)) & 1 == 1 {
                    let s = i; while i < 256 && (b[i >> 6] >> (i & 63)) & 1 == 1 { i += 1; }
                    let e = i - 1;
                    rs.push(if s == e { Z3_mk_eq(c, v, self.num(8, s as u64)) } else {
                        let a = [Z3_mk_bvule(c, self.num(8, s as u64), v), Z3_mk_bvule(c, v, self.num(8, e as u64))];
                        Z3_mk_and(c, 2, a.as_ptr()) });
                } else { i += 1; }
            }
            Z3_mk_or(c, rs.len() as c_uint, rs.as_ptr())
        }
    }
    /// 1 sat, 0 unsat, -1 unknown
    fn check(&mut self) -> i32 {
        let t = std::time::Instant::now();
        let r = unsafe { Z3_solver_check(self.c, self.s) };
        let d = t.elapsed().as_nanos() as u64;
        self.queries += 1; self.ns += d; self.max_ns = self.max_ns.max(d);
        match r { 1 => { self.sat += 1; 1 } -1 => { self.unsat += 1; 0 } _ => { self.unknown += 1; -1 } }
    }
    /// Solve conjunction of exprs (width 1, must be 1) with variable domains.
    pub fn solve(&mut self, x: &Exprs, doms: &[(usize, Bits)], es: &[E]) -> Result<Option<Vec<(usize, u8)>>, ()> {
        unsafe {
            let c = self.c;
            Z3_solver_push(c, self.s);
            for (v, b) in doms { let f = self.set_formula(*v, b); Z3_solver_assert(c, self.s, f); }
            for &e in es { let a = self.ast(x, e); let f = Z3_mk_eq(c, a, self.num(1, 1)); Z3_solver_assert(c, self.s, f); }
            let r = self.check();
            let out = if r == 1 {
                let m = Z3_solver_get_model(c, self.s);
                Z3_model_inc_ref(c, m);
                let mut res = vec![];
                for (v, _) in doms {
                    let mut p: P = std::ptr::null_mut();
                    let mut k = 0u64;
                    if !Z3_model_eval(c, m, self.var(*v), true, &mut p) || !Z3_get_numeral_uint64(c, p, &mut k) { Z3_solver_pop(c, self.s, 1); return Err(()); }
                    res.push((*v, k as u8));
                }
                Z3_model_dec_ref(c, m);
                Ok(Some(res))
            } else if r == 0 { Ok(None) } else { Err(()) };
            Z3_solver_pop(c, self.s, 1);
            out
        }
    }
    /// Certify that the tables of single-variable conditions are what the formulas say, over their domains.
    pub fn certify(&mut self, x: &Exprs, items: &[(E, usize, Bits, Bits)]) -> i32 {
        unsafe {
            let c = self.c;
            let mut ors: Vec<P> = vec![];
            for (e, var, bits, dom) in items {
                let d = self.set_formula(*var, dom);
                let a = self.ast(x, *e); let f = Z3_mk_eq(c, a, self.num(1, 1));
                let inter = [bits[0] & dom[0], bits[1] & dom[1], bits[2] & dom[2], bits[3] & dom[3]];
                let t = self.set_formula(*var, &inter);
                let q = [d, Z3_mk_not(c, Z3_mk_eq(c, f, t))];
                ors.push(Z3_mk_and(c, 2, q.as_ptr()));
            }
            Z3_solver_push(c, self.s);
            Z3_solver_assert(c, self.s, Z3_mk_or(c, ors.len() as c_uint, ors.as_ptr()));
            let r = self.check();
            Z3_solver_pop(c, self.s, 1);
            r
        }
    }
}
