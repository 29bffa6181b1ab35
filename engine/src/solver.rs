//! Z3 (C API) back end.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
}
extern "C" fn on_err(_c: P, code: c_int) { eprintln!("z3 error {}", code); std::process::exit(70); }

pub enum Res { Sat(Vec<(u32, u128)>), Unsat, Unknown }

pub struct Solver {
    ctx: P,
    fast: P,
    /// one bit: 1 and 0 (results not referenced live only until the next call)
    units: (P, P),
    bv: HashMap<E, P>,
    bl: HashMap<E, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub slowest: f64,
    timeout_ms: u32,
    dump: Option<String>,
    dumped: u64,
}

impl Solver {
    pub fn new(timeout_ms: u32, dump: Option<String>) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let fast = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, fast);
            let mut s = Solver { ctx, fast, units: (std::ptr::null_mut(), std::ptr::null_mut()), bv: HashMap::new(), bl: HashMap::new(), queries: 0, sat: 0, unsat: 0, time: 0.0, slowest: 0.0, timeout_ms, dump, dumped: 0 };
            let one = s.num(1, 1); Z3_inc_ref(ctx, one);
            let zero = s.num(0, 1); Z3_inc_ref(ctx, zero);
            s.units = (one, zero);
            s.set_timeout(fast, 1500.min(timeout_ms));
            s
        }
    }
    pub fn version() -> String { let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0); unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d); } format!("z3 {}.{}.{}", a, b, c) }
    unsafe fn sym(&self, s: &str) -> P { let c = CString::new(s).unwrap(); Z3_mk_string_symbol(self.ctx, c.as_ptr()) }
    fn set_timeout(&self, s: P, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            Z3_params_set_uint(self.ctx, p, self.sym("timeout"), ms);
            Z3_solver_set_params(self.ctx, s, p);
        }
    }
    unsafe fn num(&self, v: u128, w: u32) -> P { let c = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.ctx, c.as_ptr(), Z3_mk_bv_sort(self.ctx, w)) }

    /// Post-order translation without deep recursion.
    fn translate(&mut self, a: &Arena, root: E) {
        let mut st = vec![root];
        while let Some(&x) = st.last() {
            if self.bv.contains_key(&x) || self.bl.contains_key(&x) { st.pop(); continue; }
            let kids: [E; 3] = match a.node(x) {
                Node::Const(_) | Node::Var(_) => [0, 0, 0],
                Node::Not(p) | Node::Extract(p, _) | Node::ZExt(p) | Node::SExt(p) => [p, 0, 0],
                Node::Bin(_, p, q) => [p, q, 0],
                Node::Ite(p, q, r) => [p, q, r],
            };
            let mut ready = true;
            for k in kids { if k != 0 && !self.bv.contains_key(&k) && !self.bl.contains_key(&k) { st.push(k); ready = false; } }
            if !ready { continue; }
            unsafe { self.mk(a, x); }
            st.pop();
        }
    }
    unsafe fn keep_bv(&mut self, e: E, p: P) { Z3_inc_ref(self.ctx, p); self.bv.insert(e, p); }
    unsafe fn keep_bl(&mut self, e: E, p: P) { Z3_inc_ref(self.ctx, p); self.bl.insert(e, p); }
    unsafe fn as_bv(&mut self, e: E) -> P {
        if let Some(p) = self.bv.get(&e) { return *p; }
        let b = self.bl[&e];
        let (one, zero) = self.units;
        let p = Z3_mk_ite(self.ctx, b, one, zero);
        self.keep_bv(e, p);
        p
    }
    unsafe fn as_bl(&mut self, e: E) -> P {
        if let Some(p) = self.bl.get(&e) { return *p; }
        let b = self.bv[&e];
        let p = Z3_mk_eq(self.ctx, b, self.units.0);
        self.keep_bl(e, p);
        p
    }
    unsafe fn mk(&mut self, a: &Arena, x: E) {
        let c = self.ctx;
        let w = a.width(x);
        match a.node(x) {
            Node::Const(v) => { let p = self.num(v, w); self.keep_bv(x, p) }
            Node::Var(i) => { let s = self.sym(&format!("v{}", i)); let p = Z3_mk_const(c, s, Z3_mk_bv_sort(c, w)); self.keep_bv(x, p) }
            Node::Not(p) => {
                if w == 1 { let q = self.as_bl(p); let r = Z3_mk_not(c, q); self.keep_bl(x, r) } else { let q = self.as_bv(p); let r = Z3_mk_bvnot(c, q); self.keep_bv(x, r) }
            }
            Node::Extract(p, lo) => { let q = self.as_bv(p); let r = Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, q); self.keep_bv(x, r) }
            Node::ZExt(p) => { let n = w - a.width(p); let q = self.as_bv(p); let r = Z3_mk_zero_ext(c, n, q); self.keep_bv(x, r) }
            Node::SExt(p) => { let n = w - a.width(p); let q = self.as_bv(p); let r = Z3_mk_sign_ext(c, n, q); self.keep_bv(x, r) }
            Node::Ite(p, q, s) => {
                let pc = self.as_bl(p);
                if w == 1 { let u = self.as_bl(q); let v = self.as_bl(s); let r = Z3_mk_ite(c, pc, u, v); self.keep_bl(x, r) }
                else { let u = self.as_bv(q); let v = self.as_bv(s); let r = Z3_mk_ite(c, pc, u, v); self.keep_bv(x, r) }
            }
            Node::Bin(op, p, q) => {
                let pw = a.width(p);
                if pw == 1 && matches!(op, Op::And | Op::Or | Op::Xor | Op::Eq) {
                    let u = self.as_bl(p); let v = self.as_bl(q);
                    let arr = [u, v];
                    let r = match op { Op::And => Z3_mk_and(c, 2, arr.as_ptr()), Op::Or => Z3_mk_or(c, 2, arr.as_ptr()), Op::Xor => Z3_mk_xor(c, u, v), _ => Z3_mk_eq(c, u, v) };
                    return self.keep_bl(x, r);
                }
                let u = self.as_bv(p); let v = self.as_bv(q);
                let r = match op {
                    Op::Add => Z3_mk_bvadd(c, u, v), Op::Sub => Z3_mk_bvsub(c, u, v), Op::Mul => Z3_mk_bvmul(c, u, v),
                    Op::UDiv => Z3_mk_bvudiv(c, u, v), Op::SDiv => Z3_mk_bvsdiv(c, u, v), Op::URem => Z3_mk_bvurem(c, u, v), Op::SRem => Z3_mk_bvsrem(c, u, v),
                    Op::And => Z3_mk_bvand(c, u, v), Op::Or => Z3_mk_bvor(c, u, v), Op::Xor => Z3_mk_bvxor(c, u, v),
                    Op::Shl => Z3_mk_bvshl(c, u, v), Op::LShr => Z3_mk_bvlshr(c, u, v), Op::AShr => Z3_mk_bvashr(c, u, v),
                    Op::Concat => Z3_mk_concat(c, u, v),
                    Op::Eq => return { let r = Z3_mk_eq(c, u, v); self.keep_bl(x, r) },
                    Op::Ult => return { let r = Z3_mk_bvult(c, u, v); self.keep_bl(x, r) },
                    Op::Ule => return { let r = Z3_mk_bvule(c, u, v); self.keep_bl(x, r) },
                    Op::Slt => return { let r = Z3_mk_bvslt(c, u, v); self.keep_bl(x, r) },
                    Op::Sle => return { let r = Z3_mk_bvsle(c, u, v); self.keep_bl(x, r) },
                };
                self.keep_bv(x, r)
            }
        }
    }

    pub fn check(&mut self, a: &mut Arena, cs: &[E]) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        for &e in cs { self.translate(a, e); }
        let mut vars: Vec<u32> = vec![];
        for &e in cs { vars.extend(a.deps(e).iter()); }
        vars.sort_unstable(); vars.dedup();
        let res = unsafe {
            let s = self.fast;
            Z3_solver_push(self.ctx, s);
            for &e in cs { let b = self.as_bl(e); Z3_solver_assert(self.ctx, s, b); }
            let mut r = Z3_solver_check(self.ctx, s);
            let text = if self.dump.is_some() { CStr::from_ptr(Z3_solver_to_string(self.ctx, s)).to_string_lossy().to_string() } else { String::new() };
            let mut out = self.finish(a, s, r, &vars);
            Z3_solver_pop(self.ctx, s, 1);
            if r == 0 {
                let lg = self.sym("QF_BV");
                let s2 = Z3_mk_solver_for_logic(self.ctx, lg);
                Z3_solver_inc_ref(self.ctx, s2);
                self.set_timeout(s2, self.timeout_ms);
                for &e in cs { let b = self.as_bl(e); Z3_solver_assert(self.ctx, s2, b); }
                r = Z3_solver_check(self.ctx, s2);
                out = self.finish(a, s2, r, &vars);
                Z3_solver_dec_ref(self.ctx, s2);
            }
            if let Some(d) = &self.dump {
                if r != 0 && self.dumped < 3000 {
                    let _ = std::fs::write(format!("{}/q{:05}_{}.smt2", d, self.dumped, if r == 1 { "sat" } else { "unsat" }), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", text));
                    self.dumped += 1;
                }
            }
            out
        };
        match &res { Res::Sat(_) => self.sat += 1, Res::Unsat => self.unsat += 1, _ => {} }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.slowest { self.slowest = dt; }
        res
    }
    unsafe fn finish(&mut self, a: &mut Arena, s: P, r: c_int, vars: &[u32]) -> Res {
        match r {
            1 => {
                let m = Z3_solver_get_model(self.ctx, s);
                Z3_model_inc_ref(self.ctx, m);
                let mut out = vec![];
                for &v in vars {
                    let e = a.var_expr(v);
                    let p = self.as_bv(e);
                    let mut o: P = std::ptr::null_mut();
                    assert!(Z3_model_eval(self.ctx, m, p, true, &mut o));
                    Z3_inc_ref(self.ctx, o);
                    let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, o)).to_str().unwrap();
                    out.push((v, s.parse::<u128>().unwrap()));
                }
                Z3_model_dec_ref(self.ctx, m);
                Res::Sat(out)
            }
            -1 => Res::Unsat,
            _ => Res::Unknown,
        }
    }
}
