//! Z3 back end (C API), query cache, slicing.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::c_char;
use std::os::raw::{c_int, c_uint, c_void};
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("rsx: z3 error {}", code);
    std::process::exit(3);
}
pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone)]
pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}
#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub ns: u64,
}
pub struct Solver {
    ctx: P,
    solver: P,
    one: P,
    asts: FxMap<E, P>,
    cache: HashMap<Vec<E>, Res>,
    pub st: Stats,
    pub rlimit: u32,
}
impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            solver: std::ptr::null_mut(),
            one: std::ptr::null_mut(),
            asts: Default::default(),
            cache: HashMap::new(),
            st: Default::default(),
            rlimit,
        };
        s.fresh();
        s
    }
    /// new Z3 context (also used in the child after fork)
    pub fn fresh(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(self.ctx, Some(on_err));
            let _ = Z3_mk_solver_for_logic as *const ();
            let _ = Z3_mk_string_symbol as *const ();
            self.solver = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.solver);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = std::ffi::CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.rlimit);
            Z3_solver_set_params(self.ctx, self.solver, p);
            self.asts = Default::default();
            self.one = self.num(1, 1);
            Z3_inc_ref(self.ctx, self.one);
        }
    }
    pub fn recycle(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
        }
        self.fresh();
    }
    unsafe fn num(&self, w: u32, k: u128) -> P {
        if w <= 64 {
            Z3_mk_unsigned_int64(self.ctx, k as u64, Z3_mk_bv_sort(self.ctx, w))
        } else {
            let h = Z3_mk_unsigned_int64(self.ctx, (k >> 64) as u64, Z3_mk_bv_sort(self.ctx, w - 64));
            Z3_inc_ref(self.ctx, h);
            let l = Z3_mk_unsigned_int64(self.ctx, k as u64, Z3_mk_bv_sort(self.ctx, 64));
            Z3_inc_ref(self.ctx, l);
            Z3_mk_concat(self.ctx, h, l)
        }
    }
    fn ast(&mut self, e: E) -> P {
        if let Some(p) = self.asts.get(&e) {
            return *p;
        }
        let x = n(e);
        let a = if x.a != NIL { self.ast(x.a) } else { std::ptr::null_mut() };
        let b = if x.b != NIL { self.ast(x.b) } else { std::ptr::null_mut() };
        let d = if x.c != NIL { self.ast(x.c) } else { std::ptr::null_mut() };
        let c = self.ctx;
        let ww = x.w as u32;
        let r = unsafe {
            let keep = |p: P| -> P {
                Z3_inc_ref(c, p);
                p
            };
            let one = self.one;
            let zero = keep(self.num(1, 0));
            let b2v = |p: P| -> P {
                let p = keep(p);
                Z3_mk_ite(c, p, one, zero)
            };
            match x.op {
                Op::Const => self.num(ww, x.k),
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, x.k as c_int), Z3_mk_bv_sort(c, 8)),
                Op::InSet => {
                    let s = ar().sets[x.k as usize];
                    let mut ors = vec![];
                    let mut i = 0;
                    while i < 256 {
                        if has(&s, i as u8) {
                            let st = i;
                            while i < 256 && has(&s, i as u8) {
                                i += 1;
                            }
                            let (lo, hi) = (keep(self.num(8, st as u128)), keep(self.num(8, i as u128 - 1)));
                            let p = if st == i - 1 {
                                keep(Z3_mk_eq(c, a, lo))
                            } else {
                                let q = [keep(Z3_mk_bvule(c, lo, a)), keep(Z3_mk_bvule(c, a, hi))];
                                keep(Z3_mk_and(c, 2, q.as_ptr()))
                            };
                            ors.push(p);
                        } else {
                            i += 1;
                        }
                    }
                    b2v(Z3_mk_or(c, ors.len() as u32, ors.as_ptr()))
                }
                Op::Tab => {
                    let t = ar().tabs[x.k as usize].clone();
                    // runs of identical value
                    let mut runs: Vec<(usize, u128)> = vec![];
                    for i in 0..256 {
                        if runs.last().map_or(true, |r| r.1 != t[i]) {
                            runs.push((i, t[i]));
                        }
                    }
                    let mut cur = keep(self.num(ww, runs[0].1));
                    for (st, v) in &runs[1..] {
                        let lo = keep(self.num(8, *st as u128));
                        let p = keep(Z3_mk_bvule(c, lo, a));
                        let v = keep(self.num(ww, *v));
                        cur = keep(Z3_mk_ite(c, p, v, cur));
                    }
                    cur
                }
                Op::Add => Z3_mk_bvadd(c, a, b),
                Op::Sub => Z3_mk_bvsub(c, a, b),
                Op::Mul => Z3_mk_bvmul(c, a, b),
                Op::UDiv => Z3_mk_bvudiv(c, a, b),
                Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                Op::URem => Z3_mk_bvurem(c, a, b),
                Op::SRem => Z3_mk_bvsrem(c, a, b),
                Op::And => Z3_mk_bvand(c, a, b),
                Op::Or => Z3_mk_bvor(c, a, b),
                Op::Xor => Z3_mk_bvxor(c, a, b),
                Op::Shl => Z3_mk_bvshl(c, a, b),
                Op::LShr => Z3_mk_bvlshr(c, a, b),
                Op::AShr => Z3_mk_bvashr(c, a, b),
                Op::ZExt => Z3_mk_zero_ext(c, ww - w(x.a), a),
                Op::SExt => Z3_mk_sign_ext(c, ww - w(x.a), a),
                Op::Extract => Z3_mk_extract(c, x.k as u32 + ww - 1, x.k as u32, a),
                Op::Concat => Z3_mk_concat(c, a, b),
                Op::Ite => {
                    let p = keep(Z3_mk_eq(c, a, one));
                    Z3_mk_ite(c, p, b, d)
                }
                Op::Eq => b2v(Z3_mk_eq(c, a, b)),
                Op::Ult => b2v(Z3_mk_bvult(c, a, b)),
                Op::Ule => b2v(Z3_mk_bvule(c, a, b)),
                Op::Slt => b2v(Z3_mk_bvslt(c, a, b)),
                Op::Sle => b2v(Z3_mk_bvsle(c, a, b)),
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.asts.insert(e, r);
        r
    }
    /// products or quotients over several bytes
    pub fn hard(&self, cs: &[E]) -> bool {
        fn go(e: E, seen: &mut FxMap<E, ()>, k: &mut u32) {
            let x = n(e);
            if e == NIL || single(x.sup).is_some() || x.op == Op::Const || seen.insert(e, ()).is_some() {
                return;
            }
            if matches!(x.op, Op::Mul | Op::UDiv | Op::URem) {
                *k += 1;
            }
            for c in [x.a, x.b, x.c] {
                if c != NIL {
                    go(c, seen, k);
                }
            }
        }
        let (mut seen, mut k) = (Default::default(), 0);
        for c in cs {
            go(*c, &mut seen, &mut k);
        }
        k >= 1
    }
    /// satisfiability of a conjunction of boolean expressions
    pub fn check(&mut self, mut cs: Vec<E>) -> Res {
        cs.sort();
        cs.dedup();
        if cs.iter().any(|c| kst(*c) == Some(0)) {
            return Res::Unsat;
        }
        cs.retain(|c| kst(*c).is_none());
        if let Some(r) = self.cache.get(&cs) {
            self.st.cached += 1;
            return r.clone();
        }
        if self.asts.len() > 1_500_000 {
            self.recycle();
        }
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
        let t0 = std::time::Instant::now();
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.solver);
            let mut vars = 0u128;
            for e in &cs {
                vars |= sup(*e);
                let p = self.ast(*e);
                let q = Z3_mk_eq(self.ctx, p, self.one);
                Z3_inc_ref(self.ctx, q);
                Z3_solver_assert(self.ctx, self.solver, q);
            }
            match Z3_solver_check(self.ctx, self.solver) {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for i in 0..128 {
                        if vars >> i & 1 == 1 {
                            let v = self.ast(var(i));
                            let mut r: P = std::ptr::null_mut();
                            let mut u = 0u64;
                            if Z3_model_eval(self.ctx, m, v, true, &mut r) {
                                Z3_inc_ref(self.ctx, r);
                                Z3_get_numeral_uint64(self.ctx, r, &mut u);
                            }
                            out.push((i, u as u8));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            }
        };
        self.st.queries += 1;
        if let (true, Ok(v)) = (t0.elapsed().as_millis() > slow_ms(), std::env::var("RSX_SLOW")) {
            eprintln!("slow query {:?}", t0.elapsed());
            for c in &cs {
                eprintln!("   {}", crate::expr::show(*c, v.parse().unwrap_or(8)));
            }
        }
        self.st.ns += t0.elapsed().as_nanos() as u64;
        match &r {
            Res::Sat(m) => {
                self.st.sat += 1;
                // cross-check the model with our own evaluator
                let mut mm = vec![0u8; 128];
                for (v, b) in m {
                    mm[*v as usize] = *b;
                }
                new_model();
                for e in &cs {
                    if eval_more(*e, &mm) != 1 {
                        eprintln!("rsx: evaluator disagrees with z3 on {}", show(*e, 8));
                        std::process::exit(3);
                    }
                }
            }
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        self.cache.insert(cs, r.clone());
        r
    }
}
fn slow_ms() -> u128 {
    thread_local!(static MS: u128 = std::env::var("RSX_SLOW_MS").ok().and_then(|v| v.parse().ok()).unwrap_or(400));
    MS.with(|m| *m)
}
