//! SMT back end: translation of path constraints to z3 and query bookkeeping.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_del_config(c: *mut c_void);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_uint)>);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_solver_for_logic(c: Ctx, s: *mut c_void) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, a: Ast, compl: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, out: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_get_full_version() -> *const c_char;
}
pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

extern "C" fn on_err(_: Ctx, e: c_uint) {
    eprintln!("z3 error {e}");
    std::process::abort();
}

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub ns: AtomicU64,
    pub cache_hits: AtomicU64,
    pub max_ns: AtomicU64,
}
pub type Ans = Option<Arc<Vec<(u32, u64)>>>; // None: unsat; Some: values of the mentioned variables
pub struct Shared {
    pub cache: Vec<Mutex<HashMap<H, Ans>>>,
    pub st: Stats,
}
impl Shared {
    pub fn new() -> Shared {
        Shared { cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(), st: Stats::default() }
    }
}

pub struct Z3 {
    c: Ctx,
    s: Solver,
    memo: HashMap<H, Ast>, // bit-vector terms
    bmemo: HashMap<H, Ast>, // width-1 terms as booleans
    vars: HashMap<(u32, u8), Ast>,
    pub timeout_ms: u32,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        let mut z = Z3 {
            c: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            memo: HashMap::new(),
            bmemo: HashMap::new(),
            vars: HashMap::new(),
            timeout_ms,
        };
        z.reset();
        z
    }
    fn reset(&mut self) {
        unsafe {
            if !self.c.is_null() {
                Z3_del_context(self.c);
            }
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new(self.timeout_ms.to_string()).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            self.s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
            Z3_solver_inc_ref(self.c, self.s);
        }
        self.memo.clear();
        self.bmemo.clear();
        self.vars.clear();
    }
    fn bvs(&self, w: u8) -> Sort {
        unsafe { Z3_mk_bv_sort(self.c, w as c_uint) }
    }
    fn num(&self, w: u8, v: u128) -> Ast {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, self.bvs(w))
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), self.bvs(w))
            }
        }
    }
    fn varr(&mut self, id: u32, w: u8) -> Ast {
        if let Some(a) = self.vars.get(&(id, w)) {
            return *a;
        }
        let a = unsafe {
            let s = CString::new(format!("v{id}_{w}")).unwrap();
            Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), self.bvs(w))
        };
        self.vars.insert((id, w), a);
        a
    }
    fn set_member(&mut self, x: Ast, vw: u8, b: &[u64; 4]) -> Ast {
        // union of intervals
        let n = 1usize << vw;
        let get = |i: usize| (b[i >> 6] >> (i & 63)) & 1 == 1;
        let mut parts: Vec<Ast> = vec![];
        let mut i = 0;
        unsafe {
            while i < n {
                if !get(i) {
                    i += 1;
                    continue;
                }
                let st = i;
                while i < n && get(i) {
                    i += 1;
                }
                let e = i - 1;
                let p = if st == e {
                    Z3_mk_eq(self.c, x, self.num(vw, st as u128))
                } else {
                    let mut cs = vec![];
                    if st > 0 {
                        cs.push(Z3_mk_bvule(self.c, self.num(vw, st as u128), x));
                    }
                    if e < n - 1 {
                        cs.push(Z3_mk_bvule(self.c, x, self.num(vw, e as u128)));
                    }
                    if cs.is_empty() {
                        Z3_mk_true(self.c)
                    } else {
                        Z3_mk_and(self.c, cs.len() as c_uint, cs.as_ptr())
                    }
                };
                parts.push(p);
            }
            if parts.is_empty() {
                Z3_mk_false(self.c)
            } else {
                Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr())
            }
        }
    }
    fn tabx(&mut self, e: &E) -> Ast {
        let vw = tab_vw(e);
        let x = self.varr(tab_var(e), vw);
        let t = e.tab.as_ref().unwrap();
        let n = 1usize << vw;
        let m = mask(e.w);
        // runs of slope 0 or 1
        let mut runs: Vec<(usize, usize, u64)> = vec![]; // start, slope, value-at-start
        let mut i = 0;
        while i < n {
            let st = i;
            let mut j = i + 1;
            let slope;
            if j < n && t[j] == t[st] {
                slope = 0;
                while j < n && t[j] == t[st] {
                    j += 1;
                }
            } else {
                slope = 1;
                while j < n && t[j] == (t[st].wrapping_add((j - st) as u64)) & m {
                    j += 1;
                }
            }
            runs.push((st, slope, t[st]));
            i = j;
        }
        unsafe {
            let xw = if e.w > vw {
                Z3_mk_zero_ext(self.c, (e.w - vw) as c_uint, x)
            } else if e.w < vw {
                Z3_mk_extract(self.c, e.w as c_uint - 1, 0, x)
            } else {
                x
            };
            let mut r: Option<Ast> = None;
            for (st, slope, v) in runs.iter().rev() {
                let val = if *slope == 0 {
                    self.num(e.w, *v as u128)
                } else {
                    let off = v.wrapping_sub(*st as u64) & m;
                    if off == 0 {
                        xw
                    } else {
                        Z3_mk_bvadd(self.c, xw, self.num(e.w, off as u128))
                    }
                };
                r = Some(match r {
                    None => val,
                    Some(_) if false => val,
                    Some(rest) => {
                        // values from st up to the next run's start
                        let nxt = runs[runs.iter().position(|q| q.0 == *st).unwrap() + 1].0;
                        let c = Z3_mk_bvult(self.c, x, self.num(vw, nxt as u128));
                        Z3_mk_ite(self.c, c, val, rest)
                    }
                });
            }
            r.unwrap()
        }
    }
    fn bv(&mut self, e: &E) -> Ast {
        if let Some(a) = self.memo.get(&e.hash) {
            return *a;
        }
        let c = self.c;
        let ch = |i: usize| e.ch[i].as_ref().unwrap().clone();
        let r = unsafe {
            match e.op {
                Op::Const => self.num(e.w, e.k),
                Op::Var => self.varr(e.k as u32, e.w),
                Op::Tab => self.tabx(e),
                Op::Bits | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.bl(e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(1, 0))
                }
                Op::Extract => {
                    let a = self.bv(&ch(0));
                    Z3_mk_extract(c, e.k as c_uint + e.w as c_uint - 1, e.k as c_uint, a)
                }
                Op::ZExt => {
                    let a = self.bv(&ch(0));
                    Z3_mk_zero_ext(c, (e.w - ch(0).w) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.bv(&ch(0));
                    Z3_mk_sign_ext(c, (e.w - ch(0).w) as c_uint, a)
                }
                Op::Ite => {
                    let k = self.bl(&ch(0));
                    let (a, b) = (self.bv(&ch(1)), self.bv(&ch(2)));
                    Z3_mk_ite(c, k, a, b)
                }
                op => {
                    let (a, b) = (self.bv(&ch(0)), self.bv(&ch(1)));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.memo.insert(e.hash, r);
        r
    }
    fn bl(&mut self, e: &E) -> Ast {
        if let Some(a) = self.bmemo.get(&e.hash) {
            return *a;
        }
        let c = self.c;
        let ch = |i: usize| e.ch[i].as_ref().unwrap().clone();
        let r = unsafe {
            match e.op {
                Op::Const => {
                    if e.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Bits => {
                    let x = self.varr(tab_var(e), tab_vw(e));
                    self.set_member(x, tab_vw(e), &e.bits)
                }
                Op::Eq => {
                    let (a, b) = (self.bv(&ch(0)), self.bv(&ch(1)));
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult => {
                    let (a, b) = (self.bv(&ch(0)), self.bv(&ch(1)));
                    Z3_mk_bvult(c, a, b)
                }
                Op::Ule => {
                    let (a, b) = (self.bv(&ch(0)), self.bv(&ch(1)));
                    Z3_mk_bvule(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.bv(&ch(0)), self.bv(&ch(1)));
                    Z3_mk_bvslt(c, a, b)
                }
                Op::Sle => {
                    let (a, b) = (self.bv(&ch(0)), self.bv(&ch(1)));
                    Z3_mk_bvsle(c, a, b)
                }
                Op::And => {
                    let a = [self.bl(&ch(0)), self.bl(&ch(1))];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.bl(&ch(0)), self.bl(&ch(1))];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Xor => {
                    let y = ch(1);
                    let a = self.bl(&ch(0));
                    if y.op == Op::Const && y.k == 1 {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.bl(&y);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let (k, a, b) = (self.bl(&ch(0)), self.bl(&ch(1)), self.bl(&ch(2)));
                    Z3_mk_ite(c, k, a, b)
                }
                _ => {
                    let a = self.bv(e);
                    Z3_mk_eq(c, a, self.num(1, 1))
                }
            }
        };
        self.bmemo.insert(e.hash, r);
        r
    }
    /// satisfiability of the conjunction of `cs` and of the variable domains `doms`
    pub fn check(&mut self, sh: &Shared, doms: &[(u32, u8, [u64; 4])], cs: &[E], vars: &[(u32, u8)]) -> Result<Ans, ()> {
        if self.memo.len() + self.bmemo.len() > 100_000 {
            self.reset();
        }
        let t0 = std::time::Instant::now();
        unsafe {
            Z3_solver_push(self.c, self.s);
            for (id, w, b) in doms {
                let x = self.varr(*id, *w);
                let a = self.set_member(x, *w, b);
                Z3_solver_assert(self.c, self.s, a);
            }
            for e in cs {
                let a = self.bl(e);
                Z3_solver_assert(self.c, self.s, a);
            }
            let r = Z3_solver_check(self.c, self.s);
            let out = if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut v = vec![];
                for (id, w) in vars {
                    let a = self.varr(*id, *w);
                    let mut o = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, a, true, &mut o);
                    let mut x = 0u64;
                    Z3_get_numeral_uint64(self.c, o, &mut x);
                    v.push((*id, x));
                }
                Z3_model_dec_ref(self.c, m);
                Ok(Some(Arc::new(v)))
            } else if r == -1 {
                Ok(None)
            } else {
                Err(())
            };
            Z3_solver_pop(self.c, self.s, 1);
            let dt = t0.elapsed().as_nanos() as u64;
            sh.st.queries.fetch_add(1, Ordering::Relaxed);
            sh.st.ns.fetch_add(dt, Ordering::Relaxed);
            sh.st.max_ns.fetch_max(dt, Ordering::Relaxed);
            match &out {
                Ok(Some(_)) => &sh.st.sat,
                Ok(None) => &sh.st.unsat,
                Err(_) => &sh.st.unknown,
            }
            .fetch_add(1, Ordering::Relaxed);
            out
        }
    }
}
