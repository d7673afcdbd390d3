//! Thin binding to the Z3 C API and the translation of expressions to Z3 terms.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> P;
    fn dlsym(h: P, n: *const c_char) -> P;
    fn dlerror() -> *const c_char;
}

// Z3 takes process-wide locks, so every worker loads a copy of the library of its own.
macro_rules! api {
    ($(fn $f:ident($($a:ident : $t:ty),* $(,)?) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        struct Api { $($f: unsafe extern "C" fn($($t),*) $(-> $r)?),* }
        impl Api {
            unsafe fn load(h: P) -> Api {
                Api { $($f: {
                    let n = CString::new(stringify!($f)).unwrap();
                    let p = dlsym(h, n.as_ptr());
                    assert!(!p.is_null(), "no {} in libz3", stringify!($f));
                    std::mem::transmute::<P, unsafe extern "C" fn($($t),*) $(-> $r)?>(p)
                }),* }
            }
        }
        $(#[allow(non_snake_case)]
        #[inline]
        unsafe fn $f($($a: $t),*) $(-> $r)? {
            (API.with(|x| x.get()).as_ref().unwrap().$f)($($a),*)
        })*
    };
}

thread_local! {
    static API: std::cell::Cell<*const Api> = const { std::cell::Cell::new(std::ptr::null()) };
}

/// Loads the n-th copy of the library for this thread.
pub fn load_library(dir: &std::path::Path, source: &str, n: usize) {
    let f = dir.join(format!("z3-{n}.so"));
    let size = std::fs::metadata(source).map(|m| m.len()).unwrap_or(0);
    if std::fs::metadata(&f).map(|m| m.len()).ok() != Some(size) {
        let t = dir.join(format!("z3-{n}.so.{}", std::process::id()));
        std::fs::create_dir_all(dir).expect("directory for the solver");
        std::fs::copy(source, &t).expect("copy of the solver library");
        std::fs::rename(&t, &f).expect("copy of the solver library");
    }
    let c = CString::new(f.to_str().unwrap()).unwrap();
    unsafe {
        let h = dlopen(c.as_ptr(), 2);
        if h.is_null() {
            panic!("dlopen: {}", std::ffi::CStr::from_ptr(dlerror()).to_string_lossy());
        }
        API.with(|x| x.set(Box::leak(Box::new(Api::load(h)))));
    }
}

api! {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("z3 error code {code}");
    std::process::exit(70);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    cfg: P,
    c: P,
    s: P,
    bv: Vec<P>,
    bo: Vec<P>,
    vars: Vec<P>,
    dom: HashMap<(u32, Bits), P, FxBuild>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub dump: Vec<(String, bool)>,
    pub dump_every: u64,
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c);
            Z3_del_config(self.cfg);
        }
    }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_solver(c);
            let _ = Z3_mk_simple_solver as usize;
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver {
                cfg,
                c,
                s,
                bv: vec![],
                bo: vec![],
                vars: vec![],
                dom: Default::default(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                dump: vec![],
                dump_every: 0,
            }
        }
    }

    fn var(&mut self, n: u32) -> P {
        while self.vars.len() <= n as usize {
            unsafe {
                let s = CString::new(format!("b{}", self.vars.len())).unwrap();
                let v = Z3_mk_const(
                    self.c,
                    Z3_mk_string_symbol(self.c, s.as_ptr()),
                    Z3_mk_bv_sort(self.c, 8),
                );
                Z3_inc_ref(self.c, v);
                self.vars.push(v);
            }
        }
        self.vars[n as usize]
    }
    fn num(&self, w: u32, v: u128) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(format!("{v}")).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn fsort(&self, w: u32) -> P {
        unsafe {
            if w == 64 {
                Z3_mk_fpa_sort(self.c, 11, 53)
            } else {
                Z3_mk_fpa_sort(self.c, 8, 24)
            }
        }
    }
    fn fp(&self, w: u32, bv: P) -> P {
        unsafe { Z3_mk_fpa_to_fp_bv(self.c, bv, self.fsort(w)) }
    }

    // Floating-point operations that need no arithmetic of significands are encoded over the bits: the solver decides
    // those much sooner than the general operations.
    fn f_parts(w: u32) -> (u32, u128) {
        if w == 64 {
            (52, 1023)
        } else {
            (23, 127)
        }
    }
    fn f_mag(&self, w: u32, x: P) -> P {
        unsafe { Z3_mk_bvand(self.c, x, self.num(w, mask(w - 1))) }
    }
    fn f_neg(&self, w: u32, x: P) -> P {
        unsafe { Z3_mk_bvslt(self.c, x, self.num(w, 0)) }
    }
    fn f_inf(w: u32) -> u128 {
        let (m, _) = Self::f_parts(w);
        mask(w - 1) & !mask(m)
    }
    fn f_nan(&self, w: u32, x: P) -> P {
        unsafe { Z3_mk_bvult(self.c, self.num(w, Self::f_inf(w)), self.f_mag(w, x)) }
    }
    /// Ordered as the numbers are; both zeros are zero.
    fn f_key(&self, w: u32, x: P) -> P {
        unsafe {
            let m = self.f_mag(w, x);
            Z3_mk_ite(self.c, self.f_neg(w, x), Z3_mk_bvsub(self.c, self.num(w, 0), m), m)
        }
    }
    fn f_to_int(&self, wi: u32, w: u32, x: P, signed: bool) -> P {
        let c = self.c;
        let (mb, bias) = Self::f_parts(wi);
        unsafe {
            let n = |v: u128| self.num(64, v);
            let neg = self.f_neg(wi, x);
            let nan = self.f_nan(wi, x);
            let wide = if wi < 64 { Z3_mk_zero_ext(c, 64 - wi, x) } else { x };
            let e = Z3_mk_bvand(c, Z3_mk_bvlshr(c, wide, n(mb as u128)), n(mask(wi - 1 - mb)));
            let m = Z3_mk_bvor(c, Z3_mk_bvand(c, wide, n(mask(mb))), n(1 << mb));
            let point = n(bias + mb as u128);
            let big = Z3_mk_bvshl(c, m, Z3_mk_bvsub(c, e, point));
            let small = Z3_mk_bvlshr(c, m, Z3_mk_bvsub(c, point, e));
            let v = Z3_mk_ite(c, Z3_mk_bvule(c, point, e), big, small);
            let fraction = Z3_mk_bvult(c, e, n(bias));
            let v = Z3_mk_ite(c, fraction, n(0), v);
            let v = if w < 64 { Z3_mk_extract(c, w - 1, 0, v) } else { v };
            let zero = self.num(w, 0);
            let top = if signed { w - 1 } else { w };
            let high = Z3_mk_bvule(c, n(bias + top as u128), e);
            let v = if signed {
                let end = Z3_mk_ite(c, neg, self.num(w, mask(w - 1) + 1), self.num(w, mask(w - 1)));
                Z3_mk_ite(c, high, end, Z3_mk_ite(c, neg, Z3_mk_bvsub(c, zero, v), v))
            } else {
                Z3_mk_ite(c, neg, zero, Z3_mk_ite(c, high, self.num(w, mask(w)), v))
            };
            Z3_mk_ite(c, nan, zero, v)
        }
    }
    fn f_of_int(&self, wi: u32, x: P, signed: bool) -> P {
        let c = self.c;
        unsafe {
            let n = |v: u128| self.num(64, v);
            let x = match (wi < 64, signed) {
                (true, true) => Z3_mk_sign_ext(c, 64 - wi, x),
                (true, false) => Z3_mk_zero_ext(c, 64 - wi, x),
                _ => x,
            };
            let neg = Z3_mk_bvslt(c, x, n(0));
            let x = if signed { Z3_mk_ite(c, neg, Z3_mk_bvsub(c, n(0), x), x) } else { x };
            let mut v = x;
            let mut e = n(1023 + 63);
            for s in [32u32, 16, 8, 4, 2, 1] {
                let clear = Z3_mk_eq(c, Z3_mk_extract(c, 63, 64 - s, v), self.num(s, 0));
                v = Z3_mk_ite(c, clear, Z3_mk_bvshl(c, v, n(s as u128)), v);
                e = Z3_mk_ite(c, clear, Z3_mk_bvsub(c, e, n(s as u128)), e);
            }
            let m = Z3_mk_bvlshr(c, v, n(11));
            let rest = Z3_mk_bvand(c, v, n(mask(11)));
            let odd = Z3_mk_bvand(c, m, n(1));
            // above the half, or at the half of an odd one
            let up = Z3_mk_bvlshr(c, Z3_mk_bvadd(c, rest, Z3_mk_bvadd(c, n(mask(10)), odd)), n(11));
            let r = Z3_mk_bvadd(c, Z3_mk_bvshl(c, Z3_mk_bvsub(c, e, n(1)), n(52)), Z3_mk_bvadd(c, m, up));
            let r = Z3_mk_ite(c, Z3_mk_eq(c, x, n(0)), n(0), r);
            if signed {
                Z3_mk_ite(c, neg, Z3_mk_bvor(c, r, n(1 << 63)), r)
            } else {
                r
            }
        }
    }
    fn f_round(&self, w: u32, x: P, u: Un) -> P {
        let c = self.c;
        let (mb, bias) = Self::f_parts(w);
        unsafe {
            let n = |v: u128| self.num(w, v);
            let neg = self.f_neg(w, x);
            let sign = Z3_mk_bvand(c, x, n(1 << (w - 1)));
            let mag = self.f_mag(w, x);
            let e = Z3_mk_bvlshr(c, mag, n(mb as u128));
            let one = n(bias << mb);
            let below = Z3_mk_bvult(c, mag, one);
            // bits below the point
            let k = Z3_mk_bvsub(c, n(bias + mb as u128), e);
            let unit = Z3_mk_bvshl(c, n(1), k);
            let low = Z3_mk_bvsub(c, unit, n(1));
            let keep = |v: P| Z3_mk_bvand(c, v, Z3_mk_bvnot(c, low));
            let trunc = Z3_mk_ite(c, below, n(0), keep(mag));
            let next = Z3_mk_ite(c, below, one, keep(Z3_mk_bvadd(c, mag, low)));
            let half = Z3_mk_bvlshr(c, unit, n(1));
            let at_half = n((bias - 1) << mb);
            let small = Z3_mk_bvult(c, mag, at_half);
            let r = match u {
                Un::FTruncI => trunc,
                Un::FFloor | Un::FCeil => {
                    let away = if u == Un::FFloor { neg } else { Z3_mk_not(c, neg) };
                    let exact = Z3_mk_eq(c, mag, n(0));
                    let next = Z3_mk_ite(c, exact, n(0), next);
                    Z3_mk_ite(c, away, next, trunc)
                }
                Un::FRound => {
                    let r = keep(Z3_mk_bvadd(c, mag, half));
                    Z3_mk_ite(c, small, n(0), Z3_mk_ite(c, below, one, r))
                }
                _ => {
                    let odd = Z3_mk_bvand(c, Z3_mk_bvlshr(c, mag, k), n(1));
                    let r = keep(Z3_mk_bvadd(c, mag, Z3_mk_bvadd(c, Z3_mk_bvsub(c, half, n(1)), odd)));
                    let r = Z3_mk_ite(c, below, one, r);
                    Z3_mk_ite(c, Z3_mk_bvule(c, mag, at_half), n(0), r)
                }
            };
            let whole = Z3_mk_bvule(c, n((bias + mb as u128) << mb), mag);
            let r = Z3_mk_bvor(c, sign, r);
            let nan = Z3_mk_bvor(c, x, n(1 << (mb - 1)));
            Z3_mk_ite(c, whole, Z3_mk_ite(c, self.f_nan(w, x), nan, x), r)
        }
    }

    pub fn boolean(&mut self, ar: &Arena, i: Id) -> P {
        if self.bo.len() <= i as usize {
            self.bo.resize(ar.len().max(i as usize + 1), std::ptr::null_mut());
        }
        if !self.bo[i as usize].is_null() {
            return self.bo[i as usize];
        }
        let c = self.c;
        let r = unsafe {
            match ar.e(i) {
                E::Const(0) => Z3_mk_false(c),
                E::Const(_) => Z3_mk_true(c),
                E::Bin(op @ (Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle), a, b) => {
                    if ar.w(a) == 1 && op == Op::Eq {
                        let x = self.boolean(ar, a);
                        let y = self.boolean(ar, b);
                        Z3_mk_eq(c, x, y)
                    } else {
                        let x = self.bits(ar, a);
                        let y = self.bits(ar, b);
                        match op {
                            Op::Eq => Z3_mk_eq(c, x, y),
                            Op::Ult => Z3_mk_bvult(c, x, y),
                            Op::Ule => Z3_mk_bvule(c, x, y),
                            Op::Slt => Z3_mk_bvslt(c, x, y),
                            _ => Z3_mk_bvsle(c, x, y),
                        }
                    }
                }
                E::Bin(op @ (Op::FLt | Op::FLe | Op::FEq | Op::FUno), a, b) => {
                    let w = ar.w(a);
                    let x = self.bits(ar, a);
                    let y = self.bits(ar, b);
                    let l = [self.f_nan(w, x), self.f_nan(w, y)];
                    let nan = Z3_mk_or(c, 2, l.as_ptr());
                    let (x, y) = (self.f_key(w, x), self.f_key(w, y));
                    let r = match op {
                        Op::FLt => Z3_mk_bvslt(c, x, y),
                        Op::FLe => Z3_mk_bvsle(c, x, y),
                        Op::FEq => Z3_mk_eq(c, x, y),
                        _ => nan,
                    };
                    if op == Op::FUno {
                        nan
                    } else {
                        let l = [r, Z3_mk_not(c, nan)];
                        Z3_mk_and(c, 2, l.as_ptr())
                    }
                }
                E::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
                    let x = self.boolean(ar, a);
                    let y = self.boolean(ar, b);
                    let l = [x, y];
                    match op {
                        Op::And => Z3_mk_and(c, 2, l.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, l.as_ptr()),
                        _ => {
                            if ar.as_const(b) == Some(1) {
                                Z3_mk_not(c, x)
                            } else {
                                Z3_mk_xor(c, x, y)
                            }
                        }
                    }
                }
                E::Ite(p, a, b) => {
                    let p = self.boolean(ar, p);
                    let x = self.boolean(ar, a);
                    let y = self.boolean(ar, b);
                    Z3_mk_ite(c, p, x, y)
                }
                _ => {
                    let x = self.bits(ar, i);
                    Z3_mk_eq(c, x, self.num(1, 1))
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bo[i as usize] = r;
        r
    }

    pub fn bits(&mut self, ar: &Arena, i: Id) -> P {
        if self.bv.len() <= i as usize {
            self.bv.resize(ar.len().max(i as usize + 1), std::ptr::null_mut());
        }
        if !self.bv[i as usize].is_null() {
            return self.bv[i as usize];
        }
        let c = self.c;
        let w = ar.w(i);
        let r = unsafe {
            match ar.e(i) {
                E::Const(k) => self.num(w, k),
                E::Var(n) => self.var(n),
                E::Bin(op, a, b) => {
                    let boolean = matches!(
                        op,
                        Op::Eq
                            | Op::Ult
                            | Op::Ule
                            | Op::Slt
                            | Op::Sle
                            | Op::FLt
                            | Op::FLe
                            | Op::FEq
                            | Op::FUno
                    ) || (w == 1 && matches!(op, Op::And | Op::Or | Op::Xor));
                    if boolean {
                        let x = self.boolean(ar, i);
                        Z3_mk_ite(c, x, self.num(1, 1), self.num(1, 0))
                    } else {
                        let x = self.bits(ar, a);
                        let y = self.bits(ar, b);
                        match op {
                            Op::Add => Z3_mk_bvadd(c, x, y),
                            Op::Sub => Z3_mk_bvsub(c, x, y),
                            Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y),
                            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Op::URem => Z3_mk_bvurem(c, x, y),
                            Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y),
                            Op::Or => Z3_mk_bvor(c, x, y),
                            Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y),
                            Op::LShr => Z3_mk_bvlshr(c, x, y),
                            Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::Concat => Z3_mk_concat(c, x, y),
                            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                                let (x, y) = (self.fp(w, x), self.fp(w, y));
                                let r = Z3_mk_fpa_rne(c);
                                let f = match op {
                                    Op::FAdd => Z3_mk_fpa_add(c, r, x, y),
                                    Op::FSub => Z3_mk_fpa_sub(c, r, x, y),
                                    Op::FMul => Z3_mk_fpa_mul(c, r, x, y),
                                    _ => Z3_mk_fpa_div(c, r, x, y),
                                };
                                Z3_mk_fpa_to_ieee_bv(c, f)
                            }
                            _ => panic!("unsupported symbolic operation {op:?}"),
                        }
                    }
                }
                E::Un(u, a) => {
                    let wi = ar.w(a);
                    let x = self.bits(ar, a);
                    match u {
                        Un::ZExt => Z3_mk_zero_ext(c, w - wi, x),
                        Un::SExt => Z3_mk_sign_ext(c, w - wi, x),
                        Un::Extract(lo) => {
                            Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, x)
                        }
                        Un::FToUI | Un::FToSI if w <= 64 => self.f_to_int(wi, w, x, u == Un::FToSI),
                        Un::UIToF | Un::SIToF if wi <= 64 && w == 64 => {
                            self.f_of_int(wi, x, u == Un::SIToF)
                        }
                        Un::FFloor | Un::FCeil | Un::FTruncI | Un::FRoundEven | Un::FRound => {
                            self.f_round(w, x, u)
                        }
                        Un::FToUI | Un::FToSI => {
                            let f = self.fp(wi, x);
                            let s = self.fsort(wi);
                            let d = |v: f64| Z3_mk_fpa_numeral_double(c, v, s);
                            let rtz = Z3_mk_fpa_rtz(c);
                            if u == Un::FToUI {
                                let v = Z3_mk_fpa_to_ubv(c, rtz, f, w);
                                let low = Z3_mk_fpa_leq(c, f, d(0.0));
                                let high = Z3_mk_fpa_leq(c, d((2f64).powi(w as i32)), f);
                                let t = Z3_mk_ite(c, high, self.num(w, mask(w)), v);
                                let l = [low, Z3_mk_fpa_is_nan(c, f)];
                                Z3_mk_ite(c, Z3_mk_or(c, 2, l.as_ptr()), self.num(w, 0), t)
                            } else {
                                let v = Z3_mk_fpa_to_sbv(c, rtz, f, w);
                                let low = Z3_mk_fpa_lt(c, f, d(-(2f64).powi(w as i32 - 1)));
                                let high = Z3_mk_fpa_leq(c, d((2f64).powi(w as i32 - 1)), f);
                                let t = Z3_mk_ite(c, high, self.num(w, mask(w - 1)), v);
                                let t = Z3_mk_ite(c, low, self.num(w, mask(w - 1) + 1), t);
                                Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), self.num(w, 0), t)
                            }
                        }
                        Un::UIToF => Z3_mk_fpa_to_ieee_bv(
                            c,
                            Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), x, self.fsort(w)),
                        ),
                        Un::SIToF => Z3_mk_fpa_to_ieee_bv(
                            c,
                            Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), x, self.fsort(w)),
                        ),
                        Un::FExt | Un::FTrunc => Z3_mk_fpa_to_ieee_bv(
                            c,
                            Z3_mk_fpa_to_fp_float(
                                c,
                                Z3_mk_fpa_rne(c),
                                self.fp(wi, x),
                                self.fsort(w),
                            ),
                        ),
                        Un::FSqrt => Z3_mk_fpa_to_ieee_bv(
                            c,
                            Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), self.fp(wi, x)),
                        ),
                    }
                }
                E::Ite(p, a, b) => {
                    let p = self.boolean(ar, p);
                    let x = self.bits(ar, a);
                    let y = self.bits(ar, b);
                    Z3_mk_ite(c, p, x, y)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bv[i as usize] = r;
        r
    }

    /// `variable n lies in the set`, as a union of ranges
    fn domain(&mut self, n: u32, b: &Bits) -> P {
        if let Some(&p) = self.dom.get(&(n, *b)) {
            return p;
        }
        let v = self.var(n);
        let c = self.c;
        let has = |k: usize| b[k / 64] >> (k % 64) & 1 == 1;
        let mut l = vec![];
        let mut k = 0;
        unsafe {
            while k < 256 {
                if has(k) {
                    let s = k;
                    while k + 1 < 256 && has(k + 1) {
                        k += 1
                    }
                    if s == k {
                        l.push(Z3_mk_eq(c, v, self.num(8, s as u128)));
                    } else {
                        let x = [
                            Z3_mk_bvule(c, self.num(8, s as u128), v),
                            Z3_mk_bvule(c, v, self.num(8, k as u128)),
                        ];
                        l.push(Z3_mk_and(c, 2, x.as_ptr()));
                    }
                }
                k += 1;
            }
            let r = Z3_mk_or(c, l.len() as u32, l.as_ptr());
            Z3_inc_ref(c, r);
            self.dom.insert((n, *b), r);
            r
        }
    }

    /// Checks the conjunction. On `Sat` the values of `vars` are written to `model`.
    pub fn check(
        &mut self,
        ar: &Arena,
        conds: &[Id],
        doms: &[(u32, Bits)],
        vars: &[u32],
        model: &mut Vec<u8>,
    ) -> Res {
        let t = std::time::Instant::now();
        self.queries += 1;
        let c = self.c;
        let r = unsafe {
            Z3_solver_reset(c, self.s);
            for &i in conds {
                let b = self.boolean(ar, i);
                Z3_solver_assert(c, self.s, b);
            }
            for (n, b) in doms {
                if *b != [!0; 4] {
                    let d = self.domain(*n, b);
                    Z3_solver_assert(c, self.s, d);
                }
            }
            let r = Z3_solver_check(c, self.s);
            if self.dump_every > 0 && self.queries % self.dump_every == 0 && self.dump.len() < 64 {
                let p = Z3_solver_to_string(c, self.s);
                self.dump.push((
                    std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned(),
                    r == 1,
                ));
            }
            match r {
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    for &n in vars {
                        let v = self.var(n);
                        let mut o: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(c, m, v, true, &mut o) {
                            Z3_get_numeral_uint64(c, o, &mut u);
                        }
                        if model.len() <= n as usize {
                            model.resize(n as usize + 1, 0);
                        }
                        model[n as usize] = u as u8;
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            }
        };
        match r {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        self.time += t.elapsed().as_secs_f64();
        r
    }
}
