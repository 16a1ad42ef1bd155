//! MPFR and x87 reference values for the elementary functions.
#![allow(non_camel_case_types)]

use std::cell::UnsafeCell;

#[repr(C)]
struct mpfr_struct {
    prec: i64,
    sign: i32,
    exp: i64,
    d: *mut u64,
}
type mpfr_ptr = *mut mpfr_struct;

const RNDN: i32 = 0;

type Un = unsafe extern "C" fn(mpfr_ptr, *const mpfr_struct, i32) -> i32;
type Bin = unsafe extern "C" fn(mpfr_ptr, *const mpfr_struct, *const mpfr_struct, i32) -> i32;

extern "C" {
    fn mpfr_init2(x: mpfr_ptr, prec: i64);
    fn mpfr_set_prec(x: mpfr_ptr, prec: i64);
    fn mpfr_set_d(x: mpfr_ptr, d: f64, r: i32) -> i32;
    fn mpfr_get_d(x: *const mpfr_struct, r: i32) -> f64;
    fn mpfr_get_flt(x: *const mpfr_struct, r: i32) -> f32;
    fn mpfr_sub(r: mpfr_ptr, a: *const mpfr_struct, b: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_sin(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_cos(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_tan(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_asin(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_acos(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_atan(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_sinh(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_cosh(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_tanh(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_asinh(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_acosh(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_atanh(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_exp(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_exp2(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_exp10(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_expm1(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_log(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_log2(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_log10(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_log1p(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_erf(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_erfc(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_gamma(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_cbrt(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_j0(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_j1(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_y0(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_y1(r: mpfr_ptr, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_pow(r: mpfr_ptr, a: *const mpfr_struct, b: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_atan2(r: mpfr_ptr, a: *const mpfr_struct, b: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_hypot(r: mpfr_ptr, a: *const mpfr_struct, b: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_lgamma(r: mpfr_ptr, s: *mut i32, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_jn(r: mpfr_ptr, n: i64, a: *const mpfr_struct, m: i32) -> i32;
    fn mpfr_yn(r: mpfr_ptr, n: i64, a: *const mpfr_struct, m: i32) -> i32;
}

#[derive(Clone, Copy)]
#[repr(C)]
pub struct Dd {
    pub hi: f64,
    pub lo: f64,
}

macro_rules! ld {
    (un: $($u:ident)*; bin: $($b:ident)*; nx: $($n:ident)*) => {
        #[allow(dead_code)]
        mod c {
            use super::Dd;
            extern "C" {
                $(pub fn ${concat(ld_, $u)}(x: f64) -> Dd; pub fn ${concat(d_, $u)}(x: f64) -> f64;)*
                $(pub fn ${concat(ld_, $b)}(x: f64, y: f64) -> Dd; pub fn ${concat(d_, $b)}(x: f64, y: f64) -> f64;)*
                $(pub fn ${concat(ld_, $n)}(n: i32, x: f64) -> Dd; pub fn ${concat(d_, $n)}(n: i32, x: f64) -> f64;)*
            }
        }
        /// 80-bit reference.
        pub mod ld {
            use super::Dd;
            $(pub fn $u(x: f64) -> Dd { unsafe { super::c::${concat(ld_, $u)}(x) } })*
            $(pub fn $b(x: f64, y: f64) -> Dd { unsafe { super::c::${concat(ld_, $b)}(x, y) } })*
            $(pub fn $n(n: i32, x: f64) -> Dd { unsafe { super::c::${concat(ld_, $n)}(n, x) } })*
        }
        /// 64-bit system library.
        pub mod d {
            $(pub fn $u(x: f64) -> f64 { unsafe { super::c::${concat(d_, $u)}(x) } })*
            $(pub fn $b(x: f64, y: f64) -> f64 { unsafe { super::c::${concat(d_, $b)}(x, y) } })*
            $(pub fn $n(n: i32, x: f64) -> f64 { unsafe { super::c::${concat(d_, $n)}(n, x) } })*
        }
    };
}
ld! {
    un: sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp exp2 exp10 expm1 log log2 log10 log1p
        erf erfc tgamma lgamma cbrt j0 j1 y0 y1;
    bin: pow atan2 hypot;
    nx: jn yn
}

struct Tmp {
    init: bool,
    v: [mpfr_struct; 4],
}

const EMPTY: mpfr_struct = mpfr_struct { prec: 0, sign: 0, exp: 0, d: std::ptr::null_mut() };

thread_local! {
    static T: UnsafeCell<Tmp> = const { UnsafeCell::new(Tmp { init: false, v: [EMPTY, EMPTY, EMPTY, EMPTY] }) };
}

/// Result of a high-precision evaluation: correctly rounded to each format.
#[derive(Clone, Copy, Debug)]
pub struct Mp {
    /// Nearest double.
    pub d: f64,
    /// Nearest single.
    pub f: f32,
    /// value - d, as a double.
    pub lo: f64,
    pub sign: i32,
}

fn with<R>(prec: i64, f: impl FnOnce(&mut [mpfr_struct; 4]) -> R) -> R {
    T.with(|t| unsafe {
        let t = &mut *t.get();
        if !t.init {
            for v in &mut t.v {
                mpfr_init2(v, 256);
            }
            t.init = true;
        }
        mpfr_set_prec(&mut t.v[0], prec);
        for i in 1..4 {
            mpfr_set_prec(&mut t.v[i], 64);
        }
        f(&mut t.v)
    })
}

unsafe fn done(v: &mut [mpfr_struct; 4], sign: i32) -> Mp {
    let d = mpfr_get_d(&v[0], RNDN);
    let f = mpfr_get_flt(&v[0], RNDN);
    let lo = if d.is_finite() {
        mpfr_set_d(&mut v[1], d, RNDN);
        mpfr_sub(&mut v[3], &v[0], &v[1], RNDN);
        mpfr_get_d(&v[3], RNDN)
    } else {
        0.0
    };
    Mp { d, f, lo, sign }
}

pub const PREC: i64 = 256;

fn un(g: Un, x: f64) -> Mp {
    with(PREC, |v| unsafe {
        mpfr_set_d(&mut v[1], x, RNDN);
        let (a, b) = v.split_at_mut(1);
        g(&mut a[0], &b[0], RNDN);
        done(v, 0)
    })
}

fn bin(g: Bin, x: f64, y: f64) -> Mp {
    with(PREC, |v| unsafe {
        mpfr_set_d(&mut v[1], x, RNDN);
        mpfr_set_d(&mut v[2], y, RNDN);
        let (a, b) = v.split_at_mut(1);
        g(&mut a[0], &b[0], &b[1], RNDN);
        done(v, 0)
    })
}

macro_rules! mpun {
    ($($n:ident $m:ident)*) => { $(pub fn $n(x: f64) -> Mp { un($m, x) })* };
}
mpun! {
    sin mpfr_sin cos mpfr_cos tan mpfr_tan asin mpfr_asin acos mpfr_acos atan mpfr_atan
    sinh mpfr_sinh cosh mpfr_cosh tanh mpfr_tanh asinh mpfr_asinh acosh mpfr_acosh atanh mpfr_atanh
    exp mpfr_exp exp2 mpfr_exp2 exp10 mpfr_exp10 expm1 mpfr_expm1
    log mpfr_log log2 mpfr_log2 log10 mpfr_log10 log1p mpfr_log1p
    erf mpfr_erf erfc mpfr_erfc tgamma mpfr_gamma cbrt mpfr_cbrt
    j0 mpfr_j0 j1 mpfr_j1 y0 mpfr_y0 y1 mpfr_y1
}
pub fn pow(x: f64, y: f64) -> Mp {
    bin(mpfr_pow, x, y)
}
pub fn atan2(y: f64, x: f64) -> Mp {
    bin(mpfr_atan2, y, x)
}
pub fn hypot(x: f64, y: f64) -> Mp {
    bin(mpfr_hypot, x, y)
}
pub fn lgamma(x: f64) -> Mp {
    with(PREC, |v| unsafe {
        mpfr_set_d(&mut v[1], x, RNDN);
        let mut s = 0;
        let (a, b) = v.split_at_mut(1);
        mpfr_lgamma(&mut a[0], &mut s, &b[0], RNDN);
        done(v, s)
    })
}
pub fn jn(n: i32, x: f64) -> Mp {
    with(PREC, |v| unsafe {
        mpfr_set_d(&mut v[1], x, RNDN);
        let (a, b) = v.split_at_mut(1);
        mpfr_jn(&mut a[0], n as i64, &b[0], RNDN);
        done(v, 0)
    })
}
pub fn yn(n: i32, x: f64) -> Mp {
    with(PREC, |v| unsafe {
        mpfr_set_d(&mut v[1], x, RNDN);
        let (a, b) = v.split_at_mut(1);
        mpfr_yn(&mut a[0], n as i64, &b[0], RNDN);
        done(v, 0)
    })
}

/// hi + lo of the MPFR value as the x87 pair would give it.
impl Mp {
    pub fn dd(&self) -> Dd {
        Dd { hi: self.d, lo: self.lo }
    }
}
