//! Accuracy of the elementary and special functions.
//!
//! The reference is MPFR at 256 bits. Because that is slow, a case is accepted without it when a
//! more precise evaluation by the system library (double for 32-bit results, 80-bit for 64-bit
//! ones) already places the result within the tolerance; only MPFR can reject.
use vcore::gen;
use vcore::mp::{self, Dd, Mp};
use vcore::sf::{Fmt, F32, F64};
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::libmfns::Route;
use vrt::{expect, libm_plain};

use crate::hard;
use crate::special::{in_range, meets, show, unary, binary, Want, EVEN, ODD};

pub struct Un {
    name: &'static str,
    tol: [u32; 2],
    mp: fn(f64) -> Mp,
    ld: fn(f64) -> Dd,
    d: fn(f64) -> f64,
    /// Where the function varies.
    range: [f64; 2],
}

macro_rules! un {
    ($($n:ident $t32:literal $t64:literal $lo:literal $hi:literal;)*) => {
        vec![$(Un { name: stringify!($n), tol: [$t32, $t64], mp: mp::$n, ld: mp::ld::$n, d: mp::d::$n, range: [$lo, $hi] }),*]
    };
}

/// Spacing of the format below |v|, as a double; `v` finite.
fn ulp(v: f64, f: &Fmt) -> f64 {
    let e = ((v.to_bits() >> 52) & 0x7ff) as i64 - 1023;
    // just below a power of two the spacing is half as large
    let e = if v.to_bits() << 12 == 0 { e - 1 } else { e };
    let emin = 1 - f.bias() as i64;
    let e = e.max(emin) - f.mant as i64;
    if e < -1022 {
        f64::from_bits(1u64 << (e + 1074))
    } else {
        f64::from_bits(((e + 1023) as u64) << 52)
    }
}

pub fn val(f: &Fmt, x: u128) -> f64 {
    if f.bits == 32 {
        f32::from_bits(x as u32) as f64
    } else {
        f64::from_bits(x as u64)
    }
}

pub fn bits(f: &Fmt, v: f64) -> u128 {
    if f.bits == 32 {
        (v as f32).to_bits() as u128
    } else {
        v.to_bits() as u128
    }
}

/// Surely within the tolerance of a reference known to much more than the format's precision.
fn surely(f: &Fmt, tol: u32, got: u128, hi: f64, lo: f64) -> bool {
    let g = val(f, got);
    if !g.is_finite() || !hi.is_finite() {
        if g.is_nan() || hi.is_nan() {
            return g.is_nan() && hi.is_nan();
        }
        // both overflow
        return !g.is_finite() && (g > 0.0) == (hi > 0.0) && (!hi.is_finite() || f.bits == 32 && hi.abs() > f32::MAX as f64 * (1.0 + 3e-8));
    }
    ((g - hi) - lo).abs() <= (tol as f64 + 0.45) * ulp(hi, f)
}

fn surely_dd(f: &Fmt, tol: u32, got: u128, r: Dd) -> bool {
    surely(f, tol, got, r.hi, if r.hi.is_finite() { r.lo } else { 0.0 })
}

/// `None` when the result is within `tol` steps of the correctly rounded value.
fn judge(f: &Fmt, tol: u32, got: u128, m: &Mp) -> Option<String> {
    let want = if f.bits == 32 { m.f.to_bits() as u128 } else { m.d.to_bits() as u128 };
    if f.is_nan(want) || f.is_nan(got) {
        return (f.is_nan(want) != f.is_nan(got)).then(|| f.show(want));
    }
    let d = f.ulps(got, want);
    (d > tol as u128).then(|| format!("{} ({d} ULP away, {tol} allowed)", f.show(want)))
}

/// Values in the interval, uniform or uniform in the exponent, of either sign when it has both.
pub fn within(r: &mut Rng, f: &Fmt, [lo, hi]: [f64; 2]) -> u128 {
    let u = (r.u64() >> 11) as f64 / (1u64 << 53) as f64;
    let x = match r.below(4) {
        0 | 1 => lo + (hi - lo) * u,
        2 => {
            let m = lo.abs().max(hi.abs());
            let x = m * (-(u * 40.0)).exp2();
            if lo < 0.0 && (hi <= 0.0 || r.one_in(2)) {
                -x
            } else {
                x
            }
        }
        _ => {
            // close to one end
            let w = (hi - lo) * (-(u * 30.0)).exp2();
            if r.one_in(2) {
                lo + w
            } else {
                hi - w
            }
        }
    };
    bits(f, x)
}

fn trig_hard(r: &mut Rng, f: &Fmt) -> u128 {
    let s = r.u128() & f.sign();
    let step = r.range(-2, 2) as u128;
    if r.one_in(2) {
        let x = if f.bits == 32 { hard::TRIG32[r.below(hard::TRIG32.len() as u64) as usize] as u128 } else { hard::TRIG64[r.below(hard::TRIG64.len() as u64) as usize] as u128 };
        (x.wrapping_add(if r.one_in(2) { step } else { 0 }) & f.mag()) | s
    } else {
        let b = 1 + r.below(40);
        let k = (r.u64() >> (64 - b)) as f64;
        bits(f, k * std::f64::consts::FRAC_PI_4).wrapping_add(step) & f.mag() | s
    }
}

/// An argument at which the exponential family gives a result of random exponent.
fn exp_hard(r: &mut Rng, f: &Fmt, name: &str) -> u128 {
    let e = match r.below(4) {
        0 => r.range(-1076, 1025) as f64,
        1 => -1022.0 - r.range(-3, 54) as f64,
        2 => 1022.0 + r.range(0, 2) as f64,
        _ => r.range(-150, 129) as f64,
    };
    let e = if f.bits == 32 && r.one_in(2) { e / 8.0 } else { e };
    let t = e + (r.u64() >> 11) as f64 / (1u64 << 53) as f64;
    let x = match name {
        "exp2" => t,
        "exp10" => t * std::f64::consts::LOG10_2,
        _ => t * std::f64::consts::LN_2,
    };
    bits(f, x).wrapping_add(r.range(-2, 2) as u128) & f.all()
}

fn gen1(r: &mut Rng, f: &Fmt, u: &Un) -> u128 {
    match r.below(8) {
        0..=2 => gen::float(r, f),
        3 | 4 => match u.name {
            "sin" | "cos" | "tan" => trig_hard(r, f),
            "exp" | "exp2" | "exp10" | "expm1" | "sinh" | "cosh" => exp_hard(r, f, u.name),
            _ => within(r, f, u.range),
        },
        _ => within(r, f, u.range),
    }
}

pub fn find<'a>(t: &'a [Route], n: &str, f: &Fmt) -> &'a Route {
    let want = if f.bits == 64 {
        n.to_string()
    } else if n == "lgamma_r" {
        "lgammaf_r".to_string()
    } else {
        format!("{n}f")
    };
    t.iter().find(|r| r.name == want).unwrap()
}

fn call1(rt: &Route, x: u128) -> u128 {
    let mut w = [0; 8];
    w[0] = x;
    (rt.call)(&w)[0]
}
fn call2(rt: &Route, x: u128, y: u128) -> u128 {
    let mut w = [0; 8];
    w[0] = x;
    w[1] = y;
    (rt.call)(&w)[0]
}

/// Per-function exceptions documented for log-gamma: near its zeros between negative integers the
/// relative error is unbounded, so only the error against the size of the terms is judged there.
fn lgamma_zone(f: &Fmt, x: f64, want: f64) -> bool {
    let lo = if f.bits == 32 { -13.0625 } else { -32.0 };
    x > lo && x < -2.0 && (want.abs() < 1.0 || (x - x.round()).abs() < 0.02)
}

fn unary_subs(ctx: &Ctx, list: Vec<Un>, s: &mut Vec<Sub>) {
    let table = libm_plain!(l1);
    for u in list {
        let u: &'static Un = Box::leak(Box::new(u));
        for (i, f) in [&F32, &F64].into_iter().enumerate() {
            let f: &'static Fmt = f;
            let rt = *find(&table, u.name, f);
            let tol = u.tol[i];
            let odd = ODD.contains(&u.name);
            let even = EVEN.contains(&u.name);
            let check = move |w: &Words, mut log: Option<&mut String>| {
                let x = w[0] & f.all();
                let got = call1(&rt, x);
                let mut bad = false;
                if !f.is_finite(x) || f.is_zero(x) || !f.is_finite(got) || f.is_zero(got) {
                    let want = unary(u.name, f, x);
                    expect!(log, bad, meets(f, &want, got), "{}({}) gave {}, want {}", rt.name, f.show(x), f.show(got), show(f, &want));
                }
                if !f.is_nan(x) && !f.is_nan(got) && !f.is_zero(x) {
                    expect!(log, bad, in_range(u.name, f, x, got), "{}({}) gave {}, outside the function's range", rt.name, f.show(x), f.show(got));
                }
                if odd || even {
                    let m = call1(&rt, x ^ f.sign());
                    let want = if odd { got ^ f.sign() } else { got };
                    expect!(log, bad, f.same(m, want), "{}({}) gave {} but the argument with its sign changed gave {}", rt.name, f.show(x), f.show(got), f.show(m));
                }
                if !f.is_nan(x) && !bad {
                    let v = val(f, x);
                    let ok = if f.bits == 32 { surely(f, tol, got, (u.d)(v), 0.0) } else { surely_dd(f, tol, got, (u.ld)(v)) };
                    if !ok {
                        let m = (u.mp)(v);
                        let mut verdict = judge(f, tol, got, &m);
                        if verdict.is_some() && u.name == "lgamma" {
                            if lgamma_zone(f, v, m.d) {
                                let size = (v.abs() * v.abs().ln()).max(1.0) * if f.bits == 32 { f32::EPSILON as f64 } else { f64::EPSILON };
                                let err = (val(f, got) - m.d) - m.lo;
                                verdict = (!(err.abs() <= 16.0 * size)).then(|| f.show(bits(f, m.d)));
                            } else if f.bits == 32 && v > 4.0850031e36 && v < 4.0850037e36 {
                                // the threshold of overflow is documented to be one step off
                                verdict = None;
                            }
                        }
                        if let Some(want) = verdict {
                            expect!(log, bad, false, "{}({}) gave {}, want {want}", rt.name, f.show(x), f.show(got));
                        }
                    }
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{}({}) = {}", rt.name, f.show(x), f.show(got)));
                }
                if bad {
                    Out::Fail
                } else if f.is_finite(got) && !f.is_zero(got) {
                    Out::Ok
                } else {
                    Out::Trivial
                }
            };
            if f.bits == 32 {
                if ctx.thorough {
                    s.push(Sub::new(format!("{} [all]", rt.name), 1, 1 << 32, |_: &mut Rng, i, w: &mut Words| w[0] = i as u128, check).enumerated());
                } else {
                    // one value out of every 64 neighbours, chosen by the seed
                    s.push(
                        Sub::new(format!("{} grid", rt.name), 1, 1 << 26, |r: &mut Rng, i, w: &mut Words| w[0] = (i << 6 | r.below(64)) as u128, check)
                            .enumerated(),
                    );
                }
            }
            let n = if f.bits == 32 { 4_000_000 } else { 16_000_000 };
            s.push(Sub::new(rt.name, 1, ctx.n(n, n * 15), move |r: &mut Rng, _, w: &mut Words| w[0] = gen1(r, f, u), check).unit(1 << 14));
        }
    }
}

fn meta(extra: &[&str]) -> Meta {
    let mut assumptions = vec![
        "the reference is MPFR 4 at 256 bits; results already within the tolerance of the system library's wider evaluation are accepted without it".to_string(),
        "ULP distance is counted in representable values between the result and the correctly rounded one".to_string(),
    ];
    assumptions.extend(extra.iter().map(|s| s.to_string()));
    Meta { rule: "non-trivial: the result is finite and not zero", assumptions }
}

pub fn c24(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    unary_subs(
        ctx,
        un! {
            sin 1 1 -30.0 30.0;
            cos 1 1 -30.0 30.0;
            tan 1 1 -30.0 30.0;
        },
        &mut s,
    );
    let table = libm_plain!(l1);
    for f in [&F32, &F64] {
        let f: &'static Fmt = f;
        let (sc, sn, cs) = (*find(&table, "sincos", f), *find(&table, "sin", f), *find(&table, "cos", f));
        s.push(
            Sub::new(
                sc.name,
                1,
                ctx.n(8_000_000, 200_000_000),
                move |r: &mut Rng, _, w: &mut Words| {
                    w[0] = match r.below(4) {
                        0 | 1 => gen::float(r, f),
                        2 => trig_hard(r, f),
                        _ => within(r, f, [-30.0, 30.0]),
                    }
                },
                move |w, mut log| {
                    let x = w[0] & f.all();
                    let mut v = *w;
                    v[0] = x;
                    let g = (sc.call)(&v);
                    let want = [call1(&sn, x), call1(&cs, x)];
                    let mut bad = false;
                    for i in 0..2 {
                        expect!(log, bad, f.same(g[i], want[i]), "{}({}) part {i} is {}, the separate function gives {}", sc.name, f.show(x), f.show(g[i]), f.show(want[i]));
                    }
                    if let (false, Some(l)) = (bad, log) {
                        l.push_str(&format!("{}({}) = {}, {}", sc.name, f.show(x), f.show(g[0]), f.show(g[1])));
                    }
                    if bad {
                        Out::Fail
                    } else if f.is_finite(x) {
                        Out::Ok
                    } else {
                        Out::Trivial
                    }
                },
            )
            .unit(1 << 14),
        );
    }
    (meta(&[]), s)
}

pub fn c25(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    unary_subs(
        ctx,
        un! {
            exp 1 1 -746.0 710.0;
            exp2 1 1 -1076.0 1024.5;
            exp10 6 6 -324.0 309.0;
            expm1 1 1 -60.0 710.0;
        },
        &mut s,
    );
    (meta(&[]), s)
}

pub fn c26(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    unary_subs(
        ctx,
        un! {
            log 1 1 0.0 4.0;
            log2 1 1 0.0 4.0;
            log10 1 1 0.0 4.0;
            log1p 1 1 -1.0 4.0;
        },
        &mut s,
    );
    (meta(&[]), s)
}

pub fn c28(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    unary_subs(
        ctx,
        un! {
            asin 1 1 -1.0 1.0;
            acos 1 1 -1.0 1.0;
            atan 1 1 -8.0 8.0;
        },
        &mut s,
    );
    binary_subs(ctx, "atan2", 2, mp::atan2, mp::ld::atan2, mp::d::atan2, atan2_gen, &mut s);
    (meta(&[]), s)
}

pub fn c29(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    unary_subs(
        ctx,
        un! {
            cosh 1 1 -712.0 712.0;
            sinh 2 2 -712.0 712.0;
            tanh 2 2 -25.0 25.0;
            asinh 2 2 -6.0 6.0;
            acosh 4 4 1.0 8.0;
            atanh 2 2 -1.0 1.0;
        },
        &mut s,
    );
    (meta(&[]), s)
}

pub fn c30(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    unary_subs(
        ctx,
        un! {
            erf 1 1 -6.5 6.5;
            erfc 4 4 -6.5 28.0;
        },
        &mut s,
    );
    (meta(&[]), s)
}

pub fn c31(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    fn lg(x: f64) -> Mp {
        mp::lgamma(x)
    }
    unary_subs(
        ctx,
        vec![
            Un { name: "tgamma", tol: [1, 20], mp: mp::tgamma, ld: mp::ld::tgamma, d: mp::d::tgamma, range: [-186.0, 172.0] },
            Un { name: "lgamma", tol: [4, 4], mp: lg, ld: mp::ld::lgamma, d: mp::d::lgamma, range: [-60.0, 60.0] },
        ],
        &mut s,
    );
    let table = libm_plain!(l1);
    for f in [&F32, &F64] {
        let f: &'static Fmt = f;
        let (lr, l, tg) = (*find(&table, "lgamma_r", f), *find(&table, "lgamma", f), *find(&table, "tgamma", f));
        s.push(
            Sub::new(
                lr.name,
                1,
                ctx.n(6_000_000, 200_000_000),
                move |r: &mut Rng, _, w: &mut Words| w[0] = if r.one_in(2) { gen::float(r, f) } else { within(r, f, [-186.0, 60.0]) },
                move |w, mut log| {
                    let x = w[0] & f.all();
                    let mut v = *w;
                    v[0] = x;
                    let g = (lr.call)(&v);
                    let sign = g[1] as u32 as i32;
                    let plain = call1(&l, x);
                    let gamma = call1(&tg, x);
                    let mut bad = false;
                    expect!(log, bad, f.same(g[0], plain), "{}({}) gave {}, without the sign {}", lr.name, f.show(x), f.show(g[0]), f.show(plain));
                    if !f.is_nan(gamma) {
                        expect!(log, bad, sign == if f.is_neg(gamma) { -1 } else { 1 }, "{}({}) reported sign {sign}, gamma is {}", lr.name, f.show(x), f.show(gamma));
                    }
                    if let (false, Some(l)) = (bad, log) {
                        l.push_str(&format!("{}({}) = {}, sign {sign}", lr.name, f.show(x), f.show(g[0])));
                    }
                    if bad {
                        Out::Fail
                    } else if f.is_finite(plain) && !f.is_nan(gamma) {
                        Out::Ok
                    } else {
                        Out::Trivial
                    }
                },
            )
            .unit(1 << 13),
        );
    }
    (meta(&["between -32 (-13.0625 for 32 bits) and -2, near a zero or within 0.02 of an integer, log-gamma is judged against 16 epsilon of |x| ln|x| instead", "the 32-bit overflow threshold of log-gamma is documented to be one step off"]), s)
}

fn atan2_gen(r: &mut Rng, f: &Fmt) -> (u128, u128) {
    match r.below(6) {
        0..=2 => gen::float2(r, f),
        3 => (within(r, f, [-8.0, 8.0]), within(r, f, [-8.0, 8.0])),
        4 => {
            // quotient near a chosen value
            let x = gen::float(r, f);
            let q = within(r, f, [-3.0, 3.0]);
            let y = val(f, x) * val(f, q);
            (bits(f, y), x)
        }
        _ => {
            let (y, x) = gen::float2(r, f);
            (gen::float(r, f), if r.one_in(2) { x } else { y })
        }
    }
}

fn pow_gen(r: &mut Rng, f: &Fmt) -> (u128, u128) {
    let (emin, emax) = if f.bits == 32 { (-150.0, 128.0) } else { (-1075.0, 1024.0) };
    let unit = |r: &mut Rng| (r.u64() >> 11) as f64 / (1u64 << 53) as f64;
    match r.below(10) {
        0 => gen::float2(r, f),
        1 => (gen::float(r, f), gen::float(r, f)),
        // result exponent chosen
        2..=5 => {
            let x = match r.below(4) {
                0 => gen::float(r, f) & f.mag(),
                1 => (f.one() as i128 + (r.range(-(1 << 20), 1 << 20)) as i128) as u128,
                2 => within(r, f, [0.0, 3.0]),
                _ => gen::small(r, f),
            };
            let t = match r.below(4) {
                0 => emin + (emax - emin) * unit(r),
                1 => emax + (unit(r) - 0.5) * 4.0 / (1u64 << r.below(40)) as f64,
                2 => emin + unit(r) * if f.bits == 32 { 26.0 } else { 56.0 },
                _ => (unit(r) - 0.5) * 4.0,
            };
            let y = t / val(f, x).log2();
            (x, bits(f, y))
        }
        // integer exponents, either sign of base
        6 | 7 => {
            let y = f.round_int(within(r, f, [-40.0, 40.0]), 2);
            let x = if r.one_in(2) { f.round_int(within(r, f, [-99.0, 99.0]), 2) } else { within(r, f, [-9.0, 9.0]) };
            (x, y)
        }
        // base very near 1, large exponent
        8 => {
            let k = r.below(f.mant as u64 + 1) as u32;
            let x = (f.one() as i128 + if r.one_in(2) { 1 } else { -1 } * ((r.u64() as u128 & ((1u128 << k) - 1)) as i128)) as u128;
            let l = val(f, x).log2().abs().max(1e-300);
            let y = emax * 1.02 * unit(r) / l;
            (x, bits(f, if r.one_in(2) { -y } else { y }))
        }
        // integral exponents too large to be odd or even in the obvious way
        _ => {
            let e = f.bias() as i64 + f.mant as i64 + r.range(-3, 3);
            let y = (r.u128() & f.sign()) | (e as u128) << f.mant | gen::frac(r, f);
            let x = (f.one() as i128 + r.range(-40, 40) as i128) as u128 | (r.u128() & f.sign());
            (x, y)
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn binary_subs(
    ctx: &Ctx,
    name: &'static str,
    tol: u32,
    mpf: fn(f64, f64) -> Mp,
    ld: fn(f64, f64) -> Dd,
    d: fn(f64, f64) -> f64,
    g: fn(&mut Rng, &Fmt) -> (u128, u128),
    s: &mut Vec<Sub>,
) {
    let table = libm_plain!(l1);
    for f in [&F32, &F64] {
        let f: &'static Fmt = f;
        let rt = *find(&table, name, f);
        s.push(
            Sub::new(
                rt.name,
                2,
                ctx.n(24_000_000, 400_000_000),
                move |r: &mut Rng, _, w: &mut Words| (w[0], w[1]) = g(r, f),
                move |w, mut log| {
                    let (x, y) = (w[0] & f.all(), w[1] & f.all());
                    let got = call2(&rt, x, y);
                    let mut bad = false;
                    let want = binary(name, f, x, y);
                    expect!(log, bad, meets(f, &want, got), "{}({}, {}) gave {}, want {}", rt.name, f.show(x), f.show(y), f.show(got), show(f, &want));
                    if matches!(want, Want::Free) {
                        let (a, b) = (val(f, x), val(f, y));
                        let ok = if f.bits == 32 { surely(f, tol, got, d(a, b), 0.0) } else { surely_dd(f, tol, got, ld(a, b)) };
                        if !ok {
                            if let Some(want) = judge(f, tol, got, &mpf(a, b)) {
                                expect!(log, bad, false, "{}({}, {}) gave {}, want {want}", rt.name, f.show(x), f.show(y), f.show(got));
                            }
                        }
                    }
                    if let (false, Some(l)) = (bad, log) {
                        l.push_str(&format!("{}({}, {}) = {}", rt.name, f.show(x), f.show(y), f.show(got)));
                    }
                    if bad {
                        Out::Fail
                    } else if f.is_finite(got) && !f.is_zero(got) {
                        Out::Ok
                    } else {
                        Out::Trivial
                    }
                },
            )
            .unit(1 << 14),
        );
    }
}

pub fn c27(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    binary_subs(ctx, "pow", 1, mp::pow, mp::ld::pow, mp::d::pow, pow_gen, &mut s);
    (meta(&[]), s)
}
