//! Functions with exactly determined results.
use std::cmp::Ordering;

use vcore::big::Big;
use vcore::gen;
use vcore::sf::{Fmt, Val, F128, F16, F32, F64};
use vcore::{Ctx, Meta, Rng, Sub, Words};
use vrt::bits::Bits;
use vrt::expect;

use crate::util::{fin, gen_round, leak};

pub type F1 = (&'static str, fn(u128) -> u128);
pub type F2 = (&'static str, fn(u128, u128) -> u128);
pub type F3 = (&'static str, fn(u128, u128, u128) -> u128);

/// A function of each build of the library, on bit patterns.
#[macro_export]
macro_rules! f1 {
    ($f:ident) => {
        [
            ("arch", |x| Bits::to(l1::$f(Bits::from(x)))),
            ("portable", |x| Bits::to(l2::$f(Bits::from(x)))),
            ("intrinsics", |x| Bits::to(l3::$f(Bits::from(x)))),
        ]
    };
}
#[macro_export]
macro_rules! f2 {
    ($f:ident) => {
        [
            ("arch", |x, y| Bits::to(l1::$f(Bits::from(x), Bits::from(y)))),
            ("portable", |x, y| Bits::to(l2::$f(Bits::from(x), Bits::from(y)))),
            ("intrinsics", |x, y| Bits::to(l3::$f(Bits::from(x), Bits::from(y)))),
        ]
    };
}
macro_rules! f3 {
    ($f:ident) => {
        [
            ("arch", |x, y, z| Bits::to(l1::$f(Bits::from(x), Bits::from(y), Bits::from(z)))),
            ("portable", |x, y, z| Bits::to(l2::$f(Bits::from(x), Bits::from(y), Bits::from(z)))),
            ("intrinsics", |x, y, z| Bits::to(l3::$f(Bits::from(x), Bits::from(y), Bits::from(z)))),
        ]
    };
}

type Gen1 = fn(&mut Rng, &Fmt) -> u128;

/// Unary functions: every 16-bit pattern; every 32-bit pattern in the thorough tier and a
/// seed-dependent stride plus generated ones in the quick tier; generated for the rest.
fn unary(
    ctx: &Ctx,
    subs: &mut Vec<Sub>,
    name: &str,
    f: &'static Fmt,
    fns: [F1; 3],
    n: u64,
    gen: Gen1,
    oracle: fn(&Fmt, u128) -> u128,
    nontrivial: fn(&Fmt, u128, u128) -> bool,
) {
    let label = leak(format!("{name} {}", f.bits));
    let check = move |w: &Words, mut log: Option<&mut String>| {
        let x = w[0] & f.all();
        let want = oracle(f, x);
        let mut bad = false;
        for (lib, g) in fns {
            let got = g(x);
            expect!(log, bad, f.same(got, want), "{lib} {label}({}) gave {}, want {}", f.show(x), f.show(got), f.show(want));
        }
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{label}({}) = {}", f.show(x), f.show(want)));
        }
        fin(bad, nontrivial(f, x, want))
    };
    if f.bits == 16 || f.bits == 32 && ctx.thorough {
        subs.push(Sub::new(leak(format!("{label} [all]")), 1, 1u64 << f.bits, |_: &mut Rng, i, w: &mut Words| w[0] = i as u128, check).enumerated());
        return;
    }
    if f.bits == 32 {
        // an odd multiplier permutes the patterns, so a prefix is spread evenly and never repeats
        let seed = vcore::rng::mix(ctx.seed) as u32;
        subs.push(Sub::new(
            leak(format!("{label} spread")),
            1,
            ctx.n(n, n),
            move |_: &mut Rng, i, w: &mut Words| w[0] = (i as u32).wrapping_mul(0x9e37_79b1).wrapping_add(seed) as u128,
            check,
        ));
    }
    subs.push(Sub::new(label, 1, ctx.n(n, n * 40), move |r: &mut Rng, _, w: &mut Words| w[0] = gen(r, f), check));
}

pub fn c17(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    let differs: fn(&Fmt, u128, u128) -> bool = |f, x, want| f.is_finite(x) && x != want;
    macro_rules! family {
        ($mode:literal, $h:ident, $s:ident, $d:ident, $q:ident) => {
            let o: fn(&Fmt, u128) -> u128 = |f, x| f.round_int(x, $mode);
            unary(ctx, &mut s, stringify!($d), &F16, f1!($h), 0, gen_round, o, differs);
            unary(ctx, &mut s, stringify!($d), &F32, f1!($s), 5_000_000, gen_round, o, differs);
            unary(ctx, &mut s, stringify!($d), &F64, f1!($d), 6_000_000, gen_round, o, differs);
            unary(ctx, &mut s, stringify!($d), &F128, f1!($q), 5_000_000, gen_round, o, differs);
        };
    }
    family!(0, floorf16, floorf, floor, floorf128);
    family!(1, ceilf16, ceilf, ceil, ceilf128);
    family!(2, truncf16, truncf, trunc, truncf128);
    family!(3, roundf16, roundf, round, roundf128);
    family!(4, rintf16, rintf, rint, rintf128);
    family!(4, roundevenf16, roundevenf, roundeven, roundevenf128);
    (Meta { rule: "non-trivial: the argument is finite and not integral, so the function changes it", assumptions: vec![] }, s)
}

/// Arguments whose square root is close to a representable value or to a midpoint.
fn gen_sqrt(r: &mut Rng, f: &Fmt) -> u128 {
    if r.one_in(2) {
        return gen::float(r, f) & if r.one_in(16) { f.all() } else { f.mag() };
    }
    // square of a root with one bit more than the precision, rounded, and neighbours
    let p = f.mant + 1;
    let m = match r.below(3) {
        0 => (gen::runs(r, p)) | 1 << (p - 1),
        _ => (r.u128() >> (128 - p)) | 1 << (p - 1),
    };
    let m = 2 * m + r.below(2) as u128;
    let e = r.range(-(f.bias() as i64) - 2 * f.mant as i64, f.bias() as i64);
    let x = f.round(false, &Big::mul(m, m), e - 2 * f.mant as i64 - 2, false);
    if !f.is_finite(x) || x == 0 {
        return gen::float(r, f) & f.mag();
    }
    (x as i128 + r.range(-2, 2) as i128) as u128 & f.mag()
}

pub fn c18(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    let nt: fn(&Fmt, u128, u128) -> bool = |f, x, want| f.is_finite(want) && !f.is_zero(x);
    unary(ctx, &mut s, "sqrt", &F16, f1!(sqrtf16), 0, gen_sqrt, |f, x| f.sqrt(x), nt);
    unary(ctx, &mut s, "sqrt", &F32, f1!(sqrtf), 80_000_000, gen_sqrt, |_, x| f32::from_bits(x as u32).sqrt().to_bits() as u128, nt);
    unary(ctx, &mut s, "sqrt", &F64, f1!(sqrt), 60_000_000, gen_sqrt, |_, x| f64::from_bits(x as u64).sqrt().to_bits() as u128, nt);
    unary(ctx, &mut s, "sqrt", &F128, f1!(sqrtf128), 25_000_000, gen_sqrt, |f, x| f.sqrt(x), nt);
    (
        Meta {
            rule: "non-trivial: the argument is positive, finite and non-zero",
            assumptions: vec!["the processor's binary32 and binary64 square root is IEEE 754 (the build with architecture code uses that same instruction; the portable build does not)".into()],
        },
        s,
    )
}

/// m * 2^e in the format, rounded.
fn mk(f: &Fmt, neg: bool, m: u128, e: i64) -> u128 {
    f.round(neg, &Big::from(m), e, false)
}

/// Inverse of an odd number modulo 2^128.
fn inv_odd(x: u128) -> u128 {
    let mut y = x;
    for _ in 0..7 {
        y = y.wrapping_mul(2u128.wrapping_sub(x.wrapping_mul(y)));
    }
    y
}

pub fn gen_fma(r: &mut Rng, f: &Fmt) -> (u128, u128, u128) {
    let p = f.mant + 1;
    let sgn = |r: &mut Rng| if r.one_in(2) { f.sign() } else { 0 };
    match r.below(16) {
        0..=2 => {
            let (x, y) = gen::float2(r, f);
            (x, y, gen::float(r, f))
        }
        // sum cancels almost or altogether
        3..=5 => {
            let (x, y) = gen::float2(r, f);
            let q = f.mul(x, y) ^ f.sign();
            let z = if f.is_finite(q) { (q as i128 + if r.one_in(3) { 0 } else { r.range(-8, 8) as i128 }) as u128 & f.all() } else { q };
            (x, y, z)
        }
        // addend at a chosen distance from the product
        6..=8 => {
            let (x, y) = gen::float2(r, f);
            let e = f.exp_field(x) as i64 + f.exp_field(y) as i64 - f.bias() as i64;
            let k = 2 * p as i64 + 8;
            let e = (e + r.range(-k, k)).clamp(0, f.emax_field() as i64 - 1);
            (x, y, sgn(r) | (e as u128) << f.mant | gen::frac(r, f))
        }
        // subnormal neighbourhood: product around the bottom of the range
        9 | 10 => {
            let x = gen::float(r, f);
            let t = r.range(-2 * (f.mant as i64), 4);
            let ey = (t + f.bias() as i64 - f.exp_field(x) as i64).clamp(0, f.emax_field() as i64 - 1);
            let y = sgn(r) | (ey as u128) << f.mant | gen::frac(r, f);
            let z = match r.below(3) {
                0 => sgn(r) | r.below(64) as u128,
                1 => sgn(r) | (r.range(0, 3) as u128) << f.mant | gen::frac(r, f),
                _ => sgn(r) | (1 << f.mant) - 1 - r.below(4) as u128,
            };
            (x, y, z)
        }
        // near overflow
        11 => {
            let x = gen::float(r, f);
            let t = f.emax_field() as i64 - 1 - r.range(-2, 2);
            let ey = (t + f.bias() as i64 - f.exp_field(x) as i64).clamp(0, f.emax_field() as i64 - 1);
            let y = sgn(r) | (ey as u128) << f.mant | gen::frac(r, f);
            let ez = (t - if r.one_in(2) { r.range(0, 3) } else { r.range(0, 2 * p as i64) }).clamp(0, f.emax_field() as i64 - 1);
            (x, y, sgn(r) | (ez as u128) << f.mant | gen::frac(r, f))
        }
        // product a tie of the sum plus or minus a chosen tiny amount, the addend within reach
        12 | 13 => {
            let s = 2 + r.below(p as u64 - 1) as u32;
            let mask = (1u128 << s) - 1;
            let a = 1 + r.below(p as u64) as u32;
            let x = (r.u128() >> (128 - a)) | 1;
            let c = match r.below(4) {
                0 => 1,
                1 => 1u128.wrapping_neg(),
                2 => 1 << r.below(s as u64),
                _ => 0,
            };
            let y = (1u128 << (s - 1)).wrapping_add(c).wrapping_mul(inv_odd(x)) & mask;
            let zm = (r.u128() >> (128 - p)) | 1 << (p - 1);
            place(r, f, x, y, zm, s)
        }
        // the same with the addend far above the product
        _ => {
            let (x, y, s) = if r.one_in(2) {
                // factors next to powers of two
                let i = r.below(p as u64) as u32;
                let j = r.below(p as u64) as u32;
                let near = |r: &mut Rng, i: u32| {
                    let d = if r.one_in(2) { 1 } else { 1u128 << r.below(i as u64 + 1) };
                    if r.one_in(2) { (1u128 << i) + d } else { (1u128 << i) - (d & ((1 << i) - 1)) }
                };
                let (x, y) = (near(r, i).max(1), near(r, j).max(1));
                (x, y, i + j + 1 + r.below(3) as u32)
            } else {
                let a = 2 + r.below(p as u64 - 1) as u32;
                let mut best = (1, 1, u128::MAX, 0);
                // the multiple of a power of two closest to a multiple of x
                for _ in 0..if p < 64 { 16 } else { 6 } {
                    let x = (r.u128() >> (128 - a)) | 1 << (a - 1) | 1;
                    let t = a + p - 2;
                    let k = 2 * (r.u128() >> (127 - r.below(4) as u32)) + 1;
                    let kb = 128 - k.leading_zeros();
                    if t < kb {
                        continue;
                    }
                    let s1 = t - kb;
                    // y = k * 2^s1 / x
                    let (y, rem) = if t < 128 {
                        ((k << s1) / x, (k << s1) % x)
                    } else {
                        let (q, rem) = Big::from(k).shl(s1).div_rem(&Big::from(x));
                        (q.low(), rem.low())
                    };
                    let (y, c) = if rem * 2 > x { (y + 1, x - rem) } else { (y, rem) };
                    if y >> p == 0 && y != 0 && c < best.2 {
                        best = (x, y, c, s1 + 1);
                    }
                }
                (best.0, best.1, best.3)
            };
            let zm = (r.u128() >> (128 - p)) | 1 << (p - 1);
            place(r, f, x, y, zm, s)
        }
    }
}

/// x * y + zm * 2^s at a random place of the exponent range, with random signs.
fn place(r: &mut Rng, f: &Fmt, x: u128, y: u128, zm: u128, s: u32) -> (u128, u128, u128) {
    let lim = f.bias() as i64 - 2 * f.mant as i64 - s as i64;
    let e = match r.below(3) {
        0 => 0,
        _ => r.range(-lim.abs(), lim.abs()),
    };
    let e1 = if r.one_in(2) { e / 2 } else { r.range(-(lim.abs() / 2), lim.abs() / 2) };
    (
        mk(f, r.one_in(2), x, e1),
        mk(f, r.one_in(2), y, e - e1),
        mk(f, r.one_in(2), zm, e + s as i64),
    )
}

#[target_feature(enable = "fma")]
unsafe fn hw_fma(x: f64, y: f64, z: f64) -> f64 {
    x.mul_add(y, z)
}
#[target_feature(enable = "fma")]
unsafe fn hw_fmaf(x: f32, y: f32, z: f32) -> f32 {
    x.mul_add(y, z)
}

pub fn fma_oracle(f: &Fmt, x: u128, y: u128, z: u128) -> u128 {
    // the processor's own instruction where there is one, for speed
    if f.bits == 64 && is_x86_feature_detected!("fma") {
        return unsafe { hw_fma(f64::from_bits(x as u64), f64::from_bits(y as u64), f64::from_bits(z as u64)) }.to_bits() as u128;
    }
    if f.bits == 32 && is_x86_feature_detected!("fma") {
        return unsafe { hw_fmaf(f32::from_bits(x as u32), f32::from_bits(y as u32), f32::from_bits(z as u32)) }.to_bits() as u128;
    }
    f.fma(x, y, z)
}

pub fn c19(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let list: [(&'static Fmt, [F3; 3], u64); 4] = [
        (&F16, f3!(fmaf16), 20_000_000),
        (&F32, f3!(fmaf), 60_000_000),
        (&F64, f3!(fma), 60_000_000),
        (&F128, f3!(fmaf128), 24_000_000),
    ];
    let mut s = Vec::new();
    for (f, fns, n) in list {
        s.push(Sub::new(
            leak(format!("fma {}", f.bits)),
            3,
            ctx.n(n, n * 25),
            move |r: &mut Rng, _, w: &mut Words| {
                let (x, y, z) = gen_fma(r, f);
                w[0] = x;
                w[1] = y;
                w[2] = z;
            },
            move |w, mut log| {
                let (x, y, z) = (w[0] & f.all(), w[1] & f.all(), w[2] & f.all());
                let want = fma_oracle(f, x, y, z);
                let mut bad = false;
                for (lib, g) in fns {
                    let got = g(x, y, z);
                    expect!(log, bad, f.same(got, want), "{lib} fma({}, {}, {}) gave {}, want {}", f.show(x), f.show(y), f.show(z), f.show(got), f.show(want));
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("fma({}, {}, {}) = {}", f.show(x), f.show(y), f.show(z), f.show(want)));
                }
                let nz = |v: u128| f.is_finite(v) && !f.is_zero(v);
                fin(bad, nz(x) && nz(y) && nz(z))
            },
        ));
    }
    (
        Meta {
            rule: "non-trivial: all three operands finite and non-zero",
            assumptions: vec!["for 32 and 64 bits the oracle is the processor's fused instruction when it has one, otherwise exact integer arithmetic; for 16 and 128 bits exact integer arithmetic".into()],
        },
        s,
    )
}

/// Dividend and divisor for remainders: bounded exponent distance most of the time.
fn gen_rem(r: &mut Rng, f: &Fmt) -> (u128, u128) {
    match r.below(8) {
        0 => (gen::float(r, f), gen::float(r, f)),
        1 => gen::float2(r, f),
        // an exact multiple, a half-odd multiple, or next to one
        2..=4 => {
            let y = gen::float(r, f);
            if !f.is_finite(y) || f.is_zero(y) {
                return (gen::float(r, f), y);
            }
            let bits = 1 + r.below(f.mant as u64) as u32;
            let k = r.u128() >> (128 - bits);
            // y with few bits keeps the product exact
            let y = if r.one_in(2) { y & !((1u128 << r.below(f.mant as u64)) - 1) } else { y };
            let Val::Fin(_, m, e) = f.decode(y) else { return (y, y) };
            let x = f.round(r.one_in(2), &Big::mul(m, 2 * k + r.below(2) as u128), e as i64 - 1, false);
            let x = if f.is_finite(x) && r.one_in(2) { (x as i128 + r.range(-2, 2) as i128) as u128 & f.all() } else { x };
            (x, y)
        }
        5 => {
            // wide exponent distance
            let e = r.range(f.emax_field() as i64 / 2, f.emax_field() as i64 - 1);
            let d = r.range(0, f.emax_field() as i64 / 2);
            let sx = if r.one_in(2) { f.sign() } else { 0 };
            let sy = if r.one_in(2) { f.sign() } else { 0 };
            (sx | (e as u128) << f.mant | gen::frac(r, f), sy | ((e - d) as u128) << f.mant | gen::frac(r, f))
        }
        6 => {
            // subnormal divisor
            let k = r.below(f.mant as u64) as u32;
            let y = ((r.u128() & f.frac()) >> k).max(1);
            let e = r.range(0, 2 * f.mant as i64 + 4).min(f.emax_field() as i64 - 1);
            let sx = if r.one_in(2) { f.sign() } else { 0 };
            (sx | (e as u128) << f.mant | gen::frac(r, f), y)
        }
        _ => {
            let y = gen::float(r, f);
            let e = (f.exp_field(y) as i64 + r.range(0, 3 * f.mant as i64)).min(f.emax_field() as i64 - 1);
            let sx = if r.one_in(2) { f.sign() } else { 0 };
            (sx | (e as u128) << f.mant | gen::frac(r, f), y)
        }
    }
}

pub fn c20(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    let nt = |f: &Fmt, x: u128, y: u128| f.is_finite(x) && f.is_finite(y) && !f.is_zero(y) && (x & f.mag()) >= (y & f.mag());
    let list: [(&str, &'static Fmt, [F2; 3], u64, fn(&Fmt, u128, u128) -> u128); 6] = [
        ("fmod", &F16, f2!(fmodf16), 8_000_000, |f, x, y| f.fmod(x, y)),
        ("fmod", &F32, f2!(fmodf), 16_000_000, |f, x, y| f.fmod(x, y)),
        ("fmod", &F64, f2!(fmod), 16_000_000, |f, x, y| f.fmod(x, y)),
        ("fmod", &F128, f2!(fmodf128), 4_000_000, |f, x, y| f.fmod(x, y)),
        ("remainder", &F32, f2!(remainderf), 12_000_000, |f, x, y| f.remquo(x, y).0),
        ("remainder", &F64, f2!(remainder), 12_000_000, |f, x, y| f.remquo(x, y).0),
    ];
    for (name, f, fns, n, oracle) in list {
        let label = leak(format!("{name} {}", f.bits));
        s.push(Sub::new(
            label,
            2,
            ctx.n(n, n * 15),
            move |r: &mut Rng, _, w: &mut Words| {
                let (x, y) = gen_rem(r, f);
                w[0] = x;
                w[1] = y;
            },
            move |w, mut log| {
                let (x, y) = (w[0] & f.all(), w[1] & f.all());
                let want = oracle(f, x, y);
                let mut bad = false;
                for (lib, g) in fns {
                    let got = g(x, y);
                    expect!(log, bad, f.same(got, want), "{lib} {label}({}, {}) gave {}, want {}", f.show(x), f.show(y), f.show(got), f.show(want));
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{label}({}, {}) = {}", f.show(x), f.show(y), f.show(want)));
                }
                fin(bad, nt(f, x, y))
            },
        ));
    }
    type Quo = (&'static str, fn(u128, u128) -> (u128, i32));
    macro_rules! quo {
        ($f:ident) => {
            [
                ("arch", |x, y| { let (a, b) = l1::$f(Bits::from(x), Bits::from(y)); (Bits::to(a), b) }),
                ("portable", |x, y| { let (a, b) = l2::$f(Bits::from(x), Bits::from(y)); (Bits::to(a), b) }),
                ("intrinsics", |x, y| { let (a, b) = l3::$f(Bits::from(x), Bits::from(y)); (Bits::to(a), b) }),
            ]
        };
    }
    let list: [(&'static Fmt, [Quo; 3]); 2] = [(&F32, quo!(remquof)), (&F64, quo!(remquo))];
    for (f, fns) in list {
        let label = leak(format!("remquo {}", f.bits));
        s.push(Sub::new(
            label,
            2,
            ctx.n(12_000_000, 200_000_000),
            move |r: &mut Rng, _, w: &mut Words| {
                let (x, y) = gen_rem(r, f);
                w[0] = x;
                w[1] = y;
            },
            move |w, mut log| {
                let (x, y) = (w[0] & f.all(), w[1] & f.all());
                let (want, q) = f.remquo(x, y);
                let neg = f.is_neg(x) != f.is_neg(y);
                let mut bad = false;
                for (lib, g) in fns {
                    let (got, n) = g(x, y);
                    expect!(log, bad, f.same(got, want), "{lib} {label}({}, {}) gave {}, want {}", f.show(x), f.show(y), f.show(got), f.show(want));
                    if !f.is_nan(want) {
                        let ok = n.unsigned_abs() as u64 & 7 == q & 7 && (n == 0 || (n < 0) == neg);
                        expect!(log, bad, ok, "{lib} {label}({}, {}) gave quotient {n}, want {}{} modulo 8", f.show(x), f.show(y), if neg { "-" } else { "" }, q & 7);
                    }
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{label}({}, {}) = {}, quotient {} modulo 8", f.show(x), f.show(y), f.show(want), q & 7));
                }
                fin(bad, nt(f, x, y))
            },
        ));
    }
    (Meta { rule: "non-trivial: finite operands, non-zero divisor, |x| at least |y|, so the quotient is not zero", assumptions: vec![] }, s)
}

fn gen_pair(r: &mut Rng, f: &Fmt) -> (u128, u128) {
    let (x, y) = gen::float2(r, f);
    match r.below(10) {
        0 => (x, x),
        1 => (x, x ^ f.sign()),
        2 => {
            let sp = gen::specials(f);
            (x, sp[r.below(sp.len() as u64) as usize])
        }
        3 => {
            let sp = gen::specials(f);
            (sp[r.below(sp.len() as u64) as usize], sp[r.below(sp.len() as u64) as usize])
        }
        4 => (x, f.inf() | 1 + (r.u128() & f.frac()).min(f.frac() - 1) | (y & f.sign())),
        _ => (x, y),
    }
}

/// 0: plain minimum/maximum, 1: IEEE 2019 minimum/maximum, 2: the "number" variants.
fn minmax_ok(f: &Fmt, family: u32, max: bool, x: u128, y: u128, got: u128) -> bool {
    let (nx, ny) = (f.is_nan(x), f.is_nan(y));
    if nx && ny || family == 1 && (nx || ny) {
        return f.is_nan(got);
    }
    if nx {
        return got == y;
    }
    if ny {
        return got == x;
    }
    if f.is_zero(x) && f.is_zero(y) {
        if family == 0 {
            return got == x || got == y;
        }
        // the negative zero is the smaller one
        let want = if max { x & y } else { x | y };
        return got == want;
    }
    let (a, b) = (f.ord(x), f.ord(y));
    got == if (a < b) != max { x } else { y }
}

pub fn c21(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    macro_rules! minmax {
        ($f:ident, $n:expr; $($fam:literal $max:literal $name:ident,)*) => { $({
            let fns: [F2; 3] = f2!($name);
            let f = &$f;
            let label = stringify!($name);
            s.push(Sub::new(label, 2, ctx.n($n, $n * 40), move |r: &mut Rng, _, w: &mut Words| {
                let (x, y) = gen_pair(r, f);
                w[0] = x;
                w[1] = y;
            }, move |w, mut log| {
                let (x, y) = (w[0] & f.all(), w[1] & f.all());
                let mut bad = false;
                for (lib, g) in fns {
                    let got = g(x, y);
                    expect!(log, bad, minmax_ok(f, $fam, $max, x, y, got), "{lib} {label}({}, {}) gave {}", f.show(x), f.show(y), f.show(got));
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{label}({}, {}) = {}", f.show(x), f.show(y), f.show(fns[0].1(x, y))));
                }
                fin(bad, x != y)
            }));
        })* };
    }
    minmax!(F16, 3_000_000; 0 false fminf16, 0 true fmaxf16, 1 false fminimumf16, 1 true fmaximumf16, 2 false fminimum_numf16, 2 true fmaximum_numf16,);
    minmax!(F32, 4_000_000; 0 false fminf, 0 true fmaxf, 1 false fminimumf, 1 true fmaximumf, 2 false fminimum_numf, 2 true fmaximum_numf,);
    minmax!(F64, 4_000_000; 0 false fmin, 0 true fmax, 1 false fminimum, 1 true fmaximum, 2 false fminimum_num, 2 true fmaximum_num,);
    minmax!(F128, 4_000_000; 0 false fminf128, 0 true fmaxf128, 1 false fminimumf128, 1 true fmaximumf128, 2 false fminimum_numf128, 2 true fmaximum_numf128,);

    // positive difference and sign copying
    let list: [(&str, &'static Fmt, [F2; 3], fn(&Fmt, u128, u128) -> u128, bool); 8] = {
        let fdim: fn(&Fmt, u128, u128) -> u128 = |f, x, y| {
            if f.is_nan(x) || f.is_nan(y) {
                f.nan()
            } else if f.lt(y, x) {
                f.sub(x, y)
            } else {
                0
            }
        };
        let cps: fn(&Fmt, u128, u128) -> u128 = |f, x, y| (x & f.mag()) | (y & f.sign());
        [
            ("fdimf16", &F16, f2!(fdimf16), fdim, false),
            ("fdimf", &F32, f2!(fdimf), fdim, false),
            ("fdim", &F64, f2!(fdim), fdim, false),
            ("fdimf128", &F128, f2!(fdimf128), fdim, false),
            ("copysignf16", &F16, f2!(copysignf16), cps, true),
            ("copysignf", &F32, f2!(copysignf), cps, true),
            ("copysign", &F64, f2!(copysign), cps, true),
            ("copysignf128", &F128, f2!(copysignf128), cps, true),
        ]
    };
    for (label, f, fns, oracle, exact_nan) in list {
        s.push(Sub::new(
            label,
            2,
            ctx.n(5_000_000, 200_000_000),
            move |r: &mut Rng, _, w: &mut Words| {
                let (x, y) = gen_pair(r, f);
                w[0] = x;
                w[1] = y;
            },
            move |w, mut log| {
                let (x, y) = (w[0] & f.all(), w[1] & f.all());
                let want = oracle(f, x, y);
                let mut bad = false;
                for (lib, g) in fns {
                    let got = g(x, y);
                    let ok = got == want || !exact_nan && f.same(got, want);
                    expect!(log, bad, ok, "{lib} {label}({}, {}) gave {}, want {}", f.show(x), f.show(y), f.show(got), f.show(want));
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{label}({}, {}) = {}", f.show(x), f.show(y), f.show(want)));
                }
                fin(bad, x != y)
            },
        ));
    }
    // absolute value, payloads included
    let list: [(&str, &'static Fmt, [F1; 3]); 4] = [
        ("fabsf16", &F16, f1!(fabsf16)),
        ("fabsf", &F32, f1!(fabsf)),
        ("fabs", &F64, f1!(fabs)),
        ("fabsf128", &F128, f1!(fabsf128)),
    ];
    for (label, f, fns) in list {
        let all = f.bits == 16;
        let check = move |w: &Words, mut log: Option<&mut String>| {
            let x = w[0] & f.all();
            let mut bad = false;
            for (lib, g) in fns {
                let got = g(x);
                expect!(log, bad, got == x & f.mag(), "{lib} {label}({}) gave {}", f.show(x), f.show(got));
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{label}({}) = {}", f.show(x), f.show(x & f.mag())));
            }
            fin(bad, f.is_neg(x))
        };
        if all {
            s.push(Sub::new("fabsf16 [all]", 1, 1 << 16, |_: &mut Rng, i, w: &mut Words| w[0] = i as u128, check).enumerated());
        } else {
            s.push(Sub::new(label, 1, ctx.n(4_000_000, 200_000_000), move |r: &mut Rng, _, w: &mut Words| w[0] = gen::float(r, f), check));
        }
    }
    (
        Meta {
            rule: "non-trivial: the operands differ in bits (absolute value: negative argument)",
            assumptions: vec!["the plain minimum and maximum may return either zero when both operands are zeros of different sign".into()],
        },
        s,
    )
}

/// Scaling amounts around every threshold for `x`.
fn gen_scale(r: &mut Rng, f: &Fmt, x: u128) -> i32 {
    let e = f.exp_field(x) as i64;
    let big = f.emax_field() as i64;
    (match r.below(8) {
        0 => r.u64() as u32 as i32 as i64,
        1 => r.range(-16, 16),
        // result around overflow
        2 => big - 1 - e + r.range(-3, 3),
        // result in or below the subnormals
        3 | 4 => -e - r.range(-3, f.mant as i64 + 4),
        5 => [i32::MIN as i64, i32::MAX as i64, i32::MIN as i64 + 1, 0][r.below(4) as usize],
        6 => r.range(-2 * big - 2 * f.mant as i64, 2 * big + 2 * f.mant as i64),
        // multiples of the single-step limits
        _ => (big / 2) * r.range(-5, 5) + r.range(-3, 3) + if r.one_in(2) { f.mant as i64 } else { 0 },
    })
    .clamp(i32::MIN as i64, i32::MAX as i64) as i32
}

pub fn c22(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    // scaling, by both names
    type Scale = (&'static str, fn(u128, i32) -> u128);
    macro_rules! scale {
        ($a:ident, $b:ident) => {
            [
                ("arch scalbn", |x, n| Bits::to(l1::$a(Bits::from(x), n))),
                ("portable scalbn", |x, n| Bits::to(l2::$a(Bits::from(x), n))),
                ("intrinsics scalbn", |x, n| Bits::to(l3::$a(Bits::from(x), n))),
                ("arch ldexp", |x, n| Bits::to(l1::$b(Bits::from(x), n))),
                ("portable ldexp", |x, n| Bits::to(l2::$b(Bits::from(x), n))),
            ]
        };
    }
    let list: [(&'static Fmt, [Scale; 5]); 4] = [
        (&F16, scale!(scalbnf16, ldexpf16)),
        (&F32, scale!(scalbnf, ldexpf)),
        (&F64, scale!(scalbn, ldexp)),
        (&F128, scale!(scalbnf128, ldexpf128)),
    ];
    for (f, fns) in list {
        s.push(Sub::new(
            leak(format!("scale {}", f.bits)),
            2,
            ctx.n(10_000_000, 400_000_000),
            move |r: &mut Rng, _, w: &mut Words| {
                w[0] = gen::float(r, f);
                w[1] = gen_scale(r, f, w[0]) as u32 as u128;
            },
            move |w, mut log| {
                let x = w[0] & f.all();
                let n = w[1] as u32 as i32;
                let want = f.scalbn(x, n);
                let mut bad = false;
                for (lib, g) in fns {
                    let got = g(x, n);
                    expect!(log, bad, f.same(got, want), "{lib} {}({}, {n}) gave {}, want {}", f.bits, f.show(x), f.show(got), f.show(want));
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{} * 2^{n} = {}", f.show(x), f.show(want)));
                }
                fin(bad, f.is_finite(want) && !f.is_zero(want) && n != 0)
            },
        ));
    }
    // splitting into fraction and exponent, and the exponent alone
    type Frexp = (&'static str, fn(u128) -> (u128, i32, i32));
    macro_rules! split {
        ($a:ident, $b:ident) => {
            [
                ("arch", |x| { let (m, e) = l1::$a(Bits::from(x)); (Bits::to(m), e, l1::$b(Bits::from(x))) }),
                ("portable", |x| { let (m, e) = l2::$a(Bits::from(x)); (Bits::to(m), e, l2::$b(Bits::from(x))) }),
                ("intrinsics", |x| { let (m, e) = l3::$a(Bits::from(x)); (Bits::to(m), e, l3::$b(Bits::from(x))) }),
            ]
        };
    }
    let list: [(&'static Fmt, [Frexp; 3]); 4] = [
        (&F16, split!(frexpf16, ilogbf16)),
        (&F32, split!(frexpf, ilogbf)),
        (&F64, split!(frexp, ilogb)),
        (&F128, split!(frexpf128, ilogbf128)),
    ];
    for (f, fns) in list {
        let check = move |w: &Words, mut log: Option<&mut String>| {
            let x = w[0] & f.all();
            let mut bad = false;
            for (lib, g) in fns {
                let (m, e, l) = g(x);
                match f.decode(x) {
                    Val::Nan => {
                        expect!(log, bad, f.is_nan(m), "{lib} frexp {}({}) gave {}", f.bits, f.show(x), f.show(m));
                        expect!(log, bad, l == i32::MIN, "{lib} ilogb {}({}) gave {l}", f.bits, f.show(x));
                    }
                    Val::Inf(_) => {
                        expect!(log, bad, m == x, "{lib} frexp {}({}) gave {}", f.bits, f.show(x), f.show(m));
                        expect!(log, bad, l == i32::MAX, "{lib} ilogb {}({}) gave {l}", f.bits, f.show(x));
                    }
                    Val::Zero(_) => {
                        expect!(log, bad, m == x && e == 0, "{lib} frexp {}({}) gave {} and {e}", f.bits, f.show(x), f.show(m));
                        expect!(log, bad, l == i32::MIN, "{lib} ilogb {}({}) gave {l}", f.bits, f.show(x));
                    }
                    Val::Fin(neg, sig, ex) => {
                        // position of the leading bit
                        let top = 127 - sig.leading_zeros() as i32 + ex;
                        let want = mk(f, neg, sig, ex as i64 - top as i64 - 1);
                        expect!(log, bad, m == want && e == top + 1, "{lib} frexp {}({}) gave {} and {e}, want {} and {}", f.bits, f.show(x), f.show(m), f.show(want), top + 1);
                        expect!(log, bad, l == top, "{lib} ilogb {}({}) gave {l}, want {top}", f.bits, f.show(x));
                    }
                }
            }
            if let (false, Some(l)) = (bad, log) {
                let (m, e, i) = fns[0].1(x);
                l.push_str(&format!("{}: fraction {}, exponent {e}, leading bit {i}", f.show(x), f.show(m)));
            }
            fin(bad, f.is_finite(x) && !f.is_zero(x))
        };
        if f.bits == 16 || f.bits == 32 && ctx.thorough {
            s.push(Sub::new(leak(format!("split {} [all]", f.bits)), 1, 1u64 << f.bits, |_: &mut Rng, i, w: &mut Words| w[0] = i as u128, check).enumerated());
        } else {
            s.push(Sub::new(leak(format!("split {}", f.bits)), 1, ctx.n(8_000_000, 400_000_000), move |r: &mut Rng, _, w: &mut Words| w[0] = gen::float(r, f), check));
        }
    }
    // integral and fractional parts
    type Modf = (&'static str, fn(u128) -> (u128, u128));
    macro_rules! parts {
        ($a:ident) => {
            [
                ("arch", |x| { let (a, b) = l1::$a(Bits::from(x)); (Bits::to(a), Bits::to(b)) }),
                ("portable", |x| { let (a, b) = l2::$a(Bits::from(x)); (Bits::to(a), Bits::to(b)) }),
                ("intrinsics", |x| { let (a, b) = l3::$a(Bits::from(x)); (Bits::to(a), Bits::to(b)) }),
            ]
        };
    }
    let list: [(&'static Fmt, [Modf; 3]); 2] = [(&F32, parts!(modff)), (&F64, parts!(modf))];
    for (f, fns) in list {
        let check = move |w: &Words, mut log: Option<&mut String>| {
            let x = w[0] & f.all();
            let sign = x & f.sign();
            let (wf, wi) = if f.is_nan(x) {
                (f.nan(), f.nan())
            } else if f.is_inf(x) {
                (sign, x)
            } else {
                let i = f.round_int(x, 2);
                // exact: both are multiples of the last place of x
                let fr = f.sub(x, i);
                ((fr & f.mag()) | sign, i)
            };
            let mut bad = false;
            for (lib, g) in fns {
                let (fr, i) = g(x);
                expect!(log, bad, f.same(fr, wf) && f.same(i, wi), "{lib} modf {}({}) gave {} and {}, want {} and {}", f.bits, f.show(x), f.show(fr), f.show(i), f.show(wf), f.show(wi));
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{} = {} + {}", f.show(x), f.show(wi), f.show(wf)));
            }
            fin(bad, f.is_finite(x) && !f.is_zero(wf) && !f.is_zero(wi))
        };
        if f.bits == 32 && ctx.thorough {
            s.push(Sub::new("integral part 32 [all]", 1, 1 << 32, |_: &mut Rng, i, w: &mut Words| w[0] = i as u128, check).enumerated());
        } else {
            s.push(Sub::new(leak(format!("integral part {}", f.bits)), 1, ctx.n(12_000_000, 400_000_000), move |r: &mut Rng, _, w: &mut Words| w[0] = gen_round(r, f), check));
        }
    }
    // the adjacent value
    let list: [(&'static Fmt, [F2; 3]); 2] = [(&F32, f2!(nextafterf)), (&F64, f2!(nextafter))];
    for (f, fns) in list {
        s.push(Sub::new(
            leak(format!("adjacent {}", f.bits)),
            2,
            ctx.n(12_000_000, 400_000_000),
            move |r: &mut Rng, _, w: &mut Words| {
                let (x, y) = gen_pair(r, f);
                w[0] = x;
                w[1] = y;
            },
            move |w, mut log| {
                let (x, y) = (w[0] & f.all(), w[1] & f.all());
                let want = if f.is_nan(x) || f.is_nan(y) {
                    f.nan()
                } else if f.eq(x, y) {
                    y
                } else if f.is_zero(x) {
                    (y & f.sign()) | 1
                } else if f.lt(x, y) == !f.is_neg(x) {
                    x + 1
                } else {
                    x - 1
                };
                let mut bad = false;
                for (lib, g) in fns {
                    let got = g(x, y);
                    expect!(log, bad, f.same(got, want), "{lib} nextafter {}({}, {}) gave {}, want {}", f.bits, f.show(x), f.show(y), f.show(got), f.show(want));
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("from {} towards {}: {}", f.show(x), f.show(y), f.show(want)));
                }
                fin(bad, !f.is_nan(want) && !f.eq(x, y))
            },
        ));
    }
    (
        Meta {
            rule: "non-trivial: scaling by a non-zero amount to a finite non-zero result; splitting a finite non-zero value; both parts non-zero; stepping between unequal numbers",
            assumptions: vec!["the exponent reported for infinities and NaN by the splitting function is unspecified".into()],
        },
        s,
    )
}

/// Compare a * 2^ea with b * 2^eb (plus a sticky amount below everything when `sticky`).
fn cmp_scaled(a: &Big, ea: i64, b: &Big, eb: i64, sticky: bool) -> Ordering {
    let (ta, tb) = (a.bits() as i64 + ea, b.bits() as i64 + eb);
    if a.bits() == 0 || b.bits() == 0 || ta != tb {
        return if a.bits() == 0 && b.bits() == 0 {
            if sticky { Ordering::Less } else { Ordering::Equal }
        } else if a.bits() == 0 {
            Ordering::Less
        } else if b.bits() == 0 {
            Ordering::Greater
        } else {
            ta.cmp(&tb)
        };
    }
    let o = if ea >= eb { a.shl((ea - eb) as u32).cmp(b) } else { a.cmp(&b.shl((eb - ea) as u32)) };
    if o == Ordering::Equal && sticky {
        Ordering::Less
    } else {
        o
    }
}

fn pow_big(m: u128, k: u32) -> Big {
    let b = Big::from(m);
    let mut r = b;
    for _ in 1..k {
        r = r.mul_big(&b);
    }
    r
}

/// Whether the k-th root of s * 2^se (plus sticky), positive, rounds to the non-negative `r`.
fn root_rounds_to(f: &Fmt, r: u128, k: u32, s: &Big, se: i64, sticky: bool) -> bool {
    if f.is_nan(r) || f.is_neg(r) {
        return false;
    }
    // upper boundary: midpoint to the next value
    if !f.is_inf(r) {
        let (m, e) = match f.decode(r) {
            Val::Fin(_, m, e) => (2 * m + 1, e as i64 - 1),
            _ => (1, 1 - f.bias() as i64 - f.mant as i64 - 1),
        };
        match cmp_scaled(&pow_big(m, k), k as i64 * e, s, se, sticky) {
            Ordering::Less => return false,
            Ordering::Equal if r & 1 == 1 => return false,
            _ => {}
        }
    }
    if !f.is_zero(r) {
        // lower boundary: midpoint from the previous value
        let Val::Fin(_, pm, pe) = (match f.decode(r - 1) {
            Val::Fin(n, m, e) => Val::Fin(n, m, e),
            _ => Val::Fin(false, 0, 1 - f.bias() - f.mant as i32),
        }) else {
            unreachable!()
        };
        match cmp_scaled(&pow_big(2 * pm + 1, k), k as i64 * (pe as i64 - 1), s, se, sticky) {
            Ordering::Greater => return false,
            Ordering::Equal if r & 1 == 1 && !sticky => return false,
            _ => {}
        }
    }
    true
}

fn hypot_sum(f: &Fmt, x: u128, y: u128) -> (Big, i64, bool) {
    let part = |v: u128| match f.decode(v) {
        Val::Fin(_, m, e) => (Big::mul(m, m), 2 * e as i64),
        _ => (Big::from(0), 0),
    };
    let (mut a, mut ea) = part(x);
    let (mut b, mut eb) = part(y);
    if a.bits() == 0 {
        return (b, eb, false);
    }
    if b.bits() == 0 {
        return (a, ea, false);
    }
    if ea < eb {
        (a, ea, b, eb) = (b, eb, a, ea);
    }
    // a has the larger exponent
    if ea - eb > 400 {
        return (a.shl(300), ea - 300, true);
    }
    (a.shl((ea - eb) as u32).add(&b), eb, false)
}

fn gen_hypot(r: &mut Rng, f: &Fmt) -> (u128, u128) {
    match r.below(6) {
        0 => gen::float2(r, f),
        // comparable magnitudes anywhere in the range
        1..=3 => {
            let x = gen::float(r, f);
            let k = f.mant as i64;
            let d = if r.one_in(2) { r.range(-3, 3) } else { r.range(-k - 3, k + 3) };
            let e = (f.exp_field(x) as i64 + d).clamp(0, f.emax_field() as i64 - 1);
            ((x & f.mag()) | (r.u128() & f.sign()), (r.u128() & f.sign()) | (e as u128) << f.mant | gen::frac(r, f))
        }
        // Pythagorean triples, scaled, and their neighbours: exact results and exact midpoints
        4 => {
            let bits = 2 + r.below(f.mant as u64 / 2) as u32;
            let (u, v) = (r.u128() >> (128 - bits) | 1, r.u128() >> (128 - bits));
            let (a, b) = (2 * u * v, if u > v { u * u - v * v } else { v * v - u * u });
            let e = r.range(-(f.bias() as i64), f.bias() as i64 - 2 * bits as i64 - 2);
            let (mut x, y) = (mk(f, r.one_in(2), a, e), mk(f, r.one_in(2), b, e));
            if r.one_in(3) && f.is_finite(x) {
                x = (x as i128 + r.range(-1, 1) as i128) as u128 & f.all();
            }
            (x, y)
        }
        // result around the overflow threshold or in the subnormals
        _ => {
            if r.one_in(2) {
                let e = (f.emax_field() as u128 - 1) << f.mant;
                (e - (r.below(2) as u128) * (1 << f.mant) | gen::frac(r, f), e - (r.below(3) as u128) * (1 << f.mant) | gen::frac(r, f))
            } else {
                let k = r.below(f.mant as u64) as u32;
                ((r.u128() & f.frac()) >> k, (r.u128() & f.frac()) >> r.below(f.mant as u64))
            }
        }
    }
}

/// Mantissas with an exponent modulo 3 whose cube roots are the ones nearest to the middle between
/// two values, or to a value.
const HARD_CBRT: [(u64, i64); 9] = [
    (0x1_9b78_223a_a307c, 1),
    (0x1_a202_bfc8_9ddff, 2),
    (0x1_3a9c_cd7f_022db, 0),
    (0x1_7845_d2fa_ac6fe, 0),
    (0x1_d1ef_81cb_bbe71, 0),
    (0x1_0a20_14f6_2987c, 1),
    (0x1_fe18_a044_a5501, 1),
    (0x1_a6bb_8c80_3147b, 2),
    (0x1_ac85_38a0_31cbd, 2),
];

/// A value whose cube root is nearly halfway between two values: searches among neighbouring
/// midpoints for the one whose cube is nearest to a value.
fn hard_cbrt(r: &mut Rng, f: &Fmt) -> u128 {
    let p = f.mant + 1;
    let sign = r.one_in(2);
    if f.bits == 64 && r.one_in(4) {
        let (m, e) = HARD_CBRT[r.below(9) as usize];
        let k = r.range(-340, 340);
        return f.round(sign, &Big::from(m as u128), e - 52 + 3 * k, false);
    }
    let first = (r.u128() >> (128 - p - 1)) | 1 << p | 1;
    let low = pow_big(first, 3).bits() - p;
    let mask = (1u128 << low) - 1;
    let cube = |y: u128| y.wrapping_mul(y).wrapping_mul(y);
    let (mut c, mut d, mut dd) = (cube(first), cube(first + 2).wrapping_sub(cube(first)), cube(first + 4).wrapping_sub(cube(first + 2).wrapping_mul(2)).wrapping_add(cube(first)));
    let (mut best, mut at) = (u128::MAX, first);
    for i in 0..1u128 << (4 + r.below(14)) {
        let off = c & mask;
        let off = off.min(mask - off);
        if off < best {
            (best, at) = (off, first + 2 * i);
        }
        c = c.wrapping_add(d);
        d = d.wrapping_add(dd);
        dd = dd.wrapping_add(48);
    }
    f.round(sign, &pow_big(at, 3), 3 * r.range(-(f.bias() as i64 + f.mant as i64) / 3, f.bias() as i64 / 3) - 3 * p as i64, false)
}

fn gen_cbrt(r: &mut Rng, f: &Fmt) -> u128 {
    if r.one_in(2) {
        return gen::float(r, f);
    }
    // cube of a root with one bit more than the precision, rounded, and neighbours
    let p = f.mant + 1;
    let k = if r.one_in(3) { 1 + r.below(p as u64) as u32 } else { p + 1 };
    let m = (r.u128() >> (128 - k)) | 1 << (k - 1);
    let e = r.range(-(f.bias() as i64) - f.mant as i64, f.bias() as i64) - 3 * k as i64;
    let x = f.round(r.one_in(2), &pow_big(m, 3), e / 3 * 3 + r.range(0, 2) * r.below(2) as i64, false);
    if !f.is_finite(x) || f.is_zero(x) {
        return gen::float(r, f);
    }
    (x as i128 + r.range(-2, 2) as i128) as u128 & f.all()
}

/// Within `tol` steps of the correctly rounded root.
fn root_near(f: &Fmt, r: u128, tol: u32, k: u32, s: &Big, se: i64, sticky: bool) -> bool {
    if root_rounds_to(f, r, k, s, se, sticky) {
        return true;
    }
    (1..=tol as u128).any(|d| {
        r >= d && root_rounds_to(f, r - d, k, s, se, sticky) || (r & f.mag()) + d <= f.inf() && root_rounds_to(f, r + d, k, s, se, sticky)
    })
}

pub fn c23(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    let cb: [(&str, &'static Fmt, &'static [F1], u32, u64); 3] = {
        const CF: [F1; 3] = f1!(cbrtf);
        const CD: [F1; 3] = f1!(cbrt);
        const CR: [F1; 2] = [
            ("relaxed arch", |x| Bits::to(l1::relaxed::cbrtf64(Bits::from(x)))),
            ("relaxed portable", |x| Bits::to(l2::relaxed::cbrtf64(Bits::from(x)))),
        ];
        [("cbrtf", &F32, &CF, 0, 10_000_000), ("cbrt", &F64, &CD, 0, 14_000_000), ("relaxed cbrt", &F64, &CR, 1, 3_000_000)]
    };
    for (label, f, fns, tol, n) in cb {
        let check = move |w: &Words, mut log: Option<&mut String>| {
            let x = w[0] & f.all();
            let sign = x & f.sign();
            let mut bad = false;
            for (lib, g) in fns {
                let got = g(x);
                let ok = match f.decode(x) {
                    Val::Nan => f.is_nan(got),
                    Val::Inf(_) | Val::Zero(_) => got == x,
                    Val::Fin(_, m, e) => got & f.sign() == sign && root_near(f, got & f.mag(), tol, 3, &Big::from(m), e as i64, false),
                };
                expect!(log, bad, ok, "{lib} {label}({}) gave {}, not the nearest value", f.show(x), f.show(got));
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{label}({}) = {}", f.show(x), f.show(fns[0].1(x))));
            }
            fin(bad, f.is_finite(x) && !f.is_zero(x))
        };
        if f.bits == 32 && ctx.thorough {
            s.push(Sub::new("cbrtf grid", 1, 1 << 30, |r: &mut Rng, i, w: &mut Words| w[0] = (i << 2 | r.below(4)) as u128, check).enumerated());
        }
        s.push(Sub::new(label, 1, ctx.n(n, n * 30), move |r: &mut Rng, _, w: &mut Words| w[0] = gen_cbrt(r, f), check));
        if f.bits == 64 {
            let name = if tol == 0 { "cbrt, roots near midpoints" } else { "relaxed cbrt, roots near midpoints" };
            s.push(Sub::new(name, 1, ctx.n(n / 250, n / 20), move |r: &mut Rng, _, w: &mut Words| w[0] = hard_cbrt(r, f), check));
        }
    }
    let hy: [(&str, &'static Fmt, &'static [F2], u32, u64); 3] = {
        const HF: [F2; 3] = f2!(hypotf);
        const HD: [F2; 3] = f2!(hypot);
        const HR: [F2; 2] = [
            ("relaxed arch", |x, y| Bits::to(l1::relaxed::hypotf64(Bits::from(x), Bits::from(y)))),
            ("relaxed portable", |x, y| Bits::to(l2::relaxed::hypotf64(Bits::from(x), Bits::from(y)))),
        ];
        [("hypotf", &F32, &HF, 1, 10_000_000), ("hypot", &F64, &HD, 0, 14_000_000), ("relaxed hypot", &F64, &HR, 1, 3_000_000)]
    };
    for (label, f, fns, tol, n) in hy {
        s.push(Sub::new(
            label,
            2,
            ctx.n(n, n * 15),
            move |r: &mut Rng, _, w: &mut Words| {
                let (x, y) = gen_hypot(r, f);
                w[0] = x;
                w[1] = y;
            },
            move |w, mut log| {
                let (x, y) = (w[0] & f.all(), w[1] & f.all());
                let mut bad = false;
                let exact = if f.is_inf(x) || f.is_inf(y) {
                    Some(f.inf())
                } else if f.is_nan(x) || f.is_nan(y) {
                    Some(f.nan())
                } else if f.is_zero(x) && f.is_zero(y) {
                    Some(0)
                } else {
                    None
                };
                let sum = hypot_sum(f, x, y);
                for (lib, g) in fns {
                    let got = g(x, y);
                    let ok = match exact {
                        Some(want) => f.same(got, want),
                        None => root_near(f, got, tol, 2, &sum.0, sum.1, sum.2),
                    };
                    expect!(log, bad, ok, "{lib} {label}({}, {}) gave {}, further than {tol} from the nearest value", f.show(x), f.show(y), f.show(got));
                    let swapped = g(y, x);
                    let flipped = g(x ^ f.sign(), y);
                    expect!(log, bad, f.same(got, swapped) && f.same(got, flipped), "{lib} {label}({}, {}) gave {}, with swapped arguments {}, with a sign changed {}", f.show(x), f.show(y), f.show(got), f.show(swapped), f.show(flipped));
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{label}({}, {}) = {}", f.show(x), f.show(y), f.show(fns[0].1(x, y))));
                }
                fin(bad, exact.is_none() && !f.is_zero(x) && !f.is_zero(y))
            },
        ));
    }
    (
        Meta {
            rule: "non-trivial: finite non-zero argument(s)",
            assumptions: vec!["nearness is decided exactly, by comparing powers of rounding boundaries with the exact argument".into()],
        },
        s,
    )
}
