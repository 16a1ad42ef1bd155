//! Integer and float operations the routines are written in terms of.
use vcore::gen;
use vcore::sf::{Fmt, F128, F16, F32, F64};
use vcore::{Ctx, Meta, Rng, Sub, Words};
use vrt::expect;

use crate::util::{fin, leak};

fn mask(n: u32) -> u128 {
    u128::MAX >> (128 - n)
}

/// The value of an `n`-bit pattern, extended to 128 bits.
fn ext(n: u32, signed: bool, a: u128) -> u128 {
    if signed && a >> (n - 1) & 1 == 1 {
        a | !mask(n)
    } else {
        a & mask(n)
    }
}

/// Sum or difference of two `n`-bit patterns and a carry: the wrapped bits, and whether the exact
/// result is out of range.
fn m_sum(n: u32, signed: bool, sub: bool, a: u128, b: u128, c: bool) -> (u128, bool) {
    let m = mask(n);
    let half = 1u128 << (n - 1);
    let bias = if signed { half } else { 0 };
    // a - b - c = a + (2^n - 1 - b) + (1 - c) - 2^n
    let (x, y, c) = ((a ^ bias) & m, (b ^ bias) & m, c != sub);
    let y = if sub { !y & m } else { y };
    let (t, o1) = x.overflowing_add(y);
    let (t, o2) = t.overflowing_add(c as u128);
    let top = o1 || o2 || t & !m != 0;
    let t = t & m;
    let out = match (signed, sub) {
        (true, _) => top == (t >= half),
        (false, true) => !top,
        (false, false) => top,
    };
    // for signed values the biases make the same 2^n, so the low bits are those of the result
    (t, out)
}

/// Whether the `n`-bit pattern, read as signed or not, fits another integer type.
fn fits(n: u32, signed: bool, a: u128, to_n: u32, to_signed: bool) -> bool {
    let neg = signed && a >> (n - 1) & 1 == 1;
    let mag = if neg { ext(n, true, a).wrapping_neg() } else { a & mask(n) };
    match (neg, to_signed) {
        (true, true) => mag <= 1 << (to_n - 1),
        (true, false) => false,
        (false, true) => mag < 1 << (to_n - 1),
        (false, false) => mag <= mask(to_n),
    }
}

macro_rules! arith_check {
    ($lib:ident, $label:literal, $w:ident, $log:ident, $bad:ident; $($t:ident, $u:ident, $signed:literal;)*) => { $({
        use $lib::support::{Int, MinInt};
        type T = $t;
        let n = <$u>::BITS;
        let m = mask(n);
        let (a, b, s, c) = ($w[0] & m, $w[1] & m, $w[2] as u32, $w[3] & 1 == 1);
        let (x, y) = (a as T, b as T);
        let f = |v: T| v as $u as u128;
        let mut eq = |what: &str, got: u128, want: u128| {
            expect!($log, $bad, got == want, "{} {}: {what} of {x:#x} and {y:#x} (count {s}, carry {c}) gave {got:#x}, want {want:#x}", $label, stringify!($t));
        };
        let two = |r: (T, bool)| (f(r.0), r.1);
        let opt = |r: Option<T>| r.map(f);
        let pick = |r: (u128, bool)| if r.1 { None } else { Some(r.0) };
        let some = |r: Option<u128>| r.unwrap_or(u128::MAX - 1);
        eq("width", <T as MinInt>::BITS as u128, n as u128);
        eq("signedness", <T as MinInt>::SIGNED as u128, $signed as u128);
        eq("zero", f(<T as MinInt>::ZERO), 0);
        eq("one", f(<T as MinInt>::ONE), 1);
        eq("lowest value", f(<T as MinInt>::MIN), if $signed { 1 << (n - 1) } else { 0 });
        eq("highest value", f(<T as MinInt>::MAX), if $signed { m >> 1 } else { m });
        eq("to unsigned", Int::unsigned(x) as u128, a);
        eq("to signed", Int::signed(x) as $u as u128, a);
        eq("from unsigned", f(<T as Int>::from_unsigned(a as $u)), a);
        eq("from truth value", f(<T as Int>::from_bool(c)), c as u128);
        eq("zero test", Int::is_zero(x) as u128, (a == 0) as u128);
        let k = s % n;
        eq("logical shift right", f(Int::logical_shr(x, k)), a >> k);
        eq("wrapping shift left", f(Int::wrapping_shl(x, s)), a << k & m);
        eq("wrapping shift right", f(Int::wrapping_shr(x, s)), ((ext(n, $signed, a) as i128 >> k) as u128) & if $signed { m } else { m >> k });
        eq("rotation left", f(Int::rotate_left(x, s)), if k == 0 { a } else { (a << k | a >> (n - k)) & m });
        eq("wrapping negation", f(Int::wrapping_neg(x)), (!a).wrapping_add(1) & m);
        eq("wrapping product", f(Int::wrapping_mul(x, y)), a.wrapping_mul(b) & m);
        let sum = m_sum(n, $signed, false, a, b, false);
        let dif = m_sum(n, $signed, true, a, b, false);
        eq("wrapping sum", f(Int::wrapping_add(x, y)), sum.0);
        eq("wrapping difference", f(Int::wrapping_sub(x, y)), dif.0);
        eq("checked sum", some(opt(Int::checked_add(x, y))), some(pick(sum)));
        eq("checked sum is absent", Int::checked_add(x, y).is_none() as u128, sum.1 as u128);
        eq("checked difference", some(opt(Int::checked_sub(x, y))), some(pick(dif)));
        eq("checked difference is absent", Int::checked_sub(x, y).is_none() as u128, dif.1 as u128);
        for (what, got, want) in [
            ("sum", two(Int::overflowing_add(x, y)), sum),
            ("difference", two(Int::overflowing_sub(x, y)), dif),
            ("sum with carry", two(Int::carrying_add(x, y, c)), m_sum(n, $signed, false, a, b, c)),
            ("difference with borrow", two(Int::borrowing_sub(x, y, c)), m_sum(n, $signed, true, a, b, c)),
        ] {
            eq(what, got.0, want.0);
            eq(&format!("overflow of the {what}"), got.1 as u128, want.1 as u128);
        }
        let mut ones = 0;
        let mut lead = n;
        let mut trail = n;
        for i in 0..n {
            if a >> i & 1 == 1 {
                ones += 1;
                lead = n - 1 - i;
                trail = trail.min(i);
            }
        }
        eq("count of ones", Int::count_ones(x) as u128, ones);
        eq("leading zeros", Int::leading_zeros(x) as u128, lead as u128);
        eq("trailing zeros", Int::trailing_zeros(x) as u128, trail as u128);
        let neg = $signed && a >> (n - 1) == 1;
        if a != 0 && !neg {
            eq("floor of the binary logarithm", Int::ilog2(x) as u128, (n - 1 - lead) as u128);
        }
        let bias = if $signed { 1u128 << (n - 1) } else { 0 };
        let (p, q) = (a ^ bias, b ^ bias);
        eq("distance", Int::abs_diff(x, y) as u128, p.max(q) - p.min(q));
        if $signed {
            let mag = if neg { ext(n, true, a).wrapping_neg() } else { a };
            eq("unsigned magnitude", Int::unsigned_abs(x) as u128, mag);
            if mag != bias {
                eq("magnitude", f(Int::abs(x)), mag);
            }
        }
    })* };
}

macro_rules! halves_check {
    ($lib:ident, $label:literal, $w:ident, $log:ident, $bad:ident; $($h:ident, $uh:ident, $d:ident, $ud:ident;)*) => { $({
        use $lib::support::{DInt, HInt};
        let n = <$h>::BITS;
        let (a, b) = ($w[0] & mask(n), $w[1] & mask(n));
        let (lo, hi) = (a as $h, b as $h);
        let d = <$d as DInt>::from_lo_hi(lo, hi);
        let f = |v: $d| v as $ud as u128;
        let want = b << n | a;
        let signed = <$h>::MIN != 0;
        let mut eq = |what: &str, got: u128, want: u128| {
            expect!($log, $bad, got == want, "{} {}: {what} of {lo:#x} and {hi:#x} gave {got:#x}, want {want:#x}", $label, stringify!($h));
        };
        eq("joined halves", f(d), want);
        let whole = want as $d;
        eq("low half", DInt::lo(whole) as $uh as u128, a);
        eq("high half", DInt::hi(whole) as $uh as u128, b);
        let (l, h) = DInt::lo_hi(whole);
        eq("both halves", (h as $uh as u128) << n | l as $uh as u128, want);
        eq("widening", f(HInt::widen(lo)), ext(n, signed, a) & mask(2 * n));
        eq("widening with zeros", f(HInt::zero_widen(lo)), a);
        eq("widening to the high half", f(HInt::widen_hi(lo)), a << n);
    })* };
}

macro_rules! cast_one {
    ($lib:ident, $label:literal, $w:ident, $log:ident, $bad:ident, $t:ident, $u:ident, $signed:literal; $($o:ident, $ou:ident, $os:literal;)*) => { $({
        use $lib::support::{CastFrom, CastInto};
        let (n, k) = (<$u>::BITS, <$ou>::BITS);
        let a = $w[0] & mask(n);
        let x = a as $t;
        let want = ext(n, $signed, a) & mask(k);
        let got = CastInto::<$o>::cast_lossy(x) as $ou as u128;
        let from = <$o as CastFrom<$t>>::cast_from_lossy(x) as $ou as u128;
        expect!($log, $bad, got == want && from == want, "{}: {} {x:#x} cut to {} gave {got:#x} and {from:#x}, want {want:#x}", $label, stringify!($t), stringify!($o));
        if fits(n, $signed, a, k, $os) {
            let got = CastInto::<$o>::cast(x) as $ou as u128;
            let from = <$o as CastFrom<$t>>::cast_from(x) as $ou as u128;
            expect!($log, $bad, got == want && from == want, "{}: {} {x:#x} as {} gave {got:#x} and {from:#x}, want {want:#x}", $label, stringify!($t), stringify!($o));
        }
    })* };
}

macro_rules! cast_check {
    ($lib:ident, $label:literal, $w:ident, $log:ident, $bad:ident; $($t:ident, $u:ident, $signed:literal;)*) => { $(
        cast_one!($lib, $label, $w, $log, $bad, $t, $u, $signed;
            u8, u8, false; i8, u8, true; u16, u16, false; i16, u16, true; u32, u32, false; i32, u32, true;
            u64, u64, false; i64, u64, true; u128, u128, false; i128, u128, true; usize, usize, false; isize, usize, true;);
    )* };
}

macro_rules! int_to_float_check {
    ($lib:ident, $label:literal, $w:ident, $log:ident, $bad:ident; $($t:ident, $f:ident, $fmt:ident;)*) => { $({
        use $lib::support::CastInto;
        let x = $w[0] as $t;
        let want = $fmt.from_int(x < 0, x.unsigned_abs() as u128);
        let back = $fmt.to_int(want, <$t>::BITS, true);
        let exact = !$fmt.is_inf(want) && back == x as u128 & mask(<$t>::BITS) && $fmt.from_int(x < 0, x.unsigned_abs() as u128) == want && x != <$t>::MAX;
        // the compiler converts to the narrowest format in two steps, so only the exact ones there
        if $fmt.bits > 16 || x.unsigned_abs() as u128 <= 1 << 24 {
            let got = CastInto::<$f>::cast_lossy(x).to_bits() as u128;
            expect!($log, $bad, got == want, "{}: {x} rounded to {} gave {}, want {}", $label, stringify!($f), $fmt.show(got), $fmt.show(want));
        }
        if exact {
            let got = CastInto::<$f>::cast(x).to_bits() as u128;
            expect!($log, $bad, got == want, "{}: {x} as {} gave {}, want {}", $label, stringify!($f), $fmt.show(got), $fmt.show(want));
        }
    })* };
}

fn gen_arith(r: &mut Rng, w: &mut Words) {
    let k = 8u32 << r.below(5);
    let m = mask(k);
    let half = 1u128 << (k - 1);
    w[0] = gen::int(r, k);
    w[1] = match r.below(8) {
        // sums and differences around a carry, and around a change of sign
        0 => (!w[0]).wrapping_add(r.below(3) as u128),
        1 => w[0].wrapping_add(r.below(3) as u128).wrapping_sub(1),
        2 => half.wrapping_sub(w[0]).wrapping_add(r.below(3) as u128).wrapping_sub(1),
        3 => w[0].wrapping_sub(half).wrapping_add(r.below(3) as u128).wrapping_sub(1),
        4 => (!half).wrapping_sub(w[0]).wrapping_add(r.below(3) as u128).wrapping_sub(1),
        _ => gen::int(r, k),
    } & m;
    // the same values read as negative at wider types
    for i in 0..2 {
        if r.one_in(4) {
            w[i] = ext(k, true, w[i]);
        }
    }
    w[2] = if r.one_in(8) { gen::int(r, 32) } else { r.below(2 * k as u64) as u128 };
    w[3] = r.below(2) as u128;
}

pub fn c46(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    macro_rules! arith {
        ($name:literal, $n:expr; $($list:tt)*) => {
            s.push(Sub::new($name, 4, ctx.n($n, $n * 40), |r: &mut Rng, _, w: &mut Words| gen_arith(r, w), |w, mut log| {
                let mut bad = false;
                arith_check!(l1, "release", w, log, bad; $($list)*);
                arith_check!(l2, "checked", w, log, bad; $($list)*);
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("all operations on {:#x} and {:#x}, count {}, carry {}", w[0], w[1], w[2] as u32, w[3] & 1));
                }
                fin(bad, w[0] != 0 && w[1] != 0)
            }));
        };
    }
    // every pair of 8-bit values
    s.push(Sub::new("arithmetic 8 [all]", 4, 1 << 17, |_: &mut Rng, i, w: &mut Words| {
        w[0] = i as u128 & 255;
        w[1] = i as u128 >> 8 & 255;
        w[2] = (i ^ i >> 8) as u128 & 15;
        w[3] = i as u128 >> 16;
    }, |w, mut log| {
        let mut bad = false;
        arith_check!(l1, "release", w, log, bad; u8, u8, false; i8, u8, true;);
        arith_check!(l2, "checked", w, log, bad; u8, u8, false; i8, u8, true;);
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("all operations on {:#x} and {:#x}, count {}, carry {}", w[0], w[1], w[2] as u32, w[3] & 1));
        }
        fin(bad, w[0] != 0 && w[1] != 0)
    }).enumerated());
    arith!("arithmetic 16 and 32", 1_000_000; u16, u16, false; i16, u16, true; u32, u32, false; i32, u32, true;);
    arith!("arithmetic 64", 1_000_000; u64, u64, false; i64, u64, true; usize, usize, false; isize, usize, true;);
    arith!("arithmetic 128", 1_000_000; u128, u128, false; i128, u128, true;);
    s.push(Sub::new("halves", 4, ctx.n(1_000_000, 40_000_000), |r: &mut Rng, _, w: &mut Words| gen_arith(r, w), |w, mut log| {
        let mut bad = false;
        macro_rules! both { ($($list:tt)*) => {
            halves_check!(l1, "release", w, log, bad; $($list)*);
            halves_check!(l2, "checked", w, log, bad; $($list)*);
        } }
        both!(u8, u8, u16, u16; i8, u8, i16, u16; u16, u16, u32, u32; i16, u16, i32, u32; u32, u32, u64, u64; i32, u32, i64, u64; u64, u64, u128, u128; i64, u64, i128, u128;);
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("halves {:#x} and {:#x} at every width", w[0], w[1]));
        }
        fin(bad, w[0] != 0 && w[1] != 0)
    }));
    s.push(Sub::new("casts", 4, ctx.n(1_500_000, 60_000_000), |r: &mut Rng, _, w: &mut Words| gen_arith(r, w), |w, mut log| {
        let mut bad = false;
        macro_rules! both { ($($list:tt)*) => {
            cast_check!(l1, "release", w, log, bad; $($list)*);
            cast_check!(l2, "checked", w, log, bad; $($list)*);
        } }
        both!(u8, u8, false; i8, u8, true; u16, u16, false; i16, u16, true; u32, u32, false; i32, u32, true;
            u64, u64, false; i64, u64, true; u128, u128, false; i128, u128, true; usize, usize, false; isize, usize, true;);
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{:#x} between all integer types", w[0]));
        }
        fin(bad, w[0] > 127)
    }));
    s.push(Sub::new("casts to floats", 4, ctx.n(1_500_000, 60_000_000), |r: &mut Rng, _, w: &mut Words| gen_arith(r, w), |w, mut log| {
        let mut bad = false;
        macro_rules! both { ($($list:tt)*) => {
            int_to_float_check!(l1, "release", w, log, bad; $($list)*);
            int_to_float_check!(l2, "checked", w, log, bad; $($list)*);
        } }
        both!(i8, f16, F16; i8, f32, F32; i8, f64, F64; i8, f128, F128; i16, f16, F16; i16, f32, F32; i16, f64, F64; i16, f128, F128;
            i32, f16, F16; i32, f32, F32; i32, f64, F64; i32, f128, F128; i64, f16, F16; i64, f32, F32; i64, f64, F64; i64, f128, F128;
            i128, f16, F16; i128, f32, F32; i128, f64, F64; i128, f128, F128;);
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{:#x} to all float types", w[0]));
        }
        fin(bad, w[0] > 127)
    }));
    (
        Meta {
            rule: "non-trivial: both operands are non-zero (arithmetic, halves), or the value needs more than seven bits (casts)",
            assumptions: vec![
                "shift counts below the width for the logical shift; exact casts only of values the target holds".into(),
                "logarithm of zero, magnitude of the lowest value and magnitudes of unsigned values are left open".into(),
                "inexact casts of large integers to the 16-bit format are left out: the compiler rounds them twice".into(),
            ],
        },
        s,
    )
}

/// Bits of pi in each format.
fn pi(f: &Fmt) -> u128 {
    match f.bits {
        16 => 0x4248,
        32 => 0x4049_0fdb,
        64 => 0x4009_21fb_5444_2d18,
        _ => 0x4000_921f_b544_42d1_8469_898c_c517_01b8,
    }
}

macro_rules! consts_check {
    ($lib:ident, $label:literal, $log:ident, $bad:ident, $f:expr, $t:ident) => {{
        use $lib::support::Float;
        type T = $t;
        let f: &Fmt = $f;
        let mut eq = |what: &str, got: u128, want: u128| {
            expect!($log, $bad, got == want, "{} {}: {what} is {got:#x}, want {want:#x}", $label, stringify!($t));
        };
        let b = |x: T| Float::to_bits(x) as u128;
        eq("zero", b(<T as Float>::ZERO), 0);
        eq("negative zero", b(<T as Float>::NEG_ZERO), f.sign());
        eq("one", b(<T as Float>::ONE), f.one());
        eq("minus one", b(<T as Float>::NEG_ONE), f.one() | f.sign());
        eq("infinity", b(<T as Float>::INFINITY), f.inf());
        eq("negative infinity", b(<T as Float>::NEG_INFINITY), f.inf() | f.sign());
        eq("largest value", b(<T as Float>::MAX), f.max());
        eq("lowest value", b(<T as Float>::MIN), f.max() | f.sign());
        eq("smallest normal value", b(<T as Float>::MIN_POSITIVE_NORMAL), f.min_normal());
        eq("smallest subnormal value", b(<T as Float>::MIN_POSITIVE_SUBNORMAL), 1);
        eq("epsilon", b(<T as Float>::EPSILON), f.one() - ((f.mant as u128) << f.mant));
        eq("pi", b(<T as Float>::PI), pi(f));
        eq("minus pi", b(<T as Float>::NEG_PI), pi(f) | f.sign());
        eq("half of pi", b(<T as Float>::FRAC_PI_2), pi(f) - (1 << f.mant));
        for (what, x, neg, quiet) in [
            ("quiet NaN", <T as Float>::NAN, false, true),
            ("signalling NaN", <T as Float>::SNAN, false, false),
            ("negative quiet NaN", <T as Float>::NEG_NAN, true, true),
            ("negative signalling NaN", <T as Float>::NEG_SNAN, true, false),
        ] {
            let x = b(x);
            eq(&format!("{what}, as a NaN,"), f.is_nan(x) as u128, 1);
            eq(&format!("{what}, sign,"), f.is_neg(x) as u128, neg as u128);
            eq(&format!("{what}, quiet bit,"), x >> (f.mant - 1) & 1, quiet as u128);
        }
        eq("width", <T as Float>::BITS as u128, f.bits as u128);
        eq("significand width", <T as Float>::SIG_BITS as u128, f.mant as u128);
        eq("exponent width", <T as Float>::EXP_BITS as u128, f.ebits() as u128);
        eq("saturated exponent", <T as Float>::EXP_SAT as u128, f.emax_field() as u128);
        eq("bias", <T as Float>::EXP_BIAS as u128, f.bias() as u128);
        eq("largest exponent", <T as Float>::EXP_MAX as u128, f.bias() as u128);
        eq("smallest exponent", -<T as Float>::EXP_MIN as u128, f.bias() as u128 - 1);
        eq("smallest subnormal exponent", -<T as Float>::EXP_MIN_SUBNORM as u128, -f.emin() as u128);
        eq("sign mask", <T as Float>::SIGN_MASK as u128, f.sign());
        eq("significand mask", <T as Float>::SIG_MASK as u128, f.frac());
        eq("exponent mask", <T as Float>::EXP_MASK as u128, f.inf());
        eq("implicit bit", <T as Float>::IMPLICIT_BIT as u128, 1 << f.mant);
        eq("top significand bit", <T as Float>::SIG_TOP_BIT as u128, 1 << (f.mant - 1));
    }};
}

macro_rules! float_check {
    ($lib:ident, $label:literal, $w:ident, $log:ident, $bad:ident, $f:expr, $t:ident, $u:ident, $i:ident) => {{
        use $lib::support::Float;
        type T = $t;
        let f: &Fmt = $f;
        let (a, b, c) = ($w[0] & f.all(), $w[1] & f.all(), $w[2] & f.all());
        let v = |x: u128| <T as Float>::from_bits(x as $u);
        let (x, y, z) = (v(a), v(b), v(c));
        let mut eq = |what: &str, got: u128, want: u128| {
            expect!($log, $bad, got == want, "{} {}: {what} of {}, {}, {} gave {got:#x}, want {want:#x}", $label, stringify!($t), f.show(a), f.show(b), f.show(c));
        };
        let bits = |x: T| Float::to_bits(x) as u128;
        let nan = f.is_nan(a);
        let quiet = nan && a >> (f.mant - 1) & 1 == 1;
        eq("pattern", bits(x), a);
        eq("signed pattern", Float::to_bits_signed(x) as $u as u128, a);
        eq("same pattern", Float::biteq(x, y) as u128, (a == b) as u128);
        eq("same pattern or both NaN", Float::eq_repr(x, y) as u128, (a == b || nan && f.is_nan(b)) as u128);
        eq("NaN test", Float::is_nan(x) as u128, nan as u128);
        eq("quiet NaN test", Float::is_qnan(x) as u128, quiet as u128);
        eq("signalling NaN test", Float::is_snan(x) as u128, (nan && !quiet) as u128);
        eq("infinity test", Float::is_infinite(x) as u128, (a & f.mag() == f.inf()) as u128);
        eq("negative sign", Float::is_sign_negative(x) as u128, (a & f.sign() != 0) as u128);
        eq("positive sign", Float::is_sign_positive(x) as u128, (a & f.sign() == 0) as u128);
        if a & f.mag() != 0 {
            eq("subnormal test", Float::is_subnormal(x) as u128, (a & f.mag() < f.min_normal()) as u128);
        }
        let ex = (a & f.mag()) >> f.mant;
        eq("exponent field", Float::ex(x) as u128, ex);
        eq("exponent", Float::exp_unbiased(x) as i128 as u128, (ex as i128 - f.bias() as i128) as u128);
        eq("fraction", Float::frac(x) as u128, a & f.frac());
        eq("rebuilt value", bits(<T as Float>::from_parts(a & f.sign() != 0, ex as u32, (a & f.frac()) as $u)), a);
        // parts that do not fit are cut to their place
        let (e, s) = ($w[3] as u32, b);
        let want = (a & f.sign()) | (e as u128 & f.emax_field() as u128) << f.mant | s & f.frac();
        if f.bits > 32 || e <= <$u>::MAX as u32 {
            eq("value from parts", bits(<T as Float>::from_parts(a & f.sign() != 0, e, s as $u)), want);
        }
        eq("magnitude", bits(Float::abs(x)), a & f.mag());
        eq("first with the sign of the second", bits(Float::copysign(x, y)), a & f.mag() | b & f.sign());
        let sg = bits(Float::signum(x));
        eq("sign as a number", if nan { f.is_nan(sg) as u128 } else { sg }, if nan { 1 } else { f.one() | a & f.sign() });
        let cn = bits(Float::canonicalize(x));
        eq("canonical form", if nan { f.is_nan(cn) as u128 } else { cn }, if nan { 1 } else { a });
        let fma = bits(Float::fma(x, y, z));
        let want = f.fma(a, b, c);
        eq("fused multiply-add", if f.is_nan(fma) { f.nan() } else { fma }, if f.is_nan(want) { f.nan() } else { want });
        let sig = a & f.frac();
        if sig != 0 {
            let (e, m) = <T as Float>::normalize(sig as $u);
            let shift = f.mant - (127 - sig.leading_zeros());
            eq("normalized significand", m as u128, sig << shift);
            eq("normalized exponent", e as i128 as u128, (1 - shift as i128) as u128);
        }
    }};
}

macro_rules! resize_check {
    ($lib:ident, $label:literal, $w:ident, $log:ident, $bad:ident; $($h:ident, $uh:ident, $fh:ident, $d:ident, $ud:ident, $fd:ident;)*) => { $({
        use $lib::support::{NarrowFloat, WideFloat};
        let a = $w[0] & $fh.all();
        let got = NarrowFloat::widen(<$h>::from_bits(a as $uh)).to_bits() as u128;
        let want = $fh.convert(a, &$fd);
        expect!($log, $bad, $fd.same(got, want), "{}: {} {} widened is {}, want {}", $label, stringify!($h), $fh.show(a), $fd.show(got), $fd.show(want));
        let a = $w[1] & $fd.all();
        let got = WideFloat::narrow(<$d>::from_bits(a as $ud)).to_bits() as u128;
        let want = $fd.convert(a, &$fh);
        expect!($log, $bad, $fh.same(got, want), "{}: {} {} narrowed is {}, want {}", $label, stringify!($d), $fd.show(a), $fh.show(got), $fh.show(want));
    })* };
}

pub fn c47(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    macro_rules! values {
        ($t:ident, $u:ident, $i:ident, $f:expr, $n:expr) => {
            let f: &'static Fmt = $f;
            s.push(Sub::new(leak(format!("constants {}", f.bits)), 1, 1, |_: &mut Rng, _, w: &mut Words| w[0] = 0, |_, mut log| {
                let mut bad = false;
                consts_check!(l1, "arch", log, bad, $f, $t);
                consts_check!(l2, "portable", log, bad, $f, $t);
                consts_check!(l3, "intrinsics", log, bad, $f, $t);
                fin(bad, true)
            }).enumerated());
            let check = |w: &Words, mut log: Option<&mut String>| {
                let f: &Fmt = $f;
                let mut bad = false;
                float_check!(l1, "arch", w, log, bad, $f, $t, $u, $i);
                float_check!(l2, "portable", w, log, bad, $f, $t, $u, $i);
                float_check!(l3, "intrinsics", w, log, bad, $f, $t, $u, $i);
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("all operations on {}, {}, {}", f.show(w[0] & f.all()), f.show(w[1] & f.all()), f.show(w[2] & f.all())));
                }
                fin(bad, w[0] & f.mag() != 0)
            };
            let gen = move |r: &mut Rng, w: &mut Words| {
                (w[0], w[1]) = gen::float2(r, f);
                if r.one_in(6) {
                    w[1] = w[0] ^ if r.one_in(2) { f.sign() } else { 1 << r.below(f.bits as u64) };
                }
                w[2] = gen::float(r, f);
                w[3] = if r.one_in(4) { gen::int(r, 32) } else { r.below(2 << f.ebits()) as u128 };
            };
            if f.bits == 16 {
                s.push(Sub::new("values 16 [all]", 4, 1 << 16, move |r: &mut Rng, i, w: &mut Words| {
                    gen(r, w);
                    w[0] = i as u128;
                }, check).enumerated());
            }
            s.push(Sub::new(leak(format!("values {}", f.bits)), 4, ctx.n($n, $n * 40), move |r: &mut Rng, _, w: &mut Words| gen(r, w), check));
        };
    }
    values!(f16, u16, i16, &F16, 1_000_000);
    values!(f32, u32, i32, &F32, 1_000_000);
    values!(f64, u64, i64, &F64, 1_000_000);
    values!(f128, u128, i128, &F128, 800_000);
    s.push(Sub::new("widening and narrowing", 2, ctx.n(1_000_000, 40_000_000), |r: &mut Rng, _, w: &mut Words| {
        let fs = [&F16, &F32, &F64, &F128];
        let k = r.below(3) as usize;
        w[0] = gen::float(r, fs[k]);
        // a wide value at or near one the narrow format holds, or halfway between two
        let near = fs[k].convert(w[0], fs[k + 1]);
        let gap = fs[k + 1].mant - fs[k].mant;
        w[1] = match r.below(4) {
            0 => gen::float(r, fs[k + 1]),
            1 => near ^ 1 << (gap - 1),
            2 => (near | 1 << (gap - 1)).wrapping_add(1).wrapping_sub(r.below(3) as u128),
            _ => near.wrapping_add(r.below(5) as u128).wrapping_sub(2),
        };
    }, |w, mut log| {
        let mut bad = false;
        macro_rules! three { ($($list:tt)*) => {
            resize_check!(l1, "arch", w, log, bad; $($list)*);
            resize_check!(l2, "portable", w, log, bad; $($list)*);
            resize_check!(l3, "intrinsics", w, log, bad; $($list)*);
        } }
        three!(f16, u16, F16, f32, u32, F32; f32, u32, F32, f64, u64, F64; f64, u64, F64, f128, u128, F128;);
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{:#x} widened and {:#x} narrowed", w[0], w[1]));
        }
        fin(bad, w[0] != 0 && w[1] != 0)
    }));
    (
        Meta {
            rule: "non-trivial: the first operand is not a zero (values), both patterns are non-zero (widening and narrowing); constants always",
            assumptions: vec![
                "whether a zero counts as subnormal, the normalization of a zero significand and the payload of computed NaNs are left open".into(),
                "the quiet bit is the top fraction bit, as on every target but old MIPS".into(),
            ],
        },
        s,
    )
}
