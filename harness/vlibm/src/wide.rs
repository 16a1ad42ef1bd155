//! Double-width integers and modular reduction.
use std::cmp::Ordering;

use vcore::big::Big;
use vcore::gen;
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::expect;

use crate::util::fin;

/// A 256-bit value as (low, high).
type W = (u128, u128);

fn gen_wide(r: &mut Rng, w: &mut Words) {
    w[0] = gen::int(r, 128);
    w[1] = if r.one_in(4) { 0 } else { gen::int(r, 128) };
    match r.below(6) {
        // sums around a carry out of the low half, equal or neighbouring values
        0 => {
            w[2] = (!w[0]).wrapping_add(r.below(3) as u128);
            w[3] = gen::int(r, 128);
        }
        1 => {
            w[2] = w[0].wrapping_add(r.below(3) as u128).wrapping_sub(1);
            w[3] = w[1];
        }
        2 => {
            w[2] = gen::int(r, 128);
            w[3] = !w[1];
        }
        _ => {
            w[2] = gen::int(r, 128);
            w[3] = if r.one_in(4) { 0 } else { gen::int(r, 128) };
        }
    }
    w[4] = r.below(256) as u128;
}

fn m_shl(a: W, s: u32) -> W {
    let b = big(a).shl(s);
    (b.low(), b.shr(128).low())
}
fn m_shr(a: W, s: u32) -> W {
    let b = big(a).shr(s);
    (b.low(), b.shr(128).low())
}
fn big(a: W) -> Big {
    Big::from(a.1).shl(128).add(&Big::from(a.0))
}
/// Arithmetic shift by shifting the complement of a negative value.
fn m_sar(a: W, s: u32) -> W {
    if a.1 >> 127 == 1 {
        let t = m_shr((!a.0, !a.1), s);
        (!t.0, !t.1)
    } else {
        m_shr(a, s)
    }
}
fn m_add(a: W, b: W) -> (W, bool) {
    let s = big(a).add(&big(b));
    ((s.low(), s.shr(128).low()), s.bits() > 256)
}
fn m_sub(a: W, b: W) -> (W, bool) {
    let neg = big(a).cmp(&big(b)) == Ordering::Less;
    let s = if neg { Big::from(1).shl(256).add(&big(a)).sub(&big(b)) } else { big(a).sub(&big(b)) };
    ((s.low(), s.shr(128).low()), neg)
}
/// Order of two's complement values.
fn m_scmp(a: W, b: W) -> Ordering {
    let f = |x: W| big((x.0, x.1 ^ 1 << 127));
    f(a).cmp(&f(b))
}

macro_rules! wide_check {
    ($lib:ident, $label:literal, $w:ident, $log:ident, $bad:ident) => {{
        use $lib::support::{i256, u256, DInt, HInt};
        let (a, b): (W, W) = (($w[0], $w[1]), ($w[2], $w[3]));
        let s = $w[4] as u32 & 255;
        let u = |x: W| u256 { lo: x.0, hi: x.1 };
        let i = |x: W| i256 { lo: x.0, hi: x.1 as i128 };
        let fu = |x: u256| (x.lo, x.hi);
        let fi = |x: i256| (x.lo, x.hi as u128);
        let h = |x: W| format!("{:#x}:{:032x}", x.1, x.0);
        let mut eq = |what: &str, got: W, want: W| {
            expect!($log, $bad, got == want, "{}: {what} of {} and {} (shift {s}) gave {}, want {}", $label, h(a), h(b), h(got), h(want));
        };
        eq("unsigned shift left", fu(u(a) << s), m_shl(a, s));
        eq("unsigned shift right", fu(u(a) >> s), m_shr(a, s));
        eq("signed shift left", fi(i(a) << s), m_shl(a, s));
        eq("signed shift right", fi(i(a) >> s), m_sar(a, s));
        eq("unsigned or", fu(u(a) | u(b)), (a.0 | b.0, a.1 | b.1));
        eq("signed or", fi(i(a) | i(b)), (a.0 | b.0, a.1 | b.1));
        eq("unsigned not", fu(!u(a)), (!a.0, !a.1));
        eq("signed not", fi(!i(a)), (!a.0, !a.1));
        eq("to signed", fi(u(a).signed()), a);
        eq("to unsigned", fu(i(a).unsigned()), a);
        let (sum, carry) = m_add(a, b);
        if !carry {
            eq("unsigned sum", fu(u(a) + u(b)), sum);
        }
        let neg = |x: W| x.1 >> 127 == 1;
        if neg(a) != neg(b) || neg(sum) == neg(a) {
            eq("signed sum", fi(i(a) + i(b)), sum);
        }
        let (dif, borrow) = m_sub(a, b);
        if !borrow {
            eq("unsigned difference", fu(u(a) - u(b)), dif);
        }
        if neg(a) == neg(b) || neg(dif) == neg(a) {
            eq("signed difference", fi(i(a) - i(b)), dif);
        }
        eq("widening", fu(a.0.widen()), (a.0, 0));
        eq("zero widening", fu(a.0.zero_widen()), (a.0, 0));
        eq("widening to the high half", fu(a.0.widen_hi()), (0, a.0));
        eq("signed widening", fi((a.0 as i128).widen()), (a.0, if a.0 >> 127 == 1 { u128::MAX } else { 0 }));
        eq("signed zero widening", fi((a.0 as i128).zero_widen()), (a.0, 0));
        eq("signed widening to the high half", fi((a.0 as i128).widen_hi()), (0, a.0));
        let p = Big::mul(a.0, b.0);
        let p = (p.low(), p.shr(128).low());
        eq("widening product", fu(a.0.widen_mul(b.0)), p);
        eq("zero widening product", fu(a.0.zero_widen_mul(b.0)), p);
        eq("signed zero widening product", fi((a.0 as i128).zero_widen_mul(b.0 as i128)), p);
        eq("halves", (u(a).lo(), u(a).hi()), a);
        eq("signed halves", (i(a).lo() as u128, i(a).hi() as u128), a);
        eq("halves put together", fu(u256::from_lo_hi(a.0, a.1)), a);
        let c = big(a).cmp(&big(b));
        expect!($log, $bad, u(a).cmp(&u(b)) == c && (u(a) == u(b)) == (c == Ordering::Equal) && (u(a) < u(b)) == (c == Ordering::Less), "{}: unsigned comparison of {} and {} is wrong", $label, h(a), h(b));
        let c = m_scmp(a, b);
        expect!($log, $bad, i(a).cmp(&i(b)) == c && (i(a) == i(b)) == (c == Ordering::Equal) && (i(a) < i(b)) == (c == Ordering::Less), "{}: signed comparison of {} and {} is wrong", $label, h(a), h(b));
    }};
}

/// Dividend and divisor with the quotient in range, aimed at wrong quotient digits.
fn gen_narrow(r: &mut Rng, bits: u32, w: &mut Words) {
    let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    let half = bits / 2;
    let mut n = gen::int(r, bits) & mask;
    if r.one_in(2) {
        // top digit with its leading bit set, low digit extreme
        let top = gen::int(r, half) | 1 << (half - 1);
        let low = match r.below(3) {
            0 => (1u128 << half) - 1 - r.below(4) as u128,
            _ => gen::int(r, half),
        };
        n = (top << half | low) & mask;
        n >>= if r.one_in(2) { 0 } else { r.below(bits as u64) as u32 };
    }
    n = n.max(1);
    let hi = match r.below(4) {
        0 => n - 1 - (r.below(4) as u128).min(n - 1),
        // high digit equal to the divisor's
        1 => ((n >> half << half) | (gen::int(r, half) & ((1 << half) - 1))).min(n - 1),
        2 => gen::int(r, bits) % n,
        _ => r.u128() % n,
    };
    w[0] = gen::int(r, bits) & mask;
    w[1] = hi;
    w[2] = n;
}

macro_rules! narrow_check {
    ($lib:ident, $label:literal, $h:ty, $d:ty, $w:ident, $log:ident, $bad:ident) => {{
        use $lib::support::{DInt, NarrowingDiv};
        let (lo, hi, n) = ($w[0] as $h, $w[1] as $h, $w[2] as $h);
        let a: $d = <$d>::from_lo_hi(lo, hi);
        let got = a.checked_narrowing_div_rem(n);
        expect!($log, $bad, got.is_some() == (hi < n), "{}: {hi:#x}:{lo:x} / {n:#x} gave {got:x?}", $label);
        // quotient * divisor + remainder is the dividend, and the remainder is below the divisor
        let right = |(q, r): ($h, $h)| {
            let back = Big::mul(q as u128, n as u128).add(&Big::from(r as u128));
            r < n && back.cmp(&Big::from(hi as u128).shl(<$h>::BITS).add(&Big::from(lo as u128))) == Ordering::Equal
        };
        if let Some(qr) = got {
            expect!($log, $bad, right(qr), "{}: {hi:#x}:{lo:x} / {n:#x} gave {qr:x?}", $label);
        }
        if hi < n {
            let qr = unsafe { a.unchecked_narrowing_div_rem(n) };
            expect!($log, $bad, right(qr), "{}: unchecked {hi:#x}:{lo:x} / {n:#x} gave {qr:x?}", $label);
        }
    }};
}

macro_rules! product_check {
    ($lib:ident, $label:literal, $w:ident, $log:ident, $bad:ident; $($u:ty, $i:ty, $du:ty, $di:ty;)*) => { $({
        use $lib::support::{DInt, HInt};
        let (a, b) = ($w[0] as $u, $w[1] as $u);
        let (x, y) = (a as $i, b as $i);
        let p = a as $du * b as $du;
        expect!($log, $bad, a.widen_mul(b) == p && a.zero_widen_mul(b) == p, "{}: {a:#x} * {b:#x} gave {:#x} and {:#x}", $label, a.widen_mul(b), a.zero_widen_mul(b));
        let q = x as $di * y as $di;
        expect!($log, $bad, x.widen_mul(y) == q && x.zero_widen_mul(y) == p as $di, "{}: signed {x:#x} * {y:#x} gave {:#x} and {:#x}", $label, x.widen_mul(y), x.zero_widen_mul(y));
        expect!($log, $bad, a.widen() == a as $du && x.widen() == x as $di && x.zero_widen() == a as $di && a.zero_widen() == a as $du, "{}: widening {a:#x}", $label);
        expect!($log, $bad, a.widen_hi() == (a as $du) << <$u>::BITS && x.widen_hi() == (x as $di) << <$u>::BITS, "{}: widening {a:#x} to the high half", $label);
        let d = <$du>::from_lo_hi(a, b);
        expect!($log, $bad, d == (b as $du) << <$u>::BITS | a as $du && d.lo() == a && d.hi() == b && d.lo_hi() == (a, b), "{}: halves {a:#x} and {b:#x}", $label);
    })* };
}

fn mod_pow2(x: u128, e: u32, y: u128) -> u128 {
    // x * 2^e mod y by repeated squaring
    let mul = |a: u128, b: u128| {
        if y >> 64 == 0 {
            a * b % y
        } else {
            Big::mul(a, b).div_rem(&Big::from(y)).1.low()
        }
    };
    let mut acc = x % y;
    let mut base = 2 % y;
    let mut e = e;
    while e > 0 {
        if e & 1 == 1 {
            acc = mul(acc, base);
        }
        base = mul(base, base);
        e >>= 1;
    }
    acc
}

pub fn c38(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    s.push(Sub::new("wide integers", 5, ctx.n(6_000_000, 300_000_000), |r: &mut Rng, _, w: &mut Words| gen_wide(r, w), |w, mut log| {
        let mut bad = false;
        wide_check!(l1, "release", w, log, bad);
        wide_check!(l2, "checked", w, log, bad);
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("all operations on {:#x}:{:032x}, {:#x}:{:032x}, shift {}", w[1], w[0], w[3], w[2], w[4] & 255));
        }
        fin(bad, w[1] != 0 && w[3] != 0)
    }));
    s.push(Sub::new("widening products", 2, ctx.n(10_000_000, 400_000_000), |r: &mut Rng, _, w: &mut Words| {
        let k = 8 << r.below(4);
        w[0] = gen::int(r, k);
        w[1] = gen::int(r, k);
    }, |w, mut log| {
        let mut bad = false;
        product_check!(l1, "release", w, log, bad; u8, i8, u16, i16; u16, i16, u32, i32; u32, i32, u64, i64; u64, i64, u128, i128;);
        product_check!(l2, "checked", w, log, bad; u8, i8, u16, i16; u16, i16, u32, i32; u32, i32, u64, i64; u64, i64, u128, i128;);
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{:#x} times {:#x} at every width", w[0], w[1]));
        }
        fin(bad, w[0] > 1 && w[1] > 1)
    }));
    macro_rules! narrow {
        ($name:literal, $h:ty, $d:ident, $n:expr) => {
            s.push(Sub::new($name, 3, ctx.n($n, $n * 40), |r: &mut Rng, _, w: &mut Words| gen_narrow(r, <$h>::BITS, w), |w, mut log| {
                let mut bad = false;
                {
                    #[allow(unused_imports)]
                    use l1::support::u256;
                    narrow_check!(l1, "release", $h, $d, w, log, bad);
                }
                {
                    #[allow(unused_imports)]
                    use l2::support::u256;
                    narrow_check!(l2, "checked", $h, $d, w, log, bad);
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{:#x}:{:x} / {:#x}", w[1], w[0], w[2]));
                }
                fin(bad, w[1] != 0 && w[1] < w[2])
            }));
        };
    }
    narrow!("narrowing division 8", u8, u16, 1_000_000);
    narrow!("narrowing division 16", u16, u32, 2_000_000);
    narrow!("narrowing division 32", u32, u64, 2_000_000);
    narrow!("narrowing division 64", u64, u128, 4_000_000);
    narrow!("narrowing division 128", u128, u256, 4_000_000);
    macro_rules! reduce {
        ($name:literal, $u:ty, $n:expr) => {
            s.push(Sub::new($name, 3, ctx.n($n, $n * 40), |r: &mut Rng, _, w: &mut Words| {
                let bits = <$u>::BITS - 2;
                let cut = if r.one_in(2) { 1 } else { bits as u64 };
                let y = (gen::int(r, bits) >> r.below(cut)).max(1);
                w[2] = y;
                w[0] = match r.below(4) {
                    0 => 2 * y - 1 - (r.below(4) as u128).min(2 * y - 1),
                    1 => (y + r.below(3) as u128).saturating_sub(1).min(2 * y - 1),
                    _ => gen::int(r, bits) % (2 * y),
                };
                w[1] = match r.below(8) {
                    0..=3 => r.below(4 * <$u>::BITS as u64) as u128,
                    4..=6 => r.below(if <$u>::BITS == 128 { 33000 } else { 2200 }) as u128,
                    _ => r.below(200_000) as u128,
                };
            }, |w, mut log| {
                let (x, e, y) = (w[0] as $u, (w[1] as u32) & 0xfffff, w[2] as $u);
                if y == 0 || y.leading_zeros() < 2 || x >= 2 * y {
                    return Out::Skip;
                }
                let want = mod_pow2(x as u128, e, y as u128) as $u;
                let got = l1::support::linear_mul_reduction(x, e, y);
                let chk = l2::support::linear_mul_reduction(x, e, y);
                let mut bad = false;
                expect!(log, bad, got == want && chk == want, "({x:#x} << {e}) % {y:#x} gave {got:#x} (checked build {chk:#x}), want {want:#x}");
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("({x:#x} << {e}) % {y:#x} = {want:#x}"));
                }
                fin(bad, e > 0 && !y.is_power_of_two() && x != 0)
            }));
        };
    }
    reduce!("reduction 16", u16, 2_000_000);
    reduce!("reduction 32", u32, 3_000_000);
    reduce!("reduction 64", u64, 3_000_000);
    reduce!("reduction 128", u128, 800_000);
    (
        Meta {
            rule: "non-trivial: both operands occupy the high half (wide), exceed 1 (products), the quotient is in range with a non-zero high part (division), the divisor is no power of two and the shift positive (reduction)",
            assumptions: vec!["overflowing additions and subtractions and out-of-contract reductions are not exercised".into()],
        },
        s,
    )
}
