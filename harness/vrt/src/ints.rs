use vcore::gen;
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};

use crate::expect;

pub struct IntFns {
    pub name: &'static str,
    pub udivsi3: extern "C" fn(u32, u32) -> u32,
    pub umodsi3: extern "C" fn(u32, u32) -> u32,
    pub udivmodsi4: extern "C" fn(u32, u32, Option<&mut u32>) -> u32,
    pub udivdi3: extern "C" fn(u64, u64) -> u64,
    pub umoddi3: extern "C" fn(u64, u64) -> u64,
    pub udivmoddi4: extern "C" fn(u64, u64, Option<&mut u64>) -> u64,
    pub udivti3: extern "C" fn(u128, u128) -> u128,
    pub umodti3: extern "C" fn(u128, u128) -> u128,
    pub udivmodti4: extern "C" fn(u128, u128, Option<&mut u128>) -> u128,
    pub divsi3: extern "C" fn(i32, i32) -> i32,
    pub modsi3: extern "C" fn(i32, i32) -> i32,
    pub divmodsi4: extern "C" fn(i32, i32, &mut i32) -> i32,
    pub divdi3: extern "C" fn(i64, i64) -> i64,
    pub moddi3: extern "C" fn(i64, i64) -> i64,
    pub divmoddi4: extern "C" fn(i64, i64, &mut i64) -> i64,
    pub divti3: extern "C" fn(i128, i128) -> i128,
    pub modti3: extern "C" fn(i128, i128) -> i128,
    pub divmodti4: extern "C" fn(i128, i128, &mut i128) -> i128,
    pub muldi3: extern "C" fn(u64, u64) -> u64,
    pub multi3: extern "C" fn(i128, i128) -> i128,
    pub mulosi4: extern "C" fn(i32, i32, &mut i32) -> i32,
    pub mulodi4: extern "C" fn(i64, i64, &mut i32) -> i64,
    pub muloti4: extern "C" fn(i128, i128, &mut i32) -> i128,
    pub i128_mulo: extern "C" fn(i128, i128, &mut i32) -> i128,
    pub u128_mulo: extern "C" fn(u128, u128, &mut i32) -> u128,
    pub i128_add: extern "C" fn(i128, i128) -> i128,
    pub i128_addo: extern "C" fn(i128, i128, &mut i32) -> i128,
    pub u128_add: extern "C" fn(u128, u128) -> u128,
    pub u128_addo: extern "C" fn(u128, u128, &mut i32) -> u128,
    pub i128_sub: extern "C" fn(i128, i128) -> i128,
    pub i128_subo: extern "C" fn(i128, i128, &mut i32) -> i128,
    pub u128_sub: extern "C" fn(u128, u128) -> u128,
    pub u128_subo: extern "C" fn(u128, u128, &mut i32) -> u128,
    pub ashlsi3: extern "C" fn(u32, u32) -> u32,
    pub ashldi3: extern "C" fn(u64, u32) -> u64,
    pub ashlti3: extern "C" fn(u128, u32) -> u128,
    pub ashrsi3: extern "C" fn(i32, u32) -> i32,
    pub ashrdi3: extern "C" fn(i64, u32) -> i64,
    pub ashrti3: extern "C" fn(i128, u32) -> i128,
    pub lshrsi3: extern "C" fn(u32, u32) -> u32,
    pub lshrdi3: extern "C" fn(u64, u32) -> u64,
    pub lshrti3: extern "C" fn(u128, u32) -> u128,
    pub clzsi2: extern "C" fn(u32) -> usize,
    pub clzdi2: extern "C" fn(u64) -> usize,
    pub clzti2: extern "C" fn(u128) -> usize,
    pub ctzsi2: extern "C" fn(u32) -> usize,
    pub ctzdi2: extern "C" fn(u64) -> usize,
    pub ctzti2: extern "C" fn(u128) -> usize,
    pub bswapsi2: extern "C" fn(u32) -> u32,
    pub bswapdi2: extern "C" fn(u64) -> u64,
    pub bswapti2: extern "C" fn(u128) -> u128,
}

/// The table for a crate that exposes the routines under their module paths.
#[macro_export]
macro_rules! int_fns {
    ($c:ident, $name:expr) => {
        $crate::ints::IntFns {
            name: $name,
            udivsi3: $c::int::udiv::__udivsi3,
            umodsi3: $c::int::udiv::__umodsi3,
            udivmodsi4: $c::int::udiv::__udivmodsi4,
            udivdi3: $c::int::udiv::__udivdi3,
            umoddi3: $c::int::udiv::__umoddi3,
            udivmoddi4: $c::int::udiv::__udivmoddi4,
            udivti3: $c::int::udiv::__udivti3,
            umodti3: $c::int::udiv::__umodti3,
            udivmodti4: $c::int::udiv::__udivmodti4,
            divsi3: $c::int::sdiv::__divsi3,
            modsi3: $c::int::sdiv::__modsi3,
            divmodsi4: $c::int::sdiv::__divmodsi4,
            divdi3: $c::int::sdiv::__divdi3,
            moddi3: $c::int::sdiv::__moddi3,
            divmoddi4: $c::int::sdiv::__divmoddi4,
            divti3: $c::int::sdiv::__divti3,
            modti3: $c::int::sdiv::__modti3,
            divmodti4: $c::int::sdiv::__divmodti4,
            muldi3: $c::int::mul::__muldi3,
            multi3: $c::int::mul::__multi3,
            mulosi4: $c::int::mul::__mulosi4,
            mulodi4: $c::int::mul::__mulodi4,
            muloti4: $c::int::mul::__muloti4,
            i128_mulo: $c::int::mul::__rust_i128_mulo,
            u128_mulo: $c::int::mul::__rust_u128_mulo,
            i128_add: $c::int::addsub::__rust_i128_add,
            i128_addo: $c::int::addsub::__rust_i128_addo,
            u128_add: $c::int::addsub::__rust_u128_add,
            u128_addo: $c::int::addsub::__rust_u128_addo,
            i128_sub: $c::int::addsub::__rust_i128_sub,
            i128_subo: $c::int::addsub::__rust_i128_subo,
            u128_sub: $c::int::addsub::__rust_u128_sub,
            u128_subo: $c::int::addsub::__rust_u128_subo,
            ashlsi3: $c::int::shift::__ashlsi3,
            ashldi3: $c::int::shift::__ashldi3,
            ashlti3: $c::int::shift::__ashlti3,
            ashrsi3: $c::int::shift::__ashrsi3,
            ashrdi3: $c::int::shift::__ashrdi3,
            ashrti3: $c::int::shift::__ashrti3,
            lshrsi3: $c::int::shift::__lshrsi3,
            lshrdi3: $c::int::shift::__lshrdi3,
            lshrti3: $c::int::shift::__lshrti3,
            clzsi2: $c::int::leading_zeros::__clzsi2,
            clzdi2: $c::int::leading_zeros::__clzdi2,
            clzti2: $c::int::leading_zeros::__clzti2,
            ctzsi2: $c::int::trailing_zeros::__ctzsi2,
            ctzdi2: $c::int::trailing_zeros::__ctzdi2,
            ctzti2: $c::int::trailing_zeros::__ctzti2,
            bswapsi2: $c::int::bswap::__bswapsi2,
            bswapdi2: $c::int::bswap::__bswapdi2,
            bswapti2: $c::int::bswap::__bswapti2,
        }
    };
}

pub type Tabs = &'static [IntFns];

fn fin(bad: bool, nontrivial: bool) -> Out {
    if bad {
        Out::Fail
    } else if nontrivial {
        Out::Ok
    } else {
        Out::Trivial
    }
}

/// Dividend and divisor (as unsigned patterns) of `w` bits.
pub fn gen_div(r: &mut Rng, w: u32) -> (u128, u128) {
    let mask = u128::MAX >> (128 - w);
    let d = gen::int(r, w);
    match r.below(10) {
        0..=4 => (gen::int(r, w), d),
        // a multiple of the divisor plus a remainder at one of its ends
        5..=7 => {
            let room = if d == 0 { w } else { d.leading_zeros() - (128 - w) };
            let q = if room == 0 { r.below(2) as u128 } else { gen::int(r, room.max(1)) };
            let rem = match r.below(5) {
                0 => 0,
                1 => d.wrapping_sub(1),
                2 => 1,
                3 => d >> 1,
                _ => {
                    if d == 0 {
                        0
                    } else {
                        r.u128() % d
                    }
                }
            };
            (q.wrapping_mul(d).wrapping_add(rem) & mask, d)
        }
        // operands that agree in their leading bits, so that estimates are at their limit
        8 => {
            let n = gen::int(r, w);
            let k = r.below(w as u64) as u32;
            let d = ((n >> k) ^ (gen::int(r, w) & ((1u128 << (w / 4)) - 1))).max(1);
            (n, d & mask)
        }
        // quotient digits of all ones: divisor just above a power of two, dividend just below one
        _ => {
            let k = 1 + r.below(w as u64 - 1) as u32;
            let d = (1u128 << k).wrapping_add(gen::int(r, (k / 2).max(1))) & mask;
            let n = mask >> r.below(w as u64 / 2);
            (n.wrapping_sub(gen::int(r, w / 2)) & mask, d)
        }
    }
}

macro_rules! udiv_sub {
    ($subs:ident, $ctx:ident, $tabs:ident, $q:expr, $t:expr, $name:expr, $U:ty, $div:ident, $rem:ident, $dm:ident) => {
        $subs.push(Sub::new(
            $name,
            2,
            $ctx.n($q, $t),
            |r: &mut Rng, _, w: &mut Words| {
                let (n, d) = gen_div(r, <$U>::BITS);
                w[0] = n;
                w[1] = d;
            },
            move |w: &Words, mut log: Option<&mut String>| {
                let (n, d) = (w[0] as $U, w[1] as $U);
                if d == 0 {
                    return Out::Skip;
                }
                let mut bad = false;
                for t in $tabs {
                    let q = (t.$div)(n, d);
                    let r = (t.$rem)(n, d);
                    let mut r2 = !r;
                    let q2 = (t.$dm)(n, d, Some(&mut r2));
                    let q3 = (t.$dm)(n, d, None);
                    let good = r < d && q.checked_mul(d).and_then(|x| x.checked_add(r)) == Some(n);
                    expect!(log, bad, good, "{}: {n:#x} / {d:#x} gave {q:#x} rem {r:#x}", t.name);
                    expect!(log, bad, q2 == q && r2 == r, "{}: {n:#x} divmod {d:#x} gave {q2:#x} rem {r2:#x}, separate {q:#x} rem {r:#x}", t.name);
                    expect!(log, bad, q3 == q, "{}: {n:#x} divmod {d:#x} without remainder gave {q3:#x}, separate {q:#x}", t.name);
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{n:#x} / {d:#x} = {:#x} rem {:#x}", n / d, n % d));
                }
                fin(bad, d > 1 && n >= d)
            },
        ));
    };
}

macro_rules! sdiv_sub {
    ($subs:ident, $ctx:ident, $tabs:ident, $q:expr, $t:expr, $name:expr, $I:ty, $U:ty, $div:ident, $rem:ident, $dm:ident) => {
        $subs.push(Sub::new(
            $name,
            2,
            $ctx.n($q, $t),
            |r: &mut Rng, _, w: &mut Words| {
                let bits = <$U>::BITS - r.below(2) as u32;
                let (n, d) = gen_div(r, bits);
                let s = r.below(4);
                w[0] = (if s & 1 == 0 { n } else { n.wrapping_neg() }) as $U as u128;
                w[1] = (if s & 2 == 0 { d } else { d.wrapping_neg() }) as $U as u128;
            },
            move |w: &Words, mut log: Option<&mut String>| {
                let (n, d) = (w[0] as $U as $I, w[1] as $U as $I);
                if d == 0 {
                    return Out::Skip;
                }
                let mut bad = false;
                for t in $tabs {
                    let q = (t.$div)(n, d);
                    let r = (t.$rem)(n, d);
                    let mut r2 = !r;
                    let q2 = (t.$dm)(n, d, &mut r2);
                    // magnitudes: |n| = |q||d| + |r|, |r| < |d|, signs
                    let (na, da, qa, ra) = (n.unsigned_abs(), d.unsigned_abs(), q.unsigned_abs(), r.unsigned_abs());
                    let good = ra < da
                        && qa.checked_mul(da).and_then(|x| x.checked_add(ra)) == Some(na)
                        && (r == 0 || (r < 0) == (n < 0))
                        && (q == 0 || (q < 0) == ((n < 0) != (d < 0)) || (n == <$I>::MIN && d == -1));
                    expect!(log, bad, good, "{}: {n} / {d} gave {q} rem {r}", t.name);
                    expect!(log, bad, q2 == q && r2 == r, "{}: {n} divmod {d} gave {q2} rem {r2}, separate {q} rem {r}", t.name);
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{n} / {d} = {} rem {}", n.wrapping_div(d), n.wrapping_rem(d)));
                }
                fin(bad, d.unsigned_abs() > 1 && n.unsigned_abs() >= d.unsigned_abs())
            },
        ));
    };
}

pub fn c01(ctx: &Ctx, tabs: Tabs) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    udiv_sub!(s, ctx, tabs, 12_000_000, 300_000_000, "unsigned 32", u32, udivsi3, umodsi3, udivmodsi4);
    udiv_sub!(s, ctx, tabs, 20_000_000, 600_000_000, "unsigned 64", u64, udivdi3, umoddi3, udivmoddi4);
    udiv_sub!(s, ctx, tabs, 60_000_000, 2_000_000_000, "unsigned 128", u128, udivti3, umodti3, udivmodti4);
    sdiv_sub!(s, ctx, tabs, 8_000_000, 200_000_000, "signed 32", i32, u32, divsi3, modsi3, divmodsi4);
    sdiv_sub!(s, ctx, tabs, 12_000_000, 300_000_000, "signed 64", i64, u64, divdi3, moddi3, divmoddi4);
    sdiv_sub!(s, ctx, tabs, 24_000_000, 800_000_000, "signed 128", i128, u128, divti3, modti3, divmodti4);
    (
        Meta {
            rule: "non-trivial: |divisor| > 1 and |dividend| >= |divisor|, so the quotient is at least 1 and not the dividend itself",
            assumptions: vec!["division by zero is outside the contract and is not called".into()],
        },
        s,
    )
}

/// Factors whose product is near 2^k for the interesting k.
fn gen_mul(r: &mut Rng, w: u32) -> (u128, u128) {
    let mask = u128::MAX >> (128 - w);
    let a = gen::int(r, w);
    if r.one_in(3) {
        let lim = match r.below(4) {
            0 => mask,
            1 => mask >> 1,
            2 => (mask >> 1) + 1,
            _ => 1 << r.below(w as u64),
        };
        // the cofactor that brings the product to the limit, and its neighbours; also for -a
        let m = if r.one_in(2) { a } else { a.wrapping_neg() & mask };
        let b = if m == 0 { lim } else { (lim / m).wrapping_add(r.range(-1, 2) as u128) };
        let b = if r.one_in(2) { b } else { b.wrapping_neg() };
        return (a, b & mask);
    }
    (a, gen::int(r, w))
}

/// Exact product sign and magnitude of two 128-bit signed numbers.
fn product(a: i128, b: i128) -> (bool, vcore::big::Big) {
    ((a < 0) != (b < 0), vcore::big::Big::mul(a.unsigned_abs(), b.unsigned_abs()))
}

fn fits_signed(neg: bool, mag: &vcore::big::Big, w: u32) -> bool {
    let bits = mag.bits();
    bits < w || (bits == w && neg && !mag.any_below(w - 1))
}

macro_rules! mulo {
    ($log:ident, $bad:ident, $t:ident, $f:ident, $a:expr, $b:expr, $want:expr, $ov:expr) => {{
        let mut o = 77;
        let p = ($t.$f)($a, $b, &mut o);
        expect!($log, $bad, p == $want && (o != 0) == $ov && o != 77, "{} {}: {:#x} * {:#x} gave {:#x} overflow {}, want {:#x} overflow {}", $t.name, stringify!($f), $a, $b, p, o, $want, $ov);
    }};
}

pub fn c02(ctx: &Ctx, tabs: Tabs) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    let gen = |w: u32| {
        move |r: &mut Rng, _: u64, x: &mut Words| {
            let (a, b) = gen_mul(r, w);
            x[0] = a;
            x[1] = b;
        }
    };
    s.push(Sub::new("32 bits", 2, ctx.n(30_000_000, 1_000_000_000), gen(32), move |w, mut log| {
        let (a, b) = (w[0] as u32 as i32, w[1] as u32 as i32);
        let p = a as i64 * b as i64;
        let mut bad = false;
        for t in tabs {
            mulo!(log, bad, t, mulosi4, a, b, p as i32, p != p as i32 as i64);
        }
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{a} * {b} = {p}"));
        }
        fin(bad, a.unsigned_abs() > 1 && b.unsigned_abs() > 1)
    }));
    s.push(Sub::new("64 bits", 2, ctx.n(30_000_000, 1_000_000_000), gen(64), move |w, mut log| {
        let (a, b) = (w[0] as u64 as i64, w[1] as u64 as i64);
        let p = a as i128 * b as i128;
        let mut bad = false;
        for t in tabs {
            let q = (t.muldi3)(a as u64, b as u64);
            expect!(log, bad, q == p as u64, "{}: {a:#x} * {b:#x} gave {q:#x}, want {:#x}", t.name, p as u64);
            mulo!(log, bad, t, mulodi4, a, b, p as i64, p != p as i64 as i128);
        }
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{a} * {b} = {p}"));
        }
        fin(bad, a.unsigned_abs() > 1 && b.unsigned_abs() > 1)
    }));
    s.push(Sub::new("128 bits signed", 2, ctx.n(16_000_000, 600_000_000), gen(128), move |w, mut log| {
        let (a, b) = (w[0] as i128, w[1] as i128);
        let (neg, mag) = product(a, b);
        let low = if neg { mag.low().wrapping_neg() } else { mag.low() } as i128;
        let ov = !fits_signed(neg, &mag, 128);
        let mut bad = false;
        for t in tabs {
            let q = (t.multi3)(a, b);
            expect!(log, bad, q == low, "{}: {a:#x} * {b:#x} gave {q:#x}, want {low:#x}", t.name);
            mulo!(log, bad, t, muloti4, a, b, low, ov);
            mulo!(log, bad, t, i128_mulo, a, b, low, ov);
        }
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{a} * {b} wraps to {low}, overflow {ov}"));
        }
        fin(bad, a.unsigned_abs() > 1 && b.unsigned_abs() > 1)
    }));
    s.push(Sub::new("128 bits unsigned", 2, ctx.n(16_000_000, 600_000_000), gen(128), move |w, mut log| {
        let (a, b) = (w[0], w[1]);
        let p = vcore::big::Big::mul(a, b);
        let ov = p.bits() > 128;
        let mut bad = false;
        for t in tabs {
            mulo!(log, bad, t, u128_mulo, a, b, p.low(), ov);
        }
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{a} * {b} wraps to {}, overflow {ov}", p.low()));
        }
        fin(bad, a > 1 && b > 1)
    }));
    (
        Meta { rule: "non-trivial: both factors have magnitude above 1", assumptions: vec![] },
        s,
    )
}

pub fn c03(ctx: &Ctx, tabs: Tabs) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    s.push(Sub::new(
        "add and subtract, 128 bits",
        2,
        ctx.n(80_000_000, 3_000_000_000),
        |r: &mut Rng, _, w: &mut Words| {
            let a = gen::int(r, 128);
            w[0] = a;
            w[1] = match r.below(4) {
                // close to where the sum or difference wraps
                0 => {
                    let lim = match r.below(4) {
                        0 => u128::MAX,
                        1 => i128::MAX as u128,
                        2 => 0,
                        _ => 1 << r.below(128),
                    };
                    let b = if r.one_in(2) { lim.wrapping_sub(a) } else { a.wrapping_sub(lim) };
                    b.wrapping_add(r.range(-2, 2) as u128)
                }
                _ => gen::int(r, 128),
            };
        },
        move |w, mut log| {
            let (a, b) = (w[0], w[1]);
            let (ah, al, bh, bl) = (a >> 64, a & u64::MAX as u128, b >> 64, b & u64::MAX as u128);
            // by hand on 64-bit halves
            let lo = al + bl;
            let hi = ah + bh + (lo >> 64);
            let sum = hi << 64 | (lo & u64::MAX as u128);
            let ucarry = hi >> 64 != 0;
            let dif = a.wrapping_add(!b).wrapping_add(1);
            let uborrow = a < b;
            let (sa, sb) = ((a as i128) < 0, (b as i128) < 0);
            let sov = sa == sb && ((sum as i128) < 0) != sa;
            let dov = sa != sb && ((dif as i128) < 0) != sa;
            let mut bad = false;
            for t in tabs {
                let (x, y) = (a as i128, b as i128);
                expect!(log, bad, (t.u128_add)(a, b) == sum, "{}: u {a:#x} + {b:#x} gave {:#x}", t.name, (t.u128_add)(a, b));
                expect!(log, bad, (t.i128_add)(x, y) == sum as i128, "{}: i {a:#x} + {b:#x} gave {:#x}", t.name, (t.i128_add)(x, y));
                expect!(log, bad, (t.u128_sub)(a, b) == dif, "{}: u {a:#x} - {b:#x} gave {:#x}", t.name, (t.u128_sub)(a, b));
                expect!(log, bad, (t.i128_sub)(x, y) == dif as i128, "{}: i {a:#x} - {b:#x} gave {:#x}", t.name, (t.i128_sub)(x, y));
                mulo!(log, bad, t, u128_addo, a, b, sum, ucarry);
                mulo!(log, bad, t, i128_addo, x, y, sum as i128, sov);
                mulo!(log, bad, t, u128_subo, a, b, dif, uborrow);
                mulo!(log, bad, t, i128_subo, x, y, dif as i128, dov);
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{a:#x} and {b:#x}: sum {sum:#x} carry {ucarry} overflow {sov}, difference {dif:#x} borrow {uborrow} overflow {dov}"));
            }
            fin(bad, a != 0 && b != 0)
        },
    ));
    (Meta { rule: "non-trivial: both operands non-zero", assumptions: vec![] }, s)
}

macro_rules! shift_checks {
    ($log:ident, $bad:ident, $t:ident, $U:ty, $I:ty, $x:expr, $n:expr, $shl:ident, $sar:ident, $shr:ident) => {{
        let (x, n) = ($x as $U, $n);
        // multiplication and division by a power of two
        let top = x >> (<$U>::BITS - 1) & 1;
        let p = 1u128 << n;
        let l = (x as u128).wrapping_mul(p) as $U;
        let r = (x as u128 / p) as $U;
        let a = if top == 1 { !((!x) as u128 / p) as $U } else { r };
        let g = ($t.$shl)(x, n);
        expect!($log, $bad, g == l, "{} {}: {x:#x} << {n} gave {g:#x}, want {l:#x}", $t.name, stringify!($shl));
        let g = ($t.$shr)(x, n);
        expect!($log, $bad, g == r, "{} {}: {x:#x} >> {n} gave {g:#x}, want {r:#x}", $t.name, stringify!($shr));
        let g = ($t.$sar)(x as $I, n) as $U;
        expect!($log, $bad, g == a, "{} {}: {x:#x} >> {n} (arithmetic) gave {g:#x}, want {a:#x}", $t.name, stringify!($sar));
    }};
}

pub fn c04(ctx: &Ctx, tabs: Tabs, extra_clz: &'static [(&'static str, fn(u64, u32) -> usize)]) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    s.push(Sub::new(
        "shifts",
        2,
        ctx.n(16_000_000, 500_000_000),
        |r: &mut Rng, i, w: &mut Words| {
            w[0] = gen::int(r, 128);
            // every shift amount of every width in turn
            w[1] = (i % 128) as u128;
        },
        move |w, mut log| {
            let x = w[0];
            let n = w[1] as u32;
            if n >= 128 {
                return Out::Skip;
            }
            let mut bad = false;
            for t in tabs {
                shift_checks!(log, bad, t, u128, i128, x, n, ashlti3, ashrti3, lshrti3);
                for part in [x as u64, (x >> 64) as u64] {
                    shift_checks!(log, bad, t, u64, i64, part, n % 64, ashldi3, ashrdi3, lshrdi3);
                }
                for part in [x as u32, (x >> 96) as u32] {
                    shift_checks!(log, bad, t, u32, i32, part, n % 32, ashlsi3, ashrsi3, lshrsi3);
                }
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{x:#x} shifted by {n} (and its parts by {} and {})", n % 64, n % 32));
            }
            fin(bad, x != 0 && n != 0)
        },
    ));
    s.push(Sub::new(
        "leading zeros, trailing zeros, byte swap",
        1,
        ctx.n(16_000_000, 500_000_000),
        |r: &mut Rng, i, w: &mut Words| {
            w[0] = match i % 4 {
                // leading one at every position, random below; trailing one at every position, random above
                0 => (r.u128() | 1 << 127) >> ((i / 4) % 128),
                1 => (r.u128() | 1) << ((i / 4) % 128),
                _ => gen::int(r, 128),
            }
        },
        move |w, mut log| {
            let x = w[0];
            if x == 0 {
                return Out::Skip;
            }
            let lead = |x: u128, w: u32| (0..w).find(|i| x >> (w - 1 - i) & 1 == 1).unwrap() as usize;
            let trail = |x: u128, w: u32| (0..w).find(|i| x >> i & 1 == 1).unwrap() as usize;
            let parts64 = [x as u64, (x >> 64) as u64];
            let parts32 = [x as u32, (x >> 32) as u32, (x >> 64) as u32, (x >> 96) as u32];
            let mut bad = false;
            let (lx, tx) = (lead(x, 128), trail(x, 128));
            let l64 = parts64.map(|p| if p == 0 { 0 } else { lead(p as u128, 64) });
            let t64 = parts64.map(|p| if p == 0 { 0 } else { trail(p as u128, 64) });
            let l32 = parts32.map(|p| if p == 0 { 0 } else { lead(p as u128, 32) });
            let t32 = parts32.map(|p| if p == 0 { 0 } else { trail(p as u128, 32) });
            let rev = |x: u128, n: u32| (0..n).fold(0u128, |a, i| a << 8 | (x >> (8 * i) & 0xff));
            for t in tabs {
                let g = (t.clzti2)(x);
                expect!(log, bad, g == lx, "{}: clz({x:#x}) gave {g}", t.name);
                let g = (t.ctzti2)(x);
                expect!(log, bad, g == tx, "{}: ctz({x:#x}) gave {g}", t.name);
                let g = (t.bswapti2)(x);
                expect!(log, bad, g == rev(x, 16), "{}: bswap({x:#x}) gave {g:#x}", t.name);
                for (i, p) in parts64.into_iter().enumerate() {
                    let g = (t.bswapdi2)(p);
                    expect!(log, bad, g as u128 == rev(p as u128, 8), "{}: bswap64({p:#x}) gave {g:#x}", t.name);
                    if p != 0 {
                        let g = (t.clzdi2)(p);
                        expect!(log, bad, g == l64[i], "{}: clz64({p:#x}) gave {g}", t.name);
                        let g = (t.ctzdi2)(p);
                        expect!(log, bad, g == t64[i], "{}: ctz64({p:#x}) gave {g}", t.name);
                    }
                }
                for (i, p) in parts32.into_iter().enumerate() {
                    let g = (t.bswapsi2)(p);
                    expect!(log, bad, g as u128 == rev(p as u128, 4), "{}: bswap32({p:#x}) gave {g:#x}", t.name);
                    if p != 0 {
                        let g = (t.clzsi2)(p);
                        expect!(log, bad, g == l32[i], "{}: clz32({p:#x}) gave {g}", t.name);
                        let g = (t.ctzsi2)(p);
                        expect!(log, bad, g == t32[i], "{}: ctz32({p:#x}) gave {g}", t.name);
                    }
                }
            }
            for (name, f) in extra_clz {
                for (i, p) in parts64.into_iter().enumerate() {
                    if p != 0 {
                        let g = f(p, 64);
                        expect!(log, bad, g == l64[i], "{name}: leading zeros of 64-bit {p:#x} gave {g}");
                    }
                }
                for (i, p) in parts32.into_iter().enumerate() {
                    if p != 0 {
                        let g = f(p as u64, 32);
                        expect!(log, bad, g == l32[i], "{name}: leading zeros of 32-bit {p:#x} gave {g}");
                    }
                }
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{x:#x}: {lx} leading, {tx} trailing zeros"));
            }
            fin(bad, x & (x - 1) != 0)
        },
    ));
    (
        Meta {
            rule: "shifts: value and amount non-zero; counts and swaps: more than one bit set",
            assumptions: vec!["shift amounts at or above the width, and counting the zeros of zero, are outside the contract".into()],
        },
        s,
    )
}
