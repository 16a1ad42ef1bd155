//! Special values, symmetries, signs and ranges.
use vcore::gen;
use vcore::sf::{Fmt, F32, F64};
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::libmfns::{Kind, Route};
use vrt::{expect, libm_plain};

use crate::args;

/// The base name and format of a 32- or 64-bit function.
fn base(rt: &Route) -> (&'static str, &'static Fmt) {
    let k = *rt.args.iter().find(|k| **k != Kind::I).unwrap();
    let n = rt.name;
    match k {
        Kind::S if n == "lgammaf_r" => ("lgamma_r", &F32),
        Kind::S => (&n[..n.len() - 1], &F32),
        Kind::D => (n, &F64),
        Kind::H => (&n[..n.len() - 3], args::fmt(k).unwrap()),
        _ => (&n[..n.len() - 4], args::fmt(k).unwrap()),
    }
}

fn c(f: &Fmt, v: f64) -> u128 {
    F64.convert(v.to_bits() as u128, f)
}

fn is_int(f: &Fmt, x: u128) -> bool {
    f.is_finite(x) && f.round_int(x, 2) == x
}

/// Odd integer value.
fn is_odd(f: &Fmt, x: u128) -> bool {
    if !is_int(f, x) || f.is_zero(x) {
        return false;
    }
    // an even integer's half is an integer; halving is exact here since |x| >= 1
    let e = f.exp_field(x) as u128;
    let half = (x & !(f.inf())) | (e - 1) << f.mant;
    !is_int(f, half)
}

pub enum Want {
    /// This value (NaN matches NaN).
    Is(u128),
    /// A zero of either sign.
    Zero,
    /// Within one step of this value.
    Near(u128),
    Free,
}
use Want::*;

/// What the C standard's Annex F prescribes for one argument.
pub fn unary(name: &str, f: &Fmt, x: u128) -> Want {
    let s = x & f.sign();
    let neg = s != 0;
    let zero = f.is_zero(x);
    let inf = f.is_inf(x);
    let one = f.one();
    let nan = Is(f.nan());
    if f.is_nan(x) {
        return nan;
    }
    let below = |v: f64| f.lt(x, c(f, v));
    let above = |v: f64| f.lt(c(f, v), x);
    match name {
        "acos" if above(1.0) || below(-1.0) => nan,
        "acos" if x == one => Is(0),
        "acos" if zero => Near(c(f, std::f64::consts::FRAC_PI_2)),
        "acosh" if below(1.0) => nan,
        "acosh" if x == one => Is(0),
        "acosh" if inf => Is(x),
        "asin" if above(1.0) || below(-1.0) => nan,
        "atan" if inf => Near(s | c(f, std::f64::consts::FRAC_PI_2)),
        "atanh" if above(1.0) || below(-1.0) => nan,
        "atanh" if x & f.mag() == one => Is(s | f.inf()),
        "asin" | "asinh" | "atan" | "atanh" | "cbrt" | "erf" | "expm1" | "log1p" | "sin" | "sinh" | "tan" | "tanh" | "rint" | "round" | "roundeven"
        | "trunc" | "ceil" | "floor" | "sqrt"
            if zero =>
        {
            Is(x)
        }
        "asinh" | "cbrt" | "sinh" | "ceil" | "floor" | "trunc" | "rint" | "round" | "roundeven" if inf => Is(x),
        "cos" | "cosh" | "exp" | "exp2" | "exp10" | "erfc" | "j0" if zero => Is(one),
        "cos" | "sin" | "tan" if inf => nan,
        "cosh" | "fabs" if inf => Is(f.inf()),
        "erf" | "tanh" if inf => Is(s | one),
        "erfc" if inf => Is(if neg { c(f, 2.0) } else { 0 }),
        "exp" | "exp2" | "exp10" if inf => Is(if neg { 0 } else { f.inf() }),
        "expm1" if inf => Is(if neg { s | one } else { x }),
        "fabs" => Is(x & f.mag()),
        "j0" | "j1" if inf => Zero,
        "j1" if zero => Is(x),
        "lgamma" if inf => Is(f.inf()),
        "lgamma" if x == one || x == c(f, 2.0) => Is(0),
        "lgamma" if zero || neg && is_int(f, x) => Is(f.inf()),
        "log" | "log2" | "log10" if zero => Is(f.inf() | f.sign()),
        "log" | "log2" | "log10" if neg => nan,
        "log" | "log2" | "log10" if x == one => Is(0),
        "log" | "log2" | "log10" | "log1p" | "sqrt" if inf && !neg => Is(x),
        "log1p" if below(-1.0) => nan,
        "log1p" if x == f.sign() | one => Is(f.sign() | f.inf()),
        "sqrt" if neg => nan,
        "tgamma" if zero => Is(s | f.inf()),
        "tgamma" if neg && (inf || is_int(f, x)) => nan,
        "tgamma" if inf => Is(x),
        "y0" | "y1" if zero => Is(f.sign() | f.inf()),
        "y0" | "y1" if neg => nan,
        "y0" | "y1" if inf => Zero,
        _ => Free,
    }
}

fn pow_want(f: &Fmt, x: u128, y: u128) -> Want {
    let one = f.one();
    let (sx, sy) = (f.is_neg(x), f.is_neg(y));
    if x == one || f.is_zero(y) {
        return Is(one);
    }
    if f.is_nan(x) || f.is_nan(y) {
        return Is(f.nan());
    }
    let odd = is_odd(f, y);
    let sign = if sx && odd { f.sign() } else { 0 };
    if f.is_zero(x) {
        return Is(sign | if sy { f.inf() } else { 0 });
    }
    if x == one | f.sign() && f.is_inf(y) {
        return Is(one);
    }
    if f.is_inf(y) {
        let small = (x & f.mag()) < one;
        return Is(if small == sy { f.inf() } else { 0 });
    }
    if f.is_inf(x) {
        return Is(sign | if sy { 0 } else { f.inf() });
    }
    if sx && !is_int(f, y) {
        return Is(f.nan());
    }
    Free
}

fn atan2_want(f: &Fmt, y: u128, x: u128) -> Want {
    use std::f64::consts::*;
    if f.is_nan(x) || f.is_nan(y) {
        return Is(f.nan());
    }
    let s = y & f.sign();
    let near = |v: f64| Near(s | c(f, v));
    match (f.is_zero(y), f.is_inf(y), f.is_neg(x)) {
        (true, _, false) => Is(y),
        (true, _, true) => near(PI),
        (_, true, nx) if f.is_inf(x) => near(if nx { 3.0 * FRAC_PI_4 } else { FRAC_PI_4 }),
        (_, true, _) => near(FRAC_PI_2),
        _ if f.is_zero(x) => near(FRAC_PI_2),
        (_, _, nx) if f.is_inf(x) => if nx { near(PI) } else { Is(s) },
        _ => Free,
    }
}

pub fn binary(name: &str, f: &Fmt, x: u128, y: u128) -> Want {
    let nan = f.is_nan(x) || f.is_nan(y);
    match name {
        "pow" => pow_want(f, x, y),
        "atan2" => atan2_want(f, x, y),
        "hypot" if f.is_inf(x) || f.is_inf(y) => Is(f.inf()),
        "fmin" | "fmax" | "fminimum_num" | "fmaximum_num" | "copysign" => Free,
        _ if nan => Is(f.nan()),
        "fmod" | "remainder" if f.is_inf(x) || f.is_zero(y) => Is(f.nan()),
        "fmod" | "remainder" if f.is_zero(x) || f.is_inf(y) => Is(x),
        "hypot" if f.is_zero(x) => Is(y & f.mag()),
        "hypot" if f.is_zero(y) => Is(x & f.mag()),
        _ => Free,
    }
}

/// Range and sign of a result that is a number, for an argument that is one.
pub fn in_range(name: &str, f: &Fmt, x: u128, r: u128) -> bool {
    use std::f64::consts::PI;
    let mag = r & f.mag();
    let up = |v: f64| c(f, v) + 1;
    let one = f.one();
    let xneg = f.is_neg(x);
    let sign_of_x = f.is_neg(r) == xneg;
    match name {
        "sin" | "cos" => mag <= one,
        "tanh" | "erf" => mag <= one && sign_of_x,
        "j0" | "j1" => mag <= one,
        "erfc" => !f.is_neg(r) && r <= c(f, 2.0),
        "exp" | "exp2" | "exp10" => !f.is_neg(r) && (xneg && r <= one || !xneg && r >= one),
        "expm1" => sign_of_x && (!f.is_neg(r) || mag <= one),
        "cosh" => !f.is_neg(r) && r >= one,
        "acos" => !f.is_neg(r) && r <= up(PI),
        "asin" | "atan" => sign_of_x && mag <= up(PI / 2.0),
        "acosh" | "sqrt" => !f.is_neg(r) || f.is_zero(x),
        "sinh" => sign_of_x && mag >= x & f.mag(),
        "asinh" => sign_of_x && mag <= x & f.mag(),
        "atanh" | "cbrt" => sign_of_x,
        "log" | "log2" | "log10" => f.is_neg(r) == (x < one),
        "log1p" => sign_of_x,
        "y0" | "y1" => f.is_neg(r) || mag <= one,
        "tgamma" => {
            if !xneg {
                !f.is_neg(r)
            } else {
                // negative between -1 and 0, positive between -2 and -1, and so on
                f.is_neg(r) == is_odd(f, f.round_int(x, 0))
            }
        }
        "ceil" => f.ord(r) >= f.ord(x),
        "floor" => f.ord(r) <= f.ord(x) || f.is_zero(x),
        "trunc" | "fabs" => mag <= x & f.mag(),
        _ => true,
    }
}

pub const ODD: &[&str] = &["asin", "asinh", "atan", "atanh", "cbrt", "erf", "sin", "sinh", "tan", "tanh", "rint", "round", "roundeven", "trunc", "j1"];
pub const EVEN: &[&str] = &["cos", "cosh", "fabs", "j0"];

pub fn meets(f: &Fmt, want: &Want, got: u128) -> bool {
    match want {
        Is(v) => f.same(got, *v),
        Zero => f.is_zero(got),
        Near(v) => !f.is_nan(got) && f.is_neg(got) == f.is_neg(*v) && f.ulps(got, *v) <= 1,
        Free => true,
    }
}

pub fn show(f: &Fmt, want: &Want) -> String {
    match want {
        Is(v) => f.show(*v),
        Zero => "a zero".into(),
        Near(v) => format!("about {}", f.show(*v)),
        Free => "anything".into(),
    }
}

fn gen1(r: &mut Rng, f: &Fmt) -> u128 {
    match r.below(8) {
        0 => {
            let v = gen::specials(f);
            v[r.below(v.len() as u64) as usize]
        }
        // NaN with any payload
        1 => f.inf() | (r.u128() & f.frac()).max(1) | (r.u128() & f.sign()),
        // integers of either sign
        2 => f.round_int(gen::small(r, f), 2) | (r.u128() & f.sign()),
        _ => gen::float(r, f),
    }
}

pub fn c34(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    let (a, b, i) = (libm_plain!(l1), libm_plain!(l2), libm_plain!(l3));
    for ((rt, rt2), rt3) in a.into_iter().zip(b).zip(i) {
        let (name, f) = base(&rt);
        let builds: [(&'static str, Route); 3] = [("arch", rt), ("portable", rt2), ("intrinsics", rt3)];
        match rt.args {
            [_] => {
                let odd = ODD.contains(&name);
                let even = EVEN.contains(&name);
                let check = move |w: &Words, mut log: Option<&mut String>| {
                    let x = w[0] & f.all();
                    let mut flip = *w;
                    flip[0] = x ^ f.sign();
                    let mut bad = false;
                    let mut ruled = odd || even;
                    for (lib, rt) in &builds {
                        let g = (rt.call)(w);
                        match name {
                            "frexp" | "modf" | "sincos" | "lgamma_r" | "ilogb" => {
                                if name == "ilogb" {
                                    continue;
                                }
                                if f.is_nan(x) {
                                    ruled = true;
                                    expect!(log, bad, f.is_nan(g[0]), "{lib} {}(NaN) gave {}", rt.name, f.show(g[0]));
                                } else if name == "lgamma_r" && !f.is_inf(x) {
                                    ruled = true;
                                    // sign of gamma; unspecified at the poles below zero
                                    let pole = f.is_neg(x) && !f.is_zero(x) && is_int(f, x);
                                    let want = if f.is_zero(x) { if f.is_neg(x) { -1 } else { 1 } } else if f.is_neg(x) && is_odd(f, f.round_int(x, 0)) { -1 } else { 1 };
                                    expect!(log, bad, pole || g[1] as u32 as i32 == want, "{lib} {}({}) reported sign {}, want {want}", rt.name, f.show(x), g[1] as u32 as i32);
                                }
                                continue;
                            }
                            _ => {}
                        }
                        let want = unary(name, f, x);
                        ruled |= !matches!(want, Free);
                        expect!(log, bad, meets(f, &want, g[0]), "{lib} {}({}) gave {}, want {}", rt.name, f.show(x), f.show(g[0]), show(f, &want));
                        if !f.is_nan(x) && !f.is_zero(x) && !f.is_nan(g[0]) {
                            expect!(log, bad, in_range(name, f, x, g[0]), "{lib} {}({}) gave {}, outside the function's range", rt.name, f.show(x), f.show(g[0]));
                        }
                        if odd || even {
                            let m = (rt.call)(&flip);
                            let want = if odd { g[0] ^ f.sign() } else { g[0] };
                            // no sign is prescribed for the zero at infinity
                            let at_inf = name == "j1" && f.is_inf(x) && f.is_zero(m[0]);
                            expect!(log, bad, f.same(m[0], want) || at_inf, "{lib} {}({}) gave {} but the argument with its sign changed gave {}", rt.name, f.show(x), f.show(g[0]), f.show(m[0]));
                        }
                    }
                    if let (false, Some(l)) = (bad, log) {
                        l.push_str(&format!("{}({}) = {}", rt.name, f.show(x), args::show(rt.rets[0], (rt.call)(w)[0])));
                    }
                    if bad {
                        Out::Fail
                    } else if ruled {
                        Out::Ok
                    } else {
                        Out::Trivial
                    }
                };
                if f.bits == 16 {
                    s.push(Sub::new(format!("{} [all]", rt.name), 1, 1 << f.bits, |_: &mut Rng, i, w: &mut Words| w[0] = i as u128, check).enumerated());
                } else {
                    if f.bits == 32 && ctx.thorough {
                        s.push(Sub::new(format!("{} grid", rt.name), 1, 1 << 27, |r: &mut Rng, i, w: &mut Words| w[0] = (i << 5 | r.below(32)) as u128, check).enumerated());
                    }
                    s.push(Sub::new(rt.name, 1, ctx.n(1_200_000, 30_000_000), move |r: &mut Rng, _, w: &mut Words| w[0] = gen1(r, f), check).unit(1 << 12));
                }
            }
            [Kind::I, _] => {
                s.push(
                    Sub::new(
                        rt.name,
                        2,
                        ctx.n(60_000, 3_000_000),
                        move |r: &mut Rng, _, w: &mut Words| {
                            w[0] = r.range(-60, 60) as i32 as u32 as u128;
                            w[1] = gen1(r, f);
                        },
                        move |w, mut log| {
                            let n = (w[0] as u32 as i32).clamp(-100_000, 100_000);
                            let x = w[1] & f.all();
                            let mut bad = false;
                            let mut ruled = true;
                            let at = |n: i32, x: u128, rt: &Route| {
                                let mut v = *w;
                                v[0] = n as u32 as u128;
                                v[1] = x;
                                (rt.call)(&v)[0]
                            };
                            for (lib, rt) in &builds {
                                let g = at(n, x, rt);
                                let second = name == "yn";
                                let odd = n % 2 != 0;
                                let flip = |v: u128, b: bool| if b && !f.is_nan(v) { v ^ f.sign() } else { v };
                                if f.is_nan(x) {
                                    expect!(log, bad, f.is_nan(g), "{lib} {}({n}, NaN) gave {}", rt.name, f.show(g));
                                } else if second && f.is_zero(x) {
                                    // minus infinity; the reflection changes its sign for odd negative orders
                                    expect!(log, bad, f.is_inf(g) && (n < 0 && odd || f.is_neg(g)), "{lib} {}({n}, {}) gave {}", rt.name, f.show(x), f.show(g));
                                } else if second && f.is_neg(x) {
                                    expect!(log, bad, f.is_nan(g), "{lib} {}({n}, {}) gave {}", rt.name, f.show(x), f.show(g));
                                } else {
                                    let zeros = |a: u128, b: u128| f.same(a, b) || f.is_zero(a) && f.is_zero(b);
                                    let m = at(-n, x, rt);
                                    expect!(log, bad, zeros(m, flip(g, odd)), "{lib} {}({n}, {}) gave {} but order {} gave {}", rt.name, f.show(x), f.show(g), -n, f.show(m));
                                    if !second {
                                        let m = at(n, x ^ f.sign(), rt);
                                        expect!(log, bad, zeros(m, flip(g, odd)), "{lib} {}({n}, {}) gave {} but the argument with its sign changed gave {}", rt.name, f.show(x), f.show(g), f.show(m));
                                        expect!(log, bad, g & f.mag() <= f.one(), "{lib} {}({n}, {}) gave {}, above 1", rt.name, f.show(x), f.show(g));
                                        if f.is_inf(x) || f.is_zero(x) && n != 0 {
                                            expect!(log, bad, f.is_zero(g), "{lib} {}({n}, {}) gave {}", rt.name, f.show(x), f.show(g));
                                        }
                                    } else if f.is_inf(x) {
                                        expect!(log, bad, f.is_zero(g), "{lib} {}({n}, {}) gave {}", rt.name, f.show(x), f.show(g));
                                    }
                                    ruled = n != 0;
                                }
                            }
                            if let (false, Some(l)) = (bad, log) {
                                l.push_str(&format!("{}({n}, {}) = {}", rt.name, f.show(x), f.show(at(n, x, &rt))));
                            }
                            if bad {
                                Out::Fail
                            } else if ruled {
                                Out::Ok
                            } else {
                                Out::Trivial
                            }
                        },
                    )
                    .unit(1 << 10),
                );
            }
            [_, Kind::I] => {}
            [_, _] => {
                if name == "remquo" {
                    continue;
                }
                s.push(
                    Sub::new(
                        rt.name,
                        2,
                        ctx.n(1_200_000, 30_000_000),
                        move |r: &mut Rng, _, w: &mut Words| {
                            if r.one_in(2) {
                                args::gen(r, &rt, w);
                            } else {
                                w[0] = gen1(r, f);
                                w[1] = gen1(r, f);
                            }
                        },
                        move |w, mut log| {
                            let (x, y) = (w[0] & f.all(), w[1] & f.all());
                            let want = binary(name, f, x, y);
                            let at = |x: u128, y: u128, rt: &Route| {
                                let mut v = *w;
                                v[0] = x;
                                v[1] = y;
                                (rt.call)(&v)[0]
                            };
                            let mut bad = false;
                            let mut ruled = !matches!(want, Free);
                            for (lib, rt) in &builds {
                                let g = at(x, y, rt);
                                expect!(log, bad, meets(f, &want, g), "{lib} {}({}, {}) gave {}, want {}", rt.name, f.show(x), f.show(y), f.show(g), show(f, &want));
                                let neg = |v: u128| if f.is_nan(v) { v } else { v ^ f.sign() };
                                let mut sym = |what: &str, got: u128, want: u128| {
                                    ruled = true;
                                    expect!(log, bad, f.same(got, want), "{lib} {}({}, {}) gave {} but with {what} it gave {}", rt.name, f.show(x), f.show(y), f.show(g), f.show(got));
                                };
                                match name {
                                    "atan2" => sym("the first sign changed", at(x ^ f.sign(), y, rt), neg(g)),
                                    "fmod" | "remainder" => {
                                        sym("the first sign changed", at(x ^ f.sign(), y, rt), neg(g));
                                        sym("the second sign changed", at(x, y ^ f.sign(), rt), g);
                                    }
                                    "hypot" => {
                                        sym("both signs changed", at(x ^ f.sign(), y ^ f.sign(), rt), g);
                                        sym("operands swapped", at(y, x, rt), g);
                                    }
                                    "pow" if is_int(f, y) && !f.is_nan(x) => {
                                        let w = if is_odd(f, y) { neg(g) } else { g };
                                        sym("the base's sign changed", at(x ^ f.sign(), y, rt), w);
                                    }
                                    "nextafter" => sym("both signs changed", at(x ^ f.sign(), y ^ f.sign(), rt), if f.is_nan(g) { g } else { g ^ f.sign() }),
                                    _ => {}
                                }
                                if name == "pow" && !f.is_nan(g) && !f.is_neg(x) {
                                    expect!(log, bad, !f.is_neg(g), "{lib} {}({}, {}) gave {}", rt.name, f.show(x), f.show(y), f.show(g));
                                }
                            }
                            if let (false, Some(l)) = (bad, log) {
                                l.push_str(&format!("{}({}, {}) = {}", rt.name, f.show(x), f.show(y), f.show(at(x, y, &rt))));
                            }
                            if bad {
                                Out::Fail
                            } else if ruled {
                                Out::Ok
                            } else {
                                Out::Trivial
                            }
                        },
                    )
                    .unit(1 << 12),
                );
            }
            _ => {
                // fused multiply-add: products do not depend on order or on a pair of signs
                s.push(
                    Sub::new(
                        rt.name,
                        3,
                        ctx.n(1_200_000, 30_000_000),
                        move |r: &mut Rng, _, w: &mut Words| args::gen(r, &rt, w),
                        move |w, mut log| {
                            let (x, y, z) = (w[0] & f.all(), w[1] & f.all(), w[2] & f.all());
                            let mut bad = false;
                            for (lib, rt) in &builds {
                                let at = |x: u128, y: u128, z: u128| {
                                    let mut v = *w;
                                    v[0] = x;
                                    v[1] = y;
                                    v[2] = z;
                                    (rt.call)(&v)[0]
                                };
                                let g = at(x, y, z);
                                let n = f.is_nan(x) || f.is_nan(y) || f.is_nan(z);
                                expect!(log, bad, !n || f.is_nan(g), "{lib} {} of a NaN gave {}", rt.name, f.show(g));
                                let a = at(y, x, z);
                                let b = at(x ^ f.sign(), y ^ f.sign(), z);
                                expect!(log, bad, f.same(a, g) && f.same(b, g), "{lib} {}({}, {}, {}) gave {}, swapped {}, signs changed {}", rt.name, f.show(x), f.show(y), f.show(z), f.show(g), f.show(a), f.show(b));
                                if !f.is_nan(g) && !f.is_zero(g) {
                                    let m = at(x ^ f.sign(), y, z ^ f.sign());
                                    expect!(log, bad, m == g ^ f.sign(), "{lib} {}({}, {}, {}) gave {}, negated {}", rt.name, f.show(x), f.show(y), f.show(z), f.show(g), f.show(m));
                                }
                            }
                            if let (false, Some(l)) = (bad, log) {
                                l.push_str(&format!("{}({}, {}, {}) = {}", rt.name, f.show(x), f.show(y), f.show(z), f.show((rt.call)(w)[0])));
                            }
                            if bad {
                                Out::Fail
                            } else {
                                Out::Ok
                            }
                        },
                    )
                    .unit(1 << 12),
                );
            }
        }
    }
    (
        Meta {
            rule: "non-trivial: a rule applies to the case (a prescribed result, or a symmetry of the function)",
            assumptions: vec!["results the C standard gives as multiples of pi may be one step from the nearest value".into(), "the sign of a zero result of the general Bessel functions is not judged".into()],
        },
        s,
    )
}
