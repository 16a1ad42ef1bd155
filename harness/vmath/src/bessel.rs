//! Bessel functions of the first and second kind.
use vcore::gen;
use vcore::mp::{self, Dd, Mp};
use vcore::sf::{Fmt, F32, F64};
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::libmfns::Route;
use vrt::{expect, libm_plain};

use crate::acc::{bits, find, val, within};

/// Size of the oscillation at x, or of the value itself before the oscillation starts.
fn scale(n: i32, x: f64, want: f64) -> f64 {
    let (n, x) = (n.unsigned_abs() as f64, x.abs());
    if x >= n.max(1.0) {
        want.abs().max((std::f64::consts::FRAC_2_PI / x).sqrt())
    } else if n == 0.0 {
        want.abs().max(0.5)
    } else {
        want.abs()
    }
}

/// Error allowed, in units of the format's epsilon times the scale.
fn allowed(n: i32) -> f64 {
    8.0 * (1.0 + n.unsigned_abs() as f64)
}

fn excess(f: &Fmt, n: i32, x: f64, got: f64, want: Dd) -> f64 {
    let eps = if f.bits == 32 { f32::EPSILON as f64 } else { f64::EPSILON };
    let tiny = if f.bits == 32 { f32::from_bits(1) as f64 } else { f64::from_bits(1) };
    let err = ((got - want.hi) - want.lo).abs();
    err / (eps * scale(n, x, want.hi) + tiny)
}

fn gen_x(r: &mut Rng, f: &Fmt, n: i32) -> u128 {
    match r.below(8) {
        0 | 1 => gen::float(r, f),
        2 | 3 => within(r, f, [-40.0, 40.0]),
        4 => within(r, f, [0.0, 3000.0]),
        5 => within(r, f, [0.0, 12.0]),
        // around the order, where the methods change
        _ => {
            let n = n.unsigned_abs() as f64 + 0.1;
            within(r, f, [0.2 * n, 3.0 * n])
        }
    }
}

pub fn c32(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    let table = libm_plain!(l1);
    for f in [&F32, &F64] {
        let f: &'static Fmt = f;
        for second in [false, true] {
            let general = *find(&table, if second { "yn" } else { "jn" }, f);
            let zero = *find(&table, if second { "y0" } else { "j0" }, f);
            let one = *find(&table, if second { "y1" } else { "j1" }, f);
            let at = move |n: i32, x: u128| {
                let mut w = [0; 8];
                w[0] = n as u32 as u128;
                w[1] = x;
                (general.call)(&w)[0]
            };
            let dedicated = move |rt: &Route, x: u128| {
                let mut w = [0; 8];
                w[0] = x;
                (rt.call)(&w)[0]
            };
            let reference = move |n: i32, x: f64| -> Dd {
                match (second, n) {
                    (false, 0) => mp::ld::j0(x),
                    (false, 1) => mp::ld::j1(x),
                    (false, _) => mp::ld::jn(n, x),
                    (true, 0) => mp::ld::y0(x),
                    (true, 1) => mp::ld::y1(x),
                    (true, _) => mp::ld::yn(n, x),
                }
            };
            let exact = move |n: i32, x: f64| -> Mp {
                if second {
                    mp::yn(n, x)
                } else {
                    mp::jn(n, x)
                }
            };
            let check = move |w: &Words, mut log: Option<&mut String>| {
                let n = (w[0] as u32 as i32).clamp(-400, 400);
                let x = w[1] & f.all();
                let got = at(n, x);
                let name = general.name;
                let mut bad = false;
                let odd = n % 2 != 0;
                let flip = |v: u128| if odd { v ^ f.sign() } else { v };
                let alike = |a: u128, b: u128| f.same(a, b) || f.is_zero(a) && f.is_zero(b);
                if n.abs() < 2 {
                    let d = dedicated(if n == 0 { &zero } else { &one }, x);
                    let d = if n < 0 { flip(d) } else { d };
                    let pole = second && n < 0 && f.is_zero(x);
                    expect!(log, bad, alike(got, d) || pole, "{name}({n}, {}) gave {}, the dedicated function {}", f.show(x), f.show(got), f.show(d));
                }
                if f.is_nan(x) {
                    expect!(log, bad, f.is_nan(got), "{name}({n}, NaN) gave {}", f.show(got));
                } else if second && f.is_zero(x) {
                    expect!(log, bad, f.is_inf(got) && (f.is_neg(got) || n < 0 && odd), "{name}({n}, {}) gave {}", f.show(x), f.show(got));
                } else if second && f.is_neg(x) {
                    expect!(log, bad, f.is_nan(got), "{name}({n}, {}) gave {}", f.show(x), f.show(got));
                } else if f.is_inf(x) {
                    expect!(log, bad, f.is_zero(got), "{name}({n}, {}) gave {}", f.show(x), f.show(got));
                } else {
                    let m = at(-n, x);
                    expect!(log, bad, alike(m, flip(got)), "{name}({n}, {}) gave {}, order {} gave {}", f.show(x), f.show(got), -n, f.show(m));
                    let (g, v) = (val(f, got), val(f, x));
                    let k = allowed(n);
                    let r = reference(n, v);
                    // The second kind overflows towards zero; in the last step of the recurrence a
                    // term larger than the result may overflow first.
                    let limit = val(f, f.max()) * if n.abs() < 2 { 0.999 } else { 0.5 };
                    let over = |r: f64| !g.is_finite() && !g.is_nan() && (g > 0.0) == (r > 0.0) && !(r.abs() <= limit);
                    if !over(r.hi) && !(excess(f, n, v, g, r) <= k) {
                        let m = exact(n, v);
                        let e = excess(f, n, v, g, m.dd());
                        if !over(m.d) {
                            expect!(log, bad, e <= k, "{name}({n}, {}) gave {}, want {}: off by {e:.1} epsilons of the amplitude, {k} allowed", f.show(x), f.show(got), f.show(bits(f, m.d)));
                        }
                    }
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{name}({n}, {}) = {}", f.show(x), f.show(got)));
                }
                if bad {
                    Out::Fail
                } else if f.is_finite(got) && !f.is_zero(got) {
                    Out::Ok
                } else {
                    Out::Trivial
                }
            };
            for order in [0, 1] {
                s.push(
                    Sub::new(
                        format!("{} order {order}", general.name),
                        2,
                        ctx.n(8_000_000, 160_000_000),
                        move |r: &mut Rng, _, w: &mut Words| {
                            w[0] = order as u128;
                            w[1] = gen_x(r, f, order);
                        },
                        check,
                    )
                    .unit(1 << 13),
                );
            }
            s.push(
                Sub::new(
                    format!("{} any order", general.name),
                    2,
                    ctx.n(1_500_000, 30_000_000),
                    move |r: &mut Rng, _, w: &mut Words| {
                        let n = match r.below(8) {
                            0..=5 => r.range(-12, 12),
                            6 => r.range(-60, 60),
                            _ => r.range(-200, 200),
                        } as i32;
                        w[0] = n as u32 as u128;
                        w[1] = gen_x(r, f, n);
                    },
                    check,
                )
                .unit(1 << 11),
            );
        }
    }
    (
        Meta {
            rule: "non-trivial: the result is finite and not zero",
            assumptions: vec![
                "the reference is MPFR at 256 bits; results already close to the system library's 80-bit evaluation are accepted without it".into(),
                "an error of 8 (n + 1) epsilons of the amplitude is allowed for order n, about twice what is observed; the recurrence for orders above 1 may overflow when the result is within a factor of 2 of the largest finite value".into(),
                "orders up to 200; larger orders only take part in the totality check".into(),
            ],
        },
        s,
    )
}
