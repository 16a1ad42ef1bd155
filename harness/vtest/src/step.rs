//! Steps between neighbouring floats, and evenly spaced sequences.
use libm_test::{FloatExt, linear_ints, logspace};
use vcore::sf::{F16, F32, F64, F128, Fmt};
use vcore::gen as gen_;
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::expect;

use crate::util::{fin, leak};

/// `n` steps towards positive infinity: the two zeros are one position, infinity is the end.
pub fn up(f: &Fmt, x: u128, n: u128) -> u128 {
    if f.is_nan(x) || x == f.inf() || n == 0 {
        return x;
    }
    let a = x & f.mag();
    if f.is_neg(x) && a != 0 {
        if n <= a { f.sign() | (a - n) } else { (n - a).min(f.inf()) }
    } else {
        a.saturating_add(n).min(f.inf())
    }
}

pub fn down(f: &Fmt, x: u128, n: u128) -> u128 {
    if f.is_nan(x) { x } else { f.neg(up(f, f.neg(x), n)) }
}

fn gen_n(r: &mut Rng, f: &Fmt, x: u128) -> u128 {
    let a = x & f.mag();
    let near = r.below(5) as u128;
    let n = match r.below(8) {
        0 => near,
        1 => a.wrapping_add(near).wrapping_sub(2),
        2 => f.inf().wrapping_sub(a).wrapping_add(near).wrapping_sub(2),
        3 => f.inf().wrapping_add(a).wrapping_add(near).wrapping_sub(2),
        4 => f.all().wrapping_sub(near),
        5 => r.u128() >> r.below(128),
        _ => gen_::int(r, f.bits),
    };
    n & f.all()
}

/// Positions of a sequence: equal gaps as large as fit, starting at the first, inside the range.
fn spaced_ok(between: u128, steps: u128, announced: u128, pos: &[u128], whole: bool) -> Result<(), String> {
    let spaces = (steps - 1).min(between);
    if announced != spaces + 1 {
        return Err(format!("announced {announced} values, want {}", spaces + 1));
    }
    if whole && pos.len() as u128 != announced {
        return Err(format!("gave {} values, announced {announced}", pos.len()));
    }
    let gap = (between / (steps - 1)).max(1);
    for (i, p) in pos.iter().enumerate() {
        if *p != gap * i as u128 {
            return Err(format!("value {i} is {p} steps from the start, want {}", gap * i as u128));
        }
    }
    Ok(())
}

const LOOK: usize = 300;

macro_rules! float {
    ($ctx:expr, $subs:expr, $t:ty, $u:ty, $f:expr) => {{
        let f: &'static Fmt = &$f;
        let one = move |w: &Words, mut log: Option<&mut String>| {
            let x = w[0] & f.all();
            let n = w[1] & f.all();
            let v = <$t>::from_bits(x as $u);
            let mut bad = false;
            for (name, got, want) in [
                ("next_up", FloatExt::next_up(v), up(f, x, 1)),
                ("next_down", FloatExt::next_down(v), down(f, x, 1)),
                ("n_up", FloatExt::n_up(v, n as $u), up(f, x, n)),
                ("n_down", FloatExt::n_down(v, n as $u), down(f, x, n)),
            ] {
                let got = got.to_bits() as u128;
                expect!(log, bad, got == want, "{name} of {} by {n:#x} gave {}, want {}", f.show(x), f.show(got), f.show(want));
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{} by {n:#x}: up {}, down {}", f.show(x), f.show(up(f, x, n)), f.show(down(f, x, n))));
            }
            let a = x & f.mag();
            fin(bad, !f.is_nan(x) && n > 1 && (n >= a || n.saturating_add(a) >= f.inf()))
        };
        $subs.push(Sub::new(
            leak(format!("step {}", f.bits)),
            2,
            $ctx.n(600_000, 40_000_000),
            move |r: &mut Rng, _, w: &mut Words| {
                w[0] = gen_::float(r, f);
                w[1] = gen_n(r, f, w[0]);
            },
            one,
        ));
        if f.bits == 16 {
            // every value by every count
            $subs.push(
                Sub::new(
                    "step 16 [all]",
                    2,
                    if $ctx.thorough { 1 << 32 } else { 1 << 25 },
                    |_: &mut Rng, i, w: &mut Words| {
                        // an odd multiplier spreads a prefix over all pairs
                        let k = (i as u32).wrapping_mul(0x9e37_79b1);
                        w[0] = (k & 0xffff) as u128;
                        w[1] = (k >> 16) as u128;
                    },
                    one,
                )
                .enumerated(),
            );
        }
        $subs.push(
            Sub::new(
                leak(format!("spaced floats {}", f.bits)),
                3,
                $ctx.n(20_000, 1_000_000),
                move |r: &mut Rng, _, w: &mut Words| {
                    let (a, b) = gen_::float2(r, f);
                    w[0] = a;
                    w[1] = if r.one_in(3) { up(f, a, (r.below(400) + 1) as u128) } else { b };
                    w[2] = match r.below(4) {
                        0 => 2 + r.below(6) as u128,
                        1 => r.u128() >> r.below(128),
                        2 => f.ulps(w[0], w[1]).wrapping_add(r.below(5) as u128).wrapping_sub(2),
                        _ => 2 + r.below(280) as u128,
                    } & f.all();
                },
                move |w: &Words, mut log: Option<&mut String>| {
                    let (x, y, steps) = (w[0] & f.all(), w[1] & f.all(), w[2] & f.all());
                    if f.is_nan(x) || f.is_nan(y) || steps < 2 {
                        return Out::Skip;
                    }
                    let (x, y) = if f.ord(x) <= f.ord(y) { (x, y) } else { (y, x) };
                    let (it, n) = logspace(<$t>::from_bits(x as $u), <$t>::from_bits(y as $u), steps as $u);
                    let vals: Vec<u128> = it.take(LOOK).map(|v| v.to_bits() as u128).collect();
                    let mut bad = false;
                    expect!(log, bad, vals.first() == Some(&x), "first value is not the start");
                    expect!(log, bad, !vals.iter().any(|v| f.is_nan(*v)), "a NaN among the values");
                    let pos: Vec<u128> = vals.iter().map(|v| f.ulps(x, *v)).collect();
                    let between = f.ulps(x, y);
                    let res = spaced_ok(between, steps, n as u128, &pos, (n as u128) < LOOK as u128);
                    expect!(log, bad, res.is_ok(), "from {} to {} in {steps}: {}", f.show(x), f.show(y), res.clone().unwrap_err());
                    if let (false, Some(l)) = (bad, log) {
                        l.push_str(&format!("{} values from {} to {}", n, f.show(x), f.show(y)));
                    }
                    fin(bad, between > 0 && steps > 2)
                },
            )
            .unit(256),
        );
    }};
}

macro_rules! ints {
    ($ctx:expr, $subs:expr, $($t:ty, $u:ty;)*) => {$({
        const B: u32 = <$t>::BITS;
        $subs.push(Sub::new(
            leak(format!("spaced {}", stringify!($t))),
            3,
            $ctx.n(20_000, 1_000_000),
            |r: &mut Rng, _, w: &mut Words| {
                w[0] = gen_::int(r, B);
                w[1] = if r.one_in(3) { w[0].wrapping_add(r.below(400) as u128) } else { gen_::int(r, B) };
                w[2] = match r.below(3) {
                    0 => 2 + r.below(6) as u128,
                    1 => (r.u64() >> r.below(64)) as u128,
                    _ => 2 + r.below(280) as u128,
                };
            },
            |w: &Words, mut log: Option<&mut String>| {
                let (a, b, steps) = (w[0] as $t, w[1] as $t, w[2] as u64);
                if steps < 2 {
                    return Out::Skip;
                }
                let (a, b) = (a.min(b), a.max(b));
                let between = b.wrapping_sub(a) as $u as u128;
                let (it, n) = match vcore::engine::catch(|| linear_ints(a..=b, steps)) {
                    Ok(v) => v,
                    Err(text) => {
                        // Listed in known-findings.txt: the gap does not fit the signed type.
                        if between / (steps as u128 - 1) > <$t>::MAX as u128 && text.contains("PosOverflow") {
                            return Out::Known;
                        }
                        if let Some(l) = log {
                            l.push_str(&format!("from {a} to {b} in {steps}: {text}"));
                        }
                        return Out::Fail;
                    }
                };
                let vals: Vec<$t> = it.take(LOOK).collect();
                let mut bad = false;
                let pos: Vec<u128> = vals.iter().map(|v| v.wrapping_sub(a) as $u as u128).collect();
                let res = spaced_ok(between, steps as u128, n as u128, &pos, n < LOOK as u64);
                expect!(log, bad, res.is_ok(), "from {a} to {b} in {steps}: {}", res.clone().unwrap_err());
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{n} values from {a} to {b}"));
                }
                fin(bad, between > 0 && steps > 2)
            },
        ).known("evenly spaced values of a signed type panic when the gap exceeds the type's largest value").unit(256));
    })*};
}

pub fn c41(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut subs = Vec::new();
    float!(ctx, subs, f16, u16, F16);
    float!(ctx, subs, f32, u32, F32);
    float!(ctx, subs, f64, u64, F64);
    float!(ctx, subs, f128, u128, F128);
    ints!(ctx, subs, i32, u32; u32, u32; i64, u64; u64, u64; i128, u128; u128, u128;);
    let meta = Meta {
        rule: "a step count above one that reaches or passes zero, or reaches an infinity; a sequence with more than two values over a non-empty range",
        assumptions: vec![format!("of a sequence, the announced length and the first {LOOK} values are compared")],
    };
    (meta, subs)
}
