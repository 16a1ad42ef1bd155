//! Every function returns for every input, with overflow checks and debug assertions on.
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::libm_plain;
use vrt::libmfns::Route;

use crate::args;

/// Non-trivial when the first result is finite and non-zero.
pub fn outcome(bad: bool, rt: &Route, got: &[u128; 2]) -> Out {
    if bad {
        return Out::Fail;
    }
    let interesting = match args::fmt(rt.rets[0]) {
        Some(f) => f.is_finite(got[0]) && !f.is_zero(got[0]),
        None => true,
    };
    if interesting {
        Out::Ok
    } else {
        Out::Trivial
    }
}

pub fn c33(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    let checked = libm_plain!(l2);
    let release = libm_plain!(l3);
    for (rt, rel) in checked.into_iter().zip(release) {
        let n = 2_400_000 / args::weight(&rt);
        let check = move |w: &Words, log: Option<&mut String>| {
            let got = (rt.call)(w);
            // the build without checks must return as well
            let other = (rel.call)(w);
            std::hint::black_box(other);
            if let Some(l) = log {
                l.push_str(&format!("{} returned {}", args::describe(&rt, w), args::show(rt.rets[0], got[0])));
            }
            outcome(false, &rt, &got)
        };
        // all 16-bit arguments; a seeded grid of 32-bit ones in the thorough tier
        if let [k] = rt.args {
            let f = args::fmt(*k).unwrap();
            if f.bits == 16 {
                s.push(Sub::new(format!("{} [all]", rt.name), 1, 1 << f.bits, |_: &mut Rng, i, w: &mut Words| w[0] = i as u128, check).enumerated());
                continue;
            }
            if f.bits == 32 && ctx.thorough {
                s.push(Sub::new(format!("{} grid", rt.name), 1, 1 << 28, |r: &mut Rng, i, w: &mut Words| w[0] = (i << 4 | r.below(16)) as u128, check).enumerated());
            }
        }
        s.push(Sub::new(rt.name, rt.args.len(), ctx.n(n, n * 20), move |r: &mut Rng, _, w: &mut Words| args::gen(r, &rt, w), check).unit(1 << 12));
    }
    (
        Meta {
            rule: "non-trivial: the function's first result is finite and not zero (an integer result always counts)",
            assumptions: vec![
                "a call counts as not returning after 20 s of CPU time".into(),
                "orders of the general Bessel functions beyond 40000 are only tried where they take no time, since the number of steps is proportional to the order".into(),
                "the integer and float support routines run with the same checks enabled in C01 to C12".into(),
            ],
        },
        s,
    )
}
