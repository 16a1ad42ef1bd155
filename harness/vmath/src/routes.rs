//! The same function by different routes and in different builds.
use std::collections::BTreeMap;

use vcore::{Ctx, Meta, Rng, Sub, Words};
use vrt::libmfns::Route;
use vrt::{builtins_math, expect, libm_plain, libm_wrapped};

use crate::args;
use crate::total::outcome;

pub fn c35(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let tables: Vec<(&'static str, Vec<Route>)> = vec![
        ("library", libm_plain!(l1)),
        ("portable library", libm_plain!(l2)),
        ("library with intrinsics", libm_plain!(l3)),
        ("wrapper", libm_wrapped!(l1)),
        ("portable wrapper", libm_wrapped!(l2)),
        ("wrapper with intrinsics", libm_wrapped!(l3)),
        ("runtime library", builtins_math!(b1::math::full_availability)),
        ("portable runtime library", builtins_math!(b2::math::full_availability)),
    ];
    let mut by_name: BTreeMap<&'static str, Vec<(&'static str, Route)>> = BTreeMap::new();
    for (label, table) in tables {
        for rt in table {
            by_name.entry(rt.name).or_default().push((label, rt));
        }
    }
    let mut s = Vec::new();
    for (name, list) in by_name {
        let rt = list[0].1;
        let n = 1_200_000 / args::weight(&rt);
        s.push(Sub::new(
            name,
            rt.args.len(),
            ctx.n(n, n * 20),
            move |r: &mut Rng, _, w: &mut Words| args::gen(r, &rt, w),
            move |w, mut log| {
                let first = (rt.call)(w);
                let mut bad = false;
                for (label, other) in &list[1..] {
                    let got = (other.call)(w);
                    for (i, k) in rt.rets.iter().enumerate() {
                        expect!(
                            log, bad, args::same(*k, got[i], first[i]),
                            "{}: {} gives {}, {label} gives {}", args::describe(&rt, w), list[0].0, args::show(*k, first[i]), args::show(*k, got[i])
                        );
                    }
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{} = {} by {} routes", args::describe(&rt, w), args::show(rt.rets[0], first[0]), list.len()));
                }
                outcome(bad, &rt, &first)
            },
        ).unit(1 << 12));
    }
    (
        Meta {
            rule: "non-trivial: the function's first result is finite and not zero",
            assumptions: vec!["minimum and maximum of two zeros of different sign are compared like everything else, bit for bit".into()],
        },
        s,
    )
}
