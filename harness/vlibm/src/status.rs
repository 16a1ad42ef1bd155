//! Reported status.
use vcore::sf::{Fmt, F128, F16, F32, F64};
use vcore::{Ctx, Meta, Rng, Sub, Words};
use vrt::bits::Bits;
use vrt::expect;

use crate::util::{fin, gen_round, leak};

/// Value and (invalid, inexact, anything else) of a status-reporting function.
type St = (u128, bool, bool, bool);

macro_rules! status_fns {
    ($lib:ident) => {{
        use $lib::support::{FpResult, Round, Status};
        fn un<T: Bits>(r: FpResult<T>) -> St {
            let mut s = r.status;
            s.set_inexact(false);
            (r.val.to(), s == Status::INVALID, r.status.inexact(), s != Status::OK && s != Status::INVALID)
        }
        fn mode<T: Bits + $lib::support::Float>(k: usize, x: u128) -> St {
            let x = <T as Bits>::from(x);
            match k {
                0 => un($lib::generic::floor_status(x)),
                1 => un($lib::generic::ceil_status(x)),
                2 => un($lib::generic::trunc_status(x)),
                _ => un($lib::generic::rint_status(x)),
            }
        }
        let rounding: fn(u32, usize, u128) -> St = |bits, k, x| match bits {
            16 => mode::<f16>(k, x),
            32 => mode::<f32>(k, x),
            64 => mode::<f64>(k, x),
            _ => mode::<f128>(k, x),
        };
        let root: fn(u32, u128) -> St = |bits, x| match bits {
            16 => un($lib::generic::sqrt_round(<f16 as Bits>::from(x), Round::Nearest)),
            32 => un($lib::generic::sqrt_round(<f32 as Bits>::from(x), Round::Nearest)),
            64 => un($lib::generic::sqrt_round(<f64 as Bits>::from(x), Round::Nearest)),
            _ => un($lib::generic::sqrt_round(<f128 as Bits>::from(x), Round::Nearest)),
        };
        (rounding, root)
    }};
}

macro_rules! plain {
    ($lib:ident) => {{
        let f: fn(u32, usize, u128) -> u128 = |bits, k, x| match (bits, k) {
            (16, 0) => Bits::to($lib::floorf16(Bits::from(x))),
            (16, 1) => Bits::to($lib::ceilf16(Bits::from(x))),
            (16, 2) => Bits::to($lib::truncf16(Bits::from(x))),
            (16, 3) => Bits::to($lib::rintf16(Bits::from(x))),
            (16, _) => Bits::to($lib::sqrtf16(Bits::from(x))),
            (32, 0) => Bits::to($lib::floorf(Bits::from(x))),
            (32, 1) => Bits::to($lib::ceilf(Bits::from(x))),
            (32, 2) => Bits::to($lib::truncf(Bits::from(x))),
            (32, 3) => Bits::to($lib::rintf(Bits::from(x))),
            (32, _) => Bits::to($lib::sqrtf(Bits::from(x))),
            (64, 0) => Bits::to($lib::floor(Bits::from(x))),
            (64, 1) => Bits::to($lib::ceil(Bits::from(x))),
            (64, 2) => Bits::to($lib::trunc(Bits::from(x))),
            (64, 3) => Bits::to($lib::rint(Bits::from(x))),
            (64, _) => Bits::to($lib::sqrt(Bits::from(x))),
            (_, 0) => Bits::to($lib::floorf128(Bits::from(x))),
            (_, 1) => Bits::to($lib::ceilf128(Bits::from(x))),
            (_, 2) => Bits::to($lib::truncf128(Bits::from(x))),
            (_, 3) => Bits::to($lib::rintf128(Bits::from(x))),
            (_, _) => Bits::to($lib::sqrtf128(Bits::from(x))),
        };
        f
    }};
}

pub fn c39(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    let libs = [("arch", status_fns!(l1), plain!(l1)), ("portable", status_fns!(l2), plain!(l2)), ("intrinsics", status_fns!(l3), plain!(l3))];
    let fmts: [&'static Fmt; 4] = [&F16, &F32, &F64, &F128];
    for (k, name) in ["floor", "ceil", "trunc", "rint", "sqrt"].into_iter().enumerate() {
        for f in fmts {
            let label = leak(format!("{name} {}", f.bits));
            let check = move |w: &Words, mut log: Option<&mut String>| {
                let x = w[0] & f.all();
                let mut bad = false;
                let mut inexact = false;
                for (lib, (rounding, root), plain) in libs {
                    let (val, inv, inex, other) = if k < 4 { rounding(f.bits, k, x) } else { root(f.bits, x) };
                    let p = plain(f.bits, k, x);
                    expect!(log, bad, f.same(val, p), "{lib} {label}({}): value with status {}, plain {}", f.show(x), f.show(val), f.show(p));
                    if k < 4 {
                        let changed = !f.is_nan(x) && val != x;
                        inexact |= changed;
                        expect!(log, bad, inex == changed && !inv && !other, "{lib} {label}({}) = {}: inexact {inex}, invalid {inv}, another flag {other}", f.show(x), f.show(val));
                    } else {
                        let undefined = f.is_nan(x) || f.is_neg(x) && !f.is_zero(x);
                        inexact |= undefined;
                        expect!(log, bad, inv == undefined && !other, "{lib} {label}({}) = {}: invalid {inv}, another flag {other}", f.show(x), f.show(val));
                    }
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{label}({}) {}", f.show(x), if inexact { "flagged" } else { "not flagged" }));
                }
                fin(bad, inexact)
            };
            if f.bits == 16 {
                s.push(Sub::new(leak(format!("{label} [all]")), 1, 1 << 16, |_: &mut Rng, i, w: &mut Words| w[0] = i as u128, check).enumerated());
            } else {
                s.push(Sub::new(label, 1, ctx.n(1_500_000, 60_000_000), move |r: &mut Rng, _, w: &mut Words| w[0] = gen_round(r, f), check));
            }
        }
    }
    // flags as sets: the public operations, checked against a set of booleans
    macro_rules! flags {
        ($lib:ident) => {{
            let f: fn(&[u128]) -> Option<String> = |ops| {
                use $lib::support::Status;
                let names = ["INVALID", "DIVIDE_BY_ZERO", "OVERFLOW", "UNDERFLOW", "INEXACT"];
                let consts = [Status::INVALID, Status::DIVIDE_BY_ZERO, Status::OVERFLOW, Status::UNDERFLOW, Status::INEXACT];
                let start = ops[0] as usize % 6;
                let mut st = if start == 5 { Status::OK } else { consts[start] };
                let mut set = [false; 5];
                if start < 5 {
                    set[start] = true;
                }
                for op in &ops[1..] {
                    let v = op & 1 == 1;
                    if op & 2 == 0 {
                        st.set_underflow(v);
                        set[3] = v;
                    } else {
                        st.set_inexact(v);
                        set[4] = v;
                    }
                    let on: Vec<&str> = (0..5).filter(|&i| set[i]).map(|i| names[i]).collect();
                    let want = format!("Status({})", if on.is_empty() { "OK".into() } else { on.join(" | ") });
                    let got = format!("{st:?}");
                    if got != want || st.underflow() != set[3] || st.inexact() != set[4] || st.overflow() != set[2] {
                        return Some(format!("{got} with underflow {} inexact {} overflow {}, want {want}", st.underflow(), st.inexact(), st.overflow()));
                    }
                    for (i, c) in consts.iter().enumerate() {
                        let same = (0..5).all(|j| set[j] == (i == j));
                        if (st == *c) != same {
                            return Some(format!("{want} compares wrong with {}", names[i]));
                        }
                    }
                    if (st == Status::OK) != on.is_empty() {
                        return Some(format!("{want} compares wrong with OK"));
                    }
                }
                None
            };
            f
        }};
    }
    let fl = [flags!(l1), flags!(l2)];
    s.push(Sub::new("flag sets", 8, ctx.n(40_000, 400_000), |r: &mut Rng, _, w: &mut Words| {
        for x in w.iter_mut() {
            *x = r.below(24) as u128;
        }
    }, move |w, mut log| {
        let mut bad = false;
        for f in fl {
            if let Some(e) = f(&w[..]) {
                expect!(log, bad, false, "flags after {w:?}: {e}");
            }
        }
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("start {} then {:?}", w[0] % 6, &w[1..]));
        }
        fin(bad, true)
    }));
    (
        Meta {
            rule: "non-trivial: the function raises a flag for the argument (flag sets: every sequence)",
            assumptions: vec!["a NaN argument counts as unchanged by the rounding functions and as undefined for square root".into()],
        },
        s,
    )
}
