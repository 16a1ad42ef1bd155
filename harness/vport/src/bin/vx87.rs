//! The x87 implementations for 32-bit x86 without SSE2, run on this machine's x87 unit.
use std::arch::asm;

use vcore::gen;
use vcore::mp::{self, Mp};
use vcore::sf::{Fmt, F32, F64};
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::expect;

#[path = "/repo/libm/src/math/arch/i586/exp_all.rs"]
mod exp_all;
#[path = "/repo/libm/src/math/arch/i586/rounding.rs"]
mod rounding;

/// Control word and tag word of the unit.
fn unit() -> (u16, u16) {
    let mut env = [0u32; 7];
    unsafe {
        asm!("fnstenv [{0}]", "fldenv [{0}]", in(reg) env.as_mut_ptr());
    }
    (env[0] as u16, env[2] as u16)
}

/// Run `f` and describe what it left changed in the unit.
fn guarded<T>(control: u16, f: impl FnOnce() -> T) -> (T, Option<String>) {
    unsafe { asm!("fninit", "fldcw [{0}]", in(reg) &control) };
    let before = unit();
    let r = f();
    let after = unit();
    unsafe { asm!("fninit") };
    let msg = if before.0 != after.0 {
        Some(format!("control word {:#x} became {:#x}", before.0, after.0))
    } else if before.1 != after.1 {
        Some(format!("register tags {:#x} became {:#x}", before.1, after.1))
    } else {
        None
    };
    (r, msg)
}

fn rounded(name: &str, x: f64) -> f64 {
    // exact definition on the bits
    let e = (x.to_bits() >> 52 & 0x7ff) as i32 - 1023;
    if e >= 52 {
        return x;
    }
    let neg = x.is_sign_negative();
    let whole = if e < 0 { 0.0 } else { f64::from_bits(x.to_bits() & !((1u64 << (52 - e)) - 1)).abs() };
    let a = x.abs();
    let rest = a - whole;
    let up = rest > 0.0
        && match name {
            "ceil" => !neg,
            "floor" => neg,
            _ => rest > 0.5 || rest == 0.5 && whole % 2.0 == 1.0,
        };
    (whole + up as u8 as f64).copysign(x)
}

struct Exp {
    name: &'static str,
    f: &'static Fmt,
    run: fn(u128) -> u128,
    mp: fn(f64) -> Mp,
    /// Logarithm of the base.
    log2: f64,
}

fn c52(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    for (name, f) in [("ceil", rounding::ceil as fn(f64) -> f64), ("floor", rounding::floor), ("rint", rounding::rint)] {
        s.push(Sub::new(name, 2, ctx.n(1_000_000, 40_000_000), |r: &mut Rng, _, w: &mut Words| {
            // extended or double precision set in the control word
            w[1] = r.below(2) as u128;
            w[0] = match r.below(4) {
                0 => gen::float(r, &F64),
                // next to an integer or the middle between two
                _ => {
                    let base = (r.u64() >> r.range(11, 63)) as f64 / [1.0, 2.0, 4.0][r.below(3) as usize];
                    let near = base.to_bits().wrapping_add(r.below(5)).wrapping_sub(2);
                    (near & !(1 << 63) | r.below(2) << 63) as u128
                }
            };
        }, move |w, mut log| {
            let x = f64::from_bits(w[0] as u64);
            let (got, msg) = guarded([0x37f, 0x27f][w[1] as usize & 1], || f(x));
            let mut bad = false;
            if let Some(m) = msg {
                expect!(log, bad, false, "{name}({x:e}): {m}");
            }
            if x.is_nan() {
                expect!(log, bad, got.is_nan(), "{name} of a NaN gave {got:e}");
            } else {
                let want = if x.is_infinite() { x } else { rounded(name, x) };
                expect!(log, bad, got.to_bits() == want.to_bits(), "{name}({x:e}) gave {got:e}, not {want:e}");
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{x:e} to {got:e}"));
            }
            fin(bad, x.is_finite() && x != got)
        }));
    }
    macro_rules! exp {
        ($name:ident, $f:ident, $ty:ident, $bits:ident, $mp:ident, $log2:expr) => {
            Exp {
                name: stringify!($name),
                f: &$f,
                run: |x| exp_all::$name($ty::from_bits(x as $bits)).to_bits() as u128,
                mp: mp::$mp,
                log2: $log2,
            }
        };
    }
    let all = [
        exp!(x87_exp, F64, f64, u64, exp, std::f64::consts::LOG2_E),
        exp!(x87_exp2, F64, f64, u64, exp2, 1.0),
        exp!(x87_exp10, F64, f64, u64, exp10, std::f64::consts::LOG2_10),
        exp!(x87_expf, F32, f32, u32, exp, std::f64::consts::LOG2_E),
        exp!(x87_exp2f, F32, f32, u32, exp2, 1.0),
        exp!(x87_exp10f, F32, f32, u32, exp10, std::f64::consts::LOG2_10),
    ];
    for e in all {
        let (f, log2) = (e.f, e.log2);
        let span = if f.bits == 32 { 160.0 } else { 1100.0 };
        let put = move |v: f64| if f.bits == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
        s.push(Sub::new(e.name, 1, ctx.n(300_000, 6_000_000), move |r: &mut Rng, _, w: &mut Words| {
            let u = (r.u64() >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0;
            w[0] = match r.below(5) {
                0 => gen::float(r, f),
                1 => put(u * (2f64).powi(-(r.below(60) as i32))),
                // powers that are close to integers or middles of the base-2 logarithm
                2 => {
                    let near = put((u * span * 2.0).round() / 2.0 / log2);
                    near.wrapping_add(r.below(5) as u128).wrapping_sub(2) & (u128::MAX >> (128 - f.bits))
                }
                _ => put(u * span / log2),
            };
        }, move |w, mut log| {
            let (x, run) = (w[0] & (u128::MAX >> (128 - f.bits)), e.run);
            let (got, msg) = guarded(0x37f, || run(x));
            let mut bad = false;
            let v = if f.bits == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
            if let Some(m) = msg {
                expect!(log, bad, false, "{}({v:e}): {m}", e.name);
            }
            if v.is_nan() {
                expect!(log, bad, f.is_nan(got), "{} of a NaN gave {}", e.name, f.show(got));
            } else {
                let m = (e.mp)(v);
                let want = if f.bits == 32 { m.f.to_bits() as u128 } else { m.d.to_bits() as u128 };
                expect!(log, bad, !f.is_nan(got) && f.ulps(got, want) <= 1, "{}({v:e}) gave {}, not {}", e.name, f.show(got), f.show(want));
                // exact cases
                if e.log2 == 1.0 && v == v.round() || v == 0.0 || v.is_infinite() {
                    expect!(log, bad, got == want, "{}({v:e}) gave {}, exactly {}", e.name, f.show(got), f.show(want));
                }
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{v:e} to {}", f.show(got)));
            }
            fin(bad, v.is_finite() && v != 0.0)
        }).unit(1 << 10));
    }
    (
        Meta {
            rule: "non-trivial: a finite argument that rounding changes, or a finite non-zero exponent",
            assumptions: vec![
                "the x87 code is assembled for 64-bit mode, where these instructions mean the same".into(),
                "the processor's x87 unit stands for all x87 units".into(),
            ],
        },
        s,
    )
}

fn fin(bad: bool, nontrivial: bool) -> Out {
    if bad {
        Out::Fail
    } else if nontrivial {
        Out::Ok
    } else {
        Out::Trivial
    }
}

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C52" => Some(c52(ctx)),
        _ => None,
    });
}
