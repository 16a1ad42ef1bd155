//! Accepting or rejecting a result against a reference.
use libm_test::{CheckBasis, CheckCtx, CheckOutput, GeneratorKind, Identifier};
use vcore::gen;
use vcore::sf::{Fmt, F128, F16, F32, F64};
use vcore::{Ctx, Meta, Rng, Sub, Words};
use vrt::expect;

use crate::util::{fin, leak};

const KINDS: [GeneratorKind; 4] = [GeneratorKind::EdgeCases, GeneratorKind::Spaced, GeneratorKind::Random, GeneratorKind::List];

fn basis(w: u128) -> CheckBasis {
    match w % 3 {
        0 => CheckBasis::Mpfr,
        1 => CheckBasis::Musl,
        _ => CheckBasis::None,
    }
}

/// Whether `got` is to be accepted where `want` is the reference.
fn accept(f: &Fmt, got: u128, want: u128, ulp: u32, b: &CheckBasis, k: GeneratorKind) -> bool {
    match (f.is_nan(got), f.is_nan(want)) {
        (true, true) => got == want || *b == CheckBasis::Mpfr || *b == CheckBasis::Musl && k != GeneratorKind::List,
        (false, false) => f.is_neg(got) == f.is_neg(want) && f.is_inf(got) == f.is_inf(want) && f.ulps(got, want) <= ulp as u128,
        _ => false,
    }
}

/// A value, one a few steps away from it (or unrelated), and a tolerance near that distance.
fn gen_pair(r: &mut Rng, f: &Fmt) -> (u128, u128, u128) {
    let want = gen::float(r, f);
    let dist = match r.below(4) {
        0 => r.below(4) as u128,
        1 => r.below(1 << 20) as u128,
        2 => (r.u64() >> (31 + r.below(33))) as u128,
        _ => r.u128() >> r.below(128),
    };
    let got = match r.below(8) {
        0 => want ^ f.sign(),
        1 => gen::float(r, f),
        2 => want,
        3 | 4 => crate::step::down(f, want, dist),
        _ => crate::step::up(f, want, dist),
    };
    let d = if f.is_nan(got) || f.is_nan(want) { dist } else { f.ulps(got, want) };
    let ulp = match r.below(4) {
        0 => r.below(8) as u128,
        1 => (r.u64() & 0xffff_ffff) as u128,
        _ => d.wrapping_add(r.below(3) as u128).wrapping_sub(1),
    };
    (got & f.all(), want, ulp.min(u32::MAX as u128))
}

fn ctx_for(id: Identifier, w: &Words) -> CheckCtx {
    let mut c = CheckCtx::new(id, basis(w[3]), KINDS[(w[3] / 3 % 4) as usize]);
    if c.ulp.is_some() {
        c.ulp = Some(w[2] as u32);
    }
    c
}

macro_rules! float {
    ($ctx:expr, $subs:expr, $g:ident, $e:ident, $t:ty, $u:ty, $f:expr, [$($id:ident $input:expr;)*], [$($pid:ident;)*], [$($iid:ident;)*]) => {{
        let f: &'static Fmt = &$f;
        $subs.push(Sub::new(
            leak(format!("one result {}", f.bits)),
            4,
            $ctx.n(150_000, 10_000_000),
            move |r: &mut Rng, _, w: &mut Words| {
                (w[0], w[1], w[2]) = gen_pair(r, f);
                w[3] = r.below(12) as u128;
            },
            move |w: &Words, mut log: Option<&mut String>| {
                let (got, want) = (w[0] & f.all(), w[1] & f.all());
                let ($g, $e) = (<$t>::from_bits(got as $u), <$t>::from_bits(want as $u));
                let mut bad = false;
                $(
                    let c = ctx_for(Identifier::$id, w);
                    let right = accept(f, got, want, w[2] as u32, &c.basis, c.gen_kind);
                    let res = $g.validate($e, $input, &c).is_ok();
                    expect!(log, bad, res == right, "{} for {} against {} with {} allowed ({:?} {:?}, {}), want {}",
                        if res { "accepted" } else { "rejected" }, f.show(got), f.show(want), w[2] as u32, c.basis, c.gen_kind, stringify!($id), if right { "accepted" } else { "rejected" });
                )*
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{} against {} with {} allowed", f.show(got), f.show(want), w[2] as u32));
                }
                fin(bad, got != want)
            },
        ).unit(1024));
        $subs.push(Sub::new(
            leak(format!("two results {}", f.bits)),
            6,
            $ctx.n(100_000, 5_000_000),
            move |r: &mut Rng, _, w: &mut Words| {
                let (a, b, ulp) = gen_pair(r, f);
                (w[0], w[1], w[2]) = (a, b, ulp);
                w[3] = r.below(12) as u128;
                let (c, d, _) = gen_pair(r, f);
                (w[4], w[5]) = match r.below(4) {
                    0 => (a, b),
                    1 => (b, a),
                    2 => (d, d),
                    _ => (c, d),
                };
            },
            move |w: &Words, mut log: Option<&mut String>| {
                let (a, b, c, d) = (w[0] & f.all(), w[1] & f.all(), w[4] & f.all(), w[5] & f.all());
                let v = |x: u128| <$t>::from_bits(x as $u);
                let mut bad = false;
                #[allow(unused_mut, unused_assignments)]
                let mut ok = [false; 2];
                $(
                    let cx = ctx_for(Identifier::$pid, w);
                    let each = [accept(f, a, b, w[2] as u32, &cx.basis, cx.gen_kind), accept(f, c, d, w[2] as u32, &cx.basis, cx.gen_kind)];
                    #[allow(unused_assignments)]
                    { ok = each; }
                    let right = each[0] && each[1];
                    let res = (v(a), v(c)).validate((v(b), v(d)), (v(0x1234),), &cx).is_ok();
                    expect!(log, bad, res == right, "pair {} {} against {} {} with {} allowed ({:?} {:?}, {}): accepted {res}, want {right}",
                        f.show(a), f.show(c), f.show(b), f.show(d), w[2] as u32, cx.basis, cx.gen_kind, stringify!($pid));
                )*
                $(
                    let cx = ctx_for(Identifier::$iid, w);
                    let right = accept(f, a, b, w[2] as u32, &cx.basis, cx.gen_kind) && c as i32 == d as i32;
                    let res = (v(a), c as i32).validate((v(b), d as i32), (v(0x1234),), &cx).is_ok();
                    expect!(log, bad, res == right, "{} and {} against {} and {} with {} allowed ({:?} {:?}, {}): accepted {res}, want {right}",
                        f.show(a), c as i32, f.show(b), d as i32, w[2] as u32, cx.basis, cx.gen_kind, stringify!($iid));
                )*
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{} and {} against {} and {}", f.show(a), f.show(c), f.show(b), f.show(d)));
                }
                fin(bad, ok[0] != ok[1] || a != b)
            },
        ).unit(1024));
    }};
}

/// Allowed error against exact results, as documented; what is not listed must be exact.
const ULP: &[(&str, u32)] = &[
    ("powif64", 500_000),
    ("powi", 1000),
    ("j0", 8_000_000),
    ("j1", 8_000_000),
    ("y0", 8_000_000),
    ("y1", 8_000_000),
    ("jn", 8_000_000),
    ("yn", 8_000_000),
    ("acos", 1),
    ("acosh", 4),
    ("asin", 1),
    ("asinh", 2),
    ("atan", 1),
    ("atan2", 2),
    ("atanh", 2),
    ("cos", 1),
    ("cosh", 1),
    ("erf", 1),
    ("erfc", 4),
    ("exp", 1),
    ("exp10", 6),
    ("exp2", 1),
    ("expm1", 1),
    ("hypotf", 1),
    ("lgamma", 4),
    ("lgamma_r", 4),
    ("lgammaf_r", 4),
    ("log", 1),
    ("log10", 1),
    ("log1p", 1),
    ("log2", 1),
    ("pow", 1),
    ("sin", 1),
    ("sincos", 1),
    ("sinh", 2),
    ("tan", 1),
    ("tanh", 2),
    ("tgammaf", 1),
    ("tgamma", 20),
];

fn limit(name: &str) -> u32 {
    let of = |n: &str| ULP.iter().find(|(k, _)| *k == n).map(|(_, u)| *u);
    of(name)
        .or_else(|| of(name.trim_end_matches(|c: char| c.is_ascii_digit()).strip_suffix('f')?))
        .or_else(|| of(name.strip_suffix('f')?))
        .unwrap_or(0)
}

pub fn c42(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut subs = Vec::new();
    float!(ctx, subs, g, e, f16, u16, F16,
        [Sqrtf16 (g,); Truncf16 (e,); Fmodf16 (g, e); Fmaf16 (e, e, g); Scalbnf16 (g, 3);], [], [Frexpf16;]);
    float!(ctx, subs, g, e, f32, u32, F32,
        [Sqrtf (g,); Expf (e,); Fmodf (g, e); Powf (e, g); Fmaf (e, e, g); Scalbnf (g, 3); Jnf (5, 2.0f32);], [Modff; Sincosf;], [Frexpf;]);
    float!(ctx, subs, g, e, f64, u64, F64,
        [Sqrt (g,); Exp (e,); Fmod (g, e); Pow (e, g); Fma (e, e, g); Scalbn (g, 3); Jn (5, 2.0f64);], [Modf; Sincos;], [Frexp;]);
    float!(ctx, subs, g, e, f128, u128, F128,
        [Sqrtf128 (g,); Truncf128 (e,); Fmodf128 (g, e); Fmaf128 (e, e, g); Scalbnf128 (g, 3);], [], [Frexpf128;]);

    subs.push(
        Sub::new(
            "integers",
            4,
            ctx.n(100_000, 5_000_000),
            |r: &mut Rng, _, w: &mut Words| {
                w[0] = gen::int(r, 128);
                w[1] = if r.one_in(2) { w[0] } else { w[0] ^ 1 << r.below(128) };
                w[2] = gen::int(r, 128);
                w[3] = r.below(12) as u128;
            },
            |w: &Words, mut log: Option<&mut String>| {
                let (a, b, c) = (w[0], w[1], w[2]);
                let mut bad = false;
                macro_rules! int {
                    ($t:ty, $id:ident, $pair:ident, $over:ident) => {
                        let (x, y, z) = (a as $t, b as $t, c as $t);
                        let cx = ctx_for(Identifier::$id, w);
                        let res = x.validate(y, (z, z), &cx).is_ok();
                        expect!(log, bad, res == (x == y), "{x} against {y}: accepted {res}");
                        let cx = ctx_for(Identifier::$pair, w);
                        let res = (x, z).validate((y, z), (z, z), &cx).is_ok();
                        expect!(log, bad, res == (x == y), "({x}, {z}) against ({y}, {z}): accepted {res}");
                        let res = (z, x).validate((z, y), (z, z), &cx).is_ok();
                        expect!(log, bad, res == (x == y), "({z}, {x}) against ({z}, {y}): accepted {res}");
                        let cx = ctx_for(Identifier::$over, w);
                        for (p, q) in [(false, false), (false, true), (true, false), (true, true)] {
                            let res = (x, p).validate((y, q), (z, z), &cx).is_ok();
                            expect!(log, bad, res == (x == y && p == q), "({x}, {p}) against ({y}, {q}): accepted {res}");
                        }
                    };
                }
                int!(i32, IdivI32, IdivmodI32, ImuloI32);
                int!(u32, IdivU32, IdivmodU32, ImuloI32);
                int!(i64, IdivI64, IdivmodI64, ImuloI64);
                int!(u64, IdivU64, IdivmodU64, ImuloI64);
                int!(i128, IdivI128, IdivmodI128, ImuloI128);
                int!(u128, IdivU128, IdivmodU128, ImuloU128);
                for (p, q) in [(false, false), (false, true), (true, false), (true, true)] {
                    let res = p.validate(q, (1.0f32, 2.0f32), &ctx_for(Identifier::Eqf32, w)).is_ok();
                    expect!(log, bad, res == (p == q), "{p} against {q}: accepted {res}");
                }
                fin(bad, a != b)
            },
        )
        .unit(1024),
    );

    let count = Identifier::ALL.len() as u64;
    subs.push(
        Sub::new(
            "allowed error",
            2,
            count * 4,
            move |_: &mut Rng, i, w: &mut Words| {
                w[0] = (i % count) as u128;
                w[1] = (i / count) as u128;
            },
            move |w: &Words, mut log: Option<&mut String>| {
                let id = Identifier::ALL[(w[0] % count as u128) as usize];
                let c = CheckCtx::new(id, CheckBasis::Mpfr, KINDS[(w[1] % 4) as usize]);
                let most = limit(id.as_str());
                let mut bad = false;
                expect!(log, bad, c.ulp.unwrap_or(0) <= most, "{id} allows {:?}, documented {most}", c.ulp);
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{id} allows {:?}", c.ulp));
                }
                fin(bad, c.ulp.is_some())
            },
        )
        .enumerated()
        .unit(64),
    );
    let meta = Meta {
        rule: "result and reference differ in bits (for pairs also when just one of the two results is acceptable); for the allowed error, functions returning floats",
        assumptions: vec![
            "functions without per-input exceptions stand for the others".into(),
            "an overridden tolerance replaces the function's own".into(),
        ],
    };
    (meta, subs)
}
