use vcore::big::Big;
use vcore::gen;
use vcore::sf::{Fmt, Val, F128, F16, F32, F64};
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};

use crate::bits::Bits;
use crate::expect;

/// One build of the float routines.
pub struct FloatFns {
    pub name: &'static str,
    pub addhf3: extern "C" fn(f16, f16) -> f16,
    pub addsf3: extern "C" fn(f32, f32) -> f32,
    pub adddf3: extern "C" fn(f64, f64) -> f64,
    pub addtf3: extern "C" fn(f128, f128) -> f128,
    pub subhf3: extern "C" fn(f16, f16) -> f16,
    pub subsf3: extern "C" fn(f32, f32) -> f32,
    pub subdf3: extern "C" fn(f64, f64) -> f64,
    pub subtf3: extern "C" fn(f128, f128) -> f128,
    pub mulhf3: extern "C" fn(f16, f16) -> f16,
    pub mulsf3: extern "C" fn(f32, f32) -> f32,
    pub muldf3: extern "C" fn(f64, f64) -> f64,
    pub multf3: extern "C" fn(f128, f128) -> f128,
    pub divsf3: extern "C" fn(f32, f32) -> f32,
    pub divdf3: extern "C" fn(f64, f64) -> f64,
    pub divtf3: extern "C" fn(f128, f128) -> f128,
    pub lehf2: extern "C" fn(f16, f16) -> isize,
    pub lesf2: extern "C" fn(f32, f32) -> isize,
    pub ledf2: extern "C" fn(f64, f64) -> isize,
    pub letf2: extern "C" fn(f128, f128) -> isize,
    pub gehf2: extern "C" fn(f16, f16) -> isize,
    pub gesf2: extern "C" fn(f32, f32) -> isize,
    pub gedf2: extern "C" fn(f64, f64) -> isize,
    pub getf2: extern "C" fn(f128, f128) -> isize,
    pub unordhf2: extern "C" fn(f16, f16) -> isize,
    pub unordsf2: extern "C" fn(f32, f32) -> isize,
    pub unorddf2: extern "C" fn(f64, f64) -> isize,
    pub unordtf2: extern "C" fn(f128, f128) -> isize,
    pub eqhf2: extern "C" fn(f16, f16) -> isize,
    pub eqsf2: extern "C" fn(f32, f32) -> isize,
    pub eqdf2: extern "C" fn(f64, f64) -> isize,
    pub eqtf2: extern "C" fn(f128, f128) -> isize,
    pub lthf2: extern "C" fn(f16, f16) -> isize,
    pub ltsf2: extern "C" fn(f32, f32) -> isize,
    pub ltdf2: extern "C" fn(f64, f64) -> isize,
    pub lttf2: extern "C" fn(f128, f128) -> isize,
    pub nehf2: extern "C" fn(f16, f16) -> isize,
    pub nesf2: extern "C" fn(f32, f32) -> isize,
    pub nedf2: extern "C" fn(f64, f64) -> isize,
    pub netf2: extern "C" fn(f128, f128) -> isize,
    pub gthf2: extern "C" fn(f16, f16) -> isize,
    pub gtsf2: extern "C" fn(f32, f32) -> isize,
    pub gtdf2: extern "C" fn(f64, f64) -> isize,
    pub gttf2: extern "C" fn(f128, f128) -> isize,
    pub floatunsisf: extern "C" fn(u32) -> f32,
    pub floatsisf: extern "C" fn(i32) -> f32,
    pub fixunssfsi: extern "C" fn(f32) -> u32,
    pub fixsfsi: extern "C" fn(f32) -> i32,
    pub floatundisf: extern "C" fn(u64) -> f32,
    pub floatdisf: extern "C" fn(i64) -> f32,
    pub fixunssfdi: extern "C" fn(f32) -> u64,
    pub fixsfdi: extern "C" fn(f32) -> i64,
    pub floatuntisf: extern "C" fn(u128) -> f32,
    pub floattisf: extern "C" fn(i128) -> f32,
    pub fixunssfti: extern "C" fn(f32) -> u128,
    pub fixsfti: extern "C" fn(f32) -> i128,
    pub floatunsidf: extern "C" fn(u32) -> f64,
    pub floatsidf: extern "C" fn(i32) -> f64,
    pub fixunsdfsi: extern "C" fn(f64) -> u32,
    pub fixdfsi: extern "C" fn(f64) -> i32,
    pub floatundidf: extern "C" fn(u64) -> f64,
    pub floatdidf: extern "C" fn(i64) -> f64,
    pub fixunsdfdi: extern "C" fn(f64) -> u64,
    pub fixdfdi: extern "C" fn(f64) -> i64,
    pub floatuntidf: extern "C" fn(u128) -> f64,
    pub floattidf: extern "C" fn(i128) -> f64,
    pub fixunsdfti: extern "C" fn(f64) -> u128,
    pub fixdfti: extern "C" fn(f64) -> i128,
    pub floatunsitf: extern "C" fn(u32) -> f128,
    pub floatsitf: extern "C" fn(i32) -> f128,
    pub fixunstfsi: extern "C" fn(f128) -> u32,
    pub fixtfsi: extern "C" fn(f128) -> i32,
    pub floatunditf: extern "C" fn(u64) -> f128,
    pub floatditf: extern "C" fn(i64) -> f128,
    pub fixunstfdi: extern "C" fn(f128) -> u64,
    pub fixtfdi: extern "C" fn(f128) -> i64,
    pub floatuntitf: extern "C" fn(u128) -> f128,
    pub floattitf: extern "C" fn(i128) -> f128,
    pub fixunstfti: extern "C" fn(f128) -> u128,
    pub fixtfti: extern "C" fn(f128) -> i128,
    pub extendhfsf2: extern "C" fn(f16) -> f32,
    pub truncsfhf2: extern "C" fn(f32) -> f16,
    pub extendhfdf2: extern "C" fn(f16) -> f64,
    pub truncdfhf2: extern "C" fn(f64) -> f16,
    pub extendhftf2: extern "C" fn(f16) -> f128,
    pub trunctfhf2: extern "C" fn(f128) -> f16,
    pub extendsfdf2: extern "C" fn(f32) -> f64,
    pub truncdfsf2: extern "C" fn(f64) -> f32,
    pub extendsftf2: extern "C" fn(f32) -> f128,
    pub trunctfsf2: extern "C" fn(f128) -> f32,
    pub extenddftf2: extern "C" fn(f64) -> f128,
    pub trunctfdf2: extern "C" fn(f128) -> f64,
    pub gnu_h2f_ieee: extern "C" fn(f16) -> f32,
    pub gnu_f2h_ieee: extern "C" fn(f32) -> f16,
    pub powisf2: extern "C" fn(f32, i32) -> f32,
    pub powidf2: extern "C" fn(f64, i32) -> f64,
    pub powitf2: extern "C" fn(f128, i32) -> f128,
}

/// The table for a crate that exposes the routines under their module paths.
#[macro_export]
macro_rules! float_fns {
    ($c:ident, $name:expr) => {
        $crate::floats::FloatFns {
            name: $name,
            addhf3: $c::float::add::__addhf3,
            addsf3: $c::float::add::__addsf3,
            adddf3: $c::float::add::__adddf3,
            addtf3: $c::float::add::__addtf3,
            subhf3: $c::float::sub::__subhf3,
            subsf3: $c::float::sub::__subsf3,
            subdf3: $c::float::sub::__subdf3,
            subtf3: $c::float::sub::__subtf3,
            mulhf3: $c::float::mul::__mulhf3,
            mulsf3: $c::float::mul::__mulsf3,
            muldf3: $c::float::mul::__muldf3,
            multf3: $c::float::mul::__multf3,
            divsf3: $c::float::div::__divsf3,
            divdf3: $c::float::div::__divdf3,
            divtf3: $c::float::div::__divtf3,
            lehf2: $c::float::cmp::__lehf2,
            lesf2: $c::float::cmp::__lesf2,
            ledf2: $c::float::cmp::__ledf2,
            letf2: $c::float::cmp::__letf2,
            gehf2: $c::float::cmp::__gehf2,
            gesf2: $c::float::cmp::__gesf2,
            gedf2: $c::float::cmp::__gedf2,
            getf2: $c::float::cmp::__getf2,
            unordhf2: $c::float::cmp::__unordhf2,
            unordsf2: $c::float::cmp::__unordsf2,
            unorddf2: $c::float::cmp::__unorddf2,
            unordtf2: $c::float::cmp::__unordtf2,
            eqhf2: $c::float::cmp::__eqhf2,
            eqsf2: $c::float::cmp::__eqsf2,
            eqdf2: $c::float::cmp::__eqdf2,
            eqtf2: $c::float::cmp::__eqtf2,
            lthf2: $c::float::cmp::__lthf2,
            ltsf2: $c::float::cmp::__ltsf2,
            ltdf2: $c::float::cmp::__ltdf2,
            lttf2: $c::float::cmp::__lttf2,
            nehf2: $c::float::cmp::__nehf2,
            nesf2: $c::float::cmp::__nesf2,
            nedf2: $c::float::cmp::__nedf2,
            netf2: $c::float::cmp::__netf2,
            gthf2: $c::float::cmp::__gthf2,
            gtsf2: $c::float::cmp::__gtsf2,
            gtdf2: $c::float::cmp::__gtdf2,
            gttf2: $c::float::cmp::__gttf2,
            floatunsisf: $c::float::conv::__floatunsisf,
            floatsisf: $c::float::conv::__floatsisf,
            fixunssfsi: $c::float::conv::__fixunssfsi,
            fixsfsi: $c::float::conv::__fixsfsi,
            floatundisf: $c::float::conv::__floatundisf,
            floatdisf: $c::float::conv::__floatdisf,
            fixunssfdi: $c::float::conv::__fixunssfdi,
            fixsfdi: $c::float::conv::__fixsfdi,
            floatuntisf: $c::float::conv::__floatuntisf,
            floattisf: $c::float::conv::__floattisf,
            fixunssfti: $c::float::conv::__fixunssfti,
            fixsfti: $c::float::conv::__fixsfti,
            floatunsidf: $c::float::conv::__floatunsidf,
            floatsidf: $c::float::conv::__floatsidf,
            fixunsdfsi: $c::float::conv::__fixunsdfsi,
            fixdfsi: $c::float::conv::__fixdfsi,
            floatundidf: $c::float::conv::__floatundidf,
            floatdidf: $c::float::conv::__floatdidf,
            fixunsdfdi: $c::float::conv::__fixunsdfdi,
            fixdfdi: $c::float::conv::__fixdfdi,
            floatuntidf: $c::float::conv::__floatuntidf,
            floattidf: $c::float::conv::__floattidf,
            fixunsdfti: $c::float::conv::__fixunsdfti,
            fixdfti: $c::float::conv::__fixdfti,
            floatunsitf: $c::float::conv::__floatunsitf,
            floatsitf: $c::float::conv::__floatsitf,
            fixunstfsi: $c::float::conv::__fixunstfsi,
            fixtfsi: $c::float::conv::__fixtfsi,
            floatunditf: $c::float::conv::__floatunditf,
            floatditf: $c::float::conv::__floatditf,
            fixunstfdi: $c::float::conv::__fixunstfdi,
            fixtfdi: $c::float::conv::__fixtfdi,
            floatuntitf: $c::float::conv::__floatuntitf,
            floattitf: $c::float::conv::__floattitf,
            fixunstfti: $c::float::conv::__fixunstfti,
            fixtfti: $c::float::conv::__fixtfti,
            extendhfsf2: $c::float::extend::__extendhfsf2,
            truncsfhf2: $c::float::trunc::__truncsfhf2,
            extendhfdf2: $c::float::extend::__extendhfdf2,
            truncdfhf2: $c::float::trunc::__truncdfhf2,
            extendhftf2: $c::float::extend::__extendhftf2,
            trunctfhf2: $c::float::trunc::__trunctfhf2,
            extendsfdf2: $c::float::extend::__extendsfdf2,
            truncdfsf2: $c::float::trunc::__truncdfsf2,
            extendsftf2: $c::float::extend::__extendsftf2,
            trunctfsf2: $c::float::trunc::__trunctfsf2,
            extenddftf2: $c::float::extend::__extenddftf2,
            trunctfdf2: $c::float::trunc::__trunctfdf2,
            gnu_h2f_ieee: $c::float::extend::__gnu_h2f_ieee,
            gnu_f2h_ieee: $c::float::trunc::__gnu_f2h_ieee,
            powisf2: $c::float::pow::__powisf2,
            powidf2: $c::float::pow::__powidf2,
            powitf2: $c::float::pow::__powitf2,
        }
    };
}

pub type Tabs = &'static [FloatFns];

/// A routine of some build, on bit patterns.
type Call1 = fn(&FloatFns, u128) -> u128;
type Call2 = fn(&FloatFns, u128, u128) -> u128;

macro_rules! call1 {
    ($f:ident) => {
        |t: &FloatFns, a: u128| Bits::to((t.$f)(Bits::from(a)))
    };
}
macro_rules! call2 {
    ($f:ident) => {
        |t: &FloatFns, a: u128, b: u128| Bits::to((t.$f)(Bits::from(a), Bits::from(b)))
    };
}

fn fin(bad: bool, nontrivial: bool) -> Out {
    if bad {
        Out::Fail
    } else if nontrivial {
        Out::Ok
    } else {
        Out::Trivial
    }
}

/// Operands whose result lies at or next to a rounding boundary of `f`.
fn gen_add(r: &mut Rng, f: &Fmt) -> (u128, u128) {
    if !r.one_in(4) {
        return gen::float2(r, f);
    }
    // x plus something at the scale of half its unit in the last place
    let x = gen::float(r, f);
    let e = f.exp_field(x) as i64 - f.mant as i64 - 1 + r.range(-2, 2);
    if !f.is_finite(x) || e < 0 {
        return gen::float2(r, f);
    }
    let tail = match r.below(4) {
        0 => 0,
        1 => 1,
        2 => f.frac(),
        _ => gen::frac(r, f),
    };
    let y = (e as u128) << f.mant | tail | if r.one_in(2) { f.sign() } else { 0 };
    if r.one_in(2) {
        (x, y)
    } else {
        (y, x)
    }
}

fn gen_mul(r: &mut Rng, f: &Fmt) -> (u128, u128) {
    if !r.one_in(3) {
        return gen::float2(r, f);
    }
    // significands whose product has few bits beyond the precision: exact ties and near-ties
    let p = f.mant + 1;
    let k = 1 + r.below(p as u64) as u32;
    let m = (r.u128() >> (128 - k)) | 1 | 1 << (k - 1);
    let kn = (p + 1).saturating_sub(k).max(1) + r.below(3) as u32;
    let n = (r.u128() >> (128 - kn)) | 1 << (kn - 1) | r.below(2) as u128;
    let place = |r: &mut Rng, m: u128| {
        let x = f.from_int(false, m);
        let fr = x & f.frac();
        let e = match r.below(3) {
            0 => f.bias() as i64 + r.range(-8, 8),
            _ => r.range(0, f.emax_field() as i64 - 1),
        };
        (e.max(0) as u128) << f.mant | fr | if r.one_in(2) { f.sign() } else { 0 }
    };
    let a = place(r, m);
    let b = place(r, n);
    if r.one_in(2) {
        // steer the product to the subnormal boundary
        let target = r.range(-(f.mant as i64) - 3, 3);
        let e = (target + f.bias() as i64 - f.exp_field(a) as i64).clamp(0, f.emax_field() as i64 - 1);
        return (a, (b & (f.frac() | f.sign())) | (e as u128) << f.mant);
    }
    (a, b)
}

fn gen_div(r: &mut Rng, f: &Fmt) -> (u128, u128) {
    if !r.one_in(3) {
        return gen::float2(r, f);
    }
    // a = b * q rounded, for a quotient q with one bit more than the precision, or near that
    let b = gen::float(r, f);
    let q = gen::float(r, f);
    if !f.is_finite(b) || !f.is_finite(q) {
        return (q, b);
    }
    let a = f.mul(b, q);
    let a = if f.is_finite(a) { a.wrapping_add(r.range(-1, 1) as u128) & f.all() } else { a };
    (a, b)
}

#[allow(clippy::too_many_arguments)]
fn binary(
    name: &'static str,
    f: &'static Fmt,
    n: u64,
    tabs: Tabs,
    gen: fn(&mut Rng, &Fmt) -> (u128, u128),
    call: Call2,
    oracle: fn(&Fmt, u128, u128) -> u128,
) -> Sub {
    Sub::new(
        name,
        2,
        n,
        move |r: &mut Rng, _, w: &mut Words| {
            let (a, b) = gen(r, f);
            w[0] = a;
            w[1] = b;
        },
        check_binary(name, f, tabs, call, oracle),
    )
}

/// Every pair of 16-bit patterns.
fn all_pairs_f16(name: &'static str, tabs: Tabs, call: Call2, oracle: fn(&Fmt, u128, u128) -> u128) -> Sub {
    Sub::new(
        name,
        2,
        1 << 32,
        |_: &mut Rng, i, w: &mut Words| {
            w[0] = (i >> 16) as u128;
            w[1] = (i & 0xffff) as u128;
        },
        check_binary(name, &F16, tabs, call, oracle),
    )
    .enumerated()
}

fn check_binary(
    name: &'static str,
    f: &'static Fmt,
    tabs: Tabs,
    call: Call2,
    oracle: fn(&Fmt, u128, u128) -> u128,
) -> impl Fn(&Words, Option<&mut String>) -> Out + Send + Sync + 'static {
    move |w, mut log| {
        let (a, b) = (w[0] & f.all(), w[1] & f.all());
        let want = oracle(f, a, b);
        let mut bad = false;
        for t in tabs {
            let got = call(t, a, b);
            expect!(log, bad, f.same(got, want), "{} {name}: {} with {} gave {}, want {}", t.name, f.show(a), f.show(b), f.show(got), f.show(want));
        }
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{} with {} = {}", f.show(a), f.show(b), f.show(want)));
        }
        fin(bad, f.is_finite(a) && f.is_finite(b) && !f.is_zero(a) && !f.is_zero(b))
    }
}

const PAIR_RULE: &str = "non-trivial: both operands finite and non-zero, so the result comes from the arithmetic and not from a special case";

fn hw32(op: fn(f32, f32) -> f32, a: u128, b: u128) -> u128 {
    op(f32::from_bits(a as u32), f32::from_bits(b as u32)).to_bits() as u128
}
fn hw64(op: fn(f64, f64) -> f64, a: u128, b: u128) -> u128 {
    op(f64::from_bits(a as u64), f64::from_bits(b as u64)).to_bits() as u128
}

pub fn c05(ctx: &Ctx, tabs: Tabs) -> (Meta, Vec<Sub>) {
    let add: [(&str, &Fmt, Call2, fn(&Fmt, u128, u128) -> u128, u64); 8] = [
        ("add 16", &F16, call2!(addhf3), |f, a, b| f.add(a, b), 6),
        ("add 32", &F32, call2!(addsf3), |_, a, b| hw32(|x, y| x + y, a, b), 24),
        ("add 64", &F64, call2!(adddf3), |_, a, b| hw64(|x, y| x + y, a, b), 24),
        ("add 128", &F128, call2!(addtf3), |f, a, b| f.add(a, b), 12),
        ("subtract 16", &F16, call2!(subhf3), |f, a, b| f.sub(a, b), 3),
        ("subtract 32", &F32, call2!(subsf3), |_, a, b| hw32(|x, y| x - y, a, b), 12),
        ("subtract 64", &F64, call2!(subdf3), |_, a, b| hw64(|x, y| x - y, a, b), 12),
        ("subtract 128", &F128, call2!(subtf3), |f, a, b| f.sub(a, b), 6),
    ];
    let mut s: Vec<Sub> = Vec::new();
    for (name, f, call, oracle, m) in add {
        s.push(binary(name, f, ctx.n(m * 1_000_000, m * 60_000_000), tabs, gen_add, call, oracle));
    }
    if ctx.thorough {
        s.push(all_pairs_f16("add 16 [all]", tabs, call2!(addhf3), |f, a, b| f.add(a, b)));
    }
    (Meta { rule: PAIR_RULE, assumptions: vec!["the processor's binary32 and binary64 addition is IEEE 754".into()] }, s)
}

pub fn c06(ctx: &Ctx, tabs: Tabs) -> (Meta, Vec<Sub>) {
    let mul: [(&str, &Fmt, Call2, fn(&Fmt, u128, u128) -> u128, u64); 4] = [
        ("multiply 16", &F16, call2!(mulhf3), |f, a, b| f.mul(a, b), 8),
        ("multiply 32", &F32, call2!(mulsf3), |_, a, b| hw32(|x, y| x * y, a, b), 36),
        ("multiply 64", &F64, call2!(muldf3), |_, a, b| hw64(|x, y| x * y, a, b), 36),
        ("multiply 128", &F128, call2!(multf3), |f, a, b| f.mul(a, b), 16),
    ];
    let mut s: Vec<Sub> = Vec::new();
    for (name, f, call, oracle, m) in mul {
        s.push(binary(name, f, ctx.n(m * 1_000_000, m * 60_000_000), tabs, gen_mul, call, oracle));
    }
    if ctx.thorough {
        s.push(all_pairs_f16("multiply 16 [all]", tabs, call2!(mulhf3), |f, a, b| f.mul(a, b)));
    }
    (Meta { rule: PAIR_RULE, assumptions: vec!["the processor's binary32 and binary64 multiplication is IEEE 754".into()] }, s)
}

pub fn c07(ctx: &Ctx, tabs: Tabs) -> (Meta, Vec<Sub>) {
    let div: [(&str, &Fmt, Call2, fn(&Fmt, u128, u128) -> u128, u64); 3] = [
        ("divide 32", &F32, call2!(divsf3), |_, a, b| hw32(|x, y| x / y, a, b), 40),
        ("divide 64", &F64, call2!(divdf3), |_, a, b| hw64(|x, y| x / y, a, b), 40),
        ("divide 128", &F128, call2!(divtf3), |f, a, b| f.div(a, b), 14),
    ];
    let mut s: Vec<Sub> = Vec::new();
    for (name, f, call, oracle, m) in div {
        s.push(binary(name, f, ctx.n(m * 1_000_000, m * 60_000_000), tabs, gen_div, call, oracle));
    }
    (Meta { rule: PAIR_RULE, assumptions: vec!["the processor's binary32 and binary64 division is IEEE 754".into()] }, s)
}

type Cmp = fn(&FloatFns, u128, u128) -> isize;

struct CmpSet {
    name: &'static str,
    f: &'static Fmt,
    fns: [(&'static str, Cmp); 7],
}

macro_rules! cmp_set {
    ($name:literal, $f:ident, $le:ident, $ge:ident, $un:ident, $eq:ident, $lt:ident, $ne:ident, $gt:ident) => {
        CmpSet {
            name: $name,
            f: &$f,
            fns: [
                ("less-or-equal", |t, a, b| (t.$le)(Bits::from(a), Bits::from(b))),
                ("greater-or-equal", |t, a, b| (t.$ge)(Bits::from(a), Bits::from(b))),
                ("unordered", |t, a, b| (t.$un)(Bits::from(a), Bits::from(b))),
                ("equal", |t, a, b| (t.$eq)(Bits::from(a), Bits::from(b))),
                ("less", |t, a, b| (t.$lt)(Bits::from(a), Bits::from(b))),
                ("not-equal", |t, a, b| (t.$ne)(Bits::from(a), Bits::from(b))),
                ("greater", |t, a, b| (t.$gt)(Bits::from(a), Bits::from(b))),
            ],
        }
    };
}

pub fn c08(ctx: &Ctx, tabs: Tabs) -> (Meta, Vec<Sub>) {
    let sets = [
        cmp_set!("16", F16, lehf2, gehf2, unordhf2, eqhf2, lthf2, nehf2, gthf2),
        cmp_set!("32", F32, lesf2, gesf2, unordsf2, eqsf2, ltsf2, nesf2, gtsf2),
        cmp_set!("64", F64, ledf2, gedf2, unorddf2, eqdf2, ltdf2, nedf2, gtdf2),
        cmp_set!("128", F128, letf2, getf2, unordtf2, eqtf2, lttf2, netf2, gttf2),
    ];
    let mut s = Vec::new();
    for set in sets {
        let f = set.f;
        let check = move |w: &Words, mut log: Option<&mut String>| {
            let (a, b) = (w[0] & f.all(), w[1] & f.all());
            let un = f.is_nan(a) || f.is_nan(b);
            // sign-magnitude order on the bit patterns
            let (x, y) = (f.ord(a), f.ord(b));
            let (lt, eq) = (!un && x < y, !un && x == y);
            let gt = !un && x > y;
            let mut bad = false;
            for t in tabs {
                for (i, (name, call)) in set.fns.iter().enumerate() {
                    let g = call(t, a, b);
                    let ok = match i {
                        0 => (g <= 0) == (lt || eq),
                        1 => (g >= 0) == (gt || eq),
                        2 => (g != 0) == un,
                        3 => (g == 0) == eq,
                        4 => (g < 0) == lt,
                        5 => (g != 0) == !eq,
                        _ => (g > 0) == gt,
                    };
                    expect!(log, bad, ok, "{} {name} {}: {} and {} gave {g}", t.name, f.bits, f.show(a), f.show(b));
                }
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{} and {}: less {lt} equal {eq} unordered {un}", f.show(a), f.show(b)));
            }
            fin(bad, a != b)
        };
        if f.bits == 16 && ctx.thorough {
            s.push(Sub::new("16 [all]", 2, 1 << 32, |_: &mut Rng, i, w: &mut Words| {
                w[0] = (i >> 16) as u128;
                w[1] = (i & 0xffff) as u128;
            }, check).enumerated());
        }
        s.push(Sub::new(
            set.name,
            2,
            ctx.n(20_000_000, 600_000_000),
            move |r: &mut Rng, _, w: &mut Words| {
                let (a, b) = gen::float2(r, f);
                w[0] = a;
                // identical, opposite, one bit apart, or unrelated
                w[1] = match r.below(8) {
                    0 => a,
                    1 => a ^ f.sign(),
                    2 => a ^ 1 << r.below(f.bits as u64),
                    _ => b,
                };
            },
            check,
        ));
    }
    (Meta { rule: "non-trivial: the two operands differ in bits", assumptions: vec![] }, s)
}

/// Integers at rounding boundaries of a format with `p` bits of precision.
fn gen_int_for(r: &mut Rng, w: u32, p: u32) -> u128 {
    let mask = u128::MAX >> (128 - w);
    if w > p && r.one_in(2) {
        let k = p + 1 + r.below((w - p) as u64) as u32;
        let drop = k - p;
        let top = (r.u128() >> (128 - p)) | 1 << (p - 1);
        let top = match r.below(4) {
            0 => u128::MAX >> (128 - p),
            1 => top & !1,
            2 => top | 1,
            _ => top,
        };
        let half = 1u128 << (drop - 1);
        let low = match r.below(4) {
            0 => half,
            1 => half.wrapping_sub(1),
            2 => half + 1,
            _ => half ^ (1 << r.below(drop as u64)),
        };
        let m = top.wrapping_shl(drop).wrapping_add(low & ((half << 1).wrapping_sub(1)));
        return m & mask;
    }
    gen::int(r, w)
}

pub fn c09(ctx: &Ctx, tabs: Tabs) -> (Meta, Vec<Sub>) {
    let list: [(&str, u32, bool, &Fmt, Call1); 18] = [
        ("u32 to f32", 32, false, &F32, call1!(floatunsisf)),
        ("u32 to f64", 32, false, &F64, call1!(floatunsidf)),
        ("u32 to f128", 32, false, &F128, call1!(floatunsitf)),
        ("u64 to f32", 64, false, &F32, call1!(floatundisf)),
        ("u64 to f64", 64, false, &F64, call1!(floatundidf)),
        ("u64 to f128", 64, false, &F128, call1!(floatunditf)),
        ("u128 to f32", 128, false, &F32, call1!(floatuntisf)),
        ("u128 to f64", 128, false, &F64, call1!(floatuntidf)),
        ("u128 to f128", 128, false, &F128, call1!(floatuntitf)),
        ("i32 to f32", 32, true, &F32, call1!(floatsisf)),
        ("i32 to f64", 32, true, &F64, call1!(floatsidf)),
        ("i32 to f128", 32, true, &F128, call1!(floatsitf)),
        ("i64 to f32", 64, true, &F32, call1!(floatdisf)),
        ("i64 to f64", 64, true, &F64, call1!(floatdidf)),
        ("i64 to f128", 64, true, &F128, call1!(floatditf)),
        ("i128 to f32", 128, true, &F32, call1!(floattisf)),
        ("i128 to f64", 128, true, &F64, call1!(floattidf)),
        ("i128 to f128", 128, true, &F128, call1!(floattitf)),
    ];
    let mut s = Vec::new();
    for (name, w, signed, f, call) in list {
        let mask = u128::MAX >> (128 - w);
        let check = move |x: &Words, mut log: Option<&mut String>| {
            let i = x[0] & mask;
            let neg = signed && i >> (w - 1) == 1;
            let mag = if neg { i.wrapping_neg() & mask } else { i };
            let want = f.from_int(neg, mag);
            let mut bad = false;
            for t in tabs {
                let got = call(t, i);
                expect!(log, bad, got == want, "{} {name}: {i:#x} gave {}, want {}", t.name, f.show(got), f.show(want));
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{}{mag:#x} = {}", if neg { "-" } else { "" }, f.show(want)));
            }
            fin(bad, mag != 0 && 128 - mag.leading_zeros() - mag.trailing_zeros() > f.mant + 1 || mag > 1 && w <= f.mant + 1)
        };
        if w == 32 && ctx.thorough {
            let all: &'static str = Box::leak(format!("{name} [all]").into_boxed_str());
            s.push(Sub::new(all, 1, 1 << 32, |_: &mut Rng, i, w: &mut Words| w[0] = i as u128, check).enumerated());
        } else {
            let n = if w == 32 { 4_000_000 } else { 6_000_000 };
            s.push(Sub::new(name, 1, ctx.n(n, n * 30), move |r: &mut Rng, _, x: &mut Words| {
                let i = gen_int_for(r, w, f.mant + 1);
                x[0] = if signed && r.one_in(2) { i.wrapping_neg() & mask } else { i };
            }, check));
        }
    }
    (Meta { rule: "non-trivial: the integer has more significant bits than the float, so rounding happens (for formats that hold every integer of the width: magnitude above 1)", assumptions: vec![] }, s)
}

/// Floats around the bounds of `w`-bit integers and around integers in general.
fn gen_float_for_int(r: &mut Rng, f: &Fmt, w: u32) -> u128 {
    let s = if r.one_in(2) { f.sign() } else { 0 };
    match r.below(4) {
        0 => gen::float(r, f),
        1 => {
            // near a bound of the type
            let e = f.bias() as i64 + w as i64 - r.range(-1, 3);
            let e = e.clamp(0, f.emax_field() as i64 - 1) as u128;
            let base = (e << f.mant) as i128 + if r.one_in(2) { r.range(-4, 4) as i128 } else { gen::frac(r, f) as i128 };
            s | base as u128 & f.mag()
        }
        2 => {
            // exponent within the integer's range
            let e = (f.bias() as i64 + r.range(-2, w as i64 + 1)).clamp(0, f.emax_field() as i64 - 1) as u128;
            s | e << f.mant | gen::frac(r, f)
        }
        _ => {
            // an integer, or just beside one
            let x = f.from_int(false, gen::int(r, w));
            s | (x as i128 + r.range(-1, 1) as i128) as u128 & f.mag()
        }
    }
}

pub fn c10(ctx: &Ctx, tabs: Tabs) -> (Meta, Vec<Sub>) {
    let list: [(&str, u32, bool, &Fmt, Call1); 18] = [
        ("f32 to u32", 32, false, &F32, call1!(fixunssfsi)),
        ("f32 to u64", 64, false, &F32, call1!(fixunssfdi)),
        ("f32 to u128", 128, false, &F32, call1!(fixunssfti)),
        ("f64 to u32", 32, false, &F64, call1!(fixunsdfsi)),
        ("f64 to u64", 64, false, &F64, call1!(fixunsdfdi)),
        ("f64 to u128", 128, false, &F64, call1!(fixunsdfti)),
        ("f128 to u32", 32, false, &F128, call1!(fixunstfsi)),
        ("f128 to u64", 64, false, &F128, call1!(fixunstfdi)),
        ("f128 to u128", 128, false, &F128, call1!(fixunstfti)),
        ("f32 to i32", 32, true, &F32, call1!(fixsfsi)),
        ("f32 to i64", 64, true, &F32, call1!(fixsfdi)),
        ("f32 to i128", 128, true, &F32, call1!(fixsfti)),
        ("f64 to i32", 32, true, &F64, call1!(fixdfsi)),
        ("f64 to i64", 64, true, &F64, call1!(fixdfdi)),
        ("f64 to i128", 128, true, &F64, call1!(fixdfti)),
        ("f128 to i32", 32, true, &F128, call1!(fixtfsi)),
        ("f128 to i64", 64, true, &F128, call1!(fixtfdi)),
        ("f128 to i128", 128, true, &F128, call1!(fixtfti)),
    ];
    let mut s = Vec::new();
    for (name, w, signed, f, call) in list {
        let mask = u128::MAX >> (128 - w);
        let check = move |x: &Words, mut log: Option<&mut String>| {
            let a = x[0] & f.all();
            let want = f.to_int(a, w, signed) & mask;
            let mut bad = false;
            for t in tabs {
                let got = call(t, a);
                expect!(log, bad, got == want, "{} {name}: {} gave {got:#x}, want {want:#x}", t.name, f.show(a));
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{} = {want:#x}", f.show(a)));
            }
            fin(bad, want != 0)
        };
        if f.bits == 32 && ctx.thorough {
            let all: &'static str = Box::leak(format!("{name} [all]").into_boxed_str());
            s.push(Sub::new(all, 1, 1 << 32, |_: &mut Rng, i, w: &mut Words| w[0] = i as u128, check).enumerated());
        } else {
            s.push(Sub::new(name, 1, ctx.n(6_000_000, 200_000_000), move |r: &mut Rng, _, x: &mut Words| x[0] = gen_float_for_int(r, f, w), check));
        }
    }
    (Meta { rule: "non-trivial: the result is not zero", assumptions: vec![] }, s)
}

/// Values of `from` at rounding boundaries of the narrower `to`, including its subnormal range.
fn gen_narrow(r: &mut Rng, from: &Fmt, to: &Fmt) -> u128 {
    let y = gen::float(r, to);
    match r.below(4) {
        0 => gen::float(r, from),
        1 => {
            // near a value of the narrow format
            let x = to.convert(y, from);
            if !from.is_finite(x) {
                return gen::float(r, from);
            }
            (x as i128 + r.range(-2, 2) as i128) as u128 & from.all()
        }
        2 => {
            // near the midpoint of two neighbours
            if !to.is_finite(y) {
                return gen::float(r, from);
            }
            let x = to.convert(y, from);
            let z = to.convert((y & to.mag()).wrapping_add(1) | (y & to.sign()), from);
            let mid = if from.is_inf(z) {
                // beyond the largest finite value: its half-unit boundary
                let e = (from.bias() + to.bias()) as u128;
                (x & from.sign()) | e << from.mant | (from.frac() & !((1u128 << (from.mant - to.mant - 1)) - 1))
            } else {
                let s = from.add(x, z);
                if from.is_zero(s) {
                    s
                } else {
                    from.scalbn(s, -1)
                }
            };
            let d = match r.below(3) {
                0 => 0,
                1 => r.range(-1, 1),
                _ => r.range(-1000, 1000),
            };
            (mid as i128 + d as i128) as u128 & from.all()
        }
        _ => {
            // exponents around the narrow format's limits
            let lo = from.bias() as i64 - to.bias() as i64 - to.mant as i64 - 2;
            let hi = from.bias() as i64 + to.bias() as i64 + 2;
            let e = match r.below(3) {
                0 => r.range(lo, lo + to.mant as i64 + 6),
                1 => r.range(hi - 4, hi),
                _ => r.range(lo, hi),
            };
            (if r.one_in(2) { from.sign() } else { 0 }) | (e.max(0) as u128) << from.mant | gen::frac(r, from)
        }
    }
}

/// Equal, or both NaN with the same sign.
fn same_signed(f: &Fmt, a: u128, b: u128) -> bool {
    a == b || f.is_nan(a) && f.is_nan(b) && f.is_neg(a) == f.is_neg(b)
}

pub fn c11(ctx: &Ctx, tabs: Tabs) -> (Meta, Vec<Sub>) {
    let list: [(&str, &Fmt, &Fmt, Call1, Call1); 7] = [
        ("16 and 32", &F16, &F32, call1!(extendhfsf2), call1!(truncsfhf2)),
        ("16 and 32, other name", &F16, &F32, call1!(gnu_h2f_ieee), call1!(gnu_f2h_ieee)),
        ("16 and 64", &F16, &F64, call1!(extendhfdf2), call1!(truncdfhf2)),
        ("16 and 128", &F16, &F128, call1!(extendhftf2), call1!(trunctfhf2)),
        ("32 and 64", &F32, &F64, call1!(extendsfdf2), call1!(truncdfsf2)),
        ("32 and 128", &F32, &F128, call1!(extendsftf2), call1!(trunctfsf2)),
        ("64 and 128", &F64, &F128, call1!(extenddftf2), call1!(trunctfdf2)),
    ];
    let mut s = Vec::new();
    for (name, small, big, widen, narrow) in list {
        let check = move |x: &Words, mut log: Option<&mut String>| {
            let a = x[0] & small.all();
            let want = small.convert(a, big);
            let want = if small.is_nan(a) { big.nan() | if small.is_neg(a) { big.sign() } else { 0 } } else { want };
            let mut bad = false;
            for t in tabs {
                let got = widen(t, a);
                expect!(log, bad, same_signed(big, got, want), "{} widen {name}: {} gave {}, want {}", t.name, small.show(a), big.show(got), big.show(want));
                let back = narrow(t, got);
                expect!(log, bad, same_signed(small, back, a), "{} widen then narrow {name}: {} came back as {}", t.name, small.show(a), small.show(back));
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{} = {}", small.show(a), big.show(want)));
            }
            fin(bad, small.is_finite(a) && !small.is_zero(a))
        };
        let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
        if small.bits == 16 || small.bits == 32 && ctx.thorough {
            s.push(Sub::new(leak(format!("widen {name} [all]")), 1, 1u64 << small.bits, |_: &mut Rng, i, w: &mut Words| w[0] = i as u128, check).enumerated());
        } else {
            s.push(Sub::new(leak(format!("widen {name}")), 1, ctx.n(12_000_000, 300_000_000), move |r: &mut Rng, _, x: &mut Words| x[0] = gen::float(r, small), check));
        }
        let check = move |x: &Words, mut log: Option<&mut String>| {
            let a = x[0] & big.all();
            let want = big.convert(a, small);
            let want = if big.is_nan(a) { small.nan() | if big.is_neg(a) { small.sign() } else { 0 } } else { want };
            let mut bad = false;
            for t in tabs {
                let got = narrow(t, a);
                expect!(log, bad, same_signed(small, got, want), "{} narrow {name}: {} gave {}, want {}", t.name, big.show(a), small.show(got), small.show(want));
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{} = {}", big.show(a), small.show(want)));
            }
            fin(bad, small.is_finite(want) && !small.is_zero(want))
        };
        if big.bits == 32 && ctx.thorough {
            s.push(Sub::new(leak(format!("narrow {name} [all]")), 1, 1u64 << 32, |_: &mut Rng, i, w: &mut Words| w[0] = i as u128, check).enumerated());
        } else {
            s.push(Sub::new(leak(format!("narrow {name}")), 1, ctx.n(12_000_000, 300_000_000), move |r: &mut Rng, _, x: &mut Words| x[0] = gen_narrow(r, big, small), check));
        }
    }
    (Meta { rule: "non-trivial: widening a finite non-zero value, narrowing to a finite non-zero value", assumptions: vec![] }, s)
}

/// Significand of at most 320 bits and exponent; products truncated, so good to about 2^-318 each.
#[derive(Clone)]
struct Wide {
    m: Big,
    e: i64,
}

impl Wide {
    fn mul(&self, o: &Wide) -> Wide {
        let mut m = self.m.mul_big(&o.m);
        let mut e = self.e + o.e;
        let b = m.bits();
        if b > 320 {
            m = m.shr(b - 320);
            e += (b - 320) as i64;
        }
        Wide { m, e }
    }
    /// Position of the leading bit.
    fn top(&self) -> i64 {
        self.e + self.m.bits() as i64 - 1
    }
}

fn gen_powi(r: &mut Rng, f: &Fmt) -> (u128, u128) {
    let s = if r.one_in(2) { f.sign() } else { 0 };
    let n: i64 = match r.below(8) {
        0 => r.range(-8, 8),
        1 => r.u64() as u32 as i32 as i64,
        2 => [i32::MIN as i64, i32::MIN as i64 + 1, i32::MAX as i64, 0, 1, -1][r.below(6) as usize],
        3 => {
            let k = r.below(31);
            ((1i64 << k) + r.range(-1, 1)) * if r.one_in(2) { -1 } else { 1 }
        }
        _ => {
            let k = r.below(32) as u32;
            let n = (r.u64() as i64 & i32::MAX as i64) >> k;
            if r.one_in(2) { -n } else { n }
        }
    };
    let n = n.clamp(i32::MIN as i64, i32::MAX as i64);
    let x = match r.below(4) {
        0 => gen::float(r, f),
        // base whose power stays in range: 2^t with |t n| at most the exponent range
        _ => {
            let lim = f.bias() as f64 / (n.unsigned_abs().max(1) as f64);
            let u = (r.u64() >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0;
            let t = lim * u * 1.02;
            let v = t.exp2();
            let x = F64.convert(v.to_bits() as u128, f);
            // fill the bits a double does not have
            let x = x ^ (r.u128() & if f.mant > 60 { (1u128 << (f.mant - 52)) - 1 } else { 0 });
            if f.bits == 32 && t.abs() < 1e-6 {
                // at the scale of single steps around one
                (f.one() as i128 + r.range(-64, 64) as i128) as u128
            } else {
                x
            }
        }
    };
    (s ^ x, n as i32 as u32 as u128)
}

pub fn c12(ctx: &Ctx, tabs: Tabs) -> (Meta, Vec<Sub>) {
    type Powi = fn(&FloatFns, u128, i32) -> u128;
    let list: [(&str, &Fmt, Powi, u64); 3] = [
        ("32", &F32, |t, x, n| Bits::to((t.powisf2)(Bits::from(x), n)), 3_000_000),
        ("64", &F64, |t, x, n| Bits::to((t.powidf2)(Bits::from(x), n)), 3_000_000),
        ("128", &F128, |t, x, n| Bits::to((t.powitf2)(Bits::from(x), n)), 2_000_000),
    ];
    let mut s = Vec::new();
    for (name, f, call, count) in list {
        s.push(Sub::new(
            name,
            2,
            ctx.n(count, count * 50),
            move |r: &mut Rng, _, w: &mut Words| {
                let (x, n) = gen_powi(r, f);
                w[0] = x;
                w[1] = n;
            },
            move |w, mut log| {
                let x = w[0] & f.all();
                let n = w[1] as u32 as i32;
                let neg = f.is_neg(x) && n & 1 == 1;
                let sign = if neg { f.sign() } else { 0 };
                let mut bad = false;
                // cases decided exactly
                let exact = if n == 0 {
                    Some(f.one())
                } else {
                    match f.decode(x) {
                        Val::Nan => Some(f.nan()),
                        Val::Inf(_) => Some(sign | if n > 0 { f.inf() } else { 0 }),
                        Val::Zero(_) => Some(sign | if n > 0 { 0 } else { f.inf() }),
                        Val::Fin(..) => None,
                    }
                };
                if let Some(want) = exact {
                    for t in tabs {
                        let got = call(t, x, n);
                        expect!(log, bad, f.same(got, want), "{} powi {name}: {}^{n} gave {}, want {}", t.name, f.show(x), f.show(got), f.show(want));
                    }
                    if let (false, Some(l)) = (bad, log) {
                        l.push_str(&format!("{}^{n} = {}", f.show(x), f.show(want)));
                    }
                    return fin(bad, false);
                }
                let Val::Fin(_, m, e) = f.decode(x) else { unreachable!() };
                // x^|n| to about 2^-280
                let mut base = Wide { m: Big::from(m), e: e as i64 };
                let mut acc = Wide { m: Big::from(1), e: 0 };
                let mut k = n.unsigned_abs();
                let limit = 4 * f.bias() as i64 + 4 * f.mant as i64;
                let mut far = 0i64;
                loop {
                    if k & 1 == 1 {
                        acc = acc.mul(&base);
                    }
                    k >>= 1;
                    if k == 0 {
                        break;
                    }
                    base = base.mul(&base);
                    // powers only move further from 1: once beyond the format's range by far, stop
                    if base.top().abs() > limit {
                        far = base.top().signum();
                        break;
                    }
                }
                let top = acc.top();
                let emax = f.bias() as i64;
                let emin = 1 - emax;
                if far == 0 && (top > emax + 2 || top < emin - f.mant as i64 - 4) {
                    far = top.signum();
                }
                if far != 0 {
                    // the positive power overflows or vanishes, and so does its reciprocal
                    let want = sign | if (far > 0) == (n > 0) { f.inf() } else { 0 };
                    for t in tabs {
                        let got = call(t, x, n);
                        expect!(log, bad, got == want, "{} powi {name}: {}^{n} gave {}, want {}", t.name, f.show(x), f.show(got), f.show(want));
                    }
                    if let (false, Some(l)) = (bad, log) {
                        l.push_str(&format!("{}^{n} = {}", f.show(x), f.show(want)));
                    }
                    return fin(bad, false);
                }
                let units = n.unsigned_abs() as u128 + 4;
                if top < emin || top > emax - 1 || top <= -emax + 1 || units >> (f.mant - 3) != 0 {
                    // only the sign is determined
                    for t in tabs {
                        let got = call(t, x, n);
                        expect!(log, bad, !f.is_nan(got) && f.is_neg(got) == neg, "{} powi {name}: {}^{n} gave {}, wrong sign or NaN", t.name, f.show(x), f.show(got));
                    }
                    return if bad { Out::Fail } else { Out::Trivial };
                }
                for t in tabs {
                    let got = call(t, x, n);
                    let ok = match f.decode(got) {
                        Val::Fin(gs, gm, ge) if gs == neg => {
                            let g = Wide { m: Big::from(gm), e: ge as i64 };
                            // n > 0: |g - acc| / acc;  n < 0: |g * acc - 1|
                            let (a, b) = if n > 0 { (g, acc.clone()) } else { (g.mul(&acc), Wide { m: Big::from(1), e: 0 }) };
                            close(&a, &b, units, f.mant)
                        }
                        _ => false,
                    };
                    expect!(log, bad, ok, "{} powi {name}: {}^{n} gave {}, off by more than {units} rounding units", t.name, f.show(x), f.show(got));
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{}^{n} = {} within {units} units", f.show(x), f.show(call(&tabs[0], x, n))));
                }
                fin(bad, n != 1)
            },
        ));
    }
    (
        Meta {
            rule: "non-trivial: finite non-zero base, exponent other than 0 and 1, x^|n| in the normal range, so that the error bound is evaluated",
            assumptions: vec!["the bound is applied as k u / (1 - k u) with k = |n| + 4 and u half a unit in the last place of 1, and only for k below an eighth of 1/u".into()],
        },
        s,
    )
}

/// |a - b| <= b * k u / (1 - k u), u = 2^-(mant+1), evaluated with a little slack.
fn close(a: &Wide, b: &Wide, k: u128, mant: u32) -> bool {
    // align both to 330 fraction bits below b's top
    let base = b.top() - 330;
    let al = |x: &Wide| -> Option<Big> {
        let s = x.e - base;
        if s >= 0 {
            (s < 600).then(|| x.m.shl(s as u32))
        } else {
            Some(if -s < 1000 { x.m.shr((-s) as u32) } else { Big::from(0) })
        }
    };
    let (Some(x), Some(y)) = (al(a), al(b)) else { return false };
    let d = if x.ge(&y) { x.sub(&y) } else { y.sub(&x) };
    // d * (2^(mant+1) - k) <= y * k
    let den = (1u128 << (mant + 1)) - k;
    let lhs = d.mul_big(&Big::from(den));
    let rhs = y.mul_big(&Big::from(k)).add(&Big::from(1).shl(mant + 60));
    rhs.ge(&lhs)
}
