//! Arguments for any math function, from its signature.
use vcore::gen;
use vcore::sf::{Fmt, F128, F16, F32, F64};
use vcore::{Rng, Words};
use vrt::libmfns::{Kind, Route};

pub fn fmt(k: Kind) -> Option<&'static Fmt> {
    match k {
        Kind::H => Some(&F16),
        Kind::S => Some(&F32),
        Kind::D => Some(&F64),
        Kind::Q => Some(&F128),
        Kind::I => None,
    }
}

pub fn show(k: Kind, x: u128) -> String {
    match fmt(k) {
        Some(f) => f.show(x),
        None => (x as u32 as i32).to_string(),
    }
}

/// Equal as results: same bits, or both NaN.
pub fn same(k: Kind, a: u128, b: u128) -> bool {
    match fmt(k) {
        Some(f) => f.same(a & f.all(), b & f.all()),
        None => a as u32 == b as u32,
    }
}

pub fn describe(rt: &Route, w: &Words) -> String {
    let a: Vec<String> = rt.args.iter().zip(w).map(|(k, x)| show(*k, clean(*k, *x))).collect();
    format!("{}({})", rt.name, a.join(", "))
}

pub fn clean(k: Kind, x: u128) -> u128 {
    match fmt(k) {
        Some(f) => x & f.all(),
        None => x & 0xffff_ffff,
    }
}

/// Whether the function takes an order, whose size is the number of steps it takes.
pub fn is_bessel_n(rt: &Route) -> bool {
    matches!(rt.name, "jn" | "jnf" | "yn" | "ynf")
}

/// Orders: mostly small, some large; the cost of a call is proportional.
pub fn order(r: &mut Rng) -> i32 {
    match r.below(64) {
        0..=39 => r.range(-12, 12) as i32,
        40..=57 => r.range(-160, 160) as i32,
        58..=62 => r.range(-1200, 1200) as i32,
        _ => r.range(-40_000, 40_000) as i32,
    }
}

pub fn gen(r: &mut Rng, rt: &Route, w: &mut Words) {
    match rt.args {
        [Kind::I, k] => {
            let f = fmt(*k).unwrap();
            w[0] = order(r) as u32 as u128;
            w[1] = gen::float(r, f);
            if r.one_in(64) {
                // extreme orders where they take no time: zeros, infinities and NaN
                w[0] = [0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0x7fff_fffe][r.below(4) as usize];
                w[1] = [0, f.inf(), f.nan(), f.inf() | 1][r.below(4) as usize] | if r.one_in(2) { f.sign() } else { 0 };
            }
        }
        [k, Kind::I] => {
            let f = fmt(*k).unwrap();
            w[0] = gen::float(r, f);
            let e = f.exp_field(w[0]) as i64;
            let big = f.emax_field() as i64;
            let n = match r.below(6) {
                0 => r.u64() as u32 as i32 as i64,
                1 => r.range(-16, 16),
                2 => big - 1 - e + r.range(-3, 3),
                3 => -e - r.range(-3, f.mant as i64 + 4),
                4 => [i32::MIN as i64, i32::MAX as i64, 0][r.below(3) as usize],
                _ => r.range(-3 * big, 3 * big),
            };
            w[1] = n as i32 as u32 as u128;
        }
        [k] => w[0] = gen::float(r, fmt(*k).unwrap()),
        [k, _] => {
            let (x, y) = gen::float2(r, fmt(*k).unwrap());
            w[0] = x;
            w[1] = y;
            let f = fmt(*k).unwrap();
            if r.one_in(3) {
                // a moderate second operand and an arbitrary first: powers with finite results
                w[1] = if r.one_in(2) { gen::small(r, f) | (r.u128() & f.sign()) } else { near_one(r, f, 12) };
            }
            if r.one_in(6) {
                w[0] = near_one(r, f, 8);
            }
        }
        _ => {
            let f = fmt(rt.args[0]).unwrap();
            let (x, y) = gen::float2(r, f);
            w[0] = x;
            w[1] = y;
            let e = f.exp_field(x) as i64 + f.exp_field(y) as i64 - f.bias() as i64;
            let k = 2 * f.mant as i64 + 8;
            let e = (e + r.range(-k, k)).clamp(0, f.emax_field() as i64 - 1);
            w[2] = if r.one_in(3) { gen::float(r, f) } else { (r.u128() & f.sign()) | (e as u128) << f.mant | gen::frac(r, f) };
        }
    }
}

pub fn near_one(r: &mut Rng, f: &Fmt, k: i64) -> u128 {
    let e = f.bias() as i64 + r.range(-k, k.min(f.bias() as i64 - 1));
    (r.u128() & f.sign()) | (e.clamp(0, f.emax_field() as i64 - 1) as u128) << f.mant | gen::frac(r, f)
}

/// Rough cost of a call relative to a cheap one, to balance counts.
pub fn weight(rt: &Route) -> u64 {
    match rt.name {
        "jn" | "jnf" | "yn" | "ynf" => 24,
        n if n.starts_with("tgamma") || n.starts_with("lgamma") => 3,
        "fmodf128" => 10,
        _ => 1,
    }
}
