//! Generators of integers and float bit patterns.

use crate::dict;
use crate::rng::Rng;
use crate::sf::Fmt;

/// Integer of `w` bits with a structure that arithmetic code cares about.
#[inline]
pub fn int(r: &mut Rng, w: u32) -> u128 {
    let mask = u128::MAX >> (128 - w);
    let v = match r.below(16) {
        0..=2 => r.u128(),
        // random length
        3..=5 => {
            let k = r.below(w as u64 + 1) as u32;
            if k == 0 {
                0
            } else {
                (r.u128() >> (128 - k)) | 1 << (k - 1)
            }
        }
        // runs of ones and zeros
        6..=8 => runs(r, w),
        // power of two plus or minus a little
        9 | 10 => {
            let p = 1u128 << r.below(w as u64);
            p.wrapping_add(r.range(-3, 3) as u128)
        }
        // few bits
        11 => {
            let mut x = 0;
            for _ in 0..1 + r.below(4) {
                x |= 1 << r.below(w as u64);
            }
            x
        }
        // all but few bits
        12 => {
            let mut x = u128::MAX;
            for _ in 0..1 + r.below(4) {
                x &= !(1 << r.below(w as u64));
            }
            x
        }
        // half-word blocks
        13 => {
            let h = w / 2;
            let hm = (1u128 << h) - 1;
            let pick = |r: &mut Rng| match r.below(5) {
                0 => 0,
                1 => hm,
                2 => 1,
                3 => 1 << (h - 1),
                _ => r.u128() & hm,
            };
            pick(r) << h | pick(r)
        }
        14 => r.range(-20, 20) as u128,
        _ => {
            let d = &dict::dict().ints;
            if d.is_empty() {
                r.u128()
            } else {
                d[r.below(d.len() as u64) as usize].wrapping_add(r.range(-2, 2) as u128)
            }
        }
    };
    v & mask
}

/// Alternating runs of ones and zeros of random length.
#[inline]
pub fn runs(r: &mut Rng, w: u32) -> u128 {
    let mut x = 0u128;
    let mut at = 0;
    let mut one = r.one_in(2);
    while at < w {
        let len = match r.below(3) {
            0 => 1 + r.below(4) as u32,
            1 => 1 + r.below(16) as u32,
            _ => 1 + r.below(w as u64) as u32,
        }
        .min(w - at);
        if one {
            x |= (u128::MAX >> (128 - len)) << at;
        }
        at += len;
        one = !one;
    }
    x
}

pub fn specials(f: &Fmt) -> Vec<u128> {
    let mut v = vec![
        0,
        1,
        2,
        3,
        f.min_normal() - 1,
        f.min_normal(),
        f.min_normal() + 1,
        f.min_normal() << 1,
        f.one() - 1,
        f.one(),
        f.one() + 1,
        f.one() + (1 << (f.mant - 1)),               // 1.5
        f.one() + (1 << f.mant),                     // 2
        f.one() + (3 << (f.mant - 1)),               // 3
        f.one() - (1 << f.mant),                     // 0.5
        f.one() - (1 << f.mant) - 1,                 // just below 0.5
        f.one() - (1 << f.mant) + 1,                 // just above 0.5
        f.one() + ((f.mant as u128) << f.mant),      // 2^mant
        f.one() + ((f.mant as u128) << f.mant) - 1,
        f.one() + ((f.mant as u128 - 1) << f.mant),
        f.one() + ((f.mant as u128 + 1) << f.mant),
        f.max() - 1,
        f.max(),
        f.inf(),
        f.inf() | 1,
        f.nan(),
        f.nan() | 1,
        f.mag(),
    ];
    let n = v.len();
    for i in 0..n {
        v.push(v[i] | f.sign());
    }
    v
}

/// A fraction field with structure.
#[inline]
pub fn frac(r: &mut Rng, f: &Fmt) -> u128 {
    let m = f.frac();
    match r.below(8) {
        0..=2 => r.u128() & m,
        3 | 4 => runs(r, f.mant),
        5 => {
            let mut x = 0;
            for _ in 0..1 + r.below(3) {
                x |= 1 << r.below(f.mant as u64);
            }
            x
        }
        6 => (r.range(-4, 4) as u128) & m,
        // only the top few bits
        _ => {
            let k = 1 + r.below(f.mant as u64) as u32;
            (r.u128() & m) >> k << k
        }
    }
}

/// Any bit pattern of the format, weighted towards places where float code branches.
#[inline]
pub fn float(r: &mut Rng, f: &Fmt) -> u128 {
    let s = if r.one_in(2) { f.sign() } else { 0 };
    let exp = |e: i64| ((e.clamp(0, f.emax_field() as i64 - 1)) as u128) << f.mant;
    match r.below(32) {
        0..=5 => r.u128() & f.all(),
        // uniform exponent, structured fraction
        6..=11 => s | exp(r.below(f.emax_field() as u64) as i64) | frac(r, f),
        // near 1, within a few times the precision
        12..=17 => {
            let k = f.mant as i64 + 12;
            s | exp(f.bias() as i64 + r.range(-k, k)) | frac(r, f)
        }
        // very near 1
        18..=20 => s | exp(f.bias() as i64 + r.range(-4, 8)) | frac(r, f),
        // subnormals and the lowest binades
        21 | 22 => {
            let k = r.below(f.mant as u64 + 1) as u32;
            s | ((r.u128() & f.frac()) >> k)
        }
        23 => s | exp(r.range(0, 3)) | frac(r, f),
        // near overflow
        24 => s | exp(f.emax_field() as i64 - 1 - r.range(0, 3)) | frac(r, f),
        // small integers and halves
        25 | 26 => s | small(r, f),
        // the source's literals and their surroundings
        27..=29 => {
            let d = dict::float_bits(f);
            if d.is_empty() {
                return r.u128() & f.all();
            }
            let (x, free) = d[r.below(d.len() as u64) as usize];
            let low = if free == 0 {
                0
            } else {
                let m = (1u128 << free) - 1;
                match r.below(4) {
                    0 => 0,
                    1 => m,
                    _ => r.u128() & m,
                }
            };
            let d = match r.below(4) {
                0 => 0,
                1 => r.range(-2, 2),
                2 => r.range(-64, 64),
                _ => r.range(-(1 << 20), 1 << 20),
            };
            let step = if free == 0 || r.one_in(2) { d as i128 } else { (d as i128 % 3) << free };
            s | ((x | low) as i128).wrapping_add(step) as u128 & f.mag()
        }
        _ => {
            let v = specials_cached(f);
            let x = v[r.below(v.len() as u64) as usize];
            if r.one_in(3) && f.is_finite(x) {
                (x.wrapping_add(r.range(-3, 3) as u128)) & f.all()
            } else {
                x
            }
        }
    }
}

fn specials_cached(f: &Fmt) -> &'static [u128] {
    use std::sync::OnceLock;
    static S: [OnceLock<Vec<u128>>; 4] = [const { OnceLock::new() }; 4];
    let i = match f.bits {
        16 => 0,
        32 => 1,
        64 => 2,
        _ => 3,
    };
    S[i].get_or_init(|| specials(f))
}

/// Integer or half-integer value, positive, with random magnitude; sometimes one step off.
#[inline]
pub fn small(r: &mut Rng, f: &Fmt) -> u128 {
    let bits = 1 + r.below(f.mant as u64 + 2) as u32;
    let n = r.u128() >> (128 - bits);
    let x = f.from_int(false, n);
    if x == 0 {
        return 0;
    }
    // optionally halve
    let x = if r.one_in(2) && f.exp_field(x) > 1 { x - (1 << f.mant) } else { x };
    if r.one_in(3) {
        (x.wrapping_add(r.range(-1, 1) as u128)) & f.mag()
    } else {
        x
    }
}

/// A pair of related operands.
#[inline]
pub fn float2(r: &mut Rng, f: &Fmt) -> (u128, u128) {
    let x = float(r, f);
    let y = match r.below(12) {
        0..=4 => float(r, f),
        // same magnitude up to a few steps, either sign
        5 => (x.wrapping_add(r.range(-3, 3) as u128) ^ if r.one_in(2) { f.sign() } else { 0 }) & f.all(),
        // exponent at a chosen distance
        6..=9 => {
            let k = f.mant as i64 + 4;
            let d = match r.below(3) {
                0 => r.range(-3, 3),
                1 => r.range(-k, k),
                _ => r.range(-2 * k, 2 * k),
            };
            let e = (f.exp_field(x) as i64 + d).clamp(0, f.emax_field() as i64 - 1) as u128;
            (if r.one_in(2) { f.sign() } else { 0 }) | e << f.mant | frac(r, f)
        }
        // product near the underflow or overflow thresholds
        10 => {
            let target = if r.one_in(2) { r.range(-(f.mant as i64) - 3, 3) } else { f.emax_field() as i64 - r.range(-2, 4) };
            let e = (target + f.bias() as i64 - f.exp_field(x) as i64).clamp(0, f.emax_field() as i64 - 1) as u128;
            (if r.one_in(2) { f.sign() } else { 0 }) | e << f.mant | frac(r, f)
        }
        // quotient near the thresholds
        _ => {
            let target = if r.one_in(2) { r.range(-(f.mant as i64) - 3, 3) } else { f.emax_field() as i64 - r.range(-2, 4) };
            let e = (f.exp_field(x) as i64 + f.bias() as i64 - target).clamp(0, f.emax_field() as i64 - 1) as u128;
            (if r.one_in(2) { f.sign() } else { 0 }) | e << f.mant | frac(r, f)
        }
    };
    if r.one_in(2) {
        (x, y)
    } else {
        (y, x)
    }
}
