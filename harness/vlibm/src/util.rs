//! Shared by the checks of this package.
use vcore::gen;
use vcore::sf::Fmt;
use vcore::{Out, Rng};

pub fn fin(bad: bool, nontrivial: bool) -> Out {
    if bad {
        Out::Fail
    } else if nontrivial {
        Out::Ok
    } else {
        Out::Trivial
    }
}

pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// Values around integers and half-integers, in the range where rounding does something.
pub fn gen_round(r: &mut Rng, f: &Fmt) -> u128 {
    let s = if r.one_in(2) { f.sign() } else { 0 };
    match r.below(4) {
        0 => gen::float(r, f),
        1 => s | gen::small(r, f),
        _ => {
            let e = (f.bias() as i64 + r.range(-3, f.mant as i64 + 2)) as u128;
            let mut fr = gen::frac(r, f);
            // fraction bits below the binary point: zero, one half, or a single step from those
            let unb = e as i64 - f.bias() as i64;
            if unb >= 0 && unb < f.mant as i64 && r.one_in(2) {
                let k = f.mant as i64 - unb;
                let low = (1u128 << k) - 1;
                let half = 1u128 << (k - 1);
                fr &= !low;
                fr |= match r.below(6) {
                    0 => 0,
                    1 => half,
                    2 => half.wrapping_sub(1),
                    3 => (half + 1) & low,
                    4 => low,
                    _ => 1 & low,
                };
            }
            s | e << f.mant | fr
        }
    }
}
