//! Exact reference arithmetic for the four binary interchange formats, on bit patterns.

use crate::big::Big;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fmt {
    pub bits: u32,
    /// Explicit fraction bits.
    pub mant: u32,
}

pub const F16: Fmt = Fmt { bits: 16, mant: 10 };
pub const F32: Fmt = Fmt { bits: 32, mant: 23 };
pub const F64: Fmt = Fmt { bits: 64, mant: 52 };
pub const F128: Fmt = Fmt { bits: 128, mant: 112 };

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Val {
    Nan,
    Inf(bool),
    Zero(bool),
    /// (-1)^neg * m * 2^e with m > 0
    Fin(bool, u128, i32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rm {
    Nearest,
    Neg,
    Pos,
    Zero,
}

impl Fmt {
    pub const fn ebits(&self) -> u32 {
        self.bits - 1 - self.mant
    }
    pub const fn emax_field(&self) -> u32 {
        (1 << self.ebits()) - 1
    }
    pub const fn bias(&self) -> i32 {
        (1 << (self.ebits() - 1)) - 1
    }
    /// Exponent of the least significant bit of a subnormal.
    pub const fn emin(&self) -> i32 {
        1 - self.bias() - self.mant as i32
    }
    pub const fn all(&self) -> u128 {
        u128::MAX >> (128 - self.bits)
    }
    pub const fn sign(&self) -> u128 {
        1 << (self.bits - 1)
    }
    pub const fn mag(&self) -> u128 {
        self.sign() - 1
    }
    pub const fn frac(&self) -> u128 {
        (1 << self.mant) - 1
    }
    pub const fn inf(&self) -> u128 {
        (self.emax_field() as u128) << self.mant
    }
    pub const fn nan(&self) -> u128 {
        self.inf() | 1 << (self.mant - 1)
    }
    pub const fn one(&self) -> u128 {
        (self.bias() as u128) << self.mant
    }
    pub const fn max(&self) -> u128 {
        self.inf() - 1
    }
    pub const fn min_normal(&self) -> u128 {
        1 << self.mant
    }

    pub fn is_nan(&self, x: u128) -> bool {
        x & self.mag() > self.inf()
    }
    pub fn is_inf(&self, x: u128) -> bool {
        x & self.mag() == self.inf()
    }
    pub fn is_neg(&self, x: u128) -> bool {
        x & self.sign() != 0
    }
    pub fn is_zero(&self, x: u128) -> bool {
        x & self.mag() == 0
    }
    pub fn is_finite(&self, x: u128) -> bool {
        x & self.mag() < self.inf()
    }
    pub fn exp_field(&self, x: u128) -> u32 {
        ((x & self.mag()) >> self.mant) as u32
    }
    pub fn is_subnormal(&self, x: u128) -> bool {
        self.exp_field(x) == 0 && !self.is_zero(x)
    }

    pub fn decode(&self, x: u128) -> Val {
        let neg = self.is_neg(x);
        let e = self.exp_field(x);
        let f = x & self.frac();
        if e == self.emax_field() {
            if f != 0 {
                Val::Nan
            } else {
                Val::Inf(neg)
            }
        } else if e == 0 {
            if f == 0 {
                Val::Zero(neg)
            } else {
                Val::Fin(neg, f, self.emin())
            }
        } else {
            Val::Fin(neg, f | 1 << self.mant, self.emin() + e as i32 - 1)
        }
    }

    pub fn signed(&self, neg: bool, mag: u128) -> u128 {
        mag | if neg { self.sign() } else { 0 }
    }

    /// Round (-1)^neg * (m [+ something in (0,1) if sticky]) * 2^e. `m` may be zero.
    /// Returns the bits and whether the result is inexact, "tiny before rounding" and overflowed.
    pub fn round_full(&self, rm: Rm, neg: bool, m: &Big, e: i64, sticky: bool) -> (u128, bool, bool, bool) {
        if m.is_zero() && !sticky {
            return (self.signed(neg, 0), false, false, false);
        }
        let p = self.mant + 1;
        let len = m.bits() as i64;
        // exponent of the result's least significant bit
        let lsb = (e + len - p as i64).max(self.emin() as i64);
        let tiny = len == 0 || e + len - 1 < (1 - self.bias()) as i64;
        let shift = lsb - e;
        let (mut r, half, rest) = if shift <= 0 {
            assert!(!sticky || shift == 0, "sticky with a left shift");
            (m.shl((-shift) as u32).low(), false, sticky)
        } else if shift as u64 > Big::BITS as u64 {
            (0, false, true)
        } else {
            let s = shift as u32;
            (m.shr(s).low(), m.bit(s - 1), m.any_below(s - 1) || sticky)
        };
        let inexact = half || rest;
        let up = match rm {
            Rm::Nearest => half && (rest || r & 1 == 1),
            Rm::Neg => neg && inexact,
            Rm::Pos => !neg && inexact,
            Rm::Zero => false,
        };
        r += up as u128;
        // r < 2^p or r == 2^p after a carry; both encode by plain addition
        let field = lsb - self.emin() as i64; // 0 for the subnormal/lowest binade
        if field >= self.emax_field() as i64 {
            return self.overflow(rm, neg);
        }
        let bits = if r < 1 << self.mant {
            debug_assert!(field == 0);
            r
        } else {
            ((field as u128) << self.mant) + r
        };
        // (field << mant) + r has the implicit bit counted once: field 0 with r >= 2^mant is exponent 1
        if bits >= self.inf() {
            return self.overflow(rm, neg);
        }
        (self.signed(neg, bits), inexact, tiny, false)
    }

    fn overflow(&self, rm: Rm, neg: bool) -> (u128, bool, bool, bool) {
        let to_inf = match rm {
            Rm::Nearest => true,
            Rm::Neg => neg,
            Rm::Pos => !neg,
            Rm::Zero => false,
        };
        (self.signed(neg, if to_inf { self.inf() } else { self.max() }), true, false, true)
    }

    pub fn round(&self, neg: bool, m: &Big, e: i64, sticky: bool) -> u128 {
        self.round_full(Rm::Nearest, neg, m, e, sticky).0
    }

    pub fn neg(&self, x: u128) -> u128 {
        x ^ self.sign()
    }

    /// Exact sum of two non-zero finite terms, each (neg, Big, exponent), rounded once.
    fn sum(&self, a: (bool, Big, i64), b: (bool, Big, i64)) -> u128 {
        // order by exponent of the leading bit
        let top = |t: &(bool, Big, i64)| t.2 + t.1.bits() as i64;
        let (hi, lo) = if top(&a) >= top(&b) { (a, b) } else { (b, a) };
        let gap = top(&hi) - top(&lo);
        let width = 420;
        if gap > width {
            // the small one only matters as a direction
            let k = 300;
            let m = hi.1.shl(k);
            let e = hi.2 - k as i64;
            return if hi.0 == lo.0 {
                self.round(hi.0, &m, e, true)
            } else {
                self.round(hi.0, &m.sub(&Big::from(1)), e, true)
            };
        }
        let e = hi.2.min(lo.2);
        let mh = hi.1.shl((hi.2 - e) as u32);
        let ml = lo.1.shl((lo.2 - e) as u32);
        if hi.0 == lo.0 {
            return self.round(hi.0, &mh.add(&ml), e, false);
        }
        match mh.cmp(&ml) {
            std::cmp::Ordering::Equal => 0,
            std::cmp::Ordering::Greater => self.round(hi.0, &mh.sub(&ml), e, false),
            std::cmp::Ordering::Less => self.round(lo.0, &ml.sub(&mh), e, false),
        }
    }

    pub fn add(&self, x: u128, y: u128) -> u128 {
        use Val::*;
        match (self.decode(x), self.decode(y)) {
            (Nan, _) | (_, Nan) => self.nan(),
            (Inf(a), Inf(b)) if a != b => self.nan(),
            (Inf(_), _) => x,
            (_, Inf(_)) => y,
            (Zero(a), Zero(b)) => self.signed(a && b, 0),
            (Zero(_), _) => y,
            (_, Zero(_)) => x,
            (Fin(a, m, e), Fin(b, n, f)) => {
                self.sum((a, Big::from(m), e as i64), (b, Big::from(n), f as i64))
            }
        }
    }

    pub fn sub(&self, x: u128, y: u128) -> u128 {
        if self.is_nan(y) {
            return self.nan();
        }
        self.add(x, self.neg(y))
    }

    pub fn mul(&self, x: u128, y: u128) -> u128 {
        use Val::*;
        let s = self.is_neg(x) != self.is_neg(y);
        match (self.decode(x), self.decode(y)) {
            (Nan, _) | (_, Nan) => self.nan(),
            (Inf(_), Zero(_)) | (Zero(_), Inf(_)) => self.nan(),
            (Inf(_), _) | (_, Inf(_)) => self.signed(s, self.inf()),
            (Zero(_), _) | (_, Zero(_)) => self.signed(s, 0),
            (Fin(_, m, e), Fin(_, n, f)) => self.round(s, &Big::mul(m, n), e as i64 + f as i64, false),
        }
    }

    pub fn div(&self, x: u128, y: u128) -> u128 {
        use Val::*;
        let s = self.is_neg(x) != self.is_neg(y);
        match (self.decode(x), self.decode(y)) {
            (Nan, _) | (_, Nan) => self.nan(),
            (Inf(_), Inf(_)) | (Zero(_), Zero(_)) => self.nan(),
            (Inf(_), _) | (_, Zero(_)) => self.signed(s, self.inf()),
            (Zero(_), _) | (_, Inf(_)) => self.signed(s, 0),
            (Fin(_, m, e), Fin(_, n, f)) => {
                // digit by digit, both significands with their leading one at bit 113
                let (ms, ns) = (m.leading_zeros() - 14, n.leading_zeros() - 14);
                let (mut r, n) = (m << ms, n << ns);
                let k = self.mant + 4;
                let mut q = 0u128;
                for _ in 0..k {
                    q <<= 1;
                    if r >= n {
                        r -= n;
                        q |= 1;
                    }
                    r <<= 1;
                }
                let e = e as i64 - ms as i64 - (f as i64 - ns as i64) - (k as i64 - 1);
                self.round(s, &Big::from(q), e, r != 0)
            }
        }
    }

    pub fn sqrt(&self, x: u128) -> u128 {
        match self.decode(x) {
            Val::Nan | Val::Inf(true) | Val::Fin(true, _, _) => self.nan(),
            Val::Inf(false) | Val::Zero(_) => x,
            Val::Fin(false, m, e) => {
                // digit by digit, two bits of the radicand at a time
                let mut ms = m.leading_zeros();
                if (e - ms as i32) % 2 != 0 {
                    ms -= 1;
                }
                let m = m << ms;
                let e = e - ms as i32;
                let k = self.mant + 4;
                let (mut root, mut rem) = (0u128, 0u128);
                for i in 0..k {
                    let two = if i < 64 { m >> (126 - 2 * i) & 3 } else { 0 };
                    rem = rem << 2 | two;
                    root <<= 1;
                    if rem > 2 * root {
                        rem -= 2 * root + 1;
                        root |= 1;
                    }
                }
                let left = if k < 64 { m << (2 * k) != 0 } else { false };
                self.round(false, &Big::from(root), e as i64 / 2 + 64 - k as i64, rem != 0 || left)
            }
        }
    }

    pub fn fma(&self, x: u128, y: u128, z: u128) -> u128 {
        use Val::*;
        let s = self.is_neg(x) != self.is_neg(y);
        let (a, b, c) = (self.decode(x), self.decode(y), self.decode(z));
        match (a, b, c) {
            (Nan, _, _) | (_, Nan, _) | (_, _, Nan) => return self.nan(),
            (Inf(_), Zero(_), _) | (Zero(_), Inf(_), _) => return self.nan(),
            (Inf(_), _, _) | (_, Inf(_), _) => {
                return match c {
                    Inf(t) if t != s => self.nan(),
                    _ => self.signed(s, self.inf()),
                }
            }
            (_, _, Inf(_)) => return z,
            _ => {}
        }
        match (a, b, c) {
            (Fin(_, m, e), Fin(_, n, f), c) => {
                let p = Big::mul(m, n);
                let pe = e as i64 + f as i64;
                match c {
                    Fin(t, k, g) => self.sum((s, p, pe), (t, Big::from(k), g as i64)),
                    _ => self.round(s, &p, pe, false),
                }
            }
            // product is an exact zero
            (_, _, Zero(t)) => self.signed(s && t, 0),
            _ => z,
        }
    }

    /// Truncating remainder; sign of the dividend.
    pub fn fmod(&self, x: u128, y: u128) -> u128 {
        use Val::*;
        match (self.decode(x), self.decode(y)) {
            (Nan, _) | (_, Nan) | (Inf(_), _) | (_, Zero(_)) => self.nan(),
            (_, Inf(_)) | (Zero(_), _) => x,
            (Fin(s, m, e), Fin(_, n, f)) => {
                let (r, g, _) = rem_parts(m, e, n, f);
                self.round(s, &Big::from(r), g as i64, false)
            }
        }
    }

    /// IEEE remainder and the low bits of the quotient's magnitude.
    pub fn remquo(&self, x: u128, y: u128) -> (u128, u64) {
        use Val::*;
        match (self.decode(x), self.decode(y)) {
            (Nan, _) | (_, Nan) | (Inf(_), _) | (_, Zero(_)) => (self.nan(), 0),
            (_, Inf(_)) | (Zero(_), _) => (x, 0),
            (Fin(s, m, e), Fin(_, n, f)) => {
                let (r, g, mut q) = rem_parts(m, e, n, f);
                // remainder r*2^g in [0, n*2^f), g <= f
                let rb = Big::from(r);
                let nb = if (f - g) as u32 > 400 { None } else { Some(Big::from(n).shl((f - g) as u32)) };
                let (neg, mag) = match nb {
                    // divisor so much larger that the remainder is far below half
                    None => (s, rb),
                    Some(nb) => {
                        let twice = rb.shl(1);
                        let up = match twice.cmp(&nb) {
                            std::cmp::Ordering::Greater => true,
                            std::cmp::Ordering::Equal => q & 1 == 1,
                            std::cmp::Ordering::Less => false,
                        };
                        if up {
                            q = q.wrapping_add(1);
                            (!s, nb.sub(&rb))
                        } else {
                            (s, rb)
                        }
                    }
                };
                if mag.is_zero() {
                    return (self.signed(s, 0), q);
                }
                (self.round(neg, &mag, g as i64, false), q)
            }
        }
    }

    /// Convert between formats; NaN stays NaN with its sign (payload not modelled).
    pub fn convert(&self, x: u128, to: &Fmt) -> u128 {
        match self.decode(x) {
            Val::Nan => to.signed(self.is_neg(x), to.nan()),
            Val::Inf(s) => to.signed(s, to.inf()),
            Val::Zero(s) => to.signed(s, 0),
            Val::Fin(s, m, e) => to.round(s, &Big::from(m), e as i64, false),
        }
    }

    pub fn from_int(&self, neg: bool, mag: u128) -> u128 {
        if mag == 0 {
            return 0;
        }
        self.round(neg, &Big::from(mag), 0, false)
    }

    /// Truncate and saturate to an integer of `w` bits; returned as the two's complement bits.
    pub fn to_int(&self, x: u128, w: u32, signed: bool) -> u128 {
        let mask = u128::MAX >> (128 - w);
        let (maxp, maxn) = if signed { (mask >> 1, (mask >> 1) + 1) } else { (mask, 0) };
        let clamp = |neg: bool, mag: Option<u128>| {
            let lim = if neg { maxn } else { maxp };
            let m = match mag {
                Some(m) if m <= lim => m,
                _ => lim,
            };
            if neg {
                m.wrapping_neg() & mask
            } else {
                m
            }
        };
        match self.decode(x) {
            Val::Nan | Val::Zero(_) => 0,
            Val::Inf(s) => clamp(s, None),
            Val::Fin(s, m, e) => {
                let mag = if e <= -128 {
                    Some(0)
                } else if e <= 0 {
                    Some(m >> (-e))
                } else if e as u32 <= m.leading_zeros() {
                    Some(m << e)
                } else {
                    None
                };
                clamp(s, mag)
            }
        }
    }

    /// Round to an integral value: 0 floor, 1 ceil, 2 trunc, 3 half away, 4 half even.
    pub fn round_int(&self, x: u128, mode: u32) -> u128 {
        let (s, m, e) = match self.decode(x) {
            Val::Nan => return self.nan(),
            Val::Inf(_) | Val::Zero(_) => return x,
            Val::Fin(s, m, e) => (s, m, e),
        };
        if e >= 0 {
            return x;
        }
        let sh = -e as u32;
        let (i, frac_zero, half) = if sh >= 120 {
            (0, false, std::cmp::Ordering::Less)
        } else {
            let f = m & ((1 << sh) - 1);
            (m >> sh, f == 0, f.cmp(&(1 << (sh - 1))))
        };
        if frac_zero {
            return x;
        }
        let up = match mode {
            0 => s,
            1 => !s,
            2 => false,
            3 => half != std::cmp::Ordering::Less,
            4 => half == std::cmp::Ordering::Greater || (half == std::cmp::Ordering::Equal && i & 1 == 1),
            _ => unreachable!(),
        };
        let i = i + up as u128;
        if i == 0 {
            return self.signed(s, 0);
        }
        self.round(s, &Big::from(i), 0, false)
    }

    /// x * 2^n rounded once.
    pub fn scalbn(&self, x: u128, n: i32) -> u128 {
        match self.decode(x) {
            Val::Nan => self.nan(),
            Val::Inf(_) | Val::Zero(_) => x,
            Val::Fin(s, m, e) => self.round(s, &Big::from(m), e as i64 + n as i64, false),
        }
    }

    /// Total order on non-NaN values with -0 == +0, as distance in representable steps.
    pub fn ord(&self, x: u128) -> i128 {
        let m = (x & self.mag()) as i128;
        if self.is_neg(x) {
            -m
        } else {
            m
        }
    }

    pub fn ulps(&self, a: u128, b: u128) -> u128 {
        self.ord(a).abs_diff(self.ord(b))
    }

    pub fn lt(&self, x: u128, y: u128) -> bool {
        !self.is_nan(x) && !self.is_nan(y) && self.ord(x) < self.ord(y)
    }
    pub fn eq(&self, x: u128, y: u128) -> bool {
        !self.is_nan(x) && !self.is_nan(y) && self.ord(x) == self.ord(y)
    }
    /// Same bits, or both NaN.
    pub fn same(&self, x: u128, y: u128) -> bool {
        x == y || (self.is_nan(x) && self.is_nan(y))
    }

    pub fn show(&self, x: u128) -> String {
        let hex = format!("{:#0w$x}", x, w = (self.bits / 4 + 2) as usize);
        let v = match self.bits {
            32 => format!("{:e}", f32::from_bits(x as u32)),
            64 => format!("{:e}", f64::from_bits(x as u64)),
            _ => match self.decode(x) {
                Val::Nan => "NaN".into(),
                Val::Inf(s) => format!("{}inf", if s { "-" } else { "" }),
                Val::Zero(s) => format!("{}0", if s { "-" } else { "" }),
                Val::Fin(s, m, e) => format!("{}{:#x}p{}", if s { "-" } else { "" }, m, e),
            },
        };
        format!("{hex}({v})")
    }
}

/// (m*2^e) mod (n*2^f) as (r, g): value r*2^g, plus the low 64 bits of the integer quotient.
fn rem_parts(m: u128, e: i32, n: u128, f: i32) -> (u128, i32, u64) {
    if e >= f {
        let mut q = (m / n) as u64;
        let mut r = m % n;
        for _ in 0..e - f {
            r <<= 1;
            q = q.wrapping_shl(1);
            if r >= n {
                r -= n;
                q |= 1;
            }
        }
        (r, f, q)
    } else {
        let s = (f - e) as u32;
        if s > n.leading_zeros() || n << s > m {
            // dividend is below the divisor
            (m, e, 0)
        } else {
            let d = n << s;
            (m % d, e, (m / d) as u64)
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::gen;
    use crate::rng::Rng;

    #[test]
    fn against_hardware() {
        let mut r = Rng::new(1, 2, 3);
        for _ in 0..3_000_000 {
            let (a, b) = gen::float2(&mut r, &F64);
            let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
            for (got, want) in [
                (F64.add(a, b), x + y),
                (F64.mul(a, b), x * y),
                (F64.div(a, b), x / y),
                (F64.sqrt(a), x.sqrt()),
            ] {
                assert!(F64.same(got, want.to_bits() as u128), "{x:?} {y:?} {got:#x} {want:?}");
            }
            assert!(F32.same(F64.convert(a, &F32), (x as f32).to_bits() as u128));
            let (a, b) = gen::float2(&mut r, &F32);
            let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
            assert!(F32.same(F32.div(a, b), (x / y).to_bits() as u128));
            assert!(F32.same(F32.sqrt(a), x.sqrt().to_bits() as u128));
            // f128 quotients and roots by their defining inequalities
            let (a, b) = gen::float2(&mut r, &F128);
            let q = F128.div(a, b);
            if F128.is_finite(q) && !F128.is_zero(q) && !F128.is_subnormal(q) && F128.is_finite(b) {
                // a between b*(q - half) and b*(q + half)
                let (Val::Fin(_, qm, qe), Val::Fin(_, bm, be), Val::Fin(_, am, ae)) = (F128.decode(q), F128.decode(b), F128.decode(a)) else { continue };
                let lo = Big::mul(2 * qm - 1, bm);
                let hi = Big::mul(2 * qm + 1, bm);
                let sh = ae + 1 - qe - be;
                let (lo, hi, v) = if sh >= 0 { (lo, hi, Big::from(am).shl(sh as u32)) } else { (lo.shl(-sh as u32), hi.shl(-sh as u32), Big::from(am)) };
                // at the lower end of a binade the lower interval is half as wide
                assert!(v.ge(&lo) && hi.ge(&v));
            }
        }
    }
}
