//! Fixed-size unsigned integers for exact reference arithmetic. Written for clarity.

const L: usize = 16;

/// 1024 bits, little-endian limbs.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Big(pub [u64; L]);

impl Big {
    pub const ZERO: Big = Big([0; L]);
    pub const BITS: u32 = 64 * L as u32;

    pub fn from(x: u128) -> Big {
        let mut r = [0; L];
        r[0] = x as u64;
        r[1] = (x >> 64) as u64;
        Big(r)
    }

    pub fn low(&self) -> u128 {
        self.0[0] as u128 | (self.0[1] as u128) << 64
    }

    pub fn is_zero(&self) -> bool {
        self.0.iter().all(|l| *l == 0)
    }

    pub fn bits(&self) -> u32 {
        for i in (0..L).rev() {
            if self.0[i] != 0 {
                return 64 * i as u32 + 64 - self.0[i].leading_zeros();
            }
        }
        0
    }

    pub fn bit(&self, i: u32) -> bool {
        i < Self::BITS && self.0[(i / 64) as usize] >> (i % 64) & 1 == 1
    }

    pub fn shl(&self, n: u32) -> Big {
        assert!(self.bits() + n <= Self::BITS, "Big overflow");
        let (w, b) = ((n / 64) as usize, n % 64);
        let mut r = [0; L];
        for i in (w..L).rev() {
            r[i] = self.0[i - w] << b;
            if b > 0 && i > w {
                r[i] |= self.0[i - w - 1] >> (64 - b);
            }
        }
        Big(r)
    }

    pub fn shr(&self, n: u32) -> Big {
        if n >= Self::BITS {
            return Big::ZERO;
        }
        let (w, b) = ((n / 64) as usize, n % 64);
        let mut r = [0; L];
        for i in 0..L - w {
            r[i] = self.0[i + w] >> b;
            if b > 0 && i + w + 1 < L {
                r[i] |= self.0[i + w + 1] << (64 - b);
            }
        }
        Big(r)
    }

    /// True if any bit below `n` is set.
    pub fn any_below(&self, n: u32) -> bool {
        let n = n.min(Self::BITS);
        for i in 0..(n / 64) as usize {
            if self.0[i] != 0 {
                return true;
            }
        }
        let b = n % 64;
        b > 0 && self.0[(n / 64) as usize] & ((1 << b) - 1) != 0
    }

    pub fn add(&self, o: &Big) -> Big {
        let mut r = [0; L];
        let mut c = false;
        for i in 0..L {
            let (s, c1) = self.0[i].overflowing_add(o.0[i]);
            let (s, c2) = s.overflowing_add(c as u64);
            r[i] = s;
            c = c1 | c2;
        }
        assert!(!c, "Big overflow");
        Big(r)
    }

    /// Requires `self >= o`.
    pub fn sub(&self, o: &Big) -> Big {
        let mut r = [0; L];
        let mut c = false;
        for i in 0..L {
            let (s, c1) = self.0[i].overflowing_sub(o.0[i]);
            let (s, c2) = s.overflowing_sub(c as u64);
            r[i] = s;
            c = c1 | c2;
        }
        assert!(!c, "Big underflow");
        Big(r)
    }

    pub fn cmp(&self, o: &Big) -> std::cmp::Ordering {
        for i in (0..L).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        std::cmp::Ordering::Equal
    }

    pub fn ge(&self, o: &Big) -> bool {
        self.cmp(o) != std::cmp::Ordering::Less
    }

    pub fn mul(a: u128, b: u128) -> Big {
        Big::from(a).mul_big(&Big::from(b))
    }

    pub fn mul_big(&self, o: &Big) -> Big {
        let mut r = [0u64; L];
        for i in 0..L {
            if self.0[i] == 0 {
                continue;
            }
            let mut carry = 0u128;
            for j in 0..L {
                if i + j >= L {
                    assert!(o.0[j] == 0 && carry == 0, "Big overflow");
                    continue;
                }
                let t = self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128 + carry;
                r[i + j] = t as u64;
                carry = t >> 64;
            }
            assert!(carry == 0, "Big overflow");
        }
        Big(r)
    }

    /// Schoolbook binary long division.
    pub fn div_rem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero());
        let mut q = Big::ZERO;
        let (n, m) = (self.bits(), d.bits());
        if n < m {
            return (q, *self);
        }
        let mut r = *self;
        for s in (0..=n - m).rev() {
            let t = d.shl(s);
            if r.ge(&t) {
                r = r.sub(&t);
                q.0[(s / 64) as usize] |= 1 << (s % 64);
            }
        }
        (q, r)
    }

    /// Floor of the square root, bit by bit.
    pub fn isqrt(&self) -> Big {
        let mut r = Big::ZERO;
        let mut s = self.bits().div_ceil(2);
        while s > 0 {
            s -= 1;
            let mut t = r;
            t.0[(s / 64) as usize] |= 1 << (s % 64);
            if self.ge(&t.mul_big(&t)) {
                r = t;
            }
        }
        r
    }

    pub fn hex(&self) -> String {
        let mut s = String::new();
        for i in (0..L).rev() {
            s.push_str(&format!("{:016x}", self.0[i]));
        }
        let t = s.trim_start_matches('0');
        format!("0x{}", if t.is_empty() { "0" } else { t })
    }
}
