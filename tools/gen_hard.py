#!/usr/bin/env python3
"""Write harness/vmath/src/hard.rs: arguments unusually close to multiples of pi/2, for every
exponent of the 32- and 64-bit formats, from the continued fraction of 2^e / (pi/2)."""
from fractions import Fraction

def pi_bits(n):
    # Machin, n bits after the point
    g = n + 64
    one = 1 << g
    def atan_inv(k):
        t = one // k
        s, i, sign = t, 1, -1
        while t:
            t //= k * k
            i += 2
            s += sign * (t // i)
            sign = -sign
        return s
    return (4 * (4 * atan_inv(5) - atan_inv(239))) >> 64

N = 2600
PI = pi_bits(N)
HALF = PI  # pi/2 = HALF / 2^(N+1)

def hard(p, e):
    """mantissas m of p bits with m*2^e close to a multiple of pi/2"""
    num, den = (1 << (N + 1 + e), HALF) if e >= 0 else (1 << (N + 1), HALF << -e)
    lo, hi = 1 << (p - 1), (1 << p) - 1
    a, b = num, den
    q0, q1 = 0, 1
    found = {}
    def dist(m):
        r = m * num % den
        return min(r, den - r)
    first = True
    while b:
        k = a // b
        q0, q1 = (q1, k * q1 + q0) if not first else (0, 1)
        first = False
        a, b = b, a % b
        if q1 > hi:
            break
        if q1:
            for m in {q1 * (lo // q1 + 1), q1 * (hi // q1)}:
                if lo <= m <= hi:
                    found[m] = dist(m)
    return [m for m, _ in sorted(found.items(), key=lambda t: t[1])[:3]]

def table(p, elo, ehi, bias, mant):
    out = []
    for e in range(elo, ehi):
        for m in hard(p, e):
            out.append((e + mant + bias) << mant | (m & ((1 << mant) - 1)))
    return out

t32 = table(24, -26, 128 - 24, 127, 23)
t64 = table(53, -56, 1024 - 53 + 0, 1023, 52)
with open("/verif/harness/vmath/src/hard.rs", "w") as f:
    f.write("//! Written by tools/gen_hard.py: arguments close to multiples of pi/2.\n")
    for n, t, ty in (("TRIG32", t32, "u32"), ("TRIG64", t64, "u64")):
        f.write(f"pub const {n}: &[{ty}] = &[\n")
        for i in range(0, len(t), 6):
            f.write("    " + ", ".join(hex(x) for x in t[i:i + 6]) + ",\n")
        f.write("];\n")
print(len(t32), len(t64))
assert (797 + 52 + 1023) << 52 | (6381956970095103 & (1 << 52) - 1) in t64
