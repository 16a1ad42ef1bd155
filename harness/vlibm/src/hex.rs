//! Hexadecimal float text.
use vcore::big::Big;
use vcore::gen;
use vcore::sf::{Fmt, Rm, F128, F16, F32, F64};
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::expect;

const MODES: [Rm; 4] = [Rm::Nearest, Rm::Neg, Rm::Pos, Rm::Zero];
const STD: [Fmt; 4] = [F16, F32, F64, F128];

/// Case: w[0] selects format and rounding; w[1] = repeated character (8 bits), its position (8),
/// how often (the rest); w[2..] are the other characters, 16 to a word, ended by a zero.
fn format_of(w: u128) -> (Fmt, Rm) {
    let rm = MODES[(w & 3) as usize];
    let sel = (w >> 2 & 7) as usize;
    if sel < 4 {
        return (STD[sel], rm);
    }
    // any other format the parser claims to support
    let mant = 1 + (w >> 8 & 0xff) as u32 % 119;
    let lo = mant + 3;
    let hi = (mant + 30).min(128);
    let bits = lo + (w >> 16 & 0xff) as u32 % (hi - lo + 1);
    (Fmt { bits, mant }, rm)
}

fn text(w: &Words) -> String {
    let mut s = String::new();
    let (c, pos, n) = ((w[1] & 0x7f) as u8, (w[1] >> 8 & 0xff) as usize, (w[1] >> 16 & 0xfff) as usize);
    let mut at = 0;
    'out: for word in &w[2..] {
        for b in word.to_le_bytes() {
            if at == pos {
                for _ in 0..n {
                    s.push(c as char);
                }
            }
            if b & 0x7f == 0 {
                break 'out;
            }
            s.push((b & 0x7f) as char);
            at += 1;
        }
    }
    s
}

fn store(s: &str, w: &mut Words) {
    let b = s.as_bytes();
    for i in 0..6 {
        let mut v = [0u8; 16];
        for (j, d) in v.iter_mut().enumerate() {
            *d = b.get(i * 16 + j).copied().unwrap_or(0);
        }
        w[2 + i] = u128::from_le_bytes(v);
    }
}

enum Parsed {
    Bad,
    Nan(bool),
    Inf(bool),
    /// (sign, digits, more digits that are not all zero follow, exponent)
    Fin(bool, Big, bool, i64),
}

/// The grammar, independently: optional sign, then inf, nan, or 0x, hexadecimal digits with at
/// most one point among them, p, optional sign, decimal digits.
fn parse(s: &str) -> Parsed {
    let (neg, rest) = match s.as_bytes().first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    if rest.eq_ignore_ascii_case("inf") {
        return Parsed::Inf(neg);
    }
    if rest.eq_ignore_ascii_case("nan") {
        return Parsed::Nan(neg);
    }
    let Some(rest) = rest.strip_prefix("0x").or_else(|| rest.strip_prefix("0X")) else { return Parsed::Bad };
    let Some(p) = rest.find(['p', 'P']) else { return Parsed::Bad };
    let (mant, exp) = (&rest[..p], &rest[p + 1..]);
    let (eneg, edigits) = match exp.as_bytes().first() {
        Some(b'-') => (true, &exp[1..]),
        Some(b'+') => (false, &exp[1..]),
        _ => (false, exp),
    };
    if edigits.is_empty() || !edigits.bytes().all(|c| c.is_ascii_digit()) {
        return Parsed::Bad;
    }
    let mut e = 0i64;
    for c in edigits.bytes() {
        e = (e * 10 + (c - b'0') as i64).min(1 << 50);
    }
    if eneg {
        e = -e;
    }
    let (mut seen, mut digits) = (false, 0);
    let mut m = Big::from(0);
    let mut more = false;
    for c in mant.bytes() {
        if c == b'.' {
            if seen {
                return Parsed::Bad;
            }
            seen = true;
            continue;
        }
        let Some(d) = (c as char).to_digit(16) else { return Parsed::Bad };
        digits += 1;
        if m.bits() < 300 {
            m = m.shl(4).add(&Big::from(d as u128));
            e -= if seen { 4 } else { 0 };
        } else {
            more |= d != 0;
            e += if seen { 0 } else { 4 };
        }
    }
    if digits == 0 {
        return Parsed::Bad;
    }
    Parsed::Fin(neg, m, more, e)
}

fn gen_text(r: &mut Rng, w: &mut Words) {
    w[0] = r.u128() & 0xff_ffff;
    if !r.one_in(4) {
        w[0] &= !(1 << 4);
    }
    w[1] = 0;
    let (f, _) = format_of(w[0]);
    // digits
    let p = f.mant + 1;
    let m: Vec<u8> = {
        let mut s = String::new();
        match r.below(6) {
            0 | 1 => {
                for _ in 0..1 + r.below(44) {
                    s.push(char::from_digit(r.below(16) as u32, 16).unwrap());
                }
            }
            // exactly representable, or a tie, or next to one
            2..=4 => {
                let sig = Big::from(gen::int(r, p.min(127)));
                let k = r.below(140) as u32;
                let x = sig.shl(k + 1);
                let x = match r.below(4) {
                    0 => x,
                    1 => x.add(&Big::from(1).shl(k)),
                    2 => x.add(&Big::from(1).shl(k)).add(&Big::from(1)),
                    _ => {
                        let y = x.add(&Big::from(1).shl(k));
                        if k > 0 { y.sub(&Big::from(1)) } else { y }
                    }
                };
                // to hexadecimal, at a random alignment
                let x = x.shl(r.below(4) as u32);
                let n = x.bits().div_ceil(4).max(1);
                for i in (0..n).rev() {
                    s.push(char::from_digit(x.shr(4 * i).low() as u32 & 15, 16).unwrap());
                }
            }
            _ => {
                for _ in 0..1 + r.below(44) {
                    s.push(['0', 'f', '8', '1', '7', '0'][r.below(6) as usize]);
                }
            }
        }
        if r.one_in(4) {
            s.make_ascii_uppercase();
        }
        s.into_bytes()
    };
    let mut m = m;
    if r.one_in(4) {
        for _ in 0..r.below(6) {
            m.insert(0, b'0');
        }
    }
    if r.one_in(8) {
        for _ in 0..r.below(6) {
            m.push(b'0');
        }
    }
    m.truncate(78);
    let len = m.len() as i64;
    let lead = m.iter().take_while(|c| **c == b'0').count() as i64;
    let point = match r.below(4) {
        0 => len,
        1 => lead + 1,
        2 => 0,
        _ => r.range(0, len),
    }
    .clamp(0, len);
    // value is about 16^(point - lead) * 2^exp
    let top = 4 * (point - lead);
    let target = match r.below(8) {
        0 | 1 => r.range(1 - f.bias() as i64, f.bias() as i64),
        2..=4 => 1 - f.bias() as i64 - r.range(-3, f.mant as i64 + 4),
        5 => f.bias() as i64 + r.range(-3, 4),
        6 => r.range(-3 * f.bias() as i64 - 200, 3 * f.bias() as i64 + 200),
        _ => r.range(-8, 8),
    };
    let e = target - top + 1 + r.range(-1, 4);
    let mut s = String::new();
    s.push_str(["", "-", "+", ""][r.below(4) as usize]);
    s.push_str(if r.one_in(5) { "0X" } else { "0x" });
    let body = s.len();
    for (i, c) in m.iter().enumerate() {
        if i as i64 == point && !(point == len && r.one_in(2)) {
            s.push('.');
        }
        s.push(*c as char);
    }
    s.push(if r.one_in(5) { 'P' } else { 'p' });
    match r.below(24) {
        // exponents beyond any integer type, or around the limits of one
        0 => {
            s.push_str(["", "-", "+"][r.below(3) as usize]);
            for _ in 0..1 + r.below(14) {
                s.push(char::from_digit(r.below(10) as u32, 10).unwrap());
            }
        }
        1 => {
            s.push_str(["", "-", "+"][r.below(3) as usize]);
            let v: i128 = (1i128 << [31, 32, 33, 16, 63, 64][r.below(6) as usize]) + r.range(-600, 600) as i128;
            s.push_str(&v.to_string());
        }
        2 => {
            // far away by a power of two, where truncated exponents come back
            let k = 1i64 << (10 + r.below(24));
            let e = if r.one_in(2) { e + k } else { e - k };
            s.push_str(&e.to_string());
        }
        _ => {
            if e >= 0 && r.one_in(3) {
                s.push('+');
            }
            s.push_str(&e.to_string());
        }
    }
    // occasionally break it, or replace it by a name
    if r.one_in(8) {
        let mut b = s.clone().into_bytes();
        for _ in 0..1 + r.below(2) {
            let i = r.below(b.len() as u64) as usize;
            match r.below(4) {
                0 => {
                    b.remove(i);
                }
                1 => b[i] = b"+-.pPxX0gG inf nan_/:@`"[r.below(23) as usize],
                2 => b.insert(i, b"+-.pPxX0 gG"[r.below(11) as usize]),
                _ => b.truncate(i),
            }
            if b.is_empty() {
                break;
            }
        }
        s = String::from_utf8(b).unwrap();
    } else if r.one_in(64) {
        s = ["inf", "-inf", "+INF", "NaN", "-nan", "+nan", "infinity", "-", "", "0x", "0xp1", "0x.p1", "1p1", "0x1", "0x1p", "0x1p+", "in", "nano"][r.below(18) as usize].into();
    }
    s.truncate(95);
    store(&s, w);
    if r.one_in(12) {
        // a long run of one digit inside the digits or the exponent
        let pos = if r.one_in(4) { s.len().saturating_sub(1) as u64 } else { body as u64 + r.below(m.len() as u64 + 2) };
        let n = if r.one_in(2) { 1 + r.below(60) } else { 1 + r.below(1200) };
        let c = b"0000f18"[r.below(7) as usize];
        w[1] = c as u128 | (pos as u128 & 0xff) << 8 | (n as u128) << 16;
    }
}

macro_rules! against {
    ($lib:ident, $label:literal, $s:expr, $f:expr, $rm:expr, $want:expr, $log:expr, $bad:expr) => {{
        use $lib::support::hex_float as h;
        use $lib::support::{Round, Status};
        let round = match $rm {
            Rm::Nearest => Round::Nearest,
            Rm::Neg => Round::Negative,
            Rm::Pos => Round::Positive,
            Rm::Zero => Round::Zero,
        };
        let (s, f): (&str, Fmt) = ($s, $f);
        let got = h::parse_any(s, f.bits, f.mant, round);
        let exact = h::parse_hex_exact(s, f.bits, f.mant);
        match (&got, &$want) {
            (Err(_), None) => {
                expect!($log, $bad, exact.is_err(), "{}: exact parsing accepted malformed {s:?}", $label);
            }
            (Ok((b, _)), None) => expect!($log, $bad, false, "{}: malformed {s:?} gave {b:#x}", $label),
            (Err(e), Some(_)) => expect!($log, $bad, false, "{}: {s:?} rejected: {e:?}", $label),
            (Ok((b, st)), Some((bits, inexact, under, over))) => {
                expect!($log, $bad, f.same(*b, *bits), "{}: {s:?} as {}/{} {:?} gave {b:#x}, want {bits:#x}", $label, f.bits, f.mant, $rm);
                let got = (st.inexact(), st.underflow(), st.overflow());
                expect!(
                    $log, $bad, got.0 == *inexact && got.2 == *over && under.is_none_or(|u| got.1 == u),
                    "{}: {s:?} as {}/{} {:?} gave {b:#x} with (inexact, underflow, overflow) = {got:?}, want {:?}", $label, f.bits, f.mant, $rm, (inexact, under, over)
                );
                expect!($log, $bad, *inexact || *st == Status::OK, "{}: {s:?} exact but status {st:?}", $label);
                match exact {
                    Ok(e) => expect!($log, $bad, !*inexact && f.same(e, *bits), "{}: exact parsing of {s:?} as {}/{} gave {e:#x}, want {bits:#x} inexact {inexact}", $label, f.bits, f.mant),
                    Err(e) => expect!($log, $bad, *inexact, "{}: exact parsing rejected {s:?} as {}/{}: {e:?}", $label, f.bits, f.mant),
                }
                if !*inexact && !$bad {
                    let v = match f {
                        F16 => h::hf16(s).to_bits() as u128,
                        F32 => h::hf32(s).to_bits() as u128,
                        F64 => h::hf64(s).to_bits() as u128,
                        F128 => h::hf128(s).to_bits(),
                        _ => *bits,
                    };
                    expect!($log, $bad, f.same(v, *bits), "{}: constant {s:?} is {v:#x}, want {bits:#x}", $label);
                }
            }
        }
    }};
}

fn parsing(w: &Words, mut log: Option<&mut String>) -> Out {
    let (f, rm) = format_of(w[0]);
    let s = text(w);
    let p = parse(&s);
    let mut trivial = false;
    let want: Option<(u128, bool, Option<bool>, bool)> = match p {
        Parsed::Bad => None,
        Parsed::Nan(n) => Some((f.signed(n, f.nan()), false, Some(false), false)),
        Parsed::Inf(n) => Some((f.signed(n, f.inf()), false, Some(false), false)),
        Parsed::Fin(n, m, more, e) => {
            trivial = m.is_zero();
            let (bits, inexact, tiny, over) = f.round_full(rm, n, &m, e, more);
            // underflow: inexact and the result is below the normal range; when rounding reaches
            // the smallest normal number either reading of IEEE 754 is accepted
            let under = if !inexact || over {
                Some(false)
            } else if bits & f.mag() < f.min_normal() {
                Some(true)
            } else if tiny {
                None
            } else {
                Some(false)
            };
            Some((bits, inexact, under, over))
        }
    };
    let mut bad = false;
    against!(l1, "library", &s, f, rm, want, log, bad);
    against!(l2, "checked build", &s, f, rm, want, log, bad);
    if let (false, Some(l)) = (bad, log) {
        match want {
            None => l.push_str(&format!("{s:?} is rejected")),
            Some((b, i, ..)) => l.push_str(&format!("{s:?} as {}/{} {rm:?} is {b:#x}{}", f.bits, f.mant, if i { " (inexact)" } else { "" })),
        }
    }
    if bad {
        Out::Fail
    } else if trivial {
        Out::Trivial
    } else {
        Out::Ok
    }
}

pub fn c37(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = vec![Sub::new("parse", 8, ctx.n(4_000_000, 70_000_000), |r: &mut Rng, _, w: &mut Words| gen_text(r, w), parsing).unit(1 << 12)];
    for f in STD {
        let all = f.bits == 16;
        let name = if all { "print and parse f16 [all]".to_string() } else { format!("print and parse f{}", f.bits) };
        let sub = Sub::new(
            name,
            1,
            if all { 1 << 16 } else { ctx.n(600_000, 12_000_000) },
            move |r: &mut Rng, i, w: &mut Words| w[0] = if all { i as u128 } else { gen::float(r, &f) },
            move |w, mut log| {
                let x = w[0] & f.all();
                let mut bad = false;
                macro_rules! one {
                    ($lib:ident, $label:literal) => {{
                        use $lib::support::Hex;
                        let (s, upper, raw) = match f {
                            F16 => { let v = f16::from_bits(x as u16); (format!("{}", Hex(v)), format!("{:?}", Hex(v)), format!("{:-}", Hex(v))) }
                            F32 => { let v = f32::from_bits(x as u32); (format!("{}", Hex(v)), format!("{:?}", Hex(v)), format!("{:-}", Hex(v))) }
                            F64 => { let v = f64::from_bits(x as u64); (format!("{}", Hex(v)), format!("{:?}", Hex(v)), format!("{:-}", Hex(v))) }
                            _ => { let v = f128::from_bits(x); (format!("{}", Hex(v)), format!("{:?}", Hex(v)), format!("{:-}", Hex(v))) }
                        };
                        expect!(log, bad, s == upper, "{}: {} printed {s:?} and {upper:?}", $label, f.show(x));
                        let want = format!("{:#0w$x}", x, w = f.bits as usize / 4 + 2);
                        expect!(log, bad, raw == want, "{}: bits of {} printed {raw:?}", $label, f.show(x));
                        if f.is_nan(x) {
                            let quiet = x >> (f.mant - 1) & 1 == 1;
                            expect!(log, bad, s.contains(if quiet { "qNaN" } else { "sNaN" }) && s.starts_with(if f.is_neg(x) { '-' } else { '+' }), "{}: {} printed {s:?}", $label, f.show(x));
                        } else {
                            let back = $lib::support::hex_float::parse_hex_exact(&s, f.bits, f.mant);
                            expect!(log, bad, matches!(back, Ok(b) if b == x), "{}: {} printed {s:?}, which parses to {back:x?}", $label, f.show(x));
                            // and by the independent grammar
                            let ok = match parse(&s) {
                                Parsed::Fin(n, m, more, e) => f.round_full(Rm::Nearest, n, &m, e, more).0 == x,
                                Parsed::Inf(n) => f.signed(n, f.inf()) == x,
                                _ => false,
                            };
                            expect!(log, bad, ok, "{}: {} printed {s:?}", $label, f.show(x));
                        }
                        s
                    }};
                }
                let s = one!(l1, "library");
                one!(l2, "checked build");
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{} prints {s:?}", f.show(x)));
                }
                if bad {
                    Out::Fail
                } else if f.is_nan(x) || f.is_zero(x) {
                    Out::Trivial
                } else {
                    Out::Ok
                }
            },
        );
        s.push(if all { sub.enumerated() } else { sub.unit(1 << 12) });
    }
    (
        Meta {
            rule: "non-trivial: the text is malformed or its value is not zero; printed values count when finite and not zero or infinite",
            assumptions: vec![
                "underflow means inexact with a result below the normal range; where rounding reaches the smallest normal number, whether underflow is reported is not judged".into(),
                "texts up to about 1300 characters".into(),
            ],
        },
        s,
    )
}
