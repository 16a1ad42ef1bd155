//! The command line tool that evaluates functions and takes floats apart.
use std::process::Command;

use libm::support::Hex;
use libm_test::mpfloat::MpOp;
use libm_test::{MathOp, TupleCall};
use rug::ops::Pow;
use vcore::big::Big;
use vcore::gen;
use vcore::sf::{Fmt, Val, F128, F16, F32, F64};
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::expect;

use crate::util::fin;

#[derive(Clone, Copy)]
pub enum Kind {
    Float(&'static Fmt),
    Int(u32, bool),
}

pub trait Elem: Sized {
    fn kind() -> Kind;
    fn make(bits: u128) -> Self;
}

macro_rules! elems {
    ($($t:ty, $u:ty, $f:expr;)*; $($i:ty, $s:expr;)*) => {
        $(impl Elem for $t {
            fn kind() -> Kind { Kind::Float(&$f) }
            fn make(b: u128) -> Self { <$t>::from_bits(b as $u) }
        })*
        $(impl Elem for $i {
            fn kind() -> Kind { Kind::Int(<$i>::BITS, $s) }
            fn make(b: u128) -> Self { b as $i }
        })*
    };
}
elems!(f16, u16, F16; f32, u32, F32; f64, u64, F64; f128, u128, F128;;
    i32, true; i64, true; i128, true; u32, false; u64, false; u128, false;);

pub trait Args: Sized {
    fn kinds() -> Vec<Kind>;
    fn make(w: &[u128]) -> Self;
}
impl<A: Elem> Args for (A,) {
    fn kinds() -> Vec<Kind> {
        vec![A::kind()]
    }
    fn make(w: &[u128]) -> Self {
        (A::make(w[0]),)
    }
}
impl<A: Elem, B: Elem> Args for (A, B) {
    fn kinds() -> Vec<Kind> {
        vec![A::kind(), B::kind()]
    }
    fn make(w: &[u128]) -> Self {
        (A::make(w[0]), B::make(w[1]))
    }
}
impl<A: Elem, B: Elem, C: Elem> Args for (A, B, C) {
    fn kinds() -> Vec<Kind> {
        vec![A::kind(), B::kind(), C::kind()]
    }
    fn make(w: &[u128]) -> Self {
        (A::make(w[0]), B::make(w[1]), C::make(w[2]))
    }
}

pub struct Op {
    pub name: &'static str,
    pub kinds: fn() -> Vec<Kind>,
    pub libm: fn(&[u128]) -> String,
    pub mpfr: Option<fn(&[u128]) -> String>,
}

macro_rules! ops {
    (
        fn_name: $fn_name:ident,
        RustArgs: $RustArgs:ty,
        path: $path:path,
        attrs: [$($attr:meta),*],
        extra: $v:ident,
        fn_extra: $mp:expr,
    ) => {
        $v.push(Op {
            name: stringify!($fn_name),
            kinds: <$RustArgs as Args>::kinds,
            libm: |w| {
                type R = libm_test::op::$fn_name::Routine;
                let f: <R as MathOp>::RustFn = $path;
                let out = <$RustArgs as Args>::make(w).call(f);
                format!("{out:?} {:x}", Hex(out))
            },
            mpfr: if $mp {
                Some(|w| {
                    type R = libm_test::op::$fn_name::Routine;
                    let mut mp = <R as MpOp>::new_mp();
                    let out = <R as MpOp>::run(&mut mp, <$RustArgs as Args>::make(w));
                    format!("{out:?} {:x}", Hex(out))
                })
            } else {
                None
            },
        });
    };
}

pub fn ops() -> Vec<Op> {
    let mut v = Vec::new();
    libm_macros::for_each_function! {
        callback: ops,
        emit_types: [RustArgs, path],
        extra: v,
        fn_extra: match MACRO_FN_NAME {
            nextafter | nextafterf => false,
            _ => true,
        }
    }
    v
}

fn is_division(name: &str) -> bool {
    name.starts_with("idiv") || name.starts_with("imod")
}

/// Arguments that every basis answers quickly.
fn tame(name: &str, kinds: &[Kind], w: &mut [u128]) {
    let bessel = matches!(name.trim_end_matches('f'), "j0" | "j1" | "jn" | "y0" | "y1" | "yn");
    for (i, k) in kinds.iter().enumerate() {
        match *k {
            Kind::Float(f) => {
                w[i] &= f.all();
                // |x| up to 2^9
                let top = (f.exp_field(f.one()) as u128 + 9) << f.mant;
                if bessel && f.is_finite(w[i]) && w[i] & f.mag() > top {
                    w[i] = (w[i] & f.sign()) | (w[i] & f.mag()) % top;
                }
            }
            Kind::Int(b, _) => {
                let all = u128::MAX >> (128 - b);
                w[i] &= all;
                if bessel {
                    w[i] = (w[i] as i32 % 40) as u128 & all;
                }
                let first = match kinds[0] {
                    Kind::Int(b, _) => b,
                    _ => 0,
                };
                if i == 1 && (name.starts_with("ash") || name.starts_with("lsh")) {
                    w[i] %= first as u128;
                }
                if i == 1 && is_division(name) && (w[i] == 0 || w[i] == all) {
                    w[i] = 1;
                }
            }
        }
    }
}

/// The nearest value of a decimal number.
fn decimal(f: &Fmt, neg: bool, digits: &str, exp10: i64) -> u128 {
    let n: rug::Integer = digits.parse().unwrap();
    if n == 0 {
        return f.signed(neg, 0);
    }
    let ten = rug::Integer::from(10);
    let scale = ten.pow(exp10.unsigned_abs() as u32);
    let (num, den) = if exp10 >= 0 { (n * scale, rug::Integer::from(1)) } else { (n, scale) };
    // 124 or 125 bits of the quotient
    let s = 124 - (num.significant_bits() as i64 - den.significant_bits() as i64);
    let (num, den) = if s >= 0 { (num << s as u32, den) } else { (num, den << (-s) as u32) };
    let (q, r) = num.div_rem(den);
    f.round(neg, &Big::from(q.to_u128().unwrap()), -s, r != 0)
}

/// One way of writing a float; the bits say what it is to be read as.
fn float_text(r: &mut Rng, f: &Fmt, x: u128) -> (String, u128) {
    let val = f.decode(x);
    let form = r.below(8);
    match (form, val) {
        (0, _) => (format!("0x{}{x:x}", &"0000"[..r.below(5) as usize]), x),
        (1, _) => (format!("0b{x:b}"), x),
        (_, Val::Inf(neg)) => (if neg { "-inf" } else { "inf" }.into(), x),
        (_, Val::Nan) => (format!("0x{x:x}"), x),
        (2 | 3, _) => {
            // m * 2^e with some of the digits behind the point
            let neg = f.is_neg(x);
            let e = f.exp_field(x);
            let m = if e == 0 { x & (f.mag() >> f.ebits()) } else { x & ((1u128 << f.mant) - 1) | 1 << f.mant };
            let mut e = e.max(1) as i64 - f.bias() as i64 - f.mant as i64;
            let hex = format!("{m:x}");
            let cut = if form == 2 { hex.len() } else { r.below(hex.len() as u64 + 1) as usize };
            e += 4 * (hex.len() - cut) as i64;
            let (a, b) = hex.split_at(cut);
            let a = if a.is_empty() { "0" } else { a };
            let b = if b.is_empty() { String::new() } else { format!(".{b}") };
            let plus = if e >= 0 && r.one_in(2) { "+" } else { "" };
            (format!("{}0x{a}{b}p{plus}{e}", if neg { "-" } else { "" }), x)
        }
        _ => {
            let neg = r.one_in(2);
            let len = match r.below(3) {
                0 => 1 + r.below(4),
                1 => 1 + r.below(20),
                _ => 1 + r.below(60),
            };
            let mut digits: String = (0..len).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            let range = ((f.bias() as f64) * 0.302) as i64;
            let mut e = match r.below(3) {
                0 => 0,
                1 => r.range(-12, 12),
                _ => r.range(-range - 40, range + 2) - len as i64,
            };
            if form == 4 && f.is_finite(x) && !f.is_zero(x) && (x & f.mag()) < f.inf() - 1 {
                // Just about half way between two neighbours.
                let a = x & f.mag();
                let half = mid(f, a);
                let Some((d, e10)) = half else { return (format!("0x{x:x}"), x) };
                let mut d = d.to_string();
                let mut e10 = e10;
                let zeros = r.below(12) as usize;
                match r.below(3) {
                    0 => {
                        d = format!("{d}{}1", "0".repeat(zeros));
                        e10 -= zeros as i64 + 1;
                    }
                    1 => {
                        let n: rug::Integer = d.parse().unwrap();
                        d = format!("{}{}", n - 1u32, "9".repeat(zeros));
                        e10 -= zeros as i64;
                    }
                    _ => (),
                }
                digits = d;
                e = e10;
            }
            let want = decimal(f, neg, &digits, e);
            let sign = if neg { "-" } else { "" };
            let text = if digits.len() > 1 && r.one_in(2) {
                let cut = 1 + r.below(digits.len() as u64 - 1) as usize;
                let e = e + (digits.len() - cut) as i64;
                if e == 0 {
                    format!("{sign}{}.{}", &digits[..cut], &digits[cut..])
                } else {
                    format!("{sign}{}.{}e{e}", &digits[..cut], &digits[cut..])
                }
            } else if e == 0 && r.one_in(2) {
                format!("{sign}{digits}")
            } else {
                format!("{sign}{digits}{}{e}", if r.one_in(2) { "e" } else { "E" })
            };
            if f.bits == 16 {
                // The standard library's parser is not right at every tie of this format.
                let v: f16 = text.parse().unwrap();
                return (text, v.to_bits() as u128);
            }
            (text, want)
        }
    }
}

/// The midpoint between a magnitude and its successor as an integer times a power of ten, if
/// that is not too long.
fn mid(f: &Fmt, a: u128) -> Option<(rug::Integer, i64)> {
    let e = f.exp_field(a);
    let frac = a & ((1u128 << f.mant) - 1);
    let m = if e == 0 { frac } else { frac | 1 << f.mant };
    let e = e.max(1) as i64 - f.bias() as i64 - f.mant as i64 - 1;
    let m = rug::Integer::from(2 * m + 1);
    if e.abs() > 1200 {
        return None;
    }
    Some(if e >= 0 { (m << e as u32, 0) } else { (m * rug::Integer::from(5).pow((-e) as u32), e) })
}

fn int_text(r: &mut Rng, b: u32, signed: bool, x: u128) -> String {
    let neg = signed && x >> (b - 1) & 1 == 1;
    let mag = if neg { (x | !(u128::MAX >> (128 - b))).wrapping_neg() } else { x };
    let sign = if neg { "-" } else { "" };
    match r.below(4) {
        0 => format!("{sign}0x{}{mag:x}", &"000"[..r.below(4) as usize]),
        1 if !neg => format!("0b{mag:b}"),
        _ => format!("{sign}{mag}"),
    }
}

fn run(args: &[String]) -> (Option<i32>, String, String) {
    let bin = std::env::var("VERIF_UTIL").unwrap_or("/verif/target/util-build/release/util".into());
    let o = Command::new(bin).args(args).env("RUST_BACKTRACE", "0").output().expect("starting the tool");
    (o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned())
}

fn maybe_comma(r: &mut Rng, s: String) -> String {
    if r.one_in(4) {
        s + ","
    } else {
        s
    }
}

/// Take "label: value" lines apart.
fn field<'a>(block: &[&'a str], label: &str) -> Option<&'a str> {
    block.iter().find_map(|l| l.trim().strip_prefix(label)?.strip_prefix(':').map(str::trim))
}

pub fn c44(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let (code, out, _) = run(&["x".into(), "libm".into(), "sqrt".into(), "4".into()]);
    assert!(code.is_some() && !out.is_empty(), "the tool does not start: {code:?} {out}");
    let mut subs = Vec::new();
    let count = ops().len() as u64;
    subs.push(
        Sub::new(
            "eval",
            5,
            ctx.n(12_000, 600_000),
            move |r: &mut Rng, _, w: &mut Words| {
                let all = ops();
                w[0] = r.below(count) as u128;
                let op = &all[w[0] as usize];
                for (i, k) in (op.kinds)().iter().enumerate() {
                    w[1 + i] = match k {
                        Kind::Float(f) => {
                            if r.one_in(3) {
                                gen::small(r, f)
                            } else {
                                gen::float(r, f)
                            }
                        }
                        Kind::Int(b, _) => gen::int(r, *b),
                    };
                }
                w[4] = r.u64() as u128;
            },
            move |w: &Words, mut log: Option<&mut String>| {
                let all = ops();
                let op = &all[(w[0] % count as u128) as usize];
                let kinds = (op.kinds)();
                let mut vals = [w[1], w[2], w[3]];
                tame(op.name, &kinds, &mut vals);
                let mut r = Rng::new(w[4] as u64, 5, 9);
                let mpfr = op.mpfr.is_some() && r.one_in(2);
                let mut args: Vec<String> = vec![if r.one_in(2) { "eval" } else { "x" }.into(), if mpfr { "mpfr" } else { "libm" }.into(), op.name.into()];
                for (i, k) in kinds.iter().enumerate() {
                    let text = match *k {
                        Kind::Float(f) => {
                            let (text, got) = float_text(&mut r, f, vals[i]);
                            vals[i] = got;
                            text
                        }
                        Kind::Int(b, s) => int_text(&mut r, b, s, vals[i]),
                    };
                    args.push(maybe_comma(&mut r, text));
                }
                let before = vals;
                tame(op.name, &kinds, &mut vals);
                if vals != before {
                    return Out::Skip;
                }
                let want = if mpfr { op.mpfr.unwrap()(&vals) } else { (op.libm)(&vals) };
                let (code, out, err) = run(&args);
                let mut bad = false;
                expect!(log, bad, code == Some(0) && out.trim() == want, "{}: exit {code:?}, {:?}{}, want {want:?}", args.join(" "), out.trim(),
                    if err.is_empty() { String::new() } else { format!(" ({})", err.trim()) });
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{} -> {want}", args.join(" ")));
                }
                fin(bad, args[3..].iter().any(|a| a.contains(['x', 'b', '.', 'e', 'E', '-'])))
            },
        )
        .unit(16),
    );

    subs.push(
        Sub::new(
            "print",
            5,
            ctx.n(6_000, 300_000),
            |r: &mut Rng, _, w: &mut Words| {
                w[4] = r.u64() as u128;
                w[3] = r.below(256) as u128;
                for i in 0..3 {
                    let f = [&F16, &F32, &F64, &F128][(w[3] >> (2 * i)) as usize & 3];
                    w[i] = gen::float(r, f);
                }
            },
            |w: &Words, mut log: Option<&mut String>| {
                let mut r = Rng::new(w[4] as u64, 6, 9);
                let n = 1 + (w[3] >> 6) as usize % 3;
                let mut args = vec![if r.one_in(2) { "print" } else { "p" }.to_string()];
                let mut want = Vec::new();
                for i in 0..n {
                    let f = [&F16, &F32, &F64, &F128][(w[3] >> (2 * i)) as usize & 3];
                    let (text, x) = float_text(&mut r, f, w[i] & f.all());
                    let text = format!("{text}{}f{}", if r.one_in(2) { "_" } else { "" }, f.bits);
                    args.push(maybe_comma(&mut r, text));
                    want.push((f, x));
                }
                let (code, out, err) = run(&args);
                let mut bad = false;
                expect!(log, bad, code == Some(0), "{}: exit {code:?} {}", args.join(" "), err.trim());
                let lines: Vec<&str> = out.lines().collect();
                let starts: Vec<usize> = (0..lines.len()).filter(|i| !lines[*i].starts_with(' ')).chain([lines.len()]).collect();
                expect!(log, bad, starts.len() == n + 1, "{}: {} values printed", args.join(" "), starts.len() as i64 - 1);
                if !bad {
                    for (i, (f, x)) in want.iter().enumerate() {
                        let b = &lines[starts[i] + 1..starts[i + 1]];
                        let frac = x & ((1u128 << f.mant) - 1);
                        let shown = match f.bits {
                            16 => format!("{:?}", f16::from_bits(*x as u16)),
                            32 => format!("{:?}", f32::from_bits(*x as u32)),
                            64 => format!("{:?}", f64::from_bits(*x as u64)),
                            _ => format!("{:?}", f128::from_bits(*x)),
                        };
                        expect!(log, bad, lines[starts[i]].trim() == shown, "{}: prints {}, want {shown}", args.join(" "), lines[starts[i]]);
                        let e = f.exp_field(*x);
                        let mut want = vec![
                            ("nan", f.is_nan(*x).to_string()),
                            ("inf", f.is_inf(*x).to_string()),
                            ("pos", (!f.is_neg(*x)).to_string()),
                            ("exp unbiased", (e as i64 - f.bias() as i64).to_string()),
                        ];
                        if f.is_finite(*x) && !f.is_zero(*x) {
                            want.push(("normal", (!f.is_subnormal(*x)).to_string()));
                        }
                        for (label, v) in want {
                            let got = field(b, label);
                            expect!(log, bad, got == Some(v.as_str()), "{}: {label} of {} is {got:?}, want {v}", args.join(" "), f.show(*x));
                        }
                        // decimal and hexadecimal
                        for (label, v) in [("exp", e as u128), ("frac", frac)] {
                            let got = field(b, label).unwrap_or("");
                            let mut it = got.split_whitespace();
                            let d = it.next().and_then(|s| s.parse::<u128>().ok());
                            let h = it.next().and_then(|s| u128::from_str_radix(s.strip_prefix("0x")?, 16).ok());
                            expect!(log, bad, d == Some(v) && h == Some(v), "{}: {label} of {} is {got:?}, want {v}", args.join(" "), f.show(*x));
                        }
                        let got = field(b, "bits").unwrap_or("");
                        let h = got.strip_prefix("0x").and_then(|s| u128::from_str_radix(s, 16).ok());
                        expect!(log, bad, h == Some(*x), "{}: bits are {got:?}, want {}", args.join(" "), f.show(*x));
                        let hex = match f.bits {
                            16 => Hex(f16::from_bits(*x as u16)).to_string(),
                            32 => Hex(f32::from_bits(*x as u32)).to_string(),
                            64 => Hex(f64::from_bits(*x as u64)).to_string(),
                            _ => Hex(f128::from_bits(*x)).to_string(),
                        };
                        let got = field(b, "hex");
                        expect!(log, bad, got == Some(&hex), "{}: hex is {got:?}, want {hex}", args.join(" "));
                    }
                }
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&args.join(" "));
                }
                fin(bad, args[1..].iter().any(|a| a.contains(['x', 'b', '.', 'e', 'E', '-'])))
            },
        )
        .unit(16),
    );

    subs.push(
        Sub::new(
            "rejected",
            2,
            ctx.n(1_500, 60_000),
            |r: &mut Rng, _, w: &mut Words| {
                w[0] = r.below(8) as u128;
                w[1] = r.u64() as u128;
            },
            move |w: &Words, mut log: Option<&mut String>| {
                let mut r = Rng::new(w[1] as u64, 7, 9);
                let all = ops();
                let op = &all[r.below(count) as usize];
                let kinds = (op.kinds)();
                let mut args: Vec<String> = vec!["eval".into(), "libm".into(), op.name.into()];
                for _ in &kinds {
                    args.push("1".into());
                }
                match w[0] % 8 {
                    0 => {
                        // too few or too many arguments
                        if r.one_in(2) {
                            args.pop();
                        } else {
                            args.push("1".into());
                        }
                    }
                    1 => {
                        let i = 3 + r.below(kinds.len() as u64) as usize;
                        args[i] = ["", "one", "1..2", "0xg", "0b12", "1e", "--1", "0x", "0x1p", "ff"][r.below(10) as usize].into();
                    }
                    2 => {
                        // one bit more than the type has
                        let i = r.below(kinds.len() as u64) as usize;
                        let b = match kinds[i] {
                            Kind::Float(f) => f.bits,
                            Kind::Int(b, _) => b,
                        };
                        args[3 + i] = if r.one_in(2) { format!("0x1{}", "0".repeat(b as usize / 4)) } else { format!("0b1{}", "0".repeat(b as usize)) };
                    }
                    3 => args[1] = ["", "libmm", "glibc", "Libm", "musl"][r.below(5) as usize].into(),
                    4 => args[2] = format!("{}x", op.name),
                    5 => args[0] = ["", "evaluate", "Eval", "xx", "q"][r.below(5) as usize].into(),
                    6 => args = vec!["print".into(), ["1.5", "1.5f", "f32", "1.5f80", "xf64", "0x1p", "1.5 f32"][r.below(7) as usize].into()],
                    _ => args.truncate(r.below(3) as usize),
                }
                let (code, out, _) = run(&args);
                let mut bad = false;
                expect!(log, bad, code != Some(0), "{args:?} was accepted: {}", out.trim());
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&format!("{args:?}"));
                }
                fin(bad, true)
            },
        )
        .unit(16),
    );
    let meta = Meta {
        rule: "an argument that is not just a decimal integer",
        assumptions: vec![
            "the library functions themselves, called directly, give the expected results (other properties decide whether those are right)".into(),
            "the musl basis is not built".into(),
            "decimal numbers are read as 16-bit floats the way the standard library does".into(),
        ],
    };
    (meta, subs)
}
