//! The division algorithms the library chooses from, each at every width it can be written for.
//!
//! A target uses two or three of them; their sources are included here with the helper functions
//! (half-width division, alignment of divisor and dividend) in both forms a target may provide.
#![allow(dead_code, clippy::all)]

use vcore::engine::catch;
use vcore::gen::int;
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::expect;
use vrt::ints::gen_div;

fn zero_div_fn() -> ! {
    panic!("reported a division by zero")
}

macro_rules! by_hardware {
    ($($name:ident, $u:ident;)*) => { $(fn $name(duo: $u, div: $u) -> ($u, $u) {
        (duo / div, duo % div)
    })* };
}

macro_rules! family {
    ($family:ident, $lz:expr) => {
        #[allow(unused_macros, unused_unsafe, unused_imports)]
        mod $family {
            use super::zero_div_fn;

            #[macro_use]
            #[path = "/repo/compiler-builtins/src/int/specialized_div_rem/norm_shift.rs"]
            mod norm_shift;
            #[macro_use]
            #[path = "/repo/compiler-builtins/src/int/specialized_div_rem/binary_long.rs"]
            mod binary_long;
            #[macro_use]
            #[path = "/repo/compiler-builtins/src/int/specialized_div_rem/delegate.rs"]
            mod delegate;
            #[macro_use]
            #[path = "/repo/compiler-builtins/src/int/specialized_div_rem/trifecta.rs"]
            mod trifecta;
            #[macro_use]
            #[path = "/repo/compiler-builtins/src/int/specialized_div_rem/asymmetric.rs"]
            mod asymmetric;

            pub use self::delegate::u128_divide_sparc;

            const USE_LZ: bool = $lz;
            impl_normalization_shift!(shift8, USE_LZ, 8, u8, i8, allow(dead_code));
            impl_normalization_shift!(shift16, USE_LZ, 16, u16, i16, allow(dead_code));
            impl_normalization_shift!(shift32, USE_LZ, 32, u32, i32, allow(dead_code));
            impl_normalization_shift!(u64_normalization_shift, USE_LZ, 64, u64, i64, allow(dead_code));
            impl_normalization_shift!(shift128, USE_LZ, 128, u128, i128, allow(dead_code));
            pub fn shift(bits: u32, duo: u128, div: u128, full: bool) -> usize {
                match bits {
                    8 => shift8(duo as u8, div as u8, full),
                    16 => shift16(duo as u16, div as u16, full),
                    32 => shift32(duo as u32, div as u32, full),
                    64 => u64_normalization_shift(duo as u64, div as u64, full),
                    _ => shift128(duo, div, full),
                }
            }

            impl_binary_long!(long8, zero_div_fn, shift8, 8, u8, i8);
            impl_binary_long!(long16, zero_div_fn, shift16, 16, u16, i16);
            impl_binary_long!(long32, zero_div_fn, shift32, 32, u32, i32);
            impl_binary_long!(long64, zero_div_fn, u64_normalization_shift, 64, u64, i64);
            impl_binary_long!(long128, zero_div_fn, shift128, 128, u128, i128);

            by_hardware!(hard16, u16; hard32, u32; u64_by_u64_div_rem, u64;);
            impl_delegate!(delegate32, zero_div_fn, shift16, hard16, 8, u8, u16, u32, i32);
            impl_delegate!(delegate64, zero_div_fn, shift32, hard32, 16, u16, u32, u64, i64);
            impl_delegate!(delegate128, zero_div_fn, u64_normalization_shift, u64_by_u64_div_rem, 32, u32, u64, u128, i128);
            // the same on top of a software division
            impl_delegate!(software64, zero_div_fn, shift32, long32, 16, u16, u32, u64, i64);
            impl_delegate!(software128, zero_div_fn, u64_normalization_shift, long64, 32, u32, u64, u128, i128);

            impl_trifecta!(trifecta32, zero_div_fn, hard16, 8, u8, u16, u32);
            impl_trifecta!(trifecta64, zero_div_fn, hard32, 16, u16, u32, u64);
            impl_trifecta!(trifecta128, zero_div_fn, u64_by_u64_div_rem, 32, u32, u64, u128);

            macro_rules! two_by_one {
                ($name:ident, $x:ident, $d:ident) => {
                    // faults like the processor's instruction if the quotient does not fit
                    unsafe fn $name(duo: $d, div: $x) -> ($x, $x) {
                        let quo = duo / div as $d;
                        assert!(quo <= $x::MAX as $d, "quotient of the two-by-one division does not fit");
                        (quo as $x, (duo % div as $d) as $x)
                    }
                };
            }
            two_by_one!(two16, u16, u32);
            two_by_one!(two32, u32, u64);
            two_by_one!(two64, u64, u128);
            impl_asymmetric!(asymmetric32, zero_div_fn, hard16, two16, 8, u8, u16, u32);
            impl_asymmetric!(asymmetric64, zero_div_fn, hard32, two32, 16, u16, u32, u64);
            impl_asymmetric!(asymmetric128, zero_div_fn, u64_by_u64_div_rem, two64, 32, u32, u64, u128);

            pub fn sparc(duo: u128, div: u128) -> (u128, u128) {
                let mut rem = !duo;
                let quo = u128_divide_sparc(duo, div, &mut rem);
                (quo, rem)
            }
        }
    };
}
family!(counting, true);
family!(bisecting, false);

fn sparc_release(duo: u128, div: u128) -> (u128, u128) {
    let mut rem = !duo;
    let quo = b1::int::udiv::u128_divide_sparc(duo, div, &mut rem);
    (quo, rem)
}
fn sparc_checked(duo: u128, div: u128) -> (u128, u128) {
    let mut rem = !duo;
    let quo = b2::int::udiv::u128_divide_sparc(duo, div, &mut rem);
    (quo, rem)
}

type Div = (&'static str, fn(u128, u128) -> (u128, u128));

macro_rules! list {
    ($u:ident; $($name:ident),*) => { vec![$(
        (concat!("counting ", stringify!($name)), |a, b| { let (q, r) = counting::$name(a as $u, b as $u); (q as u128, r as u128) }),
        (concat!("bisecting ", stringify!($name)), |a, b| { let (q, r) = bisecting::$name(a as $u, b as $u); (q as u128, r as u128) }),
    )*] };
}

fn fin(bad: bool, nontrivial: bool) -> Out {
    if bad {
        Out::Fail
    } else if nontrivial {
        Out::Ok
    } else {
        Out::Trivial
    }
}

fn c48(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    let widths: [(u32, &'static str, u64, Vec<Div>); 5] = [
        (8, "8", 0, list!(u8; long8)),
        (16, "16", 3_000_000, list!(u16; long16)),
        (32, "32", 6_000_000, list!(u32; long32, delegate32, trifecta32, asymmetric32)),
        (64, "64", 4_000_000, list!(u64; long64, delegate64, software64, trifecta64, asymmetric64)),
        (128, "128", 3_000_000, {
            let mut l: Vec<Div> = list!(u128; long128, delegate128, software128, trifecta128, asymmetric128, sparc);
            l.push(("release sparc", sparc_release));
            l.push(("checked sparc", sparc_checked));
            l
        }),
    ];
    for (bits, name, n, divs) in widths {
        let mask = u128::MAX >> (128 - bits);
        let check = move |w: &Words, mut log: Option<&mut String>| {
            let (a, b) = (w[0] & mask, w[1] & mask);
            if b == 0 {
                return Out::Skip;
            }
            let mut bad = false;
            for (who, f) in &divs {
                let (q, r) = match catch(|| f(a, b)) {
                    Ok(x) => x,
                    Err(e) => {
                        expect!(log, bad, false, "{who}: {a:#x} by {b:#x}: {e}");
                        continue;
                    }
                };
                let right = r < b && q <= mask && q.checked_mul(b).and_then(|p| p.checked_add(r)) == Some(a);
                expect!(log, bad, right, "{who}: {a:#x} by {b:#x} gave {q:#x} remainder {r:#x}");
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{a:#x} by {b:#x}"));
            }
            fin(bad, b > 1 && a >= b)
        };
        let label = Box::leak(format!("division {name}").into_boxed_str());
        match bits {
            8 => s.push(Sub::new("division 8 [all]", 2, 1 << 16, |_: &mut Rng, i, w: &mut Words| {
                w[0] = i as u128 & 255;
                w[1] = i as u128 >> 8;
            }, check).enumerated()),
            16 if ctx.thorough => s.push(Sub::new("division 16 [all]", 2, 1 << 32, |_: &mut Rng, i, w: &mut Words| {
                w[0] = i as u128 & 0xffff;
                w[1] = i as u128 >> 16;
            }, check).enumerated()),
            _ => s.push(Sub::new(label, 2, ctx.n(n, n * 30), move |r: &mut Rng, _, w: &mut Words| (w[0], w[1]) = gen_div(r, bits), check)),
        }
    }
    for (bits, name) in [(8u32, "alignment 8"), (16, "alignment 16"), (32, "alignment 32"), (64, "alignment 64"), (128, "alignment 128")] {
        let mask = u128::MAX >> (128 - bits);
        s.push(Sub::new(name, 3, ctx.n(1_000_000, 40_000_000), move |r: &mut Rng, _, w: &mut Words| {
            (w[0], w[1]) = gen_div(r, bits);
            if w[0] < w[1] {
                w.swap(0, 1);
            }
            if r.one_in(4) {
                // a divisor with the leading bits of the dividend
                w[1] = ((w[0] >> r.below(bits as u64)) ^ (int(r, bits) >> r.below(bits as u64))) & mask;
            }
            w[2] = r.below(2) as u128;
        }, move |w, mut log| {
            let (a, b, full) = (w[0] & mask, w[1] & mask, w[2] & 1 == 1);
            if b == 0 || a < b {
                return Out::Skip;
            }
            let mut bad = false;
            for (who, f) in [("counting", counting::shift as fn(u32, u128, u128, bool) -> usize), ("bisecting", bisecting::shift)] {
                let shl = match catch(|| f(bits, a, b, full)) {
                    Ok(x) => x,
                    Err(e) => {
                        expect!(log, bad, false, "{who}: alignment of {b:#x} with {a:#x} at {bits} bits: {e}");
                        continue;
                    }
                };
                // the aligned divisor has its top bit at the dividend's or one place below, in which case it does not fit twice
                let lz = |x: u128| x.leading_zeros() as i64 - (128 - bits as i64);
                let top = lz(b) - shl as i64;
                let at = top == lz(a);
                let below = top == lz(a) + 1;
                let ok = shl < bits as usize && top >= 0 && (at || below) && (at || a < b << shl << 1) && (!full || b << shl <= a);
                expect!(log, bad, ok, "{who}: alignment of {b:#x} with {a:#x} at {bits} bits (full {full}) gave {shl}");
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{b:#x} aligned with {a:#x}"));
            }
            fin(bad, a >> 1 >= b)
        }));
    }
    (
        Meta {
            rule: "non-trivial: the divisor exceeds 1 and the dividend is at least the divisor (division), or at least twice the divisor (alignment)",
            assumptions: vec![
                "division by zero is outside the contract and is not called".into(),
                "the algorithms are instantiated on this host with a plain two-by-one division in place of the processor's instruction".into(),
            ],
        },
        s,
    )
}

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C48" => Some(c48(ctx)),
        _ => None,
    });
}
