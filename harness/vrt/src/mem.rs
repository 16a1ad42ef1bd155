//! Memory routines, on buffers placed against inaccessible pages.
use std::cell::Cell;

use vcore::rng::mix;
use vcore::sys;
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};

use crate::expect;

pub struct MemFns {
    pub name: &'static str,
    pub memcpy: unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8,
    pub memmove: unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8,
    pub memset: unsafe extern "C" fn(*mut u8, i32, usize) -> *mut u8,
    pub memcmp: unsafe extern "C" fn(*const u8, *const u8, usize) -> i32,
    pub bcmp: unsafe extern "C" fn(*const u8, *const u8, usize) -> i32,
    pub strlen: unsafe extern "C" fn(*const core::ffi::c_char) -> usize,
}

#[macro_export]
macro_rules! mem_fns {
    ($c:ident, $name:expr) => {
        $crate::mem::MemFns {
            name: $name,
            memcpy: $c::mem::memcpy,
            memmove: $c::mem::memmove,
            memset: $c::mem::memset,
            memcmp: $c::mem::memcmp,
            bcmp: $c::mem::bcmp,
            strlen: $c::mem::strlen,
        }
    };
}

pub type Tabs = &'static [MemFns];

const PAGES: usize = 300;
const LEN: usize = PAGES * 4096;
const MAX: usize = LEN - 8192;
/// Bytes on either side of a buffer that are watched for stray writes.
const MARGIN: usize = 96;

thread_local! {
    static ARENAS: Cell<Option<[*mut u8; 2]>> = const { Cell::new(None) };
}

fn arenas() -> [*mut u8; 2] {
    ARENAS.with(|c| match c.get() {
        Some(a) => a,
        None => {
            let a = [sys::map_guarded(PAGES), sys::map_guarded(PAGES)];
            c.set(Some(a));
            a
        }
    })
}

/// Offset of an `n`-byte buffer in an arena. The two low bits of `place` choose: against the
/// guard page after it, against the guard page before it, or in the interior at a chosen offset.
fn offset(place: u128, n: usize) -> usize {
    let off = (place >> 2) as usize % 4200;
    match place & 3 {
        0 => LEN - n,
        1 => 0,
        _ => (off + 128).min(LEN - n),
    }
}

fn gen_len(r: &mut Rng) -> u128 {
    (match r.below(64) {
        0..=23 => r.below(33),
        24..=43 => r.below(160),
        44..=55 => r.below(600),
        56..=61 => r.below(5000),
        62 => 4096 * r.below(4) + r.below(40),
        _ => {
            if r.one_in(40) {
                r.below(MAX as u64)
            } else {
                r.below(40_000)
            }
        }
    }) as u128
}

fn gen_place(r: &mut Rng) -> u128 {
    let mode = [0u128, 1, 2, 3][r.below(4) as usize];
    let off = match r.below(4) {
        0 => r.below(64),
        1 => 4096 - 128 - 40 + r.below(80),
        2 => 8 * r.below(500),
        _ => r.below(4200),
    };
    mode | (off as u128) << 2
}

/// The `i`-th of 18 places: against either guard page, or at one of 16 alignments.
fn edge_place(i: u64) -> u128 {
    if i < 2 {
        i as u128
    } else {
        2 | (i as u128 - 2) << 2
    }
}

/// Fill `[a, b)` of the arena from the seed.
unsafe fn fill(base: *mut u8, a: usize, b: usize, seed: u64) {
    let mut i = a;
    while i < b {
        let w = mix(seed ^ i as u64).to_le_bytes();
        let k = (b - i).min(8);
        std::ptr::copy_nonoverlapping(w.as_ptr(), base.add(i), k);
        i += k;
    }
}

fn window(o: usize, n: usize) -> (usize, usize) {
    (o.saturating_sub(MARGIN), (o + n + MARGIN).min(LEN))
}

unsafe fn bytes<'a>(base: *mut u8, a: usize, b: usize) -> &'a [u8] {
    std::slice::from_raw_parts(base.add(a), b - a)
}

/// The direction flag; cleared again so that a routine that left it set harms nothing else.
fn direction_flag() -> bool {
    let f: u64;
    unsafe { std::arch::asm!("pushfq", "pop {}", "cld", out(reg) f) };
    f >> 10 & 1 == 1
}

fn first_diff(a: &[u8], b: &[u8]) -> Option<usize> {
    if a == b {
        return None;
    }
    a.iter().zip(b).position(|(x, y)| x != y)
}

fn fin(bad: bool, nontrivial: bool) -> Out {
    if bad {
        Out::Fail
    } else if nontrivial {
        Out::Ok
    } else {
        Out::Trivial
    }
}

pub fn c13(ctx: &Ctx, tabs: Tabs) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    let check = move |w: &Words, mut log: Option<&mut String>| {
        let n = w[0] as usize % (MAX + 1);
        let [a, b] = arenas();
        let same = w[3] & 3 == 3;
        let (so, dd) = (offset(w[1], n), offset(w[2], n));
        let (db, doff) = if same { (a, so) } else { (b, dd) };
        let seed = w[3] as u64;
        let mut bad = false;
        for t in tabs {
            unsafe {
                let (s0, s1) = window(so, n);
                fill(a, s0, s1, seed);
                let src: Vec<u8> = bytes(a, s0, s1).to_vec();
                let (d0, d1) = window(doff, n);
                if !same {
                    fill(b, d0, d1, !seed);
                }
                let mut want: Vec<u8> = bytes(db, d0, d1).to_vec();
                want[doff - d0..doff - d0 + n].copy_from_slice(&src[so - s0..so - s0 + n]);
                let ret = (t.memcpy)(db.add(doff), a.add(so), n);
                let df = direction_flag();
                expect!(log, bad, ret == db.add(doff), "{} memcpy: {n} bytes, wrong pointer returned", t.name);
                expect!(log, bad, !df, "{} memcpy: {n} bytes, direction flag left set", t.name);
                if let Some(i) = first_diff(bytes(db, d0, d1), &want) {
                    bad = true;
                    expect!(log, bad, false, "{} memcpy: {n} bytes, source offset {so:#x}, destination offset {doff:#x}: wrong byte at index {}", t.name, i as isize - (doff - d0) as isize);
                }
                if let Some(i) = first_diff(bytes(a, s0, s1), &src) {
                    bad = true;
                    expect!(log, bad, false, "{} memcpy: {n} bytes: source changed at index {}", t.name, i as isize - (so - s0) as isize);
                }
            }
        }
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{n} bytes from offset {so:#x} to offset {doff:#x} of {}", if same { "the same arena" } else { "another arena" }));
        }
        fin(bad, n > 0)
    };
    s.push(Sub::new("copy, up to 300 bytes at every alignment [all]", 4, 301 * 324, |_: &mut Rng, i, w: &mut Words| {
            w[0] = (i / 324) as u128;
            w[1] = edge_place(i % 18);
            w[2] = edge_place(i / 18 % 18);
            w[3] = (mix(i) >> 32 & !1) as u128;
        }, check).enumerated().unit(1 << 12));
    s.push(Sub::new(
        "copy",
        4,
        ctx.n(6_000_000, 180_000_000),
        |r: &mut Rng, _, w: &mut Words| {
            w[0] = gen_len(r);
            w[1] = gen_place(r);
            w[2] = gen_place(r);
            // both low bits of the last word set: source and destination are the same buffer
            w[3] = (r.u64() >> 32) as u128;
            if r.one_in(50) {
                w[3] |= 3;
            } else {
                w[3] &= !1;
            }
        },
        check,
    ));
    let check = move |w: &Words, mut log: Option<&mut String>| {
        let n = w[0] as usize % (MAX + 1);
        let [a, _] = arenas();
        let d = w[2] as u32 as i32 as i64;
        // the pair of buffers spans this much
        let span = (n as u64 + d.unsigned_abs()) as usize;
        if span > LEN {
            return Out::Skip;
        }
        let lo = offset(w[1], span);
        let (so, doff) = if d >= 0 { (lo, lo + d as usize) } else { (lo + (-d) as usize, lo) };
        let seed = w[3] as u64;
        let mut bad = false;
        for t in tabs {
            unsafe {
                let (a0, a1) = window(lo, span);
                fill(a, a0, a1, seed);
                let mut want: Vec<u8> = bytes(a, a0, a1).to_vec();
                let src: Vec<u8> = bytes(a, so, so + n).to_vec();
                want[doff - a0..doff - a0 + n].copy_from_slice(&src);
                let ret = (t.memmove)(a.add(doff), a.add(so), n);
                let df = direction_flag();
                expect!(log, bad, ret == a.add(doff), "{} memmove: {n} bytes by {d}, wrong pointer returned", t.name);
                expect!(log, bad, !df, "{} memmove: {n} bytes by {d}, direction flag left set", t.name);
                if let Some(i) = first_diff(bytes(a, a0, a1), &want) {
                    bad = true;
                    expect!(log, bad, false, "{} memmove: {n} bytes by {d}, source offset {so:#x}: wrong byte at destination index {}", t.name, i as isize - (doff - a0) as isize);
                }
            }
        }
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{n} bytes from offset {so:#x} moved by {d}"));
        }
        fin(bad, n > 0 && d != 0 && d.unsigned_abs() < n as u64)
    };
    s.push(Sub::new("move, up to 100 bytes by up to 128 [all]", 4, 101 * 18 * 256, |_: &mut Rng, i, w: &mut Words| {
            // distances from -128 to 127
            w[0] = (i / (18 * 256)) as u128;
            w[1] = edge_place(i % 18);
            w[2] = (i / 18 % 256) as u8 as i8 as i32 as u32 as u128;
            w[3] = (mix(i) >> 32) as u128;
        }, check).enumerated().unit(1 << 12));
    s.push(Sub::new(
        "move",
        4,
        ctx.n(8_000_000, 240_000_000),
        |r: &mut Rng, _, w: &mut Words| {
            w[0] = gen_len(r);
            w[1] = gen_place(r);
            // distance from source to destination, as two's complement
            let n = w[0] as i64;
            w[2] = match r.below(6) {
                0 => r.range(-16, 16),
                1 => r.range(-n - 8, n + 8),
                2 => n + r.range(-2, 2),
                3 => -n + r.range(-2, 2),
                4 => 8 * r.range(-n / 8 - 1, n / 8 + 1),
                _ => r.range(-200, 200),
            } as u32 as u128;
            w[3] = (r.u64() >> 32) as u128;
        },
        check,
    ));
    let check = move |w: &Words, mut log: Option<&mut String>| {
        let n = w[0] as usize % (MAX + 1);
        let [a, _] = arenas();
        let o = offset(w[1], n);
        let c = w[2] as u32 as i32;
        let seed = w[3] as u64;
        let mut bad = false;
        for t in tabs {
            unsafe {
                let (a0, a1) = window(o, n);
                fill(a, a0, a1, seed);
                let mut want: Vec<u8> = bytes(a, a0, a1).to_vec();
                for x in &mut want[o - a0..o - a0 + n] {
                    *x = c as u8;
                }
                let ret = (t.memset)(a.add(o), c, n);
                let df = direction_flag();
                expect!(log, bad, ret == a.add(o), "{} memset: {n} bytes of {c:#x}, wrong pointer returned", t.name);
                expect!(log, bad, !df, "{} memset: {n} bytes of {c:#x}, direction flag left set", t.name);
                if let Some(i) = first_diff(bytes(a, a0, a1), &want) {
                    bad = true;
                    expect!(log, bad, false, "{} memset: {n} bytes of {c:#x} at offset {o:#x}: wrong byte at index {}", t.name, i as isize - (o - a0) as isize);
                }
            }
        }
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{n} bytes of {c:#x} at offset {o:#x}"));
        }
        fin(bad, n > 0)
    };
    s.push(Sub::new("fill, up to 600 bytes at every alignment [all]", 4, 601 * 36, |_: &mut Rng, i, w: &mut Words| {
            w[0] = (i / 36) as u128;
            w[1] = edge_place(i % 18);
            w[2] = if i / 18 % 2 == 0 { 0 } else { 0xffff_ffa5 };
            w[3] = (mix(i) >> 32) as u128;
        }, check).enumerated().unit(1 << 12));
    s.push(Sub::new(
        "fill",
        4,
        ctx.n(6_000_000, 180_000_000),
        |r: &mut Rng, _, w: &mut Words| {
            w[0] = gen_len(r);
            w[1] = gen_place(r);
            w[2] = match r.below(4) {
                0 => 0,
                1 => r.u64() as u32 as u128,
                _ => r.below(256) as u128,
            };
            w[3] = (r.u64() >> 32) as u128;
        },
        check,
    ));
    (
        Meta {
            rule: "non-trivial: copy and fill of at least one byte; move of at least one byte between partly overlapping buffers",
            assumptions: vec![
                "copies between distinct overlapping buffers are outside the contract; a buffer copied onto itself is inside it".into(),
                "reads outside the source are noticed when they leave its pages, which half of the cases place at the buffer's edge".into(),
            ],
        },
        s,
    )
}

pub fn c14(ctx: &Ctx, tabs: Tabs) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    let check = move |w: &Words, mut log: Option<&mut String>| {
        let n = w[0] as usize % (MAX + 1);
        let [a, b] = arenas();
        let (ao, bo) = (offset(w[1], n), offset(w[2], n));
        let at = w[4] as usize;
        let (x, y) = ((w[5] >> 8) as u8, w[5] as u8);
        let seed = w[3] as u64;
        let mut bad = false;
        let mut sign = 0;
        unsafe {
            fill(a, ao, ao + n, seed);
            fill(b, bo, bo + n, !seed);
            // equal up to the chosen place, unrelated after it
            let k = at.min(n);
            std::ptr::copy_nonoverlapping(a.add(ao), b.add(bo), k);
            if at < n {
                *a.add(ao + at) = x;
                *b.add(bo + at) = y;
            }
            for (p, q) in bytes(a, ao, ao + n).iter().zip(bytes(b, bo, bo + n)).skip(k) {
                if p != q {
                    sign = if p < q { -1 } else { 1 };
                    break;
                }
            }
            for t in tabs {
                let m = (t.memcmp)(a.add(ao), b.add(bo), n);
                let e = (t.bcmp)(a.add(ao), b.add(bo), n);
                let m2 = (t.memcmp)(b.add(bo), a.add(ao), n);
                expect!(log, bad, m.signum() == sign && m2.signum() == -sign, "{} memcmp: {n} bytes, first difference at {at} ({x:#x} and {y:#x}) gave {m} and {m2}", t.name);
                expect!(log, bad, (e == 0) == (sign == 0), "{} bcmp: {n} bytes, first difference at {at} gave {e}", t.name);
                expect!(log, bad, !direction_flag(), "{} memcmp: direction flag left set", t.name);
            }
        }
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{n} bytes at offsets {ao:#x} and {bo:#x}, bytes {x:#x} and {y:#x} at {at}: {sign}"));
        }
        fin(bad, n > 1)
    };
    s.push(Sub::new("compare, up to 65 bytes, first difference anywhere [all]", 6, 66 * 67 / 2 * 324, |_: &mut Rng, i, w: &mut Words| {
            // a difference in each place, or none: n + 1 cases for n bytes
            let (mut n, mut at) = (0, i / 324);
            while at > n {
                at -= n + 1;
                n += 1;
            }
            w[0] = n as u128;
            w[1] = edge_place(i % 18);
            w[2] = edge_place(i / 18 % 18);
            w[3] = (mix(i) >> 32) as u128;
            w[4] = at as u128;
            w[5] = if i & 1 == 0 { 0x7f80 } else { 0x0100 };
        }, check).enumerated().unit(1 << 12));
    s.push(Sub::new(
        "compare",
        6,
        ctx.n(12_000_000, 500_000_000),
        |r: &mut Rng, _, w: &mut Words| {
            w[0] = gen_len(r).min(50_000);
            w[1] = gen_place(r);
            w[2] = gen_place(r);
            w[3] = (r.u64() >> 32) as u128;
            // position of the first difference; at or past the end means none
            let n = w[0] as u64;
            w[4] = match r.below(8) {
                0 => n as u128,
                1 => n.saturating_sub(1 + r.below(17)) as u128,
                2 => r.below(17) as u128,
                _ => r.below(n + 1) as u128,
            };
            // the two bytes there
            w[5] = match r.below(4) {
                0 => 0x7f80,
                1 => 0x8000 | r.below(256) as u128,
                2 => {
                    let b = r.below(256);
                    (b << 8 | b ^ 1 << r.below(8)) as u128
                }
                _ => r.below(65536) as u128,
            };
            if r.one_in(2) {
                w[5] = w[5] >> 8 | (w[5] & 0xff) << 8;
            }
        },
        check,
    ));
    let check = move |w: &Words, mut log: Option<&mut String>| {
        let n = w[0] as usize % MAX;
        let [a, _] = arenas();
        let o = offset(w[1], n + 1);
        let seed = w[3] as u64;
        let mut bad = false;
        unsafe {
            let (a0, a1) = window(o, n + 1);
            fill(a, a0, a1, seed);
            for i in o..o + n {
                let p = a.add(i);
                match w[2] {
                    // bytes that confuse word-at-a-time zero tests
                    0 => *p = if *p & 1 == 0 { 0x80 } else { 0x01 },
                    1 => *p = if *p & 1 == 0 { 0xff } else { 0x80 },
                    2 => *p = 0x01,
                    _ => {
                        if *p == 0 {
                            *p = 0x81
                        }
                    }
                }
            }
            *a.add(o + n) = 0;
            // what surrounds the string may be anything
            if w[2] == 3 {
                for i in a0..o {
                    *a.add(i) = 0;
                }
                for i in o + n + 1..a1 {
                    *a.add(i) = 0;
                }
            }
            for t in tabs {
                let g = (t.strlen)(a.add(o) as *const _);
                expect!(log, bad, g == n, "{} strlen: {n} bytes at offset {o:#x} gave {g}", t.name);
                expect!(log, bad, !direction_flag(), "{} strlen: direction flag left set", t.name);
            }
        }
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{n} bytes at offset {o:#x}"));
        }
        fin(bad, n > 0)
    };
    s.push(Sub::new("string length, up to 600 bytes at every alignment [all]", 4, 601 * 90, |_: &mut Rng, i, w: &mut Words| {
            w[0] = (i / 90) as u128;
            w[1] = edge_place(i % 18);
            w[2] = (i / 18 % 5) as u128;
            w[3] = (mix(i) >> 32) as u128;
        }, check).enumerated().unit(1 << 12));
    s.push(Sub::new(
        "string length",
        4,
        ctx.n(12_000_000, 500_000_000),
        |r: &mut Rng, _, w: &mut Words| {
            w[0] = gen_len(r).min(50_000);
            w[1] = gen_place(r);
            w[2] = r.below(5) as u128;
            w[3] = (r.u64() >> 32) as u128;
        },
        check,
    ));
    (
        Meta {
            rule: "non-trivial: comparison of at least two bytes, string of at least one byte",
            assumptions: vec!["reads outside the buffers are noticed when they leave their pages".into()],
        },
        s,
    )
}
