//! The out-of-line atomics of AArch64, interpreted.
#![recursion_limit = "1024"]
#![feature(macro_metavar_expr_concat)]
#![allow(dead_code, unused_macros)]

use vcore::gen::int;
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::expect;

#[macro_use]
#[path = "../sim.rs"]
mod sim;
use sim::{Did, Event, Machine, Prog, A64_SP, REGS, WORLD};

macro_rules! intrinsics {
    ($($t:tt)*) => { crate::sim_intrinsics!(A64; $($t)*); };
}

#[macro_use]
#[allow(unused_unsafe, unused_imports, clippy::all)]
mod aarch64_outline_atomics {
    portinc::source!("/repo/compiler-builtins/src/aarch64_outline_atomics.rs", "#[macro_export]" => "");
}
use aarch64_outline_atomics as oa;

struct Op {
    name: &'static str,
    order: &'static str,
    size: u32,
    prog: fn() -> &'static Prog,
}

fn ops() -> Vec<Op> {
    let mut v = Vec::new();
    macro_rules! add_op {
        ($order:ident, $bytes:tt, $name:ident) => {
            v.push(Op { name: stringify!($name), order: stringify!($order), size: $bytes, prog: oa::$name });
        };
        ($order:ident, $name:ident) => {
            v.push(Op { name: stringify!($name), order: stringify!($order), size: 16, prog: oa::$name });
        };
    }
    foreach_cas!(add_op);
    foreach_cas16!(add_op);
    foreach_swp!(add_op);
    foreach_ldadd!(add_op);
    foreach_ldclr!(add_op);
    foreach_ldeor!(add_op);
    foreach_ldset!(add_op);
    v
}

fn apply(name: &str, old: u128, v: u128, expected: u128, m: u128) -> Option<u128> {
    let r = match name.split('_').nth(3).unwrap_or("").trim_end_matches(|c: char| c.is_ascii_digit()) {
        "cas" => return (old == expected & m).then_some(v & m),
        "swp" => v,
        "ldadd" => old.wrapping_add(v),
        "ldclr" => old & !v,
        "ldeor" => old ^ v,
        "ldset" => old | v,
        x => panic!("no such operation: {x}"),
    };
    Some(r & m)
}

const LEN: usize = 48;

fn cell(b: &[u8; LEN], at: usize, n: usize) -> u128 {
    let mut v = [0; 16];
    v[..n].copy_from_slice(&b[at..at + n]);
    u128::from_le_bytes(v)
}

fn c51(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let ops: &'static [Op] = Box::leak(ops().into_boxed_slice());
    let mut s = Vec::new();
    // words: operation, place and extension; memory; value; expected; up to three writes; registers
    s.push(Sub::new("operations", 8, ctx.n(3_000_000, 400_000_000), |r: &mut Rng, _, w: &mut Words| {
        w[0] = r.u64() as u128;
        w[1] = if r.one_in(3) { int(r, 128) } else { r.u128() };
        w[2] = if r.one_in(2) { int(r, 128) } else { r.u128() };
        w[3] = match r.below(4) {
            0 => r.u128() >> r.below(128),
            _ => u128::MAX,
        };
        for e in &mut w[4..7] {
            *e = 0;
        }
        let n = r.below(4) as usize;
        for e in &mut w[4..4 + n] {
            *e = (1 + r.below(24)) as u128 | (r.below(256) as u128) << 8 | (r.u64() as u128) << 16;
        }
        w[7] = r.u64() as u128;
    }, move |w, mut log| {
        let op = &ops[w[0] as u32 as usize % ops.len()];
        let lse = w[0] >> 32 & 1 == 1;
        let size = op.size as usize;
        let at = 16 + ((w[0] >> 40) as usize % 16) / size * size;
        let base = sim::arena() as u64 + 64;
        let mut start = [0u8; LEN];
        start[..16].copy_from_slice(&w[1].rotate_left(40).to_le_bytes());
        start[16..32].copy_from_slice(&w[1].to_le_bytes());
        start[32..].copy_from_slice(&w[1].rotate_left(90).to_le_bytes());
        let m = u128::MAX >> (128 - 8 * op.size);
        let v = w[2];
        let expected = if w[3] == u128::MAX { cell(&start, at, size) } else { w[3] };
        unsafe { std::ptr::copy_nonoverlapping(start.as_ptr(), base as *mut u8, LEN) };
        // the flag is at an address with a low part
        let flag = sim::arena() as u64 + 4096 + 0x7b3;
        unsafe { *(flag as *mut u8) = if lse { 1 + (w[7] as u8 & 0x7f) } else { 0 } };
        let mut script = Vec::new();
        for e in &w[4..7] {
            let when = (*e & 0xff) as u32;
            if when == 0 {
                continue;
            }
            let len = [0u64, 1, 2, 4, 8, 8, 1, 4][(e >> 8 & 7) as usize];
            let addr = if len == 0 { base } else { base + 16 + (e >> 11 & 15) as u64 / len * len };
            let mut value = (e >> 16) as u64;
            if value & 7 == 0 && len > 0 {
                value = (w[1] >> (8 * (addr - base - 16).min(15))) as u64;
            }
            script.push(Event { at: when - 1, addr, len: len as u32, value });
        }
        script.sort_by_key(|e| e.at);
        WORLD.with(|x| {
            let mut x = x.borrow_mut();
            x.reset();
            x.ranges.push((base, base + LEN as u64));
            x.ranges.push((flag, flag + 1));
            x.symbols.insert("{have_lse}".into(), flag);
            x.no_lse = !lse;
            x.script = script.clone();
        });
        let junk = w[7] as u64;
        let mut regs: Vec<u64> = (0..REGS as u64).map(|k| junk.rotate_left(k as u32) ^ k.wrapping_mul(0x9e37_79b9_7f4a_7c15)).collect();
        regs[A64_SP] = base + 2048;
        let cas = op.name.contains("cas");
        // the bits of a register above its argument are undefined
        let arg = |x: u128, k: usize| (x as u64 & m as u64) | (regs[k] & !(m as u64));
        let mut args = Vec::new();
        if size == 16 {
            args.extend([expected as u64, (expected >> 64) as u64, v as u64, (v >> 64) as u64]);
        } else {
            if cas {
                args.push(arg(expected, 0));
            }
            args.push(arg(v, 1));
        }
        args.push(base + at as u64);
        regs[..args.len()].copy_from_slice(&args);
        let before = regs.clone();
        let mut call = |_: &str, _: &mut Vec<u64>| {};
        let mut mach = Machine { r: regs, f: Default::default(), call: &mut call, returned: false };
        mach.run((op.prog)());
        let (r, returned) = (mach.r, mach.returned);
        let (done, fault, unknown) = WORLD.with(|x| {
            let mut x = x.borrow_mut();
            (std::mem::take(&mut x.done), x.fault.take(), x.unknown.take())
        });
        if unknown.is_some() {
            return Out::Skip;
        }
        let mut end = [0u8; LEN];
        unsafe { std::ptr::copy_nonoverlapping(base as *const u8, end.as_mut_ptr(), LEN) };
        let name = format!("{}{}", op.name, if lse { " with the extension" } else { "" });
        let mut bad = false;
        expect!(log, bad, fault.is_none() && returned, "{name}: {}", fault.clone().unwrap_or("did not return".into()));
        let got = (r[0] as u128 | if size == 16 { (r[1] as u128) << 64 } else { 0 }) & m;
        for k in (18..=30).chain([A64_SP]) {
            expect!(log, bad, r[k] == before[k], "{name}: register {k} was {:#x} and is {:#x}", before[k], r[k]);
        }
        let others: Vec<Event> = done.iter().filter_map(|d| if let Did::Other(i) = d { Some(script[*i]) } else { None }).collect();
        let fits = (0..=others.len()).any(|j| {
            let mut mem = start;
            let put = |mem: &mut [u8; LEN], e: &Event| {
                let at = (e.addr - base) as usize;
                mem[at..at + e.len as usize].copy_from_slice(&e.value.to_le_bytes()[..e.len as usize]);
            };
            others[..j].iter().for_each(|e| put(&mut mem, e));
            let old = cell(&mem, at, size);
            if let Some(n) = apply(op.name, old, v & m, expected, m) {
                mem[at..at + size].copy_from_slice(&n.to_le_bytes()[..size]);
            }
            others[j..].iter().for_each(|e| put(&mut mem, e));
            mem == end && old == got
        });
        expect!(log, bad, fits, "{name} at {at} of {start:x?} with {:#x} (expecting {:#x}) gave {got:#x} and {end:x?}, while others wrote {others:x?}", v & m, expected & m);
        // ordering: on the access itself or by a barrier
        let mine: Vec<&Did> = done.iter().filter(|d| matches!(d, Did::Load { addr, .. } | Did::Store { addr, .. } if *addr != flag) || **d == Did::Barrier).collect();
        if op.order == "Acquire" || op.order == "AcqRel" {
            let ok = match mine.iter().rposition(|d| matches!(d, Did::Load { .. })) {
                Some(k) => matches!(mine[k], Did::Load { acquire: true, .. }) || mine[k..].contains(&&Did::Barrier),
                None => false,
            };
            expect!(log, bad, ok, "{name}: what was read is not acquired: {mine:x?}");
        }
        if op.order == "Release" || op.order == "AcqRel" {
            if let Some(k) = mine.iter().position(|d| matches!(d, Did::Store { .. })) {
                let ok = matches!(mine[k], Did::Store { release: true, .. }) || mine[..k].contains(&&Did::Barrier);
                expect!(log, bad, ok, "{name}: the store is not a release: {mine:x?}");
            }
        }
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{name} at {at} with {:#x}, {} writes by others, {} accesses", v & m, others.len(), mine.len()));
        }
        if bad {
            Out::Fail
        } else if !others.is_empty() || size < 8 {
            Out::Ok
        } else {
            Out::Trivial
        }
    }));
    s.push(Sub::new("switch [all]", 1, 1, |_: &mut Rng, _, w: &mut Words| w[0] = 0, |_, mut log| {
        let mut bad = false;
        unsafe {
            expect!(log, bad, !oa::get_have_lse_atomics(), "on from the start");
            oa::__rust_enable_lse();
            expect!(log, bad, oa::get_have_lse_atomics(), "not on after it was enabled");
            oa::set_have_lse_atomics(false);
            expect!(log, bad, !oa::get_have_lse_atomics(), "on after it was disabled");
            oa::set_have_lse_atomics(true);
            expect!(log, bad, oa::get_have_lse_atomics(), "not on after it was set");
            oa::set_have_lse_atomics(false);
        }
        if bad { Out::Fail } else { Out::Ok }
    }).enumerated());
    (
        Meta {
            rule: "non-trivial: another processor wrote during the operation, or the operation is on less than eight bytes",
            assumptions: vec![
                "the instructions are interpreted one by one; a case with an instruction the interpreter does not know counts as outside the precondition".into(),
                "symbols are addressed the way of ELF targets; little-endian byte order".into(),
            ],
        },
        s,
    )
}

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C51" => Some(c51(ctx)),
        _ => None,
    });
}
