//! Routines of 32-bit Arm targets: atomics of processors without them, and the run-time ABI helpers.
#![recursion_limit = "1024"]
#![allow(dead_code, unused_macros, unused_mut)]

use vcore::gen::int;
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::expect;
use vrt::ints::gen_div;

#[macro_use]
#[path = "../sim.rs"]
mod sim;
use sim::{Did, Event, Machine, Prog, ARM_SP, REGS, WORLD};

/// What the included sources call `core::arch`.
mod arch {
    macro_rules! asm {
        ($($t:tt)*) => { crate::sim_asm!(Arm; $($t)*) };
    }
    pub(crate) use asm;
}

macro_rules! intrinsics {
    ($($t:tt)*) => { crate::sim_intrinsics!(Arm; $($t)*); };
}

#[allow(unused_unsafe, unused_imports, clippy::all)]
mod kernel {
    portinc::source!("/repo/compiler-builtins/src/sync/arm_linux.rs",
        "use core::{arch, mem};" => "use crate::arch; use core::mem;",
        "core::arch::" => "crate::arch::",
        "include!(\"" => "include!(\"@DIR@/");
}
#[allow(unused_unsafe, unused_imports, clippy::all)]
mod v6k {
    portinc::source!("/repo/compiler-builtins/src/sync/thumbv6k.rs",
        "use core::arch::asm;" => "use crate::arch::asm;",
        "core::arch::" => "crate::arch::",
        "#[instruction_set(arm::a32)]" => "",
        "include!(\"" => "include!(\"@DIR@/");
}
mod mem {
    pub use b1::mem::{memcpy, memmove, memset};
}
#[allow(unused_unsafe, unused_imports, clippy::all)]
mod arm {
    portinc::source!("/repo/compiler-builtins/src/arm.rs",);
}

/// The kernel's helper: compare and exchange, 0 if it was done.
extern "C" fn kernel_cmpxchg(old: u32, new: u32, ptr: *mut u32) -> u32 {
    WORLD.with(|w| {
        let mut w = w.borrow_mut();
        if !w.tick() {
            // nothing can unwind from here
            if w.ticks > 100 * sim::LIMIT {
                std::process::abort();
            }
            return 0;
        }
        let now = w.load(ptr as u64, 4, false) as u32;
        if now == old && w.fault.is_none() {
            w.store(ptr as u64, 4, false, new as u128);
            // and after it
            w.tick();
            return 0;
        }
        // anything but zero says no; after a wrong pointer the caller would try for ever
        if w.fault.is_some() {
            0
        } else {
            now ^ old
        }
    })
}
extern "C" fn kernel_barrier() {
    WORLD.with(|w| w.borrow_mut().done.push(Did::Barrier));
}

/// Put the helpers where the kernel has them.
fn kernel_page() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let page = sim::low_memory(0xffff_0000, 4096, true);
        for (at, f) in [(0xfc0, kernel_cmpxchg as *const () as u64), (0xfa0, kernel_barrier as *const () as u64)] {
            // movabs rax, f; jmp rax
            let mut code = vec![0x48, 0xb8];
            code.extend(f.to_le_bytes());
            code.extend([0xff, 0xe0]);
            unsafe { std::ptr::copy_nonoverlapping(code.as_ptr(), page.add(at), code.len()) };
        }
    });
}

struct Op {
    name: &'static str,
    size: u32,
    signed: bool,
    /// Run on memory at an address, with value and (for an exchange) the value expected.
    run: fn(u64, u32, u32) -> u32,
}

macro_rules! ops {
    ($m:ident; $($n1:ident $n2:ident $n4:ident $t1:ident $t2:ident $t4:ident;)*) => { vec![$(
        Op { name: stringify!($n1), size: 1, signed: stringify!($t1) == "i8", run: |p, v, _| unsafe { $m::$n1(p as *mut $t1, v as $t1) as u8 as u32 } },
        Op { name: stringify!($n2), size: 2, signed: stringify!($t1) == "i8", run: |p, v, _| unsafe { $m::$n2(p as *mut $t2, v as $t2) as u16 as u32 } },
        Op { name: stringify!($n4), size: 4, signed: stringify!($t1) == "i8", run: |p, v, _| unsafe { $m::$n4(p as *mut $t4, v as $t4) as u32 } },
    )*
        Op { name: "__sync_val_compare_and_swap_1", size: 1, signed: false, run: |p, v, e| unsafe { $m::__sync_val_compare_and_swap_1(p as *mut u8, e as u8, v as u8) as u32 } },
        Op { name: "__sync_val_compare_and_swap_2", size: 2, signed: false, run: |p, v, e| unsafe { $m::__sync_val_compare_and_swap_2(p as *mut u16, e as u16, v as u16) as u32 } },
        Op { name: "__sync_val_compare_and_swap_4", size: 4, signed: false, run: |p, v, e| unsafe { $m::__sync_val_compare_and_swap_4(p as *mut u32, e, v) } },
    ] };
}
macro_rules! all_ops {
    ($m:ident) => {
        ops! { $m;
            __sync_fetch_and_add_1 __sync_fetch_and_add_2 __sync_fetch_and_add_4 u8 u16 u32;
            __sync_add_and_fetch_1 __sync_add_and_fetch_2 __sync_add_and_fetch_4 u8 u16 u32;
            __sync_fetch_and_sub_1 __sync_fetch_and_sub_2 __sync_fetch_and_sub_4 u8 u16 u32;
            __sync_sub_and_fetch_1 __sync_sub_and_fetch_2 __sync_sub_and_fetch_4 u8 u16 u32;
            __sync_fetch_and_and_1 __sync_fetch_and_and_2 __sync_fetch_and_and_4 u8 u16 u32;
            __sync_and_and_fetch_1 __sync_and_and_fetch_2 __sync_and_and_fetch_4 u8 u16 u32;
            __sync_fetch_and_or_1 __sync_fetch_and_or_2 __sync_fetch_and_or_4 u8 u16 u32;
            __sync_or_and_fetch_1 __sync_or_and_fetch_2 __sync_or_and_fetch_4 u8 u16 u32;
            __sync_fetch_and_xor_1 __sync_fetch_and_xor_2 __sync_fetch_and_xor_4 u8 u16 u32;
            __sync_xor_and_fetch_1 __sync_xor_and_fetch_2 __sync_xor_and_fetch_4 u8 u16 u32;
            __sync_fetch_and_nand_1 __sync_fetch_and_nand_2 __sync_fetch_and_nand_4 u8 u16 u32;
            __sync_nand_and_fetch_1 __sync_nand_and_fetch_2 __sync_nand_and_fetch_4 u8 u16 u32;
            __sync_fetch_and_max_1 __sync_fetch_and_max_2 __sync_fetch_and_max_4 i8 i16 i32;
            __sync_fetch_and_umax_1 __sync_fetch_and_umax_2 __sync_fetch_and_umax_4 u8 u16 u32;
            __sync_fetch_and_min_1 __sync_fetch_and_min_2 __sync_fetch_and_min_4 i8 i16 i32;
            __sync_fetch_and_umin_1 __sync_fetch_and_umin_2 __sync_fetch_and_umin_4 u8 u16 u32;
            __sync_lock_test_and_set_1 __sync_lock_test_and_set_2 __sync_lock_test_and_set_4 u8 u16 u32;
        }
    };
}

/// The value an operation leaves, by its name; `None` when it leaves memory alone.
fn apply(name: &str, size: u32, old: u32, v: u32, expected: u32) -> Option<u32> {
    let m = u32::MAX >> (32 - 8 * size);
    let sx = |x: u32| (x << (32 - 8 * size)) as i32 >> (32 - 8 * size);
    let has = |s: &str| name.contains(s);
    let r = if has("compare") {
        return (old == expected & m).then_some(v & m);
    } else if has("nand") {
        !(old & v)
    } else if has("umax") {
        old.max(v)
    } else if has("umin") {
        old.min(v)
    } else if has("max") {
        sx(old).max(sx(v)) as u32
    } else if has("min") {
        sx(old).min(sx(v)) as u32
    } else if has("lock_test") {
        v
    } else if has("xor") {
        old ^ v
    } else if has("add_") {
        old.wrapping_add(v)
    } else if has("sub_") {
        old.wrapping_sub(v)
    } else if has("or_") {
        old | v
    } else {
        old & v
    };
    Some(r & m)
}

const BASE: u64 = 64;

fn cell(b: &[u8], at: usize, n: usize) -> u32 {
    let mut v = [0; 4];
    v[..n].copy_from_slice(&b[at..at + n]);
    u32::from_le_bytes(v)
}

/// Words: operation and place, memory, value, expected value, three writes of another processor.
fn atomics(which: &'static str, ops: &'static [Op], ctx: &Ctx, s: &mut Vec<Sub>) {
    let v6k = which == "v6k";
    s.push(Sub::new(format!("{which} atomics"), 7, ctx.n(1_500_000, 200_000_000), |r: &mut Rng, _, w: &mut Words| {
        w[0] = r.u64() as u128;
        w[1] = if r.one_in(3) { int(r, 128) } else { r.u128() };
        w[2] = if r.one_in(2) { int(r, 32) } else { r.u64() as u32 as u128 };
        // often what the memory holds
        w[3] = match r.below(4) {
            0 => int(r, 32),
            _ => u128::MAX,
        };
        let n = r.below(4) as usize;
        for e in &mut w[4..7] {
            *e = 0;
        }
        for e in &mut w[4..4 + n] {
            *e = (1 + r.below(24)) as u128 | (r.below(64) as u128) << 8 | (r.u64() as u128) << 16;
        }
    }, move |w, mut log| {
        kernel_page();
        let op = &ops[w[0] as u32 as usize % ops.len()];
        let at = 4 + ((w[0] >> 32) as u64 % 8) / op.size as u64 * op.size as u64;
        let base = sim::arena() as u64 + BASE;
        let start = w[1].to_le_bytes();
        let m = u32::MAX >> (32 - 8 * op.size);
        let v = w[2] as u32;
        let now = cell(&start, at as usize, op.size as usize);
        let expected = if w[3] == u128::MAX { now } else { w[3] as u32 };
        unsafe { std::ptr::copy_nonoverlapping(start.as_ptr(), base as *mut u8, 16) };
        // Each event: when, where, how much, what. Most write back to the word in question.
        let mut script = Vec::new();
        for e in &w[4..7] {
            let when = (*e & 0xff) as u32;
            if when == 0 {
                continue;
            }
            let (place, len) = (e >> 8 & 15, [0, 1, 2, 4][(e >> 12 & 3) as usize]);
            let addr = if len == 0 { base } else { base + (place as u64 / len * len).min(16 - len) };
            let mut value = (e >> 16) as u64;
            if value & 7 == 0 {
                // the value that was there at first
                value = (w[1] >> (8 * (addr - base))) as u64;
            }
            script.push(Event { at: when - 1, addr, len: len as u32, value });
        }
        script.sort_by_key(|e| e.at);
        WORLD.with(|x| {
            let mut x = x.borrow_mut();
            x.reset();
            x.ranges.push((base, base + 16));
            x.script = script.clone();
        });
        let got = vcore::engine::catch(|| (op.run)(base + at, v, expected));
        let mut end = [0u8; 16];
        unsafe { std::ptr::copy_nonoverlapping(base as *const u8, end.as_mut_ptr(), 16) };
        let (done, fault, unknown) = WORLD.with(|x| {
            let mut x = x.borrow_mut();
            (std::mem::take(&mut x.done), x.fault.take(), x.unknown.take())
        });
        if unknown.is_some() {
            return Out::Skip;
        }
        let mut bad = false;
        expect!(log, bad, fault.is_none(), "{which} {}: {}", op.name, fault.clone().unwrap_or_default());
        let got = match got {
            Ok(v) => v,
            Err(e) => {
                expect!(log, bad, fault.is_some(), "{which} {}: {e}", op.name);
                return Out::Fail;
            }
        };
        // the writes that took place, in order; the operation must fit between two of them
        let others: Vec<Event> = done.iter().filter_map(|d| if let Did::Other(i) = d { Some(script[*i]) } else { None }).collect();
        let fits = (0..=others.len()).any(|j| {
            let mut mem = start;
            let put = |mem: &mut [u8; 16], e: &Event| {
                let at = (e.addr - base) as usize;
                mem[at..at + e.len as usize].copy_from_slice(&e.value.to_le_bytes()[..e.len as usize]);
            };
            others[..j].iter().for_each(|e| put(&mut mem, e));
            let old = cell(&mem, at as usize, op.size as usize);
            let new = apply(op.name, op.size, old, v & m, expected);
            if let Some(n) = new {
                mem[at as usize..(at + op.size as u64) as usize].copy_from_slice(&n.to_le_bytes()[..op.size as usize]);
            }
            others[j..].iter().for_each(|e| put(&mut mem, e));
            let returned = if op.name.contains("_and_fetch") { new.unwrap_or(old) } else { old };
            mem == end && returned == got
        });
        expect!(log, bad, fits, "{which} {} at {at} of {start:x?} with {v:#x} (expecting {expected:#x}) gave {got:#x} and {end:x?}, while others wrote {others:x?}", op.name);
        if v6k {
            // a store is between two barriers, and what was read is ordered before what follows
            let mine: Vec<&Did> = done.iter().filter(|d| !matches!(d, Did::Other(_))).collect();
            if let Some(k) = mine.iter().position(|d| matches!(d, Did::Store { .. })) {
                let ok = mine[..k].contains(&&Did::Barrier) && mine[k..].contains(&&Did::Barrier);
                expect!(log, bad, ok, "{which} {}: the store is not between two barriers: {mine:x?}", op.name);
            }
            expect!(log, bad, mine.last() == Some(&&Did::Barrier), "{which} {}: no barrier at the end: {mine:x?}", op.name);
        }
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{} at {at} with {v:#x}, {} writes by others, {} accesses", op.name, others.len(), done.len()));
        }
        fin(bad, !others.is_empty() || op.size < 4)
    }));
    let sync: fn() = if v6k { || unsafe { v6k::__sync_synchronize() } } else { || unsafe { kernel::__sync_synchronize() } };
    s.push(Sub::new(format!("{which} barrier [all]"), 1, 1, |_: &mut Rng, _, w: &mut Words| w[0] = 0, move |_, mut log| {
        kernel_page();
        WORLD.with(|x| x.borrow_mut().reset());
        sync();
        let (done, fault, unknown) = WORLD.with(|x| (x.borrow().done.clone(), x.borrow().fault.clone(), x.borrow().unknown.clone()));
        if unknown.is_some() {
            return Out::Skip;
        }
        let mut bad = false;
        expect!(log, bad, fault.is_none() && done.contains(&Did::Barrier), "{which}: no barrier: {done:?} {fault:?}");
        fin(bad, true)
    }).enumerated());
}

fn c49(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    atomics("kernel", Box::leak(all_ops!(kernel).into_boxed_slice()), ctx, &mut s);
    atomics("v6k", Box::leak(all_ops!(v6k).into_boxed_slice()), ctx, &mut s);
    (
        Meta {
            rule: "non-trivial: another processor wrote during the operation, or the operation is on part of a word",
            assumptions: vec![
                "the sources are compiled for this machine; Arm instructions are interpreted one by one (a case with an instruction the interpreter does not know counts as outside the precondition) and the kernel's helpers are provided at their fixed addresses".into(),
                "little-endian byte order".into(),
            ],
        },
        s,
    )
}

/// Stack of the interpreted program.
const STACK: u64 = 4096;

struct Division {
    name: &'static str,
    prog: fn() -> &'static Prog,
    bits: u32,
    signed: bool,
}

/// What the called division does, by its name, under the procedure call standard. It may change
/// every register the standard lets it change.
fn called(name: &str, r: &mut Vec<u64>, junk: u64) -> Result<(), String> {
    let pair = |r: &Vec<u64>, k: usize| r[k] | r[k + 1] << 32;
    if r[ARM_SP] % 8 != 0 {
        return Err(format!("stack pointer {:#x} not aligned at a call", r[ARM_SP]));
    }
    let on_stack = |r: &Vec<u64>| WORLD.with(|w| w.borrow_mut().load(r[ARM_SP], 4, false)) as u64;
    let (a, b, signed, wide, rem_at) = match name.rsplit("::").next().unwrap() {
        "__udivmodsi4" => (r[0], r[1], false, false, Some(r[2])),
        "__divmodsi4" => (r[0], r[1], true, false, Some(r[2])),
        "__udivsi3" | "__aeabi_uidiv" => (r[0], r[1], false, false, None),
        "__divsi3" | "__aeabi_idiv" => (r[0], r[1], true, false, None),
        "__udivmoddi4" => (pair(r, 0), pair(r, 2), false, true, Some(on_stack(r))),
        "__divmoddi4" => (pair(r, 0), pair(r, 2), true, true, Some(on_stack(r))),
        _ => {
            WORLD.with(|w| w.borrow_mut().unknown = Some(format!("call of {name}")));
            return Ok(());
        }
    };
    if b == 0 {
        return Err("called with a divisor of zero".into());
    }
    let (q, rem) = match (wide, signed) {
        (_, false) => (a / b, a % b),
        (false, _) => ((a as i32).wrapping_div(b as i32) as u32 as u64, (a as i32).wrapping_rem(b as i32) as u32 as u64),
        _ => ((a as i64).wrapping_div(b as i64) as u64, (a as i64).wrapping_rem(b as i64) as u64),
    };
    if let Some(p) = rem_at {
        WORLD.with(|w| {
            let mut w = w.borrow_mut();
            if wide {
                if p % 8 != 0 {
                    w.fail(format!("the place for a 64-bit remainder, {p:#x}, is not aligned"));
                }
                w.store(p, 4, false, (rem & 0xffff_ffff) as u128);
                w.store(p + 4, 4, false, (rem >> 32) as u128);
            } else {
                w.store(p, 4, false, rem as u128);
            }
        });
    }
    // the standard lets a callee use its argument words on the stack and these registers
    for k in [0, 1, 2, 3, 12, 14] {
        r[k] = (junk ^ k as u64 * 0x0101_0101) & 0xffff_ffff;
    }
    r[0] = q & 0xffff_ffff;
    if wide {
        r[1] = q >> 32;
        WORLD.with(|w| w.borrow_mut().store(r[ARM_SP], 4, false, (junk & 0xffff_ffff) as u128));
    }
    Ok(())
}

fn c50(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut s = Vec::new();
    let divs = [
        Division { name: "__aeabi_uidivmod", prog: arm::__aeabi_uidivmod, bits: 32, signed: false },
        Division { name: "__aeabi_idivmod", prog: arm::__aeabi_idivmod, bits: 32, signed: true },
        Division { name: "__aeabi_uldivmod", prog: arm::__aeabi_uldivmod, bits: 64, signed: false },
        Division { name: "__aeabi_ldivmod", prog: arm::__aeabi_ldivmod, bits: 64, signed: true },
    ];
    for d in divs {
        s.push(Sub::new(d.name, 3, ctx.n(300_000, 20_000_000), move |r: &mut Rng, _, w: &mut Words| {
            (w[0], w[1]) = gen_div(r, d.bits);
            w[2] = r.u64() as u128;
        }, move |w, mut log| {
            let m = u64::MAX >> (64 - d.bits);
            let (a, b) = (w[0] as u64 & m, w[1] as u64 & m);
            if b == 0 {
                return Out::Skip;
            }
            let base = sim::arena() as u64 + 8192;
            WORLD.with(|x| {
                let mut x = x.borrow_mut();
                x.reset();
                x.ranges.push((base, base + STACK));
            });
            let junk = w[2] as u64;
            let mut regs: Vec<u64> = (0..REGS as u64).map(|k| (junk.rotate_left(k as u32) ^ k) & 0xffff_ffff).collect();
            // at a call the stack is aligned to eight bytes
            regs[ARM_SP] = base + STACK - 64;
            if d.bits == 32 {
                (regs[0], regs[1]) = (a, b);
            } else {
                (regs[0], regs[1], regs[2], regs[3]) = (a & 0xffff_ffff, a >> 32, b & 0xffff_ffff, b >> 32);
            }
            let before = regs.clone();
            let mut trouble = None;
            let mut call = |target: &str, r: &mut Vec<u64>| {
                if let Err(e) = called(target, r, junk) {
                    trouble.get_or_insert(e);
                }
            };
            let mut mach = Machine { r: regs, f: Default::default(), call: &mut call, returned: false };
            mach.run((d.prog)());
            let (r, returned) = (mach.r, mach.returned);
            let (fault, unknown) = WORLD.with(|x| (x.borrow().fault.clone(), x.borrow().unknown.clone()));
            if unknown.is_some() {
                return Out::Skip;
            }
            let fault = fault.or(trouble);
            let mut bad = false;
            expect!(log, bad, fault.is_none() && returned, "{}({a:#x}, {b:#x}): {}", d.name, fault.clone().unwrap_or("did not return".into()));
            // popping into the program counter returns to where the link register pointed
            let to = if r[15] != before[15] { r[15] } else { r[14] };
            expect!(log, bad, to == before[14], "{}: returned to {to:#x}, not {:#x}", d.name, before[14]);
            for k in (4..=11).chain([ARM_SP]) {
                expect!(log, bad, r[k] == before[k], "{}: r{k} was {:#x} and is {:#x}", d.name, before[k], r[k]);
            }
            let (q, rem) = if d.bits == 32 { (r[0], r[1]) } else { (r[0] | r[1] << 32, r[2] | r[3] << 32) };
            let (wq, wr) = match (d.bits, d.signed) {
                (32, true) => ((a as i32).wrapping_div(b as i32) as u32 as u64, (a as i32).wrapping_rem(b as i32) as u32 as u64),
                (64, true) => ((a as i64).wrapping_div(b as i64) as u64, (a as i64).wrapping_rem(b as i64) as u64),
                _ => (a / b, a % b),
            };
            expect!(log, bad, (q, rem) == (wq, wr), "{}({a:#x}, {b:#x}) gave {q:#x} remainder {rem:#x}, not {wq:#x} and {wr:#x}", d.name);
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{a:#x} by {b:#x}"));
            }
            fin(bad, b > 1 && a >= b)
        }));
    }
    type Copy = unsafe fn(*mut u8, *const u8, usize);
    let copies: [(&str, Copy, u64, bool); 6] = [
        ("__aeabi_memcpy", arm::__aeabi_memcpy, 1, false),
        ("__aeabi_memcpy4", arm::__aeabi_memcpy4, 4, false),
        ("__aeabi_memcpy8", arm::__aeabi_memcpy8, 8, false),
        ("__aeabi_memmove", arm::__aeabi_memmove, 1, true),
        ("__aeabi_memmove4", arm::__aeabi_memmove4, 4, true),
        ("__aeabi_memmove8", arm::__aeabi_memmove8, 8, true),
    ];
    for (name, f, align, overlap) in copies {
        s.push(Sub::new(name, 2, ctx.n(150_000, 6_000_000), move |r: &mut Rng, _, w: &mut Words| {
            // offsets and length
            let len = if r.one_in(3) { r.below(20) } else { r.below(700) };
            let to = r.below(200);
            let from = if overlap && r.one_in(2) { to + r.below(64) } else { r.below(200) + 1024 };
            let (to, from) = if r.one_in(2) { (to, from) } else { (from, to) };
            w[0] = to as u128 | (from as u128) << 16 | (len as u128) << 32;
            w[1] = r.u64() as u128;
        }, move |w, mut log| {
            let to = w[0] as u64 & 0xfff & !(align - 1);
            let from = (w[0] >> 16) as u64 & 0xfff & !(align - 1);
            let len = (w[0] >> 32) as u64 & 0xfff;
            if !overlap && to < from + len && from < to + len {
                return Out::Skip;
            }
            let base = unsafe { sim::arena().add(16384) };
            let mut image: Vec<u8> = (0..8448u64).map(|i| vcore::rng::mix(w[1] as u64 ^ i / 8).to_le_bytes()[i as usize % 8]).collect();
            unsafe { std::ptr::copy_nonoverlapping(image.as_ptr(), base, image.len()) };
            unsafe { f(base.add(to as usize), base.add(from as usize), len as usize) };
            image.copy_within(from as usize..(from + len) as usize, to as usize);
            let now = unsafe { std::slice::from_raw_parts(base, image.len()) };
            let diff = now.iter().zip(&image).position(|(a, b)| a != b);
            let mut bad = false;
            expect!(log, bad, diff.is_none(), "{name} of {len} bytes from {from} to {to}: wrong byte at {}", diff.unwrap_or(0));
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{len} bytes from {from} to {to}"));
            }
            fin(bad, len > 0)
        }).unit(1 << 8));
    }
    type Fill = fn(*mut u8, usize, i32);
    let fills: [(&str, Fill, u64, bool); 6] = [
        ("__aeabi_memset", |p, n, c| unsafe { arm::__aeabi_memset(p, n, c) }, 1, false),
        ("__aeabi_memset4", |p, n, c| unsafe { arm::__aeabi_memset4(p, n, c) }, 4, false),
        ("__aeabi_memset8", |p, n, c| unsafe { arm::__aeabi_memset8(p, n, c) }, 8, false),
        ("__aeabi_memclr", |p, n, _| unsafe { arm::__aeabi_memclr(p, n) }, 1, true),
        ("__aeabi_memclr4", |p, n, _| unsafe { arm::__aeabi_memclr4(p, n) }, 4, true),
        ("__aeabi_memclr8", |p, n, _| unsafe { arm::__aeabi_memclr8(p, n) }, 8, true),
    ];
    for (name, f, align, clear) in fills {
        s.push(Sub::new(name, 3, ctx.n(150_000, 6_000_000), move |r: &mut Rng, _, w: &mut Words| {
            let len = if r.one_in(3) { r.below(20) } else { r.below(500) };
            w[0] = r.below(100) as u128 | (len as u128) << 16;
            w[1] = r.u64() as u128;
            // any integer may be given; its low byte counts
            w[2] = int(r, 32);
        }, move |w, mut log| {
            let to = w[0] as u64 & 0xff & !(align - 1);
            let len = (w[0] >> 16) as u64 & 0x3ff;
            let base = unsafe { sim::arena().add(32768) };
            let mut image: Vec<u8> = (0..1536u64).map(|i| vcore::rng::mix(w[1] as u64 ^ i / 8).to_le_bytes()[i as usize % 8]).collect();
            unsafe { std::ptr::copy_nonoverlapping(image.as_ptr(), base, image.len()) };
            let c = w[2] as u32 as i32;
            f(unsafe { base.add(to as usize) }, len as usize, c);
            image[to as usize..(to + len) as usize].fill(if clear { 0 } else { c as u8 });
            let now = unsafe { std::slice::from_raw_parts(base, image.len()) };
            let diff = now.iter().zip(&image).position(|(a, b)| a != b);
            let mut bad = false;
            expect!(log, bad, diff.is_none(), "{name} of {len} bytes at {to} with {c:#x}: wrong byte at {}", diff.unwrap_or(0));
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{len} bytes at {to} with {c:#x}"));
            }
            fin(bad, len > 0)
        }).unit(1 << 8));
    }
    (
        Meta {
            rule: "non-trivial: the divisor exceeds 1 and the dividend is at least the divisor, or at least one byte is written",
            assumptions: vec![
                "the sources are compiled for this machine; Arm instructions are interpreted one by one (a case with an instruction the interpreter does not know counts as outside the precondition)".into(),
                "the division called by the assembly is provided by the harness and changes every register it may change".into(),
            ],
        },
        s,
    )
}

fn fin(bad: bool, nontrivial: bool) -> Out {
    if bad {
        Out::Fail
    } else if nontrivial {
        Out::Ok
    } else {
        Out::Trivial
    }
}

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C49" => Some(c49(ctx)),
        "C50" => Some(c50(ctx)),
        _ => None,
    });
}
