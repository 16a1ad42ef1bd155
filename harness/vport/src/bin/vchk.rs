//! Stack probes of targets that are not built here, interpreted.
#![recursion_limit = "1024"]
#![allow(dead_code, unused_macros)]

use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::expect;

#[macro_use]
#[path = "../sim.rs"]
mod sim;
use sim::{Machine, Prog, A64_SP, REGS, WORLD, X86_SP};

mod x86 {
    macro_rules! intrinsics {
        ($($t:tt)*) => { crate::sim_intrinsics!(X86; $($t)*); };
    }
    portinc::source!("/repo/compiler-builtins/src/x86.rs",);
}
mod x86_64 {
    macro_rules! intrinsics {
        ($($t:tt)*) => { crate::sim_intrinsics!(X86; $($t)*); };
    }
    portinc::source!("/repo/compiler-builtins/src/x86_64.rs",);
}
/// A naked function's text as a program.
macro_rules! prog {
    ($($t:tt)*) => {{
        static PROG: std::sync::OnceLock<crate::sim::Prog> = std::sync::OnceLock::new();
        PROG.get_or_init(|| crate::sim_naked!(X86; $($t)*))
    }};
}
mod unix32 {
    portinc::source!("/repo/compiler-builtins/src/probestack.rs",
        "#[cfg(target_arch = \"x86_64\")]" => "#[cfg(any())]",
        "#[cfg(all(target_arch = \"x86\", not(target_os = \"uefi\")))]" => "#[cfg(all())]",
        "#[cfg(all(target_arch = \"x86\", target_os = \"uefi\"))]" => "#[cfg(any())]",
        "#[unsafe(naked)]" => "",
        "#[rustc_std_internal_symbol]" => "",
        "unsafe extern \"custom\" fn __rust_probestack()" => "fn __rust_probestack() -> &'static crate::sim::Prog",
        "core::arch::naked_asm!" => "prog!");
}
mod uefi32 {
    portinc::source!("/repo/compiler-builtins/src/probestack.rs",
        "#[cfg(target_arch = \"x86_64\")]" => "#[cfg(any())]",
        "#[cfg(all(target_arch = \"x86\", not(target_os = \"uefi\")))]" => "#[cfg(any())]",
        "#[cfg(all(target_arch = \"x86\", target_os = \"uefi\"))]" => "#[cfg(all())]",
        "#[unsafe(naked)]" => "",
        "#[rustc_std_internal_symbol]" => "",
        "unsafe extern \"custom\" fn __rust_probestack()" => "fn __rust_probestack() -> &'static crate::sim::Prog",
        "core::arch::naked_asm!" => "prog!");
}
mod a64 {
    macro_rules! intrinsics {
        ($($t:tt)*) => { crate::sim_intrinsics!(A64; $($t)*); };
    }
    portinc::source!("/repo/compiler-builtins/src/aarch64.rs",);
}

const PAGE: u64 = 4096;

struct Probe {
    name: &'static str,
    prog: fn() -> &'static Prog,
    /// Register with the size, in units of this many bytes.
    size: (usize, u64),
    sp: usize,
    word: u64,
    /// Bytes the call itself pushed.
    pushed: u64,
    /// Registers that may change.
    free: &'static [usize],
    /// Whether it also allocates.
    moves: bool,
}

fn c53(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let probes = [
        Probe { name: "32-bit x86 _alloca", prog: x86::_alloca, size: (0, 1), sp: X86_SP, word: 4, pushed: 4, free: &[], moves: true },
        Probe { name: "32-bit x86 probe", prog: unix32::__rust_probestack, size: (0, 1), sp: X86_SP, word: 4, pushed: 4, free: &[], moves: false },
        Probe { name: "32-bit x86 firmware probe", prog: uefi32::__rust_probestack, size: (0, 1), sp: X86_SP, word: 4, pushed: 4, free: &[], moves: true },
        Probe { name: "x86-64 ___chkstk_ms", prog: x86_64::___chkstk_ms, size: (0, 1), sp: X86_SP, word: 8, pushed: 8, free: &[], moves: false },
        Probe { name: "AArch64 __chkstk", prog: a64::__chkstk, size: (15, 16), sp: A64_SP, word: 8, pushed: 0, free: &[16, 17], moves: false },
    ];
    let mut s = Vec::new();
    for p in probes {
        s.push(Sub::new(p.name, 3, ctx.n(200_000, 8_000_000), |r: &mut Rng, _, w: &mut Words| {
            w[0] = match r.below(6) {
                0 => r.below(64),
                1 => r.below(8192),
                2 => r.below(200 * PAGE),
                _ => (r.below(200) * PAGE).wrapping_add_signed(r.below(33) as i64 - 16).min(200 * PAGE),
            } as u128;
            w[1] = r.below(PAGE) as u128;
            w[2] = r.u64() as u128;
        }, move |w, mut log| {
            // sizes keep the stack aligned
            let unit = p.word.max(p.size.1);
            let size = (w[0] as u64).min(200 * PAGE) / unit * unit;
            let base = sim::arena() as u64;
            let top = base + (1 << 20) - 8192;
            let sp = top + (w[1] as u64 % PAGE) / 16 * 16;
            let junk = w[2] as u64;
            let narrow = if p.word == 4 { 0xffff_ffff } else { u64::MAX };
            let mut regs: Vec<u64> = (0..REGS as u64).map(|k| (junk.rotate_left(k as u32) ^ k.wrapping_mul(0x9e37_79b9_7f4a_7c15)) & narrow).collect();
            regs[p.sp] = sp - p.pushed;
            regs[p.size.0] = size / p.size.1;
            let back = junk & narrow;
            if p.pushed > 0 {
                unsafe { std::ptr::copy_nonoverlapping(back.to_le_bytes().as_ptr(), (sp - p.pushed) as *mut u8, p.word as usize) };
            }
            WORLD.with(|x| {
                let mut x = x.borrow_mut();
                x.reset();
                x.ranges.push((base, base + (1 << 20)));
            });
            let before = regs.clone();
            let mut call = |_: &str, _: &mut Vec<u64>| {};
            let mut mach = Machine { r: regs, f: Default::default(), call: &mut call, returned: false };
            mach.run_for((p.prog)(), 4000);
            let (r, returned) = (mach.r, mach.returned);
            let (mut touched, fault, unknown) = WORLD.with(|x| {
                let mut x = x.borrow_mut();
                (std::mem::take(&mut x.touched), x.fault.take(), x.unknown.take())
            });
            if unknown.is_some() {
                return Out::Skip;
            }
            let mut bad = false;
            expect!(log, bad, fault.is_none() && returned, "{} of {size} bytes: {}", p.name, fault.clone().unwrap_or("did not return".into()));
            let new = if p.moves { sp - size } else { sp };
            expect!(log, bad, r[p.sp] == new, "{} of {size} bytes: the stack pointer was {sp:#x} and is {:#x}", p.name, r[p.sp]);
            if p.pushed > 0 {
                expect!(log, bad, r[16] & narrow == back, "{} of {size} bytes: returned to {:#x}, not {back:#x}", p.name, r[16]);
            }
            for k in (0..if p.word == 4 { 8 } else if p.pushed > 0 { 16 } else { 31 }).filter(|k| *k != p.sp && !p.free.contains(k)) {
                expect!(log, bad, r[k] == before[k], "{} of {size} bytes: register {k} was {:#x} and is {:#x}", p.name, before[k], r[k]);
            }
            // touched in order, each at most a page below the one before, down to the new end
            let end = sp - size;
            let order = touched.clone();
            // the call itself wrote what it pushed
            let mut last = sp - p.pushed;
            for t in &order {
                if *t < last {
                    expect!(log, bad, last - t <= PAGE, "{} of {size} bytes: nothing between {last:#x} and {t:#x} is touched", p.name);
                    last = *t;
                }
            }
            expect!(log, bad, last < end + PAGE, "{} of {size} bytes from {sp:#x}: touched only down to {last:#x}", p.name);
            touched.sort();
            if let Some(t) = touched.first() {
                // one page more is within the guard area of every such target
                expect!(log, bad, *t + PAGE >= end, "{} of {size} bytes from {sp:#x}: touched {t:#x}, below the new end", p.name);
            }
            if let (false, Some(l)) = (bad, log) {
                l.push_str(&format!("{size} bytes from {sp:#x}: {} accesses", touched.len()));
            }
            if bad {
                Out::Fail
            } else if size > PAGE {
                Out::Ok
            } else {
                Out::Trivial
            }
        }).unit(1 << 8));
    }
    (
        Meta {
            rule: "non-trivial: more than one page is asked for",
            assumptions: vec![
                "the instructions are interpreted one by one; a case with an instruction the interpreter does not know counts as outside the precondition".into(),
                "sizes up to 200 pages".into(),
            ],
        },
        s,
    )
}

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C53" => Some(c53(ctx)),
        _ => None,
    });
}
