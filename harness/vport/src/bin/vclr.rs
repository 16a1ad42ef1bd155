//! Making written code executable on Hexagon: which cache lines are cleaned and invalidated.
#![allow(dead_code, unused_macros)]

use std::cell::RefCell;
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::expect;

thread_local! {
    static DONE: RefCell<Vec<(&'static str, usize)>> = const { RefCell::new(Vec::new()) };
}
fn did(text: &'static str, addr: usize) {
    DONE.with(|d| d.borrow_mut().push((text, addr)));
}

macro_rules! op {
    ($t:literal, $n:ident = in(reg) $e:expr $(, $($r:tt)*)?) => { crate::did($t, $e as usize) };
    ($t:literal $(, $($r:tt)*)?) => { crate::did($t, 0) };
}
macro_rules! nothing {
    ($($t:tt)*) => {};
}
macro_rules! intrinsics {
    ($(#[$($a:tt)*])* pub unsafe extern "C" fn $name:ident $args:tt { $($body:tt)* }) => { pub unsafe fn $name $args { $($body)* } };
}
#[allow(unused_unsafe, clippy::all)]
mod hexagon {
    portinc::source!("/repo/compiler-builtins/src/hexagon.rs",
        "use core::arch::global_asm;" => "",
        "core::arch::asm!" => "op!",
        "global_asm!(" => "nothing!(");
}

const LINE: usize = 32;

fn c54(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let sub = Sub::new("__clear_cache", 2, ctx.n(200_000, 12_000_000), |r: &mut Rng, _, w: &mut Words| {
        w[0] = 0x1_0000 + r.below(0xf000_0000) as u128;
        w[1] = match r.below(3) {
            0 => r.below(2 * LINE as u64),
            1 => (r.below(100) * LINE as u64).wrapping_add_signed(r.below(5) as i64 - 2).min(1 << 16),
            _ => r.below(2000),
        } as u128;
    }, |w, mut log| {
        let (start, len) = (w[0] as u32 as usize, w[1] as usize & 0xffff);
        let end = start + len;
        DONE.with(|d| d.borrow_mut().clear());
        unsafe { hexagon::__clear_cache(start as *mut u8, end as *mut u8) };
        let done = DONE.with(|d| std::mem::take(&mut *d.borrow_mut()));
        let kind = |t: &str| t.split('(').next().unwrap().trim().to_string();
        if done.iter().any(|(t, _)| !["dccleana", "dccleaninva", "icinva", "isync", "syncht", "barrier"].contains(&kind(t).as_str())) {
            return Out::Skip;
        }
        // when each line was written back and dropped
        let mut line = start / LINE * LINE;
        let mut bad = false;
        let find = |what: &str, line: usize| done.iter().position(|(t, a)| kind(t).starts_with(what) && a / LINE * LINE == line);
        let mut last = None;
        while line < end {
            let (d, i) = (find("dcclean", line), done.iter().rposition(|(t, a)| kind(t) == "icinva" && a / LINE * LINE == line));
            expect!(log, bad, d.is_some(), "{start:#x}..{end:#x}: the data line at {line:#x} is not written back");
            expect!(log, bad, i.is_some(), "{start:#x}..{end:#x}: the instruction line at {line:#x} is not invalidated");
            expect!(log, bad, d < i, "{start:#x}..{end:#x}: the instruction line at {line:#x} is invalidated before the data is written back");
            last = last.max(i);
            line += LINE;
        }
        let sync = done.iter().rposition(|(t, _)| kind(t) == "isync");
        expect!(log, bad, last.is_none() || sync > last, "{start:#x}..{end:#x}: no synchronization after the last invalidation");
        if let (false, Some(l)) = (bad, log) {
            l.push_str(&format!("{start:#x}..{end:#x}: {} operations", done.len()));
        }
        if bad {
            Out::Fail
        } else if len > 0 {
            Out::Ok
        } else {
            Out::Trivial
        }
    });
    (
        Meta {
            rule: "non-trivial: the range is not empty",
            assumptions: vec![
                "the source is compiled for this machine; cache instructions are recorded instead of executed (a case with an instruction the harness does not know counts as outside the precondition)".into(),
                "cache lines of 32 bytes; ranges of less than 64 KiB".into(),
            ],
        },
        vec![sub],
    )
}

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C54" => Some(c54(ctx)),
        _ => None,
    });
}
