//! The stack probe, called on a stack of inaccessible pages that records which are touched.
use std::arch::global_asm;
use std::ffi::c_void;

use vcore::sys;
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};

/// What the assembly below reads and writes.
#[repr(C, align(16))]
struct State {
    /// rax rbx rcx rdx rsi rdi rbp rsp r8..r15 before the call (rax: frame size, rsp: stack).
    before: [u64; 16],
    after: [u64; 16],
    xmm_before: [u128; 16],
    xmm_after: [u128; 16],
    saved_sp: u64,
    target: u64,
}

#[no_mangle]
static mut vprobe_state: State = State {
    before: [0; 16],
    after: [0; 16],
    xmm_before: [0; 16],
    xmm_after: [0; 16],
    saved_sp: 0,
    target: 0,
};

macro_rules! regs {
    ($($n:literal $r:literal),*) => {
        concat!($("movq vprobe_state+", stringify!($n), "(%rip), %", $r, "\n"),*)
    };
}
macro_rules! stores {
    ($($n:literal $r:literal),*) => {
        concat!($("movq %", $r, ", vprobe_state+", stringify!($n), "(%rip)\n"),*)
    };
}
macro_rules! xload {
    ($($n:literal $r:literal),*) => {
        concat!($("movdqa vprobe_state+", stringify!($n), "(%rip), %xmm", stringify!($r), "\n"),*)
    };
}
macro_rules! xstore {
    ($($n:literal $r:literal),*) => {
        concat!($("movdqa %xmm", stringify!($r), ", vprobe_state+", stringify!($n), "(%rip)\n"),*)
    };
}

global_asm!(
    ".globl vprobe_run",
    "vprobe_run:",
    "pushq %rbx; pushq %rbp; pushq %r12; pushq %r13; pushq %r14; pushq %r15",
    "movq %rsp, vprobe_state+768(%rip)",
    xload!(256 0, 272 1, 288 2, 304 3, 320 4, 336 5, 352 6, 368 7, 384 8, 400 9, 416 10, 432 11, 448 12, 464 13, 480 14, 496 15),
    regs!(0 "rax", 8 "rbx", 16 "rcx", 24 "rdx", 32 "rsi", 40 "rdi", 48 "rbp", 56 "rsp",
          64 "r8", 72 "r9", 80 "r10", 88 "r11", 96 "r12", 104 "r13", 112 "r14", 120 "r15"),
    "call *vprobe_state+776(%rip)",
    stores!(128 "rax", 136 "rbx", 144 "rcx", 152 "rdx", 160 "rsi", 168 "rdi", 176 "rbp", 184 "rsp",
            192 "r8", 200 "r9", 208 "r10", 216 "r11", 224 "r12", 232 "r13", 240 "r14", 248 "r15"),
    xstore!(512 0, 528 1, 544 2, 560 3, 576 4, 592 5, 608 6, 624 7, 640 8, 656 9, 672 10, 688 11, 704 12, 720 13, 736 14, 752 15),
    ".globl vprobe_back",
    "vprobe_back:",
    "movq vprobe_state+768(%rip), %rsp",
    "cld",
    "popq %r15; popq %r14; popq %r13; popq %r12; popq %rbp; popq %rbx",
    "ret",
    options(att_syntax)
);
extern "C" {
    fn vprobe_run();
    fn vprobe_back();
    fn madvise(a: *mut c_void, len: usize, advice: i32) -> i32;
}

const PAGE: usize = 4096;
/// Pages whose first touch is recorded in one case.
const TRACK: usize = 1 << 15;

/// Results, in memory shared with the parent.
#[repr(C)]
struct Report {
    done: u32,
    /// The run was stopped by the handler.
    stopped: u32,
    faults: u32,
    /// Address of the first fault and of the last one.
    first: u64,
    last: u64,
    state: [u64; 16],
    xmm_bad: u32,
    pages: [u32; TRACK],
}

struct Job {
    base: usize,
    len: usize,
    report: *mut Report,
    /// Stop at the first fault.
    guard: bool,
}
static mut JOB: Job = Job { base: 0, len: 0, report: std::ptr::null_mut(), guard: false };

extern "C" fn on_fault(_sig: i32, info: *const u8, ctx: *mut u8) {
    unsafe {
        let addr = *(info.add(16) as *const usize);
        let job = &*(&raw const JOB);
        let rep = &mut *job.report;
        let n = rep.faults as usize;
        if n == 0 {
            rep.first = addr as u64;
        }
        rep.last = addr as u64;
        rep.faults += 1;
        let inside = addr >= job.base && addr < job.base + job.len;
        if job.guard || !inside || n >= TRACK {
            rep.stopped = 1;
            // general registers start at offset 40; rip is the 17th
            *(ctx.add(40 + 16 * 8) as *mut usize) = vprobe_back as *const () as usize;
            return;
        }
        let page = (addr - job.base) / PAGE;
        rep.pages[n] = page as u32;
        sys::mprotect((job.base + page * PAGE) as *mut c_void, PAGE, sys::PROT_READ | sys::PROT_WRITE);
    }
}

const NAMES: [&str; 16] = ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "rbp", "rsp", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"];

/// In a child: a region of `len` bytes whose top `top` bytes below `sp` are accessible, the probe
/// called with stack pointer `sp` (an offset into the region) for `size` bytes.
unsafe fn child(len: usize, sp: usize, size: u64, open_above: usize, guard: bool, seed: u64, report: *mut Report) -> ! {
    let zero = sys::rlimit { cur: 0, max: 0 };
    sys::setrlimit(sys::RLIMIT_CORE, &zero);
    let cpu = sys::rlimit { cur: 60, max: 60 };
    sys::setrlimit(sys::RLIMIT_CPU, &cpu);
    let p = sys::mmap(std::ptr::null_mut(), len, sys::PROT_NONE, sys::MAP_PRIVATE | sys::MAP_ANONYMOUS | sys::MAP_NORESERVE, -1, 0);
    if p as isize == -1 {
        sys::_exit(3);
    }
    let base = p as usize;
    madvise(p, len, 14);
    if open_above < len {
        sys::mprotect((base + open_above) as *mut c_void, len - open_above, sys::PROT_READ | sys::PROT_WRITE);
    }
    let alt = sys::map_guarded(16);
    let ss = sys::stack_t { sp: alt as *mut c_void, flags: 0, size: 16 * PAGE };
    sys::sigaltstack(&ss, std::ptr::null_mut());
    let act = sys::sigaction_t { handler: on_fault as *const () as usize, mask: [0; 16], flags: sys::SA_SIGINFO | sys::SA_ONSTACK | sys::SA_NODEFER, restorer: 0 };
    for s in [sys::SIGSEGV, sys::SIGBUS] {
        sys::sigaction(s, &act, std::ptr::null_mut());
    }
    *(&raw mut JOB) = Job { base, len, report, guard };
    let st = &mut *(&raw mut vprobe_state);
    let mut r = Rng::new(seed, 16, 0);
    for x in st.before.iter_mut() {
        *x = r.u64();
    }
    for x in st.xmm_before.iter_mut() {
        *x = r.u128();
    }
    st.before[0] = size;
    st.before[7] = (base + sp) as u64;
    st.target = abi::address(abi::NAMES.len()) as u64;
    vprobe_run();
    let rep = &mut *report;
    let st = &*(&raw const vprobe_state);
    if rep.stopped == 0 {
        for i in 0..16 {
            // any difference; zero where the register came back as it was
            rep.state[i] = st.before[i] ^ st.after[i];
        }
        rep.xmm_bad = (st.xmm_before != st.xmm_after) as u32;
    }
    // addresses as offsets
    rep.first = rep.first.wrapping_sub(base as u64);
    rep.last = rep.last.wrapping_sub(base as u64);
    rep.done = 1;
    sys::_exit(0)
}

thread_local! {
    static REPORT: *mut Report = sys::map_shared(std::mem::size_of::<Report>()) as *mut Report;
}

fn run(len: usize, sp: usize, size: u64, open_above: usize, guard: bool, seed: u64) -> (Option<&'static Report>, i32) {
    let rep = REPORT.with(|r| *r);
    unsafe {
        (*rep).done = 0;
        (*rep).stopped = 0;
        (*rep).faults = 0;
        (*rep).xmm_bad = 0;
        (*rep).state = [0; 16];
        let pid = sys::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            child(len, sp, size, open_above, guard, seed, rep);
        }
        let mut st = 0;
        while sys::waitpid(pid, &mut st, 0) != pid {}
        assert!(!(st & 0x7f == 0 && st >> 8 == 3), "no memory for the region");
        (if (*rep).done == 1 { Some(&*rep) } else { None }, st)
    }
}

/// How far below the frame the probe may reach, in bytes.
const SLACK: usize = 64;

fn registers(rep: &Report, log: &mut Option<&mut String>) -> bool {
    let mut bad = false;
    for (i, d) in rep.state.iter().enumerate() {
        // r11 is the scratch register of the convention
        if *d != 0 && i != 11 {
            bad = true;
            if let Some(l) = log {
                l.push_str(&format!("register {} came back changed; ", NAMES[i]));
            }
        }
    }
    if rep.xmm_bad != 0 {
        bad = true;
        if let Some(l) = log {
            l.push_str("a vector register came back changed; ");
        }
    }
    bad
}

/// Frame size in bytes below `max`, in the neighbourhood of page multiples more often than not.
fn gen_size(r: &mut Rng, max: u64) -> u64 {
    let pages = max / PAGE as u64;
    let s = match r.below(8) {
        0 => r.below(3 * PAGE as u64),
        1 => r.below(max),
        2 | 3 => r.below(12) * PAGE as u64 + r.below(33).wrapping_sub(16),
        4 => r.below(pages) * PAGE as u64,
        5 => (1u64 << r.below(64 - max.leading_zeros() as u64)).wrapping_add(r.below(33)).wrapping_sub(16),
        _ => {
            let n = 1 + r.below(pages);
            r.below(n) * PAGE as u64 + r.below(PAGE as u64)
        }
    };
    let s = if (s as i64) < 0 { s.wrapping_neg() } else { s };
    s % max
}

/// Offset of the stack pointer in its page, near the page's ends as often as not.
fn gen_off(r: &mut Rng) -> u64 {
    let o = match r.below(4) {
        0 => r.below(PAGE as u64),
        1 => r.below(12) * 8,
        2 => PAGE as u64 - r.below(12) * 8,
        _ => r.below(512) * 8,
    };
    (o & !7) % PAGE as u64
}

pub fn c16(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let mut subs = Vec::new();
    let present = abi::address(abi::NAMES.len()) != 0;
    subs.push(
        Sub::new("probe exists", 1, 1, |_: &mut Rng, _, w: &mut Words| w[0] = 0, move |_, log| {
            if let (false, Some(l)) = (present, log) {
                l.push_str("the archive has no stack probe");
            }
            if present { Out::Ok } else { Out::Fail }
        })
        .enumerated(),
    );
    if !present {
        return (meta(), subs);
    }
    let track = |max: u64| {
        move |w: &Words, mut log: Option<&mut String>| {
            let size = (w[0] % max as u128) as usize;
            let off = (w[1] % PAGE as u128) as usize & !7;
            // two pages of slack below the frame, two above the stack pointer
            let below = (size + PAGE - 1) / PAGE * PAGE + 3 * PAGE;
            let sp = below + off;
            let len = below + 3 * PAGE;
            let (rep, st) = run(len, sp, size as u64, len, false, w[2] as u64);
            let mut bad = false;
            let Some(rep) = rep else {
                if let Some(l) = log {
                    l.push_str(&format!("probe of {size} bytes from offset {off:#x} of a page ended with status {st:#x}"));
                }
                return Out::Fail;
            };
            if rep.stopped != 0 {
                if let Some(l) = log {
                    l.push_str(&format!("probe of {size} bytes touched address stack pointer {:+}, outside the region; ", rep.last as i64 - sp as i64));
                }
                return Out::Fail;
            }
            let seen = &rep.pages[..rep.faults as usize];
            // in order: every first touch is below the previous one
            if let Some(i) = (1..seen.len()).find(|&i| seen[i] >= seen[i - 1]) {
                bad = true;
                if let Some(l) = log.as_mut() {
                    l.push_str(&format!("page {} is touched after page {}; ", seen[i], seen[i - 1]));
                }
            }
            // every page of [sp - size, sp) is touched
            if size > 0 {
                for page in (sp - size) / PAGE..=(sp - 1) / PAGE {
                    if !seen.contains(&(page as u32)) {
                        bad = true;
                        if let Some(l) = log.as_mut() {
                            l.push_str(&format!("the page {} bytes below the stack pointer is not touched; ", sp - 1 - page * PAGE));
                        }
                        break;
                    }
                }
            }
            // nothing far below the frame, nothing above
            let low = (sp - size - SLACK) / PAGE;
            for &p in seen {
                if (p as usize) < low || p as usize > sp / PAGE {
                    bad = true;
                    if let Some(l) = log.as_mut() {
                        l.push_str(&format!("a page at {:+} from the stack pointer is touched; ", (p as i64 * PAGE as i64) - sp as i64));
                    }
                    break;
                }
            }
            bad |= registers(rep, &mut log);
            if let Some(l) = log {
                l.push_str(&format!("probe of {size} bytes from offset {off:#x} of a page: {} pages", seen.len()));
            }
            if bad {
                Out::Fail
            } else if size > PAGE {
                Out::Ok
            } else {
                Out::Trivial
            }
        }
    };
    let gen = |max: u64| {
        move |r: &mut Rng, _, w: &mut Words| {
            w[0] = gen_size(r, max) as u128;
            w[1] = gen_off(r) as u128;
            w[2] = r.u64() as u128;
        }
    };
    let small = 96 << 10;
    subs.push(Sub::new("frames of a few pages", 3, ctx.n(30_000, 300_000), gen(small), track(small)).unit(64));
    let mid = 24 << 20;
    subs.push(Sub::new("frames of many pages", 3, ctx.n(1_600, 12_000), gen(mid), track(mid)).unit(16));
    // one guard page anywhere in a frame of any size
    let guard = |max: u64| {
        move |w: &Words, mut log: Option<&mut String>| {
            let size = (w[0] % max as u128) as usize;
            let off = (w[1] % PAGE as u128) as usize & !7;
            let below = (size + PAGE - 1) / PAGE * PAGE + 3 * PAGE;
            let sp = below + off;
            let len = below + 3 * PAGE;
            // the guard is one of the pages of [sp - size, sp); everything below is inaccessible too
            let lo = (sp - size) / PAGE;
            let hi = (sp - 1) / PAGE;
            if size == 0 || lo > hi {
                return Out::Skip;
            }
            let g = lo + (w[3] % (hi - lo + 1) as u128) as usize;
            let (rep, st) = run(len, sp, size as u64, (g + 1) * PAGE, true, w[2] as u64);
            let Some(rep) = rep else {
                if let Some(l) = log {
                    l.push_str(&format!("probe of {size} bytes ended with status {st:#x}"));
                }
                return Out::Fail;
            };
            let hit = rep.faults > 0 && rep.first as usize / PAGE == g && (rep.first as usize) < len;
            if let Some(l) = log.as_mut() {
                let at = if rep.faults > 0 { format!("first fault at {:+}", rep.first as i64 - sp as i64) } else { "no fault".into() };
                l.push_str(&format!("probe of {size} bytes with a guard page ending {} bytes below the stack pointer: {at}", sp - (g * PAGE)));
            }
            if hit { Out::Ok } else { Out::Fail }
        }
    };
    let ggen = |max: u64| {
        move |r: &mut Rng, _, w: &mut Words| {
            w[0] = gen_size(r, max) as u128;
            w[1] = gen_off(r) as u128;
            w[2] = r.u64() as u128;
            w[3] = if r.one_in(3) { 0 } else { r.u128() };
        }
    };
    subs.push(Sub::new("guard page, frames of a few pages", 4, ctx.n(20_000, 200_000), ggen(small), guard(small)).unit(64));
    subs.push(Sub::new("guard page, frames of many pages", 4, ctx.n(4_000, 40_000), ggen(mid), guard(mid)).unit(16));
    let huge = 20 << 30;
    subs.push(Sub::new("guard page, frames beyond 4 GiB", 4, ctx.n(48, 800), ggen(huge), guard(huge)).unit(1));
    (meta(), subs)
}

fn meta() -> Meta {
    Meta {
        rule: "non-trivial: the frame is larger than one page, or a guard page lies in it",
        assumptions: vec![
            "the scratch register r11 and the flags may change; every other general and vector register counts as preserved".into(),
            "first touches are seen as page faults in a child process; later touches of the same page are not".into(),
            "only the routine for x86-64 can run here".into(),
        ],
    }
}
