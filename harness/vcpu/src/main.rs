//! First calls of fused multiply-add on generated processors under generated schedules.
//!
//! Each case forks a child in which no such call was made yet. The child runs two to three lines
//! of execution on stacks of their own, single-stepped by the trap flag; the trap handler decides
//! after every instruction whether to switch to another line, answers `cpuid` and `xgetbv` from
//! the case's processor description instead of the real one, and judges every other instruction
//! against that description. The caller's process never calls the functions itself.
use std::arch::global_asm;
use std::cell::Cell;
use std::ffi::c_void;

use vcore::gen;
use vcore::sf::{Fmt, F32, F64};
use vcore::sys;
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};

global_asm!(
    // switch_stack(save: *mut usize, to: usize)
    ".globl vcpu_switch",
    "vcpu_switch:",
    "push rbp; push rbx; push r12; push r13; push r14; push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15; pop r14; pop r13; pop r12; pop rbx; pop rbp",
    "ret",
    // trap_on / trap_off: set or clear the trap flag
    ".globl vcpu_trap_on",
    "vcpu_trap_on:",
    "pushfq; or qword ptr [rsp], 0x100; popfq",
    "ret",
    ".globl vcpu_trap_off",
    "vcpu_trap_off:",
    "pushfq; and qword ptr [rsp], -257; popfq",
    "ret",
);
extern "C" {
    fn vcpu_switch(save: *mut usize, to: usize);
    fn vcpu_trap_on();
    fn vcpu_trap_off();
    static __executable_start: u8;
    static etext: u8;
}

const LINES: usize = 3;
const CALLS: usize = 2;

/// A processor as `cpuid` and `xgetbv` describe it.
#[derive(Clone, Copy)]
struct Cpu {
    vendor: [u8; 12],
    max_leaf: u32,
    ecx1: u32,
    edx1: u32,
    ebx7: u32,
    edx7: u32,
    eax71: u32,
    max_ext: u32,
    ext_ecx: u32,
    xcr0: u64,
    /// What leaves that do not exist return.
    garbage: [u32; 4],
}

const VENDORS: [&[u8; 12]; 6] = [b"GenuineIntel", b"AuthenticAMD", b"HygonGenuine", b"CentaurHauls", b"  Shanghai  ", b"GenuineAMD!!"];

const FMA: u32 = 1 << 12;
const XSAVE: u32 = 1 << 26;
const OSXSAVE: u32 = 1 << 27;
const AVX: u32 = 1 << 28;
const FMA4: u32 = 1 << 16;

/// Any word makes a processor that could exist.
fn cpu(w: u128) -> Cpu {
    let b = |i: u32| w >> i & 1 == 1;
    let vendor = *VENDORS[(w & 7) as usize % VENDORS.len()];
    let amd = &vendor == b"AuthenticAMD" || &vendor == b"HygonGenuine";
    let max_leaf = [0, 1, 6, 7, 0xd, 0x20, 7, 7][(w >> 3 & 7) as usize];
    let max_ext = [0, 0x8000_0000, 0x8000_0001, 0x8000_0008, 0x8000_001f, 0x8000_0001, 0x8000_001f, 0x8000_0008][(w >> 6 & 7) as usize];
    let mut ecx1 = (w >> 32) as u32;
    let avx = b(9);
    // dependencies between the flags
    ecx1 = ecx1 & !(FMA | XSAVE | OSXSAVE | AVX | 1 << 29)
        | if b(10) { XSAVE } else { 0 }
        | if b(10) && b(11) { OSXSAVE } else { 0 }
        | if avx { AVX } else { 0 }
        | if avx && b(12) { FMA } else { 0 }
        | if avx && b(13) { 1 << 29 } else { 0 };
    let xcr0 = [1, 1 | 2, 1 | 2 | 4, 1 | 2 | 4 | 0xe0, 1 | 2 | 4, 1, 1 | 2 | 0x200, 1 | 2 | 4 | 0x60000][(w >> 16 & 7) as usize];
    let mut ext_ecx = (w >> 64) as u32;
    if !(amd && avx) {
        ext_ecx &= !FMA4;
    } else if b(14) {
        ext_ecx |= FMA4;
    }
    let r = w as u32 ^ (w >> 96) as u32;
    Cpu {
        vendor,
        max_leaf,
        ecx1,
        edx1: r | 1 << 25 | 1 << 26,
        ebx7: r.rotate_left(7),
        edx7: if avx { r.rotate_left(13) } else { r.rotate_left(13) & !(1 << 23) },
        eax71: r.rotate_left(19),
        max_ext,
        ext_ecx,
        xcr0,
        // Intel repeats the highest basic leaf, AMD returns zero
        garbage: if amd { [0; 4] } else { [r.rotate_left(3), r.rotate_left(11), r.rotate_left(17), r.rotate_left(23)] },
    }
}

impl Cpu {
    fn cpuid(&self, leaf: u32, sub: u32) -> [u32; 4] {
        let v = &self.vendor;
        let q = |i: usize| u32::from_le_bytes([v[i], v[i + 1], v[i + 2], v[i + 3]]);
        match leaf {
            0 => [self.max_leaf, q(0), q(8), q(4)],
            1..=0x7fff_ffff if leaf > self.max_leaf => self.garbage,
            1 => [0x000306a9, 0x0010_0800, self.ecx1, self.edx1],
            7 if sub == 0 => [1, self.ebx7, 0, self.edx7],
            7 if sub == 1 => [self.eax71, 0, 0, 0],
            0x8000_0000 if self.max_ext != 0 => [self.max_ext, q(0), q(8), q(4)],
            0x8000_0001 if self.max_ext >= 0x8000_0001 => [0, 0, self.ext_ecx, 0],
            0x8000_0000..=u32::MAX if leaf > self.max_ext => self.garbage,
            _ => [0; 4],
        }
    }
    fn os_xsave(&self) -> bool {
        self.max_leaf >= 1 && self.ecx1 & OSXSAVE != 0
    }
    fn vex(&self) -> bool {
        self.os_xsave() && self.ecx1 & AVX != 0 && self.xcr0 & 6 == 6
    }
    fn fma3(&self) -> bool {
        self.vex() && self.ecx1 & FMA != 0
    }
    fn fma4(&self) -> bool {
        self.vex() && self.max_ext >= 0x8000_0001 && self.ext_ecx & FMA4 != 0
    }
    fn evex(&self) -> bool {
        self.vex() && self.xcr0 & 0xe0 == 0xe0 && self.max_leaf >= 7
    }
    fn describe(&self) -> String {
        format!(
            "{} leaves up to {:#x}/{:#x}{}{}{}{}{}, xcr0 {:#x}",
            String::from_utf8_lossy(&self.vendor),
            self.max_leaf,
            self.max_ext,
            if self.ecx1 & AVX != 0 { " avx" } else { "" },
            if self.ecx1 & FMA != 0 { " fma" } else { "" },
            if self.ecx1 & XSAVE != 0 { " xsave" } else { "" },
            if self.ecx1 & OSXSAVE != 0 { " osxsave" } else { "" },
            if self.ext_ecx & FMA4 != 0 { " fma4" } else { "" },
            self.xcr0
        )
    }
}

/// What the child reports.
#[repr(C)]
struct Report {
    /// 0 running, 1 finished, otherwise the kind of violation.
    state: u32,
    line: u32,
    steps: u64,
    switches: u64,
    /// Switches that interrupted a call.
    inside: u64,
    cpuids: u64,
    used: u64,
    code: [u8; 16],
    offset: u64,
    results: [[u128; CALLS]; LINES],
}

const FINISHED: u32 = 1;
const NO_FMA3: u32 = 2;
const NO_FMA4: u32 = 3;
const NO_VEX: u32 = 4;
const NO_XGETBV: u32 = 5;
const STUCK: u32 = 6;
const NO_LEGACY: u32 = 7;

fn kind(state: u32, status: i32) -> String {
    match state {
        NO_FMA3 => "executed an FMA instruction the processor does not support".into(),
        NO_FMA4 => "executed an FMA4 instruction the processor does not support".into(),
        NO_VEX => "executed an AVX instruction the processor does not support".into(),
        NO_XGETBV => "executed xgetbv where the system did not enable it or for a register that does not exist".into(),
        NO_LEGACY => "executed an instruction beyond the baseline that the processor does not report".into(),
        STUCK => "did not finish".into(),
        _ => format!("the child died with status {status:#x}"),
    }
}

/// One call: function and operands.
#[derive(Clone, Copy)]
struct Call {
    wide: bool,
    runtime: bool,
    x: u128,
    y: u128,
    z: u128,
}

struct State {
    cpu: Cpu,
    calls: [[Call; CALLS]; LINES],
    lines: usize,
    /// Lengths of the runs between switches.
    runs: [u32; 24],
    at: usize,
    left: u32,
    cur: usize,
    done: [bool; LINES],
    busy: [bool; LINES],
    sp: [usize; LINES],
    main_sp: usize,
    rep: *mut Report,
}

static mut ST: *mut State = std::ptr::null_mut();

unsafe fn st() -> &'static mut State {
    &mut *ST
}

fn fma_by(c: &Call) -> u128 {
    match (c.wide, c.runtime) {
        (true, false) => l1::fma(f64::from_bits(c.x as u64), f64::from_bits(c.y as u64), f64::from_bits(c.z as u64)).to_bits() as u128,
        (false, false) => l1::fmaf(f32::from_bits(c.x as u32), f32::from_bits(c.y as u32), f32::from_bits(c.z as u32)).to_bits() as u128,
        (true, true) => b1::math::full_availability::fma(f64::from_bits(c.x as u64), f64::from_bits(c.y as u64), f64::from_bits(c.z as u64)).to_bits() as u128,
        (false, true) => b1::math::full_availability::fmaf(f32::from_bits(c.x as u32), f32::from_bits(c.y as u32), f32::from_bits(c.z as u32)).to_bits() as u128,
    }
}

/// Entry of a line: its calls, then back to whoever still runs.
extern "C" fn line_entry() -> ! {
    unsafe {
        let s = st();
        let me = s.cur;
        for i in 0..CALLS {
            let c = s.calls[me][i];
            s.busy[me] = true;
            vcpu_trap_on();
            let r = fma_by(&c);
            vcpu_trap_off();
            s.busy[me] = false;
            (*s.rep).results[me][i] = r;
        }
        s.done[me] = true;
        let mut save = 0;
        match (0..s.lines).find(|i| !s.done[*i]) {
            Some(next) => {
                s.cur = next;
                vcpu_switch(&mut save, s.sp[next]);
            }
            None => vcpu_switch(&mut save, s.main_sp),
        }
        sys::_exit(9)
    }
}

const REG: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7]; // rax rcx rdx rbx rsp rbp rsi rdi r8..
const RIP: usize = 16;

unsafe fn stop(code: u32, ip: *const u8) -> ! {
    let rep = st().rep;
    (*rep).state = code;
    (*rep).line = st().cur as u32;
    (*rep).offset = (ip as usize).wrapping_sub(&__executable_start as *const u8 as usize) as u64;
    for i in 0..16 {
        (*rep).code[i] = *ip.add(i);
    }
    sys::_exit(0)
}

/// One vfmadd{ss,sd} with four operands, by software.
unsafe fn emulate_fma4(ip: *const u8, xmm: *mut [u128; 16]) -> Option<usize> {
    // C4 [RXB mmmmm] [W vvvv L pp] opcode modrm is4
    if *ip != 0xc4 || *ip.add(1) & 0x1f != 3 {
        return None;
    }
    let (p1, p2, op, modrm, is4) = (*ip.add(1), *ip.add(2), *ip.add(3), *ip.add(4), *ip.add(5));
    if modrm < 0xc0 || !matches!(op, 0x6a | 0x6b) {
        return None;
    }
    let reg = (modrm >> 3 & 7 | (!p1 >> 7 & 1) << 3) as usize;
    let rm = (modrm & 7 | (!p1 >> 5 & 1) << 3) as usize;
    let v = (!p2 >> 3 & 15) as usize;
    let last = (is4 >> 4) as usize;
    let (s2, s3) = if p2 >> 7 == 0 { (rm, last) } else { (last, rm) };
    let f: &Fmt = if op == 0x6b { &F64 } else { &F32 };
    let m = f.all();
    let r = f.fma((*xmm)[v] & m, (*xmm)[s2] & m, (*xmm)[s3] & m);
    (*xmm)[reg] = r;
    Some(6)
}

unsafe extern "C" fn on_trap(_: i32, _: *mut c_void, uc: *mut u8) {
    let s = st();
    let rep = s.rep;
    // mcontext: gregs at offset 40, fpregs pointer after 23 registers
    let gregs = uc.add(40) as *mut u64;
    let fpregs = *(uc.add(40 + 23 * 8) as *const *mut u8);
    (*rep).steps += 1;
    if (*rep).steps > 400_000 {
        stop(STUCK, *gregs.add(RIP) as *const u8);
    }
    loop {
        let ip = *gregs.add(RIP) as *const u8;
        let inside = ip >= &__executable_start as *const u8 && ip < &etext as *const u8;
        if !inside {
            break;
        }
        let mut i = 0;
        let mut prefix = 0;
        while matches!(*ip.add(i), 0x66 | 0xf2 | 0xf3 | 0x2e | 0x3e | 0x26 | 0x36 | 0x64 | 0x65) && i < 6 {
            prefix = *ip.add(i);
            i += 1;
        }
        let rex = *ip.add(i) & 0xf0 == 0x40;
        if rex {
            i += 1;
        }
        let b = |k: usize| *ip.add(i + k);
        match b(0) {
            0x0f if b(1) == 0xa2 => {
                (*rep).cpuids += 1;
                let r = s.cpu.cpuid(*gregs.add(REG[0]) as u32, *gregs.add(REG[1]) as u32);
                *gregs.add(REG[0]) = r[0] as u64;
                *gregs.add(REG[3]) = r[1] as u64;
                *gregs.add(REG[1]) = r[2] as u64;
                *gregs.add(REG[2]) = r[3] as u64;
                *gregs.add(RIP) += i as u64 + 2;
                continue;
            }
            0x0f if b(1) == 0x01 && b(2) == 0xd0 => {
                // no generated processor reports any further register
                if !s.cpu.os_xsave() || *gregs.add(REG[1]) as u32 != 0 {
                    stop(NO_XGETBV, ip);
                }
                *gregs.add(REG[0]) = s.cpu.xcr0 & 0xffff_ffff;
                *gregs.add(REG[2]) = s.cpu.xcr0 >> 32;
                *gregs.add(RIP) += i as u64 + 3;
                continue;
            }
            // the three-byte maps came with SSSE3 and SSE4; popcnt, lzcnt and tzcnt need a feature too
            0x0f if b(1) == 0x38 || b(1) == 0x3a => {
                let need = 1 << 9 | 1 << 19;
                if s.cpu.max_leaf < 1 || s.cpu.ecx1 & need != need {
                    stop(NO_LEGACY, ip);
                }
            }
            0x0f if b(1) == 0xb8 && prefix == 0xf3 => {
                if s.cpu.max_leaf < 1 || s.cpu.ecx1 & 1 << 23 == 0 {
                    stop(NO_LEGACY, ip);
                }
            }
            0xc4 | 0xc5 if !rex && i == 0 => {
                let long = b(0) == 0xc4;
                let map = if long { b(1) & 0x1f } else { 1 };
                let op = if long { b(3) } else { b(2) };
                if map == 2 && matches!(op, 0x96..=0x9f | 0xa6..=0xaf | 0xb6..=0xbf) {
                    if !s.cpu.fma3() {
                        stop(NO_FMA3, ip);
                    }
                    (*rep).used |= 1;
                } else if map == 3 && matches!(op, 0x5c..=0x5f | 0x68..=0x6f | 0x78..=0x7f) {
                    if !s.cpu.fma4() {
                        stop(NO_FMA4, ip);
                    }
                    (*rep).used |= 2;
                    if fpregs.is_null() {
                        break;
                    }
                    // the vector registers in the saved state
                    let xmm = fpregs.add(160) as *mut [u128; 16];
                    if let Some(n) = emulate_fma4(ip, xmm) {
                        *gregs.add(RIP) += n as u64;
                        continue;
                    }
                } else if !s.cpu.vex() {
                    stop(NO_VEX, ip);
                }
            }
            0x62 if !rex && i == 0 => {
                if !s.cpu.evex() {
                    stop(NO_VEX, ip);
                }
            }
            _ => {}
        }
        break;
    }
    // scheduling
    if s.left > 0 {
        s.left -= 1;
        return;
    }
    if s.at >= s.runs.len() {
        return;
    }
    let run = s.runs[s.at];
    s.at += 1;
    s.left = run >> 1;
    let me = s.cur;
    let others = [(me + 1) % s.lines, (me + 2) % s.lines];
    let pick = others[(run & 1) as usize];
    let next = if pick != me && !s.done[pick] { pick } else { others[0] };
    if next != me && !s.done[next] {
        (*rep).switches += 1;
        (*rep).inside += s.busy[next] as u64;
        s.cur = next;
        vcpu_switch(&mut s.sp[me], s.sp[next]);
    }
}

const STACK: usize = 256 * 1024;

unsafe fn child(s: &mut State, stacks: *mut u8) -> ! {
    ST = s;
    let act = sys::sigaction_t { handler: on_trap as *const () as usize, mask: [0; 16], flags: sys::SA_SIGINFO | sys::SA_NODEFER, restorer: 0 };
    sys::sigaction(sys::SIGTRAP, &act, std::ptr::null_mut());
    let dfl = sys::sigaction_t { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
    for sig in [sys::SIGILL, sys::SIGSEGV, sys::SIGBUS, sys::SIGFPE, sys::SIGABRT] {
        sys::sigaction(sig, &dfl, std::ptr::null_mut());
    }
    for i in 0..s.lines {
        let top = stacks.add((i + 1) * STACK) as *mut usize;
        // six saved registers, then the entry address; the stack is aligned as after a call
        let sp = top.sub(16);
        for k in 0..6 {
            *sp.add(k) = 0;
        }
        *sp.add(6) = line_entry as *const () as usize;
        *sp.add(7) = 0;
        s.sp[i] = sp as usize;
    }
    s.cur = 0;
    let first = s.sp[0];
    let main_sp: *mut usize = &mut s.main_sp;
    vcpu_switch(main_sp, first);
    (*s.rep).state = FINISHED;
    sys::_exit(0)
}

thread_local! {
    static MAPS: Cell<(*mut u8, *mut u8)> = const { Cell::new((std::ptr::null_mut(), std::ptr::null_mut())) };
}

fn maps() -> (*mut Report, *mut u8) {
    MAPS.with(|m| {
        if m.get().0.is_null() {
            let stacks = unsafe {
                sys::mmap(std::ptr::null_mut(), STACK * LINES, sys::PROT_READ | sys::PROT_WRITE, sys::MAP_PRIVATE | sys::MAP_ANONYMOUS | sys::MAP_NORESERVE, -1, 0)
            };
            m.set((sys::map_shared(4096), stacks as *mut u8));
        }
        (m.get().0 as *mut Report, m.get().1)
    })
}

/// Operands whose sum is not representable, so that a product rounded on its own shows.
fn operands(r: &mut Rng, f: &Fmt) -> [u128; 3] {
    let mut e = |lo, hi| ((f.bias() as i64 + r.range(lo, hi)) as u128) << f.mant;
    let (a, b, c) = (e(-8, 8), e(-8, 8), e(-60, 20));
    let mut pick = |e: u128| (r.u128() & f.sign()) | e | gen::frac(r, f);
    [pick(a), pick(b), pick(c)]
}

/// Case: w[0] processor, w[1] and w[2] schedule, w[3] seed of the operands, w[4] number of lines
/// and functions called.
fn generate(r: &mut Rng, w: &mut Words) {
    w[0] = r.u128();
    // lean towards processors that have at least one of the units
    if !r.one_in(3) {
        w[0] |= 1 << 9 | 1 << 10 | 1 << 11;
        w[0] = w[0] & !(7 << 16) | 2 << 16;
    }
    if r.one_in(2) {
        w[0] = w[0] & !7 | 1 + r.below(2) as u128;
        w[0] |= 1 << 14;
        w[0] = w[0] & !(7 << 6) | 4 << 6;
        if r.one_in(2) {
            w[0] &= !(1 << 12);
        }
    }
    for k in 1..3 {
        // 12 runs of 10 bits
        let mut v = 0u128;
        for i in 0..12 {
            let len = match r.below(4) {
                0 => r.below(8),
                1 => r.below(40),
                2 => r.below(160),
                _ => r.below(1024),
            };
            v |= (len as u128) << (10 * i);
        }
        w[k] = v;
    }
    w[3] = r.u64() as u128;
    w[4] = r.u64() as u128 & 0xffff;
}

fn build(w: &Words, rep: *mut Report) -> State {
    let lines = 1 + (w[4] % 3) as usize;
    let mut r = Rng::new(w[3] as u64, 1, 2);
    let none = Call { wide: false, runtime: false, x: 0, y: 0, z: 0 };
    let mut calls = [[none; CALLS]; LINES];
    let bits = w[4] >> 2;
    let runtime = bits & 1 == 1;
    for (i, line) in calls.iter_mut().enumerate() {
        for (j, c) in line.iter_mut().enumerate() {
            let wide = bits >> (1 + i * CALLS + j) & 1 == 1;
            let [x, y, z] = operands(&mut r, if wide { &F64 } else { &F32 });
            *c = Call { wide, runtime, x, y, z };
        }
    }
    let mut runs = [0u32; 24];
    for (i, run) in runs.iter_mut().enumerate() {
        *run = (w[1 + i / 12] >> (10 * (i % 12)) & 0x3ff) as u32;
    }
    State {
        cpu: cpu(w[0]),
        calls,
        lines,
        at: 0,
        left: runs[23],
        runs,
        cur: 0,
        done: [false; LINES],
        busy: [false; LINES],
        sp: [0; LINES],
        main_sp: 0,
        rep,
    }
}

fn fmt(c: &Call) -> &'static Fmt {
    if c.wide {
        &F64
    } else {
        &F32
    }
}

fn stepped(w: &Words, log: Option<&mut String>) -> Out {
    let (rep, stacks) = maps();
    unsafe {
        std::ptr::write_bytes(rep as *mut u8, 0, std::mem::size_of::<Report>());
        let mut s = build(w, rep);
        let pid = sys::fork();
        if pid == 0 {
            child(&mut s, stacks);
        }
        if pid < 0 {
            return Out::Skip;
        }
        let mut status = 0;
        while sys::waitpid(pid, &mut status, 0) < 0 {}
        let mut say = String::new();
        let rep = &*rep;
        if rep.state != FINISHED {
            say = format!("{}: line {} (at +{:#x}: {:02x?})", kind(rep.state, status), rep.line, rep.offset, &rep.code[..8]);
        } else {
            for i in 0..s.lines {
                for j in 0..CALLS {
                    let c = &s.calls[i][j];
                    let f = fmt(c);
                    let want = f.fma(c.x, c.y, c.z);
                    let got = rep.results[i][j];
                    if !f.same(got, want) {
                        say = format!("line {i} call {j}: fma({}, {}, {}) gave {}, want {}", f.show(c.x), f.show(c.y), f.show(c.z), f.show(got), f.show(want));
                    }
                }
            }
        }
        let bad = !say.is_empty();
        if let Some(l) = log {
            l.push_str(&format!("{}, {} lines, {} steps, {} switches", s.cpu.describe(), s.lines, rep.steps, rep.switches));
            if bad {
                l.push_str(&format!(": {say}"));
            }
        }
        if bad {
            Out::Fail
        } else if rep.cpuids > 0 && (s.lines == 1 || rep.inside > 0) {
            Out::Ok
        } else {
            Out::Trivial
        }
    }
}

// Threads on the real processor.

extern "C" {
    fn pthread_create(t: *mut usize, attr: *const c_void, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> i32;
    fn pthread_join(t: usize, out: *mut *mut c_void) -> i32;
}

const THREADS: usize = 4;

struct Race {
    calls: [[Call; CALLS]; THREADS],
    delay: [u32; THREADS],
    ready: std::sync::atomic::AtomicU32,
    rep: *mut [[u128; CALLS]; THREADS],
}

extern "C" fn racer(arg: *mut c_void) -> *mut c_void {
    use std::sync::atomic::Ordering::SeqCst;
    let p = arg as usize;
    let (race, me) = unsafe { (&*((p & !7) as *const Race), p & 7) };
    race.ready.fetch_add(1, SeqCst);
    while race.ready.load(SeqCst) < THREADS as u32 {
        std::hint::spin_loop();
    }
    for _ in 0..race.delay[me] {
        std::hint::spin_loop();
    }
    for i in 0..CALLS {
        let r = fma_by(&race.calls[me][i]);
        unsafe { (*race.rep)[me][i] = r };
    }
    std::ptr::null_mut()
}

fn raced(w: &Words, log: Option<&mut String>) -> Out {
    let (rep, _) = maps();
    let rep = rep as *mut [[u128; CALLS]; THREADS];
    let mut r = Rng::new(w[0] as u64, 3, 4);
    let none = Call { wide: false, runtime: false, x: 0, y: 0, z: 0 };
    let mut race = Race { calls: [[none; CALLS]; THREADS], delay: [0; THREADS], ready: Default::default(), rep };
    for i in 0..THREADS {
        race.delay[i] = (w[1] >> (8 * i) & 0xff) as u32;
        for j in 0..CALLS {
            let wide = w[2] >> (1 + i * CALLS + j) & 1 == 1;
            let [x, y, z] = operands(&mut r, if wide { &F64 } else { &F32 });
            race.calls[i][j] = Call { wide, runtime: w[2] & 1 == 1, x, y, z };
        }
    }
    unsafe {
        std::ptr::write_bytes(rep as *mut u8, 0, std::mem::size_of::<[[u128; CALLS]; THREADS]>());
        let pid = sys::fork();
        if pid == 0 {
            let mut t = [0usize; THREADS];
            for (i, t) in t.iter_mut().enumerate() {
                if pthread_create(t, std::ptr::null(), racer, ((&race as *const Race as usize) | i) as *mut c_void) != 0 {
                    sys::_exit(77);
                }
            }
            for t in t {
                pthread_join(t, std::ptr::null_mut());
            }
            sys::_exit(0);
        }
        if pid < 0 {
            return Out::Skip;
        }
        let mut status = 0;
        while sys::waitpid(pid, &mut status, 0) < 0 {}
        if status == 77 << 8 {
            return Out::Skip;
        }
        let mut say = String::new();
        if status != 0 {
            say = format!("the process died with status {status:#x}");
        }
        for i in 0..THREADS {
            for j in 0..CALLS {
                let c = &race.calls[i][j];
                let f = fmt(c);
                let (got, want) = ((*rep)[i][j], f.fma(c.x, c.y, c.z));
                if status == 0 && !f.same(got, want) {
                    say = format!("thread {i} call {j}: fma({}, {}, {}) gave {}, want {}", f.show(c.x), f.show(c.y), f.show(c.z), f.show(got), f.show(want));
                }
            }
        }
        let bad = !say.is_empty();
        if let Some(l) = log {
            l.push_str(&if bad { say } else { format!("{THREADS} threads, delays {:?}, all results right", race.delay) });
        }
        if bad {
            Out::Fail
        } else {
            Out::Ok
        }
    }
}

fn c36(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let s = vec![
        Sub::new("generated processors and schedules", 5, ctx.n(16_000, 200_000), |r: &mut Rng, _, w: &mut Words| generate(r, w), stepped).unit(64),
        Sub::new(
            "threads on this processor",
            3,
            ctx.n(3_000, 40_000),
            |r: &mut Rng, _, w: &mut Words| {
                w[0] = r.u64() as u128;
                w[1] = if r.one_in(2) { 0 } else { r.u64() as u128 & 0x3f3f_3f3f };
                w[2] = r.u64() as u128 & 0x1ff;
            },
            raced,
        )
        .unit(64),
    ];
    (
        Meta {
            rule: "non-trivial: the processor was queried in the child and, with several lines, at least one switch resumed a line in the middle of a call; every thread race counts",
            assumptions: vec![
                "schedules interleave whole instructions of up to three lines of execution with sequentially consistent memory; weaker orderings of real processors are only seen in the thread races".into(),
                "instructions of the processor's four-operand multiply-add are emulated, all others execute on the real processor".into(),
            ],
        },
        s,
    )
}

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C36" => Some(c36(ctx)),
        _ => None,
    });
}
