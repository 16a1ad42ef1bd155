//! Case generation, parallel execution, crash attribution, shrinking, replay and evidence.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicU8, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::json;
use crate::rng::{hash_str, mix, Rng};
use crate::sys;

pub const W: usize = 8;
pub type Words = [u128; W];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out {
    /// Property held, on a case that does not exercise anything of interest.
    Trivial,
    /// Property held on a non-trivial case.
    Ok,
    /// Case outside the precondition; not counted as evaluated.
    Skip,
    /// Property does not hold.
    Fail,
    /// The exact failure listed in known-findings.txt under this sub-check.
    Known,
}

pub type GenFn = Box<dyn Fn(&mut Rng, u64, &mut Words) + Send + Sync>;
pub type CheckFn = Box<dyn Fn(&Words, Option<&mut String>) -> Out + Send + Sync>;

pub struct Sub {
    pub name: String,
    /// Number of words of a case that are used.
    pub n: usize,
    pub total: u64,
    /// Cases are numbered and all different: `gen` depends on the index only.
    pub enumerated: bool,
    pub unit: u64,
    pub gen: GenFn,
    pub check: CheckFn,
    /// Text for a KNOWN-FINDING line.
    pub known: Option<String>,
}

impl Sub {
    pub fn new(
        name: impl Into<String>,
        n: usize,
        total: u64,
        gen: impl Fn(&mut Rng, u64, &mut Words) + Send + Sync + 'static,
        check: impl Fn(&Words, Option<&mut String>) -> Out + Send + Sync + 'static,
    ) -> Sub {
        Sub {
            name: name.into(),
            n,
            total,
            enumerated: false,
            unit: 1 << 14,
            gen: Box::new(gen),
            check: Box::new(check),
            known: None,
        }
    }

    pub fn enumerated(mut self) -> Sub {
        self.enumerated = true;
        self.unit = 1 << 18;
        self
    }

    pub fn unit(mut self, u: u64) -> Sub {
        self.unit = u;
        self
    }
    /// What is printed when a case gives [`Out::Known`].
    pub fn known(mut self, text: &str) -> Sub {
        self.known = Some(text.into());
        self
    }
}

/// What the run was asked to do.
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
}

impl Ctx {
    /// Number of cases for the tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough { thorough } else { (3 * quick).min(thorough.max(quick)) };
        ((n as f64 * self.scale) as u64).max(1)
    }
}

pub struct Meta {
    pub rule: &'static str,
    pub assumptions: Vec<String>,
}

const HLL: usize = 4096;

#[repr(C)]
struct SubStat {
    evals: AtomicU64,
    nontrivial: AtomicU64,
    skips: AtomicU64,
    known: AtomicU64,
    hll: [AtomicU8; HLL],
}

#[repr(C)]
struct Header {
    crashed: AtomicI32,
    harness_error: AtomicU32,
    signal: AtomicI32,
    fault: AtomicU64,
    msg_len: AtomicU32,
    msg: [u8; 2000],
}

#[repr(C, align(128))]
struct Slot {
    seq: AtomicU64,
    sub: AtomicU32,
    active: AtomicU32,
    words: Words,
}

pub const MAX_THREADS: usize = 16;

struct Shared {
    hdr: *mut Header,
    slots: *mut Slot,
    stats: *mut SubStat,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

impl Shared {
    fn new(nsubs: usize) -> Shared {
        let h = std::mem::size_of::<Header>().next_multiple_of(4096);
        let s = (std::mem::size_of::<Slot>() * (MAX_THREADS + 1)).next_multiple_of(4096);
        let t = std::mem::size_of::<SubStat>() * nsubs;
        let p = sys::map_shared(h + s + t + 4096);
        let sh = unsafe {
            Shared { hdr: p as *mut Header, slots: p.add(h) as *mut Slot, stats: p.add(h + s) as *mut SubStat }
        };
        sh.hdr().crashed.store(-1, Relaxed);
        sh
    }
    fn hdr(&self) -> &Header {
        unsafe { &*self.hdr }
    }
    fn slot(&self, i: usize) -> *mut Slot {
        unsafe { self.slots.add(i) }
    }
    fn stat(&self, i: usize) -> &SubStat {
        unsafe { &*self.stats.add(i) }
    }
}

thread_local! {
    static CATCH: Cell<bool> = const { Cell::new(false) };
    static CAUGHT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Run `f` and return its result, or the text of the panic that ended it. Only in packages
/// built with unwinding.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    CATCH.with(|c| c.set(true));
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    CATCH.with(|c| c.set(false));
    res.map_err(|_| CAUGHT.with(|c| c.borrow().clone()))
}

thread_local! {
    static THREAD: Cell<i32> = const { Cell::new(-1) };
}
static HDR: AtomicU64 = AtomicU64::new(0);

extern "C" fn on_signal(sig: i32, info: *const u8, _ctx: *const u8) {
    unsafe {
        let h = HDR.load(Relaxed) as *const Header;
        if !h.is_null() {
            let t = THREAD.with(|t| t.get());
            (*h).signal.store(sig, Relaxed);
            (*h).fault.store(*(info.add(16) as *const u64), Relaxed);
            if t >= 0 {
                (*h).crashed.store(t, SeqCst);
            } else {
                (*h).harness_error.store(1, SeqCst);
            }
        }
        sys::_exit(70);
    }
}

fn install_altstack() {
    let size = 64 * 1024;
    let mem = Box::leak(vec![0u8; size].into_boxed_slice());
    let ss = sys::stack_t { sp: mem.as_mut_ptr() as *mut _, flags: 0, size };
    unsafe { sys::sigaltstack(&ss, std::ptr::null_mut()) };
}

fn install_handlers() {
    install_altstack();
    for s in [sys::SIGILL, sys::SIGTRAP, sys::SIGABRT, sys::SIGBUS, sys::SIGFPE, sys::SIGSEGV] {
        let sa = sys::sigaction_t {
            handler: on_signal as *const () as usize,
            mask: [0; 16],
            flags: sys::SA_SIGINFO | sys::SA_ONSTACK | sys::SA_NODEFER,
            restorer: 0,
        };
        unsafe { sys::sigaction(s, &sa, std::ptr::null_mut()) };
    }
    let core = sys::rlimit { cur: 0, max: 0 };
    unsafe { sys::setrlimit(sys::RLIMIT_CORE, &core) };
    std::panic::set_hook(Box::new(|info| {
        let h = HDR.load(Relaxed) as *mut Header;
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let text = format!("panic at {loc}: {msg}");
        if CATCH.with(|c| c.get()) {
            CAUGHT.with(|c| *c.borrow_mut() = text);
            return;
        }
        let t = THREAD.with(|t| t.get());
        let harness = t < 0 || loc.starts_with("/verif") || !loc.starts_with('/');
        unsafe {
            if h.is_null() {
                eprintln!("{text}");
                sys::_exit(2);
            }
            let n = text.len().min((*h).msg.len());
            std::ptr::copy_nonoverlapping(text.as_ptr(), (*h).msg.as_mut_ptr(), n);
            (*h).msg_len.store(n as u32, SeqCst);
            if harness {
                (*h).harness_error.store(1, SeqCst);
            } else {
                (*h).crashed.store(t, SeqCst);
            }
            sys::_exit(70);
        }
    }));
}

fn hll_add(st: &SubStat, words: &[u128]) {
    let mut h = 0x1234_5678_9abc_def0u64;
    for w in words {
        h = mix(h ^ *w as u64);
        h = mix(h ^ (*w >> 64) as u64);
    }
    let i = (h >> 52) as usize;
    let r = ((h << 12) | (1 << 11)).leading_zeros() as u8 + 1;
    if st.hll[i].load(Relaxed) < r {
        st.hll[i].fetch_max(r, Relaxed);
    }
}

fn hll_count(st: &SubStat) -> u64 {
    let m = HLL as f64;
    let mut sum = 0.0;
    let mut zeros = 0;
    for r in &st.hll {
        let r = r.load(Relaxed);
        sum += 0.5f64.powi(r as i32);
        zeros += (r == 0) as u32;
    }
    let e = 0.7213 / (1.0 + 1.079 / m) * m * m / sum;
    if e <= 2.5 * m && zeros > 0 {
        (m * (m / zeros as f64).ln()) as u64
    } else {
        e as u64
    }
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn threads() -> usize {
    std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .clamp(1, MAX_THREADS)
}

/// One unit of work: all cases of `sub` with numbers in `[unit*size, ...)`.
fn run_unit(ctx: &Ctx, sh: &Shared, slot: *mut Slot, subs: &[Sub], si: usize, u: u64, stop: &AtomicBool) -> Option<Words> {
    let sub = &subs[si];
    let st = sh.stat(si);
    let lo = u * sub.unit;
    let hi = (lo + sub.unit).min(sub.total);
    let mut rng = Rng::new(ctx.seed, hash_str(&sub.name), u);
    let (mut evals, mut nontriv, mut skips, mut known) = (0, 0, 0, 0);
    let mut failed = None;
    unsafe {
        (*slot).sub.store(si as u32, Relaxed);
        (*slot).active.store(1, Relaxed);
        for i in lo..hi {
            let words = &mut *(&raw mut (*slot).words);
            (sub.gen)(&mut rng, i, words);
            // keeps the case in memory before the call, should the call not return
            std::sync::atomic::compiler_fence(SeqCst);
            (*slot).seq.store((*slot).seq.load(Relaxed) + 1, Relaxed);
            match (sub.check)(words, None) {
                Out::Trivial => evals += 1,
                Out::Ok => {
                    evals += 1;
                    nontriv += 1;
                    if !sub.enumerated {
                        hll_add(st, &words[..sub.n]);
                    }
                }
                Out::Skip => skips += 1,
                Out::Known => {
                    evals += 1;
                    known += 1;
                }
                Out::Fail => {
                    evals += 1;
                    failed = Some(*words);
                    break;
                }
            }
            if stop.load(Relaxed) {
                break;
            }
        }
        (*slot).active.store(0, Relaxed);
    }
    st.evals.fetch_add(evals, Relaxed);
    st.nontrivial.fetch_add(nontriv, Relaxed);
    st.skips.fetch_add(skips, Relaxed);
    st.known.fetch_add(known, Relaxed);
    failed
}

/// Greedy shrinking: `fails` says whether a candidate still fails.
fn shrink(start: Words, n: usize, budget: u32, mut fails: impl FnMut(&Words) -> bool) -> Words {
    let mut cur = start;
    let mut left = budget;
    loop {
        let mut progress = false;
        for w in 0..n {
            let mut cands: Vec<u128> = Vec::new();
            let v = cur[w];
            if v == 0 {
                continue;
            }
            cands.push(0);
            cands.push(1);
            for b in (0..128).rev() {
                if v >> b & 1 == 1 {
                    // keep the top bits only
                    cands.push(v >> (b + 1).min(127) << (b + 1).min(127));
                }
            }
            for b in (0..128).rev() {
                if v >> b & 1 == 1 {
                    cands.push(v & !(1 << b));
                }
            }
            cands.push(v >> 1);
            cands.push(v - 1);
            for c in cands {
                if left == 0 {
                    return cur;
                }
                if c >= cur[w] {
                    continue;
                }
                let mut t = cur;
                t[w] = c;
                left -= 1;
                if fails(&t) {
                    cur = t;
                    progress = true;
                }
            }
        }
        if !progress {
            return cur;
        }
    }
}

fn words_text(w: &[u128]) -> String {
    w.iter().map(|x| format!("{x:#x}")).collect::<Vec<_>>().join(" ")
}

/// Run one case in a forked child. Returns (exit kind, text).
#[derive(PartialEq, Eq, Debug, Clone, Copy)]
enum Single {
    Held,
    Failed,
    Crashed,
    Hung,
    HarnessError,
}

fn run_single(sh: &Shared, subs: &[Sub], si: usize, words: &Words) -> (Single, String) {
    let h = sh.hdr();
    h.crashed.store(-1, SeqCst);
    h.harness_error.store(0, SeqCst);
    h.signal.store(0, SeqCst);
    h.msg_len.store(0, SeqCst);
    unsafe {
        let pid = sys::fork();
        if pid == 0 {
            let lim = sys::rlimit { cur: 20, max: 21 };
            sys::setrlimit(sys::RLIMIT_CPU, &lim);
            install_handlers();
            HDR.store(sh.hdr as u64, SeqCst);
            THREAD.with(|t| t.set(MAX_THREADS as i32));
            let slot = sh.slot(MAX_THREADS);
            (*slot).words = *words;
            let out = (subs[si].check)(words, None);
            sys::_exit(match out {
                Out::Fail => 1,
                _ => 0,
            });
        }
        let mut status = 0;
        sys::waitpid(pid, &mut status, 0);
        if status & 0x7f != 0 {
            let sig = status & 0x7f;
            return match sig {
                sys::SIGXCPU | sys::SIGKILL => (Single::Hung, "does not return within 20 s of CPU time".into()),
                _ => (Single::Crashed, format!("killed by signal {sig}")),
            };
        }
        match status >> 8 & 0xff {
            0 => (Single::Held, String::new()),
            1 => (Single::Failed, String::new()),
            _ => {
                let n = h.msg_len.load(SeqCst) as usize;
                let mut text = String::from_utf8_lossy(&h.msg[..n]).into_owned();
                if h.signal.load(SeqCst) != 0 && text.is_empty() {
                    text = format!("signal {} (address {:#x})", h.signal.load(SeqCst), h.fault.load(SeqCst));
                }
                if h.harness_error.load(SeqCst) != 0 {
                    (Single::HarnessError, text)
                } else {
                    (Single::Crashed, text)
                }
            }
        }
    }
}

fn describe(sub: &Sub, w: &Words) -> String {
    let mut s = String::new();
    (sub.check)(w, Some(&mut s));
    s
}

fn write_replay(ctx: &Ctx, sub: &Sub, w: &Words, original: &Words, what: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let clean: String = sub.name.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
    let tag = mix(hash_str(&words_text(&w[..sub.n])));
    let path = dir.join(format!("{}-{}-{:08x}.json", ctx.prop, clean, tag as u32));
    let list = |w: &Words| w[..sub.n].iter().map(|x| format!("\"{x:#x}\"")).collect::<Vec<_>>().join(", ");
    let text = format!(
        "{{\n \"property\": {},\n \"sub_check\": {},\n \"words\": [{}],\n \"before_shrinking\": [{}],\n \"seed\": {},\n \"what\": {},\n \"rerun\": \"bash /verif/check.sh --replay {}\"\n}}\n",
        json::s(&ctx.prop),
        json::s(&sub.name),
        list(w),
        list(original),
        ctx.seed,
        json::s(what),
        path.display()
    );
    if let Err(e) = std::fs::write(&path, text) {
        eprintln!("cannot write {}: {e}", path.display());
    }
    path
}

fn write_evidence(ctx: &Ctx, meta: &Meta, sh: &Shared, subs: &[Sub], samples: &[String], violations: u64, start: Instant) {
    let mut evals = 0;
    let mut distinct = 0;
    let mut per = String::new();
    let mut exhaustive = Vec::new();
    for (i, sub) in subs.iter().enumerate() {
        let st = sh.stat(i);
        let nt = st.nontrivial.load(Relaxed);
        let d = if sub.enumerated { nt } else { hll_count(st).min(nt) };
        evals += st.evals.load(Relaxed);
        distinct += d;
        if i > 0 {
            per.push_str(",\n   ");
        }
        let _ = write!(
            per,
            "{}: {{\"evaluated\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"outside_precondition\": {}{}}}",
            json::s(&sub.name),
            st.evals.load(Relaxed),
            nt,
            d,
            st.skips.load(Relaxed),
            if sub.enumerated { ", \"enumerated\": true" } else { "" }
        );
        if sub.enumerated && sub.name.contains("[all]") {
            exhaustive.push(sub.name.clone());
        }
    }
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"distinct_method\": \"exact for enumerated sub-checks, HyperLogLog estimate (about 2%) for generated ones\",\n  \"samples\": [\n   {}\n  ],\n  \"fully_enumerated\": [{}],\n  \"sub_checks\": {{\n   {}\n  }}\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
        json::s(&ctx.prop),
        json::s(if ctx.thorough { "thorough" } else { "quick" }),
        ctx.seed,
        evals,
        distinct,
        json::s(meta.rule),
        samples.iter().map(|s| json::s(s)).collect::<Vec<_>>().join(",\n   "),
        exhaustive.iter().map(|s| json::s(s)).collect::<Vec<_>>().join(", "),
        per,
        meta.assumptions.iter().map(|s| json::s(s)).collect::<Vec<_>>().join(", "),
        violations,
        start.elapsed().as_secs_f64()
    );
    let path = dir.join(format!("{}.json", ctx.prop));
    if let Err(e) = std::fs::write(&path, text) {
        eprintln!("cannot write {}: {e}", path.display());
        std::process::exit(2);
    }
}

fn worker(ctx: &Ctx, meta: &Meta, sh: &Shared, subs: &[Sub], start: Instant) -> i32 {
    let mut queue: Vec<(usize, u64)> = Vec::new();
    for (i, s) in subs.iter().enumerate() {
        for u in 0..s.total.div_ceil(s.unit) {
            queue.push((i, u));
        }
    }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let failure: Mutex<Option<(usize, Words)>> = Mutex::new(None);
    let times: Mutex<BTreeMap<usize, Duration>> = Mutex::new(BTreeMap::new());
    let verbose = std::env::var_os("VERIF_VERBOSE").is_some();
    std::thread::scope(|scope| {
        for t in 0..threads() {
            let (next, stop, failure, queue, times) = (&next, &stop, &failure, &queue, &times);
            let _ = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(scope, move || {
                THREAD.with(|x| x.set(t as i32));
                install_altstack();
                let slot = sh.slot(t);
                loop {
                    let q = next.fetch_add(1, Relaxed) as usize;
                    if q >= queue.len() || stop.load(Relaxed) {
                        break;
                    }
                    let (si, u) = queue[q];
                    let t0 = Instant::now();
                    if let Some(w) = run_unit(ctx, sh, slot, subs, si, u, stop) {
                        let mut f = failure.lock().unwrap();
                        if f.is_none() {
                            *f = Some((si, w));
                        }
                        stop.store(true, Relaxed);
                    }
                    if verbose {
                        *times.lock().unwrap().entry(si).or_default() += t0.elapsed();
                    }
                }
            });
        }
    });
    if verbose {
        for (si, d) in times.into_inner().unwrap() {
            let st = sh.stat(si);
            let n = st.evals.load(Relaxed) + st.skips.load(Relaxed);
            eprintln!(
                "{:40} {:>12} cases {:>8.2} thread-s {:>8.1} ns/case  skip {:.1}% nontrivial {:.1}%",
                subs[si].name,
                n,
                d.as_secs_f64(),
                d.as_secs_f64() * 1e9 / n as f64,
                100.0 * st.skips.load(Relaxed) as f64 / n as f64,
                100.0 * st.nontrivial.load(Relaxed) as f64 / n as f64
            );
        }
    }
    for (i, sub) in subs.iter().enumerate() {
        let k = sh.stat(i).known.load(Relaxed);
        if k > 0 {
            println!("KNOWN-FINDING: property={} {} ({k} cases)", ctx.prop, sub.known.as_deref().unwrap_or(&sub.name));
        }
    }
    if let Some((si, w)) = failure.into_inner().unwrap() {
        let sub = &subs[si];
        // A crash while shrinking is attributed to the candidate through the slot of "thread" 0.
        THREAD.with(|x| x.set(0));
        unsafe { (*sh.slot(0)).sub.store(si as u32, Relaxed) };
        // So is one that does not come back.
        unsafe { (*sh.slot(0)).active.store(1, Relaxed) };
        let small = shrink(w, sub.n, 20000, |c| unsafe {
            (*sh.slot(0)).words = *c;
            (*sh.slot(0)).seq.fetch_add(1, Relaxed);
            std::sync::atomic::compiler_fence(SeqCst);
            (sub.check)(c, None) == Out::Fail
        });
        unsafe { (*sh.slot(0)).active.store(0, Relaxed) };
        let what = describe(sub, &small);
        THREAD.with(|x| x.set(-1));
        report(ctx, meta, sh, subs, si, &small, &w, &what, start);
        return 1;
    }
    let samples = samples(ctx, subs);
    write_evidence(ctx, meta, sh, subs, &samples, 0, start);
    0
}

/// A few non-trivial cases of this run: the first ones of unit 0 of each sub-check.
fn samples(ctx: &Ctx, subs: &[Sub]) -> Vec<String> {
    let mut out = Vec::new();
    let step = subs.len().div_ceil(16).max(1);
    for sub in subs.iter().step_by(step) {
        let mut rng = Rng::new(ctx.seed, hash_str(&sub.name), 0);
        let mut w = [0u128; W];
        for i in 0..sub.total.min(200) {
            (sub.gen)(&mut rng, i, &mut w);
            // not the very first one, which tends to be the same special value everywhere
            if i >= 3 && (sub.check)(&w, None) == Out::Ok {
                out.push(format!("{}: {}", sub.name, describe(sub, &w)));
                break;
            }
        }
    }
    out
}

#[allow(clippy::too_many_arguments)]
fn report(ctx: &Ctx, meta: &Meta, sh: &Shared, subs: &[Sub], si: usize, small: &Words, orig: &Words, what: &str, start: Instant) {
    let sub = &subs[si];
    let path = write_replay(ctx, sub, small, orig, what);
    write_evidence(ctx, meta, sh, subs, &[format!("{}: {}", sub.name, what)], 1, start);
    println!("{} {}: {}", ctx.prop, sub.name, what);
    println!("VIOLATION property={} replay={}", ctx.prop, path.display());
}

/// Entry point of every check binary: returns the process exit code.
pub fn run(ctx: &Ctx, meta: &Meta, subs: Vec<Sub>) -> i32 {
    let start = Instant::now();
    let subs: Vec<Sub> = match std::env::var("VERIF_ONLY") {
        Ok(f) => subs.into_iter().filter(|s| s.name.contains(&f)).collect(),
        Err(_) => subs,
    };
    if subs.is_empty() {
        eprintln!("no sub-checks for {}", ctx.prop);
        return 2;
    }
    let sh = Shared::new(subs.len());
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        unsafe { sys::prctl(sys::PR_SET_PDEATHSIG, sys::SIGKILL as u64, 0, 0, 0) };
        install_handlers();
        HDR.store(sh.hdr as u64, SeqCst);
        let code = worker(ctx, meta, &sh, &subs, start);
        std::process::exit(code);
    }
    // The parent has no threads of its own, so it can fork single-case children.
    let mut last = vec![(0u64, Instant::now()); MAX_THREADS];
    let mut status = 0;
    let mut pardons = 0;
    loop {
        let r = unsafe { sys::waitpid(pid, &mut status, sys::WNOHANG) };
        if r == pid {
            break;
        }
        if r < 0 {
            eprintln!("waitpid failed");
            return 2;
        }
        std::thread::sleep(Duration::from_millis(20));
        for (i, l) in last.iter_mut().enumerate() {
            let slot = sh.slot(i);
            let (seq, active) = unsafe { ((*slot).seq.load(Relaxed), (*slot).active.load(Relaxed)) };
            if seq != l.0 || active == 0 {
                *l = (seq, Instant::now());
            } else if l.1.elapsed() > Duration::from_secs(45) {
                let (si, w) = unsafe { ((*slot).sub.load(Relaxed) as usize, (*slot).words) };
                let (kind, text) = run_single(&sh, &subs, si, &w);
                match kind {
                    Single::Held if pardons < 3 => {
                        pardons += 1;
                        *l = (seq, Instant::now());
                    }
                    Single::Hung | Single::Crashed => {
                        unsafe { sys::kill(pid, sys::SIGKILL) };
                        unsafe { sys::waitpid(pid, &mut status, 0) };
                        let what = format!("input {}: {}", words_text(&w[..subs[si].n]), text);
                        report(ctx, meta, &sh, &subs, si, &w, &w, &what, start);
                        return 1;
                    }
                    _ => {
                        unsafe { sys::kill(pid, sys::SIGKILL) };
                        unsafe { sys::waitpid(pid, &mut status, 0) };
                        eprintln!("check stuck on {} {} but the case alone {:?} {}", subs[si].name, words_text(&w[..subs[si].n]), kind, text);
                        return 2;
                    }
                }
            }
        }
    }
    if status & 0x7f == 0 {
        let code = status >> 8 & 0xff;
        if code == 0 || code == 1 {
            return code;
        }
        if code == 70 {
            let h = sh.hdr();
            let n = h.msg_len.load(SeqCst) as usize;
            let first = String::from_utf8_lossy(&h.msg[..n]).into_owned();
            let t = h.crashed.load(SeqCst);
            if h.harness_error.load(SeqCst) != 0 || t < 0 {
                eprintln!("error in the check itself: {first} (signal {})", h.signal.load(SeqCst));
                return 2;
            }
            let slot = sh.slot(t as usize);
            let (si, w) = unsafe { ((*slot).sub.load(Relaxed) as usize, (*slot).words) };
            let (kind, text) = run_single(&sh, &subs, si, &w);
            if !matches!(kind, Single::Crashed | Single::Failed) {
                eprintln!("crash of {} on {} ({first}) did not recur alone: {kind:?} {text}", subs[si].name, words_text(&w[..subs[si].n]));
                return 2;
            }
            let small = shrink(w, subs[si].n, 400, |c| run_single(&sh, &subs, si, c).0 == Single::Crashed);
            let (_, text) = run_single(&sh, &subs, si, &small);
            let what = format!("input {}: {}", words_text(&small[..subs[si].n]), text);
            report(ctx, meta, &sh, &subs, si, &small, &w, &what, start);
            return 1;
        }
        eprintln!("worker ended with exit code {code}");
        return 2;
    }
    eprintln!("worker killed by signal {}", status & 0x7f);
    2
}

/// `--replay FILE`: run the recorded case again.
pub fn replay(ctx: &Ctx, subs: Vec<Sub>, sub_name: &str, words: &[u128]) -> i32 {
    let Some(si) = subs.iter().position(|s| s.name == sub_name) else {
        eprintln!("no sub-check named {sub_name}");
        return 2;
    };
    let mut w = [0; W];
    w[..words.len()].copy_from_slice(words);
    let sh = Shared::new(subs.len());
    let (kind, text) = run_single(&sh, &subs, si, &w);
    match kind {
        Single::Held => {
            println!("{} {}: held for {}", ctx.prop, sub_name, words_text(words));
            0
        }
        Single::HarnessError => {
            eprintln!("error in the check: {text}");
            2
        }
        _ => {
            let what = if kind == Single::Failed { describe(&subs[si], &w) } else { text };
            println!("{} {}: {}", ctx.prop, sub_name, what);
            1
        }
    }
}

/// Parse the environment and arguments and dispatch. `build` gives the sub-checks of a property.
pub fn main(build: impl Fn(&Ctx) -> Option<(Meta, Vec<Sub>)>) {
    let args: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().map(|s| s.trim().parse().unwrap_or_else(|_| hash_str(&s) >> 2)).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let mut ctx = Ctx { prop: String::new(), seed, thorough, scale };
    let code = match args.get(1).map(String::as_str) {
        Some("--replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("cannot read the replay file");
            ctx.prop = json::field(&text, "property").expect("no property");
            let sub = json::field(&text, "sub_check").expect("no sub_check");
            let words: Vec<u128> = json::list(&text, "words")
                .expect("no words")
                .iter()
                .map(|s| u128::from_str_radix(s.trim_start_matches("0x"), 16).expect("bad word"))
                .collect();
            let (_, subs) = build(&ctx).expect("unknown property");
            replay(&ctx, subs, &sub, &words)
        }
        Some(p) => {
            ctx.prop = p.to_string();
            match build(&ctx) {
                Some((meta, subs)) => run(&ctx, &meta, subs),
                None => {
                    eprintln!("unknown property {p}");
                    2
                }
            }
        }
        None => {
            eprintln!("usage: {} PROPERTY | --replay FILE", args[0]);
            2
        }
    };
    std::process::exit(code);
}
