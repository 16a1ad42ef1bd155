//! Interpreters for the assembly of other architectures, as far as the library uses it.
//!
//! Programs are read from the same template text the compiler would be given. Memory is this
//! process's, below 4 GiB so that addresses fit 32-bit registers. Between any two instructions
//! another processor, following a generated script, may write to the shared words.
#![allow(dead_code)]

use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Isa {
    Arm,
    A64,
    X86,
}

#[derive(Clone, PartialEq, Debug)]
enum Arg {
    /// Register and its width in bits.
    Reg(usize, u32),
    Imm(u64),
    /// Base register, offset.
    Mem(usize, i64),
    /// Base and index registers, offset.
    Idx(usize, usize, i64),
    /// Base register, low part of a symbol's address.
    Low(usize, String),
    List(Vec<usize>),
    Word(String),
}

#[derive(Clone, Debug)]
struct Ins {
    op: String,
    args: Vec<Arg>,
    text: String,
}

/// A program and the names of its operands, which follow the machine's registers.
pub struct Prog {
    isa: Isa,
    ins: Vec<Ins>,
    labels: HashMap<usize, Vec<String>>,
    names: Vec<String>,
    /// Paths of symbols by placeholder.
    symbols: HashMap<String, String>,
}

pub const REGS: usize = 34;
pub const ZR: usize = 33;
/// Stack pointer.
pub const A64_SP: usize = 31;
pub const ARM_SP: usize = 13;
pub const X86_SP: usize = 4;

/// One write of the other processor.
#[derive(Clone, Copy, Debug)]
pub struct Event {
    pub at: u32,
    pub addr: u64,
    /// Bytes written; 0 only takes the reservation away.
    pub len: u32,
    pub value: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Did {
    Load { addr: u64, len: u32, acquire: bool, value: u128 },
    Store { addr: u64, len: u32, release: bool, value: u128 },
    Barrier,
    /// The other processor's write with this number.
    Other(usize),
}

#[derive(Default)]
pub struct World {
    pub script: Vec<Event>,
    pub ticks: u32,
    pub done: Vec<Did>,
    pub fault: Option<String>,
    /// An instruction or operand the interpreter does not know; the case says nothing.
    pub unknown: Option<String>,
    pub ranges: Vec<(u64, u64)>,
    pub symbols: HashMap<String, u64>,
    reserved: Option<(u64, u64)>,
    /// The processor has no single-instruction atomics.
    pub no_lse: bool,
    /// Addresses looked at by probes.
    pub touched: Vec<u64>,
}

thread_local! {
    pub static WORLD: RefCell<World> = RefCell::new(World::default());
}

pub const LIMIT: u32 = 400;

impl World {
    pub fn reset(&mut self) {
        self.script.clear();
        self.ticks = 0;
        self.done.clear();
        self.fault = None;
        self.unknown = None;
        self.ranges.clear();
        self.reserved = None;
        self.touched.clear();
    }
    pub fn fail(&mut self, why: String) {
        self.fault.get_or_insert(why);
    }
    /// Let the other processor act; false when the program has gone on for too long.
    pub fn tick(&mut self) -> bool {
        self.step(LIMIT)
    }
    fn step(&mut self, limit: u32) -> bool {
        for i in 0..self.script.len() {
            let e = self.script[i];
            if e.at != self.ticks {
                continue;
            }
            if e.len > 0 {
                unsafe { std::ptr::copy_nonoverlapping(e.value.to_le_bytes().as_ptr(), e.addr as *mut u8, e.len as usize) };
                self.done.push(Did::Other(i));
            }
            self.reserved = None;
        }
        self.ticks += 1;
        if self.ticks > limit {
            self.fail("did not come to an end".into());
        }
        self.ticks <= limit
    }
    fn valid(&mut self, addr: u64, len: u32, aligned: bool) -> bool {
        let ok = self.ranges.iter().any(|r| addr >= r.0 && addr + len as u64 <= r.1);
        if !ok {
            self.fail(format!("access of {len} bytes at {addr:#x}, outside the memory it was given"));
        } else if aligned && addr % len as u64 != 0 {
            self.fail(format!("unaligned access of {len} bytes at {addr:#x}"));
            return false;
        }
        ok
    }
    pub fn load(&mut self, addr: u64, len: u32, acquire: bool) -> u128 {
        if !self.valid(addr, len, true) {
            return 0;
        }
        let mut b = [0u8; 16];
        unsafe { std::ptr::copy_nonoverlapping(addr as *const u8, b.as_mut_ptr(), len as usize) };
        let value = u128::from_le_bytes(b);
        self.done.push(Did::Load { addr, len, acquire, value });
        value
    }
    pub fn store(&mut self, addr: u64, len: u32, release: bool, value: u128) {
        if !self.valid(addr, len, true) {
            return;
        }
        let b = value.to_le_bytes();
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), addr as *mut u8, len as usize) };
        self.done.push(Did::Store { addr, len, release, value });
    }
    fn exclusive_load(&mut self, addr: u64, len: u32, acquire: bool) -> u128 {
        let v = self.load(addr, len, acquire);
        self.reserved = Some((addr, len as u64));
        v
    }
    /// Whether the store took place.
    fn exclusive_store(&mut self, addr: u64, len: u32, release: bool, value: u128) -> bool {
        match self.reserved.take() {
            Some((a, l)) if a == addr && l == len as u64 => {
                self.store(addr, len, release, value);
                true
            }
            _ => false,
        }
    }
}

fn reg(isa: Isa, s: &str, names: &[String]) -> Option<Arg> {
    if let Some(n) = s.strip_prefix('{').and_then(|s| s.strip_suffix('}')) {
        let n = n.split(':').next().unwrap();
        return names.iter().position(|x| x == n).map(|i| Arg::Reg(REGS + i, 32));
    }
    let num = |s: &str, max: usize| s.parse::<usize>().ok().filter(|n| *n <= max);
    match isa {
        Isa::Arm => match s {
            "sp" => Some(13),
            "lr" => Some(14),
            "pc" => Some(15),
            "ip" => Some(12),
            "fp" => Some(11),
            _ => s.strip_prefix('r').and_then(|n| num(n, 15)),
        }
        .map(|r| Arg::Reg(r, 32)),
        Isa::A64 => match s {
            "sp" => Some(Arg::Reg(31, 64)),
            "lr" => Some(Arg::Reg(30, 64)),
            "xzr" => Some(Arg::Reg(ZR, 64)),
            "wzr" => Some(Arg::Reg(ZR, 32)),
            _ => s.strip_prefix('x').and_then(|n| num(n, 30)).map(|r| Arg::Reg(r, 64)).or_else(|| s.strip_prefix('w').and_then(|n| num(n, 30)).map(|r| Arg::Reg(r, 32))),
        },
        Isa::X86 => {
            let list = ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"];
            let (w, rest) = match s.as_bytes().first() {
                Some(b'r') => (64, &s[1..]),
                Some(b'e') => (32, &s[1..]),
                _ => return None,
            };
            if w == 64 {
                if let Some(n) = num(rest, 15).filter(|n| *n >= 8) {
                    return Some(Arg::Reg(n, 64));
                }
            }
            list.iter().position(|x| *x == rest).map(|r| Arg::Reg(r, w))
        }
    }
}

fn imm(s: &str) -> Option<u64> {
    let s = s.trim().trim_start_matches('#').trim();
    let (neg, s) = s.strip_prefix('-').map_or((false, s), |s| (true, s));
    let v = match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).ok()?,
        None => s.parse().ok()?,
    };
    Some(if neg { v.wrapping_neg() } else { v })
}

fn split(s: &str) -> Vec<String> {
    let (mut depth, mut out, mut cur) = (0, Vec::new(), String::new());
    for c in s.chars() {
        match c {
            '[' | '{' | '(' => depth += 1,
            ']' | '}' | ')' => depth -= 1,
            ',' if depth == 0 => {
                out.push(cur.trim().to_string());
                cur.clear();
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() {
        out.push(cur.trim().to_string());
    }
    out
}

impl Prog {
    /// Read templates; `names` are the operands that stand for registers, all other placeholders
    /// stand for symbols.
    pub fn parse(isa: Isa, templates: &[&str], names: &[&str]) -> Prog {
        let names: Vec<String> = names.iter().map(|s| s.to_string()).collect();
        let mut p = Prog { isa, ins: Vec::new(), labels: HashMap::new(), names, symbols: HashMap::new() };
        for line in templates.iter().flat_map(|t| t.lines()).flat_map(|l| l.split(';')) {
            let mut line = line.split("//").next().unwrap().split('@').next().unwrap().trim().to_string();
            while let Some((l, rest)) = line.split_once(':') {
                if !l.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') || l.is_empty() {
                    break;
                }
                p.labels.entry(p.ins.len()).or_default().push(l.to_string());
                line = rest.trim().to_string();
            }
            if line.is_empty() || line.starts_with('.') {
                continue;
            }
            let (op, rest) = line.split_once(char::is_whitespace).unwrap_or((&line, ""));
            let args = split(rest).iter().map(|a| p.arg(a)).collect();
            p.ins.push(Ins { op: op.to_lowercase(), args, text: line.clone() });
        }
        p
    }
    pub fn with_symbols(mut self, list: &[(&str, &str)]) -> Prog {
        self.symbols = list.iter().map(|(n, p)| (format!("{{{n}}}"), p.replace(' ', ""))).collect();
        self
    }
    /// The path a placeholder stands for.
    pub fn symbol<'a>(&'a self, name: &'a str) -> &'a str {
        self.symbols.get(name).map_or(name, |s| s)
    }
    fn arg(&self, a: &str) -> Arg {
        if let Some(r) = reg(self.isa, a, &self.names) {
            return r;
        }
        if let Some(l) = a.strip_prefix("{{").and_then(|s| s.strip_suffix("}}")) {
            return Arg::List(split(l).iter().filter_map(|r| if let Some(Arg::Reg(r, _)) = reg(self.isa, r, &self.names) { Some(r) } else { None }).collect());
        }
        let a = a.strip_prefix("dword ptr ").or_else(|| a.strip_prefix("qword ptr ")).unwrap_or(a);
        if let Some(m) = a.strip_prefix('[').and_then(|s| s.strip_suffix(']')) {
            if self.isa == Isa::X86 {
                let (mut regs, mut off) = (Vec::new(), 0i64);
                for t in m.replace('-', "+-").split('+').map(str::trim).filter(|t| !t.is_empty()) {
                    match (reg(self.isa, t, &self.names), imm(&t.replace(' ', ""))) {
                        (Some(Arg::Reg(r, _)), _) => regs.push(r),
                        (_, Some(v)) => off = off.wrapping_add(v as i64),
                        _ => return Arg::Word(a.to_string()),
                    }
                }
                return match regs[..] {
                    [b] => Arg::Mem(b, off),
                    [b, i] => Arg::Idx(b, i, off),
                    _ => Arg::Word(a.to_string()),
                };
            }
            let (base, off) = m.split_once(',').map_or((m.trim(), "0".into()), |(b, o)| (b.trim(), o.trim().to_string()));
            if let Some(Arg::Reg(b, _)) = reg(self.isa, base, &self.names) {
                if let Some(s) = off.strip_prefix(":lo12:") {
                    return Arg::Low(b, s.to_string());
                }
                if let Some(v) = imm(&off) {
                    return Arg::Mem(b, v as i64);
                }
            }
        }
        imm(a).map_or_else(|| Arg::Word(a.to_string()), Arg::Imm)
    }
    fn find(&self, at: usize, label: &str) -> Option<usize> {
        let (num, dir) = label.split_at(label.len() - 1);
        let hit = |i: &usize, l: &str| self.labels.get(i).is_some_and(|v| v.iter().any(|x| x == l));
        match dir {
            "f" => (at + 1..=self.ins.len()).find(|i| hit(i, num)),
            "b" => (0..=at).rev().find(|i| hit(i, num)),
            _ => (0..=self.ins.len()).find(|i| hit(i, label)),
        }
    }
}

#[derive(Default, Clone, Copy, PartialEq, Debug)]
pub struct Flags {
    n: bool,
    z: bool,
    c: bool,
    v: bool,
}

pub struct Machine<'a> {
    pub r: Vec<u64>,
    pub f: Flags,
    /// Called for branches with link; gets the target's path.
    pub call: &'a mut dyn FnMut(&str, &mut Vec<u64>),
    /// Set when the program returned.
    pub returned: bool,
}

fn mask(w: u32) -> u64 {
    u64::MAX >> (64 - w)
}

impl Machine<'_> {
    fn get(&self, a: &Arg) -> Result<u64, String> {
        match a {
            Arg::Reg(r, w) => Ok(if *r == ZR { 0 } else { self.r[*r] & mask(*w) }),
            Arg::Imm(v) => Ok(*v),
            _ => Err(format!("{a:?} is not a value")),
        }
    }
    fn set(&mut self, a: &Arg, v: u64) -> Result<(), String> {
        match a {
            Arg::Reg(r, w) => {
                if *r != ZR {
                    self.r[*r] = v & mask(*w);
                }
                Ok(())
            }
            _ => Err(format!("{a:?} is not a register")),
        }
    }
    fn addr(&self, a: &Arg, w: &World) -> Result<u64, String> {
        match a {
            Arg::Mem(b, o) => Ok(self.r[*b].wrapping_add(*o as u64)),
            Arg::Idx(b, i, o) => Ok(self.r[*b].wrapping_add(self.r[*i]).wrapping_add(*o as u64)),
            Arg::Low(b, s) => Ok(self.r[*b].wrapping_add(w.symbols.get(s).copied().unwrap_or(0) & 0xfff)),
            _ => Err(format!("{a:?} is not an address")),
        }
    }
    fn sub_flags(&mut self, a: u64, b: u64, w: u32) -> u64 {
        let (a, b) = (a & mask(w), b & mask(w));
        let r = a.wrapping_sub(b) & mask(w);
        let top = 1 << (w - 1);
        self.f = Flags { n: r & top != 0, z: r == 0, c: a >= b, v: (a ^ b) & (a ^ r) & top != 0 };
        r
    }
    fn holds(&self, c: &str) -> Option<bool> {
        let f = self.f;
        Some(match c {
            "eq" => f.z,
            "ne" => !f.z,
            "cs" | "hs" => f.c,
            "cc" | "lo" => !f.c,
            "mi" => f.n,
            "pl" => !f.n,
            "hi" => f.c && !f.z,
            "ls" => !f.c || f.z,
            "ge" => f.n == f.v,
            "lt" => f.n != f.v,
            "gt" => !f.z && f.n == f.v,
            "le" => f.z || f.n != f.v,
            "al" | "" => true,
            _ => return None,
        })
    }
    /// Run to the end or to a return; what goes wrong is left in the world's `fault`.
    pub fn run(&mut self, p: &Prog) {
        self.run_for(p, LIMIT);
    }
    pub fn run_for(&mut self, p: &Prog, limit: u32) {
        let mut at = 0;
        loop {
            if !WORLD.with(|w| w.borrow_mut().step(limit)) {
                return;
            }
            let Some(i) = p.ins.get(at) else { return };
            let res = match p.isa {
                Isa::Arm => self.arm(p, at, i),
                Isa::A64 => self.a64(p, at, i),
                Isa::X86 => self.x86(p, at, i),
            };
            match res {
                Ok(Some(next)) => at = next,
                Ok(None) => {
                    self.returned = true;
                    return;
                }
                Err(e) => return WORLD.with(|w| {
                    w.borrow_mut().unknown.get_or_insert(format!("`{}`: {e}", i.text));
                }),
            }
        }
    }
    fn goto(&self, p: &Prog, at: usize, a: &Arg) -> Result<Option<usize>, String> {
        let Arg::Word(l) = a else { return Err("no label".into()) };
        p.find(at, l).map(Some).ok_or_else(|| format!("no label {l}"))
    }

    fn arm(&mut self, p: &Prog, at: usize, i: &Ins) -> Result<Option<usize>, String> {
        let a = &i.args;
        let next = Ok(Some(at + 1));
        let n = a.len();
        let len = |s: &str| match s {
            "" => Some(4),
            "b" => Some(1),
            "h" => Some(2),
            _ => None,
        };
        WORLD.with(|w| {
            let mut w = w.borrow_mut();
            let op = i.op.as_str();
            if let Some(l) = op.strip_prefix("ldrex").and_then(len) {
                let at = self.addr(&a[1], &w)?;
                let v = w.exclusive_load(at, l, false);
                self.set(&a[0], v as u64)?;
                return next;
            }
            if let Some(l) = op.strip_prefix("strex").and_then(len) {
                let (addr, v) = (self.addr(&a[2], &w)?, self.get(&a[1])?);
                let ok = w.exclusive_store(addr, l, false, v as u128);
                self.set(&a[0], !ok as u64)?;
                return next;
            }
            if let Some(l) = op.strip_prefix("ldr").and_then(len) {
                let at = self.addr(&a[1], &w)?;
                let v = w.load(at, l, false);
                self.set(&a[0], v as u64)?;
                return next;
            }
            if let Some(l) = op.strip_prefix("str").and_then(len) {
                let (addr, v) = (self.addr(&a[1], &w)?, self.get(&a[0])?);
                w.store(addr, l, false, v as u128);
                return next;
            }
            match op {
                "push" | "pop" => {
                    let Some(Arg::List(l)) = a.first() else { return Err("no register list".into()) };
                    let mut l = l.clone();
                    l.sort();
                    if op == "push" {
                        let sp = self.r[ARM_SP].wrapping_sub(4 * l.len() as u64);
                        for (k, r) in l.iter().enumerate() {
                            w.store(sp + 4 * k as u64, 4, false, self.r[*r] as u128);
                        }
                        self.r[ARM_SP] = sp;
                    } else {
                        let sp = self.r[ARM_SP];
                        for (k, r) in l.iter().enumerate() {
                            self.r[*r] = w.load(sp + 4 * k as u64, 4, false) as u64;
                        }
                        self.r[ARM_SP] = sp + 4 * l.len() as u64;
                        if l.contains(&15) {
                            return Ok(None);
                        }
                    }
                    next
                }
                "mov" | "movs" => {
                    let v = self.get(&a[1])?;
                    self.set(&a[0], v)?;
                    next
                }
                "add" | "adds" | "sub" | "subs" | "mul" | "muls" | "and" | "ands" | "orr" | "orrs" | "eor" | "eors" | "bic" | "lsl" | "lsls" | "lsr" | "lsrs" => {
                    let (x, y) = (self.get(&a[n - 2])?, self.get(&a[n - 1])?);
                    let v = match &op[..3] {
                        "add" => x.wrapping_add(y),
                        "sub" if op == "subs" => self.sub_flags(x, y, 32),
                        "sub" => x.wrapping_sub(y),
                        "mul" => x.wrapping_mul(y),
                        "and" => x & y,
                        "orr" => x | y,
                        "eor" => x ^ y,
                        "lsl" => x << (y & 31),
                        "lsr" => x >> (y & 31),
                        _ => x & !y,
                    };
                    self.set(&a[0], v)?;
                    next
                }
                "cmp" => {
                    let (x, y) = (self.get(&a[0])?, self.get(&a[1])?);
                    self.sub_flags(x, y, 32);
                    next
                }
                "mcr" => {
                    // c7, c10, 5 of coprocessor 15 with a zero is the data memory barrier
                    let num = |k: usize| match a.get(k) {
                        Some(Arg::Imm(v)) => v.to_string(),
                        Some(Arg::Word(s)) => s.clone(),
                        _ => String::new(),
                    };
                    let op = [num(0), num(1), num(3), num(4), num(5)];
                    if self.get(&a[2])? != 0 {
                        w.fail(format!("`{}`: the operand is not zero", i.text));
                    }
                    // number 4 is the stronger one
                    if op == ["p15", "0", "c7", "c10", "5"] || op == ["p15", "0", "c7", "c10", "4"] {
                        w.done.push(Did::Barrier);
                    }
                    next
                }
                "dmb" | "dsb" => {
                    w.done.push(Did::Barrier);
                    next
                }
                "nop" | "clrex" => next,
                "bx" => Ok(None),
                "bl" => {
                    let Some(Arg::Word(t)) = a.first() else { return Err("no target".into()) };
                    drop(w);
                    (self.call)(p.symbol(t), &mut self.r);
                    self.f = Flags::default();
                    next
                }
                _ => match op.strip_prefix('b').and_then(|c| self.holds(c.trim_start_matches('.'))) {
                    Some(true) => self.goto(p, at, &a[0]),
                    Some(false) => next,
                    None => Err("unknown instruction".into()),
                },
            }
        })
    }

    fn a64(&mut self, p: &Prog, at: usize, i: &Ins) -> Result<Option<usize>, String> {
        let a = &i.args;
        let next = Ok(Some(at + 1));
        let n = a.len();
        let width = |k: usize| if let Some(Arg::Reg(_, w)) = a.get(k) { *w } else { 64 };
        // length from the suffix, or from the register
        let len = |s: &str, k: usize| match s {
            "" => Some(width(k) / 8),
            "b" => Some(1),
            "h" => Some(2),
            _ => None,
        };
        WORLD.with(|w| {
            let mut w = w.borrow_mut();
            let op = i.op.as_str();
            // load and store exclusive, with acquire and release
            for (pre, order) in [("ldxr", false), ("ldaxr", true)] {
                if let Some(l) = op.strip_prefix(pre).and_then(|s| len(s, 0)) {
                    let at = self.addr(&a[1], &w)?;
                    let v = w.exclusive_load(at, l, order);
                    self.set(&a[0], v as u64)?;
                    return next;
                }
            }
            for (pre, order) in [("stxr", false), ("stlxr", true)] {
                if let Some(l) = op.strip_prefix(pre).and_then(|s| len(s, 1)) {
                    if a[0] == a[1] || matches!((&a[0], &a[2]), (Arg::Reg(s, _), Arg::Mem(b, _)) if s == b) {
                        w.fail(format!("`{}`: the status register is also an operand", i.text));
                    }
                    let (addr, v) = (self.addr(&a[2], &w)?, self.get(&a[1])?);
                    let ok = w.exclusive_store(addr, l, order, v as u128);
                    self.set(&a[0], !ok as u64)?;
                    return next;
                }
            }
            match op {
                "ldxp" | "ldaxp" => {
                    let l = width(0) / 4;
                    let at = self.addr(&a[2], &w)?;
                    let v = w.exclusive_load(at, l, op == "ldaxp");
                    self.set(&a[0], v as u64)?;
                    return self.set(&a[1], (v >> (l * 4)) as u64).and(next);
                }
                "stxp" | "stlxp" => {
                    let l = width(1) / 4;
                    let v = self.get(&a[1])? as u128 | (self.get(&a[2])? as u128) << (l * 4);
                    let at = self.addr(&a[3], &w)?;
                    let ok = w.exclusive_store(at, l, op == "stlxp", v);
                    return self.set(&a[0], !ok as u64).and(next);
                }
                _ => {}
            }
            // single-instruction atomics: base, order, size
            for base in ["casp", "cas", "swp", "ldadd", "ldclr", "ldeor", "ldset"] {
                let Some(rest) = op.strip_prefix(base) else { continue };
                let (acq, rest) = rest.strip_prefix('a').map_or((false, rest), |r| (true, r));
                let (rel, rest) = rest.strip_prefix('l').map_or((false, rest), |r| (true, r));
                let Some(mut l) = len(rest, 0) else { continue };
                if w.no_lse {
                    w.fail(format!("`{}`: the processor lacks this instruction", i.text));
                }
                if base == "casp" {
                    l = width(0) / 4;
                }
                let addr = self.addr(a.last().unwrap(), &w)?;
                let old = w.load(addr, l, acq);
                let part = u128::MAX >> (128 - l * 8);
                match base {
                    "casp" => {
                        for (k, step) in [(0, 1), (2, 3)] {
                            match (&a[k], &a[step]) {
                                (Arg::Reg(x, _), Arg::Reg(y, _)) if x % 2 == 0 && x + 1 == *y => {}
                                _ => return Err("not a pair of registers".into()),
                            }
                        }
                        let pair = |m: &Self, k: usize| Ok::<u128, String>(m.get(&a[k])? as u128 | (m.get(&a[k + 1])? as u128) << (l * 4));
                        if old == pair(self, 0)? {
                            w.store(addr, l, rel, pair(self, 2)?);
                        }
                        self.set(&a[0], old as u64)?;
                        self.set(&a[1], (old >> (l * 4)) as u64)?;
                    }
                    "cas" => {
                        if old == self.get(&a[0])? as u128 & part {
                            w.store(addr, l, rel, self.get(&a[1])? as u128 & part);
                        }
                        self.set(&a[0], old as u64)?;
                    }
                    _ => {
                        let v = self.get(&a[0])? as u128;
                        let new = match base {
                            "swp" => v,
                            "ldadd" => old.wrapping_add(v),
                            "ldclr" => old & !v,
                            "ldeor" => old ^ v,
                            _ => old | v,
                        };
                        w.store(addr, l, rel, new & part);
                        self.set(&a[1], old as u64)?;
                    }
                }
                return next;
            }
            match op {
                "ldr" | "ldrb" | "ldrh" | "ldar" | "ldarb" | "ldarh" => {
                    let (acq, s) = op[2..].strip_prefix("ar").map_or_else(|| (false, &op[3..]), |s| (true, s));
                    let addr = self.addr(&a[1], &w)?;
                    w.touched.push(addr);
                    let v = w.load(addr, len(s, 0).unwrap(), acq);
                    self.set(&a[0], v as u64)?;
                    next
                }
                "str" | "strb" | "strh" | "stlr" | "stlrb" | "stlrh" => {
                    let (rel, s) = op[2..].strip_prefix("lr").map_or_else(|| (false, &op[3..]), |s| (true, s));
                    let (addr, v) = (self.addr(&a[1], &w)?, self.get(&a[0])?);
                    w.touched.push(addr);
                    w.store(addr, len(s, 0).unwrap(), rel, v as u128);
                    next
                }
                "adrp" => {
                    let Arg::Word(s) = &a[1] else { return Err("no symbol".into()) };
                    let Some(v) = w.symbols.get(s) else { return Err("unknown symbol".into()) };
                    let v = v & !0xfff;
                    self.set(&a[0], v)?;
                    next
                }
                "uxtb" | "uxth" | "mov" => {
                    let v = self.get(&a[1])?;
                    self.set(&a[0], match op {
                        "uxtb" => v & 0xff,
                        "uxth" => v & 0xffff,
                        _ => v,
                    })?;
                    next
                }
                "add" | "sub" | "subs" | "and" | "orr" | "eor" | "bic" | "lsl" | "lsr" => {
                    let (x, y) = (self.get(&a[n - 2])?, self.get(&a[n - 1])?);
                    let v = match op {
                        "add" => x.wrapping_add(y),
                        "sub" => x.wrapping_sub(y),
                        "subs" => self.sub_flags(x, y, width(0)),
                        "and" => x & y,
                        "orr" => x | y,
                        "eor" => x ^ y,
                        "bic" => x & !y,
                        "lsl" => x << (y & 63),
                        _ => x >> (y & 63),
                    };
                    self.set(&a[0], v)?;
                    next
                }
                "cmp" => {
                    let (x, y) = (self.get(&a[0])?, self.get(&a[1])?);
                    self.sub_flags(x, y, width(0));
                    next
                }
                "ccmp" => {
                    let Arg::Word(c) = &a[3] else { return Err("no condition".into()) };
                    if self.holds(c).ok_or("unknown condition")? {
                        let (x, y) = (self.get(&a[0])?, self.get(&a[1])?);
                        self.sub_flags(x, y, width(0));
                    } else {
                        let v = self.get(&a[2])?;
                        self.f = Flags { n: v & 8 != 0, z: v & 4 != 0, c: v & 2 != 0, v: v & 1 != 0 };
                    }
                    next
                }
                "cbz" | "cbnz" => {
                    if (self.get(&a[0])? == 0) == (op == "cbz") {
                        self.goto(p, at, &a[1])
                    } else {
                        next
                    }
                }
                "dmb" => {
                    w.done.push(Did::Barrier);
                    next
                }
                "nop" => next,
                "ret" => Ok(None),
                _ => match op.strip_prefix('b').and_then(|c| self.holds(c.trim_start_matches('.'))) {
                    Some(true) => self.goto(p, at, &a[0]),
                    Some(false) => next,
                    None => Err("unknown instruction".into()),
                },
            }
        })
    }

    fn x86(&mut self, p: &Prog, at: usize, i: &Ins) -> Result<Option<usize>, String> {
        let a = &i.args;
        let next = Ok(Some(at + 1));
        // the mode is told by the width of the registers the program names
        let wide = p.ins.iter().flat_map(|i| &i.args).any(|a| matches!(a, Arg::Reg(_, 64)));
        let (w, size) = if wide { (64, 8) } else { (32, 4) };
        WORLD.with(|world| {
            let mut m = world.borrow_mut();
            let op = i.op.as_str();
            let value = |s: &Self, m: &mut World, k: usize| match &a[k] {
                Arg::Mem(..) | Arg::Idx(..) => {
                    let addr = s.addr(&a[k], m)?;
                    m.touched.push(addr);
                    Ok::<u64, String>(m.load(addr, size, false) as u64)
                }
                x => s.get(x),
            };
            match op {
                "push" => {
                    let v = value(self, &mut m, 0)?;
                    self.r[X86_SP] -= size as u64;
                    m.touched.push(self.r[X86_SP]);
                    m.store(self.r[X86_SP], size, false, v as u128);
                    next
                }
                "pop" => {
                    let v = m.load(self.r[X86_SP], size, false) as u64;
                    self.r[X86_SP] += size as u64;
                    self.set(&a[0], v)?;
                    next
                }
                "ret" => {
                    self.r[16] = m.load(self.r[X86_SP], size, false) as u64;
                    self.r[X86_SP] += size as u64 + if a.is_empty() { 0 } else { self.get(&a[0])? };
                    Ok(None)
                }
                "leave" => {
                    self.r[X86_SP] = self.r[5];
                    self.r[5] = m.load(self.r[X86_SP], size, false) as u64;
                    self.r[X86_SP] += size as u64;
                    next
                }
                "mov" => {
                    let v = value(self, &mut m, 1)?;
                    if let Arg::Mem(..) | Arg::Idx(..) = a[0] {
                        let addr = self.addr(&a[0], &m)?;
                        m.store(addr, size, false, v as u128);
                    } else {
                        self.set(&a[0], v)?;
                    }
                    next
                }
                "lea" => {
                    let v = self.addr(&a[1], &m)?;
                    self.set(&a[0], v)?;
                    next
                }
                "sub" | "add" | "cmp" | "and" | "or" | "test" => {
                    let (x, y) = (value(self, &mut m, 0)?, value(self, &mut m, 1)?);
                    let v = match op {
                        "sub" | "cmp" => {
                            let v = self.sub_flags(x, y, w);
                            // x86 keeps the borrow
                            self.f.c = !self.f.c;
                            v
                        }
                        "add" => x.wrapping_add(y),
                        "or" => x | y,
                        _ => x & y,
                    };
                    if op != "cmp" && op != "sub" {
                        self.f = Flags { z: v == 0, ..Flags::default() };
                    }
                    if op == "or" && matches!(a[0], Arg::Mem(..)) {
                        let addr = self.addr(&a[0], &m)?;
                        m.store(addr, size, false, v as u128);
                    } else if op != "cmp" && op != "test" {
                        self.set(&a[0], v)?;
                    }
                    next
                }
                "nop" => next,
                _ => {
                    let f = self.f;
                    let yes = match op {
                        "jb" | "jc" | "jnae" => f.c,
                        "jae" | "jnb" | "jnc" => !f.c,
                        "ja" | "jnbe" => !f.c && !f.z,
                        "jbe" | "jna" => f.c || f.z,
                        "je" | "jz" => f.z,
                        "jne" | "jnz" => !f.z,
                        "jmp" => true,
                        _ => return Err("unknown instruction".into()),
                    };
                    if yes {
                        self.goto(p, at, &a[0])
                    } else {
                        next
                    }
                }
            }
        })
    }
}

/// Values that can be operands of inline assembly.
pub trait Operand: Copy {
    fn put(self) -> u64;
    fn take(v: u64) -> Self;
}
macro_rules! operand {
    ($($t:ty, $junk:literal;)*) => { $(impl Operand for $t {
        // the bits of a register above a small operand are undefined
        fn put(self) -> u64 {
            self as u64 | $junk
        }
        fn take(v: u64) -> Self {
            v as $t
        }
    })* };
}
operand!(u8, 0x5a5a_a500; u16, 0xa55a_0000; u32, 0; usize, 0;);
impl<T> Operand for *mut T {
    fn put(self) -> u64 {
        self as u64
    }
    fn take(v: u64) -> Self {
        v as *mut T
    }
}
impl<T> Operand for *const T {
    fn put(self) -> u64 {
        self as u64
    }
    fn take(v: u64) -> Self {
        v as *const T
    }
}

/// Run inline assembly; `ops` are the values of the operands, in the order of the program's names.
pub fn inline(p: &Prog, ops: &mut [u64]) {
    let mut r = vec![0; REGS];
    r.extend_from_slice(ops);
    let mut m = Machine { r, f: Flags::default(), call: &mut |_, _| {}, returned: false };
    m.run(p);
    // the code around it may be what goes on for ever
    assert!(WORLD.with(|w| w.borrow().ticks) <= LIMIT, "did not come to an end");
    ops.copy_from_slice(&m.r[REGS..]);
}

/// `asm!` for the interpreter.
#[macro_export]
macro_rules! sim_asm {
    ($isa:ident; $($t:tt)*) => { $crate::sim_asm!(@ $isa [] [] [] $($t)*) };
    // operands: name, initial value, what to do with the result
    (@ $isa:ident [$($tpl:expr,)*] [$($o:tt)*] [$($x:tt)*] $n:ident = in(reg) $e:expr $(, $($r:tt)*)?) =>
        { $crate::sim_asm!(@ $isa [$($tpl,)*] [$($o)* ($n, $crate::sim::Operand::put($e))] [$($x)*] $($($r)*)?) };
    (@ $isa:ident [$($tpl:expr,)*] [$($o:tt)*] [$($x:tt)*] $n:ident = inout(reg) $e:expr => _ $(, $($r:tt)*)?) =>
        { $crate::sim_asm!(@ $isa [$($tpl,)*] [$($o)* ($n, $crate::sim::Operand::put($e))] [$($x)*] $($($r)*)?) };
    (@ $isa:ident [$($tpl:expr,)*] [$($o:tt)*] [$($x:tt)*] $n:ident = $out:ident(reg) _ $(, $($r:tt)*)?) =>
        { $crate::sim_asm!(@ $isa [$($tpl,)*] [$($o)* ($n, 0xdead_beef)] [$($x)*] $($($r)*)?) };
    (@ $isa:ident [$($tpl:expr,)*] [$($o:tt)*] [$($x:tt)*] $n:ident = $out:ident(reg) $e:ident $(, $($r:tt)*)?) =>
        { $crate::sim_asm!(@ $isa [$($tpl,)*] [$($o)* ($n, 0xdead_beef)] [$($x)* ($n, $e)] $($($r)*)?) };
    (@ $isa:ident [$($tpl:expr,)*] [$($o:tt)*] [$($x:tt)*] options($($opt:tt)*) $(, $($r:tt)*)?) =>
        { $crate::sim_asm!(@ $isa [$($tpl,)*] [$($o)*] [$($x)*] $($($r)*)?) };
    (@ $isa:ident [$($tpl:expr,)*] [$(($n:ident, $e:expr))*] [$(($xn:ident, $x:ident))*]) => {{
        static PROG: std::sync::OnceLock<$crate::sim::Prog> = std::sync::OnceLock::new();
        let names = &[$(stringify!($n)),*];
        let prog = PROG.get_or_init(|| $crate::sim::Prog::parse($crate::sim::Isa::$isa, &[$($tpl),*], names));
        let mut ops = [$($e),*];
        $crate::sim::inline(prog, &mut ops);
        $($x = $crate::sim::Operand::take(ops[names.iter().position(|n| *n == stringify!($xn)).unwrap()]);)*
    }};
    (@ $isa:ident [$($tpl:expr,)*] [$($o:tt)*] [$($x:tt)*] $t:expr $(, $($r:tt)*)?) =>
        { $crate::sim_asm!(@ $isa [$($tpl,)* $t,] [$($o)*] [$($x)*] $($($r)*)?) };
}

/// The body of a naked function as a program; symbols are named after their operands.
#[macro_export]
macro_rules! sim_naked {
    ($isa:ident; $($t:tt)*) => { $crate::sim_naked!(@ $isa [] [] $($t)*) };
    (@ $isa:ident [$($tpl:expr,)*] [$($s:tt)*] $n:ident = sym $p:path $(, $($r:tt)*)?) => { $crate::sim_naked!(@ $isa [$($tpl,)*] [$($s)* (stringify!($n), stringify!($p)),] $($($r)*)?) };
    (@ $isa:ident [$($tpl:expr,)*] [$($s:tt)*] sym $p:path $(, $($r:tt)*)?) => { $crate::sim_naked!(@ $isa [$($tpl,)*] [$($s)* ("", stringify!($p)),] $($($r)*)?) };
    (@ $isa:ident [$($tpl:expr,)*] [$($s:tt)*] options($($opt:tt)*) $(, $($r:tt)*)?) => { $crate::sim_naked!(@ $isa [$($tpl,)*] [$($s)*] $($($r)*)?) };
    (@ $isa:ident [$($tpl:expr,)*] [$($s:tt)*]) => { $crate::sim::Prog::parse($crate::sim::Isa::$isa, &[$($tpl),*], &[]).with_symbols(&[$($s)*]) };
    (@ $isa:ident [$($tpl:expr,)*] [$($s:tt)*] $t:expr $(, $($r:tt)*)?) => { $crate::sim_naked!(@ $isa [$($tpl,)* $t,] [$($s)*] $($($r)*)?) };
}

/// `intrinsics!` of the library: naked functions become programs, others plain functions.
#[macro_export]
macro_rules! sim_intrinsics {
    ($isa:ident;) => {};
    ($isa:ident; $(#[$($a:tt)*])* pub $(unsafe)? extern $abi:literal fn $name:ident($($arg:ident: $ty:ty),* $(,)?) $(-> $ret:ty)? { $($body:tt)* } $($rest:tt)*) => {
        $crate::sim_intrinsics!(@one $isa; $name ($($arg: $ty),*) ($($ret)?) { $($body)* });
        $crate::sim_intrinsics!($isa; $($rest)*);
    };
    (@one $isa:ident; $name:ident $sig:tt $ret:tt $body:tt) => { $crate::sim_intrinsics!(@scan $isa; $name $sig $ret $body; $body); };
    // naked if there is assembly for one anywhere in the body
    (@scan $isa:ident; $name:ident $sig:tt $ret:tt $body:tt; { core::arch::naked_asm! { $($t:tt)* } $($rest:tt)* }) => {
        #[allow(non_snake_case)]
        pub fn $name() -> &'static $crate::sim::Prog {
            static PROG: std::sync::OnceLock<$crate::sim::Prog> = std::sync::OnceLock::new();
            PROG.get_or_init(|| $crate::sim_naked!($isa; $($t)*))
        }
    };
    (@scan $isa:ident; $name:ident $sig:tt $ret:tt $body:tt; { core::arch::naked_asm!($($t:tt)*) $($rest:tt)* }) => {
        $crate::sim_intrinsics!(@scan $isa; $name $sig $ret $body; { core::arch::naked_asm! { $($t)* } });
    };
    (@scan $isa:ident; $name:ident $sig:tt $ret:tt $body:tt; { $skip:tt $($rest:tt)* }) => {
        $crate::sim_intrinsics!(@scan $isa; $name $sig $ret $body; { $($rest)* });
    };
    (@scan $isa:ident; $name:ident ($($arg:ident: $ty:ty),*) ($($ret:ty)?) { $($body:tt)* }; {}) => {
        #[allow(unused_unsafe, non_snake_case, clippy::all)]
        pub unsafe fn $name($($arg: $ty),*) $(-> $ret)? { $($body)* }
    };
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Memory below 4 GiB, at the given address or anywhere.
pub fn low_memory(at: u64, len: usize, exec: bool) -> *mut u8 {
    // private, anonymous, and either in the low half or exactly there
    let flags = 0x22 | if at == 0 { 0x40 } else { 0x10_0000 };
    let p = unsafe { mmap(at as *mut u8, len, if exec { 7 } else { 3 }, flags, -1, 0) };
    assert!(p as isize != -1 && (at == 0 || p as u64 == at), "no memory at {at:#x}");
    p
}

/// Words of memory of this thread.
pub fn arena() -> *mut u8 {
    thread_local! {
        static ARENA: *mut u8 = low_memory(0, 1 << 20, false);
    }
    ARENA.with(|a| *a)
}
