//! The archive checker on generated object files and archives.
mod obj;

use std::collections::HashMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::OnceLock;

use obj::{archive, Bind, Format, Kind, Note, Obj, Place, Sym, Vis};
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};

#[derive(Clone, Copy, PartialEq, Eq)]
enum Os {
    Linux,
    FreeBsd,
    NetBsd,
    Solaris,
    Windows,
    MacOs,
    Ios,
}

struct Target {
    triple: &'static str,
    format: Format,
    flags: u32,
    os: Os,
}

const fn elf(triple: &'static str, wide: bool, little: bool, machine: u16, flags: u32, os: Os) -> Target {
    Target { triple, format: Format::Elf { wide, little, machine }, flags, os }
}

const TARGETS: [Target; 18] = [
    elf("x86_64-unknown-linux-gnu", true, true, 62, 0, Os::Linux),
    elf("aarch64-unknown-linux-gnu", true, true, 183, 0, Os::Linux),
    elf("i686-unknown-linux-gnu", false, true, 3, 0, Os::Linux),
    elf("riscv64gc-unknown-linux-gnu", true, true, 243, 5, Os::Linux),
    elf("riscv32imac-unknown-none-elf", false, true, 243, 1, Os::Linux),
    elf("powerpc64-unknown-linux-gnu", true, false, 21, 1, Os::Linux),
    elf("powerpc64le-unknown-linux-gnu", true, true, 21, 2, Os::Linux),
    elf("s390x-unknown-linux-gnu", true, false, 22, 0, Os::Linux),
    elf("armv7-unknown-linux-gnueabihf", false, true, 40, 0x0500_0000, Os::Linux),
    elf("armeb-unknown-linux-gnueabi", false, false, 40, 0x0500_0000, Os::Linux),
    elf("x86_64-unknown-freebsd", true, true, 62, 0, Os::FreeBsd),
    elf("x86_64-unknown-netbsd", true, true, 62, 0, Os::NetBsd),
    elf("x86_64-pc-solaris", true, true, 62, 0, Os::Solaris),
    Target { triple: "x86_64-pc-windows-gnu", format: Format::Coff { machine: 0x8664 }, flags: 0, os: Os::Windows },
    Target { triple: "aarch64-pc-windows-msvc", format: Format::Coff { machine: 0xaa64 }, flags: 0, os: Os::Windows },
    Target { triple: "x86_64-apple-darwin", format: Format::MachO { cpu: 0x0100_0007 }, flags: 0, os: Os::MacOs },
    Target { triple: "aarch64-apple-darwin", format: Format::MachO { cpu: 0x0100_000c }, flags: 0, os: Os::MacOs },
    Target { triple: "aarch64-apple-ios", format: Format::MachO { cpu: 0x0100_000c }, flags: 0, os: Os::Ios },
];
/// `none` targets are only used to be mismatched against; index of the one in the table.
const BARE: usize = 4;

const CORE: [&str; 5] = [
    "_ZN4core9panicking5panic17h0123456789abcdefE",
    "_RNvNtCs1a2B_4core9panicking5panic",
    "_RNvMs_NtCs1a2B_4core3fmtNtB4_9Formatter3pad",
    "_RINvNtCs1a2B_4core3ptr13drop_in_placehECs9z_3foo",
    "_ZN4core3str8converts9from_utf817hd4454ac14cbbb790E",
];
const OTHER: [&str; 15] = [
    "memcpy",
    "__addsf3",
    "_ZN5alloc5boxed3Box17h0123456789abcdefE",
    "_RNvCs9z_3foo3bar",
    "core_panic",
    "a4core",
    "__x86.get_pc_thunk.bx",
    "__x86.get_pc_thunk.ax",
    "__x86_get_pc_thunk",
    "__real@3f800000",
    "__xmm@00000000000000003ff0000000000000",
    "__zmm@0",
    ".refptr.x",
    "__rustc_debug_gdb_scripts_section__",
    "_Unwind_Resume",
];

fn name(target: &Target, i: u128, member: usize, slot: usize) -> String {
    let base = match i as usize {
        0 => format!("u{member}_{slot}"),
        i if i <= CORE.len() => CORE[i - 1].to_string(),
        i => OTHER[(i - 1 - CORE.len()) % OTHER.len()].to_string(),
    };
    if matches!(target.format, Format::MachO { .. }) {
        format!("_{base}")
    } else {
        base
    }
}

fn is_core(n: &str) -> bool {
    CORE.iter().any(|c| n == *c || n.strip_prefix('_') == Some(c))
}

fn may_repeat(s: &Sym) -> bool {
    ["__x86.get_pc_thunk", "__real@", "__xmm@", "__ymm@", "??_C@_", ".refptr"].iter().any(|p| s.name.starts_with(p))
        || s.place == Place::Gdb && s.bind == Bind::Weak
}

struct Case {
    target: usize,
    no_os: bool,
    no_visibility: bool,
    files: Vec<(Vec<(usize, Obj)>, bool)>,
    index: bool,
    long: bool,
}

const MEMBERS: usize = 7;
const SLOTS: usize = 5;

/// Any words make a case; zero fields are unremarkable.
fn case(w: &Words) -> Case {
    let g = w[0];
    let f = |at: u32, n: u32| g >> at & ((1 << n) - 1);
    let mut target = f(0, 5) as usize % TARGETS.len();
    if target == BARE {
        target = 0;
    }
    let t = &TARGETS[target];
    let members = 1 + f(8, 4) as usize % MEMBERS;
    let single = members == 1 && f(12, 1) == 0;
    let mut objs = vec![];
    for m in 0..members {
        let o = w[1 + m];
        let f = |at: u32, n: u32| o >> at & ((1 << n) - 1);
        // the object's own target: another of the same format
        let mut own = target;
        if f(0, 5) != 0 {
            let same: Vec<usize> = (0..TARGETS.len()).filter(|&i| std::mem::discriminant(&TARGETS[i].format) == std::mem::discriminant(&t.format)).collect();
            own = same[(f(0, 5) as usize) % same.len()];
        }
        let ot = &TARGETS[own];
        let is_elf = matches!(ot.format, Format::Elf { .. });
        let os = if is_elf { [0, 0, 3, 9, 2, 6, 0, 0][f(5, 3) as usize] } else { 0 };
        let platform = match (ot.format, f(5, 3)) {
            (Format::MachO { .. }, 0 | 1) => None,
            (Format::MachO { .. }, x) if x < 6 => Some(if ot.os == Os::Ios { 2 } else { 1 }),
            (Format::MachO { .. }, 6) => Some(2),
            (Format::MachO { .. }, _) => Some(1),
            _ => None,
        };
        let mut flags = ot.flags;
        if matches!(ot.format, Format::Elf { machine: 21, .. }) && f(15, 1) == 1 {
            flags = flags & !3 | [2, 0, 1, 2][(f(16, 2)) as usize];
        }
        let kind = match f(12, 3) {
            1 if single && is_elf => Kind::Program { dynamic: true, exec: false },
            2 if single && is_elf => Kind::Program { dynamic: true, exec: true },
            3 if single && is_elf => Kind::Program { dynamic: false, exec: false },
            4 if single && is_elf => Kind::Program { dynamic: false, exec: true },
            _ => Kind::Object,
        };
        let mut syms: Vec<Sym> = vec![];
        if m == 0 {
            syms.push(Sym { name: name(t, 0, m, 9), place: Place::Text, bind: Bind::Global, vis: Vis::Hidden });
        }
        let count = f(20, 3) as usize % (SLOTS + 1);
        for s in 0..count {
            let b = o >> (24 + 16 * s);
            let f = |at: u32, n: u32| b >> at & ((1 << n) - 1);
            let place = [Place::Text, Place::Data, Place::Undefined, Place::Gdb, Place::Absolute, Place::Undefined, Place::Text, Place::Data][f(5, 3) as usize];
            let place = if place == Place::Gdb && !is_elf { Place::Data } else { place };
            let bind = match [Bind::Global, Bind::Weak, Bind::Local, Bind::Global][f(8, 2) as usize] {
                _ if place == Place::Undefined => Bind::Global,
                Bind::Weak if matches!(ot.format, Format::Coff { .. }) => Bind::Global,
                b => b,
            };
            let vis = [Vis::Hidden, Vis::Default, Vis::Protected, Vis::Hidden][f(10, 2) as usize];
            let mut n = name(t, f(0, 5), m, s);
            let sym = Sym { name: n.clone(), place, bind, vis };
            if syms.iter().any(|x| x.name == n) {
                // one symbol of a name per object
                n = name(t, 0, m, s);
            }
            syms.push(Sym { name: n, ..sym });
        }
        // the order of the symbols
        let turn = f(110, 3) as usize;
        if !syms.is_empty() {
            let k = turn % syms.len();
            syms.rotate_left(k);
        }
        let note = if kind == Kind::Object { [Note::Plain, Note::Absent, Note::Exec, Note::Plain][f(8, 2) as usize] } else { Note::Absent };
        let code = !(f(10, 2) == 1 && syms.iter().all(|s| s.place != Place::Text)) || kind != Kind::Object;
        objs.push((own, Obj { format: ot.format, os, flags, platform, note, code, kind, syms }));
    }
    // the order of the members, and files
    let k = f(16, 4) as usize % objs.len();
    objs.rotate_left(k);
    let split = f(24, 4) as usize;
    let mut files = vec![];
    if split > 0 && split < objs.len() {
        let tail = objs.split_off(split);
        files.push((objs, false));
        files.push((tail, false));
    } else {
        files.push((objs, single));
    }
    // every file needs a definition
    for (objs, _) in files.iter_mut() {
        if !objs.iter().any(|(_, o)| o.syms.iter().any(|s| s.bind != Bind::Local && s.place != Place::Undefined && !may_repeat(s))) {
            objs[0].1.code = true;
            objs[0].1.syms.push(Sym { name: name(t, 0, 99, 0), place: Place::Text, bind: Bind::Global, vis: Vis::Hidden });
        }
    }
    Case { target, no_os: f(32, 3) == 1, no_visibility: f(35, 2) == 1, files, index: f(40, 1) == 1, long: f(41, 1) == 1 }
}

/// What is wrong with a file, and how many things in it come close to being wrong.
fn judge(c: &Case, objs: &[(usize, Obj)]) -> (Vec<String>, u32) {
    let t = &TARGETS[c.target];
    let mut why = vec![];
    let mut near = 0;
    let mut defs: HashMap<&str, u32> = HashMap::new();
    let mut locals: HashMap<&str, u32> = HashMap::new();
    for (_, o) in objs {
        for s in &o.syms {
            if s.place == Place::Undefined {
                continue;
            }
            if s.bind == Bind::Local {
                *locals.entry(&s.name).or_default() += 1;
            } else if may_repeat(s) {
                near += 1;
                defs.entry(&s.name).or_insert(0);
            } else {
                *defs.entry(&s.name).or_default() += 1;
            }
        }
    }
    for (n, k) in &defs {
        if *k > 1 {
            why.push(format!("{n} is defined {k} times"));
        } else if locals.contains_key(n) {
            near += 1;
        }
    }
    for (own, o) in objs {
        let ot = &TARGETS[*own];
        for s in &o.syms {
            if s.place == Place::Undefined {
                if is_core(&s.name) {
                    if defs.contains_key(s.name.as_str()) {
                        near += 1;
                    } else {
                        why.push(format!("{} is undefined", s.name));
                    }
                } else {
                    near += 1;
                }
            } else if s.bind != Bind::Local && s.vis != Vis::Hidden && !matches!(o.format, Format::Coff { .. }) {
                if c.no_visibility {
                    near += 1;
                } else {
                    why.push(format!("{} is visible", s.name));
                }
            } else if s.bind == Bind::Local && s.vis != Vis::Hidden {
                near += 1;
            }
        }
        if o.format != t.format {
            why.push(format!("an object for {}", ot.triple));
        }
        let os = match o.format {
            Format::Elf { .. } => match o.os {
                3 => Some(Os::Linux),
                9 => Some(Os::FreeBsd),
                2 => Some(Os::NetBsd),
                6 => Some(Os::Solaris),
                _ => None,
            },
            Format::Coff { .. } => Some(Os::Windows),
            Format::MachO { .. } => o.platform.map(|p| if p == 2 { Os::Ios } else { Os::MacOs }),
        };
        if let Some(os) = os {
            if os != t.os {
                why.push("an object for another operating system".into());
            } else if !matches!(o.format, Format::Coff { .. }) {
                near += 1;
            }
        }
        let stack = match (o.format, o.kind) {
            (Format::Coff { .. } | Format::MachO { .. }, _) => false,
            (_, Kind::Program { exec, .. }) => {
                near += 1;
                exec
            }
            (Format::Elf { machine, .. }, Kind::Object) => match o.note {
                Note::Plain => false,
                Note::Exec => true,
                // the first version of that ABI needs no executable stack
                Note::Absent => o.code && !(machine == 21 && o.flags & 3 != 2),
            },
        };
        if stack {
            if c.no_os {
                near += 1;
            } else {
                why.push("an executable stack is asked for".into());
            }
        } else if o.note == Note::Absent {
            near += 1;
        }
    }
    (why, near)
}

struct Place_ {
    dir: PathBuf,
    tool: PathBuf,
    path: String,
}

/// A scratch directory, with a stand-in for the compiler that answers the one question the tool
/// asks from a cache and passes everything else on.
fn place() -> &'static Place_ {
    static P: OnceLock<Place_> = OnceLock::new();
    P.get_or_init(|| {
        let root = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into()));
        let dir = root.join("target/vsym").join(format!("run-{}", std::process::id()));
        let bin = dir.join("bin");
        std::fs::create_dir_all(&bin).expect("scratch directory");
        for t in &TARGETS {
            let out = Command::new("rustc").args(["--target", t.triple, "--print=cfg"]).output().expect("rustc");
            assert!(out.status.success(), "no target {}", t.triple);
            std::fs::write(bin.join(format!("cfg-{}", t.triple)), out.stdout).expect("cache");
        }
        let script = format!(
            "#!/bin/sh\nd='{}'\nif [ $# -eq 3 ] && [ \"$1\" = --target ] && [ \"$3\" = --print=cfg ] && [ -f \"$d/cfg-$2\" ]; then exec cat \"$d/cfg-$2\"; fi\nPATH=\"$VSYM_PATH\" exec rustc \"$@\"\n",
            bin.display()
        );
        let stand_in = bin.join("rustc");
        std::fs::write(&stand_in, script).expect("script");
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&stand_in, std::fs::Permissions::from_mode(0o755)).expect("script");
        let old = std::env::var("PATH").unwrap_or_default();
        Place_ { tool: root.join("target/sym-build/release/symcheck"), path: format!("{}:{old}", bin.display()), dir }
    })
}

fn show(c: &Case, o: &Obj) -> String {
    let syms: Vec<String> = o
        .syms
        .iter()
        .map(|s| format!("{}{}{}{}", s.name, if s.place == Place::Undefined { ":undefined" } else { "" }, match s.bind { Bind::Local => ":local", Bind::Weak => ":weak", _ => "" }, match (s.place, s.vis) { (Place::Undefined, _) => "", (_, Vis::Hidden) => ":hidden", (_, Vis::Default) => ":default", _ => ":protected" }))
        .collect();
    let _ = c;
    format!("{{{:?} os {} flags {:#x} {:?} note {:?} code {} {:?}: {}}}", o.format, o.os, o.flags, o.platform, o.note, o.code, o.kind, syms.join(" "))
}

fn check(w: &Words, log: Option<&mut String>) -> Out {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    thread_local! {
        static ME: u32 = NEXT.fetch_add(1, Ordering::Relaxed);
    }
    let c = case(w);
    let p = place();
    let me = ME.with(|m| *m);
    let mut paths = vec![];
    let mut why = vec![];
    let mut near = 0;
    for (i, (objs, single)) in c.files.iter().enumerate() {
        let bodies: Vec<Vec<u8>> = objs.iter().map(|o| o.1.bytes()).collect();
        let bytes = if *single { bodies[0].clone() } else { archive(&bodies, c.index, c.long) };
        let path = p.dir.join(format!("t{}-{me}-{i}.a", std::process::id()));
        std::fs::write(&path, bytes).expect("write");
        paths.push(path);
        let (y, n) = judge(&c, objs);
        why.extend(y);
        near += n;
    }
    let mut cmd = Command::new(&p.tool);
    cmd.arg("--check").args(["--target", TARGETS[c.target].triple]);
    if c.no_os {
        cmd.arg("--no-os");
    }
    if c.no_visibility {
        cmd.arg("--no-visibility");
    }
    let old = std::env::var("PATH").unwrap_or_default();
    let out = cmd.args(&paths).env("PATH", &p.path).env("VSYM_PATH", old).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).output().expect("running the tool");
    for f in &paths {
        let _ = std::fs::remove_file(f);
    }
    let ok = out.status.success() == why.is_empty();
    if let Some(l) = log {
        let err = String::from_utf8_lossy(&out.stderr);
        let said: String = err.lines().filter(|l| !l.trim().is_empty()).take(4).collect::<Vec<_>>().join(" / ").chars().take(300).collect();
        l.push_str(&format!(
            "target {}{}{}: {}; expected {}; the tool ended with {}{}{}",
            TARGETS[c.target].triple,
            if c.no_os { " --no-os" } else { "" },
            if c.no_visibility { " --no-visibility" } else { "" },
            c.files.iter().map(|(f, s)| format!("{}[{}]", if *s { "object" } else { "archive" }, f.iter().map(|o| show(&c, &o.1)).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join(" and "),
            if why.is_empty() { "success".to_string() } else { format!("failure ({})", why.join(", ")) },
            out.status,
            if said.is_empty() { "" } else { ": " },
            said
        ));
    }
    if !ok {
        Out::Fail
    } else if why.len() == 1 || why.is_empty() && near > 0 {
        Out::Ok
    } else {
        Out::Trivial
    }
}

/// Members without faults but with near misses, then at most a fault or two.
fn gen(r: &mut Rng, _: u64, w: &mut Words) {
    let members = match r.below(4) {
        0 => 0,
        1 => 1,
        _ => r.below(MEMBERS as u64),
    } as u128;
    let t = if r.one_in(2) { 0 } else { r.below(TARGETS.len() as u64) } as u128;
    let mut g = t | members << 8 | (r.below(2) as u128) << 12 | (r.below(16) as u128) << 16 | (r.below(4) as u128) << 40;
    if r.one_in(8) {
        g |= (1 + r.below(4) as u128) << 24;
    }
    if r.one_in(8) {
        g |= 1 << 32;
    }
    if r.one_in(4) {
        g |= 1 << 35;
    }
    w[0] = g;
    let kind = r.below(5) as u128;
    for m in 0..=members as usize {
        let mut o: u128 = 0;
        // stack note left out where there is no code
        if r.one_in(6) {
            o |= 1 << 8 | 1 << 10;
        }
        if members == 0 && r.one_in(2) {
            o |= kind << 12;
        }
        if r.one_in(6) {
            o |= (r.below(3) as u128) << 5;
        }
        if r.one_in(4) {
            o |= 1 << 15 | (r.below(4) as u128) << 16;
        }
        let n = r.below(SLOTS as u64 + 1);
        o |= (n as u128) << 20 | (r.below(8) as u128) << 110;
        for s in 0..n {
            let mut b: u128 = 0;
            match r.below(8) {
                // an ordinary definition
                0 | 1 => b |= (r.below(2) as u128) << 5 | (r.below(2) as u128) << 8,
                // a reference to anything
                2 | 3 => b |= r.below(21) as u128 | 2 << 5,
                // a local symbol of any name and visibility
                4 => b |= r.below(21) as u128 | 2 << 8 | (r.below(3) as u128) << 10,
                // something that may be repeated
                5 => b |= if r.one_in(2) { 19 | 3 << 5 | 1 << 8 } else { [12, 13, 15, 16, 18][r.below(5) as usize] },
                // a definition with a name from the pool
                6 => b |= r.below(21) as u128 | (r.below(2) as u128) << 8,
                _ => {}
            }
            if r.one_in(40) {
                b |= (r.below(4) as u128) << 10;
            }
            if r.one_in(40) {
                b ^= r.below(1 << 12) as u128;
            }
            o |= b << (24 + 16 * s);
        }
        w[1 + m] = o;
    }
    // faults
    for _ in 0..r.below(3) {
        let m = 1 + r.below(members as u64 + 1) as usize;
        match r.below(6) {
            0 => w[m] ^= (1 + r.below(3) as u128) << 8,
            1 => w[m] ^= (1 + r.below(31)) as u128,
            2 => w[m] ^= (1 + r.below(7) as u128) << 5,
            3 => w[m] ^= (r.below(4) as u128) << (24 + 16 * r.below(SLOTS as u64) as u32 + 10),
            4 => w[m] ^= (r.below(32) as u128) << (24 + 16 * r.below(SLOTS as u64) as u32),
            _ => {
                // repeat a symbol of one member in another
                let k = 1 + r.below(members as u64 + 1) as usize;
                let from = w[k] >> (24 + 16 * r.below(SLOTS as u64) as u32) & 0xffff;
                let at = 24 + 16 * r.below(SLOTS as u64) as u32;
                w[m] = w[m] & !(0xffff << at) | from << at;
                w[m] = w[m] & !(7 << 20) | (SLOTS as u128) << 20;
            }
        }
    }
}

fn c40(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    place();
    (
        Meta {
            rule: "non-trivial: exactly one thing is wrong, or nothing is and something comes close (a name used twice but local, undefined or of a kind compilers repeat; a rule switched off; an operating system or stack header stated)",
            assumptions: vec![
                "object files are ELF (13 targets), COFF (2) and Mach-O (3), written by the harness; objects of another format than the target's are not tried".into(),
                "the names compilers emit in several objects by design (position-independent thunks, Windows literals, weak debugger scripts) may be repeated".into(),
                "the target description the tool asks the compiler for is answered from a cache filled by the real compiler".into(),
            ],
        },
        vec![Sub::new("archives", 8, ctx.n(30_000, 500_000), gen, check).unit(128)],
    )
}

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C40" => Some(c40(ctx)),
        _ => None,
    });
}
