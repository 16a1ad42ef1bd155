#![allow(unstable_name_collisions)]
// the exact-function checks call three builds under these names; here all are the exported symbols
extern crate abi as l1;
extern crate abi as l2;
extern crate abi as l3;

#[allow(dead_code)]
#[path = "../../vlibm/src/exact.rs"]
mod exact;
mod probe;
#[path = "../../vlibm/src/util.rs"]
mod util;

use std::collections::HashMap;

use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::floats::{self, FloatFns};
use vrt::ints::{self, IntFns};
use vrt::mem::{self, MemFns};

static INTS: [IntFns; 1] = [vrt::int_fns!(abi, "exported")];
static FLOATS: [FloatFns; 1] = [vrt::float_fns!(abi, "exported")];
static MEM: [MemFns; 1] = [vrt::mem_fns!(abi, "exported")];

/// How often each global symbol is defined in the archive, and with which symbol types.
fn symbols() -> HashMap<String, String> {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into());
    let text = std::fs::read_to_string(format!("{dir}/target/abi/symbols.txt")).expect("symbol list");
    let mut m: HashMap<String, String> = HashMap::new();
    for line in text.lines() {
        let (ty, name) = line.split_once(' ').expect("symbol line");
        m.entry(name.into()).or_default().push_str(ty);
    }
    m
}

/// Adds the calling-convention verdict of the trampolines to a sub-check.
fn watched(mut s: Sub, prefix: &str) -> Sub {
    s.name = format!("{prefix} {}", s.name);
    let inner = std::mem::replace(&mut s.check, Box::new(|_: &Words, _: Option<&mut String>| Out::Skip));
    s.check = Box::new(move |w: &Words, mut log: Option<&mut String>| {
        abi::vabi_bad.set(0);
        let out = inner(w, log.as_mut().map(|l| &mut **l));
        let bad = abi::vabi_bad.get();
        if bad != 0 {
            if let Some(l) = log {
                l.push_str(&format!(
                    "{} did not preserve the callee-saved registers, the direction flag or the floating-point control bits",
                    abi::NAMES[bad as usize - 1]
                ));
            }
            return Out::Fail;
        }
        out
    });
    s
}

fn c15(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let table = symbols();
    let mut subs = Vec::new();
    subs.push(
        Sub::new(
            "symbol table [all]",
            1,
            abi::NAMES.len() as u64,
            |_: &mut Rng, i, w: &mut Words| w[0] = i as u128,
            move |w, log| {
                let i = (w[0] % abi::NAMES.len() as u128) as usize;
                let name = abi::NAMES[i];
                let types = table.get(name).map(|s| s.as_str()).unwrap_or("");
                let ok = (types == "T" || types == "W") && abi::address(i) != 0;
                if let Some(l) = log {
                    l.push_str(&format!("{name}: defined {} times, as [{types}]", types.len()));
                }
                if ok { Out::Ok } else { Out::Fail }
            },
        )
        .enumerated(),
    );
    let missing = (0..abi::NAMES.len()).any(|i| abi::address(i) == 0);
    if !missing {
        // the checks of the single properties on these symbols, with fewer cases
        let sub = |scale: f64| Ctx { prop: ctx.prop.clone(), seed: ctx.seed, thorough: false, scale: ctx.scale * scale * if ctx.thorough { 12.0 } else { 1.0 } };
        let c = &sub(0.06);
        let mut add = |p: &str, l: (Meta, Vec<Sub>)| subs.extend(l.1.into_iter().map(|s| watched(s, p)));
        add("division", ints::c01(c, &INTS));
        add("multiplication", ints::c02(c, &INTS));
        add("addition", ints::c03(c, &INTS));
        add("bits", ints::c04(c, &INTS, &[]));
        add("float", floats::c05(c, &FLOATS));
        add("float", floats::c06(c, &FLOATS));
        add("float", floats::c07(c, &FLOATS));
        add("compare", floats::c08(c, &FLOATS));
        add("float", floats::c09(c, &FLOATS));
        add("float", floats::c10(c, &FLOATS));
        add("float", floats::c11(c, &FLOATS));
        add("power", floats::c12(c, &FLOATS));
        add("memory", mem::c13(c, &MEM));
        add("memory", mem::c14(c, &MEM));
        for l in [exact::c17(c), exact::c18(c), exact::c19(c), exact::c20(c), exact::c21(c), exact::c23(c)] {
            let keep = |s: &Sub| {
                let n = s.name.split(' ').next().unwrap();
                !["remquo", "remainder", "hypot", "hypotf", "relaxed"].contains(&n) && s.name != "fma 16"
            };
            add("math", (l.0, l.1.into_iter().filter(keep).collect()));
        }
    }
    (
        Meta {
            rule: "non-trivial: as in the check of the property that covers the routine; for the symbol table every entry",
            assumptions: vec![
                "the archive is the optimised build for x86-64 Linux with C names and memory functions, its symbols renamed before linking so that they are not mixed up with the standard library's copy".into(),
                "calls go from Rust code declaring the C signature, through a trampoline that fills and compares the callee-saved registers".into(),
            ],
        },
        subs,
    )
}

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C15" => Some(c15(ctx)),
        "C16" => Some(probe::c16(ctx)),
        _ => None,
    });
}
