//! Invocations of the macro that calls another macro once per function.
use std::collections::BTreeSet;
use std::io::Write;
use std::process::{Command, Stdio};

use api_list_common::{MathOpInfo, OpScope, Ty, ALL_OPERATIONS};
use libm_test::Identifier;
use vcore::{Ctx, Meta, Out, Rng, Sub, Words};
use vrt::expect;

use crate::util::fin;

const TYPES: [&str; 7] = ["CFn", "CArgs", "CRet", "RustFn", "RustArgs", "RustRet", "path"];
const ATTRS: [&str; 6] = ["meta1", "allow(dead_code)", "cfg(not(any(a, b)))", "doc = \"x, ] y\"", "inline(never)", "a::b(c = 1)"];
/// Expressions with `@` for the function's name and `%` for its unsuffixed name.
const EXPRS: [&str; 14] = [
    "1",
    "foo",
    "[a, b]",
    "(basis, op, inputs)",
    "|x| x.%()",
    "Some(musl_math_sys::@)",
    "[@, %, @]",
    "f(@, \"@ %\", 'c', -1.5e3)",
    "{ let y = @; y + g::<%>(2) }",
    "|x: f32| -> f32 { x.@(1) }",
    "if a { @ } else { None }",
    "%::@",
    "&mut v",
    "match b { 1 => @, _ => % }",
];
const MAGIC: [&str; 6] = ["ALL_F16", "ALL_F32", "ALL_F64", "ALL_F128", "ALL_INT", "ALL_BUILTINS"];

fn builtin(op: &MathOpInfo) -> bool {
    matches!(op.scope, OpScope::BuiltinsPublic)
}

fn has(op: &MathOpInfo, t: Ty) -> bool {
    op.rust_sig.args.contains(&t) || op.rust_sig.returns.contains(&t)
}

/// Does the magic pattern stand for this function?
fn magic(name: &str, op: &MathOpInfo) -> bool {
    if name == "ALL_BUILTINS" {
        return builtin(op);
    }
    let first = op.rust_sig.args.iter().chain(op.rust_sig.returns).find(|t| matches!(t, Ty::F16 | Ty::F32 | Ty::F64 | Ty::F128));
    let group = match first {
        Some(Ty::F16) => "ALL_F16",
        Some(Ty::F32) => "ALL_F32",
        Some(Ty::F64) => "ALL_F64",
        Some(Ty::F128) => "ALL_F128",
        _ => "ALL_INT",
    };
    name == group
}

/// The name without its type suffixes.
pub fn unsuffixed(name: &str) -> String {
    let listed = |n: &str| ALL_OPERATIONS.iter().any(|o| o.name == n);
    let mut s = name;
    let mut cut = false;
    while let Some((head, tail)) = s.rsplit_once('_') {
        let b = tail.as_bytes();
        if !matches!(b.first(), Some(b'f' | b'i' | b'u')) || !matches!(&tail[1..], "16" | "32" | "64" | "128") {
            break;
        }
        s = head;
        cut = true;
    }
    if cut {
        return s.into();
    }
    for t in ["f16", "f32", "f64", "f128"] {
        if let Some(h) = s.strip_suffix(t) {
            return h.into();
        }
    }
    if let Some(h) = s.strip_suffix("f_r") {
        let h = format!("{h}_r");
        if listed(&h) {
            return h;
        }
    }
    match s.strip_suffix('f') {
        Some(h) if listed(h) => h.into(),
        _ => s.into(),
    }
}

fn ty(t: &Ty) -> &'static str {
    match t {
        Ty::F16 => "f16",
        Ty::F32 => "f32",
        Ty::F64 => "f64",
        Ty::F128 => "f128",
        Ty::I32 => "i32",
        Ty::I64 => "i64",
        Ty::I128 => "i128",
        Ty::U32 => "u32",
        Ty::U64 => "u64",
        Ty::U128 => "u128",
        Ty::USize => "usize",
        Ty::Bool => "bool",
        Ty::CInt => "core::ffi::c_int",
        Ty::MutF16 => "&'amutf16",
        Ty::MutF32 => "&'amutf32",
        Ty::MutF64 => "&'amutf64",
        Ty::MutF128 => "&'amutf128",
        Ty::MutI32 => "&'amuti32",
        Ty::MutCInt => "&'amutcore::ffi::c_int",
    }
}

/// One way of writing a type out of several equal ones: `(T)` is `T`, `fn(T,)` is `fn(T)`.
fn type_norm(field: &str, text: &str) -> String {
    let t = text.replace("::core::", "core::");
    let ret = |r: &str| match r.strip_prefix('(').and_then(|r| r.strip_suffix(')')) {
        Some("") => "()".into(),
        Some(one) if !one.contains(',') => one.to_string(),
        _ => r.trim_end_matches(",)").to_string(),
    };
    match field {
        "CFn" | "RustFn" => match t.split_once("->") {
            Some((a, r)) => format!("{}->{}", a.replace(",)", ")"), ret(r)),
            None => t,
        },
        "CRet" | "RustRet" => ret(&t),
        _ => t,
    }
}

fn type_text(field: &str, op: &MathOpInfo) -> String {
    let sig = if field.starts_with('C') { &op.c_sig } else { &op.rust_sig };
    let args: Vec<_> = sig.args.iter().map(ty).collect();
    let rets: Vec<_> = sig.returns.iter().map(ty).collect();
    let ret = format!("({})", rets.join(","));
    let text = match field {
        "path" => format!("{}::{}", if builtin(op) { "crate::builtins_wrapper" } else { "libm" }, op.name),
        "CFn" | "RustFn" => format!("fn({})->{ret}", args.join(",")),
        "CArgs" | "RustArgs" => format!("({},)", args.join(",")),
        _ => ret,
    };
    type_norm(field, &text)
}

fn subst(e: &str, op: &MathOpInfo) -> String {
    let mut out = String::new();
    let mut quoted = false;
    for c in e.chars() {
        match c {
            '"' => {
                quoted = !quoted;
                out.push(c);
            }
            '@' if !quoted => out.push_str(op.name),
            '%' if !quoted => out.push_str(&unsuffixed(op.name)),
            c => out.push(c),
        }
    }
    out
}

fn source(e: &str) -> String {
    let mut out = String::new();
    let mut quoted = false;
    for c in e.chars() {
        match c {
            '"' => {
                quoted = !quoted;
                out.push(c);
            }
            '@' if !quoted => out.push_str("MACRO_FN_NAME"),
            '%' if !quoted => out.push_str("MACRO_FN_NAME_NORMALIZED"),
            c => out.push(c),
        }
    }
    out
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

#[derive(Default)]
struct Inv {
    /// Field texts in order.
    fields: Vec<String>,
    trailing: bool,
    /// Why it is to be rejected.
    bad: Option<String>,
    /// An unknown placeholder in `extra`: rejected if a function is visited.
    placeholder: bool,
    emit: Vec<String>,
    skip: BTreeSet<String>,
    only: Option<BTreeSet<String>>,
    no_wide: bool,
    no_builtins: bool,
    attrs: Vec<(Vec<&'static str>, BTreeSet<String>)>,
    extra: Option<&'static str>,
    arms: Option<Vec<(Vec<String>, &'static str)>>,
}

fn name(r: &mut Rng) -> String {
    ALL_OPERATIONS[r.below(ALL_OPERATIONS.len() as u64) as usize].name.to_string()
}

/// Some names; now and then all of a kind, or one that does not exist.
fn names(r: &mut Rng, inv: &mut Inv, wrong: bool) -> Vec<String> {
    let mut v: Vec<String> = match r.below(6) {
        0 => vec![],
        1 => ALL_OPERATIONS.iter().filter(|_| r.one_in(2)).map(|o| o.name.to_string()).collect(),
        2 => {
            let b = name(r);
            let b = unsuffixed(&b);
            ALL_OPERATIONS.iter().filter(|o| unsuffixed(o.name) == b).map(|o| o.name.to_string()).collect()
        }
        _ => (0..1 + r.below(5)).map(|_| name(r)).collect(),
    };
    if wrong {
        let n = name(r);
        let n = match r.below(4) {
            0 => format!("{n}x"),
            1 => n.to_uppercase(),
            2 => format!("_{n}"),
            _ => "all".to_string(),
        };
        if !ALL_OPERATIONS.iter().any(|o| o.name == n) {
            inv.bad.get_or_insert(format!("no function {n}"));
            let at = r.below(v.len() as u64 + 1) as usize;
            v.insert(at, n);
        }
    }
    v
}

fn comma(r: &mut Rng, v: &[String]) -> String {
    let tail = if !v.is_empty() && r.one_in(3) { "," } else { "" };
    format!("[{}{tail}]", v.join(", "))
}

fn build(w: &Words) -> Inv {
    let mut inv = Inv::default();
    let sub = |i: usize| Rng::new(w[i] as u64, i as u64, 77);
    let mut f: Vec<String> = vec!["callback: cb".into()];

    // emit_types
    let mut r = sub(0);
    if w[0] != 0 {
        match r.below(10) {
            0 | 1 => {
                inv.emit = TYPES.iter().map(|t| t.to_string()).collect();
                f.push(if r.one_in(2) { "emit_types: all" } else { "emit_types: [all]" }.into());
            }
            2 => {
                inv.emit = vec![TYPES[r.below(7) as usize].to_string()];
                f.push(format!("emit_types: {}", inv.emit[0]));
            }
            k => {
                let mut t: Vec<String> = TYPES.iter().map(|t| t.to_string()).collect();
                for i in (1..7).rev() {
                    t.swap(i, r.below(i as u64 + 1) as usize);
                }
                t.truncate(r.below(8) as usize);
                if k == 3 && r.one_in(3) {
                    let (n, why) = if r.one_in(2) { ("rustFn", "no such type") } else { ("all", "all is not alone") };
                    if n != "all" || !t.is_empty() {
                        inv.bad.get_or_insert(why.into());
                        let at = r.below(t.len() as u64 + 1) as usize;
                        t.insert(at, n.into());
                    }
                }
                f.push(format!("emit_types: {}", comma(&mut r, &t)));
                inv.emit = t;
            }
        }
    }

    // skip, only
    let mut r = sub(1);
    if w[1] != 0 {
        let k = r.below(8);
        let wrong = r.one_in(8);
        if k < 4 || k == 7 && r.one_in(3) {
            let mut v = names(&mut r, &mut inv, wrong && k < 4);
            if k == 7 && v.is_empty() {
                v.push(name(&mut r));
            }
            f.push(format!("skip: {}", comma(&mut r, &v)));
            inv.skip = v.into_iter().collect();
        }
        if k >= 4 {
            let v = names(&mut r, &mut inv, wrong);
            f.push(format!("only: {}", comma(&mut r, &v)));
            inv.only = Some(v.into_iter().collect());
        }
        if !inv.skip.is_empty() && inv.only.is_some() {
            inv.bad.get_or_insert("skip and only".into());
        }
    }

    // flags
    let mut r = sub(2);
    if w[2] != 0 {
        for (n, wide) in [("skip_f16_f128", true), ("skip_builtins", false)] {
            match r.below(12) {
                0..=4 => {
                    f.push(format!("{n}: true"));
                    *if wide { &mut inv.no_wide } else { &mut inv.no_builtins } = true;
                }
                5 => f.push(format!("{n}: false")),
                6 if r.one_in(3) => {
                    f.push(format!("{n}: {}", ["1", "yes", "[true]", "\"true\""][r.below(4) as usize]));
                    inv.bad.get_or_insert("flag is no bool".into());
                }
                _ => (),
            }
        }
    }

    // attributes
    let mut r = sub(3);
    if w[3] != 0 {
        let mut parts = Vec::new();
        for _ in 0..r.below(4) {
            let metas: Vec<&'static str> = (0..r.below(4)).map(|_| ATTRS[r.below(6) as usize]).collect();
            let wrong = r.one_in(24);
            let v = names(&mut r, &mut inv, wrong);
            let list = comma(&mut r, &v);
            parts.push(metas.iter().map(|m| format!("#[{m}] ")).collect::<String>() + &list);
            inv.attrs.push((metas, v.into_iter().collect()));
        }
        f.push(format!("attributes: {}", comma(&mut r, &parts)));
    }

    // extra
    let mut r = sub(4);
    if w[4] != 0 {
        if r.one_in(16) {
            f.push(format!("extra: [a, {}]", ["MACRO_NAME", "MACRO", "MACRO_FN_NAMES", "MACRO_FN_NAME_"][r.below(4) as usize]));
            inv.placeholder = true;
        } else {
            let e = EXPRS[r.below(EXPRS.len() as u64) as usize];
            f.push(format!("extra: {}", source(e)));
            inv.extra = Some(e);
        }
    }

    // fn_extra
    let mut r = sub(5);
    if w[5] != 0 {
        let mut arms: Vec<(Vec<String>, &'static str)> = Vec::new();
        let mut used = BTreeSet::new();
        for _ in 0..r.below(5) {
            let wrong = r.one_in(32);
            let mut keys = names(&mut r, &mut inv, wrong);
            if r.one_in(2) {
                let at = r.below(keys.len() as u64 + 1) as usize;
                keys.insert(at, MAGIC[r.below(6) as usize].to_string());
            }
            if !r.one_in(16) {
                // mostly without repetitions
                keys.retain(|k| !used.contains(k));
                let mut seen = BTreeSet::new();
                keys.retain(|k| seen.insert(k.clone()));
            }
            if keys.is_empty() {
                continue;
            }
            for k in &keys {
                if !used.insert(k.clone()) {
                    inv.bad.get_or_insert(format!("{k} twice"));
                }
            }
            arms.push((keys, EXPRS[r.below(EXPRS.len() as u64) as usize]));
        }
        if !r.one_in(6) {
            let at = r.below(arms.len() as u64 + 1) as usize;
            arms.insert(at, (vec!["_".into()], EXPRS[r.below(EXPRS.len() as u64) as usize]));
        }
        let on = if r.one_in(24) {
            inv.bad.get_or_insert("matches on something else".into());
            "MACRO_FN_NAME_NORMALIZED"
        } else {
            "MACRO_FN_NAME"
        };
        let text: Vec<String> = arms.iter().map(|(k, e)| format!("{} => {}", k.join(" | "), source(e))).collect();
        let tail = if r.one_in(2) { "," } else { "" };
        f.push(format!("fn_extra: match {on} {{ {}{} }}", text.join(", "), if text.is_empty() { "" } else { tail }));
        inv.arms = Some(arms);
    }

    // order, and what makes the whole invalid
    let mut r = sub(6);
    if w[6] != 0 {
        match r.below(24) {
            0 => {
                f.remove(0);
                inv.bad.get_or_insert("no callback".into());
            }
            1 => {
                let i = r.below(f.len() as u64) as usize;
                f.push(f[i].clone());
                inv.bad.get_or_insert("a field twice".into());
            }
            2 => {
                f.push(["skipp: []", "Only: [sin]", "types: all", "callbacks: cb"][r.below(4) as usize].into());
                inv.bad.get_or_insert("unknown field".into());
            }
            _ => (),
        }
        for i in (1..f.len()).rev() {
            f.swap(i, r.below(i as u64 + 1) as usize);
        }
        inv.trailing = r.one_in(2);
    }
    inv.fields = f;
    inv
}

type Want = Vec<(String, Vec<String>)>;

/// The calls the invocation stands for, each with the texts it may have.
fn model(inv: &Inv) -> Result<Want, String> {
    if let Some(b) = &inv.bad {
        return Err(b.clone());
    }
    let mut out = Vec::new();
    for op in ALL_OPERATIONS.iter() {
        let wide = has(op, Ty::F16) || has(op, Ty::F128);
        if inv.skip.contains(op.name) || inv.only.as_ref().is_some_and(|o| !o.contains(op.name)) {
            continue;
        }
        if inv.no_wide && wide || inv.no_builtins && builtin(op) {
            continue;
        }
        let mut text = format!("fn_name:{},", op.name);
        for t in &inv.emit {
            text += &format!("{t}:{},", type_text(t, op));
        }
        let mut metas: Vec<String> = Vec::new();
        for (m, n) in &inv.attrs {
            if n.contains(op.name) {
                metas.extend(m.iter().map(|s| squeeze(s)));
            }
        }
        if has(op, Ty::F16) {
            metas.push("cfg(f16_enabled)".into());
        }
        if has(op, Ty::F128) {
            metas.push("cfg(f128_enabled)".into());
        }
        text += &format!("attrs:[{}],", metas.join(","));
        if let Some(e) = inv.extra {
            text += &format!("extra:{},", squeeze(&subst(e, op)));
        }
        let mut texts = vec![text];
        if let Some(arms) = &inv.arms {
            // Where several patterns other than `_` apply, any of them may win.
            let mut fit: Vec<&str> =
                arms.iter().filter(|(k, _)| k.iter().any(|k| k == op.name || magic(k, op))).map(|a| a.1).collect();
            if fit.is_empty() {
                fit = arms.iter().filter(|(k, _)| k[0] == "_").map(|a| a.1).collect();
            }
            if fit.is_empty() {
                return Err(format!("{} has no pattern", op.name));
            }
            let base = texts.remove(0);
            texts = fit.iter().map(|e| format!("{base}fn_extra:{},", squeeze(&subst(e, op)))).collect();
        }
        out.push((op.name.to_string(), texts));
    }
    if inv.placeholder && !out.is_empty() {
        return Err("unknown placeholder".into());
    }
    Ok(out)
}

/// Write the types of an expanded call in one way.
fn normal(text: &str, emit: &[String]) -> String {
    let mut out = String::new();
    let mut rest = text;
    for (i, t) in emit.iter().enumerate() {
        let key = format!("{t}:");
        let next = emit.get(i + 1).map(|s| format!(",{s}:")).unwrap_or(",attrs:".into());
        let Some(a) = rest.find(&key) else { return text.into() };
        let Some(b) = rest[a..].find(&next) else { return text.into() };
        out += &rest[..a + key.len()];
        out += &type_norm(t, &rest[a + key.len()..a + b]);
        rest = &rest[a + b..];
    }
    out + rest
}

fn expand(src: &str) -> Result<Vec<String>, String> {
    let so = std::env::var("VERIF_MACROS").unwrap_or("/verif/target/mac-build/release/liblibm_macros.so".into());
    let mut c = Command::new("rustc")
        .args(["--edition", "2024", "--crate-type", "lib", "--crate-name", "x", "-Zunpretty=expanded", "--extern"])
        .arg(format!("libm_macros={so}"))
        .arg("-")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("starting rustc");
    c.stdin.take().unwrap().write_all(src.as_bytes()).expect("writing to rustc");
    let o = c.wait_with_output().expect("rustc");
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if !o.status.success() {
        assert!(o.status.code() == Some(1), "harness: rustc ended with {:?}: {err}", o.status);
        return Err(err);
    }
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut calls = Vec::new();
    // Every call is a constant with its text as value.
    for part in out.split("const _: &str =").skip(1).filter(|p| !p.contains("stringify!")) {
        let lit = part.trim().trim_end_matches('}').trim();
        let lit = lit.strip_suffix(';').unwrap_or(lit).trim().trim_matches('"');
        let mut s = String::new();
        let mut it = lit.chars();
        while let Some(c) = it.next() {
            match c {
                '\\' => match it.next() {
                    Some('n' | 't') => (),
                    Some(c) => s.push(c),
                    None => (),
                },
                c if c.is_whitespace() => (),
                c => s.push(c),
            }
        }
        calls.push(s);
    }
    Ok(calls)
}

fn check(w: &Words, mut log: Option<&mut String>) -> Out {
    let inv = build(w);
    let sep = if inv.trailing { "," } else { "" };
    let text = format!("libm_macros::for_each_function! {{ {}{sep} }}", inv.fields.join(", "));
    let src = format!("macro_rules! cb {{ ($($t:tt)*) => {{ const _: &str = stringify!($($t)*); }} }}\n{text}\n");
    let want = model(&inv);
    let got = expand(&src);
    let mut bad = false;
    match (&got, &want) {
        (Err(_), Err(_)) => (),
        (Ok(_), Err(why)) => expect!(log, bad, false, "accepted though {why}: {text}"),
        // Nothing to expand: whether the placeholder is looked at is open.
        (Err(_), Ok(v)) if inv.placeholder && v.is_empty() => (),
        (Err(e), Ok(_)) => expect!(log, bad, false, "rejected: {text}: {}", e.lines().take(6).collect::<Vec<_>>().join(" / ")),
        (Ok(g), Ok(v)) => {
            expect!(log, bad, g.len() == v.len(), "{} calls, want {}: {text}", g.len(), v.len());
            let mut left: Vec<String> = g.iter().map(|c| normal(c, &inv.emit)).collect();
            for (n, texts) in v {
                match left.iter().position(|l| texts.contains(l)) {
                    Some(i) => {
                        left.swap_remove(i);
                    }
                    None => {
                        let near = left.iter().find(|l| l.starts_with(&format!("fn_name:{n},")));
                        expect!(log, bad, false, "call for {n} is {near:?}, want {:?}: {text}", texts);
                        break;
                    }
                }
            }
        }
    }
    if let (false, Some(l)) = (bad, log) {
        l.push_str(&format!("{text} -> {}", match &want {
            Ok(v) => format!("{} calls", v.len()),
            Err(e) => format!("rejected, {e}"),
        }));
    }
    fin(bad, w.iter().take(7).filter(|x| **x != 0).count() >= 2)
}

pub fn c45(ctx: &Ctx) -> (Meta, Vec<Sub>) {
    let plain = expand("macro_rules! cb { ($($t:tt)*) => { const _: &str = stringify!($($t)*); } }\ncb! { a(b) }\n");
    assert!(plain.as_ref().is_ok_and(|v| *v == ["a(b)"]), "the compiler does not work here: {plain:?}");
    let mut subs = Vec::new();
    subs.push(
        Sub::new(
            "invocations",
            7,
            ctx.n(300, 20_000),
            |r: &mut Rng, _, w: &mut Words| {
                for x in &mut w[..7] {
                    *x = if r.one_in(2) { 1 + r.below(1 << 30) as u128 } else { 0 };
                }
            },
            check,
        )
        .unit(4),
    );

    let n = ALL_OPERATIONS.len() as u64;
    subs.push(
        Sub::new(
            "names",
            1,
            n,
            |_: &mut Rng, i, w: &mut Words| w[0] = i as u128,
            move |w: &Words, mut log: Option<&mut String>| {
                let op = &ALL_OPERATIONS[w[0] as usize % n as usize];
                let mut bad = false;
                let id = Identifier::from_str(op.name);
                expect!(log, bad, id.is_some(), "{} is not found", op.name);
                if let Some(id) = id {
                    expect!(log, bad, id.as_str() == op.name, "{} is found as {}", op.name, id.as_str());
                    expect!(log, bad, Identifier::ALL.iter().filter(|i| **i == id).count() == 1, "{} is not listed once", op.name);
                    let base = unsuffixed(op.name);
                    expect!(log, bad, id.base_name().as_str() == base, "{} has base name {}, want {base}", op.name, id.base_name().as_str());
                }
                expect!(log, bad, Identifier::ALL.len() as u64 == n, "{} names, want {n}", Identifier::ALL.len());
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(op.name);
                }
                fin(bad, unsuffixed(op.name) != op.name)
            },
        )
        .enumerated()
        .unit(16),
    );
    subs.push(
        Sub::new(
            "no names",
            3,
            ctx.n(20_000, 2_000_000),
            move |r: &mut Rng, _, w: &mut Words| {
                w[0] = r.below(n) as u128;
                w[1] = r.below(6) as u128;
                w[2] = r.u64() as u128;
            },
            move |w: &Words, mut log: Option<&mut String>| {
                let mut s: Vec<u8> = ALL_OPERATIONS[w[0] as usize % n as usize].name.into();
                let at = w[2] as usize % s.len();
                let c = b"abcdefghijklmnopqrstuvwxyz0123456789_FIN "[(w[2] >> 16) as usize % 41];
                match w[1] % 6 {
                    0 => s[at] = c,
                    1 => s.insert(at, c),
                    2 => {
                        s.remove(at);
                    }
                    3 => s.push(c),
                    4 => s.truncate(at),
                    _ => s[at].make_ascii_uppercase(),
                }
                let s = String::from_utf8(s).unwrap();
                let want = ALL_OPERATIONS.iter().any(|o| o.name == s);
                let got = Identifier::from_str(&s);
                let mut bad = false;
                expect!(log, bad, got.map(|i| i.as_str()) == want.then_some(s.as_str()), "{s:?} is found as {got:?}");
                if let (false, Some(l)) = (bad, log) {
                    l.push_str(&s);
                }
                fin(bad, !want)
            },
        )
        .unit(256),
    );
    let meta = Meta {
        rule: "an invocation with at least two optional fields; a name with a suffix; a string that names no function",
        assumptions: vec![
            "the list of functions with their types is taken as it stands in the repository".into(),
            "the compiler expands macros and prints the result faithfully".into(),
            "where several patterns cover a function, either may be used".into(),
        ],
    };
    (meta, subs)
}
