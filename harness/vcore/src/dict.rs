//! Numeric literals found in the sources under test. They steer generation towards thresholds and
//! table values; no verdict depends on them.

use std::path::Path;
use std::sync::OnceLock;

use crate::sf::{Fmt, F128, F16, F32, F64};

pub struct Dict {
    pub ints: Vec<u128>,
    pub floats: Vec<f64>,
}

fn scan(dir: &Path, ints: &mut Vec<u128>, floats: &mut Vec<f64>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut paths: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    paths.sort();
    for p in paths {
        if p.is_dir() {
            scan(&p, ints, floats);
        } else if p.extension().is_some_and(|e| e == "rs") {
            if let Ok(t) = std::fs::read_to_string(&p) {
                for line in t.lines() {
                    let line = line.split("//").next().unwrap_or("");
                    tokens(line.as_bytes(), ints, floats);
                }
            }
        }
    }
}

fn hex_float(t: &str) -> Option<f64> {
    // 0x1.8p-3 without going through anything under test
    let t = t.strip_prefix("0x")?;
    let (m, e) = t.split_once('p')?;
    let e: i32 = e.parse().ok()?;
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    let digits = format!("{a}{b}");
    if digits.is_empty() || digits.len() > 28 {
        return None;
    }
    let v = u128::from_str_radix(&digits, 16).ok()? as f64;
    let e = e - 4 * b.len() as i32;
    Some(v * 2f64.powi(e / 2) * 2f64.powi(e - e / 2))
}

fn tokens(b: &[u8], ints: &mut Vec<u128>, floats: &mut Vec<f64>) {
    let mut i = 0;
    while i < b.len() {
        let prev_ident = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if !b[i].is_ascii_digit() || prev_ident {
            i += 1;
            continue;
        }
        let s = i;
        let hex = b[i] == b'0' && b.get(i + 1) == Some(&b'x');
        if hex {
            i += 2;
        }
        while i < b.len() {
            let c = b[i];
            let exp_sign = (c == b'-' || c == b'+')
                && matches!(b[i - 1], b'e' | b'E' | b'p')
                && (!hex || b[i - 1] == b'p');
            let dot = c == b'.' && b.get(i + 1).is_some_and(|d| d.is_ascii_hexdigit());
            if c.is_ascii_alphanumeric() || c == b'_' || exp_sign || dot {
                i += 1;
            } else {
                break;
            }
        }
        let mut t: String = b[s..i].iter().map(|c| *c as char).filter(|c| *c != '_').collect();
        for suf in ["u32", "i32", "u64", "i64", "u128", "i128", "u16", "usize", "isize", "u8"] {
            if let Some(x) = t.strip_suffix(suf) {
                t = x.to_string();
                break;
            }
        }
        if hex {
            if t.contains('p') {
                floats.extend(hex_float(&t));
            } else if let Ok(v) = u128::from_str_radix(&t[2..], 16) {
                ints.push(v);
            }
        } else {
            for suf in ["f32", "f64"] {
                if let Some(x) = t.strip_suffix(suf) {
                    t = x.to_string();
                }
            }
            if let Ok(v) = t.parse::<u128>() {
                ints.push(v);
            } else if let Ok(v) = t.parse::<f64>() {
                floats.push(v);
            }
        }
    }
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut ints = Vec::new();
        let mut floats = Vec::new();
        for d in ["/repo/libm/src", "/repo/compiler-builtins/src"] {
            scan(Path::new(d), &mut ints, &mut floats);
        }
        ints.sort();
        ints.dedup();
        floats.retain(|f| f.is_finite());
        floats.sort_by(f64::total_cmp);
        floats.dedup();
        Dict { ints, floats }
    })
}

/// Bit patterns of `f` suggested by the literals; low `.1` bits are free.
pub fn float_bits(f: &Fmt) -> &'static [(u128, u32)] {
    static D: OnceLock<[Vec<(u128, u32)>; 4]> = OnceLock::new();
    let all = D.get_or_init(|| {
        let d = dict();
        [F16, F32, F64, F128].map(|f| {
            let mut v = Vec::new();
            for x in &d.floats {
                v.push((F64.convert(x.to_bits() as u128, &f) & f.mag(), 0));
                v.push((F32.convert((*x as f32).to_bits() as u128, &f) & f.mag(), 0));
            }
            for &x in &d.ints {
                // as the value
                v.push((f.from_int(false, x), 0));
                // as the whole pattern, or the high half of it
                if x <= f.all() && x > 0xff {
                    v.push((x & f.mag(), 0));
                }
                if f.bits > 16 && x > 0xff && x < 1 << (f.bits / 2) {
                    v.push(((x << (f.bits / 2)) & f.mag(), f.bits / 2));
                }
                if f.bits == 128 && x > 0xff && x < 1 << 32 {
                    v.push(((x << 96) & f.mag(), 96));
                }
            }
            v.retain(|x| x.0 != 0);
            v.sort();
            v.dedup();
            v
        })
    });
    let i = match f.bits {
        16 => 0,
        32 => 1,
        64 => 2,
        _ => 3,
    };
    &all[i]
}
