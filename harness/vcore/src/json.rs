//! Just enough JSON for the evidence and replay files.

pub fn s(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// String value of `key` in a replay file (which this crate wrote).
pub fn field(text: &str, key: &str) -> Option<String> {
    let at = text.find(&format!("\"{key}\":"))?;
    let rest = &text[at + key.len() + 3..];
    let q = rest.find('"')?;
    let mut out = String::new();
    let mut esc = false;
    for c in rest[q + 1..].chars() {
        if esc {
            out.push(c);
            esc = false;
        } else if c == '\\' {
            esc = true;
        } else if c == '"' {
            return Some(out);
        } else {
            out.push(c);
        }
    }
    None
}

pub fn list(text: &str, key: &str) -> Option<Vec<String>> {
    let at = text.find(&format!("\"{key}\":"))?;
    let rest = &text[at..];
    let a = rest.find('[')?;
    let b = rest.find(']')?;
    Some(rest[a + 1..b].split(',').map(|x| x.trim().trim_matches('"').to_string()).filter(|x| !x.is_empty()).collect())
}
