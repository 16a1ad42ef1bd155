//! `source!("file", "from" => "to", ...)`: the contents of a source file with pieces of text replaced, as items.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro]
pub fn source(input: TokenStream) -> TokenStream {
    let words: Vec<String> = input
        .into_iter()
        .filter_map(|t| match t {
            TokenTree::Literal(l) => {
                let s = l.to_string();
                Some(s[1..s.len() - 1].replace("\\\"", "\""))
            }
            _ => None,
        })
        .collect();
    let path = &words[0];
    let dir = path.rsplit_once('/').map_or("", |p| p.0);
    let mut text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    for pair in words[1..].chunks(2) {
        text = text.replace(&pair[0], &pair[1].replace("@DIR@", dir));
    }
    // inner comments and attributes have no place in the middle of a file
    let text: String = text
        .lines()
        .filter(|l| !l.trim_start().starts_with("//!") && !l.trim_start().starts_with("#!["))
        .flat_map(|l| [l, "\n"])
        .collect();
    // makes the compiler look at the file again when it has changed
    format!("const _: &str = include_str!({path:?});\n{text}").parse().unwrap()
}
