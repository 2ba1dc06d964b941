//! Items stay as they are; functions of the page become calls to what stands for it.
use proc_macro::{Delimiter, TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn wasm_bindgen(_a: TokenStream, item: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = item.clone().into_iter().collect();
    if !matches!(t.first(), Some(TokenTree::Ident(i)) if i.to_string() == "extern") { return item; }
    let Some(TokenTree::Group(g)) = t.last() else { return item };
    assert!(g.delimiter() == Delimiter::Brace);
    // The text of each function up to its semicolon, without attributes.
    let mut out = String::new();
    let mut sig = vec![];
    let mut skip = false;
    let mut name = String::new();
    let mut args = String::new();
    for x in g.stream() {
        if skip { skip = false; continue; }
        match &x {
            TokenTree::Punct(p) if p.as_char() == '#' => { skip = true; }
            TokenTree::Punct(p) if p.as_char() == ';' => {
                out.push_str(&sig.join(" "));
                out.push_str(&format!(" {{ let _ = \"{name}\"; ::wasm_bindgen::page_log({args}) }}\n"));
                sig.clear();
            }
            TokenTree::Group(a) if a.delimiter() == Delimiter::Parenthesis && sig.iter().any(|s| s == "fn") => {
                args = a.stream().into_iter().next().map(|t| t.to_string()).unwrap_or_default();
                sig.push(x.to_string());
            }
            _ => { if sig.last().map(|s: &String| s == "fn").unwrap_or(false) { name = x.to_string(); } sig.push(x.to_string()); }
        }
    }
    out.parse().unwrap()
}
