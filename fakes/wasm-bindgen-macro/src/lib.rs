//! Stand-in for `#[wasm_bindgen]`.
//!
//! * on an `extern "C" { static NAME: T; }` block with `inline_js = "..."`, declares the statics
//!   as lazily loaded values and keeps the JS text in a constant;
//! * on anything else, is the identity.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut inline = String::from("\"\"");
    let toks: Vec<TokenTree> = attr.into_iter().collect();
    for w in toks.windows(3) {
        if w[0].to_string() == "inline_js" && w[1].to_string() == "=" {
            inline = w[2].to_string();
        }
    }
    let items: Vec<TokenTree> = item.clone().into_iter().collect();
    let is_extern = items.iter().any(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "extern"))
        && !items.iter().any(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "fn"));
    if !is_extern {
        return item;
    }
    let Some(TokenTree::Group(g)) = items.last() else { return item };
    if g.delimiter() != Delimiter::Brace {
        return item;
    }
    let mut out = String::new();
    let body: Vec<TokenTree> = g.stream().into_iter().collect();
    let mut i = 0;
    let mut vis = String::new();
    while i < body.len() {
        let s = body[i].to_string();
        if s == "pub" {
            vis = "pub ".into();
        }
        if s == "static" {
            let name = body[i + 1].to_string();
            let mut ty = String::new();
            let mut j = i + 3;
            while j < body.len() && body[j].to_string() != ";" {
                ty.push_str(&body[j].to_string());
                j += 1;
            }
            out.push_str(&format!(
                "{vis}static {name}: wasm_bindgen::__fake::JsStatic = wasm_bindgen::__fake::JsStatic({inline});\n\
                 const _: fn() = || {{ let _: Option<{ty}> = None; }};\n"
            ));
            vis.clear();
            i = j;
        }
        i += 1;
    }
    if inline != "\"\"" {
        // make the script findable: (module path, text) in a section of its own
        out.push_str(&format!(
            "#[used] #[link_section = \"fake_inline_js\"]\n\
             static __FAKE_INLINE_JS: wasm_bindgen::__fake::InlineJs = wasm_bindgen::__fake::InlineJs(module_path!(), {inline});\n"
        ));
    }
    out.parse().unwrap()
}
