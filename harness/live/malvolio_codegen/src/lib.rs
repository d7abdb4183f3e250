//! Stands in for the malvolio_codegen crate (not available offline): a variant of the struct with
//! accessible fields.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(FieldsAccessibleVariant)]
pub fn accessible(item: TokenStream) -> TokenStream {
    let mut name = String::new();
    let mut body = None;
    let mut it = item.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(ref i) if i.to_string() == "struct" => {
                if let Some(TokenTree::Ident(n)) = it.next() {
                    name = n.to_string();
                }
            }
            TokenTree::Group(ref g) if g.delimiter() == Delimiter::Brace => body = Some(g.stream()),
            _ => {}
        }
    }
    let (mut decl, mut fin) = (String::new(), String::new());
    for (f, ty) in fields(body.expect("fields")) {
        decl += &format!("pub {f}: {ty},");
        fin += &format!("{f}: self.{f},");
    }
    format!(
        "#[allow(missing_docs)] pub struct Pub{name} {{ {decl} }}
         #[allow(missing_docs)] impl {name} {{ pub fn into_pub_fields(self) -> Pub{name} {{ Pub{name} {{ {fin} }} }} }}"
    )
    .parse()
    .unwrap()
}

/// (name, type) of every field
fn fields(body: TokenStream) -> Vec<(String, String)> {
    let mut out = vec![];
    let (mut name, mut ty, mut depth, mut seen_colon, mut skip) = (String::new(), String::new(), 0i32, false, false);
    let toks: Vec<TokenTree> = body.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        let s = toks[i].to_string();
        if skip {
            skip = false;
        } else if !seen_colon {
            match &toks[i] {
                TokenTree::Punct(p) if p.as_char() == '#' => skip = true,
                TokenTree::Punct(p) if p.as_char() == ':' => seen_colon = true,
                TokenTree::Ident(n) => name = n.to_string(),
                _ => {}
            }
        } else {
            match s.as_str() {
                "<" => depth += 1,
                ">" => depth -= 1,
                _ => {}
            }
            if s == "," && depth == 0 {
                out.push((std::mem::take(&mut name), std::mem::take(&mut ty)));
                seen_colon = false;
            } else {
                // a lifetime is two tokens: ' and its name
                ty += &s;
                if s != "'" && s != ":" {
                    ty += " ";
                }
            }
        }
        i += 1;
    }
    if seen_colon {
        out.push((name, ty));
    }
    out
}
