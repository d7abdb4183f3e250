//! Stands in for the derive_builder crate (not available offline): `#[derive(Builder)]` for a struct
//! with named fields and no generics.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(item: TokenStream) -> TokenStream {
    let mut name = String::new();
    let mut body = None;
    let mut it = item.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(ref i) if i.to_string() == "struct" => {
                if let Some(TokenTree::Ident(n)) = it.next() {
                    name = n.to_string();
                }
            }
            TokenTree::Group(ref g) if g.delimiter() == Delimiter::Brace => body = Some(g.stream()),
            _ => {}
        }
    }
    let (mut decl, mut set, mut fin) = (String::new(), String::new(), String::new());
    for (f, ty) in fields(body.expect("fields")) {
        decl += &format!("{f}: ::std::option::Option<{ty}>,");
        set += &format!("pub fn {f}(&mut self, v: impl ::std::convert::Into<{ty}>) -> &mut Self {{ self.{f} = ::std::option::Option::Some(v.into()); self }}");
        fin += &format!("{f}: self.{f}.clone().ok_or(\"{f}\")?,");
    }
    format!(
        "#[derive(Default, Clone)] pub struct {name}Builder {{ {decl} }}
         impl {name}Builder {{ {set}
           pub fn build(&self) -> ::std::result::Result<{name}, &'static str> {{ ::std::result::Result::Ok({name} {{ {fin} }}) }} }}"
    )
    .parse()
    .unwrap()
}

/// (name, type) of every field
fn fields(body: TokenStream) -> Vec<(String, String)> {
    let mut out = vec![];
    let (mut name, mut ty, mut depth, mut seen_colon, mut skip) = (String::new(), String::new(), 0i32, false, false);
    let toks: Vec<TokenTree> = body.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        let s = toks[i].to_string();
        if skip {
            skip = false;
        } else if !seen_colon {
            match &toks[i] {
                TokenTree::Punct(p) if p.as_char() == '#' => skip = true,
                TokenTree::Punct(p) if p.as_char() == ':' => seen_colon = true,
                TokenTree::Ident(n) => name = n.to_string(),
                _ => {}
            }
        } else {
            match s.as_str() {
                "<" => depth += 1,
                ">" => depth -= 1,
                _ => {}
            }
            if s == "," && depth == 0 {
                out.push((std::mem::take(&mut name), std::mem::take(&mut ty)));
                seen_colon = false;
            } else {
                // a lifetime is two tokens: ' and its name
                ty += &s;
                if s != "'" && s != ":" {
                    ty += " ";
                }
            }
        }
        i += 1;
    }
    if seen_colon {
        out.push((name, ty));
    }
    out
}
