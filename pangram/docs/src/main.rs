//! Lists the documentation of a Rust source file read from standard input: one line per documented thing,
//! `path<TAB>hex of the lines`, where the path is that of a type or variant, or `?` for anything else;
//! then `code<TAB>hex of all tokens without documentation`.
use std::io::Read;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use syn::visit::Visit;

struct Docs {
    at: Vec<String>,
}

fn text(attrs: &[syn::Attribute]) -> Option<String> {
    let mut out: Option<String> = None;
    for a in attrs {
        if let syn::Meta::NameValue(m) = &a.meta {
            if m.path.is_ident("doc") {
                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &m.value {
                    let o = out.get_or_insert_with(String::new);
                    if !o.is_empty() {
                        o.push('\n');
                    }
                    o.push_str(&s.value());
                    if o.is_empty() {
                        o.push(' ');
                    }
                }
            }
        }
    }
    out
}

fn show(path: &str, attrs: &[syn::Attribute]) {
    if let Some(t) = text(attrs) {
        println!("{path}\t{}", hex(&t));
    }
}

impl<'a> Visit<'a> for Docs {
    fn visit_item_struct(&mut self, x: &'a syn::ItemStruct) {
        show(&format!("{}{}", self.at.concat(), x.ident), &x.attrs);
        self.visit_fields(&x.fields);
    }
    fn visit_item_enum(&mut self, x: &'a syn::ItemEnum) {
        show(&format!("{}{}", self.at.concat(), x.ident), &x.attrs);
        for v in &x.variants {
            show(&format!("{}{}::{}", self.at.concat(), x.ident, v.ident), &v.attrs);
            self.visit_fields(&v.fields);
        }
    }
    fn visit_item_mod(&mut self, x: &'a syn::ItemMod) {
        self.at.push(format!("{}::", x.ident));
        syn::visit::visit_item_mod(self, x);
        self.at.pop();
    }
    fn visit_attribute(&mut self, x: &'a syn::Attribute) {
        show("?", std::slice::from_ref(x));
    }
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}

/// The tokens of everything but documentation.
fn code(ts: TokenStream, out: &mut String) {
    let ts: Vec<_> = ts.into_iter().collect();
    let mut i = 0;
    while i < ts.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&ts[i], ts.get(i + 1)) {
            if p.as_char() == '#' && matches!(g.stream().into_iter().next(), Some(TokenTree::Ident(d)) if d == "doc") {
                i += 2;
                continue;
            }
        }
        match &ts[i] {
            TokenTree::Group(g) => {
                out.push_str(&format!("{:?} ", g.delimiter()));
                code(g.stream(), out);
                out.push_str("end ");
            }
            t => {
                out.push_str(&t.to_string());
                out.push(' ');
            }
        }
        i += 1;
    }
}

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    match syn::parse_file(&s) {
        Ok(f) => {
            Docs { at: vec![] }.visit_file(&f);
            let mut out = String::new();
            code(f.to_token_stream(), &mut out);
            println!("code\t{}", hex(&out));
        }
        Err(e) => {
            println!("error\t{e}");
        }
    }
}
