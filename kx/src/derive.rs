//! The methods that `#[derive(LayoutMap)]` adds: the body is the template in
//! keramics-layout-map; only the size of the structure is computed here.
use crate::{Found, Source};
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;

/// The sum of the sizes of the `data_type = "..."` of the layout.
fn size(ts: TokenStream) -> Option<usize> {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut n = 0;
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Ident(x) if x == "data_type" => {
                let s = toks.get(i + 2)?.to_string();
                n += type_size(s.trim_matches('"'))?;
                i += 3;
                continue;
            }
            TokenTree::Group(g) => n += size(g.stream())?,
            _ => {}
        }
        i += 1;
    }
    Some(n)
}

fn type_size(t: &str) -> Option<usize> {
    let t = t.trim();
    if let Some(x) = t.strip_prefix('[') {
        let (e, n) = x.strip_suffix(']')?.rsplit_once(';')?;
        return Some(type_size(e)? * n.trim().parse::<usize>().ok()?);
    }
    if let Some(x) = t.strip_suffix('>') {
        let (k, x) = x.split_once('<')?;
        return match k {
            "ByteString" => x.trim().parse().ok(),
            "Ucs2String" | "Utf16String" => Some(2 * x.trim().parse::<usize>().ok()?),
            "Struct" => x.rsplit_once(';')?.1.trim().parse().ok(),
            _ => None,
        };
    }
    match t {
        "u8" | "i8" | "char" => Some(1),
        "u16" | "i16" | "FatDate" => Some(2),
        "u32" | "i32" | "PosixTime32" | "FatTimeDate" => Some(4),
        "FatTimeDate10Ms" => Some(5),
        "u64" | "i64" | "Filetime" => Some(8),
        "uuid" | "Uuid" => Some(16),
        _ => None,
    }
}

pub fn find(repo: &str, src: &Source, path: &[String]) -> Option<Found> {
    if path.len() != 2 || path[1] != "read_at_position" {
        return None;
    }
    let item = match src.find_item(&path[0])? {
        syn::Item::Struct(s) => s,
        _ => return None,
    };
    let layout = item.attrs.iter().find(|a| a.path().is_ident("layout_map"))?;
    let layout = match &layout.meta {
        syn::Meta::List(l) => l.tokens.clone(),
        _ => return None,
    };
    if !layout.to_string().replace(' ', "").contains("method(name=\"read_at_position\")") {
        return None;
    }
    let n = size(layout)?;
    let text = std::fs::read_to_string(format!("{}/keramics-layout-map/src/structure.rs", repo)).ok()?;
    let gen_src = Source { file: syn::parse_file(&text).ok()? };
    let generator = gen_src.find_fn(&["StructureLayout".into(), "generate_read_at_position".into()], None)?;
    let quoted = match generator.block.stmts.last()? {
        syn::Stmt::Expr(syn::Expr::Macro(m), _) if m.mac.path.is_ident("quote") => m.mac.tokens.clone(),
        syn::Stmt::Macro(m) if m.mac.path.is_ident("quote") => m.mac.tokens.clone(),
        _ => return None,
    };
    let mut map: BTreeMap<String, TokenStream> = BTreeMap::new();
    map.insert("data_size_literal".into(), proc_macro2::Literal::usize_unsuffixed(n).to_token_stream());
    map.insert("format_string".into(), quote::quote!(""));
    map.insert("struct_name".into(), item.ident.to_token_stream());
    let f: syn::ImplItemFn = syn::parse2(hash(quoted, &map)?).ok()?;
    let ty = &item.ident;
    Some(Found { sig: f.sig, block: f.block, generics: syn::Generics::default(), self_ty: syn::parse2(quote::quote!(#ty)).ok() })
}

/// Replaces `#name`.
fn hash(ts: TokenStream, map: &BTreeMap<String, TokenStream>) -> Option<TokenStream> {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                match toks.get(i + 1)? {
                    TokenTree::Ident(x) => out.extend(map.get(&x.to_string())?.clone()),
                    _ => return None,
                }
                i += 2;
                continue;
            }
            TokenTree::Group(g) => {
                let s = hash(g.stream(), map)?;
                out.extend(std::iter::once(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), s))));
            }
            t => out.extend(std::iter::once(t.clone())),
        }
        i += 1;
    }
    Some(out)
}
