// kx: mechanical extraction of functions from keramics sources into a Verus file.
//
//   kx REPO UNIT.vx OUT.rs [--canary]
//
// The unit file names functions and items by path and carries contracts, loop
// invariants and proof hints.  Everything executable in OUT.rs between the
// "@@fn" markers comes from REPO's current source; the rewrites applied are the
// closed list below (each is recorded per function in OUT.rs.json).
mod derive;
mod rewrite;
mod spec;

use quote::ToTokens;
use spec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;

fn fail(msg: &str) -> ! {
    eprintln!("KX-ANCHOR: {}", msg);
    std::process::exit(3);
}

pub struct Found {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub generics: syn::Generics,
    pub self_ty: Option<syn::Type>,
}

pub struct Source {
    pub file: syn::File,
}

fn last_ident(ty: &syn::Type) -> Option<String> {
    match ty {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && a.to_token_stream().to_string().replace(' ', "").contains("cfg(test)")
    })
}

impl Source {
    pub fn all_items(&self) -> Vec<&syn::Item> {
        let mut out = Vec::new();
        fn rec<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
            for it in items {
                if let syn::Item::Mod(m) = it {
                    if is_test(&m.attrs) {
                        continue;
                    }
                    if let Some((_, its)) = &m.content {
                        rec(its, out);
                    }
                    continue;
                }
                out.push(it);
            }
        }
        rec(&self.file.items, &mut out);
        out
    }

    pub fn find_fn(&self, path: &[String], tr: Option<&str>) -> Option<Found> {
        for it in self.all_items() {
            match it {
                syn::Item::Fn(f) if path.len() == 1 => {
                    if f.sig.ident == path[0] {
                        return Some(Found {
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                            generics: syn::Generics::default(),
                            self_ty: None,
                        });
                    }
                }
                syn::Item::Impl(im) if path.len() == 2 => {
                    if last_ident(&im.self_ty).as_deref() != Some(path[0].as_str()) {
                        continue;
                    }
                    if let Some(t) = tr {
                        match &im.trait_ {
                            Some((_, p, _)) if p.segments.last().map(|s| s.ident == t || s.to_token_stream().to_string().replace(' ', "") == t).unwrap_or(false) => {}
                            _ => continue,
                        }
                    }
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if f.sig.ident == path[1] {
                                let mut at = AssocTypes(BTreeMap::new());
                                for ii in &im.items {
                                    if let syn::ImplItem::Type(t) = ii {
                                        at.0.insert(t.ident.to_string(), t.ty.clone());
                                    }
                                }
                                let mut f = f.clone();
                                if !at.0.is_empty() {
                                    syn::visit_mut::VisitMut::visit_impl_item_fn_mut(&mut at, &mut f);
                                }
                                return Some(Found {
                                    sig: f.sig.clone(),
                                    block: f.block.clone(),
                                    generics: im.generics.clone(),
                                    self_ty: Some((*im.self_ty).clone()),
                                });
                            }
                        }
                    }
                }
                syn::Item::Trait(t) if path.len() == 2 && t.ident == path[0] => {
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            if f.sig.ident == path[1] {
                                if let Some(b) = &f.default {
                                    return Some(Found {
                                        sig: f.sig.clone(),
                                        block: b.clone(),
                                        generics: syn::Generics::default(),
                                        self_ty: syn::parse_str(&path[0]).ok(),
                                    });
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        None
    }

    pub fn find_item(&self, name: &str) -> Option<syn::Item> {
        for it in self.all_items() {
            let n = match it {
                syn::Item::Const(c) => c.ident.to_string(),
                syn::Item::Static(c) => c.ident.to_string(),
                syn::Item::Struct(c) => c.ident.to_string(),
                syn::Item::Enum(c) => c.ident.to_string(),
                syn::Item::Type(c) => c.ident.to_string(),
                syn::Item::Trait(c) => c.ident.to_string(),
                _ => continue,
            };
            if n == name {
                return Some(it.clone());
            }
        }
        None
    }

    /// Associated constant `Type::NAME`.
    pub fn find_assoc_const(&self, ty: &str, name: &str) -> Option<syn::ImplItemConst> {
        for it in self.all_items() {
            if let syn::Item::Impl(im) = it {
                if last_ident(&im.self_ty).as_deref() != Some(ty) {
                    continue;
                }
                for ii in &im.items {
                    if let syn::ImplItem::Const(c) = ii {
                        if c.ident == name {
                            return Some(c.clone());
                        }
                    }
                }
            }
        }
        None
    }
}

pub fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

/// `Self::Item` in a trait implementation -> the type it is defined as there.
struct AssocTypes(BTreeMap<String, syn::Type>);
impl syn::visit_mut::VisitMut for AssocTypes {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t {
            if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(x) = self.0.get(&p.path.segments[1].ident.to_string()) {
                    *t = x.clone();
                    return;
                }
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
}

struct Uppers {
    names: BTreeSet<String>,
}
impl Uppers {
    fn name(&mut self, i: &syn::Ident) {
        let n = i.to_string();
        if n.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit())
            && n.chars().next().map(|c| c.is_ascii_uppercase()).unwrap_or(false)
            && n.len() > 1
        {
            self.names.insert(n);
        }
    }
}
impl<'ast> Visit<'ast> for Uppers {
    fn visit_path(&mut self, p: &'ast syn::Path) {
        if p.segments.len() == 1 {
            self.name(&p.segments[0].ident);
        }
        syn::visit::visit_path(self, p);
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        if p.subpat.is_none() && p.by_ref.is_none() && p.mutability.is_none() {
            self.name(&p.ident);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: kx REPO UNIT OUT [--canary]");
        std::process::exit(2);
    }
    let repo = &args[1];
    let canary = args.iter().any(|a| a == "--canary");
    let unit = match spec::parse_unit(&args[2]) {
        Ok(u) => u,
        Err(e) => {
            eprintln!("KX-UNIT: {}", e);
            std::process::exit(2);
        }
    };
    let mut sources: BTreeMap<String, Source> = BTreeMap::new();
    let mut load = |f: &str| -> () {
        if !sources.contains_key(f) {
            let p = format!("{}/{}", repo, f);
            let text = match std::fs::read_to_string(&p) {
                Ok(t) => t,
                Err(e) => fail(&format!("cannot read {}: {}", p, e)),
            };
            let file = match syn::parse_file(&text) {
                Ok(t) => t,
                Err(e) => fail(&format!("cannot parse {}: {}", p, e)),
            };
            sources.insert(f.to_string(), Source { file });
        }
    };
    for e in &unit.entries {
        match e {
            Entry::Item(i) => load(&i.file),
            Entry::Fn(f) => load(&f.file),
            _ => {}
        }
    }
    let macros = rewrite::load_macros(repo);

    // Names already provided.
    let mut known_items: BTreeSet<String> = unit.provided.iter().cloned().collect();
    let mut contracted: BTreeSet<String> = BTreeSet::new();
    for e in &unit.entries {
        match e {
            Entry::Item(i) => {
                known_items.insert(i.name.clone());
            }
            Entry::Fn(f) => {
                contracted.insert(f.path.join("::"));
            }
            Entry::Raw(t) => {
                for w in t.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
                    known_items.insert(w.to_string());
                }
            }
        }
    }

    let mut out = String::new();
    let mut auto_consts = String::new();
    let mut infos: Vec<String> = Vec::new();
    let mut auto_done: BTreeSet<String> = BTreeSet::new();
    out.push_str("// GENERATED by kx from the current source tree; do not edit.\n");
    out.push_str("#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_assignments, non_snake_case, unused_parens, unused_braces, unused_labels, non_camel_case_types, unreachable_code, non_upper_case_globals)]\n");
    out.push_str("use vstd::prelude::*;\nverus! {\n");
    let mut canary_count = 0usize;

    for e in &unit.entries {
        match e {
            Entry::Raw(t) => {
                out.push_str(t);
                out.push('\n');
            }
            Entry::Item(i) => {
                let src = &sources[&i.file];
                let mut item = if let Some((ty, nm)) = i.name.split_once("::") {
                    match src.find_assoc_const(ty, nm) {
                        Some(c) => assoc_to_item(ty, &c),
                        None => fail(&format!("item {} not found in {}", i.name, i.file)),
                    }
                } else {
                    match src.find_item(&i.name) {
                        Some(it) => it,
                        None => fail(&format!("item {} not found in {}", i.name, i.file)),
                    }
                };
                let default = rewrite::derived_default(&item, &unit.drop_fields);
                let mut rw = rewrite::Rewriter::new(&macros, &unit, None);
                rw.visit_item_mut(&mut item);
                rewrite::drop_fields(&mut item, &unit.drop_fields);
                slice_const(&mut item);
                let exec = match (&i.exec, &item) {
                    (Some(ens), syn::Item::Const(c)) => Some(format!(
                        "exec const {}: {}\n    ensures {}\n{{ {} }}\n",
                        c.ident,
                        c.ty.to_token_stream(),
                        ens,
                        c.expr.to_token_stream()
                    )),
                    _ => None,
                };
                let mut txt = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![item] });
                if let Some(x) = exec {
                    txt = x;
                }
                for (a, b) in &i.subst {
                    txt = txt.replace(a.as_str(), b.as_str());
                }
                out.push_str(&i.attr);
                out.push('\n');
                out.push_str(&txt);
                if unit.opts.iter().any(|o| o == "default") {
                    out.push_str(&default.unwrap_or_default());
                }
            }
            Entry::Fn(f) => {
                let src = &sources[&f.file];
                let found = match &f.mac {
                    Some(sig) => macro_fn(sig, &macros),
                    None => src.find_fn(&f.path, f.tr.as_deref()).or_else(|| derive::find(repo, src, &f.path)),
                };
                let found = match found {
                    Some(x) => x,
                    None => fail(&format!("function {} not found in {}", f.path.join("::"), f.file)),
                };
                let orig = format!("{} {}", found.sig.to_token_stream(), found.block.to_token_stream());
                let emitted = rewrite::emit_fn(f, found, src, &macros, &unit, &contracted, canary);
                let emitted = match emitted {
                    Ok(x) => x,
                    Err(m) => fail(&format!("{}: {}", f.path.join("::"), m)),
                };
                if emitted.canary {
                    canary_count += 1;
                }
                // auto-include constants
                let mut up = Uppers { names: BTreeSet::new() };
                up.visit_file(&emitted.file);
                let mut queue: Vec<String> = up.names.into_iter().collect();
                while let Some(n) = queue.pop() {
                    if known_items.contains(&n) || auto_done.contains(&n) {
                        continue;
                    }
                    let found = src.find_item(&n).or_else(|| {
                        n.split_once("__").and_then(|_| None)
                    });
                    if let Some(mut it) = found {
                        auto_done.insert(n.clone());
                        let mut rw = rewrite::Rewriter::new(&macros, &unit, None);
                        rw.visit_item_mut(&mut it);
                        let mut up = Uppers { names: BTreeSet::new() };
                        up.visit_item(&it);
                        queue.extend(up.names);
                        auto_consts.push_str(&prettyplease::unparse(&syn::File {
                            shebang: None,
                            attrs: vec![],
                            items: vec![it],
                        }));
                    }
                }
                let mut inf = String::new();
                let _ = write!(
                    inf,
                    "{{\"fn\":{},\"file\":{},\"hash\":\"{}\",\"external\":{},\"loops\":{},\"skeleton\":{},\"rewrites\":[{}],\"inlined\":[{}]}}",
                    json_str(&f.path.join("::")),
                    json_str(&f.file),
                    fnv(&orig),
                    !f.proved_in.is_empty(),
                    emitted.loops,
                    json_str(&emitted.skeleton),
                    emitted.rewrites.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
                    emitted.inlined.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
                );
                infos.push(inf);
                let _ = write!(out, "// @@fn {}\n", f.path.join("::"));
                out.push_str(&emitted.text);
                out.push_str("// @@endfn\n");
            }
        }
    }
    out.push_str("// automatically included constants\n");
    out.push_str(&auto_consts);
    out.push_str("} // verus!\nfn main() {}\n");
    if let Err(e) = std::fs::write(&args[3], &out) {
        eprintln!("write: {}", e);
        std::process::exit(2);
    }
    let js = format!(
        "{{\"functions\":[{}],\"auto_consts\":[{}],\"canaries\":{}}}\n",
        infos.join(",\n"),
        auto_done.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        canary_count
    );
    let _ = std::fs::write(format!("{}.json", args[3]), js);
}

/// `name(a: T, b: U) -> R` as a function with the body `{ name!(a, b) }`; the hash of the
/// macro's definition stands in the unit's record through its expansion.
fn macro_fn(sig: &str, macros: &rewrite::Macros) -> Option<Found> {
    let name = sig.split('(').next()?.trim();
    macros.get(name)?;
    let f: syn::ItemFn = syn::parse_str(&format!("fn {} {{ }}", sig)).ok()?;
    let args: Vec<String> = f
        .sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            syn::FnArg::Typed(t) => Some(t.pat.to_token_stream().to_string()),
            _ => None,
        })
        .collect();
    let block: syn::Block = syn::parse_str(&format!("{{ {}!({}) }}", name, args.join(", "))).ok()?;
    Some(Found { sig: f.sig, block, generics: syn::Generics::default(), self_ty: None })
}

pub fn assoc_to_item(ty: &str, c: &syn::ImplItemConst) -> syn::Item {
    let id = syn::Ident::new(&format!("{}__{}", ty, c.ident), proc_macro2::Span::call_site());
    let t = &c.ty;
    let e = &c.expr;
    syn::parse_quote!(const #id: #t = #e;)
}

/// `const X: &[T] = &[a, b]` is emitted as the array it refers to.
pub fn slice_const(item: &mut syn::Item) {
    if let syn::Item::Const(c) = item {
        let arr = match (&*c.ty, &*c.expr) {
            (syn::Type::Reference(t), syn::Expr::Reference(e)) => match (&*t.elem, &*e.expr) {
                (syn::Type::Slice(s), syn::Expr::Array(a)) => Some(((*s.elem).clone(), a.clone())),
                _ => None,
            },
            _ => None,
        };
        if let Some((t, a)) = arr {
            let n = syn::LitInt::new(&a.elems.len().to_string(), proc_macro2::Span::call_site());
            *c.ty = syn::parse_quote!([#t; #n]);
            *c.expr = syn::Expr::Array(a);
        }
    }
}

/// `const X: [Option<&'static [u8]>; N] = [None, Some(&[1, 2]), ...]`: Verus cannot use
/// such a literal in specifications, so it becomes an `exec const` whose contents are
/// restated (and proved) with `kx_opt_code` (see units/codec.vx).
pub fn opt_bytes_const(item: &syn::Item) -> Option<String> {
    let c = match item {
        syn::Item::Const(c) => c,
        _ => return None,
    };
    let a = match &*c.ty {
        syn::Type::Array(a) => a,
        _ => return None,
    };
    let plain = match a.elem.to_token_stream().to_string().replace(' ', "").as_str() {
        "Option<&'static[u8]>" => false,
        "&'static[u8]" => true,
        _ => return None,
    };
    let arr = match &*c.expr {
        syn::Expr::Array(x) => x,
        _ => return None,
    };
    let mut groups: Vec<String> = Vec::new();
    for (i, e) in arr.elems.iter().enumerate() {
        let code: i64 = match e {
            syn::Expr::Path(p) if p.path.is_ident("None") => continue,
            syn::Expr::Call(_) | syn::Expr::Reference(_) => {
                let mut code = 0i64;
                let arg = match e {
                    syn::Expr::Call(call) => call.args.first()?,
                    e => e,
                };
                let inner = match arg {
                    syn::Expr::Reference(r) => match &*r.expr {
                        syn::Expr::Array(b) => b,
                        _ => return None,
                    },
                    _ => return None,
                };
                for b in &inner.elems {
                    let v: i64 = match b {
                        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(n), .. }) => n.base10_parse().ok()?,
                        _ => return None,
                    };
                    code = code * 256 + v;
                }
                match inner.elems.len() {
                    1 => code,
                    2 => 0x10000 + code,
                    _ => return None,
                }
            }
            _ => return None,
        };
        groups.push(format!("if i == {} {{ {} }}", i, code));
    }
    let n = arr.elems.len();
    let chain = if groups.is_empty() { "-1".to_string() } else { format!("{} else {{ -1 }}", groups.join(" else ")) };
    let id = &c.ident;
    let code = if plain { format!("code_of((#[trigger] {id}@[i])@)") } else { format!("kx_opt_code(#[trigger] {id}@[i])") };
    Some(format!(
        "exec const {id}: {}\n    ensures {id}@.len() == {n}, forall|i: int| 0 <= i < {n} ==> {code} == ({chain})\n{{ {} }}\n",
        c.ty.to_token_stream(),
        c.expr.to_token_stream()
    ))
}
