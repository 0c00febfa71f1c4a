use crate::spec::*;
use crate::{Found, Source};
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Block, Expr, Stmt};

pub type Macros = BTreeMap<String, (Vec<String>, TokenStream)>;

/// Reads `macro_rules!` with one arm of `$x:expr` arguments.
pub fn load_macros(repo: &str) -> Macros {
    let mut out = Macros::new();
    for f in ["keramics-types/src/macros.rs", "keramics-core/src/macros.rs"] {
        let text = match std::fs::read_to_string(format!("{}/{}", repo, f)) {
            Ok(t) => t,
            Err(_) => continue,
        };
        let file = match syn::parse_file(&text) {
            Ok(t) => t,
            Err(_) => continue,
        };
        for it in file.items {
            if let syn::Item::Macro(m) = it {
                if let Some(id) = &m.ident {
                    if f.starts_with("keramics-core") && !id.to_string().starts_with("data_stream_") {
                        continue; // error macros: see expand()
                    }
                    let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    // (args) => { body } ;?
                    if toks.len() < 4 {
                        continue;
                    }
                    let (args, body) = match (&toks[0], &toks[3]) {
                        (TokenTree::Group(a), TokenTree::Group(b)) => (a.stream(), b.stream()),
                        _ => continue,
                    };
                    let rest = &toks[4..];
                    if rest.iter().any(|t| matches!(t, TokenTree::Group(_))) {
                        continue; // more than one arm
                    }
                    let mut names = vec![];
                    let at: Vec<TokenTree> = args.into_iter().collect();
                    let mut i = 0;
                    let mut ok = true;
                    while i < at.len() {
                        if let TokenTree::Punct(p) = &at[i] {
                            if p.as_char() == '$' {
                                if let TokenTree::Ident(n) = &at[i + 1] {
                                    names.push(n.to_string());
                                    i += 4;
                                    continue;
                                }
                            }
                            if p.as_char() == ',' {
                                i += 1;
                                continue;
                            }
                        }
                        ok = false;
                        break;
                    }
                    if ok {
                        // Macro hygiene: the macro's own variables are not those of its arguments.
                        let own: BTreeSet<String> = if f.starts_with("keramics-core") { ["data_stream", "error", "size", "offset", "read_count"].iter().map(|x| x.to_string()).collect() } else { BTreeSet::new() };
                        let body = hygiene(body, &own);
                        out.insert(id.to_string(), (names, body));
                    }
                }
            }
        }
    }
    out
}

/// Renames the variables a macro binds itself, and drops a trailing semicolon.
fn hygiene(body: TokenStream, own: &BTreeSet<String>) -> TokenStream {
    let mut toks: Vec<TokenTree> = body.into_iter().collect();
    if !own.is_empty() {
        if let Some(TokenTree::Punct(p)) = toks.last() {
            if p.as_char() == ';' {
                toks.pop();
            }
        }
    }
    let mut out = TokenStream::new();
    let mut dollar = false;
    for t in toks {
        let t2 = match &t {
            TokenTree::Ident(x) if !dollar && own.contains(&x.to_string()) => {
                TokenTree::Ident(proc_macro2::Ident::new(&format!("kxm_{}", x), x.span()))
            }
            TokenTree::Ident(x) if dollar && x == "crate" => TokenTree::Ident(x.clone()),
            TokenTree::Group(g) => {
                let mut inner: Vec<TokenTree> = hygiene_in(g.stream(), own);
                TokenTree::Group(Group::new(g.delimiter(), inner.drain(..).collect()))
            }
            t => t.clone(),
        };
        dollar = matches!(&t, TokenTree::Punct(p) if p.as_char() == '$');
        out.extend(std::iter::once(t2));
    }
    out
}
fn hygiene_in(body: TokenStream, own: &BTreeSet<String>) -> Vec<TokenTree> {
    let mut keep = body;
    let last = keep.clone().into_iter().last();
    let semi = matches!(&last, Some(TokenTree::Punct(p)) if p.as_char() == ';');
    keep = hygiene(keep, own);
    let mut v: Vec<TokenTree> = keep.into_iter().collect();
    if semi && !own.is_empty() {
        v.push(last.unwrap());
    }
    v
}

fn substitute(body: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
    let toks: Vec<TokenTree> = body.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < toks.len() => {
                if let TokenTree::Ident(n) = &toks[i + 1] {
                    if n == "crate" {
                        out.extend(std::iter::once(toks[i + 1].clone()));
                        i += 2;
                        continue;
                    }
                    if let Some(r) = map.get(&n.to_string()) {
                        out.extend(r.clone());
                        i += 2;
                        continue;
                    }
                }
                out.extend(std::iter::once(toks[i].clone()));
            }
            TokenTree::Group(g) => {
                let s = substitute(g.stream(), map);
                let g2 = Group::new(g.delimiter(), s);
                out.extend(std::iter::once(TokenTree::Group(g2)));
            }
            t => out.extend(std::iter::once(t.clone())),
        }
        i += 1;
    }
    out
}

fn split_args(ts: &TokenStream) -> Vec<Expr> {
    struct A(syn::punctuated::Punctuated<Expr, syn::Token![,]>);
    impl syn::parse::Parse for A {
        fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
            Ok(A(syn::punctuated::Punctuated::parse_terminated(i)?))
        }
    }
    match syn::parse2::<A>(ts.clone()) {
        Ok(a) => a.0.into_iter().collect(),
        Err(_) => vec![],
    }
}

/// `a[x..y]`
fn range_index(e: &Expr) -> bool {
    match e {
        Expr::Index(i) => matches!(&*i.index, Expr::Range(_)),
        Expr::Paren(p) => range_index(&p.expr),
        _ => false,
    }
}

pub struct Rewriter<'a> {
    pub macros: &'a Macros,
    pub unit: &'a Unit,
    pub self_ty: Option<String>,
    pub log: BTreeSet<String>,
}

impl<'a> Rewriter<'a> {
    pub fn new(macros: &'a Macros, unit: &'a Unit, self_ty: Option<String>) -> Self {
        Self { macros, unit, self_ty, log: BTreeSet::new() }
    }

    fn is_debug_cond(e: &Expr) -> bool {
        if let Expr::Binary(b) = e {
            if matches!(b.op, syn::BinOp::And(_)) {
                return Self::is_debug_cond(&b.left);
            }
        }
        let s = e.to_token_stream().to_string().replace(' ', "");
        s == "mediator.debug_output" || s == "self.mediator.debug_output" || s.ends_with("mediator.debug_output") && !s.contains("&&") && !s.contains("||") && !s.starts_with('!')
    }

    /// `"{:04}-{:02x}", a, b` as a block of append calls with specified meaning.
    fn format_expr(&mut self, toks: &TokenStream) -> Option<Expr> {
        let args = split_args(toks);
        let lit = match args.first()? {
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Str(s) => s.value(),
                _ => return None,
            },
            _ => return None,
        };
        let mut stmts: Vec<Stmt> = vec![parse_quote!(let mut kx_fmt = kx_string_new();)];
        let mut next = 1usize;
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            if (c == '{' || c == '}') && i + 1 < cs.len() && cs[i + 1] == c {
                stmts.push(parse_quote!(kx_ch(&mut kx_fmt, #c);));
                i += 2;
                continue;
            }
            if c != '{' {
                stmts.push(parse_quote!(kx_ch(&mut kx_fmt, #c);));
                i += 1;
                continue;
            }
            let j = (i..cs.len()).find(|k| cs[*k] == '}')?;
            let inner: String = cs[i + 1..j].iter().collect();
            i = j + 1;
            let (name, spec) = match inner.split_once(':') {
                Some((a, b)) => (a.to_string(), b.to_string()),
                None => (inner.clone(), String::new()),
            };
            let arg: Expr = if name.is_empty() {
                let a = args.get(next)?.clone();
                next += 1;
                a
            } else if let Ok(k) = name.parse::<usize>() {
                args.get(k + 1)?.clone()
            } else {
                syn::parse_str(&name).ok()?
            };
            if spec.is_empty() {
                stmts.push(parse_quote!(KxShow::kx_show(&(#arg), &mut kx_fmt);));
                continue;
            }
            let (digits, kind) = match spec.strip_suffix('x') {
                Some(d) => (d.to_string(), "kx_hex"),
                None => match spec.strip_suffix('X') {
                    Some(d) => (d.to_string(), "kx_hex_upper"),
                    None => (spec.clone(), "kx_dec"),
                },
            };
            let w: usize = if digits.is_empty() { 0 } else {
                if !digits.starts_with('0') || digits.len() < 2 {
                    return None;
                }
                digits.parse().ok()?
            };
            let f = id(kind.to_string());
            stmts.push(parse_quote!(KxInt::#f(&(#arg), &mut kx_fmt, #w);));
        }
        if next != args.len() && lit.contains("{}") {
            // named or surplus arguments: leave to the caller
            return None;
        }
        stmts.push(Stmt::Expr(parse_quote!(kx_fmt), None));
        let b: Block = parse_quote!({ #(#stmts)* });
        Some(parse_quote!(#b))
    }

    fn expand(&mut self, mac: &syn::Macro) -> Option<Expr> {
        let name = mac.path.segments.last()?.ident.to_string();
        if let Some((names, body)) = self.macros.get(&name) {
            let args = split_args(&mac.tokens);
            if args.len() != names.len() {
                return None;
            }
            let mut map = BTreeMap::new();
            for (n, a) in names.iter().zip(args.iter()) {
                let simple = matches!(a, Expr::Path(_) | Expr::Lit(_) | Expr::Field(_) | Expr::Paren(_));
                map.insert(n.clone(), if simple { a.to_token_stream() } else { quote!((#a)) });
            }
            let b = substitute(body.clone(), &map);
            self.log.insert(format!("macro {}! expanded from its macro_rules definition", name));
            let e: Expr = syn::parse2(b).ok()?;
            return Some(e);
        }
        match name.as_str() {
            "error_trace_new" | "error_trace_new_with_error" => {
                self.log.insert("error message text dropped (ErrorTrace carries no text)".into());
                Some(parse_quote!(ErrorTrace::kx_new()))
            }
            "error_trace_add_frame" => {
                self.log.insert("error message text dropped (ErrorTrace carries no text)".into());
                Some(parse_quote!(()))
            }
            "format" if self.unit.opts.iter().any(|o| o == "format") => {
                let e = self.format_expr(&mac.tokens)?;
                self.log.insert("format!() split into the equivalent specified append calls".into());
                Some(e)
            }
            "write" if self.unit.opts.iter().any(|o| o == "format") => {
                // write!(f, "...", args)
                let toks: Vec<TokenTree> = mac.tokens.clone().into_iter().collect();
                let comma = toks.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ','))?;
                let dst: TokenStream = toks[..comma].iter().cloned().collect();
                let rest: TokenStream = toks[comma + 1..].iter().cloned().collect();
                let e = self.format_expr(&rest)?;
                self.log.insert("write!() split into the equivalent specified append calls".into());
                Some(parse_quote!(kx_write(#dst, #e)))
            }
            "format" => {
                self.log.insert("format!() text replaced by an unspecified String".into());
                Some(parse_quote!(kx_string()))
            }
            "panic" | "todo" | "unreachable" | "unimplemented" => {
                self.log.insert("panic macro becomes a call that must be unreachable".into());
                Some(parse_quote!(kx_panic()))
            }
            _ => None,
        }
    }
}

/// `X.iter().map(|v| v.to_le_bytes()).flatten().collect()` (or flat_map) gives ("le", X).
fn flatten_words(e: &Expr) -> Option<(String, Expr)> {
    let m = match e { Expr::MethodCall(m) if m.method == "collect" => m, _ => return None };
    let inner = match &*m.receiver {
        Expr::MethodCall(f) if f.method == "flatten" => match &*f.receiver {
            Expr::MethodCall(q) if q.method == "map" => q,
            _ => return None,
        },
        Expr::MethodCall(f) if f.method == "flat_map" => f,
        _ => return None,
    };
    let it = match &*inner.receiver { Expr::MethodCall(i) if i.method == "iter" => i, _ => return None };
    let c = match inner.args.first() { Some(Expr::Closure(c)) if c.inputs.len() == 1 => c, _ => return None };
    let v = c.inputs[0].to_token_stream().to_string();
    let b = c.body.to_token_stream().to_string().replace(' ', "");
    for w in ["le", "be"] {
        if b == format!("{}.to_{}_bytes()", v, w) {
            return Some((w.to_string(), (*it.receiver).clone()));
        }
    }
    None
}

/// Iterator adaptor chains over `X.iter()` written as the loop they stand for:
/// `X.iter().map(|p| e).collect()` and `X.iter().position(|p| e)`.
fn chain_loop(e: &Expr) -> Option<(Expr, &'static str)> {
    let m = match e { Expr::MethodCall(m) => m, _ => return None };
    let closure = |m: &syn::ExprMethodCall| -> Option<(syn::Pat, Expr)> {
        match m.args.first() {
            Some(Expr::Closure(c)) if m.args.len() == 1 && c.inputs.len() == 1 => {
                let mut h = HasReturn(false);
                h.visit_expr(&c.body);
                if h.0 { return None; }
                Some((c.inputs[0].clone(), (*c.body).clone()))
            }
            _ => None,
        }
    };
    let iter = |e: &Expr| -> Option<Expr> {
        match e {
            Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty() => Some((*i.receiver).clone()),
            _ => None,
        }
    };
    if m.method == "collect" {
        let q = match &*m.receiver { Expr::MethodCall(q) if q.method == "map" => q, _ => return None };
        let (p, b) = closure(q)?;
        // `(0..n).map(|_| None).collect()`: a vector of n times None
        let mut range: &Expr = &q.receiver;
        if let Expr::Paren(x) = range { range = &x.expr; }
        if let Expr::Range(rg) = range {
            let zero = rg.start.as_ref().map_or(false, |s| s.to_token_stream().to_string() == "0");
            let none = b.to_token_stream().to_string() == "None" && p.to_token_stream().to_string() == "_";
            if let (true, true, syn::RangeLimits::HalfOpen(_), Some(n)) = (zero, none, &rg.limits, &rg.end) {
                return Some((parse_quote!(kx_nones((#n) as u64)), "vector of n times None routed to a verified function"));
            }
            return None;
        }
        let x = iter(&q.receiver)?;
        let ty: syn::Type = match &m.turbofish {
            Some(t) => match t.args.first() { Some(syn::GenericArgument::Type(t)) => t.clone(), _ => return None },
            None => parse_quote!(Vec<_>),
        };
        if type_name(&ty) == "String" {
            return Some((parse_quote!({ let mut kx_v: String = kx_string_new(); for #p in #x.iter() { kx_ch(&mut kx_v, #b); } kx_v }), "map and collect into a text"));
        }
        return Some((parse_quote!({ let mut kx_v: #ty = Vec::new(); for #p in #x.iter() { kx_v.push(#b); } kx_v }), "map and collect over an iterator"));
    }
    if m.method == "position" {
        let (p, b) = closure(m)?;
        let x = iter(&m.receiver)?;
        return Some((parse_quote!({ let mut kx_p: Option<usize> = None; for kx_i in 0..#x.len() { let #p = &#x[kx_i]; if #b { kx_p = Some(kx_i); break; } } kx_p }), "position over an iterator"));
    }
    if m.method == "max_by_key" {
        let (p, b) = closure(m)?;
        let x = iter(&m.receiver)?;
        return Some((parse_quote!({ let mut kx_m: Option<usize> = None; for kx_i in 0..#x.len() { let kx_keep: bool = match kx_m { Some(kx_j) => { let kx_a = { let #p = &#x[kx_j]; #b }; let kx_c = { let #p = &#x[kx_i]; #b }; kx_a > kx_c } None => false }; if !kx_keep { kx_m = Some(kx_i); } } match kx_m { Some(kx_j) => Some(&#x[kx_j]), None => None } }), "max_by_key over an iterator"));
    }
    if m.method == "any" || m.method == "all" {
        let (p, b) = closure(m)?;
        let x = iter(&m.receiver)?;
        let (any, b): (bool, Expr) = if m.method == "any" { (true, b) } else { (false, parse_quote!(!(#b))) };
        let what = if any { "any over an iterator" } else { "all over an iterator" };
        return Some((parse_quote!({ let mut kx_b: bool = !#any; for kx_i in 0..#x.len() { let #p = &#x[kx_i]; if #b { kx_b = #any; break; } } kx_b }), what));
    }
    None
}

/// `match x { &A | &B => e, .., _ => f }` for array constants, and
/// `match s { "a" => e, .., _ => f }` for texts
fn const_match(e: &Expr) -> Option<(Expr, &'static str)> {
    let m = match e { Expr::Match(m) => m, _ => return None };
    let (last, arms) = m.arms.split_last()?;
    if arms.is_empty() || last.guard.is_some() || !matches!(last.pat, syn::Pat::Wild(_)) {
        return None;
    }
    let mut what = "";
    let mut conds: Vec<(Vec<Expr>, &Expr)> = vec![];
    for a in arms {
        if a.guard.is_some() {
            return None;
        }
        let ps: Vec<&syn::Pat> = match &a.pat { syn::Pat::Or(o) => o.cases.iter().collect(), p => vec![p] };
        let mut cs: Vec<Expr> = vec![];
        for p in ps {
            let (w, c): (&'static str, Expr) = match p {
                syn::Pat::Reference(r) => match &*r.pat {
                    syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.ident.to_string().chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') => {
                        let i = &i.ident;
                        ("match on array constants", parse_quote!(kx_array_eq(kx_scrutinee, &#i)))
                    }
                    _ => return None,
                },
                syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => ("match on texts", parse_quote!(kx_str_eq(kx_scrutinee, #l))),
                _ => return None,
            };
            if what != "" && what != w {
                return None;
            }
            what = w;
            cs.push(c);
        }
        conds.push((cs, &a.body));
    }
    let x = &m.expr;
    let block = |b: &Expr| -> Expr { match b { Expr::Block(k) if k.label.is_none() => b.clone(), _ => parse_quote!({ #b }) } };
    let mut out: Expr = block(&last.body);
    for (cs, b) in conds.into_iter().rev() {
        let b = block(b);
        let c = cs.into_iter().reduce(|l, r| parse_quote!(#l || #r))?;
        out = parse_quote!(if #c #b else #out);
    }
    Some((parse_quote!({ let kx_scrutinee = #x; #out }), what))
}

/// `[x; 3]` as `[x, x, x]`
fn listed(e: &Expr) -> Expr {
    if let Expr::Repeat(r) = e {
        if let (Expr::Lit(x), Expr::Lit(n)) = (&*r.expr, &*r.len) {
            if let syn::Lit::Int(n) = &n.lit {
                if let Ok(n) = n.base10_parse::<usize>() {
                    if n <= 64 {
                        let xs = vec![x; n];
                        return parse_quote!([ #(#xs),* ]);
                    }
                }
            }
        }
    }
    e.clone()
}

fn is_str_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)))
}

fn type_name(t: &syn::Type) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
    fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) {
        *v = syn::Visibility::Inherited;
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for s in stmts {
            match &s {
                Stmt::Local(l) => {
                    let p = l.pat.to_token_stream().to_string();
                    let p0 = p.split(':').next().unwrap().trim().to_string();
                    let noop = match &l.init {
                        None => false,
                        Some(i) => match &*i.expr {
                            Expr::Lit(_) => true,
                            Expr::Tuple(t) => t.elems.is_empty(),
                            _ => false,
                        },
                    };
                    if noop && p0 == "_" {
                        continue;
                    }
                    if p0 == "mediator" {
                        self.log.insert("Mediator lookup and debug output blocks dropped".into());
                        continue;
                    }
                }
                Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && Self::is_debug_cond(&i.cond) => {
                    self.log.insert("Mediator lookup and debug output blocks dropped".into());
                    continue;
                }
                Stmt::Expr(Expr::MethodCall(m), _)
                    if m.receiver.to_token_stream().to_string().replace(' ', "").ends_with("mediator") =>
                {
                    self.log.insert("Mediator lookup and debug output blocks dropped".into());
                    continue;
                }
                Stmt::Macro(m) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if name == "error_trace_add_frame" || name == "println" || name == "eprintln" || name == "print" || name == "debug_assert" {
                        self.log.insert(format!("statement {}! dropped", name));
                        continue;
                    }
                    if let Some(e) = self.expand(&m.mac) {
                        b.stmts.push(Stmt::Expr(e, m.semi_token));
                        continue;
                    }
                }
                _ => {}
            }
            b.stmts.push(s);
        }
        syn::visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_struct_mut(&mut self, e: &mut syn::ExprStruct) {
        let fields = std::mem::take(&mut e.fields);
        for f in fields {
            if let syn::Member::Named(n) = &f.member {
                if self.unit.drop_fields.iter().any(|d| n == d) {
                    self.log.insert(format!("field {} dropped", n));
                    continue;
                }
            }
            e.fields.push(f);
        }
        syn::visit_mut::visit_expr_struct_mut(self, e);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Binary(b) = e {
            let is_str = self.unit.opts.iter().any(|o| o.starts_with("str "));
            if (range_index(&b.left) && range_index(&b.right)) || (!is_str && (range_index(&b.left) || range_index(&b.right))) {
                let (l, r) = (&b.left, &b.right);
                let x: Option<Expr> = match b.op {
                    syn::BinOp::Eq(_) => { let (l, r) = (listed(l), listed(r)); Some(parse_quote!(kx_slice_eq(&#l, &#r))) }
                    syn::BinOp::Ne(_) => { let (l, r) = (listed(l), listed(r)); Some(parse_quote!(!kx_slice_eq(&#l, &#r))) }
                    _ => None,
                };
                if let Some(x) = x {
                    self.log.insert("comparison of slices routed to specified function".to_string());
                    *e = x;
                }
            }
        }
        // @@opt eq .FIELD FN: == and != on a field of a type with its own PartialEq
        for o in self.unit.opts.iter() {
            let w: Vec<&str> = o.split_whitespace().collect();
            if w.len() != 3 || w[0] != "eq" { continue; }
            let mut x: Option<Expr> = None;
            if let Expr::Binary(b) = e {
                if let Expr::Field(f) = &*b.left {
                    if let syn::Member::Named(n) = &f.member {
                        if w[1] == format!(".{}", n) {
                            let g: syn::Path = syn::parse_str(w[2]).unwrap();
                            let (l, r) = (&b.left, &b.right);
                            x = match b.op {
                                syn::BinOp::Eq(_) => Some(parse_quote!(#g(&#l, &#r))),
                                syn::BinOp::Ne(_) => Some(parse_quote!(!#g(&#l, &#r))),
                                _ => None,
                            };
                        }
                    }
                }
            }
            if let Some(x) = x {
                self.log.insert("== of a type with its own PartialEq written as the call of that function".into());
                *e = x;
            }
        }
        if let Expr::Macro(m) = e {
            if let Some(x) = self.expand(&m.mac) {
                *e = x;
                // no parens needed around match in statement-expression position
            } else if let Some(args) = {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if n == "vec" { Some(()) } else { None }
            } {
                let _ = args;
                // vec![x; n] or vec![a, b]
                let toks = m.mac.tokens.clone();
                struct Rep(Expr, Expr);
                impl syn::parse::Parse for Rep {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let a = i.parse()?;
                        i.parse::<syn::Token![;]>()?;
                        let b = i.parse()?;
                        Ok(Rep(a, b))
                    }
                }
                if let Ok(Rep(mut a, mut n)) = syn::parse2::<Rep>(toks) {
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut n);
                    self.log.insert("vec![x; n] becomes vstd's specified vec_from_elem".into());
                    *e = parse_quote!(kx_vec_from_elem(#a, #n));
                    return;
                }
                return;
            }
        }
        if let Expr::Call(c) = e {
            // X::new(format!(..)) of an error type: the text is dropped, text slices in it stay
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f.ends_with("Error::new") && c.args.len() == 1 {
                if let Some(Expr::Macro(m)) = c.args.first() {
                    if m.mac.path.is_ident("format") {
                        let keep: Vec<Expr> = split_args(&m.mac.tokens)
                            .into_iter()
                            .skip(1)
                            .filter(|a| matches!(a, Expr::Reference(r) if matches!(&*r.expr, Expr::Index(_))))
                            .collect();
                        let func = &c.func;
                        self.log.insert("error message text dropped".into());
                        *e = parse_quote!({ #( let _ = #keep; )* #func(kx_string()) });
                    }
                }
            }
        }
        if let Some((what, base)) = flatten_words(e) {
            let f = id(format!("kx_flatten_{}", what));
            self.log.insert("words.iter().map(to_*_bytes).flatten().collect() routed to specified function".into());
            *e = parse_quote!(#f(&#base));
        }
        if let Some((x, what)) = const_match(e) {
            self.log.insert(format!("{} written as the equivalent comparisons", what));
            *e = x;
        }
        if let Some((x, what)) = chain_loop(e) {
            self.log.insert(format!("{} written as the equivalent loop", what));
            *e = x;
        }
        // text slices and comparisons with text literals
        let strs: Vec<String> = self.unit.opts.iter().filter_map(|o| o.strip_prefix("str ").map(|s| s.to_string())).collect();
        if !strs.is_empty() {
            let mut x: Option<Expr> = None;
            if let Expr::Reference(r) = e {
                if let Expr::Index(i) = &*r.expr {
                    let b = i.expr.to_token_stream().to_string();
                    if let (true, Expr::Range(rg)) = (strs.contains(&b), &*i.index) {
                        if let (Some(s), Some(t), syn::RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                            let base = &i.expr;
                            x = Some(parse_quote!(kx_str_slice(#base, #s, #t)));
                        }
                    }
                }
            }
            if let Expr::Binary(b) = e {
                if is_str_lit(&b.left) || is_str_lit(&b.right) {
                    let (l, r) = (&b.left, &b.right);
                    match b.op {
                        syn::BinOp::Eq(_) => x = Some(parse_quote!(kx_str_eq(#l, #r))),
                        syn::BinOp::Ne(_) => x = Some(parse_quote!(!kx_str_eq(#l, #r))),
                        _ => {}
                    }
                }
            }
            if let Some(x) = x {
                self.log.insert("text slicing and comparison routed to specified functions".into());
                *e = x;
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
        // <[u8; N]>::try_from(x).unwrap()
        let mut repl: Option<Expr> = None;
        if let Expr::MethodCall(m) = e {
            if m.method == "unwrap" {
                if let Expr::Call(c) = &*m.receiver {
                    if let Expr::Path(p) = &*c.func {
                        if let Some(q) = &p.qself {
                            let t = type_name(&q.ty);
                            if t.starts_with("[u8;") && p.path.segments.last().unwrap().ident == "try_from" {
                                let n = t.trim_start_matches("[u8;").trim_end_matches(']').to_string();
                                let f = syn::Ident::new(&format!("kx_array_u8_{}", n), proc_macro2::Span::call_site());
                                let a = &c.args[0];
                                repl = Some(parse_quote!(#f(#a)));
                            }
                        }
                    }
                }
            }
            if repl.is_none() {
                // also for the methods of one type only: Type.method
                let of_type = self.self_ty.as_ref().and_then(|t| self.unit.mapmethods.get(&format!("{}.{}", t, m.method)));
                if let Some(f) = of_type.or_else(|| self.unit.mapmethods.get(&m.method.to_string())) {
                    if let Some(g) = f.strip_prefix('.') {
                        // the method of a trait of the unit
                        let mut m2 = m.clone();
                        m2.method = syn::Ident::new(g, m.method.span());
                        self.log.insert(format!("method .{}() routed to specified method", m.method));
                        *e = Expr::MethodCall(m2);
                        return;
                    }
                    let f: syn::Path = syn::parse_str(f).unwrap();
                    let mut r = (*m.receiver).clone();
                    if range_index(&r) {
                        // the autoref of a method call on a place of unsized type
                        r = parse_quote!(&#r);
                    }
                    let a = &m.args;
                    self.log.insert(format!("method .{}() routed to specified function", m.method));
                    repl = Some(parse_quote!(#f(#r, #a)));
                }
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() == 2 && segs[0].starts_with(|c: char| c.is_lowercase()) && (segs[1].starts_with("from_le_bytes") || segs[1].starts_with("from_be_bytes")) {
                    let f = syn::Ident::new(&format!("kx_{}_{}", segs[0], segs[1]), proc_macro2::Span::call_site());
                    let a = &c.args;
                    repl = Some(parse_quote!(#f(#a)));
                } else {
                    let full = segs.join("::");
                    if let Some(f) = self.unit.mappaths.get(&full) {
                        let f: syn::Path = syn::parse_str(f).unwrap();
                        let a = &c.args;
                        repl = Some(parse_quote!(#f(#a)));
                    }
                }
            }
        }
        if let Some(r) = repl {
            *e = r;
        }
    }
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        // `Some(&x) => e` as `Some(x) => { let x = *x; e }`
        struct R(Vec<syn::Ident>);
        impl VisitMut for R {
            fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
                if let syn::Pat::Reference(r) = p {
                    if let syn::Pat::Ident(i) = &*r.pat {
                        if i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() {
                            self.0.push(i.ident.clone());
                            *p = (*r.pat).clone();
                            return;
                        }
                    }
                }
                syn::visit_mut::visit_pat_mut(self, p);
            }
        }
        if a.guard.is_none() {
            let mut r = R(vec![]);
            r.visit_pat_mut(&mut a.pat);
            if !r.0.is_empty() {
                let names = r.0;
                let body = &a.body;
                self.log.insert("reference patterns written as dereferences".into());
                a.body = Box::new(parse_quote!({ #( let #names = *#names; )* #body }));
                a.comma = None;
            }
        }
        syn::visit_mut::visit_arm_mut(self, a);
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        // a trait object, checked at the one type the unit's callers pass
        if let syn::Type::TraitObject(o) = t {
            if let Some(syn::TypeParamBound::Trait(b)) = o.bounds.first() {
                let name = b.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                let to = self.unit.opts.iter().find_map(|o| o.strip_prefix(&format!("dyn {} ", name)).map(|s| s.to_string()));
                if let Some(to) = to {
                    self.log.insert(format!("dyn {} taken as {}", name, to));
                    *t = syn::parse_str(&to).unwrap();
                    return;
                }
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, p);
        if p.segments.len() > 1 {
            let first = p.segments[0].ident.to_string();
            let n = p.segments.len();
            if first == "crate" || first == "super" || first == "self" || first.starts_with("keramics_") {
                let prev = p.segments[n - 2].ident.to_string();
                let keep = if prev.chars().next().unwrap().is_ascii_uppercase() { 2 } else { 1 };
                let segs: Vec<_> = p.segments.iter().skip(n - keep).cloned().collect();
                p.leading_colon = None;
                p.segments = segs.into_iter().collect();
            }
        }
        if p.segments.len() == 2 && p.segments[0].ident == "Self" {
            let nm = p.segments[1].ident.to_string();
            if nm.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) && nm.len() > 1 {
                if let Some(t) = &self.self_ty {
                    let id = syn::Ident::new(&format!("{}__{}", t, nm), proc_macro2::Span::call_site());
                    *p = parse_quote!(#id);
                }
            }
        }
    }
}

/// The function `default` that `#[derive(Default)]` gives a struct of integers, booleans,
/// vectors and texts.
pub fn derived_default(item: &syn::Item, drop: &[String]) -> Option<String> {
    let s = match item { syn::Item::Struct(s) => s, _ => return None };
    let derives = s.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Default"));
    let n = match &s.fields { syn::Fields::Named(n) if derives => n, _ => return None };
    let (mut body, mut ens) = (String::new(), String::new());
    for f in &n.named {
        let name = f.ident.as_ref().unwrap().to_string();
        if drop.contains(&name) {
            continue;
        }
        let t = f.ty.to_token_stream().to_string().replace(' ', "");
        let (v, e) = match t.as_str() {
            "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" => ("0", format!("r.{} == 0", name)),
            "bool" => ("false", format!("!r.{}", name)),
            "String" => ("kx_string_new()", format!("r.{}@.len() == 0", name)),
            t if t.starts_with("Vec<") => ("Vec::new()", format!("r.{}@.len() == 0", name)),
            t if t.starts_with("Option<") => ("None", format!("r.{} is None", name)),
            _ => return None,
        };
        body.push_str(&format!("{}: {}, ", name, v));
        ens.push_str(&format!("{}, ", e));
    }
    Some(format!("impl {} {{\n    fn default() -> (r: Self) ensures {}\n    {{ Self {{ {} }} }}\n}}\n", s.ident, ens, body))
}

pub fn drop_fields(item: &mut syn::Item, drop: &[String]) {
    if let syn::Item::Struct(s) = item {
        if let syn::Fields::Named(n) = &mut s.fields {
            let f = std::mem::take(&mut n.named);
            n.named = f
                .into_iter()
                .filter(|x| !drop.iter().any(|d| x.ident.as_ref().map(|i| i == d).unwrap_or(false)))
                .collect();
        }
    }
}

// ---------------------------------------------------------------- inlining

struct HasReturn(bool);
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}
fn has_return(b: &Block) -> bool {
    let mut h = HasReturn(false);
    h.visit_block(b);
    h.0
}

fn ends_with_return(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => match &i.else_branch {
            Some((_, e)) => ends_with_return(&i.then_branch) && match &**e {
                Expr::Block(b) => ends_with_return(&b.block),
                Expr::If(_) => {
                    let bb: Block = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr((**e).clone(), None)] };
                    ends_with_return(&bb)
                }
                _ => false,
            },
            None => false,
        },
        _ => false,
    }
}

/// Turns early returns into tail expressions where the shape allows it.
fn tailify(b: &Block) -> Option<Block> {
    let mut out: Vec<Stmt> = vec![];
    let n = b.stmts.len();
    for (i, s) in b.stmts.iter().enumerate() {
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let e: Expr = match &r.expr {
                    Some(e) => (**e).clone(),
                    None => parse_quote!(()),
                };
                out.push(Stmt::Expr(e, None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Stmt::Expr(Expr::If(f), semi) if has_return(&f.then_branch) || f.else_branch.is_some() => {
                let rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                if f.else_branch.is_none() && ends_with_return(&f.then_branch) {
                    let t = tailify(&f.then_branch)?;
                    let r = tailify(&rest)?;
                    let c = &f.cond;
                    let e: Expr = parse_quote!(if #c #t else #r);
                    out.push(Stmt::Expr(e, None));
                    return Some(Block { brace_token: b.brace_token, stmts: out });
                }
                if i + 1 == n {
                    if let Some((_, el)) = &f.else_branch {
                        let t = tailify(&f.then_branch)?;
                        let eb: Block = match &**el {
                            Expr::Block(x) => x.block.clone(),
                            x => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(x.clone(), None)] },
                        };
                        let r = tailify(&eb)?;
                        let c = &f.cond;
                        let e: Expr = parse_quote!(if #c #t else #r);
                        out.push(Stmt::Expr(e, *semi));
                        return Some(Block { brace_token: b.brace_token, stmts: out });
                    }
                }
                out.push(s.clone());
            }
            _ => out.push(s.clone()),
        }
    }
    Some(Block { brace_token: b.brace_token, stmts: out })
}

struct Inliner<'a> {
    src: &'a Source,
    self_ty: Option<String>,
    contracted: &'a BTreeSet<String>,
    known: BTreeSet<String>,
    macros: &'a Macros,
    unit: &'a Unit,
    log: BTreeSet<String>,
    inlined: Vec<String>,
    depth: usize,
    counter: usize,
}

impl<'a> Inliner<'a> {
    fn try_inline(&mut self, path: Vec<String>, args: Vec<Expr>, is_method: bool) -> Option<Expr> {
        let full = path.join("::");
        if self.contracted.contains(&full) || self.known.contains(path.last().unwrap()) {
            return None;
        }
        if self.depth > 6 {
            return None;
        }
        let found = self.src.find_fn(&path, None)?;
        let mut block = found.block.clone();
        let mut rw = Rewriter::new(self.macros, self.unit, self.self_ty.clone());
        rw.visit_block_mut(&mut block);
        self.log.extend(rw.log);
        if has_return(&block) {
            block = tailify(&block)?;
            if has_return(&block) {
                return None;
            }
        }
        let mut stmts: Vec<Stmt> = vec![];
        let mut lets: Vec<Stmt> = vec![];
        let mut ai = 0;
        for inp in &found.sig.inputs {
            match inp {
                syn::FnArg::Receiver(_) => {
                    if !is_method {
                        return None;
                    }
                }
                syn::FnArg::Typed(t) => {
                    let a = args.get(ai)?;
                    let tmp = syn::Ident::new(&format!("kxa{}_{}", self.counter, ai), proc_macro2::Span::call_site());
                    let pat = &t.pat;
                    let mut ty = (*t.ty).clone();
                    rw = Rewriter::new(self.macros, self.unit, self.self_ty.clone());
                    rw.visit_type_mut(&mut ty);
                    stmts.push(parse_quote!(let #tmp = #a;));
                    lets.push(parse_quote!(let #pat: #ty = #tmp;));
                    ai += 1;
                }
            }
        }
        self.counter += 1;
        self.inlined.push(full);
        stmts.extend(lets);
        self.depth += 1;
        self.visit_block_mut(&mut block);
        self.depth -= 1;
        stmts.extend(block.stmts);
        let b = Block { brace_token: Default::default(), stmts };
        Some(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b }))
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let r = match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    if segs.len() == 1 && segs[0].chars().next().unwrap().is_ascii_lowercase() {
                        self.try_inline(segs, args, false)
                    } else if segs.len() == 2 && segs[0] == "Self" && self.self_ty.is_some() {
                        let t = self.self_ty.clone().unwrap();
                        self.try_inline(vec![t, segs[1].clone()], args, false)
                    } else if segs.len() == 2 {
                        self.try_inline(segs, args, false)
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Expr::MethodCall(m) => {
                let is_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                if is_self && self.self_ty.is_some() {
                    let t = self.self_ty.clone().unwrap();
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    self.try_inline(vec![t, m.method.to_string()], args, true)
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(x) = r {
            *e = x;
        }
    }
}

// ---------------------------------------------------------------- loops

struct Loops<'a> {
    spec: &'a FnSpec,
    n: usize,
    depth: usize,
    skeleton: String,
    marks: &'a mut Marks,
    unsupported: Option<String>,
    breaks: bool,
    maps: bool,
}

#[derive(Default)]
pub struct Marks {
    pub texts: Vec<(char, String)>,
}
impl Marks {
    fn add(&mut self, kind: char, t: &str) -> Stmt {
        let id = self.texts.len();
        self.texts.push((kind, t.to_string()));
        let name = syn::Ident::new(if kind == 'c' { "__kxc" } else { "__kxm" }, proc_macro2::Span::call_site());
        let lit = proc_macro2::Literal::usize_unsuffixed(id);
        parse_quote!(#name!(#lit);)
    }
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

fn id(s: String) -> syn::Ident {
    syn::Ident::new(&s, proc_macro2::Span::call_site())
}

impl<'a> Loops<'a> {
    fn hint(&mut self, anchor: &str) -> Vec<Stmt> {
        let mut v = vec![];
        for (a, t) in &self.spec.hints {
            if a == anchor {
                v.push(self.marks.add('m', t));
            }
        }
        v
    }

    fn body(&mut self, n: usize, body: &Block, prefix: Vec<Stmt>, auto_inv: &str, auto_dec: &str, kind: &str) -> Block {
        let mut stmts: Vec<Stmt> = vec![];
        let mut text = String::new();
        let given = self.spec.loops.get(&n).cloned().unwrap_or_default();
        let opts = self.spec.loop_opts.get(&n).cloned().unwrap_or_default();
        let mut inv = String::new();
        let mut dec = String::new();
        let mut rest = String::new();
        let mut exb = String::new();
        // given text: sections beginning with keywords at line start
        let mut cur = 0;
        for l in given.lines() {
            let t = l.trim_start();
            if t.starts_with("invariant_except_break") {
                cur = 3;
            } else if t.starts_with("ensures") {
                cur = 2;
            } else if t.starts_with("invariant") {
                cur = 0;
                inv.push_str(t.trim_start_matches("invariant"));
                inv.push('\n');
                continue;
            } else if t.starts_with("decreases") {
                cur = 1;
            }
            match cur {
                0 => {
                    inv.push_str(l);
                    inv.push('\n');
                }
                1 => {
                    dec.push_str(l);
                    dec.push('\n');
                }
                3 => {
                    exb.push_str(l);
                    exb.push('\n');
                }
                _ => {
                    rest.push_str(l);
                    rest.push('\n');
                }
            }
        }
        let noauto = opts.iter().any(|o| o == "noauto");
        let mut all = String::new();
        text.push_str(&exb);
        if !noauto && !auto_inv.is_empty() {
            all.push_str(auto_inv);
            all.push_str(",\n");
        }
        all.push_str(&inv);
        if !all.trim().is_empty() {
            text.push_str(if opts.iter().any(|o| o == "except_break") { "\ninvariant_except_break\n" } else { "\ninvariant\n" });
            text.push_str(&all);
            if !all.trim_end().ends_with(',') {
                text.push(',');
            }
            text.push('\n');
        }
        text.push_str(&rest);
        if !rest.trim().is_empty() && !rest.trim_end().ends_with(',') {
            text.push_str(",\n");
        }
        if !dec.trim().is_empty() {
            text.push_str(&dec);
            if !dec.trim_end().ends_with(',') {
                text.push(',');
            }
            text.push('\n');
        } else if !auto_dec.is_empty() {
            text.push_str(&format!("decreases {},\n", auto_dec));
        }
        stmts.push(self.marks.add('c', &text));
        stmts.extend(prefix);
        stmts.extend(self.hint(&format!("loop {} begin", n)));
        self.skeleton.push_str(&format!("L{}{}[", n, kind));
        let mut b2 = body.clone();
        self.depth += 1;
        self.block(&mut b2);
        self.depth -= 1;
        self.skeleton.push(']');
        // a trailing expression of unit type needs a semicolon if hints follow
        let tail = self.hint(&format!("loop {} end", n));
        let mut bs = b2.stmts;
        if !tail.is_empty() {
            if let Some(Stmt::Expr(_, semi)) = bs.last_mut() {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
        }
        stmts.extend(bs);
        stmts.extend(tail);
        Block { brace_token: Default::default(), stmts }
    }

    fn wrap(&mut self, n: usize, mut pre: Vec<Stmt>, lp: Expr, semi: bool) -> Expr {
        let before = self.hint(&format!("loop {} before", n));
        let after = self.hint(&format!("loop {} after", n));
        if pre.is_empty() && before.is_empty() && after.is_empty() {
            return lp;
        }
        pre.extend(before);
        pre.push(Stmt::Expr(lp, if semi || !after.is_empty() { Some(Default::default()) } else { None }));
        pre.extend(after);
        Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: pre } })
    }

    fn do_for(&mut self, f: &syn::ExprForLoop) -> Expr {
        let n = self.n;
        self.n += 1;
        let it = id(format!("it{}", n));
        let lo = id(format!("lo{}", n));
        let hi = id(format!("hi{}", n));
        let pat = &f.pat;
        let label = &f.label;
        let e = strip(&f.expr).clone();
        // a..b (.step_by(k)) (.rev())
        let mut range: Option<syn::ExprRange> = None;
        let mut step: Option<Expr> = None;
        let mut rev = false;
        match &e {
            Expr::Range(r) => range = Some(r.clone()),
            Expr::MethodCall(m) => {
                if let Expr::Range(r) = strip(&m.receiver) {
                    if m.method == "step_by" {
                        step = Some(m.args[0].clone());
                        range = Some(r.clone());
                    } else if m.method == "rev" {
                        rev = true;
                        range = Some(r.clone());
                    }
                }
            }
            _ => {}
        }
        if let Some(r) = &range {
            let a = match &r.start {
                Some(a) => (**a).clone(),
                None => parse_quote!(0),
            };
            let b: Expr = match (&r.end, &r.limits) {
                (Some(b), syn::RangeLimits::HalfOpen(_)) => (**b).clone(),
                (Some(b), syn::RangeLimits::Closed(_)) => parse_quote!((#b) + 1),
                _ => {
                    self.unsupported = Some("unbounded range".into());
                    parse_quote!(0)
                }
            };
            let loop_id = id(format!("it{}", n));
            let _ = loop_id;
            // infer integer type through both ends: lo and it share a type with hi
            let mut pre: Vec<Stmt> = vec![];
            let simple = |e: &Expr| matches!(strip(e), Expr::Lit(_));
            if rev {
                pre.push(parse_quote!(let #hi = #b;));
                pre.push(parse_quote!(let #lo = #a;));
                let _ = simple;
                pre.push(parse_quote!(let mut #it = if #hi < #lo { #lo } else { #hi };));
                let prefix: Vec<Stmt> = vec![parse_quote!(#it = #it - 1;), parse_quote!(let #pat = #it;)];
                let inv = format!("lo{n} <= it{n}, it{n} <= hi{n} || hi{n} < lo{n}");
                let body = self.body(n, &f.body, prefix, &inv, &format!("it{n} - lo{n}"), "f");
                let w: Expr = parse_quote!(#label while #lo < #it #body);
                return self.wrap(n, pre, w, true);
            }
            let wild = matches!(**pat, syn::Pat::Wild(_)) && simple(&a) && simple(&b);
            if wild {
                pre.push(parse_quote!(let #lo: i32 = #a;));
            } else {
                pre.push(parse_quote!(let #lo = #a;));
            }
            pre.push(parse_quote!(let #hi = #b;));
            pre.push(parse_quote!(let mut #it = #lo;));
            let mut prefix: Vec<Stmt> = vec![];
            prefix.push(parse_quote!(let #pat = #it;));
            let mut inv = format!("lo{n} <= it{n}, it{n} <= hi{n} || hi{n} < lo{n}, hi{n} < lo{n} ==> it{n} == lo{n}");
            match &step {
                None => prefix.push(parse_quote!(#it = #it + 1;)),
                Some(s) => {
                    let st = id(format!("st{}", n));
                    pre.push(parse_quote!(let #st: usize = #s;));
                    prefix.push(parse_quote!(#it = if #hi - #it > #st { #it + #st } else { #hi };));
                    inv.push_str(&format!(", st{n} > 0"));
                }
            }
            let body = self.body(n, &f.body, prefix, &inv, &format!("hi{n} - it{n}"), "f");
            let w: Expr = parse_quote!(#label while #it < #hi #body);
            return self.wrap(n, pre, w, true);
        }
        // x.iter() / &x / x.iter().rev() / x.iter().enumerate()
        let mut base: Option<Expr> = None;
        let mut enumerate = false;
        match &e {
            Expr::Reference(r) if r.mutability.is_none() => base = Some((*r.expr).clone()),
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => base = Some((*m.receiver).clone()),
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "rev" || m.method == "enumerate") => {
                if let Expr::MethodCall(i) = strip(&m.receiver) {
                    if i.method == "iter" && i.args.is_empty() {
                        base = Some((*i.receiver).clone());
                        if m.method == "rev" {
                            rev = true;
                        } else {
                            enumerate = true;
                        }
                    }
                }
            }
            _ => {}
        }
        // x.iter() on a map (unit option `maps`): the loop runs over the entries in some order
        let mut map_part: Option<Expr> = None;
        if self.maps {
            let tuple = match &**pat {
                syn::Pat::Tuple(t) if enumerate && t.elems.len() == 2 => matches!(&t.elems[1], syn::Pat::Tuple(_)),
                syn::Pat::Tuple(_) if !enumerate && !rev && matches!(e, Expr::MethodCall(_)) => true,
                _ => false,
            };
            let s = id(format!("sl{}", n));
            if tuple && !rev {
                map_part = Some(parse_quote!(#s[#it]));
            }
            if let Expr::MethodCall(m) = &e {
                if m.args.is_empty() && (m.method == "keys" || m.method == "values") {
                    base = Some((*m.receiver).clone());
                    map_part = Some(if m.method == "keys" { parse_quote!(#s[#it].0) } else { parse_quote!(#s[#it].1) });
                }
            }
        }
        if let Some(b) = base {
            let s = id(format!("sl{}", n));
            let mut pre: Vec<Stmt> = vec![];
            if map_part.is_some() {
                pre.push(parse_quote!(let #s = (#b).kx_entries();));
            } else {
                pre.push(parse_quote!(let #s = &#b;));
            }
            let part: Expr = map_part.unwrap_or_else(|| parse_quote!(&#s[#it]));
            let body = if rev {
                pre.push(parse_quote!(let mut #it: usize = #s.len();));
                let prefix: Vec<Stmt> = vec![parse_quote!(#it = #it - 1;), parse_quote!(let #pat = &#s[#it];)];
                self.body(n, &f.body, prefix, &format!("it{n} <= sl{n}.len()"), &format!("it{n}"), "f")
            } else {
                pre.push(parse_quote!(let mut #it: usize = 0;));
                let mut prefix: Vec<Stmt> = vec![];
                if enumerate {
                    prefix.push(parse_quote!(let #pat = (#it, #part);));
                } else {
                    prefix.push(parse_quote!(let #pat = #part;));
                }
                prefix.push(parse_quote!(#it = #it + 1;));
                self.body(n, &f.body, prefix, &format!("it{n} <= sl{n}.len()"), &format!("sl{n}.len() - it{n}"), "f")
            };
            let w: Expr = if rev {
                parse_quote!(#label while 0 < #it #body)
            } else {
                parse_quote!(#label while #it < #s.len() #body)
            };
            return self.wrap(n, pre, w, true);
        }
        // leave to Verus
        let body = self.body(n, &f.body, vec![], "", "", "F");
        let (pat, expr) = (&f.pat, &f.expr);
        let w: Expr = parse_quote!(#label for #pat in #expr #body);
        self.wrap(n, vec![], w, true)
    }

    fn block(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
    }
}

impl<'a> VisitMut for Loops<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let f2 = f.clone();
                *e = self.do_for(&f2);
            }
            Expr::While(w) => {
                let n = self.n;
                self.n += 1;
                let w2 = w.clone();
                let body = self.body(n, &w2.body, vec![], "", "", "w");
                let mut cond = (*w2.cond).clone();
                self.visit_expr_mut(&mut cond);
                let label = &w2.label;
                let x: Expr = parse_quote!(#label while #cond #body);
                *e = self.wrap(n, vec![], x, true);
            }
            Expr::Loop(w) => {
                let n = self.n;
                self.n += 1;
                let w2 = w.clone();
                let body = self.body(n, &w2.body, vec![], "", "", "l");
                let label = &w2.label;
                let x: Expr = parse_quote!(#label loop #body);
                *e = self.wrap(n, vec![], x, false);
            }
            Expr::Closure(_) => {}
            _ => syn::visit_mut::visit_expr_mut(self, e),
        }
    }
}

// ---------------------------------------------------------------- statement hints

struct StmtHints<'a> {
    marks: &'a mut Marks,
    want: Vec<(String, String, bool)>, // key kind:name:k, text, before
    counts: BTreeMap<String, usize>,
    used: BTreeSet<usize>,
}

struct ShallowCalls {
    names: Vec<String>,
}
impl<'ast> Visit<'ast> for ShallowCalls {
    fn visit_block(&mut self, _: &'ast Block) {}
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.names.push(p.path.segments.last().unwrap().ident.to_string());
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
        self.names.push(c.method.to_string());
        syn::visit::visit_expr_method_call(self, c);
    }
}

impl<'a> StmtHints<'a> {
    fn keys(&self, s: &Stmt) -> Vec<String> {
        let mut v = vec![];
        match s {
            Stmt::Local(l) => {
                let p = l.pat.to_token_stream().to_string();
                let p0 = p.split(':').next().unwrap().trim().trim_start_matches("mut ").replace(' ', "");
                v.push(format!("let:{}", p0));
            }
            Stmt::Expr(Expr::Assign(a), _) => {
                v.push(format!("assign:{}", a.left.to_token_stream().to_string().replace(' ', "")));
            }
            Stmt::Expr(Expr::Binary(a), _) => {
                let op = a.op.to_token_stream().to_string();
                if op.ends_with('=') && op != "==" && op != "<=" && op != ">=" && op != "!=" {
                    v.push(format!("assign:{}", a.left.to_token_stream().to_string().replace(' ', "")));
                }
            }
            Stmt::Expr(Expr::Return(_), _) => v.push("return".into()),
            Stmt::Expr(Expr::If(_), _) => v.push("if".into()),
            Stmt::Expr(Expr::Match(_), _) => v.push("match".into()),
            Stmt::Expr(Expr::Break(_), _) => v.push("break".into()),
            _ => {}
        }
        let mut c = ShallowCalls { names: vec![] };
        c.visit_stmt(s);
        c.names.dedup();
        let mut seen = BTreeSet::new();
        for n in c.names {
            if seen.insert(n.clone()) {
                v.push(format!("call:{}", n));
            }
        }
        v
    }
}

impl<'a> VisitMut for StmtHints<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            let keys = self.keys(&s);
            let mut before = vec![];
            let mut after = vec![];
            for k in keys {
                let c = self.counts.entry(k.clone()).or_insert(0);
                let idx = *c;
                *c += 1;
                let full = format!("{}:{}", k, idx);
                let star = format!("{}:*", k);
                for (i, (key, text, bef)) in self.want.iter().enumerate() {
                    if *key == full || *key == star {
                        self.used.insert(i);
                        if *bef {
                            before.push(text.clone());
                        } else {
                            after.push(text.clone());
                        }
                    }
                }
            }
            for t in before {
                b.stmts.push(self.marks.add('m', &t));
            }
            self.visit_stmt_mut(&mut s);
            if !after.is_empty() {
                if let Stmt::Expr(_, semi) = &mut s {
                    if semi.is_none() {
                        *semi = Some(Default::default());
                    }
                }
            }
            b.stmts.push(s);
            for t in after {
                b.stmts.push(self.marks.add('m', &t));
            }
        }
    }
}

pub struct Emitted {
    pub text: String,
    pub file: syn::File,
    pub loops: usize,
    pub skeleton: String,
    pub rewrites: Vec<String>,
    pub inlined: Vec<String>,
    pub canary: bool,
}

pub fn emit_fn(
    f: &FnSpec,
    found: Found,
    src: &Source,
    macros: &Macros,
    unit: &Unit,
    contracted: &BTreeSet<String>,
    canary: bool,
) -> Result<Emitted, String> {
    let self_name = found.self_ty.as_ref().and_then(|t| match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    });
    let mut sig = found.sig.clone();
    let mut block = found.block.clone();
    let mut rw = Rewriter::new(macros, unit, self_name.clone());
    rw.visit_block_mut(&mut block);
    rw.visit_signature_mut(&mut sig);
    let mut log = rw.log;
    let mut generics = found.generics.clone();
    rw = Rewriter::new(macros, unit, self_name.clone());
    rw.visit_generics_mut(&mut generics);

    // known raw words are not inlined
    let mut known: BTreeSet<String> = BTreeSet::new();
    for e in &unit.entries {
        if let Entry::Raw(t) = e {
            let mut prev = String::new();
            for w in t.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
                if prev == "fn" {
                    known.insert(w.to_string());
                }
                if !w.is_empty() {
                    prev = w.to_string();
                }
            }
        }
    }
    known.insert("kx_new".into());
    let mut inl = Inliner {
        src,
        self_ty: self_name.clone(),
        contracted,
        known,
        macros,
        unit,
        log: BTreeSet::new(),
        inlined: vec![],
        depth: 0,
        counter: 0,
    };
    inl.visit_block_mut(&mut block);
    let inlined = inl.inlined.clone();
    log.extend(inl.log.iter().cloned());
    // constants Self::X used by the body: emit them before the function
    let mut assoc = String::new();
    {
        struct Q(BTreeSet<String>);
        impl<'ast> Visit<'ast> for Q {
            fn visit_ident(&mut self, i: &'ast proc_macro2::Ident) {
                self.0.insert(i.to_string());
            }
        }
        let mut q = Q(BTreeSet::new());
        q.visit_block(&block);
        if let Some(t) = &self_name {
            for w in q.0 {
                if let Some(c) = w.strip_prefix(&format!("{}__", t)) {
                    let already = unit.entries.iter().any(|e| match e {
                        Entry::Item(i) => i.name == format!("{}::{}", t, c),
                        Entry::Raw(r) => r.contains(&w),
                        _ => false,
                    });
                    if already {
                        continue;
                    }
                    if let Some(ic) = src.find_assoc_const(t, c) {
                        let mut item = crate::assoc_to_item(t, &ic);
                        let mut rw = Rewriter::new(macros, unit, self_name.clone());
                        rw.visit_item_mut(&mut item);
                        match crate::opt_bytes_const(&item) {
                            Some(t) => {
                                log.insert("tables of optional byte strings emitted as exec constants whose contents, restated from the same literal, are proved".into());
                                assoc.push_str(&t)
                            }
                            None => assoc.push_str(&prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![item] })),
                        }
                    }
                }
            }
        }
    }

    if unit.opts.iter().any(|o| o == "try") {
        struct Try(usize);
        impl VisitMut for Try {
            fn visit_stmt_mut(&mut self, s: &mut Stmt) {
                syn::visit_mut::visit_stmt_mut(self, s);
                if let Stmt::Expr(Expr::Try(t), Some(_)) = s {
                    let e = &t.expr;
                    *s = parse_quote!(match #e { Ok(_) => {} Err(kx_error) => { return Err(kx_error); } });
                    self.0 += 1;
                }
            }
        }
        let mut t = Try(0);
        t.visit_block_mut(&mut block);
        if t.0 > 0 {
            log.insert("statements `x?;` written as the equivalent match (the types of the errors are the same)".into());
        }
    }
    let mut marks = Marks::default();
    let mut lp = Loops { spec: f, n: 0, depth: 0, skeleton: String::new(), marks: &mut marks, unsupported: None, breaks: false, maps: unit.opts.iter().any(|o| o == "maps") };
    lp.block(&mut block);
    let _ = lp.breaks;
    let loops = lp.n;
    let skeleton = format!("{} | {}", sig.to_token_stream(), lp.skeleton);
    if let Some(u) = lp.unsupported {
        return Err(u);
    }
    if loops > 0 {
        log.insert("for loops over ranges/slices written as the equivalent while loop".into());
    }

    // statement hints
    let mut want = vec![];
    for (a, t) in &f.hints {
        if a == "start" || a == "end" || a == "tail" || a.starts_with("loop ") {
            continue;
        }
        let mut sp = a.rsplitn(2, ' ');
        let pos = sp.next().unwrap();
        let key = sp.next().unwrap_or("");
        let key = if key.matches(':').count() == 0 || (key.matches(':').count() == 1 && !key.starts_with("return") && !key.starts_with("if:") && !key.starts_with("match:") && !key.starts_with("break:")) { format!("{}:0", key) } else { key.to_string() };
        want.push((key, t.clone(), pos == "before"));
    }
    let mut sh = StmtHints { marks: &mut marks, want, counts: BTreeMap::new(), used: BTreeSet::new() };
    sh.visit_block_mut(&mut block);
    if sh.used.len() != sh.want.len() {
        let missing: Vec<String> = sh.want.iter().enumerate().filter(|(i, _)| !sh.used.contains(i)).map(|(_, w)| w.0.clone()).collect();
        return Err(format!("hint anchors not found: {}", missing.join(", ")));
    }

    // start/end hints, contract
    let mut pre: Vec<Stmt> = vec![];
    pre.push(marks.add('c', &f.contract));
    let is_canary = canary && !f.nocanary && !f.external;
    if is_canary {
        pre.push(marks.add('m', "assert(false);"));
    }
    for (a, t) in &f.hints {
        if a == "start" {
            pre.push(marks.add('m', t));
        }
    }
    let ends: Vec<Stmt> = f.hints.iter().filter(|(a, _)| a == "end").map(|(_, t)| marks.add('m', t)).collect();
    if !ends.is_empty() {
        let has_ret = !matches!(sig.output, syn::ReturnType::Default);
        let n = block.stmts.len();
        let tail = matches!(block.stmts.last(), Some(Stmt::Expr(_, None)));
        if tail && has_ret {
            let last = block.stmts.remove(n - 1);
            block.stmts.extend(ends);
            block.stmts.push(last);
        } else {
            if let Some(Stmt::Expr(_, semi)) = block.stmts.last_mut() {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
            block.stmts.extend(ends);
        }
    }
    let tails: Vec<Stmt> = f.hints.iter().filter(|(a, _)| a == "tail").map(|(_, t)| marks.add('m', t)).collect();
    if !tails.is_empty() {
        if let Some(Stmt::Expr(_, None)) = block.stmts.last() {
            let Some(Stmt::Expr(e, _)) = block.stmts.pop() else { unreachable!() };
            block.stmts.push(parse_quote!(let kx_tail = #e;));
            block.stmts.extend(tails);
            block.stmts.push(Stmt::Expr(parse_quote!(kx_tail), None));
        } else {
            block.stmts.extend(tails);
        }
    }
    pre.extend(block.stmts);
    block.stmts = pre;

    if let syn::ReturnType::Type(a, t) = &sig.output {
        let t2 = t.clone();
        sig.output = syn::ReturnType::Type(*a, parse_quote!(__KxRet<#t2>));
    }
    if let Some(r) = &f.rename {
        sig.ident = id(r.clone());
    }
    // drop `mut` on parameters by rebinding
    let mut rebind: Vec<Stmt> = vec![];
    for inp in sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(t) = inp {
            if let syn::Pat::Ident(p) = &mut *t.pat {
                if p.mutability.is_some() {
                    p.mutability = None;
                    let n = &p.ident;
                    rebind.push(parse_quote!(let mut #n = #n;));
                }
            }
        }
    }
    if !rebind.is_empty() {
        // after the contract marker
        for (i, r) in rebind.into_iter().enumerate() {
            block.stmts.insert(1 + i, r);
        }
    }
    if !f.proved_in.is_empty() {
        // the body is verified in the unit named; here only the contract counts
        block.stmts.truncate(1);
        block.stmts.push(Stmt::Expr(parse_quote!(unimplemented!()), None));
    }
    let item: syn::Item = match (&found.self_ty, &f.as_type) {
        (_, Some(t)) => {
            let ty: syn::Type = syn::parse_str(t).map_err(|e| e.to_string())?;
            syn::Item::Impl(parse_quote!(impl #ty { #sig #block }))
        }
        (Some(t), None) => {
            let (ig, _, wc) = generics.split_for_impl();
            syn::Item::Impl(parse_quote!(impl #ig #t #wc { #sig #block }))
        }
        (None, None) => syn::Item::Fn(parse_quote!(#sig #block)),
    };
    let file = syn::File { shebang: None, attrs: vec![], items: vec![item] };
    let mut text = prettyplease::unparse(&file);
    text = postprocess(&text, &marks, f)?;
    for (a, b) in &f.subst {
        if !text.contains(a.as_str()) {
            return Err(format!("substitution anchor not found: {}", a));
        }
        text = text.replace(a.as_str(), b.as_str());
        log.insert(format!("text `{}` written as `{}`", a, b));
    }
    let mut attr = String::new();
    if f.no_isolation && loops > 0 {
        attr.push_str("#[verifier::loop_isolation(false)]\n");
    }
    if f.external {
        if f.proved_in.is_empty() {
            attr.push_str("#[verifier::external_body]\n");
        } else {
            attr.push_str(&format!("#[verifier::external_body] // contract proved in unit {}\n", f.proved_in));
        }
    }
    attr.push_str(&f.attr);
    // place attributes before the `fn`
    if let Some(p) = find_fn_kw(&text) {
        text.insert_str(p, &attr);
    }
    let text = format!("{}{}", assoc, text);
    Ok(Emitted {
        text,
        file,
        loops,
        skeleton,
        rewrites: log.into_iter().collect(),
        inlined,
        canary: is_canary,
    })
}

fn find_fn_kw(t: &str) -> Option<usize> {
    let mut off = 0;
    for l in t.split_inclusive('\n') {
        let s = l.trim_start();
        if s.starts_with("fn ") || s.starts_with("const fn ") || s.starts_with("unsafe fn ") {
            return Some(off + (l.len() - s.len()));
        }
        off += l.len();
    }
    None
}

fn postprocess(t: &str, marks: &Marks, f: &FnSpec) -> Result<String, String> {
    let mut s = t.to_string();
    // return type
    if let Some(p) = s.find("-> __KxRet<") {
        let st = p + "-> __KxRet<".len();
        let bytes = s.as_bytes();
        let mut depth = 1;
        let mut i = st;
        while i < bytes.len() {
            match bytes[i] {
                b'<' => depth += 1,
                b'>' if bytes[i - 1] != b'-' => {
                    depth -= 1;
                    if depth == 0 {
                        break;
                    }
                }
                _ => {}
            }
            i += 1;
        }
        let ty = s[st..i].trim().trim_end_matches(',').to_string();
        s.replace_range(p..i + 1, &format!("-> ({}: {})", f.ret, ty));
    }
    for (n, (kind, text)) in marks.texts.iter().enumerate() {
        if *kind == 'm' {
            let m = format!("__kxm!({});", n);
            s = s.replace(&m, text);
        } else {
            let m = format!("__kxc!({});", n);
            if let Some(p) = s.find(&m) {
                let open = s[..p].rfind('{').ok_or("marker")?;
                if !s[open + 1..p].trim().is_empty() {
                    return Err("marker not first in block".into());
                }
                let end = p + m.len();
                let rep = format!("\n{}{{", text);
                s.replace_range(open..end, &rep);
            }
        }
    }
    let _ = Delimiter::None;
    Ok(s)
}
