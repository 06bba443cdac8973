//! Mechanical extraction of the verified text.
//!
//! usage: extract EXPANDED.rs CONTRACTS.json OUT.rs REPORT.json
//!
//! Reads the macro-expanded source of /repo (as printed by rustc), splices the
//! contracts of CONTRACTS.json onto it, and writes one Verus file.  Every
//! rewrite that is applied to executable text is listed in DESIGN.md
//! ("What the extraction rewrites") and counted in REPORT.json.

mod rewrite;

use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use rewrite::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct FnContract {
    pub ret: String,
    pub spec: String,
    pub attrs: String,
    pub begin: String,
    pub loops: Vec<Value>,
    pub external: bool,
}

pub struct Ctx {
    pub c: Value,
    pub texts: Vec<String>,
    pub used: BTreeSet<String>,
    pub uncontracted: Vec<String>,
    pub dropped: Vec<String>,
    pub fns: BTreeMap<String, Value>,
    pub counts: BTreeMap<String, u64>,
    pub problems: Vec<(String, String)>,
    /// (type key, trait) pairs that are derived
    pub derived: BTreeMap<String, BTreeSet<String>>,
    /// (type key, trait) pairs of Clone, PartialEq and Default written by hand
    pub manual: BTreeMap<String, BTreeSet<String>>,
    /// functions of such implementations: verified in every run
    pub manual_fns: Vec<String>,
    /// an implementation of PartialEq defines `ne` itself
    pub own_ne: bool,
    pub types: BTreeMap<String, Item>,
    /// what functions of a name return and fields of a name hold: O(ption), R(esult), or something else
    pub shapes: BTreeMap<String, BTreeSet<char>>,
    /// helper functions without a contract, by name, candidates for inlining
    pub helpers: BTreeMap<String, Helper>,
    /// functions that take a function pointer
    pub templates: BTreeMap<String, ItemFn>,
    /// every free function, by name
    pub freefns: BTreeMap<String, ItemFn>,
    /// mentions of the spec functions of the implementation being emitted
    pub mentions: String,
}

#[derive(Clone)]
pub struct Helper {
    pub key: String,
    pub sig: Signature,
    pub block: Block,
    pub is_method: bool,
    pub self_ty: Option<Type>,
}

impl Ctx {
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn problem(&mut self, key: &str, what: &str) {
        self.problems.push((key.to_string(), what.to_string()));
    }
    /// Register verbatim text, returns the placeholder identifier
    pub fn text(&mut self, s: &str) -> Ident {
        self.texts.push(s.to_string());
        format_ident!("__TXT_{}__", self.texts.len() - 1)
    }
    fn lookup(&self, section: &str, key: &str) -> Option<&Value> {
        self.c.get(section).and_then(|s| s.get(key))
    }
    /// the derived implementations of this type are verified in this run
    pub fn values(&self, tkey: &str) -> bool {
        self.c["values"].as_bool() == Some(true)
            && !self.recursive(tkey)
    }
    pub fn recursive(&self, tkey: &str) -> bool {
        self.c["recursive"].as_array().map_or(false, |a| a.iter().any(|x| x.as_str() == Some(tkey)))
    }
    pub fn has_contract(&self, key: &str) -> bool {
        self.lookup("fns", key).is_some()
    }
    pub fn is_dropped(&self, key: &str) -> bool {
        self.c["drop"].as_array().map_or(false, |a| a.iter().any(|x| x.as_str() == Some(key)))
    }
    pub fn contract(&mut self, key: &str) -> Option<FnContract> {
        let v = self.lookup("fns", key)?.clone();
        self.used.insert(key.to_string());
        let s = |k: &str| v.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
        Some(FnContract {
            ret: if s("ret").is_empty() { "r".into() } else { s("ret") },
            spec: s("spec"),
            attrs: s("attrs"),
            begin: s("begin"),
            loops: v.get("loops").and_then(|x| x.as_array()).cloned().unwrap_or_default(),
            external: v.get("external").and_then(|x| x.as_bool()).unwrap_or(false),
        })
    }
}

/// Text of a type without lifetimes and spaces
pub fn ty_key(t: &Type) -> String {
    struct S;
    impl VisitMut for S {
        fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) {
            let args: Vec<GenericArgument> =
                a.args.iter().filter(|x| !matches!(x, GenericArgument::Lifetime(_))).cloned().collect();
            a.args = args.into_iter().collect();
            visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a);
        }
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
    }
    let mut t = t.clone();
    S.visit_type_mut(&mut t);
    t.to_token_stream().to_string().replace(' ', "").replace("<>", "").replace("dyn", "")
}

pub fn path_key(p: &Path) -> String {
    ty_key(&Type::Path(TypePath { qself: None, path: p.clone() }))
}

fn impl_key(module: &str, i: &ItemImpl) -> String {
    match &i.trait_ {
        Some((_, p, _)) => {
            // however the trait is imported
            let mut p = p.clone();
            p.leading_colon = None;
            p.segments = p.segments.into_iter().rev().take(1).collect();
            format!("{}::<{} for {}>", module, path_key(&p), ty_key(&i.self_ty))
        }
        None => format!("{}::<{}>", module, ty_key(&i.self_ty)),
    }
}

fn is_derived(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("automatically_derived"))
}

fn last_seg(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

/// `Clone`, `PartialEq` (with itself) or `Default` for a type of the crate
fn value_impl(i: &ItemImpl) -> Option<String> {
    let (_, p, _) = i.trait_.as_ref()?;
    let n = last_seg(p);
    if !matches!(n.as_str(), "Clone" | "PartialEq" | "Default") || i.generics.params.iter().any(|p| !matches!(p, GenericParam::Lifetime(_))) {
        return None;
    }
    if n == "PartialEq" {
        if let PathArguments::AngleBracketed(a) = &p.segments.last()?.arguments {
            if let Some(GenericArgument::Type(t)) = a.args.first() {
                if ty_key(t) != ty_key(&i.self_ty) && ty_key(t) != "Self" {
                    return None;
                }
            }
        }
    }
    match &*i.self_ty {
        Type::Path(t) if t.path.segments.len() == 1 && !ty_key(&i.self_ty).contains('<') => Some(n),
        _ => None,
    }
}

fn shape(t: &Type) -> char {
    match t {
        Type::Path(p) => match last_seg(&p.path).as_str() {
            "Option" => 'O',
            n if n.ends_with("Result") => 'R',
            _ => 'X',
        },
        _ => 'X',
    }
}

/// Which functions return, and which fields hold, an Option or a Result
fn shapes(items: &[Item], cx: &mut Ctx) {
    struct S<'x>(&'x mut BTreeMap<String, BTreeSet<char>>);
    impl<'x, 'a> Visit<'a> for S<'x> {
        fn visit_signature(&mut self, s: &'a Signature) {
            let c = match &s.output {
                ReturnType::Type(_, t) => shape(t),
                _ => 'X',
            };
            self.0.entry(s.ident.to_string()).or_default().insert(c);
        }
        fn visit_field(&mut self, f: &'a Field) {
            if let Some(i) = &f.ident {
                self.0.entry(i.to_string()).or_default().insert(shape(&f.ty));
            }
        }
    }
    for i in items {
        S(&mut cx.shapes).visit_item(i);
    }
}

/// First pass: what is derived, which functions exist
fn scan(items: &[Item], module: &str, cx: &mut Ctx) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    let name = if module.is_empty() { m.ident.to_string() } else { format!("{}::{}", module, m.ident) };
                    if !cx.is_dropped(&name) {
                        scan(its, &name, cx);
                    }
                }
            }
            Item::Impl(i) => {
                if is_derived(&i.attrs) {
                    if let Some((_, p, _)) = &i.trait_ {
                        cx.derived
                            .entry(format!("{}::{}", module, ty_key(&i.self_ty)))
                            .or_default()
                            .insert(last_seg(p));
                    }
                } else {
                    let k = impl_key(module, i);
                    if cx.is_dropped(&k) {
                        continue;
                    }
                    let tk = format!("{}::{}", module, ty_key(&i.self_ty));
                    if let (Some(n), true) = (value_impl(i), cx.recursive(&tk)) {
                        cx.derived.entry(tk).or_default().insert(n);
                    } else if let Some(n) = value_impl(i) {
                        cx.manual.entry(format!("{}::{}", module, ty_key(&i.self_ty))).or_default().insert(n);
                    }
                    for ii in &i.items {
                        if let ImplItem::Fn(f) = ii {
                            if f.sig.ident == "ne" && i.trait_.is_some() {
                                cx.own_ne = true;
                            }
                            let key = format!("{}::{}", k, f.sig.ident);
                            if !cx.has_contract(&key) && !cx.is_dropped(&key) && i.trait_.is_none() {
                                cx.helpers.insert(
                                    f.sig.ident.to_string(),
                                    Helper {
                                        key: key.clone(),
                                        sig: f.sig.clone(),
                                        block: f.block.clone(),
                                        is_method: f.sig.receiver().is_some(),
                                        self_ty: Some((*i.self_ty).clone()),
                                    },
                                );
                            }
                            scan_nested(&f.block, module, cx);
                        }
                    }
                }
            }
            Item::Fn(f) => {
                let key = format!("{}::{}", module, f.sig.ident);
                if cx.is_dropped(&key) {
                    continue;
                }
                scan_fn(f, &key, cx);
                scan_nested(&f.block, module, cx);
            }
            _ => {}
        }
    }
}

fn scan_fn(f: &ItemFn, key: &str, cx: &mut Ctx) {
    let name = f.sig.ident.to_string();
    cx.freefns.insert(name.clone(), f.clone());
    if !cx.has_contract(key) {
        adopt(f, key, cx);
    }
    if has_fn_ptr_param(&f.sig) {
        cx.templates.insert(name, f.clone());
    } else if !cx.has_contract(key) {
        cx.helpers.insert(
            name,
            Helper {
                key: key.to_string(),
                sig: f.sig.clone(),
                block: (*f.block).clone(),
                is_method: false,
                self_ty: None,
            },
        );
    }
}

/// A function with a loop, of no contract of its own, that has the parameters of one
/// for which a contract is known under any name
fn adopt(f: &ItemFn, key: &str, cx: &mut Ctx) {
    struct Loops(usize);
    impl<'a> Visit<'a> for Loops {
        fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) {
            self.0 += 1;
            visit::visit_expr_for_loop(self, l);
        }
        fn visit_expr_while(&mut self, l: &'a ExprWhile) {
            self.0 += 2;
            visit::visit_expr_while(self, l);
        }
        fn visit_expr_loop(&mut self, l: &'a ExprLoop) {
            self.0 += 2;
            visit::visit_expr_loop(self, l);
        }
    }
    let mut loops = Loops(0);
    loops.visit_block(&f.block);
    if loops.0 != 1 {
        return;
    }
    let mine: Vec<(String, String)> = f.sig.inputs.iter().filter_map(|a| match a {
        FnArg::Typed(t) => match &*t.pat {
            Pat::Ident(i) => Some((i.ident.to_string(), ty_key(&t.ty))),
            _ => None,
        },
        _ => None,
    }).collect();
    let Some(Value::Array(ps)) = cx.c.get("patterns").cloned() else { return };
    for p in ps {
        let Some(m) = p["module"].as_str() else { continue };
        let params: Vec<(String, String)> = p["params"].as_array().map_or(vec![], |a| a.iter().map(|x| (x[0].as_str().unwrap_or("").to_string(), x[1].as_str().unwrap_or("").to_string())).collect());
        if !key.starts_with(m) || params.len() != f.sig.inputs.len() || params.len() != mine.len() {
            continue;
        }
        let mut ren = BTreeMap::new();
        for (n, t) in &params {
            let same: Vec<_> = mine.iter().filter(|x| x.1 == *t).collect();
            if same.len() == 1 {
                ren.insert(n.clone(), same[0].0.clone());
            }
        }
        if ren.len() != params.len() {
            continue;
        }
        fn go(v: &mut Value, ren: &BTreeMap<String, String>) {
            match v {
                Value::String(s) => *s = rename_text(s, ren),
                Value::Array(a) => a.iter_mut().for_each(|x| go(x, ren)),
                Value::Object(o) => o.iter_mut().for_each(|(_, x)| go(x, ren)),
                _ => {}
            }
        }
        let mut c = serde_json::json!({"spec": p["spec"], "attrs": p["attrs"], "begin": p["begin"], "loops": p["loops"]});
        go(&mut c, &ren);
        cx.c["fns"].as_object_mut().unwrap().insert(key.to_string(), c);
        cx.count("contract taken over by a function of another name");
        return;
    }
}

/// Functions nested in a body are treated like functions of the module
fn scan_nested(b: &Block, module: &str, cx: &mut Ctx) {
    for s in &b.stmts {
        if let Stmt::Item(Item::Fn(f)) = s {
            let key = format!("{}::{}", module, f.sig.ident);
            scan_fn(f, &key, cx);
            scan_nested(&f.block, module, cx);
        }
    }
}

pub fn has_fn_ptr_param(s: &Signature) -> bool {
    s.inputs.iter().any(|a| match a {
        FnArg::Typed(t) => matches!(&*t.ty, Type::BareFn(_)),
        _ => false,
    })
}

fn pubify(v: &mut Visibility) {
    *v = parse_quote!(pub);
}

fn flatten_use(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>, bool)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flatten_use(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let mut v = pre.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, None, false));
        }
        UseTree::Rename(n) => {
            let mut v = pre.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, Some(n.rename.to_string()), false));
        }
        UseTree::Glob(_) => out.push((pre.clone(), None, true)),
        UseTree::Group(g) => {
            for t in &g.items {
                flatten_use(t, pre, out);
            }
        }
    }
}

pub fn emit_use(u: &ItemUse, cx: &mut Ctx) -> TokenStream {
    let mut leafs = vec![];
    flatten_use(&u.tree, &mut vec![], &mut leafs);
    let mut ts = TokenStream::new();
    let vis = &u.vis;
    for (mut path, mut ren, glob) in leafs {
        if path.len() >= 2 && (path[0] == "std" || path[0] == "core" || path[0] == "alloc") && path[1] == "fmt" {
            if path.last().map_or(false, |x| x == "Debug") {
                continue;
            }
            if path.len() == 2 && ren.is_none() && !glob {
                ren = Some("fmt".into());
            }
            path.splice(0..2, vec!["xfmt".to_string()]);
            cx.count("std::fmt replaced by the modelled formatter (use)");
        } else if path.len() >= 2 && path[0] == "std" && (path[1] == "any" || path[1] == "error") {
            if path[1] == "any" {
                continue;
            }
            path.splice(0..2, vec!["xerror".to_string()]);
        } else if path.len() == 1 && path[0] == "std" && !glob {
            // `use std;`
            ts.extend(quote!(#vis use std;));
            continue;
        }
        if cx.is_dropped(&path.join("::")) {
            continue;
        }
        let segs: Vec<TokenStream> = path.iter().map(|s| s.parse().unwrap()).collect();
        let body = quote!(#(#segs)::*);
        let lead = if u.leading_colon.is_some() { quote!(::) } else { quote!() };
        if glob {
            ts.extend(quote!(#vis use #lead #body::*;));
        } else if let Some(r) = ren {
            let r: TokenStream = r.parse().unwrap();
            ts.extend(quote!(#vis use #lead #body as #r;));
        } else {
            ts.extend(quote!(#vis use #lead #body;));
        }
    }
    ts
}

fn default_of(t: &Type) -> String {
    let k = ty_key(t);
    match k.as_str() {
        "bool" => "false".into(),
        "u8" | "u16" | "u32" | "u64" | "usize" | "i32" => format!("0{}", k),
        _ if k.starts_with("Option<") => "None".into(),
        _ => format!("xdefault::<{}>()", k),
    }
}

fn emit_type(it: &Item, module: &str, cx: &mut Ctx) -> TokenStream {
    let mut it = it.clone();
    let (ident, generics) = match &mut it {
        Item::Struct(s) => {
            pubify(&mut s.vis);
            s.attrs.clear();
            for f in s.fields.iter_mut() {
                pubify(&mut f.vis);
                f.attrs.clear();
            }
            (s.ident.clone(), s.generics.clone())
        }
        Item::Enum(e) => {
            pubify(&mut e.vis);
            e.attrs.clear();
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            (e.ident.clone(), e.generics.clone())
        }
        _ => unreachable!(),
    };
    TypeRw { cx }.visit_item_mut(&mut it);
    let key = format!("{}::{}", module, ident);
    // keys of derived impls carry the generic arguments of types but no lifetimes
    let mut d: BTreeSet<String> = cx.derived.get(&key).cloned().unwrap_or_default();
    let man: BTreeSet<String> = cx.manual.get(&key).cloned().unwrap_or_default();
    // implementations whose bodies are verified
    let mut kept = man.clone();
    if cx.values(&key) {
        kept.extend(d.iter().cloned());
    }
    d.extend(man);
    let (ig, tg, wc) = generics.split_for_impl();
    let mut out = TokenStream::new();
    let mut ders: Vec<Ident> = vec![];
    for n in ["Copy", "PartialEq", "Eq", "Hash"] {
        if d.contains(n) && !kept.contains(n) || n == "Copy" && d.contains(n) || n == "Eq" && d.contains(n) || n == "Hash" && d.contains(n) {
            ders.push(format_ident!("{}", n));
        }
    }
    let copy = d.contains("Copy") && d.contains("Clone");
    if copy && !kept.contains("Clone") {
        ders.push(format_ident!("Clone"));
    }
    if !ders.is_empty() {
        out.extend(quote!(#[derive(#(#ders),*)]));
    }
    if let Some(Value::String(s)) = cx.c["types"].get(&key).cloned() {
        let t = cx.text(&s);
        out.extend(quote!(#t));
    }
    out.extend(it.to_token_stream());
    if d.contains("Clone") && !copy && !kept.contains("Clone") {
        cx.count("derived Clone assumed structural");
        out.extend(quote! {
            impl #ig Clone for #ident #tg #wc {
                #[verifier::external_body]
                fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
            }
        });
    }
    if d.contains("PartialEq") {
        if !kept.contains("PartialEq") {
            cx.count("derived PartialEq assumed structural");
        }
        if let (true, Item::Enum(e)) = (kept.contains("PartialEq"), &it) {
            let arms: Vec<TokenStream> = e
                .variants
                .iter()
                .enumerate()
                .map(|(k, v)| {
                    let (vi, k) = (&v.ident, proc_macro2::Literal::usize_unsuffixed(k));
                    match v.fields {
                        Fields::Unit => quote!(#ident::#vi => #k,),
                        Fields::Unnamed(_) => quote!(#ident::#vi(..) => #k,),
                        Fields::Named(_) => quote!(#ident::#vi { .. } => #k,),
                    }
                })
                .collect();
            out.extend(quote! {
                impl #ig #ident #tg #wc {
                    pub open spec fn sdiscr(self) -> int { match self { #(#arms)* } }
                    #[verifier::external_body]
                    pub fn xdiscr(&self) -> (r: isize) ensures r == self.sdiscr() { unimplemented!() }
                }
            });
        }
        out.extend(quote! {
            impl #ig vstd::std_specs::cmp::PartialEqSpecImpl for #ident #tg #wc {
                open spec fn obeys_eq_spec() -> bool { true }
                open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
            }
        });
    }
    if d.contains("Default") {
        let keep = kept.contains("Default");
        if !keep {
            cx.count("derived Default assumed structural");
        }
        if let Item::Struct(s) = &it {
            let fs: Vec<TokenStream> = s
                .fields
                .iter()
                .map(|f| {
                    let n = f.ident.as_ref().unwrap();
                    let v: TokenStream = default_of(&f.ty).parse().unwrap();
                    quote!(#n: #v)
                })
                .collect();
            out.extend(quote! {
                impl #ident { pub open spec fn spec_default() -> Self { #ident { #(#fs),* } } }
            });
            if !keep {
              out.extend(quote! {
                impl Default for #ident {
                    #[verifier::external_body]
                    fn default() -> (r: Self) ensures r == #ident::spec_default() { unimplemented!() }
                }
              });
            }
        }
    }
    out
}

/// Names bound by a function, in order of appearance
pub struct Binders(pub Vec<String>, pub Vec<String>);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        // constants and unit variants in patterns look like bindings
        if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            if p.mutability.is_some() {
                self.1.push(n.clone());
            }
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

/// Which names of `old` are called something else in `new`: what lies between
/// names that both have in common, where it is of the same length
fn align(old: &[String], new: &[String]) -> BTreeMap<String, String> {
    let (n, m) = (old.len(), new.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if old[i] == new[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let mut out = BTreeMap::new();
    let (mut i, mut j) = (0, 0);
    let (mut gi, mut gj) = (vec![], vec![]);
    loop {
        let common = i < n && j < m && old[i] == new[j];
        if common || (i == n && j == m) {
            if gi.len() == gj.len() {
                for (a, b) in gi.iter().zip(gj.iter()) {
                    let (a, b): (&String, &String) = (a, b);
                    if !new.contains(a) && !old.contains(b) {
                        out.insert(a.clone(), b.clone());
                    }
                }
            }
            gi.clear();
            gj.clear();
            if !common {
                return out;
            }
            i += 1;
            j += 1;
        } else if j == m || (i < n && t[i + 1][j] >= t[i][j + 1]) {
            gi.push(old[i].clone());
            i += 1;
        } else {
            gj.push(new[j].clone());
            j += 1;
        }
    }
}

/// Replace whole identifiers in annotation text
fn rename_text(s: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() {
        return s.to_string();
    }
    let mut out = String::new();
    let mut cur = String::new();
    let mut prev = ' ';
    let flush = |cur: &mut String, out: &mut String, prev: char| {
        if !cur.is_empty() {
            // not a field access
            match map.get(cur.as_str()) {
                Some(n) if prev != '.' => out.push_str(n),
                _ => out.push_str(cur),
            }
            cur.clear();
        }
    };
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c);
        } else {
            flush(&mut cur, &mut out, prev);
            out.push(c);
            prev = c;
        }
    }
    flush(&mut cur, &mut out, prev);
    out
}

/// A proof block that mentions every spec function of an implementation, so that
/// the verifier orders them before the function that has to meet them
fn mentions(text: &str) -> String {
    let mut out = String::new();
    for part in text.split("spec fn ").skip(1) {
        let Some(open) = part.find('(') else { continue };
        let name = part[..open].trim();
        let (mut depth, mut args, mut any, mut slf) = (0, 0, false, false);
        if name.contains('<') {
            continue;
        }
        for (i, c) in part[open..].char_indices() {
            match c {
                '(' | '<' | '[' => depth += 1,
                ')' | '>' | ']' => depth -= 1,
                ',' if depth == 1 => args += 1,
                c if !c.is_whitespace() => any = true,
                _ => {}
            }
            if depth == 0 {
                let list = part[open + 1..open + i].trim();
                slf = list.starts_with("&self") || list.starts_with("& self");
                break;
            }
        }
        let n = if any { args + 1 } else { 0 };
        let list: Vec<&str> = (0..n).map(|i| if i == 0 && slf { "&vstd::pervasive::arbitrary()" } else { "vstd::pervasive::arbitrary()" }).collect();
        out.push_str(&format!(" let _ = Self::{}({});", name, list.join(", ")));
    }
    if out.is_empty() { out } else { format!("proof {{{} }} ", out) }
}

/// Emit one function with its contract
fn emit_fn(key: &str, sig: &Signature, block: Option<&Block>, vis: bool, module: &str, cx: &mut Ctx, out_after: &mut TokenStream) -> TokenStream {
    let con = cx.contract(key);
    let mentions = std::mem::take(&mut cx.mentions);
    let mut sig = sig.clone();
    let mut info = serde_json::Map::new();
    if con.is_none() {
        cx.uncontracted.push(key.to_string());
    }
    // the body comes first, so that what is inlined into it counts as its own
    let external = cx.c["external"].as_array().map_or(false, |a| a.iter().any(|x| x.as_str() == Some(key)));
    let mut bs = Binders(vec![], vec![]);
    bs.visit_signature(&sig);
    TypeRw { cx }.visit_signature_mut(&mut sig);
    let (mut nested, mut lifted) = (vec![], vec![]);
    let mut body = block.cloned();
    if let (Some(b), false) = (body.as_mut(), external) {
        let mut rw = BodyRw::new(cx, key, module, &sig);
        rw.run(b);
        nested = std::mem::take(&mut rw.nested);
        lifted = std::mem::take(&mut rw.lifted);
    }
    if let Some(b) = &body {
        bs.visit_block(b);
    }
    let mut ren = BTreeMap::new();
    if let Some(Value::Array(old)) = cx.c["binders"].get(key) {
        let old: Vec<String> = old.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
        ren = align(&old, &bs.0);
        if !ren.is_empty() {
            cx.count("annotations follow renamed locals");
        }
    }
    info.insert("binders".into(), Value::from(bs.0.clone()));
    info.insert("muts".into(), Value::from(bs.1.clone()));
    let con = con.map(|mut c| {
        c.spec = rename_text(&c.spec, &ren);
        c.begin = rename_text(&c.begin, &ren);
        for l in c.loops.iter_mut() {
            if let Value::Object(o) = l {
                for (_, v) in o.iter_mut() {
                    if let Value::String(s) = v {
                        *s = rename_text(s, &ren);
                    }
                }
            }
        }
        c
    });
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            if matches!(&*t.pat, Pat::Wild(_)) {
                let n = format_ident!("wild{}", i);
                *t.pat = parse_quote!(#n);
            }
        }
    }
    let mut attrs = TokenStream::new();
    let (ret, spec, begin, loops, assumed) = match con {
        Some(c) => {
            if !c.attrs.is_empty() {
                let t = cx.text(&c.attrs);
                attrs.extend(quote!(#t));
            }
            (c.ret, c.spec, format!("{}{}", mentions, c.begin), c.loops, c.external)
        }
        None => ("r".into(), String::new(), String::new(), vec![], false),
    };
    if let ReturnType::Type(_, t) = &sig.output {
        let r: TokenStream = ret.parse().unwrap();
        let t2 = quote!((#r: #t));
        sig.output = ReturnType::Type(Default::default(), Box::new(Type::Verbatim(t2)));
    }
    let v = if vis { quote!(pub) } else { quote!() };
    // rustc's signature printing puts the where clause after the return type;
    // contracts go after that
    let spec_t = cx.text(&format!("\n{}\n", spec));
    let Some(mut block) = body else {
        info.insert("contract".into(), Value::Bool(!spec.is_empty()));
        cx.fns.insert(key.to_string(), Value::Object(info));
        return quote!(#attrs #v #sig #spec_t ;);
    };
    if external {
        // the body is outside the verifier's reach on this run: its contract is assumed
        info.insert("contract".into(), Value::Bool(!spec.is_empty()));
        info.insert("external".into(), Value::Bool(true));
        cx.fns.insert(key.to_string(), Value::Object(info));
        return quote!(#[verifier::external_body] #v #sig #spec_t { unimplemented!() });
    }
    let mut ls = LoopRw { cx, key: key.to_string(), loops: &loops, n: 0 };
    ls.visit_block_mut(&mut block);
    let n = ls.n;
    if n != loops.len() {
        cx.problem(key, &format!("loop annotations: {} in the contract, {} loops in the code", loops.len(), n));
    }
    info.insert("loops".into(), Value::from(n));
    info.insert("contract".into(), Value::Bool(!spec.is_empty()));
    info.insert("external".into(), Value::Bool(assumed));
    cx.fns.insert(key.to_string(), Value::Object(info));
    for f in nested {
        if has_fn_ptr_param(&f.sig) {
            continue;
        }
        let k = format!("{}::{}", module, f.sig.ident);
        if !cx.has_contract(&k) {
            continue; // inlined
        }
        let t = emit_fn(&k, &f.sig, Some(&f.block), true, module, cx, &mut TokenStream::new());
        out_after.extend(t);
    }
    for (k, f) in lifted {
        let t = emit_fn(&k, &f.sig, Some(&f.block), true, module, cx, &mut TokenStream::new());
        out_after.extend(t);
    }
    if assumed {
        attrs.extend(quote!(#[verifier::external_body]));
    }
    let begin_t = cx.text(&begin);
    let stmts = &block.stmts;
    let m1 = cx.text(&format!("\n/*@fn {}*/\n", key));
    let m2 = cx.text("\n/*@end*/\n");
    quote!(#m1 #attrs #v #sig #spec_t { #begin_t #(#stmts)* } #m2)
}

fn emit_items(items: &[Item], module: &str, cx: &mut Ctx) -> TokenStream {
    let mut out = TokenStream::new();
    let mut instances: Vec<Instance> = vec![];
    for it in items {
        match it {
            Item::Mod(m) => {
                let name = if module.is_empty() { m.ident.to_string() } else { format!("{}::{}", module, m.ident) };
                if cx.is_dropped(&name) {
                    cx.dropped.push(format!("mod {}", name));
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    let body = emit_items(its, &name, cx);
                    let id = &m.ident;
                    let extra = cx.c["mods"].get(&name).and_then(|x| x.as_str()).unwrap_or("").to_string();
                    let e = cx.text(&format!("\n{}\n", extra));
                    out.extend(quote!(pub mod #id { use vstd::prelude::*; use vspec::*; #body #e }));
                }
            }
            Item::Use(u) => {
                if u.to_token_stream().to_string().contains("prelude") {
                    continue;
                }
                out.extend(emit_use(u, cx));
            }
            Item::Struct(s) => {
                let k = format!("{}::{}", module, s.ident);
                if cx.is_dropped(&k) {
                    cx.dropped.push(format!("struct {}", k));
                    continue;
                }
                out.extend(emit_type(it, module, cx));
            }
            Item::Enum(e) => {
                let k = format!("{}::{}", module, e.ident);
                if cx.is_dropped(&k) {
                    cx.dropped.push(format!("enum {}", k));
                    continue;
                }
                out.extend(emit_type(it, module, cx));
            }
            Item::Type(t) => {
                let mut t = t.clone();
                pubify(&mut t.vis);
                t.attrs.clear();
                TypeRw { cx }.visit_item_type_mut(&mut t);
                out.extend(t.to_token_stream());
            }
            Item::Const(c) => {
                let mut c = c.clone();
                pubify(&mut c.vis);
                c.attrs.clear();
                out.extend(c.to_token_stream());
            }
            Item::Fn(f) => {
                let key = format!("{}::{}", module, f.sig.ident);
                if cx.is_dropped(&key) {
                    cx.dropped.push(format!("fn {}", key));
                    continue;
                }
                if has_fn_ptr_param(&f.sig) {
                    continue; // emitted as instances
                }
                if cx.helpers.contains_key(&f.sig.ident.to_string()) && cx.helpers[&f.sig.ident.to_string()].key == key {
                    cx.uncontracted.push(key.clone());
                    continue; // inlined at its call sites
                }
                let mut after = TokenStream::new();
                let t = emit_fn(&key, &f.sig, Some(&f.block), true, module, cx, &mut after);
                out.extend(t);
                out.extend(after);
            }
            Item::Trait(t) => {
                let key = format!("{}::{}", module, t.ident);
                if cx.is_dropped(&key) {
                    cx.dropped.push(format!("trait {}", key));
                    continue;
                }
                let mut body = TokenStream::new();
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        let k = format!("{}::{}", key, f.sig.ident);
                        let mut after = TokenStream::new();
                        body.extend(emit_fn(&k, &f.sig, f.default.as_ref(), false, module, cx, &mut after));
                        out.extend(after);
                    } else {
                        cx.problem(&key, "trait item that is not a function");
                    }
                }
                let extra = cx.c["traits"].get(&key).and_then(|x| x.as_str()).unwrap_or("").to_string();
                let e = cx.text(&format!("\n{}\n", extra));
                let id = &t.ident;
                let (g, _, w) = t.generics.split_for_impl();
                let mut t = t.clone();
                t.supertraits = t.supertraits.iter().filter(|b| match b {
                    TypeParamBound::Trait(b) => {
                        let n = last_seg(&b.path);
                        !matches!(n.as_str(), "Debug" | "Any" | "ExtInstClone")
                            && !cx.c["drop_traits"].as_array().map_or(false, |a| a.iter().any(|x| x.as_str() == Some(&n)))
                    }
                    _ => true,
                }).cloned().collect();
                let colon = if t.supertraits.is_empty() { quote!() } else { quote!(:) };
                let sup = &t.supertraits;
                out.extend(quote!(pub trait #id #g #colon #sup #w { #e #body }));
            }
            Item::Impl(i) => {
                let key = impl_key(module, i);
                let value = value_impl(i);
                let tkey = format!("{}::{}", module, ty_key(&i.self_ty));
                if is_derived(&i.attrs) && !(value.is_some() && cx.values(&tkey)) {
                    cx.count("derived impl dropped");
                    continue;
                }
                if value.is_some() && cx.recursive(&tkey) {
                    cx.problem(&key, "written by hand for a recursive type");
                    cx.dropped.push(format!("impl {}", key));
                    continue;
                }
                if cx.is_dropped(&key)
                    || i.trait_.as_ref().map_or(false, |(_, p, _)| {
                        let n = last_seg(p);
                        cx.c["drop_traits"].as_array().map_or(false, |a| a.iter().any(|x| x.as_str() == Some(&n)))
                    })
                {
                    cx.dropped.push(format!("impl {}", key));
                    continue;
                }
                let mut body = TokenStream::new();
                // AsRef has no contract in vstd: its method becomes an ordinary one
                let inherent = i.trait_.as_ref().map_or(false, |(_, p, _)| last_seg(p) == "AsRef");
                if inherent {
                    cx.count("AsRef implementation turned into an ordinary method");
                }
                let istrait = i.trait_.is_some() && !inherent;
                if let (Some(n), true) = (&value, matches!(&*i.self_ty, Type::Path(_))) {
                    let (f, spec, begin) = match n.as_str() {
                        "Clone" => ("clone", "ensures r == *self".to_string(), "broadcast use {g_values, g_copy};"),
                        "PartialEq" => ("eq", String::new(), "broadcast use {g_values, g_copy};"),
                        _ => ("default", "ensures r == Self::spec_default()".to_string(), "broadcast use g_values;"),
                    };
                    let k = format!("{}::{}", key, f);
                    if !is_derived(&i.attrs) {
                        cx.manual_fns.push(k.clone());
                    }
                    if !cx.has_contract(&k) {
                        cx.c["fns"].as_object_mut().unwrap().insert(k, serde_json::json!({"spec": spec, "begin": begin}));
                    }
                }
                if i.trait_.as_ref().map_or(false, |(_, p, _)| matches!(last_seg(p).as_str(), "Hash" | "Eq")) {
                    cx.problem(&key, "Hash or Eq written by hand");
                }
                for ii in &i.items {
                    match ii {
                        ImplItem::Fn(f) => {
                            let k = format!("{}::{}", key, f.sig.ident);
                            if cx.is_dropped(&k) {
                                cx.dropped.push(format!("fn {}", k));
                                continue;
                            }
                            if !istrait
                                && cx.helpers.get(&f.sig.ident.to_string()).map_or(false, |h| h.key == k)
                            {
                                cx.uncontracted.push(k);
                                continue;
                            }
                            if istrait && !cx.has_contract(&k) {
                                // the contract of the trait method applies
                                cx.c["fns"]
                                    .as_object_mut()
                                    .unwrap()
                                    .insert(k.clone(), serde_json::json!({"spec": ""}));
                            }
                            if istrait {
                                cx.mentions = mentions(cx.c["impls"].get(&key).and_then(|x| x.as_str()).unwrap_or(""));
                            }
                            let mut after = TokenStream::new();
                            body.extend(emit_fn(&k, &f.sig, Some(&f.block), !istrait, module, cx, &mut after));
                            out.extend(after);
                        }
                        ImplItem::Type(t) => body.extend(t.to_token_stream()),
                        ImplItem::Const(t) => body.extend(t.to_token_stream()),
                        _ => cx.problem(&key, "impl item of an unknown kind"),
                    }
                }
                let extra = cx.c["impls"].get(&key).and_then(|x| x.as_str()).unwrap_or("").to_string();
                if !extra.is_empty() {
                    cx.used.insert(key.clone());
                }
                let e = cx.text(&format!("\n{}\n", extra));
                let mut st = (*i.self_ty).clone();
                TypeRw { cx }.visit_type_mut(&mut st);
                let (g, _, w) = i.generics.split_for_impl();
                if let (Some((_, p, _)), false) = (&i.trait_, inherent) {
                    out.extend(quote!(impl #g #p for #st #w { #e #body }));
                } else {
                    out.extend(quote!(impl #g #st #w { #e #body }));
                }
            }
            Item::ExternCrate(_) | Item::Macro(_) => {}
            _ => cx.problem(module, "item of an unknown kind"),
        }
        // instances of function-pointer templates requested so far
        instances.extend(take_instances());
    }
    instances.extend(take_instances());
    let mut done = BTreeSet::new();
    while let Some(i) = instances.pop() {
        if !done.insert(i.name.clone()) {
            continue;
        }
        let key = format!("{}::{}", module, i.name);
        let mut after = TokenStream::new();
        cx.count("function-pointer template instantiated");
        let t = emit_fn(&key, &i.f.sig, Some(&i.f.block), true, module, cx, &mut after);
        out.extend(t);
        out.extend(after);
        instances.extend(take_instances());
    }
    out
}

/// Print tokens with line breaks
fn print(ts: TokenStream, out: &mut String, ind: usize) {
    fn nl(out: &mut String, ind: usize) {
        while out.ends_with(' ') {
            out.pop();
        }
        if !out.ends_with('\n') {
            out.push('\n');
        }
        for _ in 0..ind {
            out.push(' ');
        }
    }
    let mut it = ts.into_iter().peekable();
    let mut glue = true;
    while let Some(t) = it.next() {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                out.push_str(o);
                if g.delimiter() == Delimiter::Brace {
                    nl(out, ind + 1);
                }
                print(g.stream(), out, ind + 1);
                if g.delimiter() == Delimiter::Brace {
                    nl(out, ind);
                }
                out.push_str(c);
                if g.delimiter() == Delimiter::Brace {
                    let stay = matches!(it.peek(), Some(TokenTree::Punct(_)) | None);
                    if !stay {
                        nl(out, ind);
                    }
                }
                glue = false;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if !glue && !matches!(c, ',' | ';' | '.' | ':' | '?' | '!') {
                    out.push(' ');
                }
                out.push(c);
                if c == ';' {
                    nl(out, ind);
                    glue = true;
                } else if c == ',' && out.len() - out.rfind('\n').unwrap_or(0) > 90 {
                    nl(out, ind);
                    glue = true;
                } else if p.spacing() == Spacing::Joint || c == '\'' {
                    glue = true;
                } else {
                    out.push(' ');
                    glue = true;
                }
            }
            TokenTree::Ident(i) => {
                if !glue {
                    out.push(' ');
                }
                out.push_str(&i.to_string());
                glue = false;
            }
            TokenTree::Literal(l) => {
                if !glue {
                    out.push(' ');
                }
                out.push_str(&l.to_string());
                glue = false;
            }
        }
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap();
    if h.join().is_err() {
        std::process::exit(4);
    }
}

fn run() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).expect("expanded source");
    let con: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("contracts")).expect("contracts");
    let file = match parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("cannot parse the expanded source: {}", e);
            std::process::exit(3);
        }
    };
    let mut cx = Ctx {
        c: con,
        texts: vec![],
        used: BTreeSet::new(),
        uncontracted: vec![],
        dropped: vec![],
        fns: BTreeMap::new(),
        counts: BTreeMap::new(),
        problems: vec![],
        derived: BTreeMap::new(),
        manual: BTreeMap::new(),
        manual_fns: vec![],
        own_ne: false,
        shapes: BTreeMap::new(),
        types: BTreeMap::new(),
        helpers: BTreeMap::new(),
        templates: BTreeMap::new(),
        freefns: BTreeMap::new(),
        mentions: String::new(),
    };
    shapes(&file.items, &mut cx);
    scan(&file.items, "", &mut cx);
    let ts = emit_items(&file.items, "", &mut cx);
    let mut body = String::new();
    print(ts, &mut body, 0);
    // substitute the verbatim texts (a text may itself hold no placeholder)
    let mut out = String::with_capacity(body.len() * 2);
    let mut rest = body.as_str();
    while let Some(i) = rest.find("__TXT_") {
        out.push_str(&rest[..i]);
        let r = &rest[i + 6..];
        let j = r.find("__").unwrap();
        let n: usize = r[..j].parse().unwrap();
        out.push_str(&cx.texts[n]);
        rest = &r[j + 2..];
    }
    out.push_str(rest);
    let header = cx.c["header"].as_str().unwrap_or("").to_string();
    let footer = cx.c["footer"].as_str().unwrap_or("").to_string();
    std::fs::write(&a[3], format!("{}\nverus! {{\n{}\n{}\n}}\nfn main() {{}}\n", header, out, footer)).unwrap();
    let missing: Vec<String> = cx.c["fns"]
        .as_object()
        .map(|o| o.keys().filter(|k| !cx.used.contains(*k)).cloned().collect())
        .unwrap_or_default();
    let missing_impls: Vec<String> = cx.c["impls"]
        .as_object()
        .map(|o| o.keys().filter(|k| !cx.used.contains(*k)).cloned().collect())
        .unwrap_or_default();
    let rep = serde_json::json!({
        "functions": cx.fns,
        "without_contract": cx.uncontracted,
        "dropped": cx.dropped,
        "rewrites": cx.counts,
        "problems": cx.problems,
        "missing": missing,
        "missing_impls": missing_impls,
        "manual": cx.manual_fns,
    });
    std::fs::write(&a[4], serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}

pub struct CallFinder {
    pub names: BTreeSet<String>,
}
impl<'a> Visit<'a> for CallFinder {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.names.insert(last_seg(&p.path));
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        self.names.insert(c.method.to_string());
        visit::visit_expr_method_call(self, c);
    }
}
