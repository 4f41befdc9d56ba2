//! Mechanical extraction of function texts from /repo into a form the verifier accepts.
//! usage: extract SRC_DIR FILE...      (FILE relative to SRC_DIR)
//! prints, per item:  `#ITEM kind|file|impl header|name` followed by the Rust text of the item.
mod desugar;
mod macros;
use quote::{quote, ToTokens};
use syn::{visit_mut::VisitMut, *};

/// evaluates a cfg predicate for: target_arch = x86_64, features std/random/serde off or on, no test.
fn cfg_true(m: &Meta) -> bool {
    match m {
        Meta::Path(p) => { let s = p.to_token_stream().to_string(); s == "debug_assertions" || s == "unix" }
        Meta::NameValue(nv) => {
            let k = nv.path.to_token_stream().to_string();
            let v = nv.value.to_token_stream().to_string();
            match (k.as_str(), v.as_str()) { ("target_arch", "\"x86_64\"") => true, ("target_pointer_width", "\"64\"") => true, ("feature", "\"std\"") => true, ("feature", "\"random\"") => true, _ => false }
        }
        Meta::List(l) => {
            let inner: punctuated::Punctuated<Meta, Token![,]> = l.parse_args_with(punctuated::Punctuated::parse_terminated).unwrap();
            match l.path.to_token_stream().to_string().as_str() {
                "not" => !cfg_true(&inner[0]),
                "any" => inner.iter().any(cfg_true),
                "all" => inner.iter().all(cfg_true),
                _ => false,
            }
        }
    }
}
pub fn cfg_ok(attrs: &[Attribute]) -> bool {
    attrs.iter().all(|a| if a.path().is_ident("cfg") { cfg_true(&a.parse_args::<Meta>().unwrap()) } else { !a.path().is_ident("test") })
}

thread_local! { static FIELDS: std::cell::RefCell<std::collections::HashMap<String, bool>> = Default::default(); }
/// is every field of this name, in the structs read so far, a bool
pub fn bool_field(n: &str) -> bool { FIELDS.with(|f| f.borrow().get(n) == Some(&true)) }
fn scan_fields(v: &[Item]) {
    for i in v { match i {
        Item::Struct(s) => for f in &s.fields { if let Some(n) = &f.ident { let b = f.ty.to_token_stream().to_string() == "bool"; FIELDS.with(|m| { let mut m = m.borrow_mut(); let o = m.get(&n.to_string()).cloned().unwrap_or(true); m.insert(n.to_string(), o && b); }); } },
        Item::Mod(m) => if let Some((_, v)) = &m.content { scan_fields(v) },
        _ => {} } }
}

fn emit(kind: &str, file: &str, hdr: &str, name: &str, text: String) {
    println!("#ITEM {}|{}|{}|{}", kind, file, hdr, name);
    println!("{}", text);
    println!("#END");
}

/// local names that are types or keywords of the verifier get an underscore
struct Rename;
impl VisitMut for Rename {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { rename(&mut p.ident); syn::visit_mut::visit_pat_ident_mut(self, p); }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.segments.len() == 1 && p.path.leading_colon.is_none() { rename(&mut p.path.segments[0].ident); } syn::visit_mut::visit_expr_path_mut(self, p); }
}
fn rename(i: &mut Ident) { if matches!(i.to_string().as_str(), "int" | "nat" | "spec" | "proof" | "exec" | "ghost" | "tracked" | "real") { *i = Ident::new(&format!("{}_", i), i.span()); } }
fn fix_fn(f: &mut ImplItemFn, self_ty: Option<&str>) -> std::result::Result<(), String> {
    f.attrs.clear();
    f.vis = parse_quote!(pub);
    f.sig.constness = None;
    let mut d = desugar::Desugar::new(self_ty.unwrap_or("").to_string());
    Rename.visit_signature_mut(&mut f.sig);
    Rename.visit_block_mut(&mut f.block);
    d.find_bools(&f.sig, &f.block);
    d.visit_block_mut(&mut f.block);
    d.finish(&mut f.block);
    if d.errors.is_empty() { Ok(()) } else { Err(d.errors.join("; ")) }
}

fn do_fn(file: &str, hdr: &str, mut f: ImplItemFn, is_trait: bool) {
    let name = f.sig.ident.to_string();
    let self_ty = hdr.to_string();
    match fix_fn(&mut f, Some(&self_ty)) {
        Ok(()) => { if is_trait { f.vis = Visibility::Inherited; } emit(if is_trait { "traitfn" } else { "fn" }, file, hdr, &name, quote!(impl X { #f }).to_string()) }
        Err(e) => emit("error", file, hdr, &name, e),
    }
}

/// iterator traits and types -> those of the prelude; generic word types -> Word
struct Mono { t: bool }
impl VisitMut for Mono {
    fn visit_path_mut(&mut self, p: &mut Path) {
        syn::visit_mut::visit_path_mut(self, p);
        let n = p.segments.len();
        let last = p.segments.last().unwrap().ident.to_string();
        if last == "Iterator" && n == 1 { p.segments[0].ident = parse_quote!(WIt); }
        if last == "Iter" && n >= 2 && p.segments[n - 2].ident == "slice" {
            let mut sg = p.segments.last().unwrap().clone();
            sg.ident = parse_quote!(WIter);
            if let PathArguments::AngleBracketed(a) = &mut sg.arguments { a.args = a.args.iter().filter(|x| matches!(x, GenericArgument::Lifetime(_))).cloned().collect(); }
            *p = sg.into();
        }
        if last == "RightShiftedSlice" {
            let l = p.segments.last_mut().unwrap();
            if let PathArguments::AngleBracketed(a) = &mut l.arguments { a.args = a.args.iter().filter(|x| matches!(x, GenericArgument::Lifetime(_))).cloned().collect(); }
        }
        if self.t && p.is_ident("T") { *p = parse_quote!(Word); }
    }
}
fn mono(it: &mut Item) {
    let drop_t = |g: &mut Generics| { g.params = g.params.iter().filter(|x| !matches!(x, GenericParam::Type(t) if t.ident == "T")).cloned().collect(); g.where_clause = None; };
    let t = match it {
        Item::Struct(s) if s.ident == "RightShiftedSlice" => { drop_t(&mut s.generics); true }
        Item::Impl(i) if i.self_ty.to_token_stream().to_string().starts_with("RightShiftedSlice") => { drop_t(&mut i.generics); true }
        _ => false,
    };
    Mono { t }.visit_item_mut(it);
}

fn items(file: &str, v: Vec<Item>) {
    for mut it in v {
        if !matches!(it, Item::Mod(_)) { mono(&mut it); }
        match it {
            Item::Fn(f) if cfg_ok(&f.attrs) => {
                let g = ImplItemFn { attrs: vec![], vis: f.vis, defaultness: None, sig: f.sig, block: *f.block };
                do_fn(file, "", g, false);
            }
            Item::Struct(mut s) if cfg_ok(&s.attrs) => {
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); }
                emit("struct", file, "", &s.ident.to_string(), s.to_token_stream().to_string());
            }
            Item::Enum(mut s) if cfg_ok(&s.attrs) => {
                s.attrs.clear();
                for v in s.variants.iter_mut() { v.attrs.clear(); }
                emit("enum", file, "", &s.ident.to_string(), s.to_token_stream().to_string());
            }
            Item::Const(mut c) if cfg_ok(&c.attrs) => { c.attrs.clear(); c.vis = parse_quote!(pub); { let mut d = desugar::Desugar::new(String::new()); d.visit_expr_mut(&mut c.expr); } emit("const", file, "", &c.ident.to_string(), c.to_token_stream().to_string()); }
            Item::Type(mut c) if cfg_ok(&c.attrs) => { c.attrs.clear(); emit("type", file, "", &c.ident.to_string(), c.to_token_stream().to_string()); }
            Item::Impl(i) if cfg_ok(&i.attrs) => {
                let mut h = i.clone();
                h.items.clear(); h.attrs.clear();
                let is_trait = i.trait_.is_some();
                let mut hdr = h.to_token_stream().to_string();
                hdr = hdr.trim_end().trim_end_matches('}').trim_end().trim_end_matches('{').trim().to_string();
                let mut assoc = String::new();
                for x in &i.items { match x { ImplItem::Type(t) => assoc += &t.to_token_stream().to_string(), ImplItem::Const(t) => assoc += &t.to_token_stream().to_string(), _ => {} } }
                if is_trait { emit("impl", file, &hdr, "", assoc); }
                let mut all = vec![];
                for x in i.items { if let ImplItem::Macro(mm) = &x { if let Some(v) = macros::expand_impl_items(&mm.mac) { all.extend(v); } } else { all.push(x); } }
                for x in all { if let ImplItem::Fn(f) = x { if cfg_ok(&f.attrs) { do_fn(file, &hdr, f, is_trait); } } }
            }
            Item::Mod(m) if cfg_ok(&m.attrs) => { if let Some((_, v)) = m.content { items(file, v) } }
            Item::Macro(m) if cfg_ok(&m.attrs) => {
                if m.mac.path.is_ident("macro_rules") { macros::add_macro(&m); }
                else { match macros::expand_items(&m.mac) { Some(v) => items(file, v), None => {} } }
            }
            _ => {}
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    for f in &a[2..] { if let Ok(x) = syn::parse_file(&std::fs::read_to_string(format!("{}/{}", a[1], f)).unwrap_or_default()) { scan_fields(&x.items) } }
    for f in &a[2..] {
        let t = std::fs::read_to_string(format!("{}/{}", a[1], f)).unwrap_or_default();
        match syn::parse_file(&t) { Ok(x) => items(f, x.items), Err(e) => emit("error", f, "", "*", e.to_string()) }
    }
}
