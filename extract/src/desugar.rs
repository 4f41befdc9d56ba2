//! Source-to-source rules. Each rule keeps the run-time behaviour; see DESIGN.md for the list.
use proc_macro2::{TokenStream, TokenTree, Group, Ident, Span};
use quote::{quote, ToTokens, format_ident};
use std::collections::HashMap;
use syn::{visit_mut::{self, VisitMut}, *};
use syn::parse::Parser;


/// What a loop iterates over.
#[derive(Clone)]
enum It {
    /// words `base[lo..hi]`, in steps of one; `var` is an index variable that lives outside the loop (let-bound iterator)
    Idx { base: Expr, lo: Expr, hi: Expr, rev: bool, muta: bool, var: Option<(Ident, Ident)>, refs: bool },
    Range { lo: Expr, hi: Expr, rev: bool },
    Opaque { place: Expr },
    Enum(Box<It>),
    Zip(Vec<It>, bool), // bool: nested pairs
    Take(Box<It>, Expr),
}

pub struct Desugar { n: usize, alias: HashMap<String, It>, pub errors: Vec<String>, opaque: Vec<String>, self_ty: String, ptrs: HashMap<String, Ident>, pub bools: Vec<String>, consts: HashMap<String, u128>, floats: Vec<(String, bool)> }

fn s(e: &impl ToTokens) -> String { e.to_token_stream().to_string() }
fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(p) => strip(&p.expr), _ => e } }
fn zero() -> Expr { parse_quote!(0) }

/// replaces uses of a loop variable
struct Subst { name: String, deref: Expr, bare: Expr }
fn binds(p: &Pat, n: &str) -> bool {
    match p { Pat::Ident(i) => i.ident == n, Pat::Reference(r) => binds(&r.pat, n), Pat::Tuple(t) => t.elems.iter().any(|x| binds(x, n)), Pat::TupleStruct(t) => t.elems.iter().any(|x| binds(x, n)), Pat::Type(t) => binds(&t.pat, n), Pat::Paren(t) => binds(&t.pat, n), Pat::Or(t) => t.cases.iter().any(|x| binds(x, n)), Pat::Struct(t) => t.fields.iter().any(|x| binds(&x.pat, n)), _ => false }
}
impl VisitMut for Subst {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        self.visit_expr_mut(&mut f.expr);
        if !binds(&f.pat, &self.name) { self.visit_block_mut(&mut f.body); }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        if !c.inputs.iter().any(|p| binds(p, &self.name)) { self.visit_expr_mut(&mut c.body); }
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        let mut shadow = false;
        if let Expr::Let(l) = &mut *i.cond { self.visit_expr_mut(&mut l.expr); shadow = binds(&l.pat, &self.name); } else { self.visit_expr_mut(&mut i.cond); }
        if !shadow { self.visit_block_mut(&mut i.then_branch); }
        if let Some((_, e)) = &mut i.else_branch { self.visit_expr_mut(e); }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) { if !binds(&a.pat, &self.name) { visit_mut::visit_arm_mut(self, a) } }
    fn visit_block_mut(&mut self, b: &mut Block) {
        for st in b.stmts.iter_mut() {
            self.visit_stmt_mut(st);
            if let Stmt::Local(l) = st { if binds(&l.pat, &self.name) { return; } }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e {
            if let Expr::Path(p) = strip(expr) { if p.path.is_ident(&self.name) { *e = self.deref.clone(); return; } }
        }
        if let Expr::Path(p) = e { if p.path.is_ident(&self.name) { *e = self.bare.clone(); return; } }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl Desugar {
    pub fn new(self_ty: String) -> Self { Desugar { n: 0, alias: HashMap::new(), errors: vec![], opaque: vec![], self_ty, ptrs: HashMap::new(), bools: vec![] , consts: HashMap::new(), floats: vec![] } }
    /// names of boolean parameters and variables
    pub fn find_bools(&mut self, sig: &Signature, b: &Block) {
        for a in &sig.inputs { if let FnArg::Typed(PatType { pat, ty, .. }) = a { if let Pat::Ident(p) = &**pat { let t = s(ty).replace(' ', ""); if t == "bool" || t == "&mutbool" || t == "&bool" { self.bools.push(p.ident.to_string()); } } } }
        for a in &sig.inputs { if let FnArg::Typed(PatType { pat, ty, .. }) = a { if let Pat::Ident(p) = &**pat { let t = s(ty); if t == "f64" || t == "f32" { self.floats.push((p.ident.to_string(), t == "f32")); } } } }
        struct L<'a>(&'a mut Vec<String>);
        impl<'a> VisitMut for L<'a> { fn visit_local_mut(&mut self, l: &mut Local) {
            let lit = l.init.as_ref().map_or(false, |i| matches!(strip(&i.expr), Expr::Lit(ExprLit { lit: Lit::Bool(_), .. })));
            match &l.pat { Pat::Ident(p) if lit => self.0.push(p.ident.to_string()), Pat::Type(t) if s(&t.ty) == "bool" => if let Pat::Ident(p) = &*t.pat { self.0.push(p.ident.to_string()) }, _ => {} }
            visit_mut::visit_local_mut(self, l) } }
        let mut c = b.clone(); L(&mut self.bools).visit_block_mut(&mut c);
    }
    fn is_bool(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.bools.contains(&i.to_string())),
            Expr::Unary(u) => self.is_bool(&u.expr),
            Expr::Field(f) => matches!(&f.member, Member::Named(n) if crate::bool_field(&n.to_string())),
            Expr::Lit(ExprLit { lit: Lit::Bool(_), .. }) => true,
            Expr::Binary(b) => matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)),
            _ => false,
        }
    }
    fn fresh(&mut self, p: &str) -> Ident { self.n += 1; format_ident!("{}_{}", p, self.n) }
    pub fn finish(&mut self, b: &mut Block) {
        struct M<'a>(&'a [String]);
        impl<'a> VisitMut for M<'a> { fn visit_local_mut(&mut self, l: &mut Local) { if let Pat::Ident(p) = &mut l.pat { if self.0.contains(&p.ident.to_string()) { p.mutability = Some(Default::default()); } } visit_mut::visit_local_mut(self, l) } }
        let o = self.opaque.clone();
        M(&o).visit_block_mut(b);
    }

    /// splits `base[a..b]` (with optional & / &mut) into base and bounds
    fn slice_of(&self, e: &Expr) -> (Expr, Expr, Expr) {
        let e = match strip(e) { Expr::Reference(r) => strip(&r.expr), x => x };
        if let Expr::Index(ix) = e {
            if let Expr::Range(r) = strip(&ix.index) {
                let b = &ix.expr;
                let b = match strip(b) { Expr::Reference(r) => strip(&r.expr).clone(), x => x.clone() };
                let lo = r.start.as_ref().map_or(zero(), |x| (**x).clone());
                let hi = match (&r.end, &r.limits) { (Some(x), RangeLimits::HalfOpen(_)) => (**x).clone(), (Some(x), _) => parse_quote!(#x + 1), (None, _) => parse_quote!(#b.len()) };
                return (b, lo, hi);
            }
        }
        (e.clone(), zero(), parse_quote!(#e.len()))
    }

    fn is_place(e: &Expr) -> bool { match strip(e) { Expr::Path(p) => p.path.get_ident().is_some(), Expr::Field(f) => Self::is_place(&f.base), Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && Self::is_place(&u.expr), _ => false } }

    fn iter(&mut self, e: &Expr) -> Option<It> {
        match strip(e) {
            Expr::Range(r) => {
                let lo = r.start.as_ref()?; let hi = r.end.as_ref()?;
                let hi: Expr = match r.limits { RangeLimits::HalfOpen(_) => (**hi).clone(), _ => parse_quote!(#hi + 1) };
                Some(It::Range { lo: (**lo).clone(), hi, rev: false })
            }
            Expr::Reference(r) => {
                let (b, lo, hi) = self.slice_of(&r.expr);
                if !Self::is_place(&b) { return None; }
                Some(It::Idx { base: b, lo, hi, rev: false, muta: r.mutability.is_some(), var: None, refs: true })
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match (n.as_str(), m.args.len()) {
                    ("iter", 0) | ("iter_mut", 0) => {
                        let (b, lo, hi) = self.slice_of(&m.receiver);
                        if !Self::is_place(&b) { return None; }
                        Some(It::Idx { base: b, lo, hi, rev: false, muta: n == "iter_mut", var: None, refs: true })
                    }
                    ("copied", 0) | ("cloned", 0) => match self.iter(&m.receiver)? { It::Idx { base, lo, hi, rev, muta: false, var: None, .. } => Some(It::Idx { base, lo, hi, rev, muta: false, var: None, refs: false }), _ => None },
                    ("rev", 0) => match self.iter(&m.receiver)? { It::Idx { base, lo, hi, rev, muta, var: None, refs } => Some(It::Idx { base, lo, hi, rev: !rev, muta, var: None, refs }), It::Range { lo, hi, rev } => Some(It::Range { lo, hi, rev: !rev }), _ => None },
                    ("skip", 1) => { let k = &m.args[0]; match self.iter(&m.receiver)? {
                        It::Idx { base, lo, hi, rev: true, muta, var: None, refs } => { let hi = parse_quote!(if #hi - #lo >= #k { #hi - #k } else { #lo }); Some(It::Idx { base, lo, hi, rev: true, muta, var: None, refs }) }
                        It::Idx { base, lo, hi, rev: false, muta, var: None, refs } => { let lo = parse_quote!(if #hi - #lo >= #k { #lo + #k } else { #hi }); Some(It::Idx { base, lo, hi, rev: false, muta, var: None, refs }) }
                        _ => None } }
                    ("take", 1) => { let i = self.iter(&m.receiver)?; Some(It::Take(Box::new(i), m.args[0].clone())) }
                    ("enumerate", 0) => Some(It::Enum(Box::new(self.iter(&m.receiver)?))),
                    ("zip", 1) => { let a = self.iter(&m.receiver)?; let b = self.iter(&m.args[0])?; Some(It::Zip(vec![a, b], true)) }
                    ("by_ref", 0) => self.iter(&m.receiver),
                    _ => None,
                }
            }
            Expr::Call(c) => { let f = s(&c.func).replace(' ', ""); if f.ends_with("iter::zip") && c.args.len() == 2 { let a = self.iter(&c.args[0])?; let b = self.iter(&c.args[1])?; Some(It::Zip(vec![a, b], true)) } else { None } }
            Expr::Macro(m) if m.mac.path.is_ident("izip") => {
                let args = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.mac.tokens.clone()).ok()?;
                let mut v = vec![]; for a in &args { v.push(self.iter(a)?); }
                Some(It::Zip(v, false))
            }
            Expr::Path(p) if p.path.get_ident().is_some() => {
                let n = p.path.get_ident().unwrap().to_string();
                if let Some(it) = self.alias.get(&n) { return Some(it.clone()); }
                self.opaque.push(n);
                Some(It::Opaque { place: strip(e).clone() })
            }
            _ => None,
        }
    }

    /// emits: setup statements, conditions, fetch statements; binds `pat`, substituting in `body`
    fn gen(&mut self, it: &It, pat: &Pat, body: &mut Block, setup: &mut Vec<Stmt>, cond: &mut Vec<Expr>, fetch: &mut Vec<Stmt>) -> bool {
        match it {
            It::Range { lo, hi, rev } => {
                let i = self.fresh("ix"); let en = self.fresh("end");
                if *rev {
                    setup.push(parse_quote!(let #en = #lo;)); setup.push(parse_quote!(let mut #i = #hi;));
                    cond.push(parse_quote!(#i > #en)); fetch.push(parse_quote!(#i -= 1;));
                    if !matches!(pat, Pat::Wild(_)) { fetch.push(parse_quote!(let #pat = #i;)); }
                } else {
                    setup.push(parse_quote!(let mut #i = #lo;)); setup.push(parse_quote!(let #en = #hi;));
                    cond.push(parse_quote!(#i < #en));
                    if !matches!(pat, Pat::Wild(_)) { fetch.push(parse_quote!(let #pat = #i;)); }
                    fetch.push(parse_quote!(#i += 1;));
                }
                true
            }
            It::Idx { base, lo, hi, rev, muta, var, refs } => {
                let (i, en) = match var { Some((i, en)) => (i.clone(), en.clone()), None => {
                    let i = self.fresh("ix"); let en = self.fresh("end");
                    if *rev { setup.push(parse_quote!(let #en: usize = #lo;)); setup.push(parse_quote!(let mut #i: usize = #hi;)); }
                    else { setup.push(parse_quote!(let mut #i: usize = #lo;)); setup.push(parse_quote!(let #en: usize = #hi;)); }
                    (i, en) } };
                cond.push(if *rev { parse_quote!(#i > #en) } else { parse_quote!(#i < #en) });
                // the element
                let (mut name, mut byval) = (None, false);
                match pat {
                    Pat::Wild(_) => {}
                    Pat::Ident(p) => { name = Some((p.ident.clone(), p.mutability.is_some())); }
                    Pat::Reference(r) => match &*r.pat { Pat::Ident(p) => { name = Some((p.ident.clone(), p.mutability.is_some())); byval = true; } _ => return false },
                    _ => return false,
                }
                if !*refs { byval = true; }
                if *rev { fetch.push(parse_quote!(#i -= 1;)); }
                if let Some((nm, mt)) = name {
                    if byval {
                        if mt { fetch.push(parse_quote!(let mut #nm = #base[#i];)); } else { fetch.push(parse_quote!(let #nm = #base[#i];)); }
                        if !*rev { fetch.push(parse_quote!(#i += 1;)); }
                    } else if *muta {
                        let k: Expr = if *rev { parse_quote!(#i) } else { let k = self.fresh("k"); fetch.push(parse_quote!(let #k = #i;)); fetch.push(parse_quote!(#i += 1;)); parse_quote!(#k) };
                        let mut sb = Subst { name: nm.to_string(), deref: parse_quote!(#base[#k]), bare: parse_quote!(&mut #base[#k]) };
                        sb.visit_block_mut(body);
                    } else {
                        fetch.push(parse_quote!(let #nm = #base[#i];));
                        if !*rev { fetch.push(parse_quote!(#i += 1;)); }
                        let mut sb = Subst { name: nm.to_string(), deref: parse_quote!(#nm), bare: parse_quote!((&#nm)) };
                        sb.visit_block_mut(body);
                    }
                } else if !*rev { fetch.push(parse_quote!(#i += 1;)); }
                true
            }
            It::Opaque { place } => {
                let p = match pat { Pat::Wild(_) => { parse_quote!(_) } p => p.clone() };
                // the loop variable is bound to the item itself
                match &p { Pat::Reference(r) => { let q = &r.pat; fetch.push(parse_quote!(let #q = match #place.next() { Some(x_) => *x_, None => break };)) } _ => fetch.push(parse_quote!(let #p = match #place.next() { Some(x_) => x_, None => break };)) }
                true
            }
            It::Enum(inner) => {
                let Pat::Tuple(t) = pat else { return false };
                if t.elems.len() != 2 { return false; }
                let i = self.fresh("cnt");
                setup.push(parse_quote!(let mut #i: usize = 0;));
                if !self.gen(inner, &t.elems[1], body, setup, cond, fetch) { return false; }
                let p = &t.elems[0];
                fetch.push(parse_quote!(let #p = #i;)); fetch.push(parse_quote!(#i += 1;));
                true
            }
            It::Zip(v, _) => {
                let Pat::Tuple(t) = pat else { return false };
                if t.elems.len() != v.len() { return false; }
                for (x, p) in v.iter().zip(t.elems.iter()) { if !self.gen(x, p, body, setup, cond, fetch) { return false; } }
                true
            }
            It::Take(inner, n) => {
                let i = self.fresh("left");
                setup.push(parse_quote!(let mut #i: usize = #n;));
                cond.push(parse_quote!(#i > 0));
                fetch.push(parse_quote!(#i -= 1;));
                self.gen(inner, pat, body, setup, cond, fetch)
            }
        }
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Option<Vec<Stmt>> {
        let it = self.iter(&f.expr)?;
        let (mut setup, mut cond, mut fetch) = (vec![], vec![], vec![]);
        let mut body = f.body.clone();
        if !self.gen(&it, &f.pat, &mut body, &mut setup, &mut cond, &mut fetch) { return None; }
        let mut b = fetch; b.extend(body.stmts);
        let label = &f.label;
        let lp: Expr = if cond.is_empty() { parse_quote!(#label loop { #(#b)* }) } else {
            let mut c = cond[0].clone(); for x in &cond[1..] { c = parse_quote!(#c && #x); }
            parse_quote!(#label while #c { #(#b)* }) };
        setup.push(Stmt::Expr(lp, None));
        Some(setup)
    }

    /// how is the let-bound iterator `name` used in the rest of the block?  only in for / if-let next -> index variable
    fn used_plain(name: &str, rest: &[Stmt]) -> bool {
        struct U<'a>(&'a str, bool);
        impl<'a> visit_mut::VisitMut for U<'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Path(p) if p.path.is_ident(self.0) => self.1 = true,
                    Expr::ForLoop(f) => { self.visit_block_mut(&mut f.body); }
                    Expr::If(i) => {
                        if let Expr::Let(l) = &*i.cond { if s(&l.expr).replace(' ', "") == format!("{}.next()", self.0) { self.visit_block_mut(&mut i.then_branch); if let Some((_, e)) = &mut i.else_branch { self.visit_expr_mut(e) } return; } }
                        visit_mut::visit_expr_mut(self, e)
                    }
                    _ => visit_mut::visit_expr_mut(self, e),
                }
            }
        }
        let mut u = U(name, false);
        for st in rest { let mut st = st.clone(); u.visit_stmt_mut(&mut st); }
        u.1
    }

    fn words_iter(e: &Expr) -> Option<(Expr, bool, Vec<(String, Option<Expr>)>)> {
        // X.iter() [.rev()] [.skip(n)] [.map(deref)] used as a value
        let mut ops = vec![]; let mut cur = strip(e).clone();
        loop {
            let Expr::MethodCall(m) = &cur else { return None };
            let n = m.method.to_string();
            match (n.as_str(), m.args.len()) {
                ("iter", 0) => { let r = match strip(&m.receiver) { Expr::Reference(r) => (*r.expr).clone(), x => x.clone() }; let rev = ops.iter().any(|(x, _): &(String, Option<Expr>)| x == "rev"); ops.reverse(); return Some((r, rev, ops)); }
                ("rev", 0) => ops.push((n, None)),
                ("copied", 0) | ("cloned", 0) => ops.push(("copied".into(), None)),
                ("skip", 1) => ops.push((n, Some(m.args[0].clone()))),
                ("map", 1) => { let a = s(&m.args[0]).replace(' ', ""); if a == "deref" || a == "|&x|x" || a == "|x|*x" || a == "|x:&Word|*x" { ops.push(("copied".into(), None)) } else { return None } }
                _ => return None,
            }
            let r = (*m.receiver).clone(); cur = strip(&r).clone();
        }
    }

    /// value-position iterator -> verified word iterator of the prelude
    fn value_iter(e: &Expr) -> Option<Expr> {
        let (base, rev, ops) = Self::words_iter(e)?;
        let copied = ops.iter().any(|x| x.0 == "copied");
        let skip = ops.iter().find(|x| x.0 == "skip").and_then(|x| x.1.clone());
        let ctor = match (rev, copied) { (false, false) => quote!(WIter), (false, true) => quote!(WIterCopied), (true, false) => quote!(WRev), (true, true) => quote!(WRevCopied) };
        let k: Expr = skip.unwrap_or(zero());
        Some(parse_quote!(#ctor::new(&#base, #k)))
    }
}

fn has_word(t: TokenStream, name: &str) -> bool {
    t.into_iter().any(|x| match x { TokenTree::Ident(i) => i == name, TokenTree::Group(g) => has_word(g.stream(), name), _ => false })
}

fn map_tokens(t: TokenStream, f: &dyn Fn(&Ident) -> Option<TokenStream>) -> TokenStream {
    t.into_iter().flat_map(|x| -> TokenStream { match x { TokenTree::Ident(i) => f(&i).unwrap_or_else(|| i.to_token_stream()), TokenTree::Group(g) => { let mut h = Group::new(g.delimiter(), map_tokens(g.stream(), f)); h.set_span(g.span()); TokenTree::Group(h).into() } x => x.into() } }).collect()
}

/// the literal pattern of a pointer walk over one slice: pointers become indices into it
struct Ptr<'a> { base: &'a Expr, names: Vec<String> }
impl<'a> Ptr<'a> {
    fn is_ptr(&self, e: &Expr) -> bool {
        match strip(e) { Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.names.contains(&i.to_string())), Expr::MethodCall(m) => (m.method == "add" || m.method == "sub") && self.is_ptr(&m.receiver), _ => false }
    }
}
impl<'a> VisitMut for Ptr<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let ip = |x: &Expr| self.is_ptr(x);
        match e {
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) if ip(expr) => { let mut x = (**expr).clone(); self.visit_expr_mut(&mut x); let b = self.base; *e = parse_quote!(#b[#x]); return; }
            Expr::MethodCall(m) if m.method == "as_mut_ptr" || m.method == "as_ptr" => { *e = parse_quote!(0usize); return; }
            Expr::MethodCall(m) if (m.method == "add" || m.method == "sub") && ip(&m.receiver) => {
                let add = m.method == "add";
                let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r);
                let mut a = m.args[0].clone(); self.visit_expr_mut(&mut a);
                let a: Expr = match &a { Expr::Binary(_) => parse_quote!((#a)), _ => a };
                *e = if add { parse_quote!(#r + #a) } else { parse_quote!(#r - #a) };
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Some(i) = &l.init {
            let isp = match strip(&i.expr) { Expr::MethodCall(m) if m.method == "as_mut_ptr" || m.method == "as_ptr" => true, x => self.is_ptr(x) };
            if isp { if let Pat::Ident(p) = &l.pat { self.names.push(p.ident.to_string()); } }
        }
        visit_mut::visit_local_mut(self, l);
    }
}

struct FindPtr(Option<Expr>);
impl VisitMut for FindPtr { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::MethodCall(m) = e { if m.method == "as_mut_ptr" || m.method == "as_ptr" { self.0 = Some((*m.receiver).clone()); } } visit_mut::visit_expr_mut(self, e) } }

impl Desugar {
    /// value of a constant expression
    fn eval(&self, e: &Expr) -> Option<u128> {
        match strip(e) {
            Expr::Lit(l) => if let Lit::Int(i) = &l.lit { i.base10_parse().ok() } else { None },
            Expr::Path(p) => { let n = s(p); if n == "WORD_BIT_SIZE" { Some(64) } else { self.consts.get(&n).copied() } }
            Expr::Binary(b) => { let (x, y) = (self.eval(&b.left)?, self.eval(&b.right)?); match b.op { BinOp::Add(_) => x.checked_add(y), BinOp::Sub(_) => x.checked_sub(y), BinOp::Mul(_) => x.checked_mul(y), BinOp::Div(_) => x.checked_div(y), _ => None } }
            _ => None,
        }
    }
}
impl VisitMut for Desugar {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // raw pointer walks over one slice
        if self.ptrs.is_empty() {
            let mut fp = FindPtr(None); let mut c = b.clone(); fp.visit_block_mut(&mut c);
            if let Some(base) = fp.0 { self.ptrs.insert("done".into(), Ident::new("done", Span::call_site())); let mut p = Ptr { base: &base, names: vec![] }; p.visit_block_mut(b); }
        }
        let saved = self.alias.clone();
        let old = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        let n = old.len();
        for (i, st) in old.iter().enumerate() {
            let mut st = st.clone();
            // a constant of the function becomes a variable
            if let Stmt::Item(Item::Const(c)) = &st { let (n, t, e) = (c.ident.clone(), c.ty.clone(), c.expr.clone()); let mut v = (*e).clone(); self.visit_expr_mut(&mut v); if let Some(v) = self.eval(&v) { self.consts.insert(n.to_string(), v); } st = parse_quote!(let #n: #t = #e;); }
            // cfg'd statements
            let attrs: &mut Vec<Attribute> = match &mut st { Stmt::Local(l) => &mut l.attrs, Stmt::Expr(Expr::Block(x), _) => &mut x.attrs, Stmt::Expr(Expr::Unsafe(x), _) => &mut x.attrs, Stmt::Macro(m) => &mut m.attrs, Stmt::Expr(Expr::If(x), _) => &mut x.attrs, Stmt::Expr(Expr::Assign(x), _) => &mut x.attrs, Stmt::Expr(Expr::ForLoop(x), _) => &mut x.attrs, Stmt::Expr(Expr::Call(x), _) => &mut x.attrs, Stmt::Expr(Expr::Return(x), _) => &mut x.attrs, _ => &mut vec![] };
            if !crate::cfg_ok(attrs) { continue; }
            let was_cfg = attrs.iter().any(|a| a.path().is_ident("cfg"));
            attrs.clear();
            match &st {
                Stmt::Item(Item::Use(_)) => continue,
                Stmt::Macro(m) if m.mac.path.is_ident("debug_assert") || m.mac.path.is_ident("debug_assert_eq") => continue,
                Stmt::Macro(m) if m.mac.path.is_ident("unreachable") => { out.push(parse_quote!(return vstd::pervasive::unreached();)); continue; }
                // closures that only copy words
                Stmt::Local(Local { pat: Pat::Ident(p), init: Some(ini), .. }) if p.ident == "deref" && matches!(&*ini.expr, Expr::Closure(_)) => continue,
                _ => {}
            }
            if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(ini), .. }) = &st {
                if ini.diverge.is_none() {
                    // let-bound iterator
                    let name = p.ident.to_string();
                    if let Expr::MethodCall(_) = strip(&ini.expr) {
                        if !Self::used_plain(&name, &old[i + 1..]) {
                            if let Some(It::Idx { base, lo, hi, rev, muta, var: None, refs }) = self.iter(&ini.expr) {
                                let (iv, ev) = (format_ident!("ix_{}", name), format_ident!("end_{}", name));
                                if rev { out.push(parse_quote!(let #ev: usize = #lo;)); out.push(parse_quote!(let mut #iv: usize = #hi;)); } else { out.push(parse_quote!(let mut #iv: usize = #lo;)); out.push(parse_quote!(let #ev: usize = #hi;)); }
                                self.alias.insert(name, It::Idx { base, lo, hi, rev, muta, var: Some((iv, ev)), refs });
                                continue;
                            }
                        }
                        if let Some(v) = Self::value_iter(&ini.expr) {
                            let pid = &p.ident;
                            self.alias.remove(&name);
                            out.push(parse_quote!(let mut #pid = #v;));
                            continue;
                        }
                    }
                    self.alias.remove(&name);
                }
            }
            // for loops in statement position
            let fl = match &st { Stmt::Expr(Expr::ForLoop(f), _) => Some(f.clone()), _ => None };
            if let Some(f) = fl {
                match self.for_loop(&f) {
                    Some(v) => { for mut x in v { self.visit_stmt_mut(&mut x); out.push(x); } }
                    None => { self.errors.push(format!("loop over {} is outside the translated subset", s(&f.expr))); }
                }
                continue;
            }
            // if let Some(x) = it.next()
            if let Stmt::Expr(Expr::If(ifx), semi) = &st {
                if let Expr::Let(l) = &*ifx.cond {
                    let e = s(&l.expr).replace(' ', "");
                    if let Some(nm) = e.strip_suffix(".next()") {
                        if let Some(it @ It::Idx { .. }) = self.alias.get(nm).cloned() {
                            if let Pat::TupleStruct(ts) = &*l.pat {
                                let (mut su, mut co, mut fe) = (vec![], vec![], vec![]);
                                let mut body = ifx.then_branch.clone();
                                if self.gen(&it, &ts.elems[0], &mut body, &mut su, &mut co, &mut fe) {
                                    let c = &co[0]; let bs = &body.stmts;
                                    let mut x: Expr = match &ifx.else_branch { Some((_, eb)) => parse_quote!(if #c { #(#fe)* #(#bs)* } else #eb), None => parse_quote!(if #c { #(#fe)* #(#bs)* }) };
                                    self.visit_expr_mut(&mut x);
                                    out.push(Stmt::Expr(x, *semi));
                                    continue;
                                }
                            }
                        }
                    }
                }
            }
            self.visit_stmt_mut(&mut st);
            // splice cfg'd blocks
            if let Stmt::Expr(Expr::Block(bl), None) = &st { if was_cfg && bl.label.is_none() { if i + 1 == n || bl.block.stmts.len() == 1 || true { out.extend(bl.block.stmts.clone()); continue; } } }
            if let Stmt::Expr(Expr::Unsafe(u), _) = &st { let bl = &u.block; if has_word(bl.to_token_stream(), "arch") || i + 1 == n { out.extend(bl.stmts.clone()); } else { let ss = &bl.stmts; out.push(Stmt::Expr(parse_quote!({ #(#ss)* }), None)); } continue; }
            out.push(st);
        }
        // cfg'd-out tail: a later false-cfg statement may leave an expression statement as the tail
        b.stmts = out;
        self.alias = saved;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // loops in expression position
        if let Expr::ForLoop(f) = e {
            match self.for_loop(&f.clone()) { Some(v) => { *e = parse_quote!({ #(#v)* }); } None => { self.errors.push(format!("loop over {} is outside the translated subset", s(&f.expr))); return; } }
        }
        // non-short-circuit operators on booleans; the right side of an assignment is evaluated first
        if let Expr::Binary(b) = e {
            let (l, r) = (b.left.clone(), b.right.clone());
            let bl = self.is_bool(&l) || self.is_bool(&r);
            let pure = { struct C(bool); impl VisitMut for C { fn visit_expr_mut(&mut self, e: &mut Expr) { if matches!(e, Expr::Call(_) | Expr::MethodCall(_) | Expr::Macro(_) | Expr::Assign(_) | Expr::Index(_) | Expr::Return(_) | Expr::Try(_)) { self.0 = false } visit_mut::visit_expr_mut(self, e) } } let mut c = C(true); c.visit_expr_mut(&mut r.clone()); c.0 };
            let new: Option<Expr> = match b.op {
                BinOp::BitOrAssign(_) if bl => Some(match &*r { Expr::Lit(_) | Expr::Path(_) | Expr::Field(_) | Expr::Unary(_) => parse_quote!(#l = #r || #l), _ => parse_quote!(#l = (#r) || #l) }),
                BinOp::BitAndAssign(_) if bl => Some(parse_quote!(#l = (#r) && #l)),
                BinOp::BitOr(_) if bl && pure => Some(parse_quote!(#l || #r)),
                BinOp::BitAnd(_) if bl && pure => Some(parse_quote!(#l && #r)),
                _ => None };
            if let Some(n) = new { *e = n; }
        }
        // floating point: comparison with zero, negation and widening become functions with an assumed contract
        if !self.floats.is_empty() {
            let fl = |x: &Expr| match strip(x) { Expr::Path(p) => self.floats.iter().find(|f| p.path.is_ident(&f.0)).map(|f| f.1), _ => None };
            let new: Option<Expr> = match &*e {
                Expr::Binary(b) if fl(&b.left) == Some(false) && matches!(strip(&b.right), Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) if f.base10_digits().parse::<f64>() == Ok(0.0)) => {
                    let l = &b.left;
                    match b.op { BinOp::Eq(_) => Some(parse_quote!(f64_eq0(#l))), BinOp::Ne(_) => Some(parse_quote!(!f64_eq0(#l))), BinOp::Lt(_) => Some(parse_quote!(f64_lt0(#l))), BinOp::Gt(_) => Some(parse_quote!(f64_gt0(#l))), _ => None }
                }
                Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) if fl(expr) == Some(false) => Some(parse_quote!(f64_neg(#expr))),
                Expr::Cast(c) if fl(&c.expr) == Some(true) && s(&c.ty) == "f64" => { let x = &c.expr; Some(parse_quote!(f32_to_f64(#x))) }
                _ => None };
            if let Some(n) = new { *e = n; }
        }
        if let Expr::Repeat(r) = e { let mut l = (*r.len).clone(); self.visit_expr_mut(&mut l); if let Some(v) = self.eval(&l) { let v = LitInt::new(&v.to_string(), Span::call_site()); r.len = parse_quote!(#v); } }
        match e {
            Expr::Macro(m) if m.mac.path.is_ident("unreachable") => { *e = parse_quote!(vstd::pervasive::unreached()); return; }
            // size_of::<Word>() and friends
            Expr::Call(c) => {
                let t = s(&c.func).replace(' ', "");
                if t.ends_with("size_of::<Word>") || t.ends_with("size_of::<u64>") || t.ends_with("size_of::<usize>") { *e = parse_quote!(8usize); return; }
                for (k, v) in [("u8", 1usize), ("i8", 1), ("u16", 2), ("i16", 2), ("u32", 4), ("i32", 4), ("i64", 8), ("u128", 16), ("i128", 16), ("DoubleWord", 16)] {
                    if t.ends_with(&format!("size_of::<{}>", k)) { *e = parse_quote!(#v); return; }
                }
                if t.ends_with("size_of::<Exponent>") { *e = parse_quote!(4usize); return; }
            }
            Expr::Cast(c) => {
                let t = s(&c.expr);
                // discriminants of a sign: `x.s as T`, `*self as T` in `impl Sign`, `*s1 as T`
                let x = strip(&c.expr);
                let sg = matches!(x, Expr::Field(f) if matches!(&f.member, Member::Named(n) if n == "s"))
                    || (t == "* self" && self.self_ty == "impl Sign") || t == "* s1" || t == "* s2";
                if sg { let x = &c.expr; let ty = &c.ty; *e = parse_quote!((sign_int(#x) as #ty)); return; }
                if t == "rm" || t == "Radix" { let x = &c.expr; let ty = &c.ty; *e = parse_quote!((rm_bits(#x) as #ty)); return; }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if (n == "any" || n == "all") && m.args.len() == 1 {
                    if let Expr::Closure(cl) = &m.args[0] {
                        if let Some(it @ It::Idx { .. }) = self.iter(&m.receiver) {
                            let (mut su, mut co, mut fe) = (vec![], vec![], vec![]);
                            let cb = &cl.body;
                            let found = self.fresh("found");
                            let mut body: Block = if n == "any" { parse_quote!({ if #cb { #found = true; break; } }) } else { parse_quote!({ if !(#cb) { #found = false; break; } }) };
                            if self.gen(&it, &cl.inputs[0], &mut body, &mut su, &mut co, &mut fe) {
                                let c = &co[0]; let bs = &body.stmts;
                                let init: Expr = if n == "any" { parse_quote!(false) } else { parse_quote!(true) };
                                *e = parse_quote!({ let mut #found = #init; #(#su)* while #c { #(#fe)* #(#bs)* } #found });
                                visit_mut::visit_expr_mut(self, e);
                                return;
                            }
                        }
                    }
                }
                // a result whose value is dropped
                if n == "map" && m.args.len() == 1 {
                    if let Expr::Closure(cl) = &m.args[0] {
                        if cl.inputs.len() == 1 && matches!(&cl.inputs[0], Pat::Wild(_)) && matches!(strip(&cl.body), Expr::Block(b) if b.block.stmts.is_empty()) {
                            let r = &m.receiver;
                            *e = parse_quote!(match #r { Ok(_) => Ok(()), Err(err) => Err(err) });
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                }
                if n == "iter" && matches!(strip(&m.receiver), Expr::Array(a) if a.elems.is_empty()) { *e = parse_quote!(WIter::empty()); return; }
                if n == "clamp" && m.args.len() == 2 && s(&m.args).contains("EXPONENT_") {
                    let b = &m.receiver; let a = &m.args;
                    *e = parse_quote!(clamp_exponent(#b, #a));
                    return;
                }
                if n == "copy_within" && m.args.len() == 2 {
                    if let Expr::Range(r) = strip(&m.args[0]) {
                        let b = &m.receiver; let d = &m.args[1];
                        let lo = r.start.as_ref().map_or(zero(), |x| (**x).clone());
                        let hi: Expr = r.end.as_ref().map_or(parse_quote!(#b.len()), |x| (**x).clone());
                        *e = parse_quote!(copy_within_words(#b, #lo, #hi, #d));
                        return;
                    }
                }
                for a in m.args.iter_mut() { if let Some(v) = Self::value_iter(a) { *a = v; } }
                if let Some(v) = match (n.as_str(), m.args.len()) { ("try_reserve", 1) | ("try_reserve_exact", 1) | ("set_len", 1) => Some(true), ("capacity", 0) => Some(false), _ => None } {
                    let f = format_ident!("vec_{}", n); let b = &m.receiver; let a = &m.args;
                    *e = if v { parse_quote!(#f(#a, &mut #b)) } else { parse_quote!(#f(&#b)) };
                }
            }
            _ => {}
        }
        if let Expr::Call(c) = e {
            for a in c.args.iter_mut() { if let Some(v) = Self::value_iter(a) { *a = v; } }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Unsafe(u) = e { let b = &u.block; *e = parse_quote!(#b); }
    }
}
#[allow(dead_code)]
fn unused() { let _ = map_tokens; }
