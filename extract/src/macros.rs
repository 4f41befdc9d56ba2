//! expansion of the `macro_rules!` macros that generate items (impl blocks and methods)
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::{cell::RefCell, collections::HashMap};
use syn::{parse::Parser, *};

thread_local! { static MACROS: RefCell<HashMap<String, Vec<(Vec<TokenTree>, TokenStream)>>> = RefCell::new(HashMap::new()); }

pub fn add_macro(m: &ItemMacro) {
    let Some(id) = &m.ident else { return };
    let t: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let mut arms = vec![]; let mut i = 0;
    while i + 3 < t.len() + 0 {
        if let (TokenTree::Group(p), TokenTree::Group(b)) = (&t[i], &t[i + 3]) { arms.push((p.stream().into_iter().collect(), b.stream())); }
        i += 4;
        while i < t.len() { if let TokenTree::Punct(p) = &t[i] { if p.as_char() == ';' { i += 1; continue; } } break; }
    }
    MACROS.with(|x| x.borrow_mut().insert(id.to_string(), arms));
}

#[derive(Clone, Debug)]
enum B { One(TokenStream), Many(Vec<HashMap<String, B>>) }

fn is_p(t: Option<&TokenTree>, c: char) -> bool { matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c) }

/// one fragment from the input
fn frag(kind: &str, inp: &[TokenTree], pos: &mut usize) -> Option<TokenStream> {
    let st = *pos;
    match kind {
        "ident" => { if let Some(TokenTree::Ident(_)) = inp.get(*pos) { *pos += 1; } else { return None; } }
        "literal" => { if is_p(inp.get(*pos), '-') { *pos += 1; } if let Some(TokenTree::Literal(_)) = inp.get(*pos) { *pos += 1; } else { return None; } }
        "block" => { match inp.get(*pos) { Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => *pos += 1, _ => return None } }
        "tt" => { inp.get(*pos)?; *pos += 1; }
        _ => {
            let mut depth = 0i32;
            while let Some(x) = inp.get(*pos) {
                if let TokenTree::Punct(p) = x { match p.as_char() { '<' => depth += 1, '>' => depth -= 1, ',' | ';' if depth <= 0 => break, '=' if depth <= 0 && kind == "ty" => break, _ => {} } }
                *pos += 1;
            }
            if *pos == st { return None; }
        }
    }
    Some(inp[st..*pos].iter().cloned().collect())
}

fn matches_(pat: &[TokenTree], inp: &[TokenTree], pos: &mut usize, b: &mut HashMap<String, B>) -> bool {
    let mut i = 0;
    while i < pat.len() {
        if is_p(Some(&pat[i]), '$') {
            match pat.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    let Some(TokenTree::Ident(k)) = pat.get(i + 3) else { return false };
                    match frag(&k.to_string(), inp, pos) { Some(t) => { b.insert(n.to_string(), B::One(t)); } None => return false }
                    i += 4;
                }
                Some(TokenTree::Group(g)) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let (sep, adv) = match pat.get(i + 2) { Some(TokenTree::Punct(p)) if !"*+?".contains(p.as_char()) => (Some(p.as_char()), 4), _ => (None, 3) };
                    let mut reps = vec![];
                    loop {
                        let mut q = *pos; let mut bb = HashMap::new();
                        if q < inp.len() && matches_(&inner, inp, &mut q, &mut bb) && q > *pos { reps.push(bb); *pos = q; } else { break; }
                        if let Some(c) = sep { if is_p(inp.get(*pos), c) && *pos + 1 < inp.len() { *pos += 1; } else { break; } }
                    }
                    let mut names = vec![];
                    for w in inner.windows(2) { if is_p(Some(&w[0]), '$') { if let TokenTree::Ident(n) = &w[1] { names.push(n.to_string()); } } }
                    for n in names { b.insert(n, B::Many(reps.clone())); }
                    i += adv;
                }
                _ => return false,
            }
        } else {
            let ok = match (&pat[i], inp.get(*pos)) {
                (TokenTree::Group(p), Some(TokenTree::Group(q))) if p.delimiter() == q.delimiter() => {
                    let (pp, qq): (Vec<_>, Vec<_>) = (p.stream().into_iter().collect(), q.stream().into_iter().collect());
                    let mut k = 0; matches_(&pp, &qq, &mut k, b) && k == qq.len()
                }
                (p, Some(q)) => p.to_string() == q.to_string(),
                (p, None) => p.to_string() == "," && i + 1 == pat.len(),
            };
            if !ok { return false; }
            if *pos < inp.len() { *pos += 1; }
            i += 1;
        }
    }
    true
}

fn transcribe(t: TokenStream, b: &HashMap<String, B>) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![]; let mut i = 0;
    while i < v.len() {
        if is_p(Some(&v[i]), '$') {
            match v.get(i + 1) {
                Some(TokenTree::Ident(n)) => { if let Some(B::One(x)) = b.get(&n.to_string()) { out.extend(x.clone()); i += 2; continue; } }
                Some(TokenTree::Group(g)) => {
                    let (sep, adv) = match v.get(i + 2) { Some(TokenTree::Punct(p)) if !"*+?".contains(p.as_char()) => (Some(v[i + 2].clone()), 4), _ => (None, 3) };
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut reps = vec![];
                    for w in inner.windows(2) { if is_p(Some(&w[0]), '$') { if let TokenTree::Ident(n) = &w[1] { if let Some(B::Many(r)) = b.get(&n.to_string()) { reps = r.clone(); } } } }
                    for (k, r) in reps.iter().enumerate() {
                        if k > 0 { if let Some(s) = &sep { out.push(s.clone()); } }
                        let mut bb = b.clone(); bb.extend(r.clone());
                        out.extend(transcribe(g.stream(), &bb));
                    }
                    i += adv; continue;
                }
                _ => {}
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            let mut n = Group::new(g.delimiter(), transcribe(g.stream(), b)); n.set_span(g.span());
            out.push(TokenTree::Group(n));
        } else { out.push(v[i].clone()); }
        i += 1;
    }
    out.into_iter().collect()
}

pub fn expand(m: &Macro) -> Option<TokenStream> {
    let name = m.path.segments.last()?.ident.to_string();
    MACROS.with(|x| {
        let x = x.borrow();
        let inp: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
        for (p, t) in x.get(&name)? {
            let mut pos = 0; let mut b = HashMap::new();
            if matches_(p, &inp, &mut pos, &mut b) && (pos == inp.len() || pos + 1 == inp.len() && is_p(inp.get(pos), ',')) { return Some(transcribe(t.clone(), &b)); }
        }
        None
    })
}
pub fn expand_items(m: &Macro) -> Option<Vec<Item>> { parse2::<File>(expand(m)?).ok().map(|f| f.items) }
pub fn expand_impl_items(m: &Macro) -> Option<Vec<ImplItem>> {
    let p = |i: parse::ParseStream| -> Result<Vec<ImplItem>> { let mut v = vec![]; while !i.is_empty() { v.push(i.parse()?); } Ok(v) };
    p.parse2(expand(m)?).ok()
}
