//! A small macro_rules expander, enough for the macros of /repo.
use proc_macro2::{Delimiter, Group, Ident, Spacing, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, HashSet};
use syn::parse::{ParseStream, Parser};

pub struct Rule {
    pat: Vec<TokenTree>,
    body: TokenStream,
}
pub type Table = BTreeMap<String, Vec<Rule>>;

#[derive(Clone)]
enum Bind {
    One(TokenStream, bool),
    Many(Vec<Binds>),
}
type Binds = BTreeMap<String, Bind>;

pub fn parse_rules(ts: TokenStream) -> Vec<Rule> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let pat = match &v[i] {
            TokenTree::Group(g) => g.stream().into_iter().collect(),
            _ => break,
        };
        let body = match &v[i + 3] {
            TokenTree::Group(g) => g.stream(),
            _ => break,
        };
        out.push(Rule { pat, body });
        i += 4;
        if i < v.len() {
            if let TokenTree::Punct(p) = &v[i] {
                if p.as_char() == ';' {
                    i += 1;
                }
            }
        }
    }
    out
}

fn split_expr(ts: TokenStream) -> Option<(syn::Expr, TokenStream)> {
    let p = |input: ParseStream| -> syn::Result<(syn::Expr, TokenStream)> {
        let e: syn::Expr = input.parse()?;
        let rest: TokenStream = input.parse()?;
        Ok((e, rest))
    };
    p.parse2(ts).ok()
}
fn split_type(ts: TokenStream) -> Option<(syn::Type, TokenStream)> {
    let p = |input: ParseStream| -> syn::Result<(syn::Type, TokenStream)> {
        let e: syn::Type = input.parse()?;
        let rest: TokenStream = input.parse()?;
        Ok((e, rest))
    };
    p.parse2(ts).ok()
}

fn is_lit(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(_) => true,
        syn::Expr::Group(g) => is_lit(&g.expr),
        _ => false,
    }
}

fn match_pat(pat: &[TokenTree], input: TokenStream, b: &mut Binds) -> Option<()> {
    let mut i = 0;
    let mut inp = input;
    while i < pat.len() {
        if let TokenTree::Punct(p) = &pat[i] {
            if p.as_char() == '$' {
                match &pat[i + 1] {
                    TokenTree::Ident(name) => {
                        let frag = pat[i + 3].to_string();
                        i += 4;
                        match frag.as_str() {
                            "expr" | "literal" => {
                                let (e, rest) = split_expr(inp)?;
                                if frag == "literal" && !is_lit(&e) {
                                    return None;
                                }
                                b.insert(name.to_string(), Bind::One(e.to_token_stream(), is_lit(&e)));
                                inp = rest;
                            }
                            "ty" => {
                                let (e, rest) = split_type(inp)?;
                                b.insert(name.to_string(), Bind::One(e.to_token_stream(), true));
                                inp = rest;
                            }
                            "ident" | "tt" => {
                                let mut it = inp.into_iter();
                                let t = it.next()?;
                                b.insert(name.to_string(), Bind::One(t.to_token_stream(), true));
                                inp = it.collect();
                            }
                            _ => return None,
                        }
                        continue;
                    }
                    TokenTree::Group(g) => {
                        // $( ... ) sep? op
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut j = i + 2;
                        let mut sep = None;
                        if let TokenTree::Punct(q) = &pat[j] {
                            if !"*+?".contains(q.as_char()) {
                                sep = Some(q.as_char());
                                j += 1;
                            }
                        }
                        i = j + 1;
                        // repetition is last in every macro of the repository
                        let mut many = vec![];
                        while !inp.is_empty() {
                            let mut bb = Binds::new();
                            // single fragment repetition
                            let name = inner[1].to_string();
                            let frag = inner[3].to_string();
                            if inner.len() != 4 {
                                return None;
                            }
                            if frag != "expr" && frag != "literal" {
                                return None;
                            }
                            let (e, rest) = split_expr(inp)?;
                            bb.insert(name, Bind::One(e.to_token_stream(), is_lit(&e)));
                            many.push(bb);
                            let mut it = rest.into_iter();
                            if let Some(c) = sep {
                                match it.next() {
                                    Some(TokenTree::Punct(q)) if q.as_char() == c => {}
                                    None => {}
                                    _ => return None,
                                }
                            }
                            inp = it.collect();
                        }
                        let name = inner[1].to_string();
                        b.insert(name, Bind::Many(many));
                        continue;
                    }
                    _ => return None,
                }
            }
        }
        let mut it = inp.into_iter();
        let t = it.next()?;
        if t.to_string() != pat[i].to_string() {
            return None;
        }
        inp = it.collect();
        i += 1;
    }
    if inp.is_empty() {
        Some(())
    } else {
        None
    }
}

fn let_bound(ts: &TokenStream, out: &mut HashSet<String>) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for i in 0..v.len() {
        if let TokenTree::Group(g) = &v[i] {
            let_bound(&g.stream(), out);
        }
        if let TokenTree::Ident(id) = &v[i] {
            if id == "let" {
                let mut j = i + 1;
                if j < v.len() && v[j].to_string() == "mut" {
                    j += 1;
                }
                if j < v.len() {
                    if let TokenTree::Ident(n) = &v[j] {
                        if j + 1 < v.len() && (v[j + 1].to_string() == "=" || v[j + 1].to_string() == ":") {
                            out.insert(n.to_string());
                        }
                    }
                }
            }
        }
    }
}

fn subst(ts: TokenStream, b: &Binds, hyg: &HashSet<String>, n: usize) -> Option<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < v.len() => match &v[i + 1] {
                TokenTree::Ident(name) => {
                    match b.get(&name.to_string())? {
                        Bind::One(t, _) => {
                            let g = Group::new(Delimiter::None, t.clone());
                            out.extend(std::iter::once(TokenTree::Group(g)));
                        }
                        Bind::Many(_) => return None,
                    }
                    i += 2;
                }
                TokenTree::Group(g) => {
                    let mut j = i + 2;
                    let mut sep: Option<TokenTree> = None;
                    if let TokenTree::Punct(q) = &v[j] {
                        if !"*+?".contains(q.as_char()) {
                            sep = Some(v[j].clone());
                            j += 1;
                        }
                    }
                    let mut names = HashSet::new();
                    used(&g.stream(), &mut names);
                    let reps = names.iter().find_map(|k| match b.get(k) {
                        Some(Bind::Many(m)) => Some((k.clone(), m.clone())),
                        _ => None,
                    })?;
                    let total = reps.1.len();
                    for (k, m) in reps.1.iter().enumerate() {
                        let mut bb = b.clone();
                        for (a, c) in m {
                            bb.insert(a.clone(), c.clone());
                        }
                        out.extend(subst(g.stream(), &bb, hyg, n)?);
                        if k + 1 < total {
                            if let Some(s) = &sep {
                                out.extend(std::iter::once(s.clone()));
                            }
                        }
                    }
                    i = j + 1;
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), subst(g.stream(), b, hyg, n)?);
                ng.set_span(g.span());
                out.extend(std::iter::once(TokenTree::Group(ng)));
                i += 1;
            }
            TokenTree::Ident(id) if hyg.contains(&id.to_string()) => {
                out.extend(std::iter::once(TokenTree::Ident(Ident::new(&format!("{}__m{}", id, n), Span::call_site()))));
                i += 1;
            }
            t => {
                out.extend(std::iter::once(t.clone()));
                i += 1;
            }
        }
    }
    Some(out)
}

fn used(ts: &TokenStream, out: &mut HashSet<String>) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for i in 0..v.len() {
        if let TokenTree::Group(g) = &v[i] {
            used(&g.stream(), out);
        }
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '$' && p.spacing() == Spacing::Alone || p.as_char() == '$' {
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                    out.insert(id.to_string());
                }
            }
        }
    }
}

pub fn expand(t: &Table, name: &str, input: TokenStream, n: usize) -> Option<TokenStream> {
    for r in t.get(name)? {
        let mut b = Binds::new();
        if match_pat(&r.pat, input.clone(), &mut b).is_some() {
            let mut hyg = HashSet::new();
            let_bound(&r.body, &mut hyg);
            return subst(r.body.clone(), &b, &hyg, n);
        }
    }
    None
}
