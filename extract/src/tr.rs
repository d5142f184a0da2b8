//! Source-to-source transforms applied to every extracted body.  Each one is listed in DESIGN.md.
use crate::mac;
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Cx<'a> {
    pub macros: &'a mac::Table,
    pub inst: BTreeMap<String, String>,
    pub variants: HashMap<String, String>,
    pub rename: BTreeMap<String, String>,
    pub typemap: &'a BTreeMap<String, String>,
    pub math: bool,
    pub iter_mut: bool,
    pub modules: &'a HashSet<String>,
    pub nexp: usize,
    pub nloop: usize,
    pub local_macros: mac::Table,
    pub errors: Vec<String>,
    pub reserved: HashSet<String>,
    pub dropped_print: usize,
    pub stdout: bool,
    pub index_lit: bool,
    pub optcomb: bool,
    pub closures: bool,
}

pub fn path_str(p: &Path) -> String {
    p.to_token_stream().to_string().replace(' ', "")
}

fn is_ident_path(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() => Some(p.path.segments[0].ident.to_string()),
        Expr::Paren(p) => is_ident_path(&p.expr),
        Expr::Group(p) => is_ident_path(&p.expr),
        _ => None,
    }
}

pub fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

// ---------------------------------------------------------------- reference patterns
/// remove `&` from a pattern, collecting the identifiers bound below it
fn ref_mut_of(e: &Expr) -> Option<Expr> {
    match strip(e) {
        Expr::Reference(r) if r.mutability.is_some() => Some((*r.expr).clone()),
        _ => None,
    }
}

fn bind_ref_mut(p: &mut Pat) {
    match p {
        Pat::Ident(i) if i.by_ref.is_none() && !i.ident.to_string().starts_with(|c: char| c.is_uppercase()) => {
            i.by_ref = Some(Default::default());
            i.mutability = Some(Default::default());
        }
        Pat::Tuple(t) => t.elems.iter_mut().for_each(bind_ref_mut),
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(bind_ref_mut),
        Pat::Struct(t) => t.fields.iter_mut().for_each(|x| bind_ref_mut(&mut x.pat)),
        Pat::Or(o) => o.cases.iter_mut().for_each(bind_ref_mut),
        Pat::Paren(p) => bind_ref_mut(&mut p.pat),
        _ => {}
    }
}

fn strip_ref_pat(p: &mut Pat, under: bool, out: &mut Vec<Ident>) {
    match p {
        Pat::Reference(r) => {
            let mut inner = (*r.pat).clone();
            strip_ref_pat(&mut inner, true, out);
            *p = inner;
        }
        Pat::Ident(i) => {
            if under && i.by_ref.is_none() {
                let n = i.ident.to_string();
                let is_const = n.chars().next().map(|c| c.is_uppercase()).unwrap_or(false);
                if !is_const {
                    out.push(i.ident.clone());
                }
            }
            if let Some((_, s)) = &mut i.subpat {
                strip_ref_pat(s, under, out);
            }
        }
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|x| strip_ref_pat(x, under, out)),
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|x| strip_ref_pat(x, under, out)),
        Pat::Slice(t) => t.elems.iter_mut().for_each(|x| strip_ref_pat(x, under, out)),
        Pat::Struct(t) => t.fields.iter_mut().for_each(|x| strip_ref_pat(&mut x.pat, under, out)),
        Pat::Or(t) => {
            let mut first = true;
            let mut tmp = vec![];
            for c in t.cases.iter_mut() {
                let mut o = vec![];
                strip_ref_pat(c, under, &mut o);
                if first {
                    tmp = o;
                }
                first = false;
            }
            out.extend(tmp);
        }
        Pat::Paren(t) => strip_ref_pat(&mut t.pat, under, out),
        _ => {}
    }
}

struct SubstIdent<'a> {
    map: &'a HashMap<String, Expr>,
}
impl VisitMut for SubstIdent<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = is_ident_path(e) {
            if let Some(x) = self.map.get(&n) {
                *e = x.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn subst_ident(e: &mut Expr, map: &HashMap<String, Expr>) {
    SubstIdent { map }.visit_expr_mut(e);
}

struct RenameIdent<'a> {
    map: &'a HashMap<String, String>,
}
impl VisitMut for RenameIdent<'_> {
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        if e.path.segments.len() == 1 {
            let n = e.path.segments[0].ident.to_string();
            if let Some(x) = self.map.get(&n) {
                e.path.segments[0].ident = format_ident!("{}", x);
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(ts: TokenStream, map: &HashMap<String, String>) -> TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Ident(i) if map.contains_key(&i.to_string()) => {
                        proc_macro2::TokenTree::Ident(Ident::new(&map[&i.to_string()], Span::call_site()))
                    }
                    proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), map))),
                    t => t,
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone(), self.map);
    }
}
pub fn rename_idents(b: &mut Block, map: &HashMap<String, String>) {
    RenameIdent { map }.visit_block_mut(b);
}

// ---------------------------------------------------------------- format strings
enum Piece {
    Lit(String),
    Arg(Expr),
}

fn parse_fmt(ts: TokenStream) -> Option<(Option<Expr>, Vec<Piece>)> {
    use syn::parse::Parser;
    let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
    let args = p.parse2(ts).ok()?;
    let mut it: Vec<Expr> = args.into_iter().collect();
    // first literal string is the format
    let pos = it.iter().position(|e| matches!(strip(e), Expr::Lit(ExprLit { lit: Lit::Str(_), .. })))?;
    if pos > 1 {
        return None;
    }
    let wrt = if pos == 1 { Some(it.remove(0)) } else { None };
    let f = it.remove(0);
    let s = match strip(&f) {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
        _ => return None,
    };
    let mut pieces = vec![];
    let mut cur = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut ai = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => {
                cur.push('{');
                i += 2;
            }
            '}' if cs.get(i + 1) == Some(&'}') => {
                cur.push('}');
                i += 2;
            }
            '{' => {
                let mut j = i + 1;
                let mut inner = String::new();
                while j < cs.len() && cs[j] != '}' {
                    inner.push(cs[j]);
                    j += 1;
                }
                if !cur.is_empty() {
                    pieces.push(Piece::Lit(std::mem::take(&mut cur)));
                }
                if inner.is_empty() {
                    pieces.push(Piece::Arg(it.get(ai)?.clone()));
                    ai += 1;
                } else if inner.chars().all(|c| c.is_alphanumeric() || c == '_') && !inner.chars().next().unwrap().is_numeric() {
                    let id = format_ident!("{}", inner);
                    pieces.push(Piece::Arg(parse_quote!(#id)));
                } else {
                    return None;
                }
                i = j + 1;
            }
            c => {
                cur.push(c);
                i += 1;
            }
        }
    }
    if !cur.is_empty() {
        pieces.push(Piece::Lit(cur));
    }
    if ai != it.len() {
        return None;
    }
    Some((wrt, pieces))
}

impl<'a> Cx<'a> {
    fn write_expr(&mut self, ts: TokenStream) -> Option<Expr> {
        let (wrt, pieces) = parse_fmt(ts)?;
        let w = wrt?;
        if pieces.is_empty() {
            return Some(parse_quote!({ Ok(()) }));
        }
        if pieces.len() == 1 {
            return Some(match &pieces[0] {
                Piece::Lit(l) if l.chars().all(|c| " \t\n\r".contains(c)) => parse_quote!(w_ws(#w, #l)),
                Piece::Lit(l) => parse_quote!(w_lit(#w, #l)),
                Piece::Arg(a) => parse_quote!(w_disp(#w, &(#a))),
            });
        }
        let stmts: Vec<Stmt> = self.app(&pieces);
        Some(parse_quote!({
            let mut t__ = String::new();
            #(#stmts)*
            w_disp(#w, &t__)
        }))
    }

    fn app(&mut self, pieces: &[Piece]) -> Vec<Stmt> {
        pieces
            .iter()
            .map(|p| match p {
                Piece::Lit(l) => parse_quote!(app_str(&mut t__, #l);),
                Piece::Arg(a) => parse_quote!(app_disp(&mut t__, &(#a));),
            })
            .collect()
    }

    fn expand_macro(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if self.local_macros.contains_key(&name) || self.macros.contains_key(&name) {
            self.nexp += 1;
            let n = self.nexp;
            let t = if self.local_macros.contains_key(&name) { &self.local_macros } else { self.macros };
            let ts = match mac::expand(t, &name, m.tokens.clone(), n) {
                Some(ts) => ts,
                None => {
                    self.errors.push(format!("macro {} did not expand", name));
                    return None;
                }
            };
            return match syn::parse2::<Expr>(ts.clone()) {
                Ok(e) => Some(e),
                Err(_) => match syn::parse2::<Block>(quote!({ #ts })) {
                    Ok(b) => Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })),
                    Err(e) => {
                        self.errors.push(format!("expansion of {} does not parse: {}", name, e));
                        None
                    }
                },
            };
        }
        match name.as_str() {
            "write" => {
                let r = self.write_expr(m.tokens.clone());
                if r.is_none() {
                    self.errors.push("write! with an unsupported format".into());
                }
                r
            }
            "println" | "eprintln" | "eprint" | "print" => {
                if self.stdout && name == "print" {
                    if let Some((None, pieces)) = parse_fmt(m.tokens.clone()) {
                        if let [Piece::Arg(a)] = &pieces[..] {
                            return Some(parse_quote!(sh_print(&(#a))));
                        }
                    }
                }
                self.dropped_print += 1;
                Some(parse_quote!({ noop_print() }))
            }
            "format" => {
                if let Some((None, pieces)) = parse_fmt(m.tokens.clone()) {
                    let simple = pieces.iter().all(|p| match p {
                        Piece::Lit(_) => true,
                        Piece::Arg(_) => true,
                    });
                    if simple && !self.stdout {
                        let stmts = self.app(&pieces);
                        return Some(parse_quote!({ let mut t__ = String::new(); #(#stmts)* t__ }));
                    }
                }
                Some(parse_quote!(opaque_string()))
            }
            "vec" => {
                if m.tokens.is_empty() {
                    Some(parse_quote!(Vec::new()))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
}

fn char_item(e: &Expr) -> Option<TokenStream> {
    // item type of an iterator chain over characters
    match strip(e) {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "chars" => Some(quote!(char)),
                "char_indices" => Some(quote!((usize, char))),
                "enumerate" => {
                    let t = char_item(&m.receiver)?;
                    Some(quote!((usize, #t)))
                }
                "map" => Some(quote!(usize)),
                "rev" | "take_while" | "skip_while" | "filter" | "take" | "skip" => char_item(&m.receiver),
                _ => None,
            }
        }
        _ => None,
    }
}

fn mut_place(e: &Expr) -> bool {
    matches!(strip(e), Expr::Path(_) | Expr::Field(_))
}

impl<'a> Cx<'a> {
    fn fix_path(&mut self, p: &mut Path, is_type: bool) {
        let s = path_str(p);
        if let Some(t) = self.typemap.get(&s) {
            if let Ok(np) = syn::parse_str::<Path>(t) {
                *p = np;
                return;
            }
        }
        // drop module prefixes
        while p.segments.len() > 1 && self.modules.contains(&p.segments[0].ident.to_string()) {
            let rest: syn::punctuated::Punctuated<PathSegment, Token![::]> = p.segments.iter().skip(1).cloned().collect();
            p.segments = rest;
            p.leading_colon = None;
        }
        let s = path_str(p);
        if let Some(t) = self.typemap.get(&s) {
            if let Ok(np) = syn::parse_str::<Path>(t) {
                *p = np;
                return;
            }
        }
        for seg in p.segments.iter_mut() {
            if let Some(n) = self.inst.get(&seg.ident.to_string()) {
                seg.ident = format_ident!("{}", n);
            }
        }
        if !is_type && p.segments.len() == 1 {
            let n = p.segments[0].ident.to_string();
            if let Some(q) = self.variants.get(&n) {
                if !self.inst.contains_key(&n) {
                    let q = format_ident!("{}", q);
                    let id = p.segments[0].ident.clone();
                    *p = parse_quote!(#q::#id);
                    return;
                }
            }
        }
        // monomorphic names: f::<A, B> -> f__A_B
        if !is_type {
            let last = p.segments.last_mut().unwrap();
            let name = last.ident.to_string();
            if let (PathArguments::AngleBracketed(a), Some(_)) = (&last.arguments, self.rename.get(&format!("mono:{}", name))) {
                let mut parts = vec![];
                for x in a.args.iter() {
                    let mut s = x.to_token_stream().to_string().replace(' ', "");
                    if let Some(n) = self.inst.get(&s) {
                        s = n.clone();
                    }
                    if s != "_" && !s.starts_with('\'') {
                        parts.push(s);
                    }
                }
                last.ident = format_ident!("{}__{}", name, parts.join("_"));
                last.arguments = PathArguments::None;
            }
        }
        let last = p.segments.last_mut().unwrap();
        if !is_type {
            if let Some(n) = self.rename.get(&format!("fn:{}", last.ident)) {
                last.ident = format_ident!("{}", n);
            }
        }
    }

    fn ref_shadow(&self, ids: &[Ident]) -> Vec<Stmt> {
        ids.iter().map(|i| parse_quote!(let #i = *#i;)).collect()
    }

    fn with_prelude(body: &mut Expr, pre: Vec<Stmt>) {
        if pre.is_empty() {
            return;
        }
        if let Expr::Block(b) = body {
            if b.label.is_none() {
                let mut v = pre;
                v.extend(b.block.stmts.drain(..));
                b.block.stmts = v;
                return;
            }
        }
        let b = body.clone();
        *body = parse_quote!({ #(#pre)* #b });
    }

    fn mk_loop_marker(&mut self) -> Stmt {
        let k = self.nloop;
        self.nloop += 1;
        let lit = LitInt::new(&k.to_string(), Span::call_site());
        parse_quote!(__loop_inv!(#lit);)
    }

    fn closure_anno(&mut self, recv: &Expr, method: &str, c: &ExprClosure) -> Option<Expr> {
        let item = if method == "trim_end_matches" { quote!(char) } else { char_item(recv)? };
        let (ty, rt): (TokenStream, TokenStream) = match method {
            "take_while" | "filter" | "skip_while" => (quote!(&#item), quote!(bool)),
            "map" => (item, quote!(usize)),
            "trim_end_matches" => (item, quote!(bool)),
            _ => return None,
        };
        if c.inputs.len() != 1 {
            return None;
        }
        let mut pat = c.inputs[0].clone();
        let mut ids = vec![];
        strip_ref_pat(&mut pat, false, &mut ids);
        let sh = self.ref_shadow(&ids);
        let mut body = (*c.body).clone();
        if let Expr::Return(r) = strip(&body) {
            body = (**r.expr.as_ref()?).clone();
        }
        // an `ensures` clause cannot be parsed by syn: encode it as a macro, printed later
        Some(parse_quote!(__closure!(#ty, #rt, { let #pat = p__; #(#sh)* #body })))
    }
}

impl<'a> VisitMut for Cx<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // local macro definitions, uses, aliases
        let mut out: Vec<Stmt> = vec![];
        let mut aliases: HashMap<String, Expr> = HashMap::new();
        let mut closures: Vec<(String, ExprClosure)> = vec![];
        for st in b.stmts.drain(..) {
            match st {
                Stmt::Item(Item::Macro(m)) if m.ident.is_some() => {
                    let n = m.ident.unwrap().to_string();
                    self.local_macros.insert(n, mac::parse_rules(m.mac.tokens));
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Local(l) if l.init.is_some() => {
                    let init = l.init.as_ref().unwrap();
                    let name = match &l.pat {
                        Pat::Ident(i) if i.subpat.is_none() => Some((i.ident.to_string(), i.mutability.is_some())),
                        _ => None,
                    };
                    let mut handled = false;
                    if let (Some((n, false)), None) = (&name, &init.diverge) {
                        match strip(&init.expr) {
                            Expr::Path(p) if (p.path.segments.len() > 1 || p.path.segments[0].ident.to_string().chars().next().unwrap().is_uppercase()) && p.path.segments.last().map(|s| !s.ident.to_string().chars().all(|c| c.is_uppercase() || c == '_')).unwrap_or(false) && path_str(&p.path) != "None" => {
                                aliases.insert(n.clone(), (*init.expr).clone());
                                handled = true;
                            }
                            Expr::Closure(c) if c.capture.is_none() => {
                                closures.push((n.clone(), c.clone()));
                                handled = true;
                            }
                            _ => {}
                        }
                    }
                    if !handled {
                        out.push(Stmt::Local(l));
                    }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        if !aliases.is_empty() {
            struct A<'b>(&'b HashMap<String, Expr>);
            impl VisitMut for A<'_> {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if let Some(n) = is_ident_path(e) {
                        if let Some(x) = self.0.get(&n) {
                            *e = x.clone();
                            return;
                        }
                    }
                    visit_mut::visit_expr_mut(self, e);
                }
                fn visit_macro_mut(&mut self, m: &mut Macro) {
                    fn go(ts: TokenStream, map: &HashMap<String, Expr>) -> TokenStream {
                        ts.into_iter()
                            .flat_map(|t| -> Vec<proc_macro2::TokenTree> {
                                match t {
                                    proc_macro2::TokenTree::Ident(i) if map.contains_key(&i.to_string()) => map[&i.to_string()].to_token_stream().into_iter().collect(),
                                    proc_macro2::TokenTree::Group(g) => vec![proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), map)))],
                                    t => vec![t],
                                }
                            })
                            .collect()
                    }
                    m.tokens = go(m.tokens.clone(), self.0);
                }
            }
            let mut a = A(&aliases);
            for s in b.stmts.iter_mut() {
                a.visit_stmt_mut(s);
            }
        }
        for (n, c) in closures {
            struct B<'b>(&'b str, &'b ExprClosure, usize);
            impl VisitMut for B<'_> {
                fn visit_macro_mut(&mut self, m: &mut Macro) {
                    use syn::parse::Parser;
                    let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                    if let Ok(mut args) = p.parse2(m.tokens.clone()) {
                        args.iter_mut().for_each(|a| self.visit_expr_mut(a));
                        m.tokens = args.to_token_stream();
                    }
                }
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    visit_mut::visit_expr_mut(self, e);
                    if let Expr::Call(k) = e {
                        if is_ident_path(&k.func).as_deref() == Some(self.0) && k.args.len() == self.1.inputs.len() {
                            let mut lets: Vec<Stmt> = vec![];
                            for (p, a) in self.1.inputs.iter().zip(k.args.iter()) {
                                match p {
                                    Pat::Type(t) => {
                                        let p = &t.pat;
                                        let ty = &t.ty;
                                        let mut ty2 = (**ty).clone();
                                        strip_lifetimes(&mut ty2);
                                        lets.push(parse_quote!(let #p: #ty2 = #a;));
                                    }
                                    p => lets.push(parse_quote!(let #p = #a;)),
                                }
                            }
                            let mut body = (*self.1.body).clone();
                            // `return x` inside the closure is its value: only the trailing form is supported
                            if let Expr::Block(b) = &mut body {
                                if let Some(Stmt::Expr(Expr::Return(r), _)) = b.block.stmts.last().cloned() {
                                    let x = r.expr.unwrap();
                                    b.block.stmts.pop();
                                    b.block.stmts.push(Stmt::Expr(*x, None));
                                }
                            }
                            self.2 += 1;
                            *e = parse_quote!({ #(#lets)* #body });
                        }
                    }
                }
            }
            let mut bb = B(&n, &c, 0);
            for s in b.stmts.iter_mut() {
                bb.visit_stmt_mut(s);
            }
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.expand_macro(&m.mac) {
                *s = Stmt::Expr(e, m.semi_token.or(None));
            }
        }
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Local(l) = s {
            l.attrs.clear();
        }
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = t.to_token_stream().to_string().replace(' ', "");
        if let Some(r) = self.typemap.get(&s) {
            if let Ok(nt) = syn::parse_str::<Type>(r) {
                *t = nt;
                return;
            }
        }
        // `dyn Fn` parameters: any function value, that is `impl Fn`
        if let Type::TraitObject(o) = t {
            if o.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(x) if x.path.segments.last().unwrap().ident == "Fn")) {
                let b = &o.bounds;
                *t = parse_quote!(impl #b);
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                self.fix_path(&mut p.path, true);
            }
        }
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        match p {
            Pat::TupleStruct(t) => self.fix_path(&mut t.path, false),
            Pat::Struct(t) => self.fix_path(&mut t.path, false),
            Pat::Path(t) => self.fix_path(&mut t.path, false),
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && self.variants.contains_key(&i.ident.to_string()) => {
                let mut path: Path = i.ident.clone().into();
                self.fix_path(&mut path, false);
                *p = parse_quote!(#path);
            }
            _ => {}
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // attributes on expressions
        if let Expr::Macro(m) = e {
            if let Some(x) = self.expand_macro(&m.mac) {
                *e = x;
                return self.visit_expr_mut(e);
            }
        }
        // None-delimited groups -> parens
        if let Expr::Group(g) = e {
            let inner = (*g.expr).clone();
            *e = match inner {
                Expr::Path(_) | Expr::Lit(_) | Expr::Field(_) | Expr::Index(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Paren(_) | Expr::Block(_) | Expr::Macro(_) | Expr::Group(_) => inner,
                i => parse_quote!((#i)),
            };
            return self.visit_expr_mut(e);
        }
        // slices of strings: `&x[a..b]`
        if let Expr::Reference(rf) = e {
            if rf.mutability.is_none() {
                if let Expr::Index(x) = strip(&rf.expr) {
                    if let Expr::Range(r) = strip(&x.index) {
                        if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                            let b = &x.expr;
                            let n: Option<Expr> = match (&r.start, &r.end) {
                                (None, None) => Some(parse_quote!(str_full(&#b))),
                                (Some(a), None) => Some(parse_quote!(str_from(&#b, #a))),
                                (Some(a), Some(c)) => Some(parse_quote!(str_slice(&#b, #a, #c))),
                                (None, Some(c)) => Some(parse_quote!(str_slice(&#b, 0, #c))),
                            };
                            if let Some(n) = n {
                                *e = n;
                                return self.visit_expr_mut(e);
                            }
                        }
                    }
                }
            }
        }
        // repetition of a string
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" {
                if let Expr::MethodCall(mp) = strip(&m.receiver) {
                    if mp.method == "map" && mp.args.len() == 1 {
                        if let (Expr::Paren(_) | Expr::Range(_), Expr::Closure(c)) = (&*mp.receiver, &mp.args[0]) {
                            if let Expr::Range(r) = strip(&mp.receiver) {
                                let zero = matches!(r.start.as_deref().map(|x| strip(x).to_token_stream().to_string()).as_deref(), Some("0"));
                                if zero && matches!(r.limits, RangeLimits::HalfOpen(_)) && c.inputs.len() == 1 && matches!(c.inputs[0], Pat::Wild(_)) {
                                    let n = r.end.as_ref().unwrap();
                                    let s = &c.body;
                                    *e = parse_quote!(rep_str(#s, #n));
                                    return self.visit_expr_mut(e);
                                }
                            }
                        }
                    }
                }
            }
            if let Expr::MethodCall(m) = e {
                if m.method == "repeat" && m.args.len() == 1 {
                    let s = &m.receiver;
                    let n = &m.args[0];
                    *e = parse_quote!(rep_str(&#s, #n));
                    return self.visit_expr_mut(e);
                }
                // X.entry(k).or_insert(v): the reference it returns is not used
                if m.method == "or_insert" && m.args.len() == 1 {
                    if let Expr::MethodCall(me) = strip(&m.receiver) {
                        if me.method == "entry" && me.args.len() == 1 {
                            let (x, k, v) = (&me.receiver, &me.args[0], &m.args[0]);
                            *e = parse_quote!(map_or_insert(&mut #x, #k, #v));
                            return self.visit_expr_mut(e);
                        }
                    }
                }
                // X.for_each(|p| body)
                if m.method == "for_each" && m.args.len() == 1 {
                    if let Expr::Closure(c) = &m.args[0] {
                        if c.inputs.len() == 1 {
                            let p = &c.inputs[0];
                            let b = &c.body;
                            let r = &m.receiver;
                            *e = parse_quote!(for #p in #r { #b });
                            return self.visit_expr_mut(e);
                        }
                    }
                }
                // annotated closures in character iterator chains
                let name = m.method.to_string();
                if matches!(name.as_str(), "take_while" | "filter" | "skip_while" | "map" | "trim_end_matches") && m.args.len() == 1 {
                    if let Expr::Closure(c) = m.args[0].clone() {
                        let recv = (*m.receiver).clone();
                        if let Some(x) = self.closure_anno(&recv, &name, &c) {
                            m.args[0] = x;
                        }
                    }
                }
            }
        }
        // Option::and_then / map, read as the match they are defined by
        if self.optcomb {
            if let Expr::MethodCall(m) = e {
                let name = m.method.to_string();
                if (name == "and_then" || name == "map") && m.args.len() == 1 {
                    let recv = &m.receiver;
                    let wrap = |b: Expr| -> Expr { if name == "map" { parse_quote!(Some(#b)) } else { b } };
                    match &m.args[0] {
                        Expr::Closure(c) if c.inputs.len() == 1 => {
                            let p = &c.inputs[0];
                            let b = wrap((*c.body).clone());
                            *e = parse_quote!((match #recv { Some(#p) => #b, None => None }));
                            return self.visit_expr_mut(e);
                        }
                        Expr::Path(f) => {
                            let b = wrap(parse_quote!(#f(x__)));
                            *e = parse_quote!((match #recv { Some(x__) => #b, None => None }));
                            return self.visit_expr_mut(e);
                        }
                        _ => {}
                    }
                }
            }
        }
        // while let
        if let Expr::While(w) = e {
            if let Expr::Let(l) = strip(&w.cond) {
                let p = &l.pat;
                let x = &l.expr;
                let b = &w.body;
                *e = parse_quote!(loop { match #x { #p => #b, _ => break, } });
                return self.visit_expr_mut(e);
            }
        }
        // for loops over something that is not a range
        if let Expr::ForLoop(f) = e {
            let is_range = matches!(strip(&f.expr), Expr::Range(_));
            if !is_range {
                let pat = &f.pat;
                let body = &f.body;
                let x = &f.expr;
                if self.iter_mut {
                    let mut px = (**pat).clone();
                    let mut ids = vec![];
                    strip_ref_pat(&mut px, false, &mut ids);
                    *e = parse_quote!({ let n__ = #x.len(); for k__ in 0..n__ { let #px = &mut #x[k__]; #body } });
                } else {
                    self.nexp += 1;
                    let it = format_ident!("it__{}", self.nexp);
                    *e = parse_quote!({
                        let mut #it = into_it(#x);
                        loop {
                            match #it.nxt() { Some(#pat) => #body, None => { break; } }
                        }
                    });
                }
                return self.visit_expr_mut(e);
            }
        }
        // If(c, &IncIndent(..)) -> IfInc / IfDec
        if let Expr::Call(c) = e {
            if is_ident_path(&c.func).as_deref() == Some("If") && c.args.len() == 2 {
                if let Expr::Reference(r) = strip(&c.args[1]) {
                    if let Expr::Call(k) = strip(&r.expr) {
                        let n = is_ident_path(&k.func);
                        let nn = match n.as_deref() {
                            Some("IncIndent") => Some("IfInc"),
                            Some("DecIndent") => Some("IfDec"),
                            Some("IncFuncLevel") => Some("IfIncF"),
                            Some("DecFuncLevel") => Some("IfDecF"),
                            _ => None,
                        };
                        if let Some(nn) = nn {
                            let id = format_ident!("{}", nn);
                            c.func = Box::new(parse_quote!(#id));
                        }
                    }
                }
            }
        }

        // Str(&x) -> Str(x.c_ref()): the view of `x` survives, which a deref coercion loses
        if let Expr::Call(c) = e {
            if is_ident_path(&c.func).as_deref() == Some("Str") && c.args.len() == 1 {
                if let Expr::Reference(r) = strip(&c.args[0]) {
                    if r.mutability.is_none() && matches!(strip(&r.expr), Expr::Path(_)) {
                        let x = r.expr.clone();
                        c.args[0] = parse_quote!(#x.c_ref());
                    }
                }
            }
        }

        // `A | B if g => x, _ => y` becomes `A | B => if g { x } else { y }, _ => y`
        if let Expr::Match(m) = e {
            let n = m.arms.len();
            if n >= 2 && m.arms[n - 2].guard.is_some() && matches!(m.arms[n - 1].pat, Pat::Wild(_)) && m.arms[n - 1].guard.is_none() {
                let (_, g) = m.arms[n - 2].guard.take().unwrap();
                let x = m.arms[n - 2].body.clone();
                let y = m.arms[n - 1].body.clone();
                m.arms[n - 2].body = Box::new(parse_quote!({ if #g { #x } else { #y } }));
            }
        }
        // string literal patterns become guards
        if let Expr::Match(m) = e {
            fn lits(p: &Pat) -> Option<Vec<LitStr>> {
                match p {
                    Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(vec![s.clone()]),
                    Pat::Or(o) => {
                        let mut v = vec![];
                        for c in o.cases.iter() {
                            v.extend(lits(c)?);
                        }
                        Some(v)
                    }
                    Pat::Paren(p) => lits(&p.pat),
                    _ => None,
                }
            }
            for a in m.arms.iter_mut() {
                if let Some(v) = lits(&a.pat) {
                    a.pat = parse_quote!(m__);
                    let l0 = &v[0];
                    let mut g: Expr = parse_quote!(str_is(m__, #l0));
                    for l in &v[1..] {
                        g = parse_quote!(#g || str_is(m__, #l));
                    }
                    a.guard = Some(match a.guard.take() {
                        Some((i, old)) => (i, Box::new(parse_quote!((#g) && (#old)))),
                        None => (Default::default(), Box::new(g)),
                    });
                    if a.comma.is_none() {
                        a.comma = Some(Default::default());
                    }
                }
            }
        }
        // `match &mut X { P(x) => .. }` is `match X { P(ref mut x) => .. }`
        if self.iter_mut {
            if let Expr::If(i) = e {
                if let Expr::Let(l) = &*i.cond {
                    if ref_mut_of(&l.expr).is_some() {
                        let p = &l.pat;
                        let x = &l.expr;
                        let t = &i.then_branch;
                        let el: Expr = match &i.else_branch {
                            Some((_, b)) => (**b).clone(),
                            None => parse_quote!({}),
                        };
                        *e = parse_quote!(match #x { #p => #t, _ => #el });
                    }
                }
            }
            if let Expr::Match(m) = e {
                if let Some(x) = ref_mut_of(&m.expr) {
                    m.expr = Box::new(x);
                    for a in m.arms.iter_mut() {
                        bind_ref_mut(&mut a.pat);
                    }
                }
            }
        }
        // match arms / if let: reference patterns
        match e {
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    a.attrs.clear();
                    let mut ids = vec![];
                    strip_ref_pat(&mut a.pat, false, &mut ids);
                    if !ids.is_empty() {
                        if let Some((_, g)) = &mut a.guard {
                            let map: HashMap<String, Expr> = ids.iter().map(|i| (i.to_string(), parse_quote!((*#i)))).collect();
                            subst_ident(g, &map);
                        }
                        let pre = self.ref_shadow(&ids);
                        Self::with_prelude(&mut a.body, pre);
                        if a.comma.is_none() {
                            a.comma = Some(Default::default());
                        }
                    }
                    // err @ Err(..)
                    if let Pat::Ident(pi) = &a.pat {
                        if let Some((_, sp)) = &pi.subpat {
                            if let Pat::TupleStruct(ts) = &**sp {
                                if path_str(&ts.path) == "Err" && pi.by_ref.is_none() {
                                    let id = &pi.ident;
                                    let body = &a.body;
                                    let na: Arm = parse_quote!(Err(e__) => { let #id = Err(e__); #body });
                                    *a = na;
                                }
                            }
                        }
                    }
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let mut ids = vec![];
                    strip_ref_pat(&mut l.pat, false, &mut ids);
                    let mut v = self.ref_shadow(&ids);
                    v.extend(i.then_branch.stmts.drain(..));
                    i.then_branch.stmts = v;
                }
            }
            _ => {}
        }

        visit_mut::visit_expr_mut(self, e);

        match e {
            Expr::Path(p) if p.qself.is_none() => self.fix_path(&mut p.path, false),
            Expr::Struct(s) => self.fix_path(&mut s.path, false),
            // &mut bindings under an or-pattern: one arm per alternative
            Expr::Match(m) if self.iter_mut => {
                let mut arms = vec![];
                for a in m.arms.drain(..) {
                    match &a.pat {
                        Pat::Or(o) => {
                            for c in o.cases.iter() {
                                let mut b = a.clone();
                                b.pat = c.clone();
                                if b.comma.is_none() {
                                    b.comma = Some(Default::default());
                                }
                                arms.push(b);
                            }
                        }
                        _ => arms.push(a),
                    }
                }
                m.arms = arms;
            }
            Expr::ForLoop(f) => {
                let mk = self.mk_loop_marker();
                f.body.stmts.insert(0, mk);
            }
            Expr::While(f) => {
                let mk = self.mk_loop_marker();
                f.body.stmts.insert(0, mk);
            }
            Expr::Loop(f) => {
                let mk = self.mk_loop_marker();
                f.body.stmts.insert(0, mk);
            }
            Expr::Index(x) if self.index_lit && matches!(strip(&x.index), Expr::Lit(_)) => {
                let b = &x.expr;
                let i = &x.index;
                *e = parse_quote!(#b.at__(#i));
            }
            Expr::Closure(c) if self.closures => {
                // a predicate: its result is its body
                for (k, p) in c.inputs.iter_mut().enumerate() {
                    let id = format_ident!("w{}__", k);
                    match p {
                        Pat::Wild(_) => *p = parse_quote!(#id),
                        Pat::Type(t) if matches!(&*t.pat, Pat::Wild(_)) => t.pat = Box::new(parse_quote!(#id)),
                        _ => {}
                    }
                }
                let ps = &c.inputs;
                let rt: TokenStream = match &c.output {
                    ReturnType::Type(_, t) => t.to_token_stream(),
                    _ => quote!(bool),
                };
                let mut body = (*c.body).clone();
                loop {
                    body = match body {
                        Expr::Block(ref b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                            Stmt::Expr(x, _) => x.clone(),
                            _ => break,
                        },
                        Expr::Return(ref r) if r.expr.is_some() => *r.expr.clone().unwrap(),
                        _ => break,
                    };
                }
                *e = parse_quote!(__closure_n!((#ps) (#rt) { #body }));
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let Some(r) = self.rename.get(&format!("m:{}", n)) {
                    m.method = format_ident!("{}", r);
                    m.turbofish = None;
                }
            }
            Expr::Binary(b) => {
                let t = b.op.to_token_stream().to_string();
                let l = &b.left;
                let r = &b.right;
                if self.math {
                    let f = match t.as_str() {
                        "+" => Some("m_add"),
                        "-" => Some("m_sub"),
                        "*" => Some("m_mul"),
                        _ => None,
                    };
                    if let Some(f) = f {
                        let f = format_ident!("{}", f);
                        *e = parse_quote!(#f(#l, #r));
                        return;
                    }
                    let f = match t.as_str() {
                        "+=" => Some("m_add"),
                        "-=" => Some("m_sub"),
                        _ => None,
                    };
                    if let Some(f) = f {
                        if mut_place(l) {
                            let f = format_ident!("{}", f);
                            *e = parse_quote!(#l = #f(#l, #r));
                            return;
                        }
                    }
                }
                if (t == "==" || t == "!=") && matches!(strip(r), Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) {
                    *e = if t == "==" { parse_quote!(str_is(#l, #r)) } else { parse_quote!(!str_is(#l, #r)) };
                    return;
                }
                if t == "==" || t == "!=" {
                    let shim = |x: &Expr| match strip(x) {
                        Expr::Call(c) => {
                            let n = is_ident_path(&c.func);
                            n.as_deref() == Some("Ok") || matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "default") || (n.as_deref() == Some("Some") && !matches!(strip(&c.args[0]), Expr::Lit(_)))
                        }
                        Expr::Path(p) => path_str(&p.path) == "None",
                        Expr::MethodCall(m) if m.method == "and_then" => true,
                        Expr::MethodCall(m) => {
                            let n = m.method.to_string();
                            matches!(n.as_str(), "as_ref" | "last" | "v_last" | "c_last" | "c_first")
                        }
                        _ => false,
                    };
                    if shim(l) || shim(r) {
                        *e = if t == "==" { parse_quote!(veq(&(#l), &(#r))) } else { parse_quote!(!veq(&(#l), &(#r))) };
                    }
                }
            }
            _ => {}
        }
    }
}

pub fn strip_lifetimes(t: &mut Type) {
    struct S;
    impl VisitMut for S {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
    }
    S.visit_type_mut(t);
}
