//! extract TEMPLATE OUT.rs MAP.json [REPO]
//! Fills the `//@` directives of a Verus template with code taken from the repository.
mod lalr;
mod mac;
mod tr;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Files {
    repo: String,
    cache: HashMap<String, File>,
}
impl Files {
    fn get(&mut self, f: &str) -> std::result::Result<File, String> {
        if !self.cache.contains_key(f) {
            let s = std::fs::read_to_string(format!("{}/{}", self.repo, f)).map_err(|e| format!("lost anchor: {}: {}", f, e))?;
            let p = parse_file(&s).map_err(|e| format!("{}: {}", f, e))?;
            self.cache.insert(f.to_string(), p);
        }
        Ok(self.cache[f].clone())
    }
}

fn jesc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- printing
pub struct Pr<'a> {
    pub out: String,
    pub loops: &'a HashMap<usize, String>,
    pub loopbegin: &'a HashMap<usize, String>,
    pub seen_loops: Vec<usize>,
    ind: usize,
}
impl<'a> Pr<'a> {
    pub fn new(loops: &'a HashMap<usize, String>, lb: &'a HashMap<usize, String>) -> Self {
        Pr { out: String::new(), loops, loopbegin: lb, seen_loops: vec![], ind: 0 }
    }
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        self.out.push('\n');
        for _ in 0..self.ind {
            self.out.push_str("  ");
        }
    }
    pub fn ts(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) if id == "__closure_n" => {
                    // __closure_n!((params) (type) { body })
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let grp = |k: usize| -> TokenStream { match &inner[k] { TokenTree::Group(g) => g.stream(), t => std::iter::once(t.clone()).collect() } };
                        self.out.push('|');
                        self.ts(grp(0));
                        self.out.push_str("| -> (r__: ");
                        self.ts(grp(1));
                        self.out.push_str(") ensures r__ == (");
                        self.ts(grp(2));
                        self.out.push_str(") { ");
                        self.ts(grp(2));
                        self.out.push_str(" }");
                        i += 3;
                        continue;
                    }
                }
                TokenTree::Ident(id) if id == "__closure" => {
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let commas: Vec<usize> = (0..inner.len()).filter(|k| matches!(&inner[*k], TokenTree::Punct(p) if p.as_char()==',')).collect();
                        let part = |a: usize, b: usize| -> TokenStream { inner[a..b].iter().cloned().collect() };
                        self.out.push_str("|p__: ");
                        self.ts(part(0, commas[0]));
                        self.out.push_str("| -> (r__: ");
                        self.ts(part(commas[0] + 1, commas[1]));
                        self.out.push_str(") ensures r__ == (");
                        self.ts(part(commas[1] + 1, inner.len()));
                        self.out.push_str(") ");
                        self.ts(part(commas[1] + 1, inner.len()));
                        i += 3;
                        continue;
                    }
                }
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut begin = None;
                        if inner.len() >= 4 && inner[0].to_string() == "__loop_inv" {
                            if let TokenTree::Group(k) = &inner[2] {
                                let k: usize = k.stream().to_string().parse().unwrap();
                                if !self.seen_loops.contains(&k) { self.seen_loops.push(k); }
                                if let Some(t) = self.loops.get(&k) {
                                    self.nl();
                                    let t = t.clone();
                                    self.out.push_str(&t);
                                    self.nl();
                                }
                                begin = self.loopbegin.get(&k).cloned();
                            }
                            inner.drain(0..4);
                        }
                        self.out.push('{');
                        self.ind += 1;
                        self.nl();
                        if let Some(b) = begin {
                            self.out.push_str(&b);
                            self.nl();
                        }
                        self.ts(inner.into_iter().collect());
                        self.ind -= 1;
                        self.nl();
                        self.out.push('}');
                        // newline unless followed by something that continues the expression
                        match v.get(i + 1) {
                            Some(TokenTree::Punct(p)) if ";,.?".contains(p.as_char()) => {}
                            Some(TokenTree::Ident(k)) if k == "else" || k == "as" => self.out.push(' '),
                            Some(_) => self.nl(),
                            None => {}
                        }
                    } else {
                        self.out.push_str(o);
                        self.ts(g.stream());
                        while self.out.ends_with(' ') {
                            self.out.pop();
                        }
                        self.out.push_str(c);
                        self.out.push(' ');
                    }
                }
                TokenTree::Punct(p) => {
                    let ch = p.as_char();
                    if ";,.?:".contains(ch) && self.out.ends_with(' ') && p.spacing() == Spacing::Alone && ch != ':' {
                        self.out.pop();
                    }
                    self.out.push(ch);
                    if ch == ';' {
                        self.nl();
                    } else if p.spacing() == Spacing::Alone {
                        let unary = ch == '&' || ch == '!' || ch == '*' || ch == '.';
                        if !unary || ch == '*' || ch == '!' {
                            self.out.push(' ');
                        }
                    }
                }
                t => {
                    let s = t.to_string();
                    self.out.push_str(&s);
                    self.out.push(' ');
                }
            }
            i += 1;
        }
    }
}

// ---------------------------------------------------------------- finding functions
pub struct Found {
    pub sig: Signature,
    pub block: Block,
    pub impl_generics: Option<Generics>,
    pub self_ty: Option<Type>,
    pub line: usize,
}

fn last_seg(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
        _ => None,
    }
}

pub fn find_fn(f: &File, spec: &str) -> Option<Found> {
    // `name` | `Type::name` | `Type as Trait::name`
    let (ty, tr, name) = match spec.rsplit_once("::") {
        None => (None, None, spec.to_string()),
        Some((l, n)) => match l.split_once(" as ") {
            Some((t, tr)) => (Some(t.trim().to_string()), Some(tr.trim().to_string()), n.to_string()),
            None => (Some(l.to_string()), None, n.to_string()),
        },
    };
    for it in &f.items {
        match it {
            Item::Fn(x) if ty.is_none() && x.sig.ident == name => {
                return Some(Found { sig: x.sig.clone(), block: (*x.block).clone(), impl_generics: None, self_ty: None, line: x.sig.ident.span().start().line });
            }
            Item::Impl(im) => {
                if ty.is_none() || last_seg(&im.self_ty) != ty {
                    continue;
                }
                let t = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                if t != tr {
                    continue;
                }
                for x in &im.items {
                    if let ImplItem::Fn(x) = x {
                        if x.sig.ident == name {
                            return Some(Found {
                                sig: x.sig.clone(),
                                block: x.block.clone(),
                                impl_generics: Some(im.generics.clone()),
                                self_ty: Some((*im.self_ty).clone()),
                                line: x.sig.ident.span().start().line,
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

// ---------------------------------------------------------------- templates
struct Dir {
    kind: String,
    file: String,
    path: String,
    opts: BTreeMap<String, String>,
    sect: BTreeMap<String, String>,
}

fn parse_opts(s: &str) -> BTreeMap<String, String> {
    // key=val or key="val with spaces"
    let mut m = BTreeMap::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        while i < cs.len() && cs[i].is_whitespace() {
            i += 1;
        }
        let mut k = String::new();
        while i < cs.len() && cs[i] != '=' && !cs[i].is_whitespace() {
            k.push(cs[i]);
            i += 1;
        }
        if k.is_empty() {
            break;
        }
        let mut v = String::from("1");
        if i < cs.len() && cs[i] == '=' {
            i += 1;
            v.clear();
            if i < cs.len() && cs[i] == '"' {
                i += 1;
                while i < cs.len() && cs[i] != '"' {
                    v.push(cs[i]);
                    i += 1;
                }
                i += 1;
            } else {
                while i < cs.len() && !cs[i].is_whitespace() {
                    v.push(cs[i]);
                    i += 1;
                }
            }
        }
        m.insert(k, v);
    }
    m
}

fn map_of(s: Option<&String>) -> BTreeMap<String, String> {
    s.map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| { let (a, b) = x.split_once(':').unwrap(); (a.to_string(), b.to_string()) }).collect()).unwrap_or_default()
}

#[derive(Default)]
struct Global {
    typemap: BTreeMap<String, String>,
    modules: HashSet<String>,
    enums: HashMap<String, HashMap<String, String>>, // enum name -> variant -> enum name
    methods: BTreeMap<String, String>,
    macros: mac::Table,
    mono: HashSet<String>,
    attr: String,
}

struct Entry {
    name: String,
    file: String,
    line: usize,
    start: usize,
    end: usize,
    props: String,
    kind: String,
}

fn run(tpl: &str, repo: &str, base: &str, out: &mut String, entries: &mut Vec<Entry>, errs: &mut Vec<String>, stats: &mut BTreeMap<String, usize>) {
    let mut files = Files { repo: repo.to_string(), cache: HashMap::new() };
    let mut g = Global::default();
    let mut lines: Vec<String> = vec![];
    let mut defs: HashSet<String> = HashSet::new();
    fn load(tpl: &str, base: &str, lines: &mut Vec<String>, errs: &mut Vec<String>, defs: &mut HashSet<String>) {
        let text = std::fs::read_to_string(format!("{}/{}", base, tpl)).unwrap_or_else(|e| {
            errs.push(format!("template {}: {}", tpl, e));
            String::new()
        });
        let mut skip = 0;
        for l in text.lines() {
            let t = l.trim();
            if let Some(r) = t.strip_prefix("//@if ") {
                let r = r.trim();
                let (neg, name) = if let Some(x) = r.strip_prefix('!') { (true, x) } else { (false, r) };
                if skip > 0 || defs.contains(name) == neg {
                    skip += 1;
                }
                else { lines.push("//@nop".into()); }
                continue;
            }
            if t == "//@fi" {
                if skip > 0 {
                    skip -= 1;
                }
                continue;
            }
            if skip > 0 {
                continue;
            }
            if let Some(r) = t.strip_prefix("//@define ") {
                defs.insert(r.trim().to_string());
                continue;
            }
            if let Some(f) = t.strip_prefix("//@include ") {
                load(f.trim(), base, lines, errs, defs);
                continue;
            }
            lines.push(l.to_string());
        }
    }
    load(tpl, base, &mut lines, errs, &mut defs);
    // named pieces of contract text: //@text NAME .. //@endtext, used by //@use NAME
    let mut texts: HashMap<String, Vec<String>> = HashMap::new();
    let mut expanded = vec![];
    let mut cur: Option<String> = None;
    for l in lines {
        let t = l.trim().to_string();
        if let Some(n) = t.strip_prefix("//@text ") {
            cur = Some(n.trim().to_string());
            texts.insert(n.trim().to_string(), vec![]);
        } else if t == "//@endtext" {
            cur = None;
        } else {
            let mut put: Vec<String> = vec![];
            if let Some(n) = t.strip_prefix("//@use ") {
                match texts.get(n.trim()) {
                    Some(v) => put.extend(v.clone()),
                    None => errs.push(format!("template: no text {}", n)),
                }
            } else {
                put.push(l);
            }
            match &cur {
                Some(c) => texts.get_mut(c).unwrap().extend(put),
                None => expanded.extend(put),
            }
        }
    }
    let lines = expanded;
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].clone();
        let t = l.trim().to_string();
        if t == "//@nop" {
            i += 1;
            continue;
        }
        if !t.starts_with("//@") {
            out.push_str(&l);
            out.push('\n');
            i += 1;
            continue;
        }
        let mut w = t[3..].splitn(2, ' ');
        let cmd = w.next().unwrap().to_string();
        let rest = w.next().unwrap_or("").trim().to_string();
        match cmd.as_str() {
            "macros" => {
                for f in rest.split_whitespace() {
                    match files.get(f) {
                        Ok(file) => {
                            for it in &file.items {
                                if let Item::Macro(m) = it {
                                    if let Some(id) = &m.ident {
                                        g.macros.insert(id.to_string(), mac::parse_rules(m.mac.tokens.clone()));
                                    }
                                }
                            }
                        }
                        Err(e) => errs.push(e),
                    }
                }
                i += 1;
            }
            "modules" => {
                g.modules.extend(rest.split_whitespace().map(|s| s.to_string()));
                i += 1;
            }
            "attr" => {
                g.attr = rest.clone();
                i += 1;
            }
            "mono" => {
                g.mono.extend(rest.split_whitespace().map(|s| s.to_string()));
                i += 1;
            }
            "typemap" => {
                let (a, b) = rest.split_once("=>").unwrap();
                g.typemap.insert(a.trim().replace(' ', ""), b.trim().to_string());
                i += 1;
            }
            "methods" => {
                for p in rest.split_whitespace() {
                    let (a, b) = p.split_once('=').unwrap();
                    g.methods.insert(a.to_string(), b.to_string());
                }
                i += 1;
            }
            "enum" => {
                let v: Vec<&str> = rest.split_whitespace().collect();
                match files.get(v[1]) {
                    Ok(file) => {
                        let mut m = HashMap::new();
                        for it in &file.items {
                            if let Item::Enum(e) = it {
                                if e.ident == v[2] {
                                    for x in &e.variants {
                                        m.insert(x.ident.to_string(), v[0].to_string());
                                    }
                                }
                            }
                        }
                        g.enums.insert(v[0].to_string(), m);
                    }
                    Err(e) => errs.push(e),
                }
                i += 1;
            }
            "fields" => {
                // fields FILE Struct | text with $F and $T  (one copy per field)
                let (h, text) = rest.split_once(" | ").unwrap();
                let (f, st) = h.split_once(' ').unwrap();
                match files.get(f) {
                    Ok(file) => {
                        for it in &file.items {
                            if let Item::Struct(s) = it {
                                if s.ident == st.trim() {
                                    for (nth, x) in s.fields.iter().enumerate() {
                                        let ty = x.ty.to_token_stream().to_string().replace(' ', "");
                                        let ty = ty.strip_prefix("Option<").and_then(|t| t.strip_suffix('>')).unwrap_or(&ty).to_string();
                                        out.push_str(&text.replace("$F", &x.ident.as_ref().unwrap().to_string()).replace("$T", &ty).replace("$N", &nth.to_string()));
                                        out.push('\n');
                                    }
                                }
                            }
                        }
                    }
                    Err(e) => errs.push(e),
                }
                i += 1;
            }
            "const" => {
                // const FILE NAME: a constant or static item, as a constant
                let (f, n) = rest.split_once(' ').unwrap();
                i += 1;
                match files.get(f) {
                    Ok(file) => {
                        let mut hit = false;
                        for it in &file.items {
                            let (id, mut ty, ex) = match it {
                                Item::Const(c) => (&c.ident, (*c.ty).clone(), &c.expr),
                                Item::Static(c) => (&c.ident, (*c.ty).clone(), &c.expr),
                                _ => continue,
                            };
                            if id == n.trim() {
                                hit = true;
                                if let Type::Reference(r) = &mut ty { r.lifetime = Some(parse_quote!('static)); }
                                out.push_str(&print_plain(quote::quote!(pub const #id: #ty = #ex;)));
                                out.push('\n');
                            }
                        }
                        if !hit {
                            errs.push(format!("{} {}: lost anchor: constant not found", f, n));
                        }
                    }
                    Err(e) => errs.push(e),
                }
            }
            "grammar" => {
                // grammar FILE [gap|trivia]: one function per production; the lines up to //@end go first into every body
                let gap = rest.trim().ends_with(" gap");
                let trivia = rest.trim().ends_with(" trivia");
                let file = rest.trim().trim_end_matches(" gap").trim_end_matches(" trivia").to_string();
                let mut pre = String::new();
                i += 1;
                while i < lines.len() && lines[i].trim() != "//@end" {
                    pre.push_str(&lines[i]);
                    pre.push('\n');
                    i += 1;
                }
                i += 1;
                let r = std::fs::read_to_string(format!("{}/{}", repo, file)).map_err(|e| format!("lost anchor: {}: {}", file, e)).and_then(|s| lalr::emit(&s, &pre, gap, trivia).map_err(|e| format!("unsupported: {}: {}", file, e)));
                match r {
                    Err(e) => errs.push(e),
                    Ok(o) => {
                        out.push_str(&o.specs);
                        for (name, line, text) in o.lemmas {
                            let start = out.lines().count() + 1;
                            out.push_str(&text);
                            let end = out.lines().count();
                            entries.push(Entry { name, file: file.clone(), line, start, end, props: String::new(), kind: "production".into() });
                        }
                        for p in o.prods {
                            match p {
                                Err((label, line, e)) => errs.push(format!("{}:{} {}: unsupported: {}", file, line, label, e)),
                                Ok(p) => match parse_file(&p.source) {
                                    Err(e) => errs.push(format!("{}:{} {}: unsupported: {}", file, p.line, p.label, e)),
                                    Ok(f) => {
                                        let vf = format!("@{}/{}", file, p.name);
                                        files.cache.insert(vf.clone(), f);
                                        let mut d = Dir { kind: "fn".into(), file: vf, path: p.name.clone(), opts: BTreeMap::new(), sect: BTreeMap::new() };
                                        d.sect.insert("contract".into(), p.contract.clone());
                                        d.sect.insert("pre".into(), p.pre.clone());
                                        match emit(&d, &mut files, &g, out, entries, stats) {
                                            Ok(()) => {
                                                if let Some(e) = entries.last_mut() {
                                                    e.name = format!("production {}", p.label);
                                                    e.file = file.clone();
                                                    e.line = p.line;
                                                    e.kind = "production".into();
                                                }
                                            }
                                            Err(e) => errs.push(format!("{}:{} {}: {}", file, p.line, p.label, e)),
                                        }
                                    }
                                },
                            }
                        }
                    }
                }
            }
            "phf" => {
                // phf FILE NAME: a `phf_map!` static, as the chain of comparisons it stands for; contract up to //@end
                let (f, n) = rest.split_once(' ').unwrap();
                let n = n.trim();
                let mut contract = String::new();
                i += 1;
                while i < lines.len() && lines[i].trim() != "//@end" {
                    contract.push_str(&lines[i]);
                    contract.push('\n');
                    i += 1;
                }
                i += 1;
                match files.get(f) {
                    Ok(file) => {
                        let mut hit = false;
                        for it in &file.items {
                            if let Item::Static(c) = it {
                                if c.ident != n { continue; }
                                let vt = match &*c.ty {
                                    Type::Path(p) => match &p.path.segments.last().unwrap().arguments {
                                        PathArguments::AngleBracketed(a) => a.args.last().map(|x| x.to_token_stream()),
                                        _ => None,
                                    },
                                    _ => None,
                                };
                                if let (Expr::Macro(m), Some(vt)) = (&*c.expr, vt) {
                                    hit = true;
                                    let mut chain = String::new();
                                    let mut key: Option<TokenStream> = None;
                                    let mut cur: Vec<TokenTree> = vec![];
                                    let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().chain(std::iter::once(TokenTree::Punct(proc_macro2::Punct::new(',', proc_macro2::Spacing::Alone)))).collect();
                                    let mut k = 0;
                                    while k < toks.len() {
                                        match (&toks[k], toks.get(k + 1)) {
                                            (TokenTree::Punct(a), Some(TokenTree::Punct(b))) if a.as_char() == '=' && b.as_char() == '>' => {
                                                key = Some(cur.drain(..).collect());
                                                k += 1;
                                            }
                                            (TokenTree::Punct(a), _) if a.as_char() == ',' => {
                                                if let Some(kk) = key.take() {
                                                    let v: TokenStream = cur.drain(..).collect();
                                                    writeln!(chain, "        if str_is(k, {}) {{ return Some({}); }}", kk, v).unwrap();
                                                }
                                            }
                                            (t, _) => cur.push(t.clone()),
                                        }
                                        k += 1;
                                    }
                                    let line = c.ident.span().start().line;
                                    writeln!(out, "pub struct {}_t; pub const {}: {}_t = {}_t;", n, n, n, n).unwrap();
                                    let start = out.lines().count() + 1;
                                    write!(out, "impl {}_t {{ pub fn get(&self, k: &str) -> (r: Option<{}>)\n{}{{\n{}        None\n}} }}\n", n, vt, contract, chain).unwrap();
                                    let end = out.lines().count();
                                    entries.push(Entry { name: n.to_string(), file: f.to_string(), line, start, end, props: String::new(), kind: "fn".into() });
                                }
                            }
                        }
                        if !hit {
                            errs.push(format!("{} {}: lost anchor: map not found", f, n));
                        }
                    }
                    Err(e) => errs.push(e),
                }
            }
            "type" | "fn" | "arms" => {
                let (head, opts) = {
                    let mut parts = rest.splitn(2, " | ");
                    let h = parts.next().unwrap().to_string();
                    (h, parse_opts(parts.next().unwrap_or("")))
                };
                let (file, path) = head.split_once(' ').unwrap();
                let mut d = Dir { kind: cmd.clone(), file: file.to_string(), path: path.trim().to_string(), opts, sect: BTreeMap::new() };
                i += 1;
                if cmd != "type" {
                    let mut cur = "contract".to_string();
                    while i < lines.len() {
                        let t = lines[i].trim().to_string();
                        if t == "//@nop" {
                            i += 1;
                            continue;
                        }
                        if t == "//@end" {
                            i += 1;
                            break;
                        }
                        if let Some(r) = t.strip_prefix("//@fields ") {
                            let (h, text) = r.split_once(" | ").unwrap();
                            let (f, st) = h.trim().split_once(' ').unwrap();
                            if let Ok(file) = files.get(f) {
                                for it in &file.items {
                                    if let Item::Struct(s) = it {
                                        if s.ident == st.trim() {
                                            for (nth, x) in s.fields.iter().enumerate() {
                                                let ty = x.ty.to_token_stream().to_string().replace(' ', "");
                                                let ty = ty.strip_prefix("Option<").and_then(|t| t.strip_suffix('>')).unwrap_or(&ty).to_string();
                                                let e = d.sect.entry(cur.clone()).or_default();
                                                e.push_str(&text.replace("$F", &x.ident.as_ref().unwrap().to_string()).replace("$T", &ty).replace("$N", &nth.to_string()));
                                                e.push('\n');
                                            }
                                        }
                                    }
                                }
                            }
                        } else if let Some(r) = t.strip_prefix("//@") {
                            cur = r.trim().to_string();
                            d.sect.entry(cur.clone()).or_default();
                        } else {
                            let e = d.sect.entry(cur.clone()).or_default();
                            e.push_str(&lines[i]);
                            e.push('\n');
                        }
                        i += 1;
                    }
                }
                if let Err(e) = emit(&d, &mut files, &g, out, entries, stats) {
                    errs.push(format!("{} {}: {}", d.file, d.path, e));
                }
            }
            _ => {
                errs.push(format!("unknown directive {}", t));
                i += 1;
            }
        }
    }
}

fn cx<'a>(d: &Dir, g: &'a Global) -> tr::Cx<'a> {
    let inst = map_of(d.opts.get("inst"));
    let variants = d.opts.get("enum").and_then(|e| g.enums.get(e)).cloned().unwrap_or_default();
    let mut rename = BTreeMap::new();
    for (k, v) in &g.methods {
        rename.insert(format!("m:{}", k), v.clone());
    }
    for (k, v) in map_of(d.opts.get("methods")) {
        rename.insert(format!("m:{}", k), v);
    }
    for (k, v) in map_of(d.opts.get("fns")) {
        rename.insert(format!("fn:{}", k), v);
    }
    for m in &g.mono {
        rename.insert(format!("mono:{}", m), "1".into());
    }
    tr::Cx {
        macros: &g.macros,
        inst,
        variants,
        rename,
        typemap: &g.typemap,
        math: d.opts.get("arith").map(|s| s == "math").unwrap_or(false),
        iter_mut: d.opts.get("iter").map(|s| s == "mut").unwrap_or(false),
        modules: &g.modules,
        nexp: 0,
        nloop: 0,
        local_macros: BTreeMap::new(),
        errors: vec![],
        reserved: HashSet::new(),
        dropped_print: 0,
        stdout: d.opts.contains_key("stdout"),
        optcomb: d.opts.contains_key("optcomb"),
        closures: d.opts.contains_key("closures"),
        index_lit: d.opts.get("index").map(|s| s == "lit").unwrap_or(false),
    }
}

fn print_plain(ts: TokenStream) -> String {
    let e = HashMap::new();
    let mut p = Pr::new(&e, &e);
    p.ts(ts);
    p.out
}

struct DropAttrs;
impl VisitMut for DropAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

fn emit(d: &Dir, files: &mut Files, g: &Global, out: &mut String, entries: &mut Vec<Entry>, stats: &mut BTreeMap<String, usize>) -> std::result::Result<(), String> {
    let file = files.get(&d.file)?;
    if d.kind == "type" {
        for it in &file.items {
            match it {
                Item::Struct(s) if s.ident == d.path => {
                    let mut s = s.clone();
                    s.attrs.clear();
                    let mut c = cx(d, g);
                    for f in s.fields.iter_mut() {
                        f.attrs.clear();
                        c.visit_type_mut(&mut f.ty);
                        if d.opts.contains_key("pubfields") {
                            f.vis = parse_quote!(pub);
                        }
                    }
                    // ghost=name:Type adds a ghost field, which only proof code reads and writes
                    if let Some(x) = d.opts.get("ghost") {
                        let (n, t) = x.split_once(':').ok_or("ghost=name:Type")?;
                        let n = format_ident!("{}", n);
                        let t: Type = syn::parse_str(&format!("Ghost<{}>", t)).map_err(|e| e.to_string())?;
                        if let Fields::Named(fs) = &mut s.fields {
                            fs.named.push(parse_quote!(pub #n: #t));
                        }
                    }
                    if d.opts.contains_key("nogenerics") {
                        s.generics = {
                            let mut ge = s.generics.clone();
                            ge.params = ge.params.into_iter().filter(|p| !matches!(p, GenericParam::Type(_))).collect();
                            ge.where_clause = None;
                            ge
                        };
                    }
                    if let Some(x) = d.opts.get("addlt") {
                        let ge: Generics = syn::parse_str(x).map_err(|e| e.to_string())?;
                        s.generics = ge;
                    }
                    if let Some(n) = d.opts.get("as") {
                        s.ident = format_ident!("{}", n);
                    }
                    if let Some(a) = d.opts.get("attr") {
                        out.push_str(a);
                        out.push('\n');
                    }
                    out.push_str(&print_plain(s.to_token_stream()));
                    out.push('\n');
                    return Ok(());
                }
                Item::Enum(s) if s.ident == d.path => {
                    let mut s = s.clone();
                    s.attrs.clear();
                    DropAttrs.visit_item_enum_mut(&mut s);
                    let mut c = cx(d, g);
                    for v in s.variants.iter_mut() {
                        for f in v.fields.iter_mut() {
                            c.visit_type_mut(&mut f.ty);
                        }
                    }
                    if let Some(n) = d.opts.get("as") {
                        s.ident = format_ident!("{}", n);
                    }
                    if let Some(a) = d.opts.get("attr") {
                        out.push_str(a);
                        out.push('\n');
                    }
                    out.push_str(&print_plain(s.to_token_stream()));
                    out.push('\n');
                    return Ok(());
                }
                Item::Type(s) if s.ident == d.path => {
                    out.push_str(&print_plain(s.to_token_stream()));
                    out.push('\n');
                    return Ok(());
                }
                _ => {}
            }
        }
        return Err("lost anchor: type not found".into());
    }

    let found = match find_fn(&file, &d.path) {
        Some(f) => f,
        None => return Err("lost anchor: function not found".into()),
    };
    let Found { mut sig, mut block, impl_generics, self_ty, line } = found;
    let mut c = cx(d, g);
    // file-local macro_rules are also in the table when listed by //@macros

    // parameters: canonical names
    let canon: Vec<String> = d.opts.get("params").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut ren: HashMap<String, String> = HashMap::new();
    let mut k = 0;
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            t.attrs.clear();
            let want = canon.get(k).cloned();
            let name = match &*t.pat {
                Pat::Ident(i) => Some(i.ident.to_string()),
                _ => None,
            };
            match (name, want) {
                (Some(n), Some(w)) => {
                    if n != w {
                        ren.insert(n, w.clone());
                        let id = format_ident!("{}", w);
                        let m = matches!(&*t.pat, Pat::Ident(i) if i.mutability.is_some());
                        t.pat = if m { parse_quote!(mut #id) } else { parse_quote!(#id) };
                    }
                }
                (None, Some(w)) => {
                    let id = format_ident!("{}", w);
                    t.pat = parse_quote!(#id);
                }
                (None, None) => {
                    let id = format_ident!("a{}__", k);
                    t.pat = parse_quote!(#id);
                }
                _ => {}
            }
            k += 1;
        }
    }
    if !canon.is_empty() && canon.len() != k {
        return Err(format!("lost anchor: expected {} parameters, found {}", canon.len(), k));
    }
    if !ren.is_empty() {
        tr::rename_idents(&mut block, &ren);
    }
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            c.visit_type_mut(&mut t.ty);
        }
    }
    if let ReturnType::Type(_, t) = &mut sig.output {
        c.visit_type_mut(t);
    }
    // generics: lifetimes only (types are instantiated)
    if !d.opts.contains_key("keepgenerics") {
        sig.generics.params = sig.generics.params.into_iter().filter(|p| !matches!(p, GenericParam::Type(_))).collect();
        sig.generics.where_clause = None;
    } else {
        c.visit_generics_mut(&mut sig.generics);
    }
    DropAttrs.visit_block_mut(&mut block);

    let name = d.opts.get("as").cloned().unwrap_or_else(|| sig.ident.to_string());
    let (imp, fname) = match name.rsplit_once("::") {
        Some((t, n)) => (Some(t.to_string()), n.to_string()),
        None => (None, name.clone()),
    };
    let label = match (d.opts.get("as"), d.path.rsplit_once("::")) {
        (Some(a), _) => a.clone(),
        (None, Some((t, n))) => {
            let t = t.split(" as ").next().unwrap().trim();
            match (d.opts.get("enum"), d.opts.get("impl").and_then(|h| h.split(t).nth(1))) {
                (Some(e), _) if e.ends_with(t) => format!("{}::{}", e, n),
                (_, Some(x)) if x.starts_with('<') => format!("{}{}::{}", t, x, n),
                _ => format!("{}::{}", t, n),
            }
        }
        _ => name.clone(),
    };
    let mut header = String::new();
    if let Some(h) = d.opts.get("impl") {
        header = format!("impl{}", h);
    } else if let Some(t) = &imp {
        header = format!("impl {}", t);
    } else if let Some(st) = self_ty {
        let mut st = st.clone();
        c.visit_type_mut(&mut st);
        let ge = impl_generics.unwrap();
        let mut ge2 = ge.clone();
        ge2.params = ge2.params.into_iter().filter(|p| !matches!(p, GenericParam::Type(_))).collect();
        ge2.where_clause = None;
        header = format!("impl{} {}", print_plain(ge2.to_token_stream()), print_plain(st.to_token_stream()));
    }
    let body_sect = |k: &str| d.sect.get(k).cloned().unwrap_or_default();
    let mut loops = HashMap::new();
    let mut lbs = HashMap::new();
    for (k, v) in &d.sect {
        if let Some(n) = k.strip_prefix("loop ") {
            loops.insert(n.trim().parse::<usize>().unwrap(), v.clone());
        }
        if let Some(n) = k.strip_prefix("loopbegin ") {
            lbs.insert(n.trim().parse::<usize>().unwrap(), v.clone());
        }
    }
    let attr = d.opts.get("attr").cloned().unwrap_or_else(|| g.attr.clone());
    let props = d.opts.get("props").cloned().unwrap_or_default();

    let sig_text = |fname: &str, sig: &Signature, nolt: bool| -> String {
        let mut s = String::new();
        let ge = if nolt { String::new() } else { print_plain(sig.generics.to_token_stream()) };
        write!(s, "pub fn {}{}(", fname, ge.trim()).unwrap();
        let ins: Vec<String> = sig.inputs.iter().map(|a| print_plain(a.to_token_stream()).trim().to_string()).collect();
        s.push_str(&ins.join(", "));
        s.push(')');
        if let ReturnType::Type(_, t) = &sig.output {
            write!(s, " -> (r: {})", print_plain(t.to_token_stream()).trim()).unwrap();
        }
        s
    };

    let emit_one = |out: &mut String, entries: &mut Vec<Entry>, fname: &str, disp: &str, kind: &str, extra_req: &str, pre: &str, body: TokenStream, line: usize, contract: &str, nloops: usize| -> std::result::Result<(), String> {
        let start = out.lines().count() + 1;
        writeln!(out, "// @fn {} {}:{} [{}]", disp, d.file, line, props).unwrap();
        if !header.is_empty() {
            writeln!(out, "{} {{", header).unwrap();
        }
        if !attr.is_empty() {
            writeln!(out, "{}", attr).unwrap();
        }
        writeln!(out, "{}", sig_text(fname, &sig, false)).unwrap();
        // extra requires go first
        if !extra_req.is_empty() {
            if contract.trim_start().starts_with("requires") {
                let rest = contract.trim_start().strip_prefix("requires").unwrap();
                writeln!(out, "    requires {}, {}", extra_req, rest).unwrap();
            } else {
                writeln!(out, "    requires {},\n{}", extra_req, contract).unwrap();
            }
        } else {
            out.push_str(contract);
        }
        let mut p = Pr::new(&loops, &lbs);
        p.ts(body);
        if kind == "fn" {
            for k in loops.keys() {
                if !p.seen_loops.contains(k) {
                    return Err(format!("lost anchor: loop {} is gone", k));
                }
            }
            if p.seen_loops.len() != loops.len() && nloops != usize::MAX {
                return Err(format!("lost anchor: {} loops in the source, {} in the contract", p.seen_loops.len(), loops.len()));
            }
        }
        writeln!(out, "{{\n{}\n  {}\n}}", pre.trim_end(), p.out).unwrap();
        if !header.is_empty() {
            writeln!(out, "}}").unwrap();
        }
        let end = out.lines().count();
        entries.push(Entry { name: disp.to_string(), file: d.file.clone(), line, start, end, props: props.clone(), kind: kind.to_string() });
        Ok(())
    };

    c.visit_block_mut(&mut block);
    if !c.errors.is_empty() {
        return Err(format!("unsupported: {}", c.errors.join("; ")));
    }
    *stats.entry("prints dropped".into()).or_default() += c.dropped_print;
    let contract = body_sect("contract");
    let pre = body_sect("pre");
    let mut inner = TokenStream::new();
    for s in &block.stmts {
        s.to_tokens(&mut inner);
    }

    if d.kind == "arms" {
        if c.nloop != loops.len() {
            return Err(format!("lost anchor: {} loops in the source, {} in the contract", c.nloop, loops.len()));
        }
        // body: statements, then `match self { ... }` (or on=param: a match on that `&mut` parameter)
        let on = d.opts.get("on").cloned().unwrap_or("self".into());
        let is_self = on == "self";
        let (lead, last) = match block.stmts.split_last() {
            Some((l, rest)) => (rest.to_vec(), l.clone()),
            None => return Err("lost anchor: empty body".into()),
        };
        let m = match &last {
            Stmt::Expr(Expr::Match(m), _) if m.expr.to_token_stream().to_string() == on => m.clone(),
            _ => return Err("lost anchor: body does not end in a match on self".into()),
        };
        let en = d.opts.get("enum").cloned().unwrap_or_default();
        let mut disp = String::new();
        // the variants each arm mentions; None: any
        let mut ment: Vec<Option<Vec<String>>> = vec![];
        for a in &m.arms {
            let cases: Vec<Pat> = match &a.pat {
                Pat::Or(o) => o.cases.iter().cloned().collect(),
                p => vec![p.clone()],
            };
            let mut names = vec![];
            let mut any = false;
            for p in &cases {
                match p {
                    Pat::TupleStruct(t) => names.push(t.path.segments.last().unwrap().ident.to_string()),
                    Pat::Path(t) => names.push(t.path.segments.last().unwrap().ident.to_string()),
                    Pat::Wild(_) | Pat::Ident(_) => any = true,
                    _ => return Err("lost anchor: arm pattern is not a variant".into()),
                }
            }
            ment.push(if any { None } else { Some(names) });
        }
        let mut seen: std::collections::HashSet<String> = Default::default();
        let mut groups: Vec<(Vec<String>, usize)> = vec![];
        for (k, n) in ment.iter().enumerate() {
            if let Some(ns) = n {
                let fresh: Vec<String> = ns.iter().filter(|x| seen.insert(x.to_string())).cloned().collect();
                if !fresh.is_empty() {
                    groups.push((fresh, k));
                }
            }
        }
        if let Some(k) = ment.iter().position(|x| x.is_none()) {
            // the variants no arm mentions
            let mut rest: Vec<String> = g.enums.get(&en).map(|e| e.keys().cloned().collect()).unwrap_or_default();
            rest.retain(|x| !seen.contains(x));
            rest.sort();
            for r in rest {
                groups.push((vec![r], k));
            }
        }
        let call_args: Vec<String> = sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => Some(t.pat.to_token_stream().to_string()), _ => None }).collect();
        // `only`: just the arms of these variants, without the dispatcher
        let only: Option<Vec<String>> = d.opts.get("only").map(|o| o.split(',').map(|x| x.to_string()).collect());
        for (names, first) in &groups {
            if let Some(o) = &only {
                if !names.iter().any(|n| o.contains(n)) {
                    continue;
                }
            }
            let an = format!("{}__{}", fname, names[0]);
            let req = names.iter().map(|n| if is_self { format!("(self is {})", n) } else { format!("(*old({}) is {})", on, n) }).collect::<Vec<_>>().join(" || ");
            let mut arms = TokenStream::new();
            let mut wild = false;
            for (k, a) in m.arms.iter().enumerate() {
                let hit = match &ment[k] {
                    None => true,
                    Some(ns) => ns.iter().any(|x| names.contains(x)),
                };
                if !hit || wild {
                    continue;
                }
                let pat = &a.pat;
                let body = &a.body;
                let guard = a.guard.as_ref().map(|(_, c)| quote::quote!(if #c));
                if ment[k].is_none() && a.guard.is_none() {
                    wild = true;
                }
                arms.extend(quote::quote!(#pat #guard => { #body } ,));
            }
            if !wild {
                arms.extend(quote::quote!(_ => { __unreached!() }));
            }
            let sc: Expr = syn::parse_str(&on).unwrap();
            let exp: TokenStream = quote::quote!(#(#lead)* match #sc { #arms });
            let pats = names.iter().map(|n| format!("{}::{}(..)", en, n)).collect::<Vec<_>>().join(" | ");
            writeln!(disp, "    {} => {}{}({}),", pats, if is_self { "self." } else { "" }, an, call_args.join(", ")).unwrap();
            let mut con = contract.clone();
            let mut pr = pre.clone();
            pr.push_str(&body_sect("armpre"));
            for n in names {
                con.push_str(&body_sect(&format!("arm {}", n)));
                pr.push_str(&body_sect(&format!("armpre {}", n)));
            }
            let l = match &m.arms[*first].pat {
                Pat::Or(o) => match &o.cases[0] { Pat::TupleStruct(t) => t.path.segments.last().unwrap().ident.span().start().line, _ => 0 },
                Pat::TupleStruct(t) => t.path.segments.last().unwrap().ident.span().start().line,
                _ => 0,
            };
            emit_one(out, entries, &an, &format!("{}::{}", label, names[0]), "arm", &format!("({})", req), &pr, exp, if l > 0 { l } else { line }, &con, usize::MAX)?;
        }
        if only.is_some() {
            return Ok(());
        }
        let start = out.lines().count() + 1;
        writeln!(out, "// @fn {} {}:{} [{}]", name, d.file, line, props).unwrap();
        if !header.is_empty() {
            writeln!(out, "{} {{", header).unwrap();
        }
        if !attr.is_empty() {
            writeln!(out, "{}", attr).unwrap();
        }
        writeln!(out, "{}\n{}\n{{ {}\n  match {} {{\n{}  }}\n}}\n{}", sig_text(&fname, &sig, false), contract, pre, on, disp, if !header.is_empty() { "}" } else { "" }).unwrap();
        let end = out.lines().count();
        entries.push(Entry { name: label.clone(), file: d.file.clone(), line, start, end, props: props.clone(), kind: "dispatch".into() });
        return Ok(());
    }
    emit_one(out, entries, &fname, &label, "fn", "", &pre, inner, line, &contract, 0)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let repo = a.get(4).cloned().unwrap_or_else(|| "/repo".into());
    let p = std::path::Path::new(&a[1]);
    let base = p.parent().unwrap().to_str().unwrap().to_string();
    let mut out = String::new();
    let mut entries = vec![];
    let mut errs = vec![];
    let mut stats = BTreeMap::new();
    run(p.file_name().unwrap().to_str().unwrap(), &repo, &base, &mut out, &mut entries, &mut errs, &mut stats);
    let out = out.replace("__unreached ! ()", "unreached_()");
    std::fs::write(&a[2], &out).unwrap();
    let mut j = String::from("{\"entries\":[\n");
    for (i, e) in entries.iter().enumerate() {
        write!(j, "{}{{\"name\":{},\"file\":{},\"line\":{},\"start\":{},\"end\":{},\"props\":{},\"kind\":{}}}", if i > 0 { ",\n" } else { "" }, jesc(&e.name), jesc(&e.file), e.line, e.start, e.end, jesc(&e.props), jesc(&e.kind)).unwrap();
    }
    j.push_str("\n],\"errors\":[");
    for (i, e) in errs.iter().enumerate() {
        write!(j, "{}{}", if i > 0 { "," } else { "" }, jesc(e)).unwrap();
    }
    j.push_str("],\"stats\":{");
    for (i, (k, v)) in stats.iter().enumerate() {
        write!(j, "{}{}:{}", if i > 0 { "," } else { "" }, jesc(k), v).unwrap();
    }
    j.push_str("}}\n");
    std::fs::write(&a[3], j).unwrap();
    for e in &errs {
        eprintln!("extract: {}", e);
    }
    if !errs.is_empty() {
        std::process::exit(2);
    }
}
