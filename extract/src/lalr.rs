//! The productions of a LALRPOP grammar as functions: one per alternative (macros instantiated, `x?` expanded), its body the
//! action code as written, its contract built from the symbols: what each symbol's value and place promise, and what the
//! nonterminal promises in turn.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum Sym {
    Lit(String),
    Name(String, Vec<Sym>),
    Opt(Box<Sym>),
    L,
    R,
}
#[derive(Clone, Debug)]
pub struct Alt {
    syms: Vec<(Option<String>, bool, Sym)>,
    action: Option<TokenStream>,
    line: usize,
}
#[derive(Clone, Debug)]
struct Nt {
    public: bool,
    params: Vec<String>,
    ty: Option<String>,
    alts: Vec<Alt>,
}
/// a production, ready to be printed as a function
pub struct Prod {
    pub name: String,
    pub label: String,
    pub line: usize,
    pub source: String,
    pub contract: String,
    pub pre: String,
}
pub struct Out {
    pub specs: String,
    pub lemmas: Vec<(String, usize, String)>,
    pub prods: Vec<std::result::Result<Prod, (String, usize, String)>>,
}

struct P {
    t: Vec<TokenTree>,
    i: usize,
}
impl P {
    fn peek(&self) -> Option<&TokenTree> {
        self.t.get(self.i)
    }
    fn punct(&self, c: char) -> bool {
        matches!(self.peek(), Some(TokenTree::Punct(p)) if p.as_char() == c)
    }
    fn arrow(&self) -> bool {
        self.punct('=') && matches!(self.t.get(self.i + 1), Some(TokenTree::Punct(p)) if p.as_char() == '>')
    }
    fn eat(&mut self, c: char) -> Result<(), String> {
        if self.punct(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", c, self.peek().map(|t| t.to_string())))
        }
    }
    fn ident(&mut self) -> Option<String> {
        if let Some(TokenTree::Ident(i)) = self.peek() {
            let s = i.to_string();
            self.i += 1;
            return Some(s);
        }
        None
    }
    fn line(&self) -> usize {
        self.peek().map(|t| t.span().start().line).unwrap_or(0)
    }
    fn atom(&mut self) -> Result<Sym, String> {
        let s = match self.peek().cloned() {
            Some(TokenTree::Literal(l)) => {
                self.i += 1;
                let v: syn::LitStr = syn::parse_str(&l.to_string()).map_err(|e| e.to_string())?;
                Sym::Lit(v.value())
            }
            Some(TokenTree::Punct(p)) if p.as_char() == '@' => {
                self.i += 1;
                match self.ident().as_deref() {
                    Some("L") => Sym::L,
                    Some("R") => Sym::R,
                    x => return Err(format!("@{:?}", x)),
                }
            }
            Some(TokenTree::Ident(_)) => {
                let n = self.ident().unwrap();
                let mut args = vec![];
                if self.punct('<') && !matches!(self.t.get(self.i + 1), Some(TokenTree::Ident(_)) if matches!(self.t.get(self.i + 2), Some(TokenTree::Punct(p)) if p.as_char() == ':')) {
                    self.i += 1;
                    loop {
                        args.push(self.atom()?);
                        if self.punct(',') {
                            self.i += 1;
                            if self.punct('>') { break; }
                        } else {
                            break;
                        }
                    }
                    self.eat('>')?;
                }
                Sym::Name(n, args)
            }
            x => return Err(format!("symbol {:?} is outside the subset", x.map(|t| t.to_string()))),
        };
        if self.punct('?') {
            self.i += 1;
            return Ok(Sym::Opt(Box::new(s)));
        }
        if self.punct('*') || self.punct('+') {
            return Err("repetition is outside the subset".into());
        }
        Ok(s)
    }
    fn alt(&mut self) -> Result<Alt, String> {
        let line = self.line();
        let mut syms = vec![];
        let mut action = None;
        loop {
            if self.peek().is_none() || self.punct(',') || self.punct(';') {
                break;
            }
            if self.arrow() {
                self.i += 2;
                if self.punct('?') {
                    return Err("fallible actions are outside the subset".into());
                }
                let mut a = vec![];
                while let Some(t) = self.peek().cloned() {
                    if self.punct(',') || self.punct(';') {
                        break;
                    }
                    let group = matches!(&t, TokenTree::Group(g) if g.delimiter() == Delimiter::Brace);
                    a.push(t);
                    self.i += 1;
                    if group && a.len() == 1 {
                        break;
                    }
                }
                action = Some(a.into_iter().collect());
                break;
            }
            if self.punct('<') {
                self.i += 1;
                if matches!(self.peek(), Some(TokenTree::Ident(i)) if i == "mut") {
                    return Err("mut captures are outside the subset".into());
                }
                let mut name = None;
                if let (Some(TokenTree::Ident(i)), Some(TokenTree::Punct(c))) = (self.peek().cloned(), self.t.get(self.i + 1)) {
                    if c.as_char() == ':' {
                        name = Some(i.to_string());
                        self.i += 2;
                    }
                }
                let s = self.atom()?;
                self.eat('>')?;
                syms.push((name, true, s));
            } else {
                let s = self.atom()?;
                syms.push((None, false, s));
            }
        }
        if self.punct(',') {
            self.i += 1;
        }
        Ok(Alt { syms, action, line })
    }
}

struct G {
    nts: BTreeMap<String, Nt>,
    /// quoted or plain terminal name -> (variant, payload types)
    terms: HashMap<String, (String, Vec<String>)>,
    lit: HashMap<String, String>,
}

fn parse(src: &str) -> Result<G, String> {
    let ts: TokenStream = src.parse().map_err(|e: proc_macro2::LexError| e.to_string())?;
    let mut p = P { t: ts.into_iter().collect(), i: 0 };
    let mut g = G { nts: BTreeMap::new(), terms: HashMap::new(), lit: HashMap::new() };
    while p.peek().is_some() {
        let mut public = false;
        match p.peek().cloned() {
            Some(TokenTree::Ident(i)) if i == "use" || i == "grammar" => {
                while p.peek().is_some() && !p.punct(';') {
                    p.i += 1;
                }
                p.i += 1;
                continue;
            }
            Some(TokenTree::Ident(i)) if i == "extern" => {
                p.i += 1;
                if let Some(TokenTree::Group(b)) = p.peek().cloned() {
                    let inner: Vec<TokenTree> = b.stream().into_iter().collect();
                    for k in 0..inner.len() {
                        if let (TokenTree::Ident(e), Some(TokenTree::Group(b))) = (&inner[k], inner.get(k + 2)) {
                            if e != "enum" { continue; }
                            let mut q = P { t: b.stream().into_iter().collect(), i: 0 };
                            while q.peek().is_some() {
                                let key = match q.atom()? {
                                    Sym::Lit(s) => (true, s),
                                    Sym::Name(s, _) => (false, s),
                                    _ => return Err("extern enum".into()),
                                };
                                q.eat('=')?;
                                q.eat('>')?;
                                let mut last = String::new();
                                let mut pay = vec![];
                                while q.peek().is_some() && !q.punct(',') {
                                    match q.peek().unwrap() {
                                        TokenTree::Ident(i) => last = i.to_string(),
                                        TokenTree::Group(g) => {
                                            for t in g.stream() {
                                                if let TokenTree::Ident(i) = t {
                                                    pay.push(i.to_string());
                                                }
                                            }
                                        }
                                        _ => {}
                                    }
                                    q.i += 1;
                                }
                                if q.punct(',') { q.i += 1; }
                                if key.0 {
                                    g.lit.insert(key.1, last);
                                } else {
                                    g.terms.insert(key.1, (last, pay));
                                }
                            }
                        }
                    }
                }
                p.i += 1;
                continue;
            }
            Some(TokenTree::Ident(i)) if i == "pub" => {
                public = true;
                p.i += 1;
            }
            _ => {}
        }
        let name = p.ident().ok_or_else(|| format!("grammar item at line {}", p.line()))?;
        let mut params = vec![];
        if p.punct('<') {
            p.i += 1;
            while !p.punct('>') {
                if let Some(n) = p.ident() { params.push(n) } else { p.i += 1 }
            }
            p.i += 1;
        }
        let mut ty = None;
        if p.punct(':') {
            p.i += 1;
            let mut s = String::new();
            while p.peek().is_some() && !p.punct('=') {
                s.push_str(&p.peek().unwrap().to_string().replace(' ', ""));
                p.i += 1;
            }
            ty = Some(s);
        }
        p.eat('=')?;
        let mut alts = vec![];
        if let Some(TokenTree::Group(b)) = p.peek().cloned() {
            p.i += 1;
            let mut q = P { t: b.stream().into_iter().collect(), i: 0 };
            while q.peek().is_some() {
                alts.push(q.alt()?);
            }
        } else {
            alts.push(p.alt()?);
        }
        if p.punct(';') { p.i += 1; }
        g.nts.insert(name, Nt { public, params, ty, alts });
    }
    Ok(g)
}

fn key(s: &Sym) -> String {
    match s {
        Sym::Lit(l) => format!("{:?}", l),
        Sym::Name(n, a) if a.is_empty() => n.clone(),
        Sym::Name(n, a) => format!("{}<{}>", n, a.iter().map(key).collect::<Vec<_>>().join(",")),
        Sym::Opt(s) => format!("{}?", key(s)),
        Sym::L => "@L".into(),
        Sym::R => "@R".into(),
    }
}
fn subst(s: &Sym, m: &HashMap<String, Sym>) -> Sym {
    match s {
        Sym::Name(n, a) if a.is_empty() && m.contains_key(n) => m[n].clone(),
        Sym::Name(n, a) => Sym::Name(n.clone(), a.iter().map(|x| subst(x, m)).collect()),
        Sym::Opt(x) => Sym::Opt(Box::new(subst(x, m))),
        x => x.clone(),
    }
}
impl G {
    fn mangle(&self, s: &Sym) -> String {
        match s {
            Sym::Lit(l) => self.lit.get(l).cloned().unwrap_or_else(|| "lit".into()),
            Sym::Name(n, a) => {
                let mut r = n.clone();
                for x in a {
                    r.push_str("__");
                    r.push_str(&self.mangle(x));
                }
                r
            }
            _ => "x".into(),
        }
    }
    fn inst(&self, s: &Sym) -> Option<(Nt, HashMap<String, Sym>)> {
        if let Sym::Name(n, a) = s {
            let nt = self.nts.get(n)?;
            let m: HashMap<String, Sym> = nt.params.iter().cloned().zip(a.iter().cloned()).collect();
            let mut r = nt.clone();
            for alt in r.alts.iter_mut() {
                for x in alt.syms.iter_mut() {
                    x.2 = subst(&x.2, &m);
                }
            }
            return Some((r, m));
        }
        None
    }
    fn is_nt(&self, s: &Sym) -> bool {
        matches!(s, Sym::Name(n, _) if self.nts.contains_key(n))
    }
    /// terminal: (variant, payload types, quoted text)
    fn term(&self, s: &Sym) -> Option<(String, Vec<String>)> {
        match s {
            Sym::Lit(l) => self.lit.get(l).map(|v| (v.clone(), vec![])),
            Sym::Name(n, _) => self.terms.get(n).cloned(),
            _ => None,
        }
    }
    fn type_of(&self, s: &Sym) -> Option<String> {
        if let Some((_, pay)) = self.term(s) {
            return Some(match pay.len() {
                0 => "Token".into(),
                1 => pay[0].clone(),
                _ => format!("({})", pay.join(", ")),
            });
        }
        let (nt, m) = self.inst(s)?;
        match nt.ty {
            Some(t) => {
                let mut t = t;
                for (k, v) in &m {
                    if let Some(vt) = self.type_of(v) {
                        // the parameter's name as a type stands for the type of the argument
                        let ts: TokenStream = t.parse().ok()?;
                        t = replace_ident(ts, k, &vt).to_string().replace(' ', "");
                    }
                }
                Some(t)
            }
            None => {
                let a = nt.alts.first()?;
                let vals: Vec<&Sym> = a.syms.iter().map(|x| &x.2).filter(|x| !matches!(x, Sym::L | Sym::R)).collect();
                if vals.len() == 1 && a.action.is_none() { self.type_of(vals[0]) } else { None }
            }
        }
    }
}
fn replace_ident(ts: TokenStream, id: &str, with: &str) -> TokenStream {
    ts.into_iter()
        .flat_map(|t| -> Vec<TokenTree> {
            match t {
                TokenTree::Ident(i) if i == id => with.parse::<TokenStream>().unwrap().into_iter().collect(),
                TokenTree::Group(g) => vec![TokenTree::Group(proc_macro2::Group::new(g.delimiter(), replace_ident(g.stream(), id, with)))],
                t => vec![t],
            }
        })
        .collect()
}
/// the variant an action builds, or the capture it passes on
enum Tail {
    Variant(String),
    Var(String),
    Unknown,
}
fn tail(a: &TokenStream) -> Tail {
    fn of(e: &syn::Expr) -> Tail {
        match e {
            syn::Expr::Block(b) => match b.block.stmts.last() {
                Some(syn::Stmt::Expr(e, None)) => of(e),
                _ => Tail::Unknown,
            },
            syn::Expr::Paren(p) => of(&p.expr),
            syn::Expr::Call(c) => match &*c.func {
                syn::Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "Node" => Tail::Variant(p.path.segments[1].ident.to_string()),
                _ => Tail::Unknown,
            },
            syn::Expr::Path(p) if p.path.segments.len() == 1 => Tail::Var(p.path.segments[0].ident.to_string()),
            _ => Tail::Unknown,
        }
    }
    match syn::parse2::<syn::Expr>(a.clone()) {
        Ok(e) => of(&e),
        _ => Tail::Unknown,
    }
}

pub fn emit(src: &str, pre: &str, gap: bool, trivia: bool) -> Result<Out, String> {
    let g = parse(src)?;
    // reachable instances
    let mut order: Vec<Sym> = vec![];
    let mut seen = BTreeSet::new();
    let mut todo: Vec<Sym> = g.nts.iter().filter(|(_, n)| n.public).map(|(k, _)| Sym::Name(k.clone(), vec![])).collect();
    let start: Vec<String> = todo.iter().map(key).collect();
    while let Some(s) = todo.pop() {
        if !seen.insert(key(&s)) {
            continue;
        }
        order.push(s.clone());
        let (nt, _) = g.inst(&s).ok_or_else(|| format!("unknown symbol {}", key(&s)))?;
        for a in &nt.alts {
            for (_, _, x) in &a.syms {
                let x = if let Sym::Opt(y) = x { y } else { x };
                if g.is_nt(x) {
                    todo.push(x.clone());
                }
            }
        }
    }
    order.sort_by_key(|s| key(s));
    // which variants each nonterminal yields: least fixpoint; None = any
    let mut kinds: BTreeMap<String, Option<BTreeSet<String>>> = order.iter().map(|s| (key(s), Some(BTreeSet::new()))).collect();
    loop {
        let mut changed = false;
        for s in &order {
            let (nt, _) = g.inst(s).unwrap();
            for a in &nt.alts {
                let vals: Vec<&(Option<String>, bool, Sym)> = a.syms.iter().filter(|x| !matches!(x.2, Sym::L | Sym::R)).collect();
                let add: Option<BTreeSet<String>> = {
                    let of_sym = |y: &Sym| -> Option<BTreeSet<String>> {
                        if let Some((v, _)) = g.term(y) { Some([v].into_iter().collect()) } else { kinds.get(&key(y)).cloned().flatten() }
                    };
                    match &a.action {
                        None if vals.len() == 1 => of_sym(&vals[0].2),
                        None => None,
                        Some(t) => match tail(t) {
                            Tail::Variant(v) => Some([v].into_iter().collect()),
                            Tail::Var(n) => match vals.iter().find(|x| x.0.as_deref() == Some(&n)) {
                                Some(x) => of_sym(&x.2),
                                None => None,
                            },
                            Tail::Unknown => None,
                        },
                    }
                };
                let k = kinds.get_mut(&key(s)).unwrap();
                let new = match (k.clone(), add) {
                    (Some(mut a), Some(b)) => { a.extend(b); Some(a) }
                    _ => None,
                };
                if new != *k { *k = new; changed = true; }
            }
        }
        if !changed { break; }
    }
    // which variants the items of a list are: the same, over the lists
    let mut items: BTreeMap<String, Option<BTreeSet<String>>> = order.iter().map(|s| (key(s), Some(BTreeSet::new()))).collect();
    loop {
        let mut changed = false;
        for s in &order {
            if !g.type_of(s).unwrap_or_default().starts_with("Vec<(Loc,Node") { continue; }
            let (nt, _) = g.inst(s).unwrap();
            for a in &nt.alts {
                for (_, _, y) in &a.syms {
                    let y = if let Sym::Opt(z) = y { &**z } else { y };
                    if matches!(y, Sym::L | Sym::R) { continue; }
                    let t = g.type_of(y).unwrap_or_default();
                    let add = if t == "Node" { kinds.get(&key(y)).cloned().flatten() } else if t.starts_with("Vec<(Loc,Node") { items.get(&key(y)).cloned().flatten() } else { continue };
                    let k = items.get_mut(&key(s)).unwrap();
                    let new = match (k.clone(), add) {
                        (Some(mut a), Some(b)) => { a.extend(b); Some(a) }
                        _ => None,
                    };
                    if new != *k { *k = new; changed = true; }
                }
            }
        }
        if !changed { break; }
    }
    let mut out = Out { specs: String::new(), lemmas: vec![], prods: vec![] };
    // one lemma per quoted terminal: the token the lexer calls so has this text
    for l in g.lit.keys().collect::<BTreeSet<_>>() {
        let v = &g.lit[l];
        let n = l.chars().count();
        let line = src.lines().position(|x| x.trim_start().starts_with(&format!("{:?}", l)) && x.contains("Token::")).map(|x| x + 1).unwrap_or(0);
        out.lemmas.push((
            format!("terminal {:?}", l),
            line,
            format!("pub proof fn term_{v}(s: Seq<char>, l: int, e: int) requires tok(s, l, Token::{v}, e), 0 <= l < e <= s.len() ensures tok_at(s, l, {l:?}@), e == l + {n}, {l:?}@.len() == {n}\n{{ reveal_strlit({l:?}); assert(s.subrange(l, e) =~= {l:?}@); }}\n"),
        ));
    }
    for s in &order {
        let m = g.mangle(s);
        let ty = g.type_of(s).unwrap_or_default();
        let ks = |v: &str| -> String {
            match &kinds[&key(s)] {
                Some(k) if !k.is_empty() => format!(" && ({})", k.iter().map(|x| format!("{} is {}", v, x)).collect::<Vec<_>>().join(" || ")),
                _ => String::new(),
            }
        };
        let body = match ty.as_str() {
            "Node" if start.contains(&key(s)) => format!("wf(n, s){}", ks("n")),
            "Node" => format!("sp(n) == (a, b) && wf(n, s){}", ks("n")),
            "Vec<(Loc,Node)>" => format!(
                "n@.len() > 0 && wf_list(n, s, n@.len() as int, a) && lend(n@, n@.len() as int, a) == b && sp(n@[0].1).0 == a{}",
                match &items[&key(s)] {
                    Some(k) if !k.is_empty() && k.len() <= 2 => format!(" && (forall|i: int| 0 <= i < n@.len() ==> ({}))", k.iter().map(|x| format!("(#[trigger] n@[i]).1 is {}", x)).collect::<Vec<_>>().join(" || ")),
                    _ => String::new(),
                }
            ),
            "Vec<(Loc,Node,Loc,String)>" => {
                let mut k = "fields";
                if let Sym::Name(_, args) = s {
                    for x in args {
                        if let Sym::Lit(l) = x {
                            if l == "," { k = "comma" }
                            if l == "." { k = "dot" }
                        }
                    }
                }
                format!("wf_seps(n, s, SepKind::{}, a) && send(n@, n@.len() as int, a) == b && sp(n@[0].1).0 == a", k)
            }
            "Token" => format!("tok(s, a, n, b){}", ks("n")),
            t => return Err(format!("{}: type {:?} is outside the subset", key(s), t)),
        };
        let vt = if ty.is_empty() { "Node" } else { &ty };
        out.specs.push_str(&format!("pub open spec fn nt_{}(n: {}, s: Seq<char>, a: int, b: int) -> bool {{ {} }}\n", m, vt, body));
    }
    for s in &order {
        let m = g.mangle(s);
        let (nt, _) = g.inst(s).unwrap();
        let ret = g.type_of(s).unwrap_or_default();
        for (ai, a) in nt.alts.iter().enumerate() {
            // `x?` gives two productions
            let nopt = a.syms.iter().filter(|x| matches!(x.2, Sym::Opt(_))).count();
            for mask in 0..(1usize << nopt) {
                let label = format!("{}/{}{}", key(s), ai + 1, if nopt > 0 { format!(".{}", mask) } else { String::new() });
                let r = prod(&g, &m, ai, mask, nopt, a, &ret, start.contains(&key(s)), gap, trivia, pre);
                out.prods.push(match r {
                    Ok(mut p) => { p.label = label; Ok(p) }
                    Err(e) => Err((label, a.line, e)),
                });
            }
        }
    }
    Ok(out)
}

fn prod(g: &G, m: &str, ai: usize, mask: usize, nopt: usize, a: &Alt, ret: &str, start: bool, gap: bool, trivia: bool, pre0: &str) -> Result<Prod, String> {
    let mut params: Vec<(String, String)> = vec![];
    let mut req: Vec<String> = vec![];
    let mut pre = String::new();
    // symbols with a place: index in p__; None = @L/@R or a left-out option
    let mut n = 0usize;
    let mut oi = 0usize;
    let mut place: Vec<Option<usize>> = vec![];
    let mut sy: Vec<(Option<String>, Sym, Option<bool>)> = vec![];
    for (name, _, s) in &a.syms {
        match s {
            Sym::Opt(x) => {
                let on = mask >> oi & 1 == 1;
                oi += 1;
                sy.push((name.clone(), (**x).clone(), Some(on)));
                place.push(if on { n += 1; Some(n - 1) } else { None });
            }
            Sym::L | Sym::R => {
                sy.push((name.clone(), s.clone(), None));
                place.push(None);
            }
            _ => {
                sy.push((name.clone(), s.clone(), None));
                n += 1;
                place.push(Some(n - 1));
            }
        }
    }
    let _ = nopt;
    if n == 0 {
        return Err("a production without symbols is outside the subset".into());
    }
    let named = sy.iter().any(|x| x.0.is_some());
    let mut last: Option<usize> = None;
    let mut prev_end = "0".to_string();
    req.push(format!("p__@.len() == {}", n));
    req.push("src__@.len() <= usize::MAX".to_string());
    let values = sy.iter().filter(|x| !matches!(x.1, Sym::L | Sym::R)).count();
    let mut body_val = None;
    for (i, (name, s, opt)) in sy.iter().enumerate() {
        match s {
            Sym::L | Sym::R => {
                // @L: where the next symbol starts; @R: where the last one ended; with no symbol on that side, the other one's place
                let next = place[i..].iter().flatten().next();
                let e = match (s, last, next) {
                    (Sym::L, _, Some(k)) => format!("p__@[{}].0", k),
                    (Sym::L, Some(k), None) | (Sym::R, Some(k), _) => format!("p__@[{}].1", k),
                    (Sym::R, None, Some(k)) => format!("p__@[{}].0", k),
                    _ => return Err("no place".into()),
                };
                if let Some(nm) = name {
                    params.push((nm.clone(), "usize".into()));
                    req.push(format!("{} == {}", nm, e));
                }
            }
            _ => {
                let id = name.clone().unwrap_or_else(|| format!("x{}__", i));
                let k = place[i];
                let take = name.is_some() || (a.action.is_none() && values == 1) || g.is_nt(s);
                if let Some(k) = k {
                    let eof = matches!(s, Sym::Name(n, _) if n == "EOF");
                    req.push(format!("{} <= p__@[{}].0", prev_end, k));
                    if gap && (k > 0 || start) { req.push(format!("gap(src__@, {}, p__@[{}].0)", prev_end, k)); }
                    if trivia && (k > 0 || start) { req.push(format!("{}(src__@, {} as int, p__@[{}].0)", if eof { "gape" } else { "gap" }, prev_end, k)); }
                    if eof { req.push(format!("p__@[{k}].0 == p__@[{k}].1 == src__@.len()")); } else { req.push(format!("p__@[{k}].0 < p__@[{k}].1 <= src__@.len()")); }
                    prev_end = format!("p__@[{}].1", k);
                    last = Some(k);
                    let v = if opt.is_some() { format!("{}->Some_0", id) } else { id.clone() };
                    if opt.is_some() { req.push(format!("{} is Some", id)); }
                    if g.is_nt(s) {
                        req.push(format!("nt_{}({}, src__@, p__@[{}].0, p__@[{}].1)", g.mangle(s), v, k, k));
                    } else if !eof {
                        let (var, pay) = g.term(s).ok_or_else(|| format!("unknown symbol {}", key(s)))?;
                        let t = match pay.len() {
                            0 => format!("Token::{}", var),
                            1 => format!("Token::{}({})", var, v),
                            _ => format!("Token::{}({})", var, (0..pay.len()).map(|j| format!("{}.{}", v, j)).collect::<Vec<_>>().join(", ")),
                        };
                        if !take && !pay.is_empty() { return Err(format!("the text of {} is dropped", key(s))); }
                        if take && pay.is_empty() { req.push(format!("{} == {}", v, t)); }
                        req.push(format!("tok(src__@, p__@[{}].0, {}, p__@[{}].1)", k, t, k));
                        if let Sym::Lit(_) = s {
                            pre.push_str(&format!("    proof {{ term_{}(src__@, p__@[{}].0, p__@[{}].1); }}\n", var, k, k));
                        }
                    }
                } else {
                    req.push(format!("{} is None", id));
                }
                if take || opt.is_some() {
                    let t = g.type_of(s).ok_or_else(|| format!("type of {}", key(s)))?;
                    params.push((id.clone(), if opt.is_some() { format!("Option<{}>", t) } else { t }));
                }
                if a.action.is_none() {
                    if values != 1 { return Err("a production without an action is outside the subset unless it has one symbol".into()); }
                    body_val = Some(id);
                }
            }
        }
    }
    let _ = named;
    if let Some(t) = &a.action {
        // what each variant the action builds has to record
        let mut vs = BTreeSet::new();
        variants(t, &mut vs);
        for v in vs.iter().filter(|_| !gap) {
            pre.push_str(&format!("    broadcast use w_{};\n", v));
        }
    }
    let body = match &a.action {
        Some(t) => t.to_string(),
        None => body_val.unwrap(),
    };
    let fname = format!("prod_{}_{}{}", m, ai + 1, if nopt > 0 { format!("_{}", mask) } else { String::new() });
    let ps: Vec<String> = params.iter().map(|(n, t)| format!("{}: {}", n, t)).collect();
    let source = format!("fn {}({}{}src__: Ghost<Seq<char>>, p__: Ghost<Seq<(int, int)>>) -> {} {{ {} }}", fname, ps.join(", "), if ps.is_empty() { "" } else { ", " }, ret, body);
    let contract = format!("    requires {},\n    ensures nt_{}(r, src__@, p__@[0].0, p__@[{}].1),\n", req.join(", "), m, n - 1);
    Ok(Prod { name: fname, label: String::new(), line: a.line, source, contract, pre: format!("{}{}", pre0, pre) })
}

fn variants(ts: &TokenStream, out: &mut BTreeSet<String>) {
    let t: Vec<TokenTree> = ts.clone().into_iter().collect();
    for i in 0..t.len() {
        if let TokenTree::Group(g) = &t[i] { variants(&g.stream(), out); }
        if let (TokenTree::Ident(n), Some(TokenTree::Ident(v))) = (&t[i], t.get(i + 3)) {
            if n == "Node" { out.insert(v.to_string()); }
        }
    }
}
