//! Per-property oracles on the real code (public API only).
use crate::gen::*;
use crate::lex::*;
use crate::opts;
use crate::rng::Rng;
use luafmt::config::*;
use luafmt::formatter::process_buffer_with_config;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Case {
    pub src: String,
    pub opts: Vec<(String, String)>,
    pub stats: Vec<(usize, usize)>,
}

pub enum Run {
    Out(String),
    Err(String),
    Panic(String),
}

pub fn cfg_of(opts: &[(String, String)]) -> Config {
    let mut c = Config::default();
    for (k, v) in opts {
        opts::ref_set(&mut c, k, v);
    }
    c
}

pub fn run(src: &str, cfg: &Config) -> Run {
    let s = src.to_string();
    match catch_unwind(AssertUnwindSafe(|| process_buffer_with_config(&s, cfg, false))) {
        Ok(Ok(o)) => Run::Out(o),
        Ok(Err(e)) => Run::Err(format!("{}", e)),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            Run::Panic(m)
        }
    }
}

fn get<'a>(c: &'a Case, k: &str) -> Option<&'a str> {
    c.opts.iter().rev().find(|(a, _)| a == k).map(|(_, b)| b.as_str())
}
pub fn on(c: &Case, k: &str) -> bool {
    get(c, k) == Some("true")
}

pub fn rand_opts(r: &mut Rng, strip: bool, density: usize) -> Vec<(String, String)> {
    let mut v = Vec::new();
    for (n, t) in opts::names() {
        if !r.chance(density, 10) {
            continue;
        }
        let is_strip = matches!(n, "remove_comments" | "remove_single_newlines" | "remove_all_newlines" | "remove_spaces_between_tokens");
        if is_strip && !strip {
            continue;
        }
        let val = match t {
            "bool" => if r.chance(3, 4) { "true" } else { "false" }.to_string(),
            "usize" => {
                if n == "max_width" {
                    r.pick(&["1", "8", "15", "30", "60", "100", "1000"]).to_string()
                } else if n == "newline_format_binary_op" {
                    r.pick(&["1", "2", "2", "0"]).to_string()
                } else {
                    r.pick(&["1", "1", "1", "1", "0", "2"]).to_string()
                }
            }
            _ => match n {
                "field_separator" => r.pick(&[",", ";"]).to_string(),
                "indentation_string" => r.pick(&["  ", "    ", "\t"]).to_string(),
                _ => r.pick(&[" ", " ", "  "]).to_string(),
            },
        };
        v.push((n.to_string(), val));
    }
    let stripping = v.iter().any(|(k, x)| k.starts_with("remove_") && x == "true");
    if stripping {
        v.retain(|(k, _)| k != "replace_zero_spaces_with_hint");
        v.push(("replace_zero_spaces_with_hint".into(), "true".into()));
    }
    v
}

pub fn gen_opts() -> GenOpts {
    GenOpts {
        comments: true,
        unicode: true,
        newlines: true,
        paren_stat: true,
        backslash_long: true,
        neg_comment: true,
        eof_comment: true,
        small: false,
        markers: false,
    }
}

/// comment text after the configured hints, as the documentation describes it
fn comment_norm(c: &Case, n: &Norm) -> Norm {
    match n {
        Norm::C1(s) => {
            let body = &s[2..];
            if get(c, "hint_before_oneline_comment_text").is_some() {
                Norm::C1(body.trim_start().to_string())
            } else {
                Norm::C1(body.to_string())
            }
        }
        Norm::CL(s) => {
            let open = s[3..].find('[').unwrap() + 4;
            let body = &s[open..s.len() - (open - 2)];
            let mut b = body;
            if get(c, "hint_before_multiline_comment_text").is_some() {
                b = b.trim_start();
            }
            if get(c, "hint_after_multiline_comment_text").is_some() {
                b = b.trim_end();
            }
            Norm::CL(format!("{}|{}", open - 4, b))
        }
        x => x.clone(),
    }
}

fn compare(c: &Case, out: &str, comments: bool) -> Option<String> {
    let a = match lex(&c.src) {
        Ok(a) => a,
        Err(_) => return None,
    };
    let b = match lex(out) {
        Ok(b) => b,
        Err(e) => return Some(format!("output does not lex: {}", e)),
    };
    let conv = on(c, "convert_charstring_to_normalstring");
    let sep = get(c, "field_separator").is_some();
    let trail = get(c, "write_trailing_field_separator").is_some() || on(c, "force_single_line_table");
    let com = comments && !on(c, "remove_comments");
    let mut x = normalise(&a, conv, sep, trail, com);
    let mut y = normalise(&b, conv, sep, trail, com);
    if comments {
        x = x.iter().map(|n| comment_norm(c, n)).collect();
        y = y.iter().map(|n| comment_norm(c, n)).collect();
        if on(c, "remove_comments") && get(c, "line_range").is_none() && b.iter().any(|t| t.kind == Kind::OneLine || t.kind == Kind::Long) {
            return Some("remove_comments left a comment".into());
        }
    }
    if x != y {
        let k = x.iter().zip(y.iter()).take_while(|(p, q)| p == q).count();
        return Some(format!(
            "sequences differ at element {}: source has {:?}, output has {:?}",
            k,
            x.get(k),
            y.get(k)
        ));
    }
    None
}

pub fn gen_case(prop: &str, r: &mut Rng) -> Case {
    let mut o = gen_opts();
    let mut opts = Vec::new();
    o.small = r.chance(1, 3);
    match prop {
        "C04" => {
            o.backslash_long = true;
        }
        "C16" => {
            o.backslash_long = true;
            if r.chance(1, 6) {
                let mut src = String::new();
                for _ in 0..r.below(9) {
                    src.push_str(&trivia(r, &o, "", ""));
                }
                return Case { src, opts, stats: vec![] };
            }
        }
        "C03" => {
            opts = rand_opts(r, true, 4);
            if r.chance(1, 2) {
                for k in ["remove_spaces_between_tokens", "replace_zero_spaces_with_hint"] {
                    opts.retain(|(a, _)| a != k);
                    opts.push((k.into(), "true".into()));
                }
            }
        }
        _ => {
            let d = *r.pick(&[1, 3, 5]);
            let strip = matches!(prop, "C01" | "C02" | "C05" | "C15" | "C09") && r.chance(1, 3);
            opts = rand_opts(r, strip, d);
            if prop == "C02" && strip && r.chance(3, 4) {
                opts.retain(|(k, _)| k != "remove_comments");
            }
            if prop == "C09" {
                opts.retain(|(k, _)| k != "convert_charstring_to_normalstring");
                if r.chance(4, 5) {
                    opts.push(("convert_charstring_to_normalstring".into(), "true".into()));
                }
            }
        }
    }
    if prop == "C02" && r.chance(1, 4) {
        opts.push(("remove_comments".into(), "true".into()));
        opts.retain(|(k, _)| k != "replace_zero_spaces_with_hint");
        opts.push(("replace_zero_spaces_with_hint".into(), "true".into()));
    }
    if prop == "C14" {
        o.markers = true;
        opts.retain(|(k, _)| !C14_BREAKS.contains(&k.as_str()) && k != "indentation_string");
        for k in C14_BREAKS {
            opts.push((k.to_string(), "1".into()));
        }
        opts.push(("indentation_string".into(), r.pick(&["  ", "\t", "    ", " "]).to_string()));
    }
    if prop == "C13" {
        o.comments = r.chance(1, 3);
        o.small = r.chance(2, 3);
        let d = r.below(3);
        opts = rand_opts(r, false, d);
        for (k, on) in C13_PAIRS {
            opts.retain(|(a, _)| a != k && a != on && a != "max_width" && a != "line_range");
            opts.push((k.to_string(), "1".into()));
            if r.chance(4, 5) {
                opts.push((on.to_string(), "true".into()));
            }
        }
        if r.chance(7, 8) {
            opts.push(("max_width".into(), format!("{}", 4 + r.below(60))));
        }
    }
    let p = program(r, &o);
    let lines = p.src.matches('\n').count() + 1;
    if prop == "C05" || ((prop == "C01" || prop == "C15") && r.chance(1, 5)) {
        let a = 1 + r.below(lines);
        let b = a + r.below(3);
        opts.push(("line_range".into(), format!("{}:{}", a, b)));
    }
    Case { src: p.src, opts, stats: p.stats }
}

/// configurations the properties quantify over (see properties.jsonl)
fn in_domain(c: &Case) -> bool {
    let strip = ["remove_comments", "remove_single_newlines", "remove_all_newlines", "remove_spaces_between_tokens"]
        .iter()
        .any(|k| on(c, k));
    !strip || on(c, "replace_zero_spaces_with_hint")
}

pub fn check(prop: &str, c: &Case) -> Option<String> {
    if prop != "C15" && !in_domain(c) {
        return None;
    }
    if prop == "C16" {
        return tree(&c.src);
    }
    let cfg = cfg_of(&c.opts);
    let out = match run(&c.src, &cfg) {
        Run::Out(o) => o,
        Run::Err(e) => {
            if std::env::var("SHOW_ERR").is_ok() {
                eprintln!("rejected: {} :: {:?}", e.lines().next().unwrap_or(""), c.src);
            }
            return None;
        }
        Run::Panic(m) => {
            return if prop == "C15" { Some(format!("panic: {}", m)) } else { None };
        }
    };
    match prop {
        "C01" | "C03" => compare(c, &out, false),
        "C09" => strings(c, &out),
        "C02" => compare(c, &out, true),
        "C04" => {
            let toks = lex(&c.src).ok()?;
            let mut want = c.src.clone();
            if toks.last().map_or(false, |t| t.kind == Kind::OneLine && t.end == c.src.chars().count()) {
                want.push('\n');
            }
            // the closing bracket of an empty table with a newline in it is put on its own line
            if squeeze_empty_tables(&out) != squeeze_empty_tables(&want) {
                let k = out.chars().zip(want.chars()).take_while(|(a, b)| a == b).count();
                return Some(format!("output differs from the source at char {}", k));
            }
            None
        }
        "C05" => range_check(c, &out),
        "C13" => collapsed(c, &out),
        "C14" => levels(c, &out).or_else(|| separate(c)),
        "C15" => None,
        _ => None,
    }
}

fn squeeze_empty_tables(s: &str) -> String {
    let toks = match lex(s) {
        Ok(t) => t,
        Err(_) => return s.to_string(),
    };
    let c: Vec<char> = s.chars().collect();
    let code: Vec<usize> =
        (0..toks.len()).filter(|i| toks[*i].kind != Kind::OneLine && toks[*i].kind != Kind::Long).collect();
    let mut skip = vec![false; c.len()];
    for w in code.windows(2) {
        let (a, b) = (&toks[w[0]], &toks[w[1]]);
        if a.text == "{" && b.text == "}" && c[a.end..b.start].contains(&'\n') {
            let mut k = b.start;
            while k > a.end && matches!(c[k - 1], ' ' | '\t' | '\n') {
                k -= 1;
                skip[k] = true;
            }
        }
    }
    c.iter().zip(skip).filter(|(_, s)| !*s).map(|(c, _)| *c).collect()
}

fn range_check(c: &Case, out: &str) -> Option<String> {
    let lr = get(c, "line_range")?;
    let (a, b) = lr.split_once(':')?;
    let (l, r): (usize, usize) = (a.parse().ok()?, b.parse().ok()?);
    let src: Vec<char> = c.src.chars().collect();
    let mut nl = vec![0usize];
    nl.extend(src.iter().enumerate().filter(|(_, ch)| **ch == '\n').map(|(i, _)| i));
    nl.push(src.len());
    let left = if l > 0 && l <= r && l < nl.len() { l } else { 1 };
    let right = if r > 0 && l <= r && r < nl.len() { r } else { nl.len() - 1 };
    let (mut pl, mut pr) = (nl[left - 1], nl[right]);
    // whole top-level statements
    for &(s, e) in &c.stats {
        if pr > s && pl < e {
            pl = pl.min(s);
            pr = pr.max(e);
        }
    }
    // gaps that intersect the selection belong to it
    let mut gaps = Vec::new();
    let mut p = 0;
    for &(s, e) in &c.stats {
        gaps.push((p, s));
        p = e;
    }
    gaps.push((p, src.len()));
    let (mut gl, mut gr) = (pl, pr);
    for &(s, e) in &gaps {
        if pr > s && pl < e {
            gl = gl.min(s);
            gr = gr.max(e);
        }
    }
    // the newline written at the end of the file is the one exception
    let eof = on(c, "write_newline_at_eof");
    let one_line_at_eof = lex(&c.src).ok()?.last().map_or(false, |t| t.kind == Kind::OneLine && t.end == src.len());
    let cut = |s: &[char]| -> Vec<char> {
        let mut v = s.to_vec();
        if eof {
            while v.last().map_or(false, |c| matches!(c, ' ' | '\t' | '\n' | '\r')) {
                v.pop();
            }
        } else if one_line_at_eof && v.last() == Some(&'\n') {
            v.pop();
        }
        v
    };
    let o: Vec<char> = out.chars().collect();
    let src2 = cut(&src);
    let o = if eof || one_line_at_eof { cut(&o) } else { o };
    let pre = &src2[..gl.min(src2.len())];
    let post = &src2[gr.min(src2.len())..];
    if o.len() < pre.len() + post.len() || &o[..pre.len()] != pre {
        return Some(format!("text before the selection changed (selection {}..{}, line_range {})", gl, gr, lr));
    }
    if &o[o.len() - post.len()..] != post {
        return Some(format!("text after the selection changed (selection {}..{}, line_range {})", gl, gr, lr));
    }
    None
}

/// every '…' string converted with its value kept (if requested), every other string as it was
fn strings(c: &Case, out: &str) -> Option<String> {
    let pick = |s: &str| -> Option<Vec<Tok>> { Some(lex(s).ok()?.into_iter().filter(|t| t.kind == Kind::Str || t.kind == Kind::LongStr).collect()) };
    let a = pick(&c.src)?;
    let b = match pick(out) {
        Some(b) => b,
        None => return Some("output does not lex".into()),
    };
    if a.len() != b.len() {
        return Some(format!("{} strings in the source, {} in the output", a.len(), b.len()));
    }
    let conv = on(c, "convert_charstring_to_normalstring");
    for (x, y) in a.iter().zip(&b) {
        let ok = if conv && x.text.starts_with('\'') { y.text.starts_with('"') && str_value(&x.text) == str_value(&y.text) } else { x.text == y.text };
        if !ok {
            return Some(format!("string {} became {}", x.text, y.text));
        }
    }
    None
}

/// the options that put every statement of every block on a line of its own
const C14_BREAKS: &[&str] = &[
    "newline_format_statement",
    "newline_format_do_end",
    "newline_format_for",
    "newline_format_function",
    "newline_format_if",
    "newline_format_repeat_until",
    "newline_format_while",
];

const C13_PAIRS: [(&str, &str); 4] = [
    ("newline_format_if", "force_single_line_if"),
    ("newline_format_function", "force_single_line_top_level_function"),
    ("newline_format_function", "force_single_line_scoped_function"),
    ("newline_format_table_constructor", "force_single_line_table"),
];

/// An `if`, a function body or a table that stands on one line although it is to be broken ends within the width.
fn collapsed(c: &Case, out: &str) -> Option<String> {
    if C13_PAIRS.iter().any(|(k, _)| get(c, k) != Some("1")) || get(c, "line_range").is_some() {
        return None;
    }
    let width: Option<usize> = get(c, "max_width").map(|x| x.parse().unwrap());
    let ch: Vec<char> = out.chars().collect();
    let toks = lex(out).ok()?;
    let code: Vec<&Tok> = toks.iter().filter(|t| t.kind != Kind::OneLine && t.kind != Kind::Long && t.kind != Kind::SheBang).collect();
    // kind, index of the first token, named fields of a table
    let mut stack: Vec<(&str, usize, usize)> = Vec::new();
    for (k, t) in code.iter().enumerate() {
        let x = if matches!(t.kind, Kind::Name | Kind::Op) { t.text.as_str() } else { "" };
        match x {
            "if" => stack.push(("if", k, 0)),
            "do" => stack.push(("do", k, 0)),
            "repeat" => stack.push(("repeat", k, 0)),
            "{" => stack.push(("table", k, 0)),
            "function" => {
                let b = (k..code.len()).find(|i| code[*i].text == "(")?;
                stack.push(("function", b, 0));
            }
            // a named field
            "=" => {
                if let Some(s) = stack.last_mut() {
                    s.2 += 1;
                }
            }
            "end" | "until" | "}" => {
                let (kind, a, named) = stack.pop()?;
                if kind == "do" || kind == "repeat" || kind == "table" && named == 0 {
                    continue;
                }
                if ch[code[a].start..t.end].contains(&'\n') {
                    continue;
                }
                let col = ch[..t.end].iter().rev().take_while(|x| **x != '\n').count();
                let allowed = match kind {
                    "if" => on(c, C13_PAIRS[0].1),
                    "table" => on(c, C13_PAIRS[3].1),
                    _ => on(c, C13_PAIRS[1].1) || on(c, C13_PAIRS[2].1),
                };
                if !allowed {
                    return Some(format!("the {} that ends at char {} is on one line, though no option asks for it", kind, t.end));
                }
                match width {
                    None => return Some(format!("the {} that ends at char {} is on one line, though there is no maximal width", kind, t.end)),
                    Some(w) if col > w => return Some(format!("the {} that ends at char {} is on one line and ends in column {}, the maximal width is {}", kind, t.end, col, w)),
                    _ => {}
                }
            }
            _ => {}
        }
    }
    None
}

/// The calls that mark blocks (see gen.rs) stand one level deeper than the block around them, and what closes a block
/// stands one level higher than its statements, wherever they begin a line.
fn levels(c: &Case, out: &str) -> Option<String> {
    let ind = get(c, "indentation_string")?;
    if C14_BREAKS.iter().any(|k| get(c, k) != Some("1")) || ind.is_empty() || get(c, "line_range").is_some() {
        return None;
    }
    let ch: Vec<char> = out.chars().collect();
    let toks = lex(out).ok()?;
    let code: Vec<&Tok> = toks.iter().filter(|t| t.kind != Kind::OneLine && t.kind != Kind::Long).collect();
    // white space before a token that begins a line
    let lead = |t: &Tok| -> Option<String> {
        let mut i = t.start;
        while i > 0 && (ch[i - 1] == ' ' || ch[i - 1] == '\t') {
            i -= 1;
        }
        if i > 0 && ch[i - 1] == '\n' { Some(ch[i..t.start].iter().collect()) } else { None }
    };
    let level = |t: &Tok| -> Option<Result<i64, String>> {
        let w = lead(t)?;
        let n = w.len() / ind.len();
        Some(if ind.repeat(n) == w { Ok(n as i64) } else { Err(w) })
    };
    // per open block: id, kind, level if known, exact
    let mut stack: Vec<(String, String, Option<i64>)> = vec![("0".into(), "t".into(), Some(0))];
    for (k, t) in code.iter().enumerate() {
        if !t.text.starts_with("mk_") {
            continue;
        }
        let f: Vec<&str> = t.text.split('_').collect();
        let l = match level(t) {
            Some(Err(w)) => return Some(format!("{} is indented by {:?}, which is not a multiple of {:?}", t.text, w, ind)),
            Some(Ok(l)) => Some(l),
            None => None,
        };
        if f[2] == "t" {
            if l.map_or(false, |l| l != 0) {
                return Some(format!("{} of the top level is indented by {} levels", t.text, l.unwrap()));
            }
            if stack.len() != 1 {
                return None;
            }
            continue;
        }
        if f[3] == "s" {
            let outer = stack.last().unwrap().2;
            if let (Some(l), Some(o)) = (l, outer) {
                if f[2] == "p" && l != o + 1 || l < o + 1 {
                    return Some(format!("{} has level {}, the block around it {}", t.text, l, o));
                }
            }
            stack.push((f[1].into(), f[2].into(), l));
        } else {
            let top = stack.pop()?;
            if top.0 != f[1] {
                return None;
            }
            if let (Some(a), Some(b)) = (top.2, l) {
                if a != b {
                    return Some(format!("the first statement of block {} has level {}, the last one {}", f[1], a, b));
                }
            }
            let own = top.2.or(l);
            if let (Some(own), Some(e)) = (own, code.get(k + 3)) {
                if ["end", "else", "elseif", "until", "return"].contains(&e.text.as_str()) {
                    let want = if e.text == "return" { own } else { own - 1 };
                    match level(e) {
                        Some(Err(w)) => return Some(format!("`{}` is indented by {:?}", e.text, w)),
                        Some(Ok(x)) if x != want => {
                            return Some(format!("`{}` after block {} has level {}, its statements {}", e.text, f[1], x, own))
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    None
}

/// What a top-level statement looks like does not depend on the statements before it.
fn separate(c: &Case) -> Option<String> {
    if get(c, "newline_format_statement").is_none() || get(c, "line_range").is_some() {
        return None;
    }
    let opts: Vec<(String, String)> = c.opts.iter().filter(|(k, _)| k != "write_newline_at_eof").cloned().collect();
    let cfg = cfg_of(&opts);
    let ch: Vec<char> = c.src.chars().collect();
    let mut parts = Vec::new();
    for &(a, b) in &c.stats {
        if b > ch.len() {
            return None;
        }
        parts.push(ch[a..b].iter().collect::<String>());
    }
    let whole = match run(&parts.join("\n"), &cfg) {
        Run::Out(o) => o,
        _ => return None,
    };
    let mut alone = Vec::new();
    for p in &parts {
        match run(p, &cfg) {
            Run::Out(o) => alone.push(o),
            _ => return None,
        }
    }
    let alone = alone.join("\n");
    if whole != alone {
        let k = whole.chars().zip(alone.chars()).take_while(|(a, b)| a == b).count();
        return Some(format!("the statements one by one give another text than all together, from character {}: {:?}", k, alone));
    }
    None
}

/// the tree records the text, token by token and gap by gap
fn tree(src: &str) -> Option<String> {
    if let Some(e) = crate::props::comment_tree(src) {
        return Some(e);
    }
    let t = luafmt::verif::parse_lua(src).ok()?;
    let s: Vec<char> = src.chars().collect();
    let mut w = crate::wf::W { s: &s, gaps: vec![] };
    if let Err(e) = w.node(&t) {
        return Some(e);
    }
    // no token lies in a gap
    let (toks, _) = crate::props::spec_lex(&s);
    for (a, t, b) in toks {
        if a < b && w.gaps.iter().any(|g| a < g.1 && g.0 < b) {
            return Some(format!("the token {:?} at {}..{} lies in a gap", t, a, b));
        }
    }
    None
}
