//! Oracles for the properties that are not about one formatted text: C06-C08, C10-C12.
use crate::gen::*;
use crate::lex;
use crate::opts::{names, ref_set};
use crate::oracle::rand_opts;
use crate::rng::Rng;
use luafmt::config::*;
use luafmt::formatter::{process_buffer_with_config, process_file};
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::Command;

pub struct Wit {
    pub msg: String,
    pub case: String,
    pub out: String,
}
fn wit(msg: String, case: String, out: String) -> Option<Wit> {
    Some(Wit { msg, case, out })
}

pub fn special(prop: &str, r: &mut Rng, dir: &Path) -> Option<Wit> {
    match prop {
        "C06" => c06(r),
        "C07" => c07(r),
        "C08" => c08(r, dir),
        "C10" => c10(r, dir),
        "C11" => c11(r, dir),
        "C12" => c12(r, dir),
        _ => None,
    }
}
pub fn is_special(prop: &str) -> bool {
    matches!(prop, "C06" | "C07" | "C08" | "C10" | "C11" | "C12")
}

// ---------------------------------------------------------------- C06
use luafmt::verif::{CommentLexer, CommentToken, Lexer, Token};

fn rand_text(r: &mut Rng, uni: bool) -> String {
    const F: &[&str] = &[
        " ", " ", "\n", "\t", "\r", "a", "_b1", "end", "endx", "0", "12", "1e5", "1e", "1E+", "2.5e-3", "0x", "0xFg", "0xaB", ".5", ".",
        "..", "...", "1.", "3.e2", "\"", "'", "\\", "\\\\", "\\\"", "\\'", "[", "[[", "[=[", "[==[", "]", "]]", "]=]", "]==]", "=", "==",
        "~=", "~", "<", "<<", "<=", ">", ">>", ">=", "/", "//", ":", "::", "-", "--", "--[[", "--[=[", "--[=", "--[", "\n--x\n", "#", "#!",
        "#!sh\n", "(", ")", "{", "}", ",", ";", "+", "*", "%", "^", "&", "|", "и", "é", "`", "@", "$", "!", "?", "'a\"b'", "\"a'b\"",
        "[[x\\]]", "and", "not", "x.y", "E", "e", "p", "]=", "\u{0}", "\u{a0}", "\u{1F600}",
    ];
    let n = 1 + r.below(8);
    let mut s = String::new();
    for _ in 0..n {
        let f = *r.pick(F);
        if !uni && !f.is_ascii() {
            continue;
        }
        s.push_str(f);
    }
    s
}

/// the lexical grammar of contracts/lex_util.rs and c06_lua.rs, executed: the tokens, up to the first place where the text is malformed
pub fn spec_lex(c: &[char]) -> (Vec<(usize, Token, usize)>, bool) {
    use Token::*;
    let n = c.len();
    let at = |i: usize| c.get(i).copied();
    let run = |p: usize, f: &dyn Fn(char) -> bool| { let mut q = p; while q < n && f(c[q]) { q += 1; } q };
    let sub = |a: usize, b: usize| c[a..b].iter().collect::<String>();
    let word = |x: char| x.is_ascii_alphanumeric() || x == '_';
    let lopen = |p: usize| -> Option<usize> { if at(p) != Some('[') { return None; } let q = run(p + 1, &|x| x == '='); if at(q) == Some('[') { Some(q - p - 1) } else { None } };
    let lclose = |p: usize, l: usize| -> Option<usize> { (p..n).find(|k| c[*k] == ']' && k + l + 1 < n && c[k + 1..k + 1 + l].iter().all(|x| *x == '=') && c[k + 1 + l] == ']') };
    let num_end = |p: usize| -> Option<usize> {
        let m = run(p, &|x| x.is_ascii_digit() || x == '.');
        if matches!(at(m), Some('e' | 'E')) {
            let k = if matches!(at(m + 1), Some('+' | '-')) { m + 2 } else { m + 1 };
            let e = run(k, &|x| x.is_ascii_digit());
            if e > k { Some(e) } else { None }
        } else { Some(m) }
    };
    const SYM: &[(&str, Token)] = &[
        ("...", VarArg), ("..", OpConcatenation), ("<<", OpLeftShift), ("<=", OpLessOrEqual), (">>", OpRightShift), (">=", OpGreaterOrEqual), ("~=", OpInequality),
        ("==", OpEquality), ("//", OpFloorDivision), ("::", Label), ("^", OpExponentiation), ("#", OpLength), ("*", OpMultiplication), ("/", OpDivision), ("%", OpModulo),
        ("+", OpAddition), ("-", Minus), ("<", OpLessThan), (">", OpGreaterThan), ("&", OpBitwiseAnd), ("~", Tilde), ("|", OpBitwiseOr), ("=", EqualsSign), (";", Semicolon),
        (",", Comma), (":", Colon), (".", Period), ("(", OpenRoundBracket), (")", CloseRoundBracket), ("[", OpenSquareBracket), ("]", CloseSquareBracket),
        ("{", OpenCurlyBracket), ("}", CloseCurlyBracket),
    ];
    let mut v = vec![];
    let mut i = 0;
    while i < n {
        let ch = c[i];
        if matches!(ch, ' ' | '\n' | '\r' | '\t') {
            i += 1;
            continue;
        }
        if ch == '-' && at(i + 1) == Some('-') {
            match lopen(i + 2) {
                Some(l) => match lclose(i + 4 + l, l) { Some(k) => i = k + l + 2, None => return (v, true) },
                None => { let q = run(i, &|x| x != '\n'); i = (q + 1).min(n); }
            }
            continue;
        }
        let (t, e) = if ch == '#' && at(i + 1) == Some('!') {
            let q = run(i, &|x| x != '\n');
            (SheBang(sub(i, q)), (q + 1).min(n))
        } else if ch == '_' || ch.is_ascii_alphabetic() {
            let q = run(i, &word);
            let w = sub(i, q);
            let t = match &w[..] {
                "and" => OpLogicalAnd, "break" => Break, "do" => Do, "else" => Else, "elseif" => ElseIf, "end" => End, "false" => False, "for" => For,
                "function" => Function, "goto" => GoTo, "if" => If, "in" => In, "local" => Local, "nil" => Nil, "not" => OpLogicalNot, "or" => OpLogicalOr,
                "repeat" => Repeat, "return" => Return, "then" => Then, "true" => True, "until" => Until, "while" => While, _ => Variable(w.clone()),
            };
            (t, q)
        } else if ch.is_ascii_digit() || (ch == '.' && at(i + 1).map_or(false, |x| x.is_ascii_digit())) {
            let e = if ch == '0' && at(i + 1) == Some('x') { let e = run(i + 2, &|x| x.is_ascii_hexdigit()); if e > i + 2 { Some(e) } else { None } } else { num_end(i + 1) };
            match e { Some(e) => (Numeral(sub(i, e)), e), None => return (v, true) }
        } else if ch == '"' || ch == '\'' {
            let mut k = i + 1;
            let mut esc = false;
            loop {
                match at(k) {
                    None => return (v, true),
                    Some(x) if x == ch && !esc => break,
                    Some(x) => esc = x == '\\' && !esc,
                }
                k += 1;
            }
            (if ch == '"' { NormalStringLiteral(sub(i + 1, k)) } else { CharStringLiteral(sub(i + 1, k)) }, k + 1)
        } else if let Some(l) = lopen(i) {
            match lclose(i + 2 + l, l) { Some(k) => (MultiLineStringLiteral(l, sub(i + 2 + l, k)), k + l + 2), None => return (v, true) }
        } else if ch == '[' && at(i + 1) == Some('=') {
            return (v, true);
        } else {
            match SYM.iter().find(|(t, _)| t.chars().enumerate().all(|(k, x)| at(i + k) == Some(x))) {
                Some((t, k)) => (k.clone(), i + t.len()),
                None => return (v, true),
            }
        };
        v.push((i, t, e));
        i = e;
    }
    v.push((n, EOF, n));
    (v, false)
}

pub fn c06_check(src: &str) -> Option<Wit> {
    let res = catch_unwind(AssertUnwindSafe(|| Lexer::new(src).take(src.len() + 3).collect::<Vec<_>>()));
    let v = match res {
        Ok(v) => v,
        Err(_) => return wit("the lexer panics".into(), src.into(), String::new()),
    };
    let show = format!("{:?}", v);
    let c: Vec<char> = src.chars().collect();
    if v.len() > src.len() + 2 {
        return wit("the lexer does not stop".into(), src.into(), show);
    }
    let (want, bad) = spec_lex(&c);
    for (k, w) in want.iter().enumerate() {
        match v.get(k) {
            Some(Ok(x)) if x == w => {}
            x => return wit(format!("item {} should be {:?}, the lexer has {:?}", k, w, x), src.into(), show),
        }
    }
    match v.get(want.len()) {
        None if !bad => None,
        Some(Err(_)) if bad => None,
        x => wit(format!("item {} should be {}, the lexer has {:?}", want.len(), if bad { "an error" } else { "absent" }, x), src.into(), show),
    }
}

/// the comment lexer on a gap made of white space and comments
pub fn c06_comments(src: &str) -> Option<Wit> {
    let ts = match lex::lex(src) {
        Ok(t) => t,
        Err(_) => return None,
    };
    if ts.iter().any(|t| t.kind != lex::Kind::OneLine && t.kind != lex::Kind::Long) {
        return None;
    }
    let v: Vec<_> = match catch_unwind(AssertUnwindSafe(|| CommentLexer::new(src).take(src.len() + 3).collect::<Vec<_>>())) {
        Ok(v) => v,
        Err(_) => return wit("the comment lexer panics".into(), src.into(), String::new()),
    };
    let show = format!("{:?}", v);
    let c: Vec<char> = src.chars().collect();
    let mut want = Vec::new();
    let mut p = 0;
    for t in &ts {
        for k in p..t.start {
            if c[k] == '\n' {
                want.push((k, CommentToken::NewLine, k + 1));
            }
        }
        let txt: Vec<char> = t.text.chars().collect();
        p = t.end;
        if t.kind == lex::Kind::OneLine {
            let e = if t.end < c.len() { t.end + 1 } else { t.end };
            want.push((t.start, CommentToken::OneLineComment(txt[2..].iter().collect()), e));
            p = e;
        } else {
            let mut lv = 0;
            while txt[3 + lv] == '=' {
                lv += 1;
            }
            want.push((t.start, CommentToken::MultiLineComment(lv, txt[4 + lv..txt.len() - 2 - lv].iter().collect()), t.end));
        }
    }
    for k in p..c.len() {
        if c[k] == '\n' {
            want.push((k, CommentToken::NewLine, k + 1));
        }
    }
    want.push((c.len(), CommentToken::EOF, c.len()));
    let got: Vec<_> = v.into_iter().map(|x| x.ok()).collect();
    let want: Vec<_> = want.into_iter().map(Some).collect();
    if got != want {
        return wit(format!("comment tokens should be {:?}", want), src.into(), show);
    }
    None
}

/// the comment tree records the text of a gap, comment by comment, line end by line end, and the blanks between them
pub fn comment_tree(src: &str) -> Option<String> {
    use luafmt::verif::{comment_ast::Node, common::Loc};
    let t = luafmt::verif::parse_comment(src).ok()?;
    let s: Vec<char> = src.chars().collect();
    struct W<'a> {
        s: &'a [char],
    }
    impl W<'_> {
        fn gap(&self, p: usize, l: &Loc) -> Result<usize, String> {
            if l.0 != p || l.1 < l.0 || l.1 > self.s.len() {
                return Err(format!("a gap is recorded as {}..{}, it starts at {}", l.0, l.1, p));
            }
            match self.s[l.0..l.1].iter().all(|c| " \t\r".contains(*c)) {
                true => Ok(l.1),
                false => Err(format!("the gap {}..{} holds more than blanks", l.0, l.1)),
            }
        }
        fn text(&self, l: &Loc, t: String) -> Result<(usize, usize), String> {
            let x: Option<String> = self.s.get(l.0..l.1).map(|x| x.iter().collect());
            if x.as_deref() == Some(&t) || t.starts_with("--") && x.as_deref() == Some(&format!("{}\n", t)) { Ok((l.0, l.1)) } else { Err(format!("{:?} is recorded at {}..{}", t, l.0, l.1)) }
        }
        fn node(&self, n: &Node) -> Result<(usize, usize), String> {
            match n {
                Node::NewLine(l) => self.text(l, "\n".into()),
                Node::OneLineComment(l, t) => self.text(l, format!("--{}", t)),
                Node::MultiLineComment(l, k, t) => self.text(l, format!("--[{}[{}]{}]", "=".repeat(*k), t, "=".repeat(*k))),
                Node::VariantList(l, v) | Node::CommentList(l, v) | Node::NewLineList(l, v) => {
                    let mut p = l.0;
                    for (g, n) in v {
                        p = self.gap(p, g)?;
                        let (a, b) = self.node(n)?;
                        if a != p {
                            return Err(format!("an item is recorded at {}..{}, it starts at {}", a, b, p));
                        }
                        p = b;
                    }
                    if p == l.1 { Ok((l.0, p)) } else { Err(format!("a list is recorded as {}..{}, it ends at {}", l.0, l.1, p)) }
                }
                Node::Chunk(a, c, b) => {
                    let p = self.gap(0, a)?;
                    let (x, y) = self.node(c)?;
                    if x != p {
                        return Err(format!("the list is recorded at {}..{}, it starts at {}", x, y, p));
                    }
                    match self.gap(y, b)? == self.s.len() {
                        true => Ok((0, self.s.len())),
                        false => Err("the tree ends early".into()),
                    }
                }
            }
        }
    }
    W { s: &s }.node(&t).err()
}

fn c06(r: &mut Rng) -> Option<Wit> {
    let src = match r.below(4) {
        0 => {
            let o = GenOpts { small: true, ..crate::oracle::gen_opts() };
            program(r, &o).src
        }
        1 => {
            const F: &[&str] = &[" ", "\n", "\t", "--x\n", "--\n", "--[\n", "--[=\n", "--[==x]]\n", "--[[a]]", "--[=[b]]]=]", "--[[\n]]", "--[[é]]", "--ы\n"];
            let mut s: String = (0..r.below(6)).map(|_| *r.pick(F)).collect();
            s.push_str(*r.pick(&["", "", "--", "--[", "--[=", "--x", "--[=x", "--[==]"]));
            if let Some(w) = c06_comments(&s) {
                return Some(w);
            }
            s
        }
        2 if r.chance(1, 2) => {
            // brackets of near levels
            let l = r.below(7);
            let mut s = format!("{}[{}[", r.pick(&["", "a = ", "--"]), "=".repeat(l));
            for _ in 0..r.below(4) {
                let m = (l + r.below(4)).saturating_sub(r.below(3));
                s.push_str(&format!("{}]{}{}", r.pick(&["", "x", "\n", "]", "["]), "=".repeat(m), r.pick(&["", "]", "]]", "x"])));
            }
            s
        }
        2 => {
            const A: &[char] = &['0', '1', '9', '.', 'e', 'E', 'x', 'X', 'i', 'n', 'f', 'F', 'g', '_', '-', '+', '\\', '"', '\'', '#', '!', ' ', '\n', '[', ']', '=', 'é'];
            let u = 1 + r.below(8);
            (0..u).map(|_| *r.pick(A)).collect()
        }
        _ => { let u = r.chance(1, 2); rand_text(r, u) }
    };
    c06_check(&src).map(|w| {
        // shrink
        let mut best = w;
        let mut i = 0;
        while i < best.case.chars().count() {
            let t: String = best.case.chars().enumerate().filter(|(k, _)| *k != i).map(|(_, c)| c).collect();
            match c06_check(&t) {
                Some(w) => best = w,
                None => i += 1,
            }
        }
        best
    })
}

// ---------------------------------------------------------------- C07
const VALUES: &[&str] = &[
    "true", "false", "1", "0", "", " ", "abc", "18446744073709551615", "18446744073709551616", "+5", "-1", " 1", "1 ", "1:2", "01:002", "1:2:3",
    "3:1", ":", "1:", ":1", "99999999999999999999:1", "1:99999999999999999999", "TRUE", "True", "привет", "1\n", "1:2\n", "a:b", "1.5", "0x1", "\t", "  ", ",", ";", "nil",
];
fn rand_cfg(r: &mut Rng) -> Config {
    let mut c = Config::default();
    let d = 1 + r.below(9);
    for (k, v) in rand_opts(r, true, d) {
        ref_set(&mut c, &k, &v);
    }
    if r.chance(1, 2) {
        let v = format!("{}:{}", r.below(9), r.below(9));
        ref_set(&mut c, "line_range", &v);
    }
    c
}
fn c07(r: &mut Rng) -> Option<Wit> {
    let base = rand_cfg(r);
    let mut all: Vec<String> = names().iter().map(|x| x.0.to_string()).collect();
    all.push("line_range".into());
    for i in 0..all.len() {
        let n = all[i].clone();
        all.push(format!("{} ", n));
        if r.chance(1, 4) {
            all.push(n.to_uppercase());
            all.push(n[1..].to_string());
            all.push(n.replace('_', "-"));
        }
    }
    for s in ["", "x", "newline_format", "force_single_line", "format"] {
        all.push(s.into());
    }
    for n in &all {
        for v in VALUES {
            let mut a = base.clone();
            let mut b = base.clone();
            if catch_unwind(AssertUnwindSafe(|| a.set(n, v))).is_err() {
                return wit(format!("Config::set({:?}, {:?}) panics", n, v), format!("{:?} on {:?}", (n, v), base), String::new());
            }
            ref_set(&mut b, n, v);
            if a != b {
                return wit(format!("Config::set({:?}, {:?}) gives the wrong configuration", n, v), format!("before: {:?}", base), format!("after: {:?}; expected: {:?}", a, b));
            }
        }
    }
    None
}

// ---------------------------------------------------------------- C08
pub fn config_file(r: &mut Rng, effects: &mut Vec<(String, String)>) -> String {
    let ns = names();
    let mut s = String::new();
    if r.chance(1, 8) {
        s.push_str("#!/usr/bin/lua\n");
    }
    let n = r.below(9);
    let mut after_call = false;
    for _ in 0..n {
        let sep = *r.pick(&["\n", "\n", " ", ";", "\n-- c\n", " --[[ max_width = 7 ]] "]);
        s.push_str(sep);
        let name = if r.chance(1, 10) { "line_range" } else { ns[r.below(ns.len())].0 };
        let raw = *r.pick(&["1", "2", "77", "+3", "true", "false", " ", "  ", "x", ",", "a\\tb", "1:2", ""]);
        match r.below(22) {
            0..=3 => {
                s.push_str(&format!("{} = \"{}\"", name, raw));
                effects.push((name.into(), raw.into()));
            }
            4 | 5 => {
                s.push_str(&format!("{} = '{}'", name, raw));
                effects.push((name.into(), raw.into()));
            }
            6 | 7 => {
                let v = *r.pick(&["1", "0", "120", "3.5", "1e2", "0x10"]);
                s.push_str(&format!("{}={}", name, v));
                effects.push((name.into(), v.into()));
            }
            8 | 9 => {
                let v = *r.pick(&["true", "false"]);
                s.push_str(&format!("{} ={}", name, v));
                effects.push((name.into(), v.into()));
            }
            10 => {
                let other = ns[r.below(ns.len())].0;
                s.push_str(&format!("{}, {} = true, 5", name, other));
                effects.push((name.into(), "true".into()));
            }
            11 => s.push_str(&format!("local {} = 3", name)),
            12 => s.push_str(&format!("if {} then {} = 3 else {} = true end", name, name, name)),
            13 => s.push_str(&format!("do {} = 3 end", name)),
            14 => s.push_str(&format!("t.{} = 3", name)),
            15 => s.push_str(&format!("function f() {} = true end", name)),
            16 => s.push_str(&format!("{} = nil", name)),
            17 => s.push_str(&format!("{} = -1", name)),
            18 => s.push_str(&format!("{} = {}", name, *r.pick(&["1 + 2", "(5)", "x", "[[5]]", "{}", "f(1)", "\"a\" .. \"b\"", "not true"]))),
            19 => {
                // starts with a bracket or is a call: keep statements apart
                s.push_str(&format!("f(\"{}\")", name));
            }
            20 => s.push_str(&format!("for i = 1, 2 do {} = i end", name)),
            _ => s.push_str(&format!("while false do {} = 1 end", name)),
        }
        after_call = false;
    }
    let _ = after_call;
    if r.chance(1, 5) {
        s.push_str(*r.pick(&["\nreturn", "\nreturn 1", "\nreturn { max_width = 3 }", "\nreturn max_width;"]));
    }
    s.push('\n');
    s
}
fn c08(r: &mut Rng, dir: &Path) -> Option<Wit> {
    let p = dir.join("cfg.lua");
    let base = rand_cfg(r);
    let mut eff = Vec::new();
    let text = config_file(r, &mut eff);
    let mode = r.below(12);
    let (file, want_err) = match mode {
        0 => (dir.join("missing.lua"), true),
        1 => {
            fs::write(&p, [b'a', 0xff, b'\n']).unwrap();
            (p.clone(), true)
        }
        2 => {
            fs::write(&p, format!("{} = = 3\n", text)).unwrap();
            (p.clone(), true)
        }
        3 => (dir.to_path_buf(), true),
        _ => {
            fs::write(&p, &text).unwrap();
            (p.clone(), false)
        }
    };
    let mut want = base.clone();
    for (k, v) in &eff {
        ref_set(&mut want, k, v);
    }
    let case = format!("config file {:?}, mode {}, options before {:?}", text, mode, base);
    match catch_unwind(AssertUnwindSafe(|| base.reload_format_from_file(&file))) {
        Err(_) => wit("loading the configuration file panics".into(), case, String::new()),
        Ok(Err(e)) => {
            if want_err { None } else { wit(format!("loading fails: {}", e), case, String::new()) }
        }
        Ok(Ok(c)) => {
            if want_err {
                wit("an unreadable or unparseable configuration file is not an error".into(), case, format!("{:?}", c))
            } else if c != want {
                wit("the loaded configuration is wrong".into(), case, format!("got {:?}, expected {:?}", c, want))
            } else {
                None
            }
        }
    }
}

// ---------------------------------------------------------------- files
fn clear(dir: &Path) {
    for e in fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        if p.is_dir() && !fs::symlink_metadata(&p).unwrap().file_type().is_symlink() {
            fs::remove_dir_all(&p).unwrap();
        } else {
            fs::remove_file(&p).unwrap();
        }
    }
}
fn is_cfg_name(n: &str) -> bool {
    n.starts_with(".luafmt") && ext_of(n) == Some("lua")
}
fn ext_of(n: &str) -> Option<&str> {
    match n.rfind('.') {
        None | Some(0) => None,
        Some(k) => Some(&n[k + 1..]),
    }
}
const FNAMES: &[&str] = &["a.lua", "b.lua", "a b.lua", ".luafmt.lua", ".luafmt_x.lua", ".luafmt", ".luafmt.txt", "luafmt.lua", "c.LUA", "d.txt", "lua", "x.lua.bak", ".lua", "y..lua", "z.luax", ".hidden.lua", ".luafm.lua", "мир.lua", "xlua", "x.luafmt.lua"];
const DNAMES: &[&str] = &["sub", "d.lua", ".luafmt", ".luafmt.lua", "deep", ".git", "e", "node_modules", "target", "src", "vendor", "my.luafmt.d", "build", "tests"];

fn mktree(r: &mut Rng, dir: &Path, depth: usize, desc: &mut String) {
    for f in FNAMES {
        if r.chance(1, 4) {
            fs::write(dir.join(f), "x = 1\n").unwrap();
            desc.push_str(&format!("{} ", dir.join(f).display()));
        }
    }
    if depth < 4 {
        for d in DNAMES {
            let p = dir.join(d);
            if r.chance(1, 11) && !p.exists() {
                fs::create_dir(&p).unwrap();
                desc.push_str(&format!("{}/ ", p.display()));
                mktree(r, &p, depth + 1, desc);
            }
        }
    }
}
fn ref_select(p: &Path, rec: bool, out: &mut Vec<PathBuf>) {
    for e in fs::read_dir(p).unwrap() {
        let e = e.unwrap();
        let n = e.file_name().into_string().unwrap();
        if e.path().is_dir() {
            if rec {
                ref_select(&e.path(), rec, out);
            }
        } else if ext_of(&n) == Some("lua") && !n.starts_with(".luafmt") {
            out.push(e.path());
        }
    }
}
fn c11(r: &mut Rng, dir: &Path) -> Option<Wit> {
    clear(dir);
    let mut desc = String::new();
    mktree(r, dir, 0, &mut desc);
    for rec in [false, true] {
        let mut want = Vec::new();
        ref_select(dir, rec, &mut want);
        want.sort();
        let case = format!("recursive {}, tree: {}", rec, desc);
        match luafmt::file_util::get_path_files(&dir.to_path_buf(), rec, "lua", ".luafmt") {
            Err(e) => return wit(format!("error {}", e), case, String::new()),
            Ok(mut got) => {
                got.sort();
                if got != want {
                    return wit("wrong selection of files".into(), case, format!("got {:?}, expected {:?}", got, want));
                }
            }
        }
        // a file argument, a missing path
        for f in FNAMES {
            let p = dir.join(f);
            let got = luafmt::file_util::get_path_files(&p, rec, "lua", ".luafmt");
            let ok = if p.is_file() { got.as_ref().ok() == Some(&vec![p.clone()]) } else if p.is_dir() { true } else { got.is_err() };
            if !ok {
                return wit(format!("path argument {:?} (exists: {})", p, p.exists()), case, format!("{:?}", got));
            }
        }
    }
    None
}

/// accepted configuration files for a source file, nearest directory first
fn ref_config(file: &Path) -> Vec<PathBuf> {
    let mut d = fs::canonicalize(file).unwrap();
    while d.pop() {
        let mut v = Vec::new();
        if let Ok(rd) = fs::read_dir(&d) {
            for e in rd {
                let e = e.unwrap();
                if e.path().is_file() && e.file_name().to_str().map_or(false, is_cfg_name) {
                    v.push(e.path());
                }
            }
        }
        if !v.is_empty() {
            return v;
        }
    }
    Vec::new()
}
const SRC12: &str = "local a  = 1   local b={1,2}   if a then   b() end\nreturn   b\n";
fn c12(r: &mut Rng, dir: &Path) -> Option<Wit> {
    clear(dir);
    let mut desc = String::new();
    let mut d = dir.to_path_buf();
    let mut k = 0;
    let depth = r.below(5);
    for lv in 0..=depth {
        for n in [".luafmt.lua", ".luafmt_other.lua", ".luafmt.txt", ".luafmt", "luafmt.lua", "x.luafmt.lua", ".luafmt.LUA", ".luafm.lua"] {
            let proper = is_cfg_name(n);
            if r.chance(1, if proper { 5 } else { 4 }) {
                let p = d.join(n);
                if r.chance(1, 6) {
                    fs::create_dir(&p).unwrap();
                    desc.push_str(&format!("dir {} ", p.display()));
                } else {
                    k += 1;
                    let bad = proper && r.chance(1, 8);
                    let t = if bad { "= = =".to_string() } else { format!("indentation_string = \"{}\"\nnewline_format_statement = 1\nnewline_format_if = 1\n", " ".repeat(k)) };
                    fs::write(&p, t).unwrap();
                    desc.push_str(&format!("{}{} ", p.display(), if bad { "(bad)" } else { "" }));
                }
            }
        }
        for n in [".git", ".hg", "Makefile", "a.lua", ".editorconfig", "src"] {
            if r.chance(1, 8) && !d.join(n).exists() {
                if r.chance(1, 2) { fs::create_dir(d.join(n)).unwrap() } else { fs::write(d.join(n), "x = 1\n").unwrap() }
                desc.push_str(&format!("{} ", d.join(n).display()));
            }
        }
        if lv < depth {
            d = d.join(*r.pick(&["s", "t.lua", ".luafmt_dir", "u", "node_modules"]));
            if !d.exists() {
                fs::create_dir(&d).unwrap();
            }
        }
    }
    let f = d.join("src.lua");
    fs::write(&f, SRC12).unwrap();
    let want = ref_config(&f);
    // relative and absolute spelling
    let rel = {
        let mut p = d.clone();
        p.push("..");
        p.push(d.file_name().unwrap());
        p.push("src.lua");
        p
    };
    for path in [f.clone(), rel] {
        let got = luafmt::file_util::get_file_config(&path, ".luafmt");
        let ok = match &got {
            None => want.is_empty(),
            Some(p) => want.contains(p),
        };
        if !ok {
            return wit("wrong configuration file".into(), desc, format!("for {:?} got {:?}, expected one of {:?}", path, got, want));
        }
        for mode in 0..3 {
            let mut cfg = Config::default();
            if mode == 1 {
                ref_set(&mut cfg, "line_range", "1:2");
            }
            if mode == 2 {
                if r.chance(1, 2) {
                    ref_set(&mut cfg, "indentation_string", "\t");
                } else {
                    let ns = crate::opts::names();
                    let (n, t) = ns[r.below(ns.len())];
                    ref_set(&mut cfg, n, match t { "bool" => "false", "usize" => "0", _ => " " });
                }
            }
            let src = SRC12.to_string();
            let expect: Vec<Option<String>> = if mode == 2 {
                vec![process_buffer_with_config(&src, &cfg, false).ok()]
            } else if want.is_empty() {
                vec![None]
            } else {
                want.iter()
                    .map(|p| {
                        let t = fs::read_to_string(p).unwrap();
                        if t.starts_with("=") {
                            return None;
                        }
                        let mut c = cfg.clone();
                        let n = t.split('"').nth(1).unwrap().to_string();
                        ref_set(&mut c, "indentation_string", &n);
                        ref_set(&mut c, "newline_format_statement", "1");
                        ref_set(&mut c, "newline_format_if", "1");
                        process_buffer_with_config(&src, &c, false).ok()
                    })
                    .collect()
            };
            let got = process_file(&path, &cfg, false);
            let g = got.as_ref().ok().cloned();
            if !expect.contains(&g) {
                return wit(format!("process_file, options {:?}", cfg.line_range), format!("mode {} file {:?}; tree: {}", mode, path, desc), format!("got {:?}, expected {:?}", got, expect));
            }
        }
    }
    if r.chance(1, 4) {
        if let Some(w) = c12_program(r, dir, &desc) {
            return Some(w);
        }
    }
    None
}
/// the program on all the files of the tree: each one gets the options of its own configuration file
fn c12_program(r: &mut Rng, dir: &Path, desc: &str) -> Option<Wit> {
    let bin = std::env::var("LUAFMT_BIN").unwrap_or("/verif/.build/harness/debug/luafmt".into());
    let mut dirs = vec![dir.to_path_buf()];
    let mut k = 0;
    while k < dirs.len() {
        for e in fs::read_dir(&dirs[k]).unwrap() {
            let e = e.unwrap();
            if e.path().is_dir() && e.file_name() != ".git" {
                dirs.push(e.path());
            }
        }
        k += 1;
    }
    let mut files = Vec::new();
    for (i, d) in dirs.iter().enumerate() {
        for n in ["m1.lua", "m2.lua"] {
            if r.chance(1, 2) {
                let f = d.join(n);
                fs::write(&f, SRC12).unwrap();
                files.push((f, i));
            }
        }
    }
    let mut expect = Vec::new();
    for (f, _) in &files {
        let mut v = Vec::new();
        let want = ref_config(f);
        for p in &want {
            let t = fs::read_to_string(p).unwrap();
            if t.starts_with("=") {
                v.push(SRC12.to_string());
                continue;
            }
            let mut c = Config::default();
            let n = t.split('"').nth(1).unwrap().to_string();
            ref_set(&mut c, "indentation_string", &n);
            ref_set(&mut c, "newline_format_statement", "1");
            ref_set(&mut c, "newline_format_if", "1");
            v.push(process_buffer_with_config(&SRC12.to_string(), &c, false).unwrap_or(SRC12.to_string()));
        }
        if want.is_empty() {
            v.push(SRC12.to_string());
        }
        expect.push(v);
    }
    let mut args = vec!["-i".to_string()];
    let rec = r.chance(1, 2);
    if rec {
        args.push("-r".into());
        args.push(dir.to_str().unwrap().into());
    } else {
        args.extend(files.iter().map(|f| f.0.to_str().unwrap().to_string()));
    }
    if !rec && files.is_empty() {
        return None;
    }
    let _ = Command::new(&bin).args(&args).current_dir(dir).output().ok()?;
    for ((f, _), v) in files.iter().zip(&expect) {
        if rec && f.components().any(|c| c.as_os_str().to_str().map_or(false, |x| x == "node_modules" || (x.starts_with(".") && x.len() > 1))) {
            continue;
        }
        let got = fs::read_to_string(f).unwrap_or_default();
        if !v.contains(&got) {
            return wit("the program formatted a file with the wrong options".into(), format!("args {:?}; file {}; tree: {}", args, f.display(), desc), format!("{:?}, expected one of {:?}", got, v));
        }
    }
    None
}

// ---------------------------------------------------------------- C10
fn c10(r: &mut Rng, dir: &Path) -> Option<Wit> {
    clear(dir);
    let bin = std::env::var("LUAFMT_BIN").unwrap_or("/verif/.build/harness/debug/luafmt".into());
    let o = GenOpts { small: true, ..crate::oracle::gen_opts() };
    let inplace = r.chance(1, 2);
    let use_opts = r.chance(1, 2);
    let opts = if use_opts {
        let mut v = rand_opts(r, false, 1);
        v.push(("newline_format_statement".into(), "1".into()));
        v
    } else {
        Vec::new()
    };
    let mut cfg = Config::default();
    for (k, v) in &opts {
        ref_set(&mut cfg, k, v);
    }
    let mut args: Vec<String> = opts.iter().map(|(k, v)| format!("--{}={}", k, v)).collect();
    if r.chance(1, 5) {
        let v = format!("{}:{}", 1 + r.below(3), 1 + r.below(4));
        ref_set(&mut cfg, "line_range", &v);
        args.push(format!("--line_range={}", v));
    }
    if inplace {
        args.push(r.pick(&["-i", "--inplace"]).to_string());
    }
    let mut files: Vec<(PathBuf, Option<Vec<u8>>, Option<String>)> = Vec::new();
    let mut desc = String::new();
    // the files as arguments, or their directory in recursive mode
    let dirmode = inplace && r.chance(1, 3);
    if dirmode {
        args.push(r.pick(&["-r", "--recursive"]).to_string());
        args.push(dir.to_str().unwrap().to_string());
    }
    for k in 0..1 + r.below(4) {
        let sub = dir.join(format!("d{}", k));
        fs::create_dir(&sub).unwrap();
        let mut fcfg = Some(cfg.clone());
        let cmode = r.below(4);
        if cmode == 0 {
            fs::write(sub.join(".luafmt.lua"), "newline_format_statement = = 1\n").unwrap();
            if !use_opts { fcfg = None; }
        } else if cmode < 3 {
            let ns = crate::opts::names();
            let (n, t) = ns[r.below(ns.len())];
            let v = match t { "bool" => "true".to_string(), "usize" => "1".to_string(), _ => "' '".to_string() };
            let v = if n == "field_separator" { "';'".to_string() } else if n == "max_width" { "40".into() } else { v };
            fs::write(sub.join(".luafmt.lua"), format!("newline_format_if = 1\nindentation_string = '  '\n{} = {}", n, v)).unwrap();
            if !use_opts {
                let mut c = cfg.clone();
                ref_set(&mut c, "newline_format_if", "1");
                ref_set(&mut c, "indentation_string", "  ");
                ref_set(&mut c, n, v.trim_matches('\''));
                fcfg = Some(c);
            }
        } else if !use_opts {
            fcfg = None;
        }
        let f = sub.join(if dirmode { *r.pick(&["f.lua", "g h.lua", "f.txt.lua"]) } else { *r.pick(&["f.lua", "f.lua", "f.txt", "f", "f.LUA", ".luafmt_x.lua.in", "f.lua.bak"]) });
        let kind = r.below(6);
        let (bytes, out): (Option<Vec<u8>>, Option<String>) = match kind {
            0 => {
                // does not parse, whatever stands before it
                let head = r.pick(&["", "", "#!/usr/bin/lua\n", "-- c\n", "\n", "a = 1\n", "--[[ c ]]", "local t = {}\n"]).to_string();
                let head = if r.chance(1, 4) { program(r, &o).src + "\n" } else { head };
                let tail = *r.pick(&["x = = 1\n", "if a then\n", "end end\n", "x = {1, 2\n", "x = 'a\n", "f(\n", "local 1\n", "x = [[ a\n", "return return\n", "x = 1 .. \n", "@\n"]);
                (Some(format!("{}\n;{}", head, tail).into_bytes()), None)
            }
            1 => (Some(vec![b'x', b'=', b'"', 0xff, b'"']), None),
            2 => (None, None),
            _ => {
                let s = program(r, &o).src;
                let out = fcfg.as_ref().and_then(|c| catch_unwind(AssertUnwindSafe(|| process_buffer_with_config(&s, c, false).ok())).ok().flatten());
                (Some(s.into_bytes()), out)
            }
        };
        if let Some(b) = &bytes {
            fs::write(&f, b).unwrap();
        }
        desc.push_str(&format!("file {} kind {} config {}; ", k, kind, cmode));
        if !dirmode {
            args.push(f.to_str().unwrap().to_string());
        }
        files.push((f, bytes, out));
    }
    let case = format!("args {:?}; {} contents {:?}", args, desc, files.iter().map(|f| f.1.as_ref().map(|b| String::from_utf8_lossy(b).to_string())).collect::<Vec<_>>());
    let res = match Command::new(&bin).args(&args).current_dir(dir).output() {
        Ok(x) => x,
        Err(e) => {
            eprintln!("cannot run {}: {}", bin, e);
            return None;
        }
    };
    let mut want_out = String::new();
    for (f, bytes, out) in &files {
        let now = fs::read(f).ok();
        let want = match (inplace, out) {
            (true, Some(s)) => Some(s.clone().into_bytes()),
            _ => bytes.clone(),
        };
        if now != want {
            return wit(format!("file {} holds the wrong text after the run (inplace {})", f.display(), inplace), case, format!("{:?}, expected {:?}", now.map(|x| String::from_utf8_lossy(&x).to_string()), want.map(|x| String::from_utf8_lossy(&x).to_string())));
        }
        if !inplace {
            if let Some(s) = out {
                want_out.push_str(s);
            }
        }
    }
    let got = String::from_utf8_lossy(&res.stdout).to_string();
    if got != want_out {
        return wit("wrong text on the standard output".into(), case, format!("{:?}, expected {:?}", got, want_out));
    }
    for k in 0..files.len() {
        let n: Vec<String> = fs::read_dir(dir.join(format!("d{}", k))).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
        let mine = files[k].0.file_name().unwrap().to_str().unwrap().to_string();
        if n.iter().any(|x| *x != mine && x != ".luafmt.lua") {
            return wit("another file was created".into(), case, format!("{:?}", n));
        }
    }
    None
}
