//! Independent reference lexer for Lua 5.3 (written from the reference manual, not from /repo).
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Name,
    Number,
    Str,
    LongStr,
    Op,
    OneLine,
    Long,
    SheBang,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub kind: Kind,
    pub text: String,
    pub start: usize,
    pub end: usize,
}

fn long_open(c: &[char], i: usize) -> Option<usize> {
    if c.get(i) != Some(&'[') {
        return None;
    }
    let mut j = i + 1;
    while c.get(j) == Some(&'=') {
        j += 1;
    }
    if c.get(j) == Some(&'[') {
        Some(j - i - 1)
    } else {
        None
    }
}

fn long_end(c: &[char], mut i: usize, level: usize) -> Option<usize> {
    while i < c.len() {
        if c[i] == ']' {
            let mut j = i + 1;
            while c.get(j) == Some(&'=') {
                j += 1;
            }
            if j - i - 1 == level && c.get(j) == Some(&']') {
                return Some(j + 1);
            }
        }
        i += 1;
    }
    None
}

pub fn lex(src: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = src.chars().collect();
    let mut v = Vec::new();
    let mut i = 0;
    let mk = |kind: Kind, a: usize, b: usize| Tok { kind, text: c[a..b].iter().collect(), start: a, end: b };
    if c.len() >= 2 && c[0] == '#' && c[1] == '!' {
        while i < c.len() && c[i] != '\n' {
            i += 1;
        }
        v.push(mk(Kind::SheBang, 0, i));
    }
    while i < c.len() {
        let ch = c[i];
        if ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n' {
            i += 1;
            continue;
        }
        let s = i;
        if ch == '-' && c.get(i + 1) == Some(&'-') {
            if let Some(level) = long_open(&c, i + 2) {
                match long_end(&c, i + 4 + level, level) {
                    Some(e) => {
                        v.push(mk(Kind::Long, s, e));
                        i = e;
                        continue;
                    }
                    None => return Err(format!("unfinished long comment at {}", s)),
                }
            }
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            v.push(mk(Kind::OneLine, s, i));
            continue;
        }
        if ch.is_ascii_alphabetic() || ch == '_' {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            v.push(mk(Kind::Name, s, i));
            continue;
        }
        if ch.is_ascii_digit() || (ch == '.' && c.get(i + 1).map_or(false, |x| x.is_ascii_digit())) {
            let hex = ch == '0' && matches!(c.get(i + 1), Some('x') | Some('X'));
            if hex {
                i += 2;
            }
            while i < c.len() {
                let x = c[i];
                let expo = if hex { x == 'p' || x == 'P' } else { x == 'e' || x == 'E' };
                if expo {
                    i += 1;
                    if matches!(c.get(i), Some('+') | Some('-')) {
                        i += 1;
                    }
                } else if x.is_ascii_alphanumeric() || x == '.' || x == '_' {
                    i += 1;
                } else {
                    break;
                }
            }
            let t: String = c[s..i].iter().collect();
            let ok = if hex {
                t[2..].chars().all(|x| x.is_ascii_hexdigit() || matches!(x, '.' | 'p' | 'P' | '+' | '-'))
            } else {
                t.parse::<f64>().is_ok() && t.chars().all(|x| x.is_ascii_digit() || matches!(x, '.' | 'e' | 'E' | '+' | '-'))
            };
            if !ok {
                return Err(format!("malformed number at {}", s));
            }
            v.push(mk(Kind::Number, s, i));
            continue;
        }
        if ch == '"' || ch == '\'' {
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err(format!("unfinished string at {}", s)),
                    Some('\\') => i += 2,
                    Some(x) if *x == ch => {
                        i += 1;
                        break;
                    }
                    Some(_) => i += 1,
                }
            }
            if i > c.len() {
                return Err(format!("unfinished string at {}", s));
            }
            v.push(mk(Kind::Str, s, i));
            continue;
        }
        if let Some(level) = long_open(&c, i) {
            match long_end(&c, i + 2 + level, level) {
                Some(e) => {
                    v.push(mk(Kind::LongStr, s, e));
                    i = e;
                    continue;
                }
                None => return Err(format!("unfinished long string at {}", s)),
            }
        }
        const OPS: &[&str] = &[
            "...", "..", "==", "~=", "<=", ">=", "<<", ">>", "//", "::", "+", "-", "*", "/", "%", "^", "#", "&", "~",
            "|", "<", ">", "=", "(", ")", "{", "}", "[", "]", ";", ":", ",", ".",
        ];
        let mut found = false;
        for op in OPS {
            let oc: Vec<char> = op.chars().collect();
            if c[i..].starts_with(&oc) {
                i += oc.len();
                v.push(mk(Kind::Op, s, i));
                found = true;
                break;
            }
        }
        if !found {
            return Err(format!("unexpected character {:?} at {}", ch, i));
        }
    }
    Ok(v)
}

/// Value of a quoted string literal body (without quotes), escapes decoded far enough to compare.
pub fn str_value(text: &str) -> Vec<String> {
    let c: Vec<char> = text.chars().collect();
    let body = &c[1..c.len() - 1];
    let mut v = Vec::new();
    let mut i = 0;
    while i < body.len() {
        if body[i] == '\\' && i + 1 < body.len() {
            let x = body[i + 1];
            if x == '"' || x == '\'' {
                v.push(x.to_string());
            } else {
                v.push(format!("\\{}", x));
            }
            i += 2;
        } else {
            v.push(body[i].to_string());
            i += 1;
        }
    }
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum Norm {
    T(String),
    S(Vec<String>),
    Sep,
    C1(String),
    CL(String),
    SB(String),
}

/// Token (and comment) sequence, with field separators of table constructors unified and the optional trailing
/// separator dropped; strings by value when `conv` is set.
pub fn normalise(toks: &[Tok], conv: bool, sep: bool, trail: bool, comments: bool) -> Vec<Norm> {
    let mut out: Vec<Norm> = Vec::new();
    let mut stack: Vec<&str> = Vec::new();
    for t in toks {
        match t.kind {
            Kind::OneLine => {
                if comments {
                    out.push(Norm::C1(t.text.clone()))
                }
            }
            Kind::Long => {
                if comments {
                    out.push(Norm::CL(t.text.clone()))
                }
            }
            Kind::SheBang => out.push(Norm::SB(t.text.clone())),
            Kind::Str if conv => {
                out.push(Norm::S(str_value(&t.text)));
            }
            Kind::Op | Kind::Name => {
                let x = t.text.as_str();
                match x {
                    "{" => stack.push("{"),
                    "(" => stack.push("("),
                    "[" => stack.push("["),
                    "function" | "if" | "do" | "repeat" => stack.push("b"),
                    "}" | ")" | "]" | "end" | "until" => {
                        if x == "}" && trail {
                            // drop a trailing separator (comments may follow it)
                            let mut k = out.len();
                            while k > 0 && matches!(out[k - 1], Norm::C1(_) | Norm::CL(_)) {
                                k -= 1;
                            }
                            if k > 0 && (out[k - 1] == Norm::Sep || out[k - 1] == Norm::T(",".into()) || out[k - 1] == Norm::T(";".into())) {
                                out.remove(k - 1);
                            }
                        }
                        stack.pop();
                    }
                    _ => {}
                }
                if sep && (x == "," || x == ";") && stack.last() == Some(&"{") {
                    out.push(Norm::Sep);
                } else {
                    out.push(Norm::T(t.text.clone()));
                }
            }
            _ => out.push(Norm::T(t.text.clone())),
        }
    }
    out
}

pub fn is_keyword(s: &str) -> bool {
    matches!(s, "and" | "break" | "do" | "else" | "elseif" | "end" | "false" | "for" | "function" | "goto" | "if" | "in" | "local" | "nil" | "not" | "or" | "repeat" | "return" | "then" | "true" | "until" | "while")
}

/// the longest text at `i` that lexes like a number, well formed or not
pub fn number_at(c: &[char], mut i: usize) -> String {
    let s = i;
    let hex = c[i] == '0' && matches!(c.get(i + 1), Some('x') | Some('X'));
    if hex {
        i += 2;
    }
    while i < c.len() {
        let x = c[i];
        let expo = if hex { x == 'p' || x == 'P' } else { x == 'e' || x == 'E' };
        if expo {
            i += 1;
            if matches!(c.get(i), Some('+') | Some('-')) {
                i += 1;
            }
        } else if x.is_ascii_alphanumeric() || x == '.' || x == '_' {
            i += 1;
        } else {
            break;
        }
    }
    c[s..i].iter().collect()
}
