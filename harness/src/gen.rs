//! Random Lua programs inside the grammar /repo accepts, with random trivia (spaces, newlines, comments).
use crate::rng::Rng;

#[derive(Clone)]
pub struct GenOpts {
    pub comments: bool,
    pub unicode: bool,
    pub newlines: bool,
    pub paren_stat: bool,
    pub backslash_long: bool,
    pub neg_comment: bool,
    pub eof_comment: bool,
    pub small: bool,
    /// calls that mark the beginning and the end of every block
    pub markers: bool,
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub o: GenOpts,
    pub t: Vec<String>,
    pub budget: isize,
}

const NAMES: &[&str] = &["a", "b", "foo", "x1", "_y", "self", "print", "tbl", "i", "longer_name_here", "ifx", "e5", "do_"];
const BIN: &[&str] = &[
    "or", "and", "==", "~=", "<", ">", "<=", ">=", "|", "~", "&", "<<", ">>", "..", "+", "-", "*", "/", "//", "%", "^",
];

impl<'a> G<'a> {
    fn p(&mut self, s: &str) {
        self.t.push(s.to_string());
    }
    fn name(&mut self) {
        let s = *self.r.pick(NAMES);
        self.p(s);
    }
    fn strlit(&mut self) {
        if self.r.chance(1, 4) {
            return self.randstr();
        }
        let k = self.r.below(12);
        let s = match k {
            0 => "\"\"".to_string(),
            1 => "''".to_string(),
            2 => "\"it's\"".to_string(),
            3 => "'say \"hi\"'".to_string(),
            4 => "'a\\'b\\\\'".to_string(),
            5 => "\"q\\\"q\\\\\\\"\"".to_string(),
            6 => "'\\\"x\\\\\"'".to_string(),
            7 if self.r.chance(1, 6) => {
                let q = "=".repeat(self.r.below(14));
                format!("[{}[l]{}]", q, q)
            }
            7 => "[[ml]]".to_string(),
            8 => "[==[ a]]b]=] ]==]".to_string(),
            9 => {
                if self.o.unicode {
                    "'привет \"мир\"'".to_string()
                } else {
                    "'plain'".to_string()
                }
            }
            10 => {
                if self.o.newlines {
                    "[[two\n  lines]]".to_string()
                } else {
                    "[[one]]".to_string()
                }
            }
            _ => {
                if self.o.backslash_long {
                    "[[c:\\]]".to_string()
                } else {
                    "\"-- not a comment\"".to_string()
                }
            }
        };
        self.t.push(s);
    }
    /// a quoted string of random pieces, with runs of backslashes and quotes of both kinds
    fn randstr(&mut self) {
        let q = *self.r.pick(&["'", "'", "\""]);
        let other = if q == "'" { "\"" } else { "'" };
        let mut s = q.to_string();
        for _ in 0..self.r.below(6) {
            if self.r.chance(1, 3) {
                s.push_str(&"\\\\".repeat(self.r.below(6)));
            }
            match self.r.below(10) {
                0 | 1 => s.push_str(other),
                2 => s.push_str("\\\""),
                3 => s.push_str("\\'"),
                4 => s.push_str("\\n"),
                5 => s.push_str("\\065"),
                6 => s.push_str("\\x41"),
                7 if self.o.unicode => s.push_str("\u{e9}\u{4f60}"),
                8 => s.push_str("\\z  b"),
                _ => s.push_str("a1"),
            }
        }
        s.push_str(q);
        self.p(&s);
    }
    /// usually `small`; now and then a lot of (then simple) elements
    fn many(&mut self, small: usize) -> usize {
        if small > 0 && self.budget > 0 && self.r.chance(1, 60) {
            self.budget = 0;
            return *self.r.pick(&[5, 9, 17, 33, 40, 65, 70]);
        }
        small
    }
    fn prim(&mut self, d: usize) {
        self.budget -= 1;
        match self.r.below(if d > 3 || self.budget < 0 { 7 } else { 11 }) {
            0 => self.p("nil"),
            1 => {
                let s = *self.r.pick(&["true", "false"]);
                self.p(s)
            }
            2 => {
                let s = *self.r.pick(&["1", "0", "3.14", "0xFFa", "1e5", "2.5E-3", "1e+5", ".5", "12"]);
                self.p(s)
            }
            3 => self.strlit(),
            4 | 5 => self.name(),
            6 => self.p("..."),
            7 => self.funcdef(d),
            8 => self.table(d),
            9 => {
                self.name();
                self.suffixes(d);
            }
            _ => {
                self.p("(");
                self.exp(d + 1);
                self.p(")");
                if self.r.chance(1, 3) {
                    self.suffixes(d);
                }
            }
        }
    }
    fn exp(&mut self, d: usize) {
        // unary/binary without constructs the grammar rejects (unary of unary, ^ with a unary operand)
        self.budget -= 1;
        let n = if self.budget < 0 { 0 } else { *self.r.pick(&[0, 0, 0, 1, 1, 2, 3]) };
        let mut hat = false;
        for k in 0..=n {
            if !hat && self.r.chance(1, 8) {
                let u = *self.r.pick(&["not", "not", "-", "#", "~"]);
                self.p(u);
            }
            self.prim(d);
            if k < n {
                let b = *self.r.pick(BIN);
                hat = b == "^";
                self.p(b);
            }
        }
    }
    fn explist(&mut self, d: usize) {
        let n = 1 + self.r.below(3);
        let n = self.many(n);
        for k in 0..n {
            if k > 0 {
                self.p(",");
            }
            self.exp(d);
        }
    }
    fn args(&mut self, d: usize) {
        match self.r.below(6) {
            0 => {
                self.p("(");
                self.p(")");
            }
            1 => self.strlit(),
            2 if d < 3 => self.table(d + 1),
            _ => {
                self.p("(");
                self.explist(d + 1);
                self.p(")");
            }
        }
    }
    fn suffix(&mut self, d: usize) {
        match self.r.below(4) {
            0 => {
                self.p("[");
                self.exp(d + 1);
                self.p("]");
            }
            1 => {
                self.p(".");
                self.name();
            }
            2 => {
                self.p(":");
                self.name();
                self.args(d);
            }
            _ => self.args(d),
        }
    }
    fn suffixes(&mut self, d: usize) {
        let n = 1 + self.r.below(3);
        for _ in 0..self.many(n) {
            self.suffix(d);
        }
    }
    fn table(&mut self, d: usize) {
        self.p("{");
        let n = *self.r.pick(&[0, 0, 1, 1, 2, 3, 4]);
        let n = self.many(n);
        let style = self.r.below(3);
        for k in 0..n {
            match if style == 0 { 0 } else { self.r.below(3) } {
                0 => self.exp(d + 1),
                1 => {
                    self.name();
                    self.p("=");
                    self.exp(d + 1);
                }
                _ => {
                    self.p("[");
                    self.exp(d + 1);
                    self.p("]");
                    self.p("=");
                    self.exp(d + 1);
                }
            }
            if k + 1 < n || self.r.chance(1, 3) {
                let s = *self.r.pick(&[",", ",", ";"]);
                self.p(s);
            }
        }
        self.p("}");
    }
    fn funcbody(&mut self, d: usize, kind: char) {
        self.p("(");
        let n = self.r.below(3);
        let n = self.many(n);
        for k in 0..n {
            if k > 0 {
                self.p(",");
            }
            if k + 1 == n && self.r.chance(1, 5) {
                self.p("...");
            } else {
                self.name();
            }
        }
        self.p(")");
        self.kblock(d + 1, kind);
        self.p("end");
    }
    fn funcdef(&mut self, d: usize) {
        self.p("function");
        self.funcbody(d, 'x');
    }
    fn marker(&mut self, id: usize, kind: char, end: char) {
        self.p(&format!("mk_{}_{}_{}", id, kind, end));
        self.p("(");
        self.p(")");
    }
    pub fn block(&mut self, d: usize) {
        self.kblock(d, 'p')
    }
    /// kind: `p` the block of a statement, `x` of a function within an expression
    fn kblock(&mut self, d: usize, kind: char) {
        let n = if self.budget < 0 || d > 4 { 0 } else { self.r.below(4) };
        let n = self.many(n);
        let mut can_paren = true;
        if self.o.markers && (n > 0 || self.r.chance(1, 2)) {
            let id = self.r.below(1 << 30);
            self.marker(id, kind, 's');
            can_paren = false;
            for _ in 0..n {
                can_paren = self.stat(d, can_paren);
            }
            self.marker(id, kind, 'e');
            if self.r.chance(1, 4) {
                self.ret(d);
            }
            return;
        }
        for _ in 0..n {
            can_paren = self.stat(d, can_paren);
        }
        if self.r.chance(1, 4) {
            self.ret(d);
        }
    }
    pub fn ret(&mut self, d: usize) {
        self.p("return");
        if self.r.chance(2, 3) {
            self.explist(d);
        }
        if self.r.chance(1, 3) {
            self.p(";");
        }
    }
    /// returns whether the next statement may start with a parenthesis
    pub fn stat(&mut self, d: usize, can_paren: bool) -> bool {
        self.budget -= 1;
        if can_paren && self.o.paren_stat && self.r.chance(1, 8) {
            self.p("(");
            self.exp(d + 1);
            self.p(")");
            self.suffix(d);
            if self.r.chance(1, 3) {
                let n = *self.r.pick(&[0, 0, 1, 2, 4]);
                for _ in 0..self.many(n) {
                    self.p(",");
                    self.name();
                    if self.r.chance(1, 4) {
                        self.p(".");
                        self.name();
                    }
                }
                self.p("=");
                self.explist(d);
            } else {
                self.args(d);
            }
            return false;
        }
        let deep = d > 3 || self.budget < 0;
        match self.r.below(if deep { 8 } else { 18 }) {
            0 => {
                self.p(";");
                true
            }
            1 => {
                self.p("break");
                true
            }
            2 => {
                self.p("goto");
                self.name();
                true
            }
            3 => {
                self.p("::");
                self.name();
                self.p("::");
                true
            }
            4 => {
                self.p("local");
                self.name();
                let n = self.r.below(2);
                for _ in 0..n {
                    self.p(",");
                    self.name();
                }
                if self.r.chance(2, 3) {
                    self.p("=");
                    self.explist(d);
                    return false;
                }
                true
            }
            5 | 6 => {
                self.name();
                if self.r.chance(1, 4) {
                    self.suffix(d);
                    if self.r.chance(1, 2) {
                        self.p(",");
                        self.name();
                    }
                }
                self.p("=");
                self.explist(d);
                false
            }
            7 | 8 => {
                self.name();
                if self.r.chance(1, 3) {
                    self.suffixes(d);
                }
                self.args(d);
                false
            }
            9 => {
                self.p("do");
                self.block(d + 1);
                self.p("end");
                true
            }
            10 => {
                self.p("while");
                self.exp(d);
                self.p("do");
                self.block(d + 1);
                self.p("end");
                true
            }
            11 => {
                self.p("repeat");
                self.block(d + 1);
                self.p("until");
                self.exp(d);
                false
            }
            12 | 13 => {
                self.p("if");
                self.exp(d);
                self.p("then");
                self.block(d + 1);
                for _ in 0..*self.r.pick(&[0, 0, 1, 2]) {
                    self.p("elseif");
                    self.exp(d);
                    self.p("then");
                    self.block(d + 1);
                }
                if self.r.chance(1, 2) {
                    self.p("else");
                    self.block(d + 1);
                }
                self.p("end");
                true
            }
            14 => {
                self.p("for");
                self.name();
                self.p("=");
                self.exp(d);
                self.p(",");
                self.exp(d);
                if self.r.chance(1, 2) {
                    self.p(",");
                    self.exp(d);
                }
                self.p("do");
                self.block(d + 1);
                self.p("end");
                true
            }
            15 => {
                self.p("for");
                self.name();
                if self.r.chance(1, 2) {
                    self.p(",");
                    self.name();
                }
                self.p("in");
                self.explist(d);
                self.p("do");
                self.block(d + 1);
                self.p("end");
                true
            }
            16 => {
                self.p("function");
                self.name();
                for _ in 0..*self.r.pick(&[0, 0, 1, 2]) {
                    self.p(".");
                    self.name();
                }
                if self.r.chance(1, 4) {
                    self.p(":");
                    self.name();
                }
                self.funcbody(d, 'p');
                true
            }
            _ => {
                self.p("local");
                self.p("function");
                self.name();
                self.funcbody(d, 'p');
                true
            }
        }
    }
}

pub fn needs_space(a: &str, b: &str) -> bool {
    let x = match a.chars().last() {
        Some(c) => c,
        None => return false,
    };
    let y = match b.chars().next() {
        Some(c) => c,
        None => return false,
    };
    let id = |c: char| c.is_ascii_alphanumeric() || c == '_';
    if id(x) && id(y) {
        return true;
    }
    let first_digit = a.chars().next().map_or(false, |c| c.is_ascii_digit() || (c == '.' && a.len() > 1 && a != ".." && a != "..."));
    if first_digit && (y == '.' || y == '+' || y == '-') {
        return true;
    }
    if x == '.' && (y == '.' || y.is_ascii_digit()) {
        return true;
    }
    if x == '-' && y == '-' {
        return true;
    }
    if x == '[' && (y == '[' || y == '=') {
        return true;
    }
    if "=<>~/:".contains(x) && "=<>~/:".contains(y) {
        return true;
    }
    false
}

fn comment(r: &mut Rng, o: &GenOpts) -> String {
    let uni = o.unicode;
    if r.chance(1, 4) {
        // random texts
        let n = r.below(6);
        if r.chance(1, 2) {
            let mut t = String::from("--");
            for _ in 0..n {
                t.push_str(*r.pick(&["-", " ", "=", "x", "]", "#", "\t", "'", "\""]));
            }
            t.push('\n');
            return t;
        }
        let l = r.below(3);
        let mut t = String::from("--[");
        t.push_str(&"=".repeat(l));
        t.push('[');
        for _ in 0..n {
            t.push_str(*r.pick(&["-", " ", "[", "x", "[[", "=", "\t", "'", if o.newlines { "\n" } else { "y" }]));
        }
        t.push(']');
        t.push_str(&"=".repeat(l));
        t.push(']');
        return t;
    }
    match r.below(10) {
        0 => "--\n".into(),
        1 => "--  spaced  \n".into(),
        2 => "--x\n".into(),
        3 => "--[=no long\n".into(),
        4 => "--[[c]]".into(),
        5 => "--[[  c d ]]".into(),
        6 => "--[==[ ]] ]=] ]==]".into(),
        7 => {
            if o.newlines {
                "--[[l1\n  l2\n]]".into()
            } else {
                "--[[]]".into()
            }
        }
        8 => {
            if uni {
                "-- комментарий 'é'\n".into()
            } else {
                "--[[c2]]".into()
            }
        }
        _ => {
            if o.backslash_long {
                "--[[c:\\]]".into()
            } else {
                "--[ x\n".into()
            }
        }
    }
}

pub fn trivia(r: &mut Rng, o: &GenOpts, a: &str, b: &str) -> String {
    let mut s = String::new();
    let n = *r.pick(&[0, 1, 1, 1, 1, 1, 2, 3]);
    let n = if r.chance(1, 40) { 8 } else { n };
    for _ in 0..n {
        match r.below(if o.comments { 12 } else { 9 }) {
            0..=4 => s.push(' '),
            5 => s.push_str("  "),
            6 => s.push('\t'),
            7 => s.push_str(if o.newlines { "\n" } else { " " }),
            8 => s.push_str(if o.newlines { " \n\n  " } else { " " }),
            _ => {
                if s.is_empty() && !a.is_empty() && (needs_space(a, "--") || a == "-" && !o.neg_comment) {
                    s.push(' ');
                }
                if a == "-" && !o.neg_comment {
                    continue;
                }
                s.push_str(&comment(r, o))
            }
        }
    }
    if s.is_empty() && needs_space(a, b) {
        s.push(' ');
    }
    s
}

pub struct Program {
    pub src: String,
    /// char offsets (start, end) of the top-level statements
    pub stats: Vec<(usize, usize)>,
}

pub fn program(r: &mut Rng, o: &GenOpts) -> Program {
    let n = if o.small { 1 + r.below(2) } else { r.below(6) };
    let long = r.chance(1, 60);
    let n = if long { *r.pick(&[9, 17, 33, 40, 65]) } else { n };
    let mut toks: Vec<String> = Vec::new();
    let mut bounds = Vec::new();
    let mut can_paren = true;
    for k in 0..n {
        if o.markers && k > 0 {
            let a = toks.len();
            toks.extend(["mk_0_t", "(", ")"].iter().map(|x| x.to_string()));
            bounds.push((a, toks.len()));
            can_paren = false;
        }
        let mut g = G { r, o: o.clone(), t: Vec::new(), budget: if long { 2 } else { 25 } };
        can_paren = g.stat(0, can_paren);
        let a = toks.len();
        toks.append(&mut g.t);
        bounds.push((a, toks.len()));
    }
    if r.chance(1, 4) {
        let mut g = G { r, o: o.clone(), t: Vec::new(), budget: 15 };
        g.ret(0);
        let a = toks.len();
        toks.append(&mut g.t);
        bounds.push((a, toks.len()));
    }
    let mut src = String::new();
    let mut count = 0usize;
    let mut starts = Vec::new();
    let mut ends = Vec::new();
    let push = |src: &mut String, count: &mut usize, s: &str| {
        src.push_str(s);
        *count += s.chars().count();
    };
    if r.chance(1, 12) {
        push(&mut src, &mut count, "#!/usr/bin/lua -x\n");
    }
    let mut prev = String::new();
    for t in &toks {
        let tr = trivia(r, o, &prev, t);
        push(&mut src, &mut count, &tr);
        starts.push(count);
        push(&mut src, &mut count, t);
        ends.push(count);
        prev = t.clone();
    }
    let mut tr = trivia(r, o, &prev, "");
    if o.eof_comment && r.chance(1, 6) {
        if tr.is_empty() && needs_space(&prev, "--") {
            tr.push(' ');
        }
        tr.push_str(["-- last", "--", "--[", "--[==", "--[[z]]"][r.below(5)]);
    }
    push(&mut src, &mut count, &tr);
    Program { src, stats: bounds.iter().map(|&(a, b)| (starts[a], ends[b - 1])).collect() }
}
