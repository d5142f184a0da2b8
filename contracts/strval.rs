// the value of the text between the quotes of a short string of Lua, and the conversion of quotes
pub open spec fn in_class(c: char, k: int) -> bool {
    if k == 0 { '0' <= c && c <= '9' }
    else if k == 1 { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
    else { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{b}' || c == '\u{c}' }
}
/// how many characters of class k the text starts with, at most `max` (negative: any number)
pub open spec fn cnt(t: Seq<char>, k: int, max: int) -> int decreases t.len() {
    if t.len() == 0 || max == 0 || !in_class(t[0], k) { 0 } else { 1 + cnt(t.skip(1), k, max - 1) }
}
/// how many characters after `\c` belong to the escape sequence: `\ddd`, `\xXX`, `\z`, `\u{XXX}`
pub open spec fn esc_len(c: char, t: Seq<char>) -> int {
    if in_class(c, 0) { cnt(t, 0, 2) } else if c == 'x' { cnt(t, 1, 2) } else if c == 'z' { cnt(t, 2, -1) }
    else if c == 'u' && t.len() > 0 && t[0] == '{' { let n = 1 + cnt(t.skip(1), 1, -1); if n < t.len() && t[n] == '}' { n + 1 } else { n } }
    else { 0 }
}
/// the bytes of a numeric escape, and of one the language does not define
pub uninterp spec fn num_val(c: char, t: Seq<char>) -> Seq<char>;
pub open spec fn esc_val(c: char, t: Seq<char>) -> Seq<char> {
    if c == '"' || c == '\'' || c == '\\' || c == '\n' { seq![c] } else if c == 'n' { seq!['\n'] } else if c == 't' { seq!['\t'] } else if c == 'r' { seq!['\r'] }
    else if c == 'a' { seq!['\u{7}'] } else if c == 'b' { seq!['\u{8}'] } else if c == 'f' { seq!['\u{c}'] } else if c == 'v' { seq!['\u{b}'] } else if c == 'z' { Seq::empty() }
    else { num_val(c, t) }
}
pub open spec fn value(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s[0] != '\\' { seq![s[0]] + value(s.skip(1)) } else if s.len() == 1 { seq!['\\'] }
    else { let n = esc_len(s[1], s.skip(2)); if 0 <= n <= s.len() - 2 { esc_val(s[1], s.skip(2).take(n)) + value(s.skip(2).skip(n)) } else { Seq::empty() } }
}
/// an unescaped double quote occurs (e: the first character is escaped)
pub open spec fn bare(s: Seq<char>, e: bool) -> bool decreases s.len() { s.len() > 0 && ((s[0] == '"' && !e) || bare(s.skip(1), !e && s[0] == '\\')) }
/// what follows the text is escaped
pub open spec fn esc_end(s: Seq<char>, e: bool) -> bool decreases s.len() { if s.len() == 0 { e } else { esc_end(s.skip(1), !e && s[0] == '\\') } }
/// y between double quotes is a literal of the same value as x between single quotes
pub open spec fn converted(x: Seq<char>, y: Seq<char>) -> bool { value(y) == value(x) && !bare(y, false) && esc_end(y, false) == esc_end(x, false) }

/// the conversion
pub open spec fn cv(s: Seq<char>, e: bool) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { (if s[0] == '"' && !e { seq!['\\', '"'] } else { seq![s[0]] }) + cv(s.skip(1), !e && s[0] == '\\') }
}
pub proof fn lem_delim(s: Seq<char>, e: bool) ensures !bare(cv(s, e), e), esc_end(cv(s, e), e) == esc_end(s, e) decreases s.len()
{
    if s.len() > 0 {
        let r = cv(s.skip(1), !e && s[0] == '\\');
        lem_delim(s.skip(1), !e && s[0] == '\\');
        let c = cv(s, e);
        if s[0] == '"' && !e {
            assert(c.skip(1).skip(1) =~= r); assert(c.skip(1)[0] == '"');
            assert(bare(c, e) == bare(c.skip(1), true)); assert(bare(c.skip(1), true) == bare(r, false));
            assert(esc_end(c, e) == esc_end(c.skip(1), true)); assert(esc_end(c.skip(1), true) == esc_end(r, false));
        } else { assert(c.skip(1) =~= r); }
    }
}
pub open spec fn plain(t: Seq<char>, n: int) -> bool { 0 <= n <= t.len() && forall|i: int| 0 <= i < n ==> (#[trigger] t[i]) != '"' && t[i] != '\\' }
pub proof fn lem_plain(t: Seq<char>, n: int) requires plain(t, n) ensures cv(t, false) == t.take(n) + cv(t.skip(n), false) decreases n
{
    if n == 0 { assert(t.skip(0) =~= t); assert(cv(t, false) =~= t.take(0) + cv(t, false)); }
    else {
        assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] t.skip(1)[i]) != '"' && t.skip(1)[i] != '\\' by { assert(t.skip(1)[i] == t[i + 1]); }
        assert(t[0] != '"' && t[0] != '\\');
        lem_plain(t.skip(1), n - 1);
        assert(t.skip(1).skip(n - 1) =~= t.skip(n)); assert(seq![t[0]] + t.skip(1).take(n - 1) =~= t.take(n));
        assert(cv(t, false) == seq![t[0]] + cv(t.skip(1), false));
        assert(cv(t, false) =~= t.take(n) + cv(t.skip(n), false));
    }
}
/// the first character after the conversion of a text that is not empty
pub proof fn lem_head(t: Seq<char>) requires t.len() > 0 ensures cv(t, false).len() > 0, cv(t, false)[0] == (if t[0] == '"' { '\\' } else { t[0] }) {}
pub proof fn lem_cnt(t: Seq<char>, k: int, max: int)
    ensures plain(t, cnt(t, k, max)), cnt(cv(t, false), k, max) == cnt(t, k, max) decreases t.len()
{
    if t.len() > 0 {
        lem_head(t);
        if max != 0 && in_class(t[0], k) {
            lem_cnt(t.skip(1), k, max - 1);
            let n = cnt(t.skip(1), k, max - 1);
            assert forall|i: int| 0 <= i < n + 1 implies (#[trigger] t[i]) != '"' && t[i] != '\\' by { if i > 0 { assert(t[i] == t.skip(1)[i - 1]); } }
            assert(cv(t, false).skip(1) =~= cv(t.skip(1), false));
        }
    }
}
pub proof fn lem_esc_len(c: char, t: Seq<char>)
    ensures plain(t, esc_len(c, t)), esc_len(c, cv(t, false)) == esc_len(c, t)
{
    lem_cnt(t, 0, 2); lem_cnt(t, 1, 2); lem_cnt(t, 2, -1);
    if t.len() > 0 { lem_head(t); }
    if c == 'u' && t.len() > 0 && t[0] == '{' {
        let u = t.skip(1); let m = cnt(u, 1, -1);
        lem_cnt(u, 1, -1); lem_plain(u, m);
        assert(cv(t, false) == seq![t[0]] + cv(u, false)); assert(cv(t, false).skip(1) =~= cv(u, false));
        assert forall|i: int| 0 <= i < m + 1 implies (#[trigger] t[i]) != '"' && t[i] != '\\' by { if i > 0 { assert(t[i] == u[i - 1]); } }
        assert(cv(t, false).len() > 1 + m <==> cv(u.skip(m), false).len() > 0);
        if u.skip(m).len() > 0 { lem_head(u.skip(m)); assert(u.skip(m)[0] == t[1 + m]); assert(cv(t, false)[1 + m] == cv(u.skip(m), false)[0]); }
    }
}
pub proof fn lem_value(s: Seq<char>) ensures value(cv(s, false)) == value(s) decreases s.len()
{
    let c = cv(s, false);
    if s.len() > 0 {
        if s[0] == '"' {
            lem_value(s.skip(1));
            let r = cv(s.skip(1), false);
            assert(c == seq!['\\', '"'] + r); assert(c.skip(2) =~= r); assert(esc_len('"', r) == 0);
            assert(c.skip(2).skip(0) =~= r); assert(esc_val('"', c.skip(2).take(0)) == seq!['"']);
        } else if s[0] != '\\' {
            lem_value(s.skip(1));
            assert(c == seq![s[0]] + cv(s.skip(1), false)); assert(c.skip(1) =~= cv(s.skip(1), false));
        } else if s.len() > 1 {
            let u = s.skip(1); let t = s.skip(2);
            assert(u.skip(1) =~= t); assert(u[0] == s[1]);
            assert(cv(u, true) == seq![u[0]] + cv(t, false));
            assert(c == seq!['\\'] + cv(u, true));
            assert(c[0] == '\\' && c[1] == s[1]); assert(c.skip(2) =~= cv(t, false));
            let n = esc_len(s[1], t);
            lem_esc_len(s[1], t); lem_plain(t, n); lem_value(t.skip(n));
            assert(cv(t, false).take(n) =~= t.take(n)); assert(cv(t, false).skip(n) =~= cv(t.skip(n), false));
        } else {
            assert(s.skip(1).len() == 0); assert(cv(s.skip(1), true) == Seq::<char>::empty()); assert(c =~= seq!['\\']); assert(s =~= c);
        }
    }
}
pub proof fn lem_converted(s: Seq<char>) ensures converted(s, cv(s, false)) { lem_value(s); lem_delim(s, false); }
/// one step of the conversion: what is written for the next character
pub proof fn lem_conv_step(r: Seq<char>, v: Seq<char>, e: bool)
    ensures v.len() > 0 && v[0] == '"' && !e ==> r + cv(v, e) == r.push('\\').push('"') + cv(v.skip(1), false),
        v.len() > 0 && !(v[0] == '"' && !e) ==> r + cv(v, e) == r.push(v[0]) + cv(v.skip(1), !e && v[0] == '\\'),
        v.len() == 0 ==> r + cv(v, e) == r,
{
    if v.len() == 0 { assert(r + cv(v, e) =~= r); }
    else if v[0] == '"' && !e { assert(r + cv(v, e) =~= r.push('\\').push('"') + cv(v.skip(1), false)); }
    else { assert(r + cv(v, e) =~= r.push(v[0]) + cv(v.skip(1), !e && v[0] == '\\')); }
}
