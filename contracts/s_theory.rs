// ---- the theory of "text s is the item sequence P, interleaved with white space"
pub uninterp spec fn other_ws(c: char) -> bool;
pub open spec fn ws_ch(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || other_ws(c) }
pub open spec fn is_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> ws_ch(#[trigger] s[i]) }
pub open spec fn trimmed_ch(c: char) -> bool { c == ' ' || c == '\t' }
/// a text that white-space trimming of spaces and tabs cannot shorten
pub open spec fn solid(t: Seq<char>) -> bool { t.len() > 0 && !trimmed_ch(t.last()) }
pub open spec fn no_nl(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' }
/// a comment: two dashes and either the rest of one line, or something that closes with a bracket
pub open spec fn is_cmt(c: Seq<char>) -> bool {
    &&& c.len() >= 3 && c[0] == '-' && c[1] == '-'
    &&& (c.last() == '\n' && no_nl(c.drop_last())) || (c[2] == '[' && c.last() == ']')
}
pub enum It { T(Seq<char>), O(Seq<char>), C(Seq<char>) }
/// T: exactly this text; O: this text, or nothing at all; C: this comment
pub open spec fn text_ok(it: It, t: Seq<char>) -> bool {
    match it {
        It::T(x) => t == x && solid(x),
        It::O(alt) => t.len() == 0 || (t == alt && solid(alt)),
        It::C(x) => t == x && is_cmt(x),
    }
}
pub open spec fn mk(i: int, j: int) -> bool { true }
pub open spec fn dec(s: Seq<char>, p: Seq<It>) -> bool decreases p.len() {
    if p.len() == 0 { is_ws(s) } else {
        exists|i: int, j: int| #[trigger] mk(i, j) && 0 <= i <= j <= s.len()
            && dec(s.subrange(0, i), p.drop_last())
            && text_ok(p.last(), s.subrange(i, j))
            && is_ws(s.subrange(j, s.len() as int))
    }
}
pub open spec fn cut(s: Seq<char>, p: Seq<It>, i: int, j: int) -> bool {
    &&& 0 <= i <= j <= s.len()
    &&& dec(s.subrange(0, i), p.drop_last())
    &&& text_ok(p.last(), s.subrange(i, j))
    &&& is_ws(s.subrange(j, s.len() as int))
}
pub proof fn dec_elim(s: Seq<char>, p: Seq<It>) -> (r: (int, int))
    requires dec(s, p), p.len() > 0
    ensures cut(s, p, r.0, r.1)
{
    choose|i: int, j: int| #[trigger] mk(i, j) && 0 <= i <= j <= s.len()
            && dec(s.subrange(0, i), p.drop_last())
            && text_ok(p.last(), s.subrange(i, j))
            && is_ws(s.subrange(j, s.len() as int))
}
pub proof fn dec_intro(s: Seq<char>, p: Seq<It>, i: int, j: int)
    requires p.len() > 0, cut(s, p, i, j)
    ensures dec(s, p)
{ assert(mk(i, j)); }
pub proof fn lem_text_end(it: It, t: Seq<char>)
    requires text_ok(it, t)
    ensures t.len() > 0 ==> !trimmed_ch(t.last())
{ }
pub proof fn lem_dec_ws(s: Seq<char>, w: Seq<char>, p: Seq<It>)
    requires dec(s, p), is_ws(w)
    ensures dec(s + w, p)
{
    let t = s + w;
    if p.len() == 0 {
        assert forall|i: int| 0 <= i < t.len() implies ws_ch(#[trigger] t[i]) by { if i < s.len() { assert(t[i] == s[i]); } else { assert(t[i] == w[i - s.len()]); } }
    } else {
        let (i, j) = dec_elim(s, p);
        assert(t.subrange(0, i) =~= s.subrange(0, i));
        assert(t.subrange(i, j) =~= s.subrange(i, j));
        let a = s.subrange(j, s.len() as int);
        let b = t.subrange(j, t.len() as int);
        assert(b =~= a + w);
        assert forall|k: int| 0 <= k < b.len() implies ws_ch(#[trigger] b[k]) by { if k < a.len() { assert(b[k] == a[k]); } else { assert(b[k] == w[k - a.len()]); } }
        dec_intro(t, p, i, j);
    }
}
pub proof fn lem_dec_push(s: Seq<char>, t: Seq<char>, p: Seq<It>, it: It)
    requires dec(s, p), text_ok(it, t)
    ensures dec(s + t, p.push(it))
{
    let u = s + t;
    let q = p.push(it);
    let i = s.len() as int;
    let j = u.len() as int;
    assert(q.drop_last() =~= p);
    assert(u.subrange(0, i) =~= s);
    assert(u.subrange(i, j) =~= t);
    assert(is_ws(u.subrange(j, j)));
    dec_intro(u, q, i, j);
}
pub proof fn lem_dec_trim(s: Seq<char>, p: Seq<It>)
    requires dec(s, p), s.len() > 0, trimmed_ch(s.last())
    ensures dec(s.drop_last(), p)
    decreases p.len()
{
    let t = s.drop_last();
    if p.len() == 0 {
        assert forall|i: int| 0 <= i < t.len() implies ws_ch(#[trigger] t[i]) by { assert(t[i] == s[i]); }
    } else {
        let (i, j) = dec_elim(s, p);
        let x = s.subrange(i, j);
        lem_text_end(p.last(), x);
        if j < s.len() {
            assert(t.subrange(0, i) =~= s.subrange(0, i));
            assert(t.subrange(i, j) =~= x);
            let a = s.subrange(j, s.len() as int);
            let b = t.subrange(j, t.len() as int);
            assert forall|k: int| 0 <= k < b.len() implies ws_ch(#[trigger] b[k]) by { assert(b[k] == a[k]); }
            dec_intro(t, p, i, j);
        } else {
            if i < j { assert(x.last() == s.last()); assert(false); }
            assert(s.subrange(0, i) =~= s);
            lem_dec_trim(s, p.drop_last());
            let m = t.len() as int;
            assert(t.subrange(0, m) =~= t);
            assert(t.subrange(m, m) =~= x);
            assert(is_ws(t.subrange(m, m)));
            dec_intro(t, p, m, m);
        }
    }
}
pub proof fn lem_dec_cat(s: Seq<char>, t: Seq<char>, p: Seq<It>, q: Seq<It>)
    requires dec(s, p), dec(t, q)
    ensures dec(s + t, p + q)
    decreases q.len()
{
    if q.len() == 0 {
        assert(p + q =~= p);
        lem_dec_ws(s, t, p);
    } else {
        let (i, j) = dec_elim(t, q);
        let t1 = t.subrange(0, i);
        let x = t.subrange(i, j);
        let w = t.subrange(j, t.len() as int);
        lem_dec_cat(s, t1, p, q.drop_last());
        lem_dec_push(s + t1, x, p + q.drop_last(), q.last());
        assert((p + q.drop_last()).push(q.last()) =~= p + q);
        lem_dec_ws(s + t1 + x, w, p + q);
        assert(s + t1 + x + w =~= s + t);
    }
}

// ---- accumulators: what a piece of output amounts to; Bad stands for "no claim"
pub enum Acc { Bad, Ok(Seq<It>) }
pub open spec fn e0() -> Acc { Acc::Ok(Seq::empty()) }
pub open spec fn push(a: Acc, it: It) -> Acc { match a { Acc::Ok(p) => Acc::Ok(p.push(it)), Acc::Bad => Acc::Bad } }
pub closed spec fn push_t(a: Acc, t: Seq<char>) -> Acc { if solid(t) { push(a, It::T(t)) } else { Acc::Bad } }
pub closed spec fn push_o(a: Acc, alt: Seq<char>) -> Acc { if alt.len() == 0 || solid(alt) { push(a, It::O(alt)) } else { Acc::Bad } }
pub closed spec fn push_c(a: Acc, c: Seq<char>) -> Acc { if is_cmt(c) { push(a, It::C(c)) } else { Acc::Bad } }
pub closed spec fn cat(a: Acc, b: Acc) -> Acc {
    match (a, b) { (Acc::Ok(p), Acc::Ok(q)) => Acc::Ok(p + q), _ => Acc::Bad }
}
pub closed spec fn r0(s: Seq<char>, a: Acc) -> bool { match a { Acc::Bad => true, Acc::Ok(p) => dec(s, p) } }
//@if C01
/// comments forgotten
pub open spec fn er(p: Seq<It>) -> Seq<It> { p.filter(|it: It| !(it is C)) }
pub open spec fn eqa(a: Acc, q: Seq<It>) -> bool { match a { Acc::Bad => true, Acc::Ok(p) => er(q) == p } }
/// s holds the items of a and, besides, nothing but white space and comments
pub closed spec fn R(s: Seq<char>, a: Acc) -> bool { a is Bad || exists|q: Seq<It>| #[trigger] dec(s, q) && eqa(a, q) }
proof fn lem_er_push(q: Seq<It>, it: It) ensures er(q.push(it)) == (if it is C { er(q) } else { er(q).push(it) }) {
    let f = |it: It| !(it is C);
    reveal(Seq::filter);
    assert(q.push(it).drop_last() =~= q);
}
proof fn lem_er_cat(p: Seq<It>, q: Seq<It>) ensures er(p + q) == er(p) + er(q) {
    let f = |it: It| !(it is C);
    Seq::filter_distributes_over_add(p, q, f);
}
//@fi
//@if !C01
pub closed spec fn R(s: Seq<char>, a: Acc) -> bool { r0(s, a) }
//@fi

pub proof fn lem_R_empty() ensures R(Seq::empty(), e0()) {
    assert(dec(Seq::empty(), Seq::empty()));
//@if C01
    reveal(Seq::filter);
    assert(er(Seq::empty()) =~= Seq::empty());
//@fi
}
pub proof fn lem_R_ws(s: Seq<char>, w: Seq<char>, a: Acc)
    requires R(s, a), is_ws(w) ensures R(s + w, a)
{
    if a is Ok {
//@if C01
        let q = choose|q: Seq<It>| #[trigger] dec(s, q) && eqa(a, q);
        lem_dec_ws(s, w, q);
//@fi
//@if !C01
        lem_dec_ws(s, w, a->Ok_0);
//@fi
    }
}
proof fn lem_R_push(s: Seq<char>, t: Seq<char>, a: Acc, it: It)
    requires R(s, a), text_ok(it, t), !(it is C) ensures R(s + t, push(a, it))
{
    if a is Ok {
//@if C01
        let q = choose|q: Seq<It>| #[trigger] dec(s, q) && eqa(a, q);
        lem_dec_push(s, t, q, it);
        lem_er_push(q, it);
        assert(dec(s + t, q.push(it)));
//@fi
//@if !C01
        lem_dec_push(s, t, a->Ok_0, it);
//@fi
    }
}
pub proof fn lem_R_t(s: Seq<char>, t: Seq<char>, a: Acc) requires R(s, a) ensures R(s + t, push_t(a, t)) {
    if solid(t) { lem_R_push(s, t, a, It::T(t)); }
}
pub proof fn lem_R_o(s: Seq<char>, t: Seq<char>, a: Acc, alt: Seq<char>)
    requires R(s, a), t.len() == 0 || t == alt
    ensures R(s + t, push_o(a, alt))
{ if alt.len() == 0 || solid(alt) { lem_R_push(s, t, a, It::O(alt)); } }
pub proof fn lem_R_c(s: Seq<char>, t: Seq<char>, a: Acc) requires R(s, a),
//@if C01
    is_cmt(t) ensures R(s + t, a)
//@fi
//@if !C01
    ensures R(s + t, push_c(a, t))
//@fi
{
//@if C01
    if a is Ok {
        let q = choose|q: Seq<It>| #[trigger] dec(s, q) && eqa(a, q);
        lem_dec_push(s, t, q, It::C(t));
        lem_er_push(q, It::C(t));
        assert(dec(s + t, q.push(It::C(t))));
    }
//@fi
//@if !C01
    if a is Ok && is_cmt(t) { lem_dec_push(s, t, a->Ok_0, It::C(t)); }
//@fi
}
pub proof fn lem_R_trim(s: Seq<char>, a: Acc)
    requires R(s, a), s.len() > 0, trimmed_ch(s.last()) ensures R(s.drop_last(), a)
{
    if a is Ok {
//@if C01
        let q = choose|q: Seq<It>| #[trigger] dec(s, q) && eqa(a, q);
        lem_dec_trim(s, q);
//@fi
//@if !C01
        lem_dec_trim(s, a->Ok_0);
//@fi
    }
}
pub proof fn lem_R_cat(s: Seq<char>, t: Seq<char>, a: Acc, b: Acc)
    requires R(s, a), R(t, b) ensures R(s + t, cat(a, b))
{
    if a is Ok && b is Ok {
//@if C01
        let p = choose|q: Seq<It>| #[trigger] dec(s, q) && eqa(a, q);
        let q = choose|q: Seq<It>| #[trigger] dec(t, q) && eqa(b, q);
        lem_dec_cat(s, t, p, q);
        lem_er_cat(p, q);
        assert(dec(s + t, p + q));
//@fi
//@if !C01
        lem_dec_cat(s, t, a->Ok_0, b->Ok_0);
//@fi
    }
}
// algebra of cat
pub proof fn cat_push_t(a: Acc, b: Acc, t: Seq<char>) ensures push_t(cat(a, b), t) == cat(a, push_t(b, t)) {
    if a is Ok && b is Ok { assert((a->Ok_0 + b->Ok_0).push(It::T(t)) =~= a->Ok_0 + b->Ok_0.push(It::T(t))); }
}
pub proof fn cat_push_o(a: Acc, b: Acc, alt: Seq<char>) ensures push_o(cat(a, b), alt) == cat(a, push_o(b, alt)) {
    if a is Ok && b is Ok { assert((a->Ok_0 + b->Ok_0).push(It::O(alt)) =~= a->Ok_0 + b->Ok_0.push(It::O(alt))); }
}
pub proof fn cat_push_c(a: Acc, b: Acc, t: Seq<char>) ensures push_c(cat(a, b), t) == cat(a, push_c(b, t)) {
    if a is Ok && b is Ok { assert((a->Ok_0 + b->Ok_0).push(It::C(t)) =~= a->Ok_0 + b->Ok_0.push(It::C(t))); }
}
pub proof fn cat_e0(a: Acc) ensures cat(a, e0()) == a, cat(e0(), a) == a {
    if a is Ok { assert(a->Ok_0 + Seq::empty() =~= a->Ok_0); assert(Seq::empty() + a->Ok_0 =~= a->Ok_0); }
}
pub proof fn cat_assoc(a: Acc, b: Acc, c: Acc) ensures cat(cat(a, b), c) == cat(a, cat(b, c)) {
    if a is Ok && b is Ok && c is Ok { assert((a->Ok_0 + b->Ok_0) + c->Ok_0 =~= a->Ok_0 + (b->Ok_0 + c->Ok_0)); }
}
/// dropping spaces and tabs from the end
pub proof fn lem_R_trim_n(s: Seq<char>, n: int, a: Acc)
    requires R(s, a), 0 <= n <= s.len(), forall|i: int| n <= i < s.len() ==> trimmed_ch(#[trigger] s[i])
    ensures R(s.take(n), a)
    decreases s.len() - n
{
    if n == s.len() { assert(s.take(n) =~= s); } else {
        lem_R_trim(s, a);
        let t = s.drop_last();
        assert forall|i: int| n <= i < t.len() implies trimmed_ch(#[trigger] t[i]) by { assert(t[i] == s[i]); }
        lem_R_trim_n(t, n, a);
        assert(t.take(n) =~= s.take(n));
    }
}
pub broadcast proof fn cat_bad(a: Acc) ensures #[trigger] cat(a, Acc::Bad) == Acc::Bad { }
pub broadcast proof fn R_bad(s: Seq<char>) ensures #[trigger] R(s, Acc::Bad) { }
pub broadcast group acc_facts { cat_bad, R_bad }
