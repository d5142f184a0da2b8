// ---- the exception: the white space of a table without fields
pub open spec fn sp_tab(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn has_nlc(s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == '\n' }
/// blanks at the end replaced by a line end
pub open spec fn norm(g: Seq<char>, h: Seq<char>) -> bool { exists|n: int| #[trigger] norm_at(g, h, n) }
pub open spec fn norm_at(g: Seq<char>, h: Seq<char>, n: int) -> bool { 0 <= n <= g.len() && (forall|i: int| n <= i < g.len() ==> sp_tab(#[trigger] g[i])) && (h == g.take(n) || h == g.take(n) + "\n"@) }
pub open spec fn piece(p: (Seq<char>, Seq<char>)) -> bool {
    p.0 == p.1 || exists|g: Seq<char>, h: Seq<char>| p.0 == "{"@ + g + "}"@ && p.1 == "{"@ + h + "}"@ && has_nlc(g) && #[trigger] norm(g, h)
}
pub open spec fn cat1(v: Seq<(Seq<char>, Seq<char>)>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { cat1(v.drop_last()) + v.last().0 } }
pub open spec fn cat2(v: Seq<(Seq<char>, Seq<char>)>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { cat2(v.drop_last()) + v.last().1 } }
pub open spec fn pieces(v: Seq<(Seq<char>, Seq<char>)>, x: Seq<char>, y: Seq<char>) -> bool { (forall|i: int| 0 <= i < v.len() ==> piece(#[trigger] v[i])) && x == cat1(v) && y == cat2(v) }
/// y is x, the white space of empty tables aside
pub open spec fn eqv(x: Seq<char>, y: Seq<char>) -> bool { exists|v: Seq<(Seq<char>, Seq<char>)>| pieces(v, x, y) }
pub proof fn eqv_push(x: Seq<char>, y: Seq<char>, a: Seq<char>, b: Seq<char>) requires eqv(x, y), piece((a, b)) ensures eqv(x + a, y + b)
{ let v = choose|v: Seq<(Seq<char>, Seq<char>)>| pieces(v, x, y); let w = v.push((a, b)); assert(w.drop_last() == v); 
  assert forall|i: int| 0 <= i < w.len() implies piece(#[trigger] w[i]) by { if i < v.len() { assert(w[i] == v[i]); } }
  assert(pieces(w, x + a, y + b)); }
pub proof fn eqv_empty() ensures eqv(Seq::empty(), Seq::empty()) { assert(pieces(Seq::empty(), Seq::empty(), Seq::empty())); }

// ---- written so far
/// o was there, then came s from a on
pub struct K { pub o: Seq<char>, pub s: Seq<char>, pub a: int }
pub open spec fn same_end(f: Seq<char>, s: Seq<char>, p: int) -> bool { f.len() == 0 || p >= s.len() || (p > 0 && f.last() == s[p - 1]) }
/// the text f is what was there and what s holds from a to p
#[verifier::opaque] pub open spec fn T(f: Seq<char>, k: K, p: int) -> bool {
    0 <= k.a <= p <= k.s.len() && same_end(f, k.s, p) && exists|y: Seq<char>| #[trigger] eqv(k.s.subrange(k.a, p), y) && (f == k.o + y || (p == k.s.len() && line_end(k.s) && f == k.o + y + "\n"@))
}
pub proof fn T_start(o: Seq<char>, s: Seq<char>, a: int) requires 0 <= a <= s.len(), same_end(o, s, a) ensures T(o, K { o, s, a }, a)
{ reveal(T); eqv_empty(); assert(s.subrange(a, a) =~= Seq::empty()); assert(o + Seq::<char>::empty() =~= o); }
pub proof fn T_start0(k: K) requires k.o.len() == 0, k.a == 0 ensures T(k.o, k, 0) { T_start(k.o, k.s, 0); }
