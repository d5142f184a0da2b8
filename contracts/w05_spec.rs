// ---- what the writers promise under a line range: vocabulary
pub enum SepKind { fields, comma, dot }
pub open spec fn long_str(level: int, s: Seq<char>) -> Seq<char> {
    "["@ + rep("="@, level) + "["@ + s + "]"@ + rep("="@, level) + "]"@
}
/// white space and comments, which the token in front does not swallow (defined in c16_lua.rs)
pub uninterp spec fn trivia(s: Seq<char>, a: int, b: int) -> bool;
//@include wf_gap.rs
//@include wf.rs
//@include w_idx.rs
//@include w05_claim.rs
/// what f2 leaves of f: all of it, but for blanks at its end
pub open spec fn anch(f: Seq<char>, n: int) -> bool { 0 < n <= f.len() && !blank(f[n - 1]) }
#[verifier::opaque] pub open spec fn keeps(f: Seq<char>, f2: Seq<char>) -> bool {
    forall|n: int| #[trigger] anch(f, n) ==> n <= f2.len() && f.take(n) == f2.take(n)
}
pub proof fn keeps_refl(f: Seq<char>) ensures keeps(f, f) { reveal(keeps); }
pub proof fn keeps_trans(f: Seq<char>, g: Seq<char>, h: Seq<char>) requires keeps(f, g), keeps(g, h) ensures keeps(f, h)
{ reveal(keeps); assert forall|n: int| #[trigger] anch(f, n) implies n <= h.len() && f.take(n) == h.take(n) by { assert(f[n - 1] == f.take(n)[n - 1]); assert(g[n - 1] == g.take(n)[n - 1]); assert(anch(g, n)); } }
pub broadcast proof fn keeps_app(g: Seq<char>, f: Seq<char>, t: Seq<char>) requires #[trigger] keeps(g, f) ensures keeps(g, #[trigger] (f + t))
{ assert(keeps(f, f + t)) by { reveal(keeps); assert forall|n: int| #[trigger] anch(f, n) implies f.take(n) == (f + t).take(n) by { assert(f.take(n) =~= (f + t).take(n)); } } keeps_trans(g, f, f + t); }
pub broadcast proof fn keeps_pop(g: Seq<char>, f: Seq<char>) requires #[trigger] keeps(g, f), f.len() > 0, blank(f.last()) ensures keeps(g, #[trigger] f.drop_last())
{ let h = f.drop_last(); assert(keeps(f, h)) by { reveal(keeps); assert forall|n: int| #[trigger] anch(f, n) implies n <= h.len() && f.take(n) == h.take(n) by { assert(f.take(n) =~= h.take(n)); } } keeps_trans(g, f, h); }
/// all that is written after it keeps what is there
pub open spec fn kall(f: Seq<char>, f2: Seq<char>) -> bool { forall|g: Seq<char>| #[trigger] keeps(g, f) ==> keeps(g, f2) }

#[verifier::opaque] pub open spec fn V(f: Seq<char>, k: K, i: int, m: bool) -> bool {
    exists|e: Seq<(int, int)>| #[trigger] Ve(f, k, i, m, e) && (i > 0 && outi(k, i - 1) ==> if m { outg(k, i) ==> f.subrange(e[i - 1].1, f.len() as int) == lsub(k.v[i].0, k.s) } else { e[i - 1].1 == f.len() })
}
pub proof fn keeps_sub(f: Seq<char>, f2: Seq<char>, a: int, b: int, n: int) requires keeps(f, f2), 0 <= a <= b <= n <= f.len(), n > 0, !blank(f[n - 1]) ensures n <= f2.len(), f2.subrange(a, b) == f.subrange(a, b)
{ reveal(keeps); assert(anch(f, n)); assert(f.take(n) == f2.take(n)); assert(f2.subrange(a, b) =~= f2.take(n).subrange(a, b)); assert(f.subrange(a, b) =~= f.take(n).subrange(a, b)); }
pub proof fn Ve_keep(f: Seq<char>, f2: Seq<char>, k: K, i: int, m: bool, e: Seq<(int, int)>) requires Ve(f, k, i, m, e), keeps(f, f2), 0 <= i <= k.v.len() ensures Ve(f2, k, i, m, e)
{
    assert forall|j: int| 0 <= j < i && outi(k, j) implies 0 <= (#[trigger] e[j]).0 <= e[j].1 <= f2.len() && f2.subrange(e[j].0, e[j].1) == isub(k.s, sp(k.v[j].1)) by {
        let t = isub(k.s, sp(k.v[j].1)); assert(f.subrange(e[j].0, e[j].1).len() == t.len()); assert(t.last() == f[e[j].1 - 1]); keeps_sub(f, f2, e[j].0, e[j].1, e[j].1); }
    assert forall|j: int| 1 <= j < i && outi(k, j - 1) && outi(k, j) && outg(k, j) implies f2.subrange(e[j - 1].1, (#[trigger] e[j]).0) == lsub(k.v[j].0, k.s) by {
        let t = isub(k.s, sp(k.v[j].1)); assert(f.subrange(e[j].0, e[j].1).len() == t.len()); assert(t.last() == f[e[j].1 - 1]); assert(e[j - 1].1 <= e[j].0); assert(0 <= e[j - 1].0); keeps_sub(f, f2, e[j - 1].1, e[j].0, e[j].1); }
}
pub broadcast proof fn V_refl(f: Seq<char>, k: K, i: int, m: bool) ensures #[trigger] V(f, k, i, m) ==> keeps(f, f) { keeps_refl(f); }
pub proof fn V_start(f: Seq<char>, k: K) ensures V(f, k, 0, false) { reveal(V); assert(Ve(f, k, 0, false, Seq::empty())); }
pub broadcast proof fn V_gap(f: Seq<char>, f2: Seq<char>, k: K, i: int) requires #[trigger] V(f, k, i, false), #[trigger] keeps(f, f2), 0 <= i < k.v.len(), i > 0 && outg(k, i) ==> f2 == f + lsub(k.v[i].0, k.s) ensures V(f2, k, i, true)
{ reveal(V); let e = choose|e: Seq<(int, int)>| #[trigger] Ve(f, k, i, false, e) && (i > 0 && outi(k, i - 1) ==> e[i - 1].1 == f.len()); Ve_keep(f, f2, k, i, false, e); assert(Ve(f2, k, i, true, e));
  if i > 0 && outi(k, i - 1) && outg(k, i) { assert(f2.subrange(e[i - 1].1, f2.len() as int) =~= lsub(k.v[i].0, k.s)); } }
pub broadcast proof fn V_item(f: Seq<char>, f2: Seq<char>, k: K, i: int) requires #[trigger] V(f, k, i, true), #[trigger] keeps(f, f2), 0 <= i < k.v.len(), outi(k, i) ==> f2 == f + isub(k.s, sp(k.v[i].1)) ensures V(f2, k, i + 1, false)
{ reveal(V); let e = choose|e: Seq<(int, int)>| #[trigger] Ve(f, k, i, true, e) && (i > 0 && outi(k, i - 1) && outg(k, i) ==> f.subrange(e[i - 1].1, f.len() as int) == lsub(k.v[i].0, k.s)); Ve_keep(f, f2, k, i, true, e);
  let e2 = e.push((f.len() as int, f2.len() as int));
  assert forall|j: int| 0 <= j < i + 1 && outi(k, j) implies 0 <= (#[trigger] e2[j]).0 <= e2[j].1 <= f2.len() && f2.subrange(e2[j].0, e2[j].1) == isub(k.s, sp(k.v[j].1)) by { if j < i { assert(e2[j] == e[j]); } else { assert(f2.subrange(e2[j].0, e2[j].1) =~= isub(k.s, sp(k.v[j].1))); } }
  assert forall|j: int, l: int| 0 <= j < l < i + 1 && outi(k, j) && outi(k, l) implies (#[trigger] e2[j]).1 <= (#[trigger] e2[l]).0 by { assert(e2[j] == e[j]); if l < i { assert(e2[l] == e[l]); } else { assert(0 <= e[j].0); } }
  assert forall|j: int| 1 <= j < i + 1 && outi(k, j - 1) && outi(k, j) && outg(k, j) implies f2.subrange(e2[j - 1].1, (#[trigger] e2[j]).0) == lsub(k.v[j].0, k.s) by { assert(e2[j - 1] == e[j - 1]); if j < i { assert(e2[j] == e[j]); } else { assert(0 <= e[j - 1].0); assert(f2.subrange(e[i - 1].1, f.len() as int) =~= f.subrange(e[i - 1].1, f.len() as int)); } }
  assert(Ve(f2, k, i + 1, false, e2)); }
pub broadcast proof fn V_done(f: Seq<char>, k: K) requires #[trigger] V(f, k, k.v.len() as int, false) ensures listed(f, k)
{ reveal(V); let e = choose|e: Seq<(int, int)>| #[trigger] Ve(f, k, k.v.len() as int, false, e) && (k.v.len() > 0 && outi(k, k.v.len() - 1) ==> e[k.v.len() - 1].1 == f.len()); assert(Ve(f, k, k.v.len() as int, false, e)); }
pub broadcast proof fn listed_keep(f: Seq<char>, f2: Seq<char>, k: K) requires #[trigger] listed(f, k), #[trigger] keeps(f, f2) ensures listed(f2, k)
{ let e = choose|e: Seq<(int, int)>| #[trigger] Ve(f, k, k.v.len() as int, false, e); Ve_keep(f, f2, k, k.v.len() as int, false, e); }
pub proof fn wf_le(n: Node, s: Seq<char>) requires wfp(n, s) ensures 0 <= sp(n).0 <= sp(n).1 <= s.len() { }
pub proof fn whole_ord(v: Vec<(Loc, Node)>, s: Seq<char>, a: int, j: int, l: int) requires wfps(v, s, v@.len() as int, a), 0 <= j < l <= v@.len() ensures sp(v@[j].1).1 <= lend(v@, l, a), l < v@.len() ==> sp(v@[j].1).1 <= v@[l].0.0 <= sp(v@[l].1).0 decreases l
{ if l < v@.len() { pget(v, s, v@.len() as int, a, l); } if j < l - 1 { whole_ord(v, s, a, j, l - 1); pget(v, s, v@.len() as int, a, l - 1); wf_le(v@[l - 1].1, s); } }
pub proof fn whole_at(v: Vec<(Loc, Node)>, s: Seq<char>, a: int, j: int) requires wfps(v, s, v@.len() as int, a), 0 <= j < v@.len() ensures a <= v@[j].0.0 <= v@[j].0.1 == sp(v@[j].1).0 <= sp(v@[j].1).1 <= s.len() decreases j
{ pget(v, s, v@.len() as int, a, j); wf_le(v@[j].1, s); if j > 0 { whole_at(v, s, a, j - 1); } }
pub proof fn whole_end(v: Vec<(Loc, Node)>, s: Seq<char>, a: int, j: int) requires wfps(v, s, v@.len() as int, a), 0 <= j < v@.len() ensures sp(v@[j].1).1 <= lend(v@, v@.len() as int, a)
{ whole_ord(v, s, a, j, v@.len() as int); }
/// a list that is written as it stands
pub proof fn listed_whole(f: Seq<char>, k: K, v: Vec<(Loc, Node)>, a: int, b: int) requires k.v == v@, 0 <= a <= b <= k.s.len(), wfps(v, k.s, v@.len() as int, a), b == lend(v@, v@.len() as int, a) ensures listed(f + k.s.subrange(a, b), k)
{
    let t = k.s.subrange(a, b); let f2 = f + t; let d = f.len() - a;
    let e = Seq::new(v@.len(), |i: int| (d + sp(v@[i].1).0, d + sp(v@[i].1).1));
    assert forall|j: int| 0 <= j < v@.len() && outi(k, j) implies 0 <= (#[trigger] e[j]).0 <= e[j].1 <= f2.len() && f2.subrange(e[j].0, e[j].1) == isub(k.s, sp(k.v[j].1)) by { whole_at(v, k.s, a, j); whole_end(v, k.s, a, j); assert(f2.subrange(e[j].0, e[j].1) =~= isub(k.s, sp(k.v[j].1))); }
    assert forall|j: int, l: int| 0 <= j < l < v@.len() && outi(k, j) && outi(k, l) implies (#[trigger] e[j]).1 <= (#[trigger] e[l]).0 by { whole_ord(v, k.s, a, j, l); }
    assert forall|j: int| 1 <= j < v@.len() && outi(k, j - 1) && outi(k, j) && outg(k, j) implies f2.subrange(e[j - 1].1, (#[trigger] e[j]).0) == lsub(k.v[j].0, k.s) by {
        whole_at(v, k.s, a, j); whole_end(v, k.s, a, j); whole_at(v, k.s, a, j - 1); pget(v, k.s, v@.len() as int, a, j); assert(f2.subrange(e[j - 1].1, e[j].0) =~= lsub(k.v[j].0, k.s)); }
    assert(Ve(f2, k, k.v.len() as int, false, e));
}

pub broadcast proof fn body_keep(f: Seq<char>, f2: Seq<char>, n: Node, s: Seq<char>, r: Option<(usize, usize)>) requires #[trigger] body(f, n, s, r), #[trigger] keeps(f, f2) ensures body(f2, n, s, r) decreases n
{ match n { Node::StatementList(_, v) => listed_keep(f, f2, kof(s, v, r)), Node::StatsRetStat(_, _, a, b) => { body_keep(f, f2, *a, s, r); alone_keep(f, f2, *b, s, r); } _ => alone_keep(f, f2, n, s, r) } }
pub proof fn alone_keep(f: Seq<char>, f2: Seq<char>, n: Node, s: Seq<char>, r: Option<(usize, usize)>) requires alone(f, n, s, r), keeps(f, f2) ensures alone(f2, n, s, r)
{ let p = sp(n); if verb(n) && 0 <= p.0 < p.1 <= s.len() && !blank(s[p.1 - 1]) && ooi(r, p.0, p.1) { let (a, b) = choose|a: int, b: int| 0 <= a <= b <= f.len() && #[trigger] f.subrange(a, b) == isub(s, p); let t = isub(s, p); assert(f.subrange(a, b).len() == t.len()); assert(t.last() == f[b - 1]); keeps_sub(f, f2, a, b, b); } }
pub open spec fn sp_items(n: Node) -> Option<Vec<(Loc, Node)>> {
    match n { Node::StatementList(_, v) | Node::VarSuffixList(_, v) | Node::ElseIfThenVec(_, v) => Some(v), _ => None }
}
pub open spec fn st_same(a: State, b: State) -> bool { a.chars_to_bytes@ == b.chars_to_bytes@ && a.pos_range == b.pos_range }
pub open spec fn idx(a: State, s: Seq<char>) -> bool { idx_at(a.chars_to_bytes@, 0, s) }
pub broadcast proof fn body_of(f: Seq<char>, f2: Seq<char>, n: Node, s: Seq<char>, r: Option<(usize, usize)>) requires #[trigger] wrote(f, f2, n, s, r), wfp(n, s) ensures body(f2, n, s, r), alone(f2, n, s, r)
{ let p = sp(n); if verb(n) && 0 <= p.0 < p.1 <= s.len() && ooi(r, p.0, p.1) { assert(f2.subrange(f.len() as int, f2.len() as int) =~= isub(s, p)); } }
/// one way of writing is as good as another, here
pub fn w_lit(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@, kall(old(f)@, final(f)@) { broadcast use keeps_app; raw_str(f, s) }
pub fn w_ws(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@, kall(old(f)@, final(f)@) { broadcast use keeps_app; raw_str(f, s) }
pub fn w_disp<T: Disp + ?Sized>(f: &mut String, x: &T) -> (r: WR) ensures final(f)@ == old(f)@ + x.d(), kall(old(f)@, final(f)@) { broadcast use keeps_app; raw_disp(f, x) }
pub proof fn list_lits() ensures ""@ == Seq::<char>::empty()
{ reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
pub broadcast proof fn app_none(f: Seq<char>, t: Seq<char>) requires t.len() == 0 ensures #[trigger] (f + t) == f { assert(f + t =~= f); }
pub open spec fn list_ok(n: Node, s: Seq<char>) -> bool { n matches Node::StatementList(_, v) && wfp(n, s) }
pub proof fn item_ok(n: Node, s: Seq<char>, i: int) requires list_ok(n, s), 0 <= i < n->StatementList_1@.len() ensures wfp(n->StatementList_1@[i].1, s), lvalid(n->StatementList_1@[i].0, s)
{ let v = n->StatementList_1; pget(v, s, v@.len() as int, sp(n).0, i); whole_at(v, s, sp(n).0, i); wf_le(v@[i].1, s); }
pub proof fn body_ret(n: Node, s: Seq<char>, r: Option<(usize, usize)>) requires n is StatsRetStat ensures forall|f: Seq<char>| #[trigger] body(f, n, s, r) == (body(f, *n->StatsRetStat_2, s, r) && alone(f, *n->StatsRetStat_3, s, r)) { }
pub proof fn body_list(n: Node, s: Seq<char>, r: Option<(usize, usize)>) requires n is StatementList ensures forall|f: Seq<char>| #[trigger] body(f, n, s, r) == listed(f, kof(s, n->StatementList_1, r)) { }
/// what is written as it stands holds its statements
pub proof fn body_in(f: Seq<char>, n: Node, s: Seq<char>, r: Option<(usize, usize)>, a: int, b: int) requires wfp(n, s), 0 <= a <= sp(n).0, sp(n).1 <= b <= s.len() ensures body(f + s.subrange(a, b), n, s, r), alone(f + s.subrange(a, b), n, s, r) decreases n
{ wf_le(n, s); let p = sp(n); let f1 = f + s.subrange(a, p.0); let f2 = f1 + isub(s, p); let f3 = f2 + s.subrange(p.1, b); assert(f + s.subrange(a, b) =~= f3); keeps_refl(f2); keeps_app(f2, f2, s.subrange(p.1, b));
  assert(f3.subrange(f1.len() as int, f2.len() as int) =~= isub(s, p));
  match n {
    Node::StatementList(l, v) => { listed_whole(f1, kof(s, v, r), v, l.0 as int, l.1 as int); listed_keep(f2, f3, kof(s, v, r)); }
    Node::StatsRetStat(l, g, x, y) => { wf_le(*x, s); wf_le(*y, s); body_in(f, *x, s, r, a, b); body_in(f, *y, s, r, a, b); }
    _ => {} } }
pub broadcast proof fn tailk(f: Seq<char>, n: Node, s: Seq<char>, r: Option<(usize, usize)>) ensures #[trigger] body(f, n, s, r) ==> keeps(f, f) { keeps_refl(f); }
