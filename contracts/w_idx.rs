pub open spec fn mkk(k: int) -> bool { true }
/// map gives, from entry `off` on, the byte offsets of the characters of s
pub open spec fn idx_at(map: Map<usize, usize>, off: int, s: Seq<char>) -> bool {
    ||| s.len() == 0 && !map.dom().contains(off as usize)
    ||| forall|k: int| #[trigger] mkk(k) && 0 <= k <= s.len() ==> 0 <= off + k <= usize::MAX && map.dom().contains((off + k) as usize) && map[(off + k) as usize] == map[off as usize] + boff(s, k)
}
pub open spec fn lvalid(l: Loc, s: Seq<char>) -> bool { 0 <= l.0 <= l.1 <= s.len() }
pub open spec fn lsub(l: Loc, s: Seq<char>) -> Seq<char> { s.subrange(l.0 as int, l.1 as int) }
pub proof fn lem_idx_sub(map: Map<usize, usize>, s: Seq<char>, l: int, r: int)
    requires idx_at(map, 0, s), 0 <= l <= r <= s.len()
    ensures idx_at(map, l, s.subrange(l, r))
{
    let t = s.subrange(l, r);
    if s.len() == 0 && !map.dom().contains(0usize) { } else {
        assert(mkk(l) && mkk(0));
        assert forall|k: int| #[trigger] mkk(k) && 0 <= k <= t.len() implies 0 <= l + k <= usize::MAX && map.dom().contains((l + k) as usize) && map[(l + k) as usize] == map[l as usize] + boff(t, k) by {
            assert(mkk(l + k));
            lem_boff_sub(s, l, r, k);
        }
    }
}
pub broadcast proof fn lem_boff_pos(s: Seq<char>, k: int) ensures #[trigger] boff(s, k) >= 0 decreases k { if k > 0 { lem_boff_pos(s, k - 1); } }
pub proof fn lem_boff_sub(s: Seq<char>, l: int, r: int, k: int)
    requires 0 <= l <= r <= s.len(), 0 <= k <= r - l
    ensures boff(s, l + k) == boff(s, l) + boff(s.subrange(l, r), k)
    decreases k
{ if k > 0 { lem_boff_sub(s, l, r, k - 1); } }
