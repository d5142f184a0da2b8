// ---- std: iterators over the characters of a text with their places, HashMap::entry
/// items still to come
#[verifier::external_body] #[verifier::reject_recursive_types(X)] pub struct Itr<X> { x: core::marker::PhantomData<X> }
impl<X> Itr<X> {
    pub uninterp spec fn v(&self) -> Seq<X>;
    #[verifier::external_body] pub fn nxt(&mut self) -> (r: Option<X>)
        ensures match r { Some(c) => old(self).v().len() > 0 && c == old(self).v()[0] && final(self).v() == old(self).v().skip(1), None => old(self).v().len() == 0 && final(self).v() == old(self).v() } { unimplemented!() }
    #[verifier::external_body] pub fn enumerate(self) -> (r: Itr<(usize, X)>) ensures r.v() == self.v().map(|i: int, x: X| (i as usize, x)) { unimplemented!() }
    #[verifier::external_body] pub fn filter<F: Fn(&X) -> bool>(self, f: F) -> (r: Itr<X>)
        requires forall|x: X| #[trigger] call_requires(f, (&x,)) ensures forall|p: spec_fn(X) -> bool| (forall|x: X, b: bool| #[trigger] call_ensures(f, (&x,), b) ==> b == p(x)) ==> r.v() == #[trigger] self.v().filter(p) { unimplemented!() }
    #[verifier::external_body] pub fn map<Y, F: Fn(X) -> Y>(self, f: F) -> (r: Itr<Y>)
        requires forall|x: X| #[trigger] call_requires(f, (x,)) ensures r.v().len() == self.v().len(), forall|i: int| 0 <= i < r.v().len() ==> call_ensures(f, (self.v()[i],), #[trigger] r.v()[i]) { unimplemented!() }
    #[verifier::external_body] pub fn collect(self) -> (r: Vec<X>) ensures r@ == self.v() { unimplemented!() }
}
/// the characters with their places
pub open spec fn enumd(s: Seq<char>) -> Seq<(usize, char)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
impl VChars { #[verifier::external_body] pub fn enumerate(self) -> (r: Itr<(usize, char)>) ensures r.v() == enumd(self.v()) { unimplemented!() } }
pub trait ItX { type O; spec fn same_as(&self, o: Self::O) -> bool; fn to_it(self) -> (r: Self::O) ensures self.same_as(r); }
impl ItX for VChars { type O = VChars; open spec fn same_as(&self, o: VChars) -> bool { *self == o } fn to_it(self) -> VChars { self } }
impl<X> ItX for Itr<X> { type O = Itr<X>; open spec fn same_as(&self, o: Itr<X>) -> bool { *self == o } fn to_it(self) -> Itr<X> { self } }
pub fn into_it<I: ItX>(x: I) -> (r: I::O) ensures x.same_as(r) { x.to_it() }
/// a text is not longer than memory
pub open spec fn blen_ok(s: Seq<char>) -> bool { s.len() < usize::MAX && forall|k: int| 0 <= k <= s.len() ==> 0 <= #[trigger] boff(s, k) <= usize::MAX }
#[verifier::external_body] pub fn blen_max(s: &str) ensures blen_ok(s@) { }
pub open spec fn ci0(s: Seq<char>) -> Seq<(usize, char)> { Seq::new(s.len(), |i: int| (boff(s, i) as usize, s[i])) }
pub open spec fn ci(s: Seq<char>) -> Seq<(usize, (usize, char))> { ci0(s).map(|i: int, x: (usize, char)| (i as usize, x)) }
pub proof fn ci_at(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures k < s.len() ==> ci(s).skip(k).len() > 0 && ci(s).skip(k)[0] == (k as usize, (boff(s, k) as usize, s[k])) && ci(s).skip(k).skip(1) == ci(s).skip(k + 1)
{ if k < s.len() { assert(ci(s).skip(k).skip(1) =~= ci(s).skip(k + 1)); } }
pub trait CharIdx { spec fn cs(&self) -> Seq<char>; fn v_char_indices(&self) -> (r: Itr<(usize, char)>) ensures r.v() == ci0(self.cs()); }
impl CharIdx for str { open spec fn cs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_char_indices(&self) -> (r: Itr<(usize, char)>) { unimplemented!() } }
impl CharIdx for String { open spec fn cs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_char_indices(&self) -> (r: Itr<(usize, char)>) { unimplemented!() } }
#[verifier::external_body] pub fn map_or_insert(m: &mut HashMap<usize, usize>, k: usize, v: usize)
    ensures final(m)@ == (if old(m)@.dom().contains(k) { old(m)@ } else { old(m)@.insert(k, v) }) { unimplemented!() }
