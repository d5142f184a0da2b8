// ---- trusted models of the standard library, as far as the writers use it
#[derive(Debug)] pub struct FErr;
#[verifier::external_body] pub struct CellB { x: bool }
impl CellB {
    #[verifier::external_body] pub fn get(&self) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn set(&self, b: bool) { unimplemented!() }
}
pub trait VEq { spec fn veqs(&self, o: &Self) -> bool; }
#[verifier::external_body] pub fn veq<T: VEq>(a: &T, b: &T) -> (r: bool) ensures r == a.veqs(b) { unimplemented!() }
impl VEq for Option<bool> { open spec fn veqs(&self, o: &Self) -> bool { *self == *o } }
impl VEq for Option<usize> { open spec fn veqs(&self, o: &Self) -> bool { *self == *o } }
impl VEq for Option<char> { open spec fn veqs(&self, o: &Self) -> bool { *self == *o } }
impl VEq for Option<String> { open spec fn veqs(&self, o: &Self) -> bool { match (*self, *o) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false } } }
impl VEq for Result<bool, FErr> { open spec fn veqs(&self, o: &Self) -> bool { match (*self, *o) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false } } }
/// equality of two indentation labels (string equality)
pub open spec fn lab_eq(a: Option<&'static str>, b: Option<&'static str>) -> bool { match (a, b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false } }
impl VEq for Option<&Option<&'static str>> { open spec fn veqs(&self, o: &Self) -> bool { match (*self, *o) { (Some(a), Some(b)) => lab_eq(*a, *b), (None, None) => true, _ => false } } }
#[verifier::external_body] pub fn opaque_string() -> String { String::new() }

/// bytes of one character in UTF-8, and of the first k characters of a text
pub uninterp spec fn clen(c: char) -> nat;
pub open spec fn boff(s: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else { boff(s, k - 1) + clen(s[k - 1]) } }

pub open spec fn rep(s: Seq<char>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { rep(s, n - 1) + s } }
pub trait Cnt { spec fn n(&self) -> int; }
impl Cnt for usize { open spec fn n(&self) -> int { *self as int } }
impl Cnt for isize { open spec fn n(&self) -> int { *self as int } }
#[verifier::external_body] pub fn rep_str<N: Cnt>(s: &str, n: N) -> (r: String) ensures r@ == rep(s@, n.n()) { unimplemented!() }

pub trait Disp { spec fn d(&self) -> Seq<char>; }
impl Disp for str { open spec fn d(&self) -> Seq<char> { self@ } }
impl Disp for String { open spec fn d(&self) -> Seq<char> { self@ } }
impl<T: Disp + ?Sized> Disp for &T { open spec fn d(&self) -> Seq<char> { (**self).d() } }
#[verifier::external_body] pub fn app_str(f: &mut String, s: &str) ensures final(f)@ == old(f)@ + s@ { unimplemented!() }
#[verifier::external_body] pub fn app_disp<T: Disp + ?Sized>(f: &mut String, x: &T) ensures final(f)@ == old(f)@ + x.d() { unimplemented!() }

/// `&s[a..b]`: panics unless a and b lie on character boundaries, a <= b
#[verifier::external_body] pub fn str_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
//@if C15
    requires exists|i: int, j: int| 0 <= i <= j <= s@.len() && a == #[trigger] boff(s@, i) && b == #[trigger] boff(s@, j)
//@fi
    ensures forall|i: int, j: int| 0 <= i <= j <= s@.len() && a == #[trigger] boff(s@, i) && b == #[trigger] boff(s@, j) ==> r@ == s@.subrange(i, j)
{ unimplemented!() }
#[verifier::external_body] pub fn str_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
//@if C15
    requires exists|i: int| 0 <= i <= s@.len() && a == #[trigger] boff(s@, i)
//@fi
    ensures forall|i: int| 0 <= i <= s@.len() && a == #[trigger] boff(s@, i) ==> r@ == s@.subrange(i, s@.len() as int)
{ unimplemented!() }
#[verifier::external_body] pub fn str_full<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@ { unimplemented!() }

/// a sequence of characters still to come
#[verifier::external_body] pub struct VChars { x: u8 }
pub open spec fn last_of(s: Seq<char>) -> Option<char> { if s.len() > 0 { Some(s.last()) } else { None } }
impl VChars {
    pub uninterp spec fn v(&self) -> Seq<char>;
    #[verifier::external_body] pub fn last(self) -> (r: Option<char>) ensures r == last_of(self.v()) { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>)
        ensures old(self).v().len() == 0 ==> r is None && final(self).v() == old(self).v(),
            old(self).v().len() > 0 ==> r == Some(old(self).v()[0]) && final(self).v() == old(self).v().skip(1) { unimplemented!() }
    #[verifier::external_body] pub fn rev(self) -> (r: VChars) ensures r.v() == self.v().reverse() { unimplemented!() }
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self.v().len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body] pub fn take_while<F: Fn(&char) -> bool>(self, f: F) -> (r: VChars)
        requires forall|c: char| call_requires(f, (&c,))
        ensures r.v().len() <= self.v().len(), r.v() == self.v().take(r.v().len() as int),
            forall|i: int| 0 <= i < r.v().len() ==> call_ensures(f, (&#[trigger] self.v()[i],), true),
            r.v().len() < self.v().len() ==> call_ensures(f, (&self.v()[r.v().len() as int],), false) { unimplemented!() }
}
/// a pattern as std's str methods take it: a character, a text or a test on characters.
/// Each function says which answers are possible.
pub trait Pat: Sized {
    spec fn pre(&self) -> bool;
    spec fn sw(&self, s: Seq<char>, r: bool) -> bool;
    spec fn ew(&self, s: Seq<char>, r: bool) -> bool;
    spec fn has(&self, s: Seq<char>, r: bool) -> bool;
    /// the text after removing as many matches as possible at the start, at the end
    spec fn tsm(&self, s: Seq<char>, r: Seq<char>) -> bool;
    spec fn tem(&self, s: Seq<char>, r: Seq<char>) -> bool;
}
pub open spec fn is_tail(s: Seq<char>, r: Seq<char>) -> bool { r.len() <= s.len() && r == s.skip(s.len() - r.len()) }
pub open spec fn is_head(s: Seq<char>, r: Seq<char>) -> bool { r.len() <= s.len() && r == s.take(r.len() as int) }
impl Pat for char {
    open spec fn pre(&self) -> bool { true }
    open spec fn sw(&self, s: Seq<char>, r: bool) -> bool { r == (s.len() > 0 && s[0] == *self) }
    open spec fn ew(&self, s: Seq<char>, r: bool) -> bool { r == (s.len() > 0 && s.last() == *self) }
    open spec fn has(&self, s: Seq<char>, r: bool) -> bool { r == s.contains(*self) }
    open spec fn tsm(&self, s: Seq<char>, r: Seq<char>) -> bool { is_tail(s, r) && (forall|i: int| 0 <= i < s.len() - r.len() ==> #[trigger] s[i] == *self) && (r.len() > 0 ==> r[0] != *self) }
    open spec fn tem(&self, s: Seq<char>, r: Seq<char>) -> bool { is_head(s, r) && (forall|i: int| r.len() <= i < s.len() ==> #[trigger] s[i] == *self) && (r.len() > 0 ==> r.last() != *self) }
}
impl Pat for &str {
    open spec fn pre(&self) -> bool { true }
    open spec fn sw(&self, s: Seq<char>, r: bool) -> bool { r == is_head(s, self@) }
    open spec fn ew(&self, s: Seq<char>, r: bool) -> bool { r == is_tail(s, self@) }
    open spec fn has(&self, s: Seq<char>, r: bool) -> bool { r == exists|i: int| 0 <= i <= i + self@.len() <= s.len() && #[trigger] s.subrange(i, i + self@.len()) == self@ }
    open spec fn tsm(&self, s: Seq<char>, r: Seq<char>) -> bool { is_tail(s, r) }
    open spec fn tem(&self, s: Seq<char>, r: Seq<char>) -> bool { is_head(s, r) }
}
impl<F: Fn(char) -> bool> Pat for F {
    open spec fn pre(&self) -> bool { forall|c: char| call_requires(*self, (c,)) }
    open spec fn sw(&self, s: Seq<char>, r: bool) -> bool { if s.len() > 0 { call_ensures(*self, (s[0],), r) } else { !r } }
    open spec fn ew(&self, s: Seq<char>, r: bool) -> bool { if s.len() > 0 { call_ensures(*self, (s.last(),), r) } else { !r } }
    open spec fn has(&self, s: Seq<char>, r: bool) -> bool { if r { exists|i: int| 0 <= i < s.len() && call_ensures(*self, (#[trigger] s[i],), true) } else { forall|i: int| 0 <= i < s.len() ==> call_ensures(*self, (#[trigger] s[i],), false) } }
    open spec fn tsm(&self, s: Seq<char>, r: Seq<char>) -> bool { is_tail(s, r) && (forall|i: int| 0 <= i < s.len() - r.len() ==> call_ensures(*self, (#[trigger] s[i],), true)) && (r.len() > 0 ==> call_ensures(*self, (r[0],), false)) }
    open spec fn tem(&self, s: Seq<char>, r: Seq<char>) -> bool { is_head(s, r) && (forall|i: int| r.len() <= i < s.len() ==> call_ensures(*self, (#[trigger] s[i],), true)) && (r.len() > 0 ==> call_ensures(*self, (r.last(),), false)) }
}
pub trait StrX {
    spec fn sv(&self) -> Seq<char>;
    fn c_sw<P: Pat>(&self, p: P) -> (r: bool) requires p.pre() ensures p.sw(self.sv(), r);
    fn c_ew<P: Pat>(&self, p: P) -> (r: bool) requires p.pre() ensures p.ew(self.sv(), r);
    fn c_has<P: Pat>(&self, p: P) -> (r: bool) requires p.pre() ensures p.has(self.sv(), r);
    fn c_find<P: Pat>(&self, p: P) -> (r: Option<usize>) requires p.pre() ensures p.has(self.sv(), r is Some);
    fn v_trim_em<'a, P: Pat>(&'a self, p: P) -> (r: &'a str) requires p.pre() ensures p.tem(self.sv(), r@);
    fn v_trim_sm<'a, P: Pat>(&'a self, p: P) -> (r: &'a str) requires p.pre() ensures p.tsm(self.sv(), r@);
    fn v_chars(&self) -> (r: VChars) ensures r.v() == self.sv();
    fn v_len(&self) -> (r: usize) ensures r == boff(self.sv(), self.sv().len() as int);
    fn v_empty(&self) -> (r: bool) ensures r == (self.sv().len() == 0);
    fn v_trim<'a>(&'a self) -> (r: &'a str) ensures r@ == trim_both(self.sv());
    fn v_trim_start<'a>(&'a self) -> (r: &'a str) ensures r@ == trim_l(self.sv());
    fn v_trim_end<'a>(&'a self) -> (r: &'a str) ensures r@ == trim_r(self.sv());
    fn c_ref<'a>(&'a self) -> (r: &'a str) ensures r@ == self.sv();
}
pub uninterp spec fn trim_l(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trim_r(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trim_both(s: Seq<char>) -> Seq<char>;
impl StrX for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn c_sw<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_ew<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_has<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_find<P: Pat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_trim_em<'a, P: Pat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_sm<'a, P: Pat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VChars) { unimplemented!() }
    #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_trim<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn c_ref<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
}
impl StrX for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn c_sw<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_ew<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_has<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_find<P: Pat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_trim_em<'a, P: Pat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_sm<'a, P: Pat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VChars) { unimplemented!() }
    #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_trim<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn c_ref<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
}
pub trait PopX { type E; spec fn pv(&self) -> Seq<Self::E>; fn v_pop(&mut self) -> (r: Option<Self::E>)
    ensures old(self).pv().len() == 0 ==> r is None && final(self).pv() == old(self).pv(),
        old(self).pv().len() > 0 ==> r == Some(old(self).pv().last()) && final(self).pv() == old(self).pv().drop_last(); }
impl PopX for String { type E = char; open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_pop(&mut self) -> (r: Option<char>) { unimplemented!() } }
impl<T> PopX for Vec<T> { type E = T; open spec fn pv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_pop(&mut self) -> (r: Option<T>) { unimplemented!() } }
#[verifier::external_body] pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { unimplemented!() }
pub trait Num: Sized { spec fn m(&self) -> int; spec fn fits(v: int) -> bool; }
impl Num for usize { open spec fn m(&self) -> int { *self as int } open spec fn fits(v: int) -> bool { 0 <= v <= usize::MAX } }
/// isize counts how deep constructs nest; the stack is exhausted long before it overflows
impl Num for isize { open spec fn m(&self) -> int { *self as int } open spec fn fits(v: int) -> bool { true } }
/// arithmetic; overflow is the subject of C15
#[verifier::external_body] pub fn m_add<T: Num>(a: T, b: T) -> (r: T)
//@if C15
    requires T::fits(a.m() + b.m())
//@fi
    ensures r.m() == a.m() + b.m() { unimplemented!() }
#[verifier::external_body] pub fn m_sub<T: Num>(a: T, b: T) -> (r: T)
//@if C15
    requires T::fits(a.m() - b.m())
//@fi
    ensures r.m() == a.m() - b.m() { unimplemented!() }
#[verifier::external_body] pub fn m_mul<T: Num>(a: T, b: T) -> (r: T)
//@if C15
    requires T::fits(a.m() * b.m())
//@fi
    ensures r.m() == a.m() * b.m() { unimplemented!() }
pub type WR = Result<(), FErr>;
#[verifier::external_body] fn raw_str(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@ { unimplemented!() }
#[verifier::external_body] fn raw_disp<T: Disp + ?Sized>(f: &mut String, x: &T) -> (r: WR) ensures final(f)@ == old(f)@ + x.d() { unimplemented!() }
#[verifier::external_body] pub fn unreached_<T>() -> (r: T) requires false { unimplemented!() }
