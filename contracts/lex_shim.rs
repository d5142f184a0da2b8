global size_of usize == 8;
/// `Peekable<Enumerate<Chars>>` over a text: `src` is the text, `pos` the index of the next character
#[verifier::external_body] pub struct TChars<'a> { x: std::iter::Peekable<std::iter::Enumerate<std::str::Chars<'a>>> }
pub open spec fn MAXLEN() -> int { 0x7fff_ffff_ffff_ffff }
impl<'a> TChars<'a> {
    pub uninterp spec fn src(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn ok(&self) -> bool { 0 <= self.pos() <= self.src().len() <= MAXLEN() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&(usize, char)>)
        requires old(self).ok()
        ensures final(self).src() == old(self).src(), final(self).pos() == old(self).pos(),
            match r { Some(x) => old(self).pos() < old(self).src().len() && x.0 == old(self).pos() && x.1 == old(self).src()[old(self).pos()], None => old(self).pos() == old(self).src().len() } { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        requires old(self).ok()
        ensures final(self).src() == old(self).src(),
            match r { Some(x) => final(self).pos() == old(self).pos() + 1 && old(self).pos() < old(self).src().len() && x.0 == old(self).pos() && x.1 == old(self).src()[old(self).pos()], None => final(self).pos() == old(self).pos() && old(self).pos() == old(self).src().len() } { unimplemented!() }
}
#[verifier::external_body] pub struct SChars<'a> { x: std::str::Chars<'a> }
#[verifier::external_body] pub struct SEnum<'a> { x: std::str::Chars<'a> }
pub trait CharsX { fn s_chars<'a>(&'a self) -> (r: SChars<'a>) ensures r.v() == self.cv(), self.cv().len() <= MAXLEN(); spec fn cv(&self) -> Seq<char>; }
impl CharsX for str { open spec fn cv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn s_chars<'a>(&'a self) -> (r: SChars<'a>) { unimplemented!() } }
impl CharsX for String { open spec fn cv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn s_chars<'a>(&'a self) -> (r: SChars<'a>) { unimplemented!() } }
impl<'a> SChars<'a> {
    pub uninterp spec fn v(&self) -> Seq<char>;
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self.v().len() { unimplemented!() }
    #[verifier::external_body] pub fn enumerate(self) -> (r: SEnum<'a>) ensures r.v() == self.v() { unimplemented!() }
}
impl<'a> SEnum<'a> {
    pub uninterp spec fn v(&self) -> Seq<char>;
    #[verifier::external_body] pub fn peekable(self) -> (r: TChars<'a>) ensures r.src() == self.v(), r.pos() == 0 { unimplemented!() }
}
pub open spec fn sp_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn sp_alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub trait CharX: Sized {
    spec fn cd(self) -> bool;
    spec fn ca(self) -> bool;
    spec fn cn(self) -> bool;
    spec fn cx(self) -> bool;
    #[verifier::when_used_as_spec(cd)] fn c_digit(self) -> (r: bool) ensures r == self.cd();
    #[verifier::when_used_as_spec(ca)] fn c_alpha(self) -> (r: bool) ensures r == self.ca();
    #[verifier::when_used_as_spec(cn)] fn c_alnum(self) -> (r: bool) ensures r == self.cn();
    #[verifier::when_used_as_spec(cx)] fn c_hex(self) -> (r: bool) ensures r == self.cx();
}
impl CharX for char {
    open spec fn cd(self) -> bool { sp_digit(self) }
    open spec fn ca(self) -> bool { sp_alpha(self) }
    open spec fn cn(self) -> bool { sp_digit(self) || sp_alpha(self) }
    open spec fn cx(self) -> bool { sp_digit(self) || ('a' <= self && self <= 'f') || ('A' <= self && self <= 'F') }
    #[verifier::external_body] fn c_digit(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_alpha(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_alnum(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn c_hex(self) -> (r: bool) { unimplemented!() }
}
/// insertion at a byte offset below which every character takes one byte
pub open spec fn ascii_to(s: Seq<char>, k: int) -> bool { 0 <= k <= s.len() && forall|i: int| 0 <= i < k ==> (#[trigger] s[i]) < '\u{80}' }
pub trait InsX {
    spec fn iv(&self) -> Seq<char>;
    fn v_insert(&mut self, k: usize, c: char) requires ascii_to(old(self).iv(), k as int) ensures final(self).iv() == old(self).iv().insert(k as int, c);
    fn v_insert_str(&mut self, k: usize, s: &str) requires ascii_to(old(self).iv(), k as int) ensures final(self).iv() == old(self).iv().take(k as int) + s@ + old(self).iv().skip(k as int);
}
impl InsX for String {
    open spec fn iv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_insert(&mut self, k: usize, c: char) { unimplemented!() }
    #[verifier::external_body] fn v_insert_str(&mut self, k: usize, s: &str) { unimplemented!() }
}
pub open spec fn rep(s: Seq<char>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { rep(s, n - 1) + s } }
pub trait Cnt { spec fn n(&self) -> int; }
impl Cnt for usize { open spec fn n(&self) -> int { *self as int } }
impl Cnt for isize { open spec fn n(&self) -> int { *self as int } }
#[verifier::external_body] pub fn rep_str<N: Cnt>(s: &str, n: N) -> (r: String) ensures r@ == rep(s@, n.n()) { unimplemented!() }
#[verifier::external_body] pub fn str_full<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
