// C07: Config::set
use vstd::prelude::*;
verus! {
//@modules crate parser fmt std
//@methods parse=parse_sh
//@include std_shim.rs
//@type src/config.rs FormatOpts
//@type src/config.rs Config

// ---- trusted models of the standard library and the regex crate
pub struct PErr {}
pub uninterp spec fn p_usize(s: Seq<char>) -> Option<usize>;
pub open spec fn p_bool(s: Seq<char>) -> Option<bool> {
    if s == "true"@ { Some(true) } else if s == "false"@ { Some(false) } else { None }
}
pub trait FromS: Sized {
    spec fn p(s: Seq<char>, r: Result<Self, PErr>) -> bool;
    fn from_s(s: &str) -> (r: Result<Self, PErr>) ensures Self::p(s@, r);
}
impl FromS for usize {
    open spec fn p(s: Seq<char>, r: Result<Self, PErr>) -> bool { match p_usize(s) { Some(v) => r == Ok::<usize, PErr>(v), None => r is Err } }
    #[verifier::external_body] fn from_s(s: &str) -> (r: Result<Self, PErr>) { unimplemented!() }
}
impl FromS for bool {
    open spec fn p(s: Seq<char>, r: Result<Self, PErr>) -> bool { match p_bool(s) { Some(v) => r == Ok::<bool, PErr>(v), None => r is Err } }
    #[verifier::external_body] fn from_s(s: &str) -> (r: Result<Self, PErr>) { unimplemented!() }
}
impl FromS for String {
    open spec fn p(s: Seq<char>, r: Result<Self, PErr>) -> bool { r matches Ok(v) && v@ == s }
    #[verifier::external_body] fn from_s(s: &str) -> (r: Result<Self, PErr>) { unimplemented!() }
}
pub trait StrParse { fn parse_sh<T: FromS>(&self) -> (r: Result<T, PErr>) ensures T::p(self.pv(), r); spec fn pv(&self) -> Seq<char>; }
impl StrParse for str {
    open spec fn pv(&self) -> Seq<char> { self@ }
    fn parse_sh<T: FromS>(&self) -> (r: Result<T, PErr>) { T::from_s(self) }
}
/// the two groups of `^([0-9]+):([0-9]+)$`, if the text matches
pub uninterp spec fn re_lines(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)>;
pub open spec fn p_range(s: Seq<char>) -> Option<(usize, usize)> {
    match re_lines(s) {
        Some((a, b)) => match (p_usize(a), p_usize(b)) { (Some(x), Some(y)) => Some((x, y)), _ => None },
        None => None,
    }
}
#[verifier::external_body] pub struct Regex { x: u8 }
#[verifier::external_body] pub struct Caps { x: u8 }
#[verifier::external_body] pub struct Cap { x: u8 }
#[derive(Debug)] pub struct RegexErr {}
impl Regex {
    pub uninterp spec fn pat(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new(p: &str) -> (r: Result<Regex, RegexErr>)
        ensures p@ == "^([0-9]+):([0-9]+)$"@ ==> r is Ok, r matches Ok(x) ==> x.pat() == p@ { unimplemented!() }
    #[verifier::external_body] pub fn captures_iter(&self, s: &str) -> (r: Caps)
        ensures r.pat() == self.pat(), r.text() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn captures(&self, s: &str) -> (r: Option<Cap>)
        ensures self.pat() == "^([0-9]+):([0-9]+)$"@ ==> cap_of(s@, r) { unimplemented!() }
}
pub open spec fn cap_of(s: Seq<char>, r: Option<Cap>) -> bool {
    match re_lines(s) { Some((a, b)) => r matches Some(c) && c.g(1) == a && c.g(2) == b && c.n() == 3, None => r is None }
}
impl Caps {
    pub uninterp spec fn pat(&self) -> Seq<char>;
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Cap>)
        ensures old(self).pat() == "^([0-9]+):([0-9]+)$"@ ==> cap_of(old(self).text(), r) { unimplemented!() }
}
impl Cap {
    pub uninterp spec fn g(&self, i: int) -> Seq<char>;
    pub uninterp spec fn n(&self) -> int;
    #[verifier::external_body] pub fn at__(&self, i: usize) -> (r: &str) requires i < self.n() ensures r@ == self.g(i as int) { unimplemented!() }
}

// ---- the property
pub open spec fn upd<T: FromS>(old_v: Option<T>, new_v: Option<T>, hit: bool, s: Seq<char>) -> bool {
    if hit { exists|r: Result<T, PErr>| #[trigger] T::p(s, r) && (match r { Ok(v) => new_v == Some(v), Err(_) => new_v == old_v }) } else { new_v == old_v }
}

/// any numbering of the (pairwise distinct) field names: states that they are distinct texts
pub uninterp spec fn name_no(s: Seq<char>) -> int;
#[verifier::external_body] pub proof fn names_are_distinct()
    ensures name_no("line_range"@) == -1,
//@fields src/config.rs FormatOpts |    name_no("$F"@) == $N,
{ }

//@fn src/config.rs Config::set | props=C07 index=lit params=name,value
    ensures
        //@fields src/config.rs FormatOpts | upd::<$T>(old(self).fmt.$F, final(self).fmt.$F, name@ == "$F"@, value@),
        name@ != "line_range"@ ==> final(self).line_range == old(self).line_range,
        name@ == "line_range"@ ==> final(self).line_range == (match p_range(value@) { Some(x) => Some(x), None => old(self).line_range }),
//@pre
    proof { names_are_distinct(); }
//@end
fn main() {}
}
