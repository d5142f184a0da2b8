#[derive(Debug)] pub struct FErr;
#[verifier::external_body] pub struct CellB { x: bool }
impl CellB { #[verifier::external_body] pub const fn new(b: bool) -> Self { unimplemented!() } }
pub trait Disp { spec fn d(&self) -> Seq<char>; }
impl Disp for str { open spec fn d(&self) -> Seq<char> { self@ } }
impl Disp for String { open spec fn d(&self) -> Seq<char> { self@ } }
impl<T: Disp + ?Sized> Disp for &T { open spec fn d(&self) -> Seq<char> { (**self).d() } }
/// std: ToString::to_string is the text Display writes
pub trait ToS { spec fn ts(&self, r: Seq<char>) -> bool; fn v_to_string(&self) -> (r: String) ensures self.ts(r@); }
impl ToS for str { open spec fn ts(&self, r: Seq<char>) -> bool { r == self@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl ToS for String { open spec fn ts(&self, r: Seq<char>) -> bool { r == self@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }

pub type WR = Result<(), FErr>;
/// writing to a String does not fail (trusted)
#[verifier::external_body] pub fn w_disp<T: Disp + ?Sized>(f: &mut String, x: &T) -> (r: WR) ensures r is Ok, final(f)@ == old(f)@ + x.d() { unimplemented!() }
#[verifier::external_body] pub fn w_lit(f: &mut String, s: &str) -> (r: WR) ensures r is Ok, final(f)@ == old(f)@ + s@ { unimplemented!() }
#[verifier::external_body] pub fn app_str(f: &mut String, s: &str) ensures final(f)@ == old(f)@ + s@ { unimplemented!() }
#[verifier::external_body] pub fn app_disp<T: Disp + ?Sized>(f: &mut String, x: &T) ensures final(f)@ == old(f)@ + x.d() { unimplemented!() }
