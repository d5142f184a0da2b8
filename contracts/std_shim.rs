#[verifier::external_body] pub fn noop_print() {}
#[verifier::external_body] pub fn str_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
