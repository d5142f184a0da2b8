//@define C01
use vstd::prelude::*;
verus! {
//@include s_theory.rs
fn main(){}
}
