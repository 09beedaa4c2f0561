use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include prelude/text.rs
//@include prelude/match_action_code.rs
} // verus!
fn main() {}
