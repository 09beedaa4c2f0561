use vstd::prelude::*;
verus! {
//@include prelude/text.rs
//@include prelude/prefix_code.rs
//@include prelude/excluded_code.rs
//@include prelude/search_code.rs
//@include prelude/tp_code.rs
//@include prelude/included_code.rs
} // verus!
fn main() {}
