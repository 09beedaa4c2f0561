use vstd::prelude::*;
verus! {
//@include prelude/vpmap.rs
//@include prelude/scope_types.rs
//@include prelude/scope_tree_code.rs
//@include prelude/scope_set_code.rs
//@include prelude/scope_visit_code.rs
//@include prelude/scope_theorem.rs
//@include prelude/scope_entry_code.rs
} // verus!
fn main() {}
