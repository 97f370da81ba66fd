use vstd::prelude::*;
verus! {
//@include common.inc.rs
//@include color.inc.rs
}
fn main() {}
