use vstd::prelude::*;
use core::ops::Range;
verus! {
//@include common.inc.rs
//@include marker.inc.rs
//@include huff.inc.rs
//@include block.inc.rs
}
fn main() {}
