use vstd::prelude::*;
use core::ops::Range;
verus! {
//@include common.inc.rs
//@include marker.inc.rs
//@include frame.inc.rs
}
fn main() {}
