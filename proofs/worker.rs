use vstd::prelude::*;
use core::ops::Range;
use std::sync::Arc;
verus! {
global size_of usize == 8;
//@include common.inc.rs
//@include marker.inc.rs
//@include frame.inc.rs
//@include maxcomp.inc.rs
//@include worker.inc.rs
//@include immediate.inc.rs
}
fn main() {}
