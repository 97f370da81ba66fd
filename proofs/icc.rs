use vstd::prelude::*;
use core::ops::Range;
extern crate alloc;
verus! {
//@include common.inc.rs
//@include marker.inc.rs
//@include frame.inc.rs
//@include header.inc.rs
//@include segs.inc.rs
//@include huff.inc.rs
//@include maxcomp.inc.rs
//@include decoder.inc.rs
//@include icc.inc.rs
}
fn main() {}
