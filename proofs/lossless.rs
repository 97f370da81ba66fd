use vstd::prelude::*;
use core::ops::Range;
extern crate alloc;
verus! {
global size_of usize == 8;
//@include common.inc.rs
//@include marker.inc.rs
//@include frame.inc.rs
//@include apptypes.inc.rs
//@include huff.inc.rs
//@include maxcomp.inc.rs
//@include decoder.inc.rs
//@include marks.inc.rs
//@include scan.inc.rs
//@include lossless.inc.rs
//@include llimage.inc.rs
}
fn main() {}
