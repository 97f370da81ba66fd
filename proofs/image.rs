use vstd::prelude::*;
use core::ops::Range;
use vstd::slice::slice_subrange;
verus! {
global size_of usize == 8;
//@include common.inc.rs
//@include marker.inc.rs
//@include frame.inc.rs
//@include upsample.inc.rs
//@include upsampler.inc.rs
//@include image.inc.rs
}
fn main() {}
