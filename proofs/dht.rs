use vstd::prelude::*;
use core::ops::Range;
verus! {
//@include common.inc.rs
//@include marker.inc.rs
//@include frame.inc.rs
//@include header.inc.rs
//@include segs.inc.rs
//@include huff.inc.rs
//@include hufftab.inc.rs
//@include hview.inc.rs
//@include dht.inc.rs
}
fn main() {}
