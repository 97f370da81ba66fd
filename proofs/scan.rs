use vstd::prelude::*;
use core::ops::Range;
extern crate alloc;
verus! {
global size_of usize == 8;
//@include common.inc.rs
//@include marker.inc.rs
//@include frame.inc.rs
//@include apptypes.inc.rs
//@include huff.inc.rs
//@include hufftab.inc.rs
//@include hview.inc.rs
//@include mjpeg.inc.rs
//@include block.inc.rs
//@include frameok.inc.rs
//@include scanok.inc.rs
//@include maxcomp.inc.rs
//@include worker.inc.rs
//@include decoder.inc.rs
//@include marks.inc.rs
//@include scan.inc.rs
//@include dctscan.inc.rs
//@include dctlem.inc.rs
//@include decscan.inc.rs
}
fn main() {}
