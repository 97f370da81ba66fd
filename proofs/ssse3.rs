use vstd::prelude::*;
verus! {
//@include common.inc.rs
//@include wrapping.inc.rs
//@include idctbase.inc.rs
//@include simd.inc.rs
//@include ycc.inc.rs
//@include ssse3.inc.rs
//@include ssse3color.inc.rs
//@include ssse3disp.inc.rs
}
fn main() {}
