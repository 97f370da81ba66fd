use vstd::prelude::*;
verus! {
//@include common.inc.rs
//@include wrapping.inc.rs
//@include idctbase.inc.rs
//@include idct4.inc.rs
}
fn main() {}
