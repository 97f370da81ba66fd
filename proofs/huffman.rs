use vstd::prelude::*;
verus! {
//@include common.inc.rs
//@include marker.inc.rs
//@include huff.inc.rs
//@include hufftab.inc.rs
}
fn main() {}
