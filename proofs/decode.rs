use vstd::prelude::*;
use core::ops::Range;
extern crate alloc;
verus! {
global size_of usize == 8;
//@stubs common.inc.rs
//@stubs marker.inc.rs
//@stubs frame.inc.rs
//@stubs header.inc.rs
//@stubs sos.inc.rs
//@stubs segs.inc.rs
//@stubs huff.inc.rs
//@stubs hufftab.inc.rs
//@stubs hview.inc.rs
//@stubs dht.inc.rs
//@stubs mjpeg.inc.rs
//@stubs block.inc.rs
//@stubs maxcomp.inc.rs
//@stubs worker.inc.rs
//@stubs decoder.inc.rs
//@stubs marks.inc.rs
//@stubs scan.inc.rs
//@stubs dctscan.inc.rs
//@stubs dctlem.inc.rs
//@stubs decscan.inc.rs
//@stubs lossless.inc.rs
//@stubs llimage.inc.rs
//@stubs upsample.inc.rs
//@stubs upsampler.inc.rs
//@stubs image.inc.rs
//@stubs ctrans.inc.rs
//@include decode.inc.rs
}
fn main() {}
