// ---- the lossless image ------------------------------------------------------------------------------------------
//@include chunks.inc.rs
/// sample v of a frame of precision p: one byte, or two in the order of the machine (little-endian assumed)
pub open spec fn bytes_of(v: Seq<u16>, p: int, o: Seq<u8>) -> bool {
    if p <= 8 { o.len() == v.len() && forall|k: int| 0 <= k < v.len() ==> #[trigger] o[k] == v[k] as u8 } else { o.len() == 2 * v.len() && forall|k: int| 0 <= k < v.len() ==> #[trigger] o[2 * k] == v[k] % 256 && o[2 * k + 1] == v[k] / 256 }
}
/// the samples of all components, pixel by pixel
pub open spec fn interleaved(d: Seq<Vec<u16>>, n: int, all: int, v: Seq<u16>) -> bool { v.len() == all * n && forall|x: int, i: int| 0 <= x < all && 0 <= i < n ==> #[trigger] v[x * n + i] == d[i]@[x] }
pub open spec fn lossless_image(d: Seq<Vec<u16>>, n: int, all: int, p: int, o: Seq<u8>) -> bool { exists|v: Seq<u16>| interleaved(d, n, all, v) && #[trigger] bytes_of(v, p, o) }
/// x.to_ne_bytes() on a little-endian machine
#[verifier::external_body]
pub fn native_bytes(x: u16) -> (r: [u8; 2]) ensures r@[0] == x % 256, r@[1] == x / 256 { x.to_ne_bytes() }
/// v.concat()
pub fn concat2(v: Vec<[u8; 2]>) -> (r: Vec<u8>) ensures r.len() == 2 * v.len(), forall|k: int| 0 <= k < v.len() ==> #[trigger] r@[2 * k] == v@[k]@[0] && r@[2 * k + 1] == v@[k]@[1]
{
    let mut r: Vec<u8> = Vec::new();
    for k in 0..v.len() invariant r.len() == 2 * k, forall|i: int| 0 <= i < k ==> r@[2 * i] == (#[trigger] v@[i])@[0] && r@[2 * i + 1] == v@[i]@[1] { let e = &v[k]; r.push(e[0]); r.push(e[1]); }
    r
}
pub fn any_empty16(data: &Vec<Vec<u16>>) -> (r: bool) ensures r == exists|i: int| 0 <= i < data.len() && (#[trigger] data@[i]).len() == 0
{
    for i in 0..data.len() invariant forall|j: int| 0 <= j < i ==> (#[trigger] data@[j]).len() > 0 { if data[i].len() == 0 { return true; } }
    false
}
pub fn zero_words(n: usize) -> (r: Vec<u16>) ensures r.len() == n { let mut v: Vec<u16> = Vec::new(); v.resize(n, 0u16); v }
//@fn src/decoder/lossless.rs convert_to_u8
//@sub `$d . iter ( ) . map ( | $x | $$e ) . collect ( )` => `{ let mut mapped = Vec :: new ( ) ; for at in 0 .. $d . len ( ) { let $x = & $d [ at ] ; mapped . push ( $$e ) ; } mapped }`
//@sub `$b . concat ( )` => `concat2 ( $b )`
//@sub `$x . to_ne_bytes ( )` => `native_bytes ( * $x )`
fn convert_to_u8(frame: &FrameInfo, data: Vec < u16 >) -> /*@ (r: @*/ Vec < u8 > /*@ ) ensures bytes_of(data@, frame.precision as int, r@) @*/ {
    if frame.precision <= 8 {
        { let mut mapped /*@ : Vec<u8> @*/ = Vec::new(); for at in 0..data.len() /*@ invariant mapped@.len() == at, forall|k: int| 0 <= k < at ==> #[trigger] mapped@[k] == data@[k] as u8 @*/ { let x = &data[at]; mapped.push(*x as u8); } mapped }
    } else {
        let ne_bytes: Vec < _ > = { let mut mapped /*@ : Vec<[u8; 2]> @*/ = Vec::new(); for at in 0..data.len() /*@ invariant mapped@.len() == at, forall|k: int| 0 <= k < at ==> (#[trigger] mapped@[k])@[0] == data@[k] % 256 && mapped@[k]@[1] == data@[k] / 256 @*/ { let x = &data[at]; mapped.push(native_bytes(*x)); } mapped };
        /*@ let ghost b = ne_bytes@; assert forall|k: int| 0 <= k < data@.len() implies (#[trigger] data@[k]) % 256 == b[k]@[0] && data@[k] / 256 == b[k]@[1] by { assert(b[k]@[0] == data@[k] % 256); } @*/
        concat2(ne_bytes)
    }
}
//@end
pub proof fn pixel_room(n: int, all: int, x: int) requires 1 <= n <= 255, 1 <= all <= 65535 * 65535, 0 <= x < all ensures 0 <= x * n, x * n + n <= all * n <= 65535 * 65535 * 255, (x + 1) * n == x * n + n
{ assert(0 <= x * n && x * n + n <= all * n && all * n <= 65535 * 65535 * 255 && (x + 1) * n == x * n + n) by (nonlinear_arith) requires 1 <= n <= 255, 1 <= all <= 65535 * 65535, 0 <= x < all; }
pub proof fn step_pixel(d: Seq<Vec<u16>>, n: int, all: int, x: int, v0: Seq<u16>, v1: Seq<u16>)
    requires 1 <= n <= 255, 1 <= all <= 65535 * 65535, 0 <= x < all, v0.len() == all * n, v1.len() == v0.len(), forall|y: int, i: int| 0 <= y < x && 0 <= i < n ==> #[trigger] v0[y * n + i] == d[i]@[y],
        forall|j: int| 0 <= j < v0.len() && !(x * n <= j < x * n + n) ==> #[trigger] v1[j] == v0[j], forall|i: int| 0 <= i < n ==> #[trigger] v1[x * n + i] == d[i]@[x]
    ensures forall|y: int, i: int| 0 <= y < x + 1 && 0 <= i < n ==> #[trigger] v1[y * n + i] == d[i]@[y]
{ assert forall|y: int, i: int| 0 <= y < x + 1 && 0 <= i < n implies #[trigger] v1[y * n + i] == d[i]@[y] by { if y < x { assert(y * n + n <= x * n && 0 <= y * n) by (nonlinear_arith) requires 0 <= y < x, n >= 1; pixel_room(n, all, x); assert(v1[y * n + i] == v0[y * n + i]); } } }
//@fn src/decoder/lossless.rs compute_image_lossless
//@rw errtext
//@sub `data . iter ( ) . any ( Vec :: is_empty )` => `any_empty16 ( & data )`
//@sub `data . is_empty ( )` => `data . len ( ) == 0`
//@sub `vec ! [ 0u16 ; $$n ]` => `zero_words ( $$n )`
//@sub `for ( $r , $l ) in $m . chunks_mut ( $$s ) . enumerate ( ) {` => `for $r in 0 .. chunk_count ( $m . len ( ) , $$s ) { let chunk_to = min2 ( $r * $$s + $$s , $m . len ( ) ) ; let $l = & mut $m . as_mut_slice ( ) [ $r * $$s .. chunk_to ] ;`
//@sub `for ( $i , ( $a , _ ) ) in $d . iter ( ) . zip ( $c . iter ( ) ) . enumerate ( ) {` => `for $i in 0 .. min2 ( $d . len ( ) , $c . len ( ) ) { let $a = & $d [ $i ] ;`
pub fn compute_image_lossless(frame: &FrameInfo, mut data: Vec < Vec < u16 >>) -> /*@ (r: @*/ Result < Vec < u8 >> /*@ )
    requires frame.output_size == frame.image_size, frame.image_size.width >= 1, frame.image_size.height >= 1, 1 <= frame.components.len() <= 255, data.len() == 0 || data.len() == frame.components.len(),
        forall|i: int| 0 <= i < data.len() ==> (#[trigger] data@[i]).len() == 0 || data@[i].len() == frame.image_size.height * frame.image_size.width
    ensures r is Ok <==> data.len() > 0 && forall|i: int| 0 <= i < data.len() ==> (#[trigger] data@[i]).len() > 0,
        r matches Ok(o) ==> lossless_image(data@, frame.components.len() as int, frame.image_size.height * frame.image_size.width, frame.precision as int, o@) @*/ {
    /*@ let ghost d = data@; let ghost (n, w, h) = (frame.components.len() as int, frame.image_size.width as int, frame.image_size.height as int); let ghost all = h * w; proof { area(w, h, 0, w); pixel_room(n, all, 0); } assert(all * n == n * w * h) by (nonlinear_arith) requires all == h * w; assert(0 <= n * w <= 255 * 65535) by (nonlinear_arith) requires 1 <= n <= 255, 1 <= w <= 65535; @*/
    if data.len() == 0 || any_empty16(&data) {
        return Err(Error::Format(error_text()));
    }
    let output_size = frame.output_size;
    let components = &frame.components;
    let ncomp = components.len();
    if ncomp == 1 {
        /*@ proof { assert(widths(d, all)); assert(d[0].len() > 0 ==> d[0].len() == all); assert(all * 1 == all); assert forall|x: int, i: int| 0 <= x < all && 0 <= i < 1 implies #[trigger] d[0]@[x * 1 + i] == d[i]@[x] by { assert(i == 0 && x * 1 + i == x); } assert(d[0]@.len() == all); assert(interleaved(d, 1, all, d[0]@)); } @*/
        let decoded = convert_to_u8(frame, data.remove(0));
        Ok(decoded)
    } else {
        let mut decoded: Vec < u16 > = zero_words(ncomp * output_size.width as usize * output_size.height as usize);
        /*@ proof { chunks_whole(all, n); } @*/
        for x in /*@ itx: @*/ 0..chunk_count(decoded.len(), ncomp) /*@ invariant itx.iter.end == all, n == ncomp, 1 <= n <= 255, n == components.len(), d == data@, d.len() == n, 1 <= all <= 65535 * 65535, decoded.len() == all * n, widths(d, all), forall|y: int, i: int| 0 <= y < x && 0 <= i < n ==> #[trigger] decoded@[y * n + i] == d[i]@[y] @*/ {
            /*@ proof { pixel_room(n, all, x as int); } let ghost v0 = decoded@; @*/
            let chunk_to = min2(x * ncomp + ncomp, decoded.len());
            let chunk = &mut decoded.as_mut_slice()[x * ncomp..chunk_to];
            for i in /*@ iti: @*/ 0..min2(data.len(), components.len()) /*@ invariant iti.iter.end == n, 0 <= x < all, n == components.len(), d == data@, d.len() == n, chunk.len() == n, widths(d, all), forall|k: int| 0 <= k < i ==> #[trigger] chunk@[k] == d[k]@[x as int] @*/ {
                /*@ assert(data@[i as int].len() == all); @*/
                let component_data = &data[i];
                chunk[i] = component_data[x];
            }
            /*@ let ghost c1 = chunk@; proof { assert(decoded@.len() == v0.len()); assert forall|i: int| 0 <= i < n implies #[trigger] decoded@[x * n + i] == d[i]@[x as int] by { assert(decoded@[x * n + i] == c1[i]); } step_pixel(d, n, all, x as int, v0, decoded@); } @*/
        }
        /*@ assert(interleaved(d, n, all, decoded@)); @*/
        let decoded = convert_to_u8(frame, decoded);
        Ok(decoded)
    }
}
//@end
