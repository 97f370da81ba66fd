// ---- the whole image -----------------------------------------------------------------------------------------
/// f is the conversion chosen for n components under the transform t: its arity and meaning are proved in unit transform
pub uninterp spec fn chosen(f: ConvertFn, n: int, t: ColorTransform) -> bool;
#[verifier::external_body]
pub fn choose_color_convert_func(component_count: usize, color_transform: ColorTransform) -> (r: Result<ConvertFn>) requires component_count == 3 || component_count == 4
    ensures r matches Ok(f) ==> chosen(f, component_count as int, color_transform) && conv_takes(f) == component_count
{ unimplemented!() }
/// one line of the image is the conversion of the upsampled lines of the planes
pub open spec fn row_done(f: ConvertFn, data: Seq<Vec<u8>>, cs: Seq<Component>, ow: int, oh: int, row: int, o: Seq<u8>) -> bool {
    exists|lines: Seq<Vec<u8>>, o0: Seq<u8>| o0.len() == o.len() && lines_ok(lines, data, cs, ow, oh, row, cs.len() as int) && #[trigger] conv_ok(f, lines, o0, o)
}
pub open spec fn row_part(o: Seq<u8>, ls: int, row: int) -> Seq<u8> { o.subrange(row * ls, row * ls + ls) }
pub open spec fn rows_done(f: ConvertFn, data: Seq<Vec<u8>>, cs: Seq<Component>, ow: int, oh: int, n: int, o: Seq<u8>) -> bool {
    o.len() == oh * (ow * cs.len()) && forall|row: int| 0 <= row < n ==> row_done(f, data, cs, ow, oh, row, #[trigger] row_part(o, ow * cs.len(), row))
}
/// sizes of the components agree with the size of the image
pub open spec fn cover_all(cs: Seq<Component>, size: Dimensions) -> bool {
    all_factors_ok(cs) && size.width >= 1 && size.height >= 1 && forall|i: int| 0 <= i < cs.len() ==> #[trigger] covering(cs[i], hmax(cs, cs.len() as int), vmax(cs, cs.len() as int), size.width as int, size.height as int)
}
pub open spec fn image_done(data: Seq<Vec<u8>>, cs: Seq<Component>, size: Dimensions, t: ColorTransform, o: Seq<u8>) -> bool {
    exists|f: ConvertFn| chosen(f, cs.len() as int, t) && #[trigger] rows_done(f, data, cs, size.width as int, size.height as int, size.height as int, o)
}
/// one component: its samples, row by row
pub open spec fn grey_done(p: Seq<u8>, w: int, h: int, st: int, o: Seq<u8>) -> bool {
    o.len() == w * h && forall|y: int, x: int| 0 <= y < h && 0 <= x < w ==> #[trigger] o[y * w + x] == p[y * st + x]
}
//@include chunks.inc.rs
pub fn zero_bytes(n: usize) -> (r: Vec<u8>) ensures r.len() == n { let mut v: Vec<u8> = Vec::new(); v.resize(n, 0u8); v }
pub proof fn line_room(w: int, h: int, n: int) requires 1 <= w <= 65535, 1 <= h <= 65535, 1 <= n <= 255 ensures 1 <= w * n <= 65535 * 255, 0 <= (w * n) * h <= 65535 * 255 * 65535, (w * n) * h == h * (w * n)
{ assert(1 <= w * n <= 65535 * 255) by (nonlinear_arith) requires 1 <= w <= 65535, 1 <= n <= 255; let l = w * n; assert(0 <= l * h <= 65535 * 255 * 65535) by (nonlinear_arith) requires 1 <= l <= 65535 * 255, 1 <= h <= 65535; assert(l * h == h * l) by (nonlinear_arith); }
pub proof fn line_inside(ls: int, h: int, row: int) requires ls >= 1, 0 <= row < h ensures 0 <= row * ls, row * ls + ls <= h * ls
{ assert(row * ls + ls <= h * ls && 0 <= row * ls) by (nonlinear_arith) requires ls >= 1, 0 <= row < h; }
pub proof fn parts_apart(o0: Seq<u8>, o1: Seq<u8>, ls: int, h: int, row: int) 
    requires ls >= 1, 0 <= row < h, o0.len() == h * ls, o1.len() == o0.len(), forall|j: int| 0 <= j < o0.len() && !(row * ls <= j < row * ls + ls) ==> #[trigger] o1[j] == o0[j]
    ensures forall|k: int| 0 <= k < row ==> #[trigger] row_part(o1, ls, k) == row_part(o0, ls, k)
{ assert forall|k: int| 0 <= k < row implies #[trigger] row_part(o1, ls, k) == row_part(o0, ls, k) by { line_inside(ls, h, k); assert(k * ls + ls <= row * ls) by (nonlinear_arith) requires k < row, ls >= 1; line_inside(ls, h, row); assert(row_part(o1, ls, k) =~= row_part(o0, ls, k)); } }
/// for (row, line) in image.chunks_mut(line_size).enumerate(), the function of the lines; in the rayon version the calls
/// run in any order, each on its own line
pub proof fn step_row(f: ConvertFn, data: Seq<Vec<u8>>, cs: Seq<Component>, ow: int, oh: int, row: int, o0: Seq<u8>, o1: Seq<u8>)
    requires rows_done(f, data, cs, ow, oh, row, o0), cs.len() >= 1, ow >= 1, 0 <= row < oh, o1.len() == o0.len(), forall|j: int| 0 <= j < o0.len() && !(row * (ow * cs.len()) <= j < row * (ow * cs.len()) + ow * cs.len()) ==> #[trigger] o1[j] == o0[j],
        row_done(f, data, cs, ow, oh, row, row_part(o1, ow * cs.len(), row))
    ensures rows_done(f, data, cs, ow, oh, row + 1, o1)
{
    let ls = ow * cs.len();
    assert(ls >= 1) by (nonlinear_arith) requires ow >= 1, ls == ow * cs.len(), cs.len() >= 1;
    parts_apart(o0, o1, ls, oh, row);
    assert forall|k: int| 0 <= k < row + 1 implies row_done(f, data, cs, ow, oh, k, #[trigger] row_part(o1, ls, k)) by { if k < row { assert(row_part(o1, ls, k) == row_part(o0, ls, k)); } }
}
//@fn src/worker/mod.rs compute_image_parallel
//@sub `return rayon :: compute_image_parallel ( $$a ) ;` => ``
//@sub `vec ! [ 0u8 ; $$n ]` => `zero_bytes ( $$n )`
//@sub `for ( $r , $l ) in $m . chunks_mut ( $$s ) . enumerate ( ) {` => `for $r in 0 .. chunk_count ( $m . len ( ) , $$s ) { let chunk_to = min2 ( $r * $$s + $$s , $m . len ( ) ) ; let $l = & mut $m . as_mut_slice ( ) [ $r * $$s .. chunk_to ] ;`
//@sub `& data , row` => `data . as_slice ( ) , row`
pub fn compute_image_parallel(
    components: &[Component],
    data: Vec<Vec<u8>>,
    output_size: Dimensions,
    color_transform: ColorTransform,
) -> /*@ (r: @*/ Result<Vec<u8>> /*@ )
    requires components.len() == 3 || components.len() == 4, cover_all(components@, output_size), planes_ok(data@, components@)
    ensures r matches Ok(o) ==> image_done(data@, components@, output_size, color_transform, o@) @*/ {
    {
        /*@ let ghost (cs, n, ow, oh) = (components@, components.len() as int, output_size.width as int, output_size.height as int); proof { line_room(ow, oh, n); } let ghost ls = ow * n; @*/
        let color_convert_func = choose_color_convert_func(components.len(), color_transform)?;
        let upsampler = Upsampler::new(components, output_size.width, output_size.height)?;
        let line_size = output_size.width as usize * components.len();
        let mut image = zero_bytes(line_size * output_size.height as usize);
        /*@ proof { chunks_whole(oh, ls); } @*/
        for row in /*@ it: @*/ 0..chunk_count(image.len(), line_size) /*@ invariant it.iter.end == oh, cs == components@, n == cs.len(), n == 3 || n == 4, cover_all(cs, output_size), planes_ok(data@, cs), ow == output_size.width, oh == output_size.height, ls == ow * n, line_size == ls, ls >= 1, oh * ls <= 65535 * 255 * 65535, upsampler.ready(cs, ow, oh), conv_takes(color_convert_func) == n,
            rows_done(color_convert_func, data@, cs, ow, oh, row as int, image@) @*/ {
            /*@ proof { line_inside(ls, oh, row as int); } let ghost before = image@; @*/
            let chunk_to = min2(row * line_size + line_size, image.len());
            let line = &mut image.as_mut_slice()[row * line_size..chunk_to];
            upsampler.upsample_and_interleave_row(
                /*@ Ghost(cs), Ghost(oh), @*/
                data.as_slice(),
                row,
                output_size.width as usize,
                line,
                color_convert_func,
            );
            /*@ assert(image@.len() == before.len()); assert(row_part(image@, ls, row as int).len() == ls); proof { step_row(color_convert_func, data@, cs, ow, oh, row as int, before, image@); } @*/
        }

        Ok(image)
    }
}
//@end
//@fn src/worker/rayon.rs compute_image_parallel as=rayon_compute_image_parallel
//@sub `pub fn compute_image_parallel` => `pub fn rayon_compute_image_parallel`
//@sub `vec ! [ 0u8 ; $$n ]` => `zero_bytes ( $$n )`
//@sub `$m . par_chunks_mut ( $$s ) . with_max_len ( 1 ) . enumerate ( ) . for_each ( | ( $r , $l ) | { $%b } ) ;` => `for $r in 0 .. chunk_count ( $m . len ( ) , $$s ) { let chunk_to = min2 ( $r * $$s + $$s , $m . len ( ) ) ; let $l = & mut $m . as_mut_slice ( ) [ $r * $$s .. chunk_to ] ; $%b }`
//@sub `& data , row` => `data . as_slice ( ) , row`
pub fn rayon_compute_image_parallel(
    components: &[Component],
    data: Vec<Vec<u8>>,
    output_size: Dimensions,
    color_transform: ColorTransform,
) -> /*@ (r: @*/ Result<Vec<u8>> /*@ )
    requires components.len() == 3 || components.len() == 4, cover_all(components@, output_size), planes_ok(data@, components@)
    ensures r matches Ok(o) ==> image_done(data@, components@, output_size, color_transform, o@) @*/ {
        /*@ let ghost (cs, n, ow, oh) = (components@, components.len() as int, output_size.width as int, output_size.height as int); proof { line_room(ow, oh, n); } let ghost ls = ow * n; @*/
    let color_convert_func = choose_color_convert_func(components.len(), color_transform)?;
    let upsampler = Upsampler::new(components, output_size.width, output_size.height)?;
    let line_size = output_size.width as usize * components.len();
    let mut image = zero_bytes(line_size * output_size.height as usize);
    /*@ proof { chunks_whole(oh, ls); } @*/
    for row in /*@ it: @*/ 0..chunk_count(image.len(), line_size) /*@ invariant it.iter.end == oh, cs == components@, n == cs.len(), n == 3 || n == 4, cover_all(cs, output_size), planes_ok(data@, cs), ow == output_size.width, oh == output_size.height, ls == ow * n, line_size == ls, ls >= 1, oh * ls <= 65535 * 255 * 65535, upsampler.ready(cs, ow, oh), conv_takes(color_convert_func) == n,
            rows_done(color_convert_func, data@, cs, ow, oh, row as int, image@) @*/ {
            /*@ proof { line_inside(ls, oh, row as int); } let ghost before = image@; @*/
        let chunk_to = min2(row * line_size + line_size, image.len());
        let line = &mut image.as_mut_slice()[row * line_size..chunk_to];
        upsampler.upsample_and_interleave_row(
            /*@ Ghost(cs), Ghost(oh), @*/
            data.as_slice(),
            row,
            output_size.width as usize,
            line,
            color_convert_func,
        );
            /*@ assert(image@.len() == before.len()); assert(row_part(image@, ls, row as int).len() == ls); proof { step_row(color_convert_func, data@, cs, ow, oh, row as int, before, image@); } @*/
    }

    Ok(image)
}
//@end
/// data.iter().any(Vec::is_empty)
pub fn any_empty(data: &Vec<Vec<u8>>) -> (r: bool) ensures r == exists|i: int| 0 <= i < data.len() && (#[trigger] data@[i]).len() == 0
{
    for i in /*@ it: @*/ 0..data.len() invariant forall|j: int| 0 <= j < i ==> (#[trigger] data@[j]).len() > 0 { if data[i].len() == 0 { return true; } }
    false
}
/// decoded.copy_within(from..to, at)
#[verifier::external_body]
pub fn copy_inside(v: &mut Vec<u8>, from: usize, to: usize, at: usize) requires from <= to <= old(v).len(), at + (to - from) <= old(v).len()
    ensures final(v).len() == old(v).len(), forall|j: int| 0 <= j < to - from ==> #[trigger] final(v)@[at + j] == old(v)@[from + j], forall|j: int| 0 <= j < old(v).len() && !(at <= j < at + (to - from)) ==> #[trigger] final(v)@[j] == old(v)@[j]
{ v.copy_within(from..to, at) }
pub proof fn in_line(w: int, st: int, h: int, y: int, len: int) requires 1 <= w <= st <= 65535 * 8, 1 <= h <= 65535, 0 <= y < h, len >= h * st
    ensures 0 <= y * w <= y * st, y * st + st <= len, y * w + w <= len, y * st <= 65535 * 65535 * 8, 0 <= w * h <= len
{
    assert(0 <= y * w <= y * st) by (nonlinear_arith) requires 1 <= w <= st, 0 <= y; assert(y * st + st <= h * st) by (nonlinear_arith) requires 0 <= y < h, st >= 1; assert(y * st <= 65535 * (65535 * 8)) by (nonlinear_arith) requires 0 <= y <= 65535, 0 <= st <= 65535 * 8;
    assert(0 <= w * h <= h * st) by (nonlinear_arith) requires 1 <= w <= st, h >= 1;
}
/// the first n lines are in place, the others where they were
pub open spec fn moved(p: Seq<u8>, o: Seq<u8>, w: int, h: int, st: int, n: int) -> bool {
    &&& o.len() == p.len()
    &&& forall|y: int, x: int| 0 <= y < n && 0 <= x < w ==> #[trigger] o[y * w + x] == p[y * st + x]
    &&& forall|j: int| n * w <= j < p.len() ==> #[trigger] o[j] == p[j]
}
pub proof fn step_moved(p: Seq<u8>, o0: Seq<u8>, o1: Seq<u8>, w: int, h: int, st: int, n: int)
    requires 1 <= w <= st <= 65535 * 8, 1 <= h <= 65535, 1 <= n < h, p.len() >= h * st, moved(p, o0, w, h, st, n), o1.len() == o0.len(),
        forall|j: int| 0 <= j < w ==> #[trigger] o1[n * w + j] == o0[n * st + j], forall|j: int| 0 <= j < o0.len() && !(n * w <= j < n * w + w) ==> #[trigger] o1[j] == o0[j]
    ensures moved(p, o1, w, h, st, n + 1)
{
    in_line(w, st, h, n, p.len() as int);
    assert((n + 1) * w == n * w + w) by (nonlinear_arith);
    assert forall|y: int, x: int| 0 <= y < n + 1 && 0 <= x < w implies #[trigger] o1[y * w + x] == p[y * st + x] by {
        in_line(w, st, h, y, p.len() as int);
        if y == n { assert(o1[n * w + x] == o0[n * st + x]); assert(o0[n * st + x] == p[n * st + x]); } else { assert(y * w + w <= n * w) by (nonlinear_arith) requires y < n, w >= 1; assert(o0[y * w + x] == p[y * st + x]); }
    }
}
pub proof fn same_area(w: int, h: int, n: int) ensures h * (w * n) == w * h * n { assert(h * (w * n) == w * h * n) by (nonlinear_arith); }
pub proof fn grey(p: Seq<u8>, whole: Seq<u8>, o: Seq<u8>, w: int, h: int, st: int)
    requires plane_ok(p, w, h, st), moved(p, whole, w, h, st, h), o.len() == w * h, forall|j: int| 0 <= j < w * h ==> #[trigger] o[j] == whole[j] ensures grey_done(p, w, h, st, o)
{ assert forall|y: int, x: int| 0 <= y < h && 0 <= x < w implies #[trigger] o[y * w + x] == p[y * st + x] by { in_line(w, st, h, y, p.len() as int); assert(y * w + w <= w * h) by (nonlinear_arith) requires 0 <= y < h, w >= 1; assert(o[y * w + x] == whole[y * w + x]); } }
pub proof fn first_moved(p: Seq<u8>, w: int, h: int, st: int) ensures moved(p, p, w, h, st, 1), moved(p, p, w, h, w, h)
{
    assert(0 * w == 0 && 0 * st == 0 && 1 * w == w) by (nonlinear_arith); assert forall|y: int, x: int| 0 <= y < 1 && 0 <= x < w implies #[trigger] p[y * w + x] == p[y * st + x] by { assert(y == 0); }
}
//@fn src/decoder.rs compute_image
//@rw errtext
//@sub `data . iter ( ) . any ( Vec :: is_empty )` => `any_empty ( & data )`
//@sub `data . is_empty ( )` => `data . len ( ) == 0`
//@sub `$d . copy_within ( $$a .. $$b , $$c ) ;` => `copy_inside ( & mut $d , $$a , $$b , $$c ) ;`
//@sub `usize :: from ( output_size . width )` => `output_size . width as usize`
fn compute_image(
    components: &[Component],
    mut data: Vec<Vec<u8>>,
    output_size: Dimensions,
    color_transform: ColorTransform,
) -> /*@ (r: @*/ Result<Vec<u8>> /*@ )
    requires components.len() == 1 || components.len() == 3 || components.len() == 4, cover_all(components@, output_size), data.len() == 0 || data.len() == components.len(),
        components.len() == 1 ==> components@[0].size == output_size,
        forall|i: int| 0 <= i < data.len() ==> (#[trigger] data@[i]).len() == 0 || plane_ok(data@[i]@, components@[i].size.width as int, components@[i].size.height as int, stride_of(components@[i]))
    ensures components.len() == 1 && data.len() == 1 && data@[0].len() > 0 ==> r is Ok,
        r matches Ok(o) ==> data.len() == components.len() && (forall|i: int| 0 <= i < data.len() ==> (#[trigger] data@[i]).len() > 0) && o.len() == output_size.width * output_size.height * components.len()
            && if components.len() == 1 { grey_done(data@[0]@, output_size.width as int, output_size.height as int, stride_of(components@[0]), o@) } else { image_done(data@, components@, output_size, color_transform, o@) } @*/ {
    /*@ let ghost cs = components@; let ghost d = data@; @*/
    if data.len() == 0 || any_empty(&data) {
        return Err(Error::Format(error_text()));
    }

    if components.len() == 1 {
        let component = &components[0];
        let mut decoded: Vec<u8> = data.remove(0);
        /*@ assert(factors_ok(cs[0])); let ghost (w, h, st, p) = (component.size.width as int, component.size.height as int, stride_of(*component), decoded@); assert(plane_ok(p, w, h, st)); proof { in_line(w, st, h, 0, p.len() as int); }
            assert(w * h <= 65535 * 65535) by (nonlinear_arith) requires 1 <= w <= 65535, 1 <= h <= 65535; assert(w * h * 1 == w * h); @*/

        let width = component.size.width as usize;
        let height = component.size.height as usize;
        let size = width * height;
        let line_stride = component.block_size.width as usize * component.dct_scale;

        // if the image width is a multiple of the block size,
        // then we don't have to move bytes in the decoded data
        if output_size.width as usize != line_stride {
            /*@ proof { first_moved(p, w, h, st); } @*/
            // The first line already starts at index 0, so we need to move only lines 1..height
            // We move from the top down because all lines are being moved backwards.
            for y in /*@ it: @*/ 1..height /*@ invariant it.iter.end == h, 1 <= y, height == h, width == w, line_stride == st, plane_ok(p, w, h, st), moved(p, decoded@, w, h, st, if y <= h { y as int } else { h }) @*/ {
                /*@ proof { in_line(w, st, h, y as int, p.len() as int); } let ghost before = decoded@; @*/
                let destination_idx = y * width;
                let source_idx = y * line_stride;
                let end = source_idx + width;
                copy_inside(&mut decoded, source_idx, end, destination_idx);
                /*@ proof { step_moved(p, before, decoded@, w, h, st, y as int); } @*/
            }
        }
        /*@ proof { first_moved(p, w, h, st); } assert(moved(p, decoded@, w, h, st, h)); let ghost whole = decoded@; @*/
        decoded.resize(size, 0);
        /*@ proof { grey(p, whole, decoded@, w, h, st); } @*/
        Ok(decoded)
    } else {
        /*@ assert(planes_ok(data@, cs)) by { assert forall|i: int| 0 <= i < cs.len() implies plane_ok((#[trigger] data@[i])@, cs[i].size.width as int, cs[i].size.height as int, stride_of(cs[i])) by { assert(data@[i].len() > 0); } } proof { same_area(output_size.width as int, output_size.height as int, cs.len() as int); } @*/
        compute_image_parallel(components, data, output_size, color_transform)
    }
}
//@end
