// ---- colour conversion of one line ---------------------------------------------------------------------------
//@include ycc.inc.rs
/// every line of input is at least as long as the output
pub open spec fn covers(data: Seq<Vec<u8>>, pixels: int) -> bool { forall|c: int| 0 <= c < data.len() ==> (#[trigger] data[c])@.len() >= pixels }
/// the n output bytes at o are those of one pixel of the n input samples x
pub open spec fn px_none(o: Seq<u8>, at: int, data: Seq<Vec<u8>>, p: int) -> bool { forall|c: int| 0 <= c < data.len() ==> #[trigger] o[at + c] == data[c]@[p] }
pub open spec fn px_cmyk(o: Seq<u8>, at: int, data: Seq<Vec<u8>>, p: int) -> bool { forall|c: int| 0 <= c < data.len() ==> #[trigger] o[at + c] == 255 - data[c]@[p] }
pub open spec fn px_ycc(o: Seq<u8>, at: int, data: Seq<Vec<u8>>, p: int) -> bool { bt601(o[at], o[at + 1], o[at + 2], data[0]@[p], data[1]@[p], data[2]@[p]) }
pub open spec fn px_ycck(o: Seq<u8>, at: int, data: Seq<Vec<u8>>, p: int) -> bool { px_ycc(o, at, data, p) && o[at + 3] == 255 - data[3]@[p] }
pub enum Conv { Plain, Ycc, Cmyk, Ycck }
pub open spec fn px(k: Conv, o: Seq<u8>, at: int, data: Seq<Vec<u8>>, p: int) -> bool {
    match k { Conv::Plain => px_none(o, at, data, p), Conv::Ycc => px_ycc(o, at, data, p), Conv::Cmyk => px_cmyk(o, at, data, p), Conv::Ycck => px_ycck(o, at, data, p) }
}
pub open spec fn conv_arity(k: Conv, n: int) -> bool { match k { Conv::Plain => n == 3 || n == 4, Conv::Ycc => n == 3, Conv::Cmyk => n == 4, Conv::Ycck => n == 4 } }
/// the whole line: every whole pixel of the output comes from the samples at its own position
pub open spec fn line_ok(k: Conv, data: Seq<Vec<u8>>, o0: Seq<u8>, o: Seq<u8>) -> bool {
    let n = data.len() as int;
    &&& o.len() == o0.len()
    &&& forall|p: int| 0 <= p < (o.len() as int) / n ==> #[trigger] px(k, o, p * n, data, p)
    &&& forall|i: int| ((o.len() as int) / n) * n <= i < o.len() ==> #[trigger] o[i] == o0[i]
}

//@fn src/decoder.rs color_convert_line_rgb
//@rw destructure assertmsg zip3
fn color_convert_line_rgb(data: &[Vec<u8>], output: &mut [u8]) /*@
    requires data.len() == 3, covers(data@, old(output).len() as int / 3), ensures line_ok(Conv::Plain, data@, old(output)@, final(output)@) @*/ {
    assert_exec(data.len() == 3);
    let (r, g, b) = (&data[0], &data[1], &data[2]);
    /*@ let ghost o0 = output@; assert(data@[0]@.len() >= output.len() as int / 3 && data@[1]@.len() >= output.len() as int / 3 && data@[2]@.len() >= output.len() as int / 3); @*/
    let pixels = min2(min2(min2(output.len() / 3, r.len()), g.len()), b.len());
    for ix in 0..pixels /*@ invariant output.len() == o0.len(), pixels == o0.len() / 3, data.len() == 3, covers(data@, pixels as int), *r == data@[0], *g == data@[1], *b == data@[2],
        r@.len() >= pixels, g@.len() >= pixels, b@.len() >= pixels,
        forall|p: int| 0 <= p < ix ==> #[trigger] px(Conv::Plain, output@, p * 3, data@, p), forall|i: int| ix * 3 <= i < o0.len() ==> #[trigger] output@[i] == o0[i], @*/ {
        /*@ let ghost o1 = output@; @*/
        let (r, g, b) = (&r[ix], &g[ix], &b[ix]);
        output[ix * 3 + 0] = *r;
        output[ix * 3 + 1] = *g;
        output[ix * 3 + 2] = *b;
        /*@ proof { assert forall|p: int| 0 <= p < ix + 1 implies #[trigger] px(Conv::Plain, output@, p * 3, data@, p) by { if p < ix { assert(px(Conv::Plain, o1, p * 3, data@, p)); } 
            assert forall|c: int| 0 <= c < 3 implies #[trigger] output@[p * 3 + c] == data@[c]@[p] by { if p < ix { assert(o1[p * 3 + c] == data@[c]@[p]); } } } } @*/
    }
}
//@end
//@fn src/decoder.rs color_convert_line_cmyk
//@rw destructure assertmsg zip4 sub_ref
fn color_convert_line_cmyk(data: &[Vec<u8>], output: &mut [u8]) /*@
    requires data.len() == 4, covers(data@, old(output).len() as int / 4), ensures line_ok(Conv::Cmyk, data@, old(output)@, final(output)@) @*/ {
    assert_exec(data.len() == 4);
    let (c, m, y, k) = (&data[0], &data[1], &data[2], &data[3]);
    /*@ let ghost o0 = output@; assert(data@[0]@.len() >= output.len() as int / 4 && data@[1]@.len() >= output.len() as int / 4 && data@[2]@.len() >= output.len() as int / 4 && data@[3]@.len() >= output.len() as int / 4); @*/
    let pixels = min2(min2(min2(min2(output.len() / 4, c.len()), m.len()), y.len()), k.len());
    for ix in 0..pixels /*@ invariant output.len() == o0.len(), pixels == o0.len() / 4, data.len() == 4, covers(data@, pixels as int), *c == data@[0], *m == data@[1], *y == data@[2], *k == data@[3],
        c@.len() >= pixels, m@.len() >= pixels, y@.len() >= pixels, k@.len() >= pixels,
        forall|p: int| 0 <= p < ix ==> #[trigger] px(Conv::Cmyk, output@, p * 4, data@, p), forall|i: int| ix * 4 <= i < o0.len() ==> #[trigger] output@[i] == o0[i], @*/ {
        /*@ let ghost o1 = output@; @*/
        let (c, m, y, k) = (&c[ix], &m[ix], &y[ix], &k[ix]);
        output[ix * 4 + 0] = 255 - *c;
        output[ix * 4 + 1] = 255 - *m;
        output[ix * 4 + 2] = 255 - *y;
        output[ix * 4 + 3] = 255 - *k;
        /*@ proof { assert forall|p: int| 0 <= p < ix + 1 implies #[trigger] px(Conv::Cmyk, output@, p * 4, data@, p) by { if p < ix { assert(px(Conv::Cmyk, o1, p * 4, data@, p)); } 
            assert forall|c: int| 0 <= c < 4 implies #[trigger] output@[p * 4 + c] == 255 - data@[c]@[p] by { if p < ix { assert(o1[p * 4 + c] == 255 - data@[c]@[p]); } } } } @*/
    }
}
//@end
//@fn src/decoder.rs color_convert_line_ycck
//@rw destructure assertmsg zip4
fn color_convert_line_ycck(data: &[Vec<u8>], output: &mut [u8]) /*@
    requires data.len() == 4, covers(data@, old(output).len() as int / 4), ensures line_ok(Conv::Ycck, data@, old(output)@, final(output)@) @*/ {
    assert_exec(data.len() == 4);
    let (c, m, y, k) = (&data[0], &data[1], &data[2], &data[3]);
    /*@ let ghost o0 = output@; assert(data@[0]@.len() >= output.len() as int / 4 && data@[1]@.len() >= output.len() as int / 4 && data@[2]@.len() >= output.len() as int / 4 && data@[3]@.len() >= output.len() as int / 4); @*/
    let pixels = min2(min2(min2(min2(output.len() / 4, c.len()), m.len()), y.len()), k.len());
    for ix in 0..pixels /*@ invariant output.len() == o0.len(), pixels == o0.len() / 4, data.len() == 4, covers(data@, pixels as int), *c == data@[0], *m == data@[1], *y == data@[2], *k == data@[3],
        c@.len() >= pixels, m@.len() >= pixels, y@.len() >= pixels, k@.len() >= pixels,
        forall|p: int| 0 <= p < ix ==> #[trigger] px(Conv::Ycck, output@, p * 4, data@, p), forall|i: int| ix * 4 <= i < o0.len() ==> #[trigger] output@[i] == o0[i], @*/ {
        /*@ let ghost o1 = output@; @*/
        let (c, m, y, k) = (&c[ix], &m[ix], &y[ix], &k[ix]);
        let (r, g, b) = ycbcr_to_rgb(*c, *m, *y);
        output[ix * 4 + 0] = r;
        output[ix * 4 + 1] = g;
        output[ix * 4 + 2] = b;
        output[ix * 4 + 3] = 255 - *k;
        /*@ proof { assert forall|p: int| 0 <= p < ix + 1 implies #[trigger] px(Conv::Ycck, output@, p * 4, data@, p) by { if p < ix { assert(px(Conv::Ycck, o1, p * 4, data@, p)); } } } @*/
    }
}
//@end
/// stands for the call through crate::arch::get_color_convert_line_ycbcr: nothing converted, or the first pixels of the line
#[verifier::external_body]
pub fn arch_convert(y: &Vec<u8>, cb: &Vec<u8>, cr: &Vec<u8>, output: &mut [u8]) -> (n: usize)
    requires old(output).len() % 3 == 0, y@.len() >= old(output).len() as int / 3, cb@.len() >= old(output).len() as int / 3, cr@.len() >= old(output).len() as int / 3
    ensures n <= old(output).len() as int / 3, final(output).len() == old(output).len(),
        forall|p: int| 0 <= p < n ==> #[trigger] bt601(final(output)@[p * 3], final(output)@[p * 3 + 1], final(output)@[p * 3 + 2], y@[p], cb@[p], cr@[p]),
        forall|i: int| n * 3 <= i < old(output).len() ==> #[trigger] final(output)@[i] == old(output)@[i],
{ unimplemented!() }
//@fn src/decoder.rs color_convert_line_ycbcr
//@rw destructure assertmsg zip3
//@sub `let $a = { if let Some ( $f ) = crate :: arch :: get_color_convert_line_ycbcr ( ) { unsafe { $f ( $y , $b , $r , $o ) } } else { 0 } } ; let $a = 0 ;` => `let $a = arch_convert ( $y , $b , $r , $o ) ;`
fn color_convert_line_ycbcr(data: &[Vec<u8>], output: &mut [u8]) /*@
    requires old(output).len() % 3 == 0, data.len() == 3, covers(data@, old(output).len() as int / 3), ensures line_ok(Conv::Ycc, data@, old(output)@, final(output)@) @*/ {
    assert_exec(data.len() == 3);
    let (y, cb, cr) = (&data[0], &data[1], &data[2]);
    /*@ let ghost o0 = output@; assert(data@[0]@.len() >= output.len() as int / 3 && data@[1]@.len() >= output.len() as int / 3 && data@[2]@.len() >= output.len() as int / 3); @*/
    let arch_specific_pixels = arch_convert(y, cb, cr, output);
    let pixels = min2(min2(min2(output.len() / 3, y.len()), cb.len()), cr.len());
    /*@ assert forall|p: int| 0 <= p < arch_specific_pixels implies #[trigger] px(Conv::Ycc, output@, p * 3, data@, p) by { assert(bt601(output@[p * 3], output@[p * 3 + 1], output@[p * 3 + 2], y@[p], cb@[p], cr@[p])); } @*/
    for ix in arch_specific_pixels..pixels /*@ invariant output.len() == o0.len(), pixels == o0.len() / 3, arch_specific_pixels <= ix, data.len() == 3, covers(data@, pixels as int), *y == data@[0], *cb == data@[1], *cr == data@[2],
        y@.len() >= pixels, cb@.len() >= pixels, cr@.len() >= pixels,
        forall|p: int| 0 <= p < ix ==> #[trigger] px(Conv::Ycc, output@, p * 3, data@, p), forall|i: int| ix * 3 <= i < o0.len() ==> #[trigger] output@[i] == o0[i], @*/ {
        /*@ let ghost o1 = output@; @*/
        let (y, cb, cr) = (&y[ix], &cb[ix], &cr[ix]);
        let (r, g, b) = ycbcr_to_rgb(*y, *cb, *cr);
        output[ix * 3 + 0] = r;
        output[ix * 3 + 1] = g;
        output[ix * 3 + 2] = b;
        /*@ proof { assert forall|p: int| 0 <= p < ix + 1 implies #[trigger] px(Conv::Ycc, output@, p * 3, data@, p) by { if p < ix { assert(px(Conv::Ycc, o1, p * 3, data@, p)); } } } @*/
    }
}
//@end
//@fn src/decoder.rs color_no_convert
//@rw zip_pixels
fn color_no_convert(data: &[Vec<u8>], output: &mut [u8]) /*@
    requires data.len() == 3 || data.len() == 4, covers(data@, old(output).len() as int / data.len() as int), ensures line_ok(Conv::Plain, data@, old(output)@, final(output)@) @*/ {
    /*@ let ghost o0 = output@; let ghost n = data.len() as int; let ghost pixels = output.len() as int / n; @*/
    for i in /*@ it: @*/ 0..output.len() / data.len() /*@ invariant n == data.len(), n == 3 || n == 4, output.len() == o0.len(), it.iter.end == pixels, pixels == o0.len() as int / n, covers(data@, pixels), 0 <= i,
        forall|p: int| 0 <= p < i ==> #[trigger] px(Conv::Plain, output@, p * n, data@, p), forall|j: int| i * n <= j < o0.len() ==> #[trigger] output@[j] == o0[j], @*/ {
        /*@ proof { assert(i * n + n <= o0.len()) by (nonlinear_arith) requires i < pixels, pixels == o0.len() as int / n, n == 3 || n == 4; } let ghost o2 = output@; @*/
        for ix in 0..data.len() /*@ invariant n == data.len(), n == 3 || n == 4, output.len() == o0.len(), i * n + n <= o0.len(), covers(data@, pixels), i < pixels, 0 <= i,
            forall|j: int| 0 <= j < i * n ==> #[trigger] output@[j] == o2[j], forall|j: int| i * n + ix <= j < o0.len() ==> #[trigger] output@[j] == o0[j],
            forall|c: int| 0 <= c < ix ==> #[trigger] output@[i * n + c] == data@[c]@[i as int], @*/ {
            let component = &data[ix];
            /*@ assert(data@[ix as int]@.len() >= pixels); let ghost o3 = output@; @*/
            output[i * data.len() + ix] = component[i];
            /*@ assert forall|c: int| 0 <= c < ix + 1 implies #[trigger] output@[i * n + c] == data@[c]@[i as int] by { if c < ix { assert(o3[i * n + c] == data@[c]@[i as int]); } } @*/
        }
        /*@ proof { assert((i + 1) * n == i * n + n) by (nonlinear_arith); assert forall|p: int| 0 <= p < i + 1 implies #[trigger] px(Conv::Plain, output@, p * n, data@, p) by {
            if p < i { assert(px(Conv::Plain, o2, p * n, data@, p)); assert(p * n + n <= i * n && p * n >= 0) by (nonlinear_arith) requires 0 <= p < i, n == 3 || n == 4;
              assert forall|c: int| 0 <= c < n implies #[trigger] output@[p * n + c] == data@[c]@[p] by { assert(o2[p * n + c] == data@[c]@[p]); } } } } @*/
    }
}
//@end
