// ---- interpolation -------------------------------------------------------------------------------------------
/// the neighbour on the other side: before for even positions, after for odd ones, clamped to the component
pub open spec fn far(j: int, n: int) -> int { if j % 2 == 0 { if j == 0 { 0 } else { j / 2 - 1 } } else if j / 2 + 1 < n { j / 2 + 1 } else { n - 1 } }
pub open spec fn at(p: Seq<u8>, stride: int, r: int, c: int) -> int { p[r * stride + c] as int }
/// three quarters of the nearer row and one of the farther one, times four
pub open spec fn mix(p: Seq<u8>, ih: int, stride: int, row: int, c: int) -> int { 3 * at(p, stride, row / 2, c) + at(p, stride, far(row, ih), c) }
pub open spec fn up(hf: int, vf: int, nearest: bool, p: Seq<u8>, iw: int, ih: int, stride: int, row: int, j: int) -> int {
    if nearest { at(p, stride, row / vf, j / hf) }
    else if hf == 1 && vf == 1 { at(p, stride, row, j) }
    else if hf == 2 && vf == 1 { (3 * at(p, stride, row, j / 2) + at(p, stride, row, far(j, iw)) + 2) / 4 }
    else if hf == 1 && vf == 2 { (mix(p, ih, stride, row, j) + 2) / 4 }
    else { (3 * mix(p, ih, stride, row, j / 2) + mix(p, ih, stride, row, far(j, iw)) + 8) / 16 }
}
pub open spec fn plane_ok(p: Seq<u8>, iw: int, ih: int, stride: int) -> bool { 1 <= iw <= stride <= 65535 * 8 && 1 <= ih <= 65535 && p.len() >= ih * stride && p.len() <= usize::MAX }
pub open spec fn line_ok(hf: int, vf: int, nearest: bool, p: Seq<u8>, iw: int, ih: int, stride: int, row: int, n: int, o: Seq<u8>) -> bool {
    forall|j: int| 0 <= j < n ==> #[trigger] o[j] == up(hf, vf, nearest, p, iw, ih, stride, row, j)
}
/// rows of the plane lie inside it
pub proof fn row_inside(p: Seq<u8>, iw: int, ih: int, stride: int, r: int) requires plane_ok(p, iw, ih, stride), 0 <= r < ih ensures 0 <= r * stride, r * stride + stride <= p.len(), r * stride <= 65535 * 65535 * 8
{ assert(r * stride + stride <= ih * stride && 0 <= r * stride) by (nonlinear_arith) requires 0 <= r < ih, stride >= 1; assert(r * stride <= 65535 * (65535 * 8)) by (nonlinear_arith) requires 0 <= r <= 65535, 0 <= stride <= 65535 * 8; }
/// row as f32 / 2.0, as an index: proved by Kani on the expressions of the current source (kani/rows.rs)
#[verifier::external_body]
pub fn near_row(row: usize) -> (r: usize) requires row < 131072 ensures r == row / 2 { unimplemented!() }
#[verifier::external_body]
pub fn far_row(row: usize, input_height: usize) -> (r: usize) requires row < 131072, 1 <= input_height <= 65535, row / 2 < input_height ensures r == far(row as int, input_height as int) { unimplemented!() }
pub fn copy_prefix(o: &mut [u8], i: &[u8], n: usize) requires n <= old(o).len(), n <= i.len()
    ensures final(o).len() == old(o).len(), forall|j: int| 0 <= j < n ==> #[trigger] final(o)@[j] == i@[j]
{ for k in 0..n invariant n <= o.len(), n <= i.len(), o.len() == old(o).len(), forall|j: int| 0 <= j < k ==> #[trigger] o@[j] == i@[j] { o[k] = i[k]; } }
pub proof fn times(a: int, x: int) ensures a == 1 ==> a * x == x, a == 2 ==> a * x == 2 * x { assert(a == 1 ==> a * x == x) by (nonlinear_arith); assert(a == 2 ==> a * x == 2 * x) by (nonlinear_arith); }
pub proof fn shr2(v: u32) ensures (v >> 2) == v / 4 { assert((v >> 2) == v / 4) by (bit_vector); }
pub proof fn shr_is() ensures forall|v: u32| #[trigger] (v >> 2) == v / 4, forall|v: u32| #[trigger] (v >> 4) == v / 16 { assert(forall|v: u32| #[trigger] (v >> 2) == v / 4) by (bit_vector); assert(forall|v: u32| #[trigger] (v >> 4) == v / 16) by (bit_vector); }

//@item src/upsampler.rs UpsamplerH1V1
struct UpsamplerH1V1;
//@end
//@item src/upsampler.rs UpsamplerH2V1
struct UpsamplerH2V1;
//@end
//@item src/upsampler.rs UpsamplerH1V2
struct UpsamplerH1V2;
//@end
//@item src/upsampler.rs UpsamplerH2V2
struct UpsamplerH2V2;
//@end
//@item src/upsampler.rs UpsamplerGeneric
struct UpsamplerGeneric {
    horizontal_scaling_factor: u8,
    vertical_scaling_factor: u8
}
//@end
//@item src/upsampler.rs Upsample
trait Upsample {
    /*@ spec fn hf(&self) -> int;
    spec fn vf(&self) -> int;
    spec fn nearest(&self) -> bool; @*/
    fn upsample_row(&self,
                    input: &[u8],
                    input_width: usize,
                    input_height: usize,
                    row_stride: usize,
                    row: usize,
                    output_width: usize,
                    output: &mut [u8]) /*@
        requires plane_ok(input@, input_width as int, input_height as int, row_stride as int), row < 131072, self.hf() >= 1, self.vf() >= 1, row < self.vf() * input_height,
            output_width <= self.hf() * input_width, old(output).len() >= self.hf() * input_width
        ensures final(output).len() == old(output).len(), line_ok(self.hf(), self.vf(), self.nearest(), input@, input_width as int, input_height as int, row_stride as int, row as int, output_width as int, final(output)@) @*/ ;
}
//@end
impl Upsample for UpsamplerH1V1 {
    spec fn hf(&self) -> int { 1 }
    spec fn vf(&self) -> int { 1 }
    spec fn nearest(&self) -> bool { false }
//@fn src/upsampler.rs UpsamplerH1V1::upsample_row
//@sub `let $i = & $i [ $$e .. ] ;` => `let $i = slice_subrange ( $i , $$e , $i . len ( ) ) ;`
//@sub `$o [ .. $n ] . copy_from_slice ( & $i [ .. $n ] ) ;` => `copy_prefix ( $o , $i , $n ) ;`
    fn upsample_row(&self,
                    input: &[u8],
                    _input_width: usize,
                    _input_height: usize,
                    row_stride: usize,
                    row: usize,
                    output_width: usize,
                    output: &mut [u8]) {
        /*@ let ghost p = input@; proof { times(self.vf(), _input_height as int); times(self.hf(), _input_width as int); row_inside(p, _input_width as int, _input_height as int, row_stride as int, row as int); } @*/
        let input = slice_subrange(input, row * row_stride, input.len());

        copy_prefix(output, input, output_width);
    }
//@end
}
impl Upsample for UpsamplerH2V1 {
    spec fn hf(&self) -> int { 2 }
    spec fn vf(&self) -> int { 1 }
    spec fn nearest(&self) -> bool { false }
//@fn src/upsampler.rs UpsamplerH2V1::upsample_row
//@sub `let $i = & $i [ $$e .. ] ;` => `let $i = slice_subrange ( $i , $$e , $i . len ( ) ) ;`
    fn upsample_row(&self,
                    input: &[u8],
                    input_width: usize,
                    _input_height: usize,
                    row_stride: usize,
                    row: usize,
                    _output_width: usize,
                    output: &mut [u8]) {
        /*@ let ghost (p, iw, ih, st) = (input@, input_width as int, _input_height as int, row_stride as int); proof { times(self.vf(), ih); times(self.hf(), iw); row_inside(p, iw, ih, st, row as int); shr_is(); } @*/
        let input = slice_subrange(input, row * row_stride, input.len());
        /*@ assert(forall|k: int| 0 <= k < iw ==> #[trigger] input@[k] == at(p, st, row as int, k)); @*/
        if input_width == 1 {
            output[0] = input[0];
            output[1] = input[0];
            return;
        }

        output[0] = input[0];
        output[1] = ((input[0] as u32 * 3 + input[1] as u32 + 2) >> 2) as u8;
        /*@ assert(output@[1] == up(2, 1, false, p, iw, ih, st, row as int, 1)); assert(output@[0] == up(2, 1, false, p, iw, ih, st, row as int, 0)); @*/
        for i in 1 .. input_width - 1 /*@ invariant input_width >= 2, input_width == iw, output.len() == old(output).len(), output.len() >= 2 * iw, input.len() >= iw, plane_ok(p, iw, ih, st), 0 <= row < ih, iw <= 65535 * 8, row_stride == st,
            forall|k: int| 0 <= k < iw ==> #[trigger] input@[k] == at(p, st, row as int, k),
            line_ok(2, 1, false, p, iw, ih, st, row as int, 2 * i as int, output@) @*/ {
            /*@ proof { shr_is(); } let ghost before = output@; @*/
            let sample = 3 * input[i] as u32 + 2;
            output[i * 2]     = ((sample + input[i - 1] as u32) >> 2) as u8;
            output[i * 2 + 1] = ((sample + input[i + 1] as u32) >> 2) as u8;
            /*@ assert forall|j: int| 0 <= j < 2 * (i + 1) implies #[trigger] output@[j] == up(2, 1, false, p, iw, ih, st, row as int, j) by { if j < 2 * i { assert(output@[j] == before[j]); } } @*/
        }
        /*@ let ghost before = output@; @*/
        output[(input_width - 1) * 2] = ((input[input_width - 1] as u32 * 3 + input[input_width - 2] as u32 + 2) >> 2) as u8;
        output[(input_width - 1) * 2 + 1] = input[input_width - 1];
        /*@ assert forall|j: int| 0 <= j < 2 * iw implies #[trigger] output@[j] == up(2, 1, false, p, iw, ih, st, row as int, j) by { if j < 2 * (iw - 1) { assert(output@[j] == before[j]); } } @*/
    }
//@end
}
impl Upsample for UpsamplerH1V2 {
    spec fn hf(&self) -> int { 1 }
    spec fn vf(&self) -> int { 2 }
    spec fn nearest(&self) -> bool { false }
//@fn src/upsampler.rs UpsamplerH1V2::upsample_row
//@sub `let row_near = $$a ; let row_far = $$b ;` => `let row_near = near_row ( row ) ; let row_far = far_row ( row , input_height ) ;`
//@sub `let $x = & $i [ $$e .. ] ;` => `let $x = slice_subrange ( $i , $$e , $i . len ( ) ) ;`
//@sub `let $x = & mut $x [ .. $n ] ;` => `assert_exec ( $n <= $x . len ( ) ) ;`
//@sub `let $x = & $x [ .. $n ] ;` => `let $x = slice_subrange ( $x , 0 , $n ) ;`
    fn upsample_row(&self,
                    input: &[u8],
                    _input_width: usize,
                    input_height: usize,
                    row_stride: usize,
                    row: usize,
                    output_width: usize,
                    output: &mut [u8]) {
        /*@ let ghost (p, iw, ih, st, n) = (input@, _input_width as int, input_height as int, row_stride as int, output_width as int); proof { times(self.vf(), ih); times(self.hf(), iw); row_inside(p, iw, ih, st, row as int / 2); row_inside(p, iw, ih, st, far(row as int, ih)); shr_is(); } @*/
        let row_near = near_row(row);
        let row_far = far_row(row, input_height);

        let input_near = slice_subrange(input, row_near as usize * row_stride, input.len());
        let input_far = slice_subrange(input, row_far as usize * row_stride, input.len());

        assert_exec(output_width <= output.len());
        let input_near = slice_subrange(input_near, 0, output_width);
        let input_far = slice_subrange(input_far, 0, output_width);
        for i in 0..output_width /*@ invariant n == output_width, output.len() == old(output).len(), n <= output.len(), n == input_near.len(), n == input_far.len(), 
            forall|k: int| 0 <= k < n ==> #[trigger] input_near@[k] == at(p, st, row as int / 2, k), forall|k: int| 0 <= k < n ==> #[trigger] input_far@[k] == at(p, st, far(row as int, ih), k),
            line_ok(1, 2, false, p, iw, ih, st, row as int, i as int, output@) @*/ {
            /*@ proof { shr_is(); } @*/
            output[i] = ((3 * input_near[i] as u32 + input_far[i] as u32 + 2) >> 2) as u8;
        }
    }
//@end
}
impl Upsample for UpsamplerH2V2 {
    spec fn hf(&self) -> int { 2 }
    spec fn vf(&self) -> int { 2 }
    spec fn nearest(&self) -> bool { false }
//@fn src/upsampler.rs UpsamplerH2V2::upsample_row
//@sub `let row_near = $$a ; let row_far = $$b ;` => `let row_near = near_row ( row ) ; let row_far = far_row ( row , input_height ) ;`
//@sub `let $x = & $i [ $$e .. ] ;` => `let $x = slice_subrange ( $i , $$e , $i . len ( ) ) ;`
    fn upsample_row(&self,
                    input: &[u8],
                    input_width: usize,
                    input_height: usize,
                    row_stride: usize,
                    row: usize,
                    _output_width: usize,
                    output: &mut [u8]) {
        /*@ let ghost (p, iw, ih, st) = (input@, input_width as int, input_height as int, row_stride as int); proof { times(self.vf(), ih); times(self.hf(), iw); row_inside(p, iw, ih, st, row as int / 2); row_inside(p, iw, ih, st, far(row as int, ih)); shr_is(); } @*/
        let row_near = near_row(row);
        let row_far = far_row(row, input_height);

        let input_near = slice_subrange(input, row_near as usize * row_stride, input.len());
        let input_far = slice_subrange(input, row_far as usize * row_stride, input.len());
        /*@ assert(forall|k: int| 0 <= k < iw ==> #[trigger] input_near@[k] == at(p, st, row as int / 2, k)); assert(forall|k: int| 0 <= k < iw ==> #[trigger] input_far@[k] == at(p, st, far(row as int, ih), k)); @*/
        if input_width == 1 {
            let value = ((3 * input_near[0] as u32 + input_far[0] as u32 + 2) >> 2) as u8;
            output[0] = value;
            output[1] = value;
            /*@ assert(mix(p, ih, st, row as int, 0) == 3 * input_near@[0] + input_far@[0]); @*/
            return;
        }

        let mut t1 = 3 * input_near[0] as u32 + input_far[0] as u32;
        /*@ assert(mix(p, ih, st, row as int, 0) == t1); @*/
        output[0] = ((t1 + 2) >> 2) as u8;

        for i in 1 .. input_width /*@ invariant input_width >= 2, input_width == iw, output.len() == old(output).len(), output.len() >= 2 * iw, input_near.len() >= iw, input_far.len() >= iw, iw <= 65535 * 8,
            forall|k: int| 0 <= k < iw ==> #[trigger] input_near@[k] == at(p, st, row as int / 2, k), forall|k: int| 0 <= k < iw ==> #[trigger] input_far@[k] == at(p, st, far(row as int, ih), k),
            t1 == mix(p, ih, st, row as int, i - 1), t1 <= 1020,
            line_ok(2, 2, false, p, iw, ih, st, row as int, 2 * i - 1, output@) @*/ {
            /*@ proof { shr_is(); } let ghost before = output@; @*/
            let t0 = t1;
            t1 = 3 * input_near[i] as u32 + input_far[i] as u32;
            /*@ assert(mix(p, ih, st, row as int, i as int) == t1); @*/
            output[i * 2 - 1] = ((3 * t0 + t1 + 8) >> 4) as u8;
            output[i * 2]     = ((3 * t1 + t0 + 8) >> 4) as u8;
            /*@ assert forall|j: int| 0 <= j < 2 * i + 1 implies #[trigger] output@[j] == up(2, 2, false, p, iw, ih, st, row as int, j) by { if j < 2 * i - 1 { assert(output@[j] == before[j]); } } @*/
        }
        /*@ let ghost before = output@; @*/
        output[input_width * 2 - 1] = ((t1 + 2) >> 2) as u8;
        /*@ assert forall|j: int| 0 <= j < 2 * iw implies #[trigger] output@[j] == up(2, 2, false, p, iw, ih, st, row as int, j) by { if j < 2 * iw - 1 { assert(output@[j] == before[j]); } } @*/
    }
//@end
}
impl Upsample for UpsamplerGeneric {
    spec fn hf(&self) -> int { self.horizontal_scaling_factor as int }
    spec fn vf(&self) -> int { self.vertical_scaling_factor as int }
    spec fn nearest(&self) -> bool { true }
//@fn src/upsampler.rs UpsamplerGeneric::upsample_row
//@sub `let $x = & $i [ $a .. ( $$e ) ] ;` => `let $x = slice_subrange ( $i , $a , $$e ) ;`
//@sub `for $v in $i {` => `for col in 0 .. $i . len ( ) { let $v = & $i [ col ] ;`
//@sub `for _ in` => `for k in`
    fn upsample_row(&self,
                    input: &[u8],
                    input_width: usize,
                    _input_height: usize,
                    row_stride: usize,
                    row: usize,
                    _output_width: usize,
                    output: &mut [u8]) {
        /*@ let ghost (p, iw, ih, st, h, v) = (input@, input_width as int, _input_height as int, row_stride as int, self.hf(), self.vf());
            assert(row as int / v < ih && row as int / v >= 0) by (nonlinear_arith) requires row < v * ih, v >= 1, row >= 0; proof { row_inside(p, iw, ih, st, row as int / v); } @*/
        let mut index = 0;
        let start = (row / self.vertical_scaling_factor as usize) * row_stride;
        let input = slice_subrange(input, start, start + input_width);
        /*@ assert(0 * h == 0) by (nonlinear_arith); @*/
        for col in /*@ it: @*/ 0..input.len() /*@ invariant it.iter.end == iw, iw == input.len(), input_width == iw, output.len() == old(output).len(), output.len() >= h * iw, 1 <= h <= 255, h == self.horizontal_scaling_factor, iw <= 65535 * 8, v >= 1, index == col * h,
            forall|k: int| 0 <= k < iw ==> #[trigger] input@[k] == at(p, st, row as int / v, k), line_ok(h, v, true, p, iw, ih, st, row as int, index as int, output@) @*/ {
            let val = &input[col];
            /*@ assert(col * h + h <= h * iw && col * h >= 0) by (nonlinear_arith) requires 0 <= col < iw, h >= 1; assert(h * iw <= 255 * (65535 * 8)) by (nonlinear_arith) requires 0 <= h <= 255, 0 <= iw <= 65535 * 8; @*/
            for k in 0..self.horizontal_scaling_factor /*@ invariant iw == input.len(), 0 <= col < iw, output.len() == old(output).len(), output.len() >= h * iw, 1 <= h <= 255, h == self.horizontal_scaling_factor, v >= 1, index == col * h + k, col * h + h <= h * iw, h * iw <= 255 * (65535 * 8),
                *val == input@[col as int], forall|k: int| 0 <= k < iw ==> #[trigger] input@[k] == at(p, st, row as int / v, k), line_ok(h, v, true, p, iw, ih, st, row as int, index as int, output@) @*/ {
                /*@ assert(index as int / h == col) by (nonlinear_arith) requires index == col * h + k, 0 <= k < h; @*/
                output[index] = *val;
                index += 1;
            }
            /*@ assert(col * h + h == (col + 1) * h) by (nonlinear_arith); @*/
        }
        /*@ assert(index == h * iw) by (nonlinear_arith) requires index == iw * h; @*/
    }
//@end
}
