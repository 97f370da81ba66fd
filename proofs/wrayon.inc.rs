//@item src/worker/rayon.rs ImmediateWorker
/*@ pub @*/ struct ImmediateWorker {
    /*@ pub @*/ offsets: [usize; MAX_COMPONENTS],
    /*@ pub @*/ results: [Vec<u8>; MAX_COMPONENTS],
    /*@ pub @*/ components: [Option<Component>; MAX_COMPONENTS],
    /*@ pub @*/ quantization_tables: [Option<Arc<[u16; 64]>>; MAX_COMPONENTS],
}
//@end
//@item src/worker/rayon.rs ComponentMetadata
/*@ #[derive(Clone, Copy)] @*/
/*@ pub @*/ struct ComponentMetadata {
    /*@ pub @*/ block_width: usize,
    /*@ pub @*/ block_count: usize,
    /*@ pub @*/ line_stride: usize,
    /*@ pub @*/ dct_scale: usize,
}
//@end
//@item src/worker/rayon.rs Scoped
pub struct Scoped {
    /*@ pub @*/ inner: ImmediateWorker,
}
//@end
pub proof fn spot_bounds(bw: int, v: int, s: int, n: int, off: int, len: int) requires bw >= 1, v >= 1, s >= 1, 0 <= n < bw * v, 0 <= off, off + bw * v * s * s <= len
    ensures off + spot(bw, s, n) + (s - 1) * (bw * s) + s <= len, 0 <= spot(bw, s, n), 0 <= (s - 1) * (bw * s), off + spot(bw, s, n) <= len
{ place(bw, v, s, n); assert(0 <= (s - 1) * (bw * s)) by (nonlinear_arith) requires s >= 1, bw * s >= s; }
pub proof fn sizes(bw: int, v: int, s: int) requires 0 <= bw <= 65535, 0 <= v <= 65535, 0 <= s <= 8 ensures 0 <= bw * v <= 4294836225, bw * v * 64 <= 274869518400, bw * v * s <= 34358689800, bw * v * s * s <= 274869518400, 0 <= bw * s <= 524280, 0 <= bw * v * s, 0 <= bw * v * s * s
{
    assert(0 <= bw * v <= 65535 * 65535) by (nonlinear_arith) requires 0 <= bw <= 65535, 0 <= v <= 65535;
    let p = bw * v; assert(0 <= p * s <= 8 * p) by (nonlinear_arith) requires 0 <= p, 0 <= s <= 8; let r = p * s; assert(0 <= r * s <= 8 * r) by (nonlinear_arith) requires 0 <= r, 0 <= s <= 8;
    assert(0 <= bw * s <= 8 * bw) by (nonlinear_arith) requires 0 <= bw, 0 <= s <= 8;
}
/// the metadata of a component
pub open spec fn meta_of(m: ComponentMetadata, c: Component) -> bool {
    m.block_width == c.block_size.width && m.block_count == row_blocks(c) && m.line_stride == c.block_size.width * c.dct_scale && m.dct_scale == c.dct_scale
}
/// number of chunks of the given size
pub open spec fn chunks(len: int, size: int) -> int { (len + size - 1) / size }
pub fn chunk_count(len: usize, size: usize) -> (r: usize) requires size >= 1 ensures r == chunks(len as int, size as int)
{
    proof {
        let (l, s) = (len as int, size as int); let (d, m) = (l / s, l % s);
        assert(l == d * s + m && 0 <= m < s && d >= 0 && d <= l) by (nonlinear_arith) requires s >= 1, l >= 0, d == l / s, m == l % s;
        if m == 0 { assert((d * s + s - 1) / s == d) by (nonlinear_arith) requires s >= 1; } else { assert((d * s + m + s - 1) / s == d + 1) by (nonlinear_arith) requires 1 <= m < s; assert(d < l) by (nonlinear_arith) requires l == d * s + m, s >= 1, m >= 1, d >= 0; }
    }
    if len % size == 0 { len / size } else { len / size + 1 }
}
pub fn min3(a: usize, b: usize, c: usize) -> (r: usize) ensures r <= a, r <= b, r <= c, r == a || r == b || r == c { if a <= b && a <= c { a } else if b <= c { b } else { c } }
/// to[..n].copy_from_slice(&from[..n])
pub fn copy_front(to: &mut [u8], from: &[u8], n: usize) requires n <= old(to).len(), n <= from.len()
    ensures final(to).len() == old(to).len(), forall|j: int| 0 <= j < n ==> #[trigger] final(to)@[j] == from@[j], forall|j: int| n <= j < old(to).len() ==> #[trigger] final(to)@[j] == old(to)@[j]
{ let ghost o0 = to@; for k in 0..n invariant n <= to.len(), n <= from.len(), to.len() == o0.len(), forall|j: int| 0 <= j < k ==> #[trigger] to@[j] == from@[j], forall|j: int| k <= j < to.len() ==> #[trigger] to@[j] == o0[j] { to[k] = from[k]; } }
/// s lines of s samples copied from a line of blocks of 8 to lines of st
pub open spec fn copied(b: Seq<u8>, t0: Seq<u8>, t: Seq<u8>, st: int, s: int, n: int) -> bool {
    &&& t.len() == t0.len()
    &&& forall|l: int, m: int| 0 <= l < n && 0 <= m < s ==> #[trigger] t[l * st + m] == b[l * 8 + m]
    &&& forall|j: int| 0 <= j < t.len() && !(j / st < n && j % st < s) ==> #[trigger] t[j] == t0[j]
}
pub proof fn copied_line(b: Seq<u8>, t0: Seq<u8>, t1: Seq<u8>, t2: Seq<u8>, st: int, s: int, n: int)
    requires 1 <= s <= 8, st >= s, 0 <= n < s, copied(b, t0, t1, st, s, n), t2.len() == t1.len(), (s - 1) * st + s <= t1.len(), b.len() == 64,
        forall|m: int| 0 <= m < s ==> #[trigger] t2[n * st + m] == b[n * 8 + m], forall|j: int| 0 <= j < t1.len() && !(n * st <= j < n * st + s) ==> #[trigger] t2[j] == t1[j]
    ensures copied(b, t0, t2, st, s, n + 1)
{
    assert forall|l: int, m: int| 0 <= l < n + 1 && 0 <= m < s implies #[trigger] t2[l * st + m] == b[l * 8 + m] by {
        if l < n {
            assert(0 <= l * st && l * st + st <= n * st && n * st <= (s - 1) * st) by (nonlinear_arith) requires 0 <= l < n, n <= s - 1, st >= 1;
            assert(t2[l * st + m] == t1[l * st + m]);
        }
    }
    assert forall|j: int| 0 <= j < t2.len() && !(j / st < n + 1 && j % st < s) implies #[trigger] t2[j] == t0[j] by {
        if n * st <= j < n * st + s { assert(j / st == n && j % st == j - n * st) by (nonlinear_arith) requires n * st <= j < n * st + s, st >= s, n >= 0; }
        assert(t2[j] == t1[j]);
    }
}
pub proof fn copied_all(b: Seq<u8>, t0: Seq<u8>, t: Seq<u8>, st: int, s: int) requires 1 <= s <= 8, st >= s, copied(b, t0, t, st, s, s) ensures outside(t0, t, st, s), cut(t, 0, st, s) == cut(b, 0, 8, s)
{
    assert forall|k: int| 0 <= k < s * s implies #[trigger] cut(t, 0, st, s)[k] == cut(b, 0, 8, s)[k] by {
        assert(0 <= k / s < s && 0 <= k % s < s) by (nonlinear_arith) requires 0 <= k < s * s, s >= 1;
        assert(t[(k / s) * st + k % s] == b[(k / s) * 8 + k % s]);
    }
    assert(cut(t, 0, st, s) =~= cut(b, 0, 8, s));
}
pub proof fn lines_fit(len: int, st: int, s: int) requires 1 <= s <= 8, st >= s, len >= (s - 1) * st + s ensures chunks(len, st) >= s, chunks(64, 8) == 8
{ assert((len + st - 1) / st >= s) by (nonlinear_arith) requires len >= (s - 1) * st + s, st >= 1, s >= 1; }
pub proof fn line_at(st: int, s: int, n: int, len: int) requires 0 <= n < s, st >= s, (s - 1) * st + s <= len ensures 0 <= n * st, n * st + s <= len
{ assert(0 <= n * st && n * st <= (s - 1) * st) by (nonlinear_arith) requires 0 <= n <= s - 1, st >= 1; }
pub proof fn blocks_shift(o: Seq<u8>, t: Seq<u8>, off: int, bw: int, v: int, s: int, data: Seq<i16>, q: Seq<u16>) 
    requires bw >= 1, v >= 1, s >= 1, 0 <= off, off + t.len() <= o.len(), bw * v * s * s <= t.len(), t == o.subrange(off, off + t.len()), blocks_ok(t, 0, bw, s, data, q, bw * v) ensures blocks_ok(o, off, bw, s, data, q, bw * v)
{
    assert forall|i: int| 0 <= i < bw * v implies is_idct(s, #[trigger] coefs(data, i), q, cut(o, off + spot(bw, s, i), bw * s, s)) by {
        assert(is_idct(s, coefs(data, i), q, cut(t, 0 + spot(bw, s, i), bw * s, s)));
        let (a, b) = (cut(t, spot(bw, s, i), bw * s, s), cut(o, off + spot(bw, s, i), bw * s, s));
        assert forall|k: int| 0 <= k < s * s implies #[trigger] a[k] == b[k] by {
            assert(0 <= k / s < s && 0 <= k % s < s) by (nonlinear_arith) requires 0 <= k < s * s, s >= 1;
            area_byte(bw, v, s, i, k / s, k % s);
        }
        assert(a =~= b);
    }
}
impl ImmediateWorker {
    pub open spec fn same_but(&self, other: &Self, i: int) -> bool { forall|j: int| 0 <= j < 4 && j != i ==> self.results[j]@ == #[trigger] other.results[j]@ && self.offsets[j] == other.offsets[j] && self.components[j] == other.components[j] && self.quantization_tables[j] == other.quantization_tables[j] }
//@fn src/worker/rayon.rs ImmediateWorker::start_immediate
    pub fn start_immediate(&mut self, data: RowData) /*@
        requires data.index < 4, old(self).results[data.index as int]@.len() == 0, comp_ok(data.component)
        ensures final(self).same_but(old(self), data.index as int), final(self).offsets[data.index as int] == 0, final(self).components[data.index as int] == Some(data.component), final(self).quantization_tables[data.index as int] == Some(data.quantization_table),
            final(self).results[data.index as int]@.len() == plane_len(data.component) @*/ {
        /*@ proof { sizes(data.component.block_size.width as int, data.component.block_size.height as int, data.component.dct_scale as int); } @*/
        let elements = data.component.block_size.width as usize
            * data.component.block_size.height as usize
            * data.component.dct_scale
            * data.component.dct_scale;
        self.offsets[data.index] = 0;
        self.results[data.index].resize(elements, 0u8);
        self.components[data.index] = Some(data.component);
        self.quantization_tables[data.index] = Some(data.quantization_table);
    }
//@end
//@fn src/worker/rayon.rs ImmediateWorker::get_result_immediate
//@sub `core :: mem :: take ( & mut self . results [ index ] )` => `take_vec ( & mut self . results [ index ] )`
    pub fn get_result_immediate(&mut self, index: usize) -> /*@ (r: @*/ Vec<u8> /*@ )
        requires index < 4
        ensures r@ == old(self).results[index as int]@, final(self).results[index as int]@.len() == 0, final(self).same_but(old(self), index as int), final(self).components == old(self).components @*/ {
        take_vec(&mut self.results[index])
    }
//@end
//@fn src/worker/rayon.rs ImmediateWorker::component_metadata
    fn component_metadata(&self, index: usize) -> /*@ (r: @*/ Option<ComponentMetadata> /*@ )
        requires index < 4, self.components[index as int] matches Some(c) ==> comp_ok(c)
        ensures match self.components[index as int] { Some(c) => r matches Some(m) && meta_of(m, c), None => r is None } @*/ {
        let component = self.components[index].as_ref()?;
        /*@ proof { sizes(component.block_size.width as int, component.vertical_sampling_factor as int, component.dct_scale as int); } @*/
        let block_size = component.block_size;
        let block_width = block_size.width as usize;
        let block_count = block_size.width as usize * component.vertical_sampling_factor as usize;
        let line_stride = block_size.width as usize * component.dct_scale;
        let dct_scale = component.dct_scale;

        Some(ComponentMetadata {
            block_width,
            block_count,
            line_stride,
            dct_scale,
        })
    }
//@end
//@fn src/worker/rayon.rs ImmediateWorker::append_row_locked
//@sub `assert_eq ! ( $$a , $$b ) ;` => `assert_exec ( $$a == $$b ) ;`
//@sub `let ComponentMetadata { block_count , line_stride , block_width , dct_scale , } = metadata ;` => `let ComponentMetadata { block_count , line_stride , block_width , dct_scale } = metadata ;`
//@sub `= & data [ $$a .. $$b ] . try_into ( ) . unwrap ( ) ;` => `= & block64 ( data . as_slice ( ) , $$a , $$b ) ;`
//@sub `let mut output_buffer = [ 0 ; 64 ] ;` => `let mut output_buffer : [ u8 ; 64 ] = [ 0 ; 64 ] ;`
//@sub `let $b = output_buffer . chunks_mut ( $$a ) ; let $l = write_back . chunks_mut ( $$c ) ; for ( buf , back ) in $b . zip ( $l ) . take ( $$n ) { back [ .. $$m ] . copy_from_slice ( & buf [ .. $$k ] ) ; }` => `let lines = min3 ( chunk_count ( output_buffer . len ( ) , $$a ) , chunk_count ( write_back . len ( ) , $$c ) , $$n ) ; for line in 0 .. lines { let buf = & output_buffer . as_slice ( ) [ line * $$a .. min2 ( line * $$a + $$a , output_buffer . len ( ) ) ] ; let to = min2 ( line * $$c + $$c , write_back . len ( ) ) ; let back = & mut write_back [ line * $$c .. to ] ; assert_exec ( $$m == $$k ) ; copy_front ( back , buf , $$m ) ; }`
    fn append_row_locked(
        /*@ Ghost(v): Ghost<int>, @*/
        quantization_table: Arc<[u16; 64]>,
        metadata: ComponentMetadata,
        data: Vec<i16>,
        result_block: &mut [u8],
    ) /*@
        requires scale_ok(metadata.dct_scale as int), 1 <= metadata.block_width <= 65535, 1 <= v <= 255, metadata.block_count == metadata.block_width * v, metadata.line_stride == metadata.block_width * metadata.dct_scale,
            data.len() == metadata.block_count * 64, metadata.block_width * v * metadata.dct_scale * metadata.dct_scale <= old(result_block).len() <= usize::MAX / 2
        ensures only(old(result_block)@, final(result_block)@, 0, metadata.block_width * v * metadata.dct_scale * metadata.dct_scale),
            blocks_ok(final(result_block)@, 0, metadata.block_width as int, metadata.dct_scale as int, data@, quantization_table@, metadata.block_width * v) @*/ {
        // Convert coefficients from a MCU row to samples.
        let ComponentMetadata {
            block_count,
            line_stride,
            block_width,
            dct_scale
        } = metadata;
        /*@ let ghost (bw, s, q, o0) = (block_width as int, dct_scale as int, quantization_table@, result_block@); proof { sizes(bw, v, s); } @*/

        assert_exec(data.len() == block_count * 64);

        let mut output_buffer: [u8; 64] = [0; 64];
        for i in /*@ it: @*/ 0..block_count /*@ invariant it.iter.end == bw * v, bw == block_width, s == dct_scale, 1 <= bw <= 65535, 1 <= v <= 255, scale_ok(s), block_count == bw * v, line_stride == bw * s, data.len() == block_count * 64, q == quantization_table@, bw * v * s * s <= o0.len() <= usize::MAX / 2,
            only(o0, result_block@, 0, bw * v * s * s), blocks_ok(result_block@, 0, bw, s, data@, q, i as int) @*/ {
            /*@ let ghost before = result_block@; proof { place(bw, v, s, i as int); sizes(bw, v, s); sizes(v, 1, s); spot_bounds(bw, v, s, i as int, 0, o0.len() as int); coefs_at(data@, i as int); } @*/
            let x = (i % block_width) * dct_scale;
            let y = (i / block_width) * dct_scale;
            /*@ assert(y * line_stride + x == spot(bw, s, i as int)); assert(0 <= y * line_stride); @*/

            let coefficients: &[i16; 64] = &block64(data.as_slice(), i * 64, (i + 1) * 64);

            // Write to a temporary intermediate buffer, a 8x8 'image'.
            dequantize_and_idct_block(
                dct_scale,
                coefficients,
                &quantization_table,
                8,
                &mut output_buffer,
            );
            /*@ let ghost b = output_buffer@; @*/

            let write_back = &mut result_block[y * line_stride + x..];
            /*@ let ghost t0 = write_back@; assert(t0 =~= before.subrange(spot(bw, s, i as int), before.len() as int)); assert(t0.len() >= (s - 1) * (bw * s) + s); proof { lines_fit(t0.len() as int, bw * s, s); } @*/

            let lines = min3(chunk_count(output_buffer.len(), 8), chunk_count(write_back.len(), line_stride), dct_scale);
            for line in /*@ it2: @*/ 0..lines /*@ invariant it2.iter.end == s, b == output_buffer@, scale_ok(s), s == dct_scale, line_stride == bw * s, 1 <= bw <= 65535, write_back@.len() == t0.len(), t0.len() >= (s - 1) * (bw * s) + s, bw * s >= s, bw * s <= 524280, t0.len() <= usize::MAX - 1000000, copied(b, t0, write_back@, bw * s, s, line as int) @*/ {
                /*@ let ghost t1 = write_back@; proof { line_at(bw * s, s, line as int, t0.len() as int); } @*/
                let buf = &output_buffer.as_slice()[line * 8..min2(line * 8 + 8, output_buffer.len())];
                let to = min2(line * line_stride + line_stride, write_back.len());
                let back = &mut write_back[line * line_stride..to];
                assert_exec(dct_scale == dct_scale);
                copy_front(back, buf, dct_scale);
                /*@ proof { copied_line(b, t0, t1, write_back@, bw * s, s, line as int); } @*/
            }
            /*@ let ghost t1 = write_back@; proof { copied_all(b, t0, t1, bw * s, s); let o1 = result_block@;
                assert(o1.len() == before.len()); assert(t1 =~= o1.subrange(spot(bw, s, i as int), o1.len() as int));
                at_its_place(before, o1, t0, t1, 0, bw, v, s, i as int); step_block(before, o1, 0, bw, v, s, data@, q, i as int); row_only(o0, before, o1, 0, bw, v, s, i as int); } @*/
        }
    }
//@end
}
impl ComponentMetadata {
//@fn src/worker/rayon.rs ComponentMetadata::bytes_used
    fn bytes_used(&self) -> /*@ (r: @*/ usize /*@ )
        requires self.block_count <= 65535 * 65535, self.dct_scale <= 8
        ensures r == self.block_count * self.dct_scale * self.dct_scale @*/ {
        /*@ proof { let (a, s) = (self.block_count as int, self.dct_scale as int); assert(0 <= a * s <= a * 8) by (nonlinear_arith) requires a >= 0, 0 <= s <= 8; let b = a * s; assert(0 <= b * s <= b * 8) by (nonlinear_arith) requires b >= 0, 0 <= s <= 8; } @*/
        self.block_count * self.dct_scale * self.dct_scale
    }
//@end
}
/// where the part of a plane that has not been handed out starts: plane.get_mut(offset ..).unwrap_or(&mut [])
pub fn rest_start(plane: &Vec<u8>, offset: usize) -> (r: usize) ensures r <= plane.len(), offset <= plane.len() ==> r == offset { if offset <= plane.len() { offset } else { plane.len() } }
/// mem::take(&mut rest).split_at_mut(n), the tail put back: the part handed out
pub fn hand_out(starts: &mut [usize; 4], index: usize, n: usize, len: usize) -> (r: (usize, usize))
    requires index < 4, old(starts)[index as int] <= len, n <= len - old(starts)[index as int]
    ensures r.0 == old(starts)[index as int], r.1 == r.0 + n, final(starts)@ == old(starts)@.update(index as int, r.1)
{ let lo = starts[index]; starts[index] = lo + n; (lo, lo + n) }
pub proof fn meta_facts(m: ComponentMetadata, c: Component) requires meta_of(m, c), comp_ok(c)
    ensures m.block_count * m.dct_scale * m.dct_scale == used(c), m.block_count <= 65535 * 65535, scale_ok(m.dct_scale as int), 1 <= m.block_width <= 65535, used(c) >= 1, used(c) <= 274869518400
{ sizes(c.block_size.width as int, c.vertical_sampling_factor as int, c.dct_scale as int); used_pos(c); }
pub proof fn plane_small(c: Component) requires comp_ok(c) ensures 0 <= plane_len(c) <= 274869518400 { sizes(c.block_size.width as int, c.block_size.height as int, c.dct_scale as int); }
/// a row written into its part of the plane
pub proof fn part_done(o0: Seq<u8>, o1: Seq<u8>, t0: Seq<u8>, t1: Seq<u8>, off: int, c: Component, row: Seq<i16>, q: Seq<u16>, rows: Seq<Seq<i16>>)
    requires comp_ok(c), rows_in(o0, c, q, rows), fits(c, rows.len() + 1), off == rows.len() * used(c), o1.len() == o0.len(), used(c) <= t0.len(), off + t0.len() <= o0.len(), t1.len() == t0.len(),
        t1 == o1.subrange(off, off + t0.len()), t0 == o0.subrange(off, off + t0.len()), forall|j: int| 0 <= j < o0.len() && !(off <= j < off + t0.len()) ==> #[trigger] o1[j] == o0[j],
        only(t0, t1, 0, used(c)), blocks_ok(t1, 0, c.block_size.width as int, c.dct_scale as int, row, q, row_blocks(c))
    ensures rows_in(o1, c, q, rows.push(row)), off + used(c) == (rows.len() + 1) * used(c)
{
    used_pos(c);
    assert((rows.len() + 1) * used(c) == rows.len() * used(c) + used(c)) by (nonlinear_arith);
    assert(off >= 0) by (nonlinear_arith) requires off == rows.len() * used(c), used(c) >= 1;
    assert(used(c) == c.block_size.width * c.vertical_sampling_factor * c.dct_scale * c.dct_scale);
    blocks_shift(o1, t1, off, c.block_size.width as int, c.vertical_sampling_factor as int, c.dct_scale as int, row, q);
    assert forall|j: int| 0 <= j < o1.len() && !(off <= j < off + used(c)) implies #[trigger] o1[j] == o0[j] by { if off <= j < off + t0.len() { assert(t1[j - off] == t0[j - off]); } }
    rows_push(o0, o1, c, q, rows, row);
}
pub proof fn room(c: Component, n: nat) requires comp_ok(c), fits(c, n + 1) ensures 0 <= n * used(c), n * used(c) + used(c) <= plane_len(c), plane_len(c) <= 274869518400
{ plane_small(c); used_pos(c); assert((n + 1) * used(c) == n * used(c) + used(c)) by (nonlinear_arith); assert(n * used(c) >= 0) by (nonlinear_arith) requires n >= 0, used(c) >= 1; }
impl Scoped {
    pub open spec fn state(&self, i: int, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>) -> bool {
        comp_ok(c) && self.inner.components[i] == Some(c) && (self.inner.quantization_tables[i] matches Some(t) && t@ == q) && self.inner.offsets[i] == rows.len() * used(c) && rows_in(self.inner.results[i]@, c, q, rows)
    }
}
pub proof fn keeps(a: Scoped, b: Scoped, i: int)
    requires b.inner.same_but(&a.inner, i) ensures forall|j: int| 0 <= j < 4 && j != i && #[trigger] a.idle(j) ==> b.idle(j),
        forall|j: int, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>| 0 <= j < 4 && j != i && #[trigger] a.holds(j, c, q, rows) ==> b.holds(j, c, q, rows)
{
    assert forall|j: int| 0 <= j < 4 && j != i && #[trigger] a.idle(j) implies b.idle(j) by { assert(b.inner.results[j]@ == a.inner.results[j]@); }
    assert forall|j: int, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>| 0 <= j < 4 && j != i && #[trigger] a.holds(j, c, q, rows) implies b.holds(j, c, q, rows) by { assert(b.inner.results[j]@ == a.inner.results[j]@); }
}
pub proof fn still_ok(a: Scoped, b: Scoped) requires a.ok(), forall|j: int| 0 <= j < 4 ==> #[trigger] b.inner.components[j] == a.inner.components[j] ensures b.ok()
{ assert forall|j: int| 0 <= j < 4 implies ((#[trigger] b.inner.components[j]) matches Some(c) ==> comp_ok(c)) by { assert(a.inner.components[j] == b.inner.components[j]); } }
impl Worker for Scoped {
    open spec fn ok(&self) -> bool { forall|j: int| 0 <= j < 4 ==> ((#[trigger] self.inner.components[j]) matches Some(c) ==> comp_ok(c)) }
    open spec fn idle(&self, i: int) -> bool { self.inner.results[i]@.len() == 0 }
    open spec fn holds(&self, i: int, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>) -> bool { self.state(i, c, q, rows) }
//@fn src/worker/rayon.rs Scoped::start
    fn start(&mut self, row_data: RowData) -> Result<()> {
        /*@ let ghost a = *self; let ghost d = row_data; @*/
        self.inner.start_immediate(row_data);
        /*@ proof { keeps(a, *self, d.index as int); assert forall|j: int| 0 <= j < 4 implies ((#[trigger] self.inner.components[j]) matches Some(c) ==> comp_ok(c)) by { if j != d.index { assert(self.inner.results[j]@ == a.inner.results[j]@); } assert(a.inner.components[j] matches Some(c) ==> comp_ok(c)); }
            assert(0 * used(d.component) == 0); assert(self.state(d.index as int, d.component, d.quantization_table@, Seq::empty())); } @*/
        Ok(())
    }
//@end
//@fn src/worker/rayon.rs Scoped::append_row
//@sub `& mut inner . results [ index ] [ $$a .. ] ;` => `& mut inner . results [ index ] . as_mut_slice ( ) [ $$a .. ] ;`
    fn append_row(&mut self, row: (usize, Vec<i16>)) -> Result<()> {
        /*@ let ghost i = row.0 as int; let ghost (c, q, rows) = choose|c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>| #[trigger] self.holds(i, c, q, rows) && row_ok(c, row.1@) && fits(c, rows.len() + 1);
            assert(self.holds(i, c, q, rows) && row_ok(c, row.1@) && fits(c, rows.len() + 1)); let ghost a = *self; let ghost v = c.vertical_sampling_factor as int; proof { room(c, rows.len()); } @*/
        let inner = &mut self.inner;
        let (index, data) = row;

        let quantization_table = inner.quantization_tables[index].as_ref().unwrap().clone();
        let metadata = inner.component_metadata(index).unwrap();
        /*@ proof { meta_facts(metadata, c); } @*/
        let result_block = &mut inner.results[index].as_mut_slice()[inner.offsets[index]..];
        /*@ let ghost t0 = result_block@; @*/
        inner.offsets[index] += metadata.bytes_used();

        ImmediateWorker::append_row_locked(/*@ Ghost(v), @*/ quantization_table, metadata, data, result_block);
        /*@ proof { let b = *self; let (o0, o1) = (a.inner.results[i]@, b.inner.results[i]@); let off = rows.len() * used(c);
            assert(o1.len() == o0.len()); assert(t0 =~= o0.subrange(off, off + t0.len()));
            part_done(o0, o1, t0, o1.subrange(off, off + t0.len()), off, c, row.1@, q, rows);
            assert(b.holds(i, c, q, rows.push(row.1@))); keeps(a, b, i);
            assert forall|c2: Component, q2: Seq<u16>, rows2: Seq<Seq<i16>>| #[trigger] a.holds(i, c2, q2, rows2) implies b.holds(i, c2, q2, rows2.push(row.1@)) by {
                assert(rows2.len() == rows.len()) by (nonlinear_arith) requires rows2.len() * used(c) == rows.len() * used(c), used(c) >= 1;
                part_done(o0, o1, t0, o1.subrange(off, off + t0.len()), off, c2, row.1@, q2, rows2); } } @*/
        Ok(())
    }
//@end
//@fn src/worker/rayon.rs Scoped::get_result
    fn get_result(&mut self, index: usize) -> Result<Vec<u8>> {
        /*@ let ghost a = *self; @*/
        let result = self.inner.get_result_immediate(index);
        /*@ proof { keeps(a, *self, index as int); assert forall|j: int| 0 <= j < 4 implies ((#[trigger] self.inner.components[j]) matches Some(c) ==> comp_ok(c)) by { if j != index { assert(self.inner.results[j]@ == a.inner.results[j]@); } assert(a.inner.components[j] matches Some(c) ==> comp_ok(c)); } } @*/
        Ok(result)
    }
//@end
//@fn src/worker/rayon.rs Scoped::append_rows
//@sub `iter : & mut dyn Iterator < Item = ( usize , Vec < i16 > ) >` => `iter : & mut TaskIter`
//@sub `for ( $i , $d ) in iter {` => `loop { let ( $i , $d ) = match iter . next ( ) { Some ( x ) => x , None => break } ;`
//@sub `rayon :: in_place_scope ( | scope | { $%body } ) ;` => `$%body`
//@sub `let [ $a , $b , $c , $d ] = & mut inner . results ; let mut result_blocks = [ $a . get_mut ( inner . offsets [ 0 ] .. ) . unwrap_or ( & mut [ ] ) , $b . get_mut ( inner . offsets [ 1 ] .. ) . unwrap_or ( & mut [ ] ) , $c . get_mut ( inner . offsets [ 2 ] .. ) . unwrap_or ( & mut [ ] ) , $d . get_mut ( inner . offsets [ 3 ] .. ) . unwrap_or ( & mut [ ] ) , ] ;` => `let mut result_blocks = [ rest_start ( & inner . results [ 0 ] , inner . offsets [ 0 ] ) , rest_start ( & inner . results [ 1 ] , inner . offsets [ 1 ] ) , rest_start ( & inner . results [ 2 ] , inner . offsets [ 2 ] ) , rest_start ( & inner . results [ 3 ] , inner . offsets [ 3 ] ) ] ;`
//@sub `let ( result_block , tail ) = core :: mem :: take ( & mut result_blocks [ index ] ) . split_at_mut ( $$n ) ; result_blocks [ index ] = tail ;` => `let ( lo , hi ) = hand_out ( & mut result_blocks , index , $$n , inner . results [ index ] . len ( ) ) ; let result_block = & mut inner . results [ index ] . as_mut_slice ( ) [ lo .. hi ] ;`
//@sub `scope . spawn ( move | _ | { $%task } ) ;` => `$%task ;`
    fn append_rows(&mut self, /*@ Ghost(ix): Ghost<int>, Ghost(c): Ghost<Component>, Ghost(q): Ghost<Seq<u16>>, Ghost(rows): Ghost<Seq<Seq<i16>>>, @*/ iter: &mut TaskIter) -> Result<()> {
        /*@ let ghost a = *self; let ghost all = rows + task_rows(iter.rest()); let ghost mut done = rows; let ghost v = c.vertical_sampling_factor as int; assert(self.state(ix, c, q, rows)); let ghost tasks = iter.rest(); @*/
        let inner = &mut self.inner;
        let metadatas = [
            inner.component_metadata(0),
            inner.component_metadata(1),
            inner.component_metadata(2),
            inner.component_metadata(3),
        ];

        // Lazily get the blocks. Note: if we've already collected results from a component
        // then the result vector has already been deallocated/taken. But no more tasks should
        // be created for it.
        let mut result_blocks = [rest_start(&inner.results[0], inner.offsets[0]), rest_start(&inner.results[1], inner.offsets[1]), rest_start(&inner.results[2], inner.offsets[2]), rest_start(&inner.results[3], inner.offsets[3])];
        /*@ proof { fits_less(c, rows.len() as nat, (rows.len() + tasks.len()) as nat); plane_small(c); assert(ix == 0 || ix == 1 || ix == 2 || ix == 3); } @*/

        // First we schedule everything, making sure their index is right etc.
        loop /*@ invariant 0 <= ix < 4, comp_ok(c), inner.components == a.inner.components, inner.quantization_tables == a.inner.quantization_tables, forall|j: int| 0 <= j < 4 && j != ix ==> #[trigger] inner.results[j]@ == a.inner.results[j]@ && inner.offsets[j] == a.inner.offsets[j],
            a.inner.components[ix] == Some(c), (a.inner.quantization_tables[ix] matches Some(t) && t@ == q), metadatas[ix] is Some, meta_of(metadatas[ix]->0, c), v == c.vertical_sampling_factor,
            inner.offsets[ix] == done.len() * used(c), result_blocks[ix] == done.len() * used(c), rows_in(inner.results[ix]@, c, q, done),
            all == done + task_rows(iter.rest()), tasks_ok(iter.rest(), ix, c), fits(c, done.len() + iter.rest().len())
            ensures inner.components == a.inner.components, inner.quantization_tables == a.inner.quantization_tables, forall|j: int| 0 <= j < 4 && j != ix ==> #[trigger] inner.results[j]@ == a.inner.results[j]@ && inner.offsets[j] == a.inner.offsets[j],
                rows_in(inner.results[ix]@, c, q, all), inner.offsets[ix] == all.len() * used(c)
            decreases iter.rest().len() @*/ {
            /*@ let ghost t = iter.rest(); let ghost o0 = inner.results[ix]@; proof { if t.len() == 0 { task_none(t, done); } else { task_first(t, done); fits_less(c, done.len() + 1, (done.len() + t.len()) as nat); room(c, done.len()); } } @*/
            let (index, data) = match iter.next() { Some(x) => x, None => break };
            /*@ assert(index == ix && row_ok(c, data@)); let ghost row = data@; @*/
            let metadata = metadatas[index].unwrap();
            /*@ proof { meta_facts(metadata, c); } @*/
            let quantization_table = inner.quantization_tables[index].as_ref().unwrap().clone();

            inner.offsets[index] += metadata.bytes_used();
            let (lo, hi) = hand_out(&mut result_blocks, index, metadata.bytes_used(), inner.results[index].len());
            let result_block = &mut inner.results[index].as_mut_slice()[lo..hi];
            /*@ let ghost t0 = result_block@; @*/

            ImmediateWorker::append_row_locked(
                /*@ Ghost(v), @*/
                quantization_table,
                metadata,
                data,
                result_block,
            );
            /*@ proof { let o1 = inner.results[ix]@; let off = done.len() * used(c);
                assert(o1.len() == o0.len()); assert(t0 =~= o0.subrange(off, off + t0.len()));
                part_done(o0, o1, t0, o1.subrange(off, off + t0.len()), off, c, row, q, done);
                done = done.push(row); assert(forall|k: int| 0 <= k < t.len() - 1 ==> #[trigger] t.skip(1)[k] == t[k + 1]); } @*/
        }
        /*@ assert(self.state(ix, c, q, all)); proof { keeps(a, *self, ix); } @*/

        Ok(())
    }
//@end
}
