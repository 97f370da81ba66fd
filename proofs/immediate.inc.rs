//@item src/worker/immediate.rs ImmediateWorker
pub struct ImmediateWorker {
    offsets: [usize; MAX_COMPONENTS],
    results: Vec<Vec<u8>>,
    components: Vec<Option<Component>>,
    quantization_tables: Vec<Option<Arc<[u16; 64]>>>,
}
//@end
pub proof fn spot_bounds(bw: int, v: int, s: int, n: int, off: int, len: int) requires bw >= 1, v >= 1, s >= 1, 0 <= n < bw * v, 0 <= off, off + bw * v * s * s <= len
    ensures off + spot(bw, s, n) + (s - 1) * (bw * s) + s <= len, 0 <= spot(bw, s, n), 0 <= (s - 1) * (bw * s), off + spot(bw, s, n) <= len
{ place(bw, v, s, n); assert(0 <= (s - 1) * (bw * s)) by (nonlinear_arith) requires s >= 1, bw * s >= s; }
pub proof fn sizes(bw: int, v: int, s: int) requires 0 <= bw <= 65535, 0 <= v <= 65535, 0 <= s <= 8 ensures 0 <= bw * v <= 4294836225, bw * v * 64 <= 274869518400, bw * v * s <= 34358689800, bw * v * s * s <= 274869518400, 0 <= bw * s <= 524280, 0 <= bw * v * s, 0 <= bw * v * s * s
{
    assert(0 <= bw * v <= 65535 * 65535) by (nonlinear_arith) requires 0 <= bw <= 65535, 0 <= v <= 65535;
    let p = bw * v; assert(0 <= p * s <= 8 * p) by (nonlinear_arith) requires 0 <= p, 0 <= s <= 8; let r = p * s; assert(0 <= r * s <= 8 * r) by (nonlinear_arith) requires 0 <= r, 0 <= s <= 8;
    assert(0 <= bw * s <= 8 * bw) by (nonlinear_arith) requires 0 <= bw, 0 <= s <= 8;
}
impl ImmediateWorker {
    pub closed spec fn shape(&self) -> bool { self.results.len() == 4 && self.components.len() == 4 && self.quantization_tables.len() == 4 }
    pub closed spec fn plane(&self, i: int) -> Seq<u8> { self.results@[i]@ }
    pub closed spec fn offset(&self, i: int) -> int { self.offsets[i] as int }
    pub closed spec fn comp(&self, i: int) -> Option<Component> { self.components@[i] }
    pub closed spec fn table(&self, i: int) -> Option<Arc<[u16; 64]>> { self.quantization_tables@[i] }
    pub closed spec fn same_but(&self, other: &Self, i: int) -> bool { forall|j: int| 0 <= j < 4 && j != i ==> self.results@[j]@ == #[trigger] other.results@[j]@ && self.offsets[j] == other.offsets[j] && self.components@[j] == other.components@[j] && self.quantization_tables@[j] == other.quantization_tables@[j] }
//@fn src/worker/immediate.rs ImmediateWorker::start_immediate
//@sub `assert ! ( $$a . is_empty ( ) ) ;` => `assert_exec ( $$a . len ( ) == 0 ) ;`
    pub fn start_immediate(&mut self, data: RowData) /*@
        requires old(self).shape(), data.index < 4, old(self).plane(data.index as int).len() == 0, comp_ok(data.component)
        ensures final(self).shape(), final(self).same_but(old(self), data.index as int), final(self).offset(data.index as int) == 0, final(self).comp(data.index as int) == Some(data.component), final(self).table(data.index as int) == Some(data.quantization_table),
            final(self).plane(data.index as int).len() == data.component.block_size.width * data.component.block_size.height * data.component.dct_scale * data.component.dct_scale @*/ {
        /*@ proof { sizes(data.component.block_size.width as int, data.component.block_size.height as int, data.component.dct_scale as int); } @*/
        assert_exec(self.results[data.index].len() == 0);

        self.offsets[data.index] = 0;
        self.results[data.index].resize(data.component.block_size.width as usize * data.component.block_size.height as usize * data.component.dct_scale * data.component.dct_scale, 0u8);
        self.components[data.index] = Some(data.component);
        self.quantization_tables[data.index] = Some(data.quantization_table);
    }
//@end
//@fn src/worker/immediate.rs ImmediateWorker::append_row_immediate
//@sub `( index , data ) : ( usize , Vec < i16 > ) ) {` => `row : ( usize , Vec < i16 > ) ) { let ( index , data ) = row ;`
//@sub `assert_eq ! ( $$a , $$b ) ;` => `assert_exec ( $$a == $$b ) ;`
//@sub `& mut self . results [ index ] [ $$a .. ]` => `& mut self . results [ index ] . as_mut_slice ( ) [ $$a .. ]`
//@sub `let coefficients = data [ $$a .. $$b ] . try_into ( ) . unwrap ( ) ;` => `let coefficients = & block64 ( data . as_slice ( ) , $$a , $$b ) ;`
    pub fn append_row_immediate(&mut self, row: (usize, Vec<i16>)) /*@
        requires old(self).shape(), row.0 < 4, old(self).comp(row.0 as int) is Some, comp_ok(old(self).comp(row.0 as int)->0), old(self).table(row.0 as int) is Some,
            row.1.len() == old(self).comp(row.0 as int)->0.block_size.width * old(self).comp(row.0 as int)->0.vertical_sampling_factor * 64,
            old(self).offset(row.0 as int) + used(old(self).comp(row.0 as int)->0) <= old(self).plane(row.0 as int).len()
        ensures final(self).shape(), final(self).same_but(old(self), row.0 as int), final(self).comp(row.0 as int) == old(self).comp(row.0 as int), final(self).table(row.0 as int) == old(self).table(row.0 as int),
            final(self).offset(row.0 as int) == old(self).offset(row.0 as int) + used(old(self).comp(row.0 as int)->0),
            only(old(self).plane(row.0 as int), final(self).plane(row.0 as int), old(self).offset(row.0 as int), final(self).offset(row.0 as int)),
            ({ let c = old(self).comp(row.0 as int)->0; blocks_ok(final(self).plane(row.0 as int), old(self).offset(row.0 as int), c.block_size.width as int, c.dct_scale as int, row.1@, (old(self).table(row.0 as int)->0)@, c.block_size.width * c.vertical_sampling_factor) }) @*/ {
        let (index, data) = row;
        // Convert coefficients from a MCU row to samples.

        let component = self.components[index].as_ref().unwrap();
        let quantization_table = self.quantization_tables[index].as_ref().unwrap();
        /*@ let ghost (bw, v, s, off, q, o0) = (component.block_size.width as int, component.vertical_sampling_factor as int, component.dct_scale as int, self.offsets[index as int] as int, quantization_table@, self.results@[index as int]@);
            proof { sizes(bw, v, s); } assert(self.results@[index as int].len() <= usize::MAX); @*/
        let block_count = component.block_size.width as usize * component.vertical_sampling_factor as usize;
        let line_stride = component.block_size.width as usize * component.dct_scale;

        assert_exec(data.len() == block_count * 64);

        for i in /*@ it: @*/ 0..block_count /*@ invariant it.iter.end == bw * v, block_count == bw * v, line_stride == bw * s, data.len() == block_count * 64, self.shape(), index < 4, *component == self.components@[index as int]->0, self.components@[index as int] is Some, comp_ok(*component), bw == component.block_size.width, v == component.vertical_sampling_factor, s == component.dct_scale,
            self.quantization_tables@[index as int] is Some, *quantization_table == self.quantization_tables@[index as int]->0, q == quantization_table@, off == self.offsets[index as int], off + bw * v * s * s <= o0.len(), self.same_but(old(self), index as int), self.components == old(self).components, self.quantization_tables == old(self).quantization_tables, self.offsets == old(self).offsets,
            only(o0, self.results@[index as int]@, off, off + bw * v * s * s), blocks_ok(self.results@[index as int]@, off, bw, s, data@, q, i as int) @*/ {
            /*@ let ghost before = self.results@[index as int]@; assert(self.results@[index as int].len() <= usize::MAX); proof { place(bw, v, s, i as int); sizes(bw, v, s); sizes(v, 1, s); spot_bounds(bw, v, s, i as int, off, o0.len() as int); coefs_at(data@, i as int); } @*/
            let x = (i % component.block_size.width as usize) * component.dct_scale;
            let y = (i / component.block_size.width as usize) * component.dct_scale;
            /*@ assert(y * line_stride + x == spot(bw, s, i as int)); assert(0 <= y * line_stride); @*/

            let coefficients = &block64(data.as_slice(), i * 64, (i + 1) * 64);
            let output = &mut self.results[index].as_mut_slice()[self.offsets[index] + y * line_stride + x..];
            /*@ let ghost t0 = output@; assert(t0 =~= before.subrange(off + spot(bw, s, i as int), before.len() as int)); assert(t0.len() >= (s - 1) * (bw * s) + s); @*/

            dequantize_and_idct_block(component.dct_scale, coefficients, quantization_table, line_stride, output);
            /*@ let ghost t1 = output@; proof { let o1 = self.results@[index as int]@; let base = off + spot(bw, s, i as int);
                assert(o1.len() == before.len()); assert(t1 =~= o1.subrange(base, o1.len() as int)); at_its_place(before, o1, t0, t1, off, bw, v, s, i as int);
                step_block(before, o1, off, bw, v, s, data@, q, i as int); row_only(o0, before, o1, off, bw, v, s, i as int); } @*/
        }
        /*@ proof { sizes(bw, v, s); } assert(self.results@[index as int].len() <= usize::MAX); @*/
        self.offsets[index] += block_count * component.dct_scale * component.dct_scale;
    }
//@end
//@fn src/worker/immediate.rs ImmediateWorker::get_result_immediate
//@sub `mem :: take ( & mut self . results [ index ] )` => `take_vec ( & mut self . results [ index ] )`
    pub fn get_result_immediate(&mut self, index: usize) -> /*@ (r: @*/ Vec<u8> /*@ )
        requires old(self).shape(), index < 4
        ensures final(self).shape(), r@ == old(self).plane(index as int), final(self).plane(index as int).len() == 0, final(self).same_but(old(self), index as int) @*/ {
        take_vec(&mut self.results[index])
    }
//@end
}

pub proof fn same_fields(a: ImmediateWorker, b: ImmediateWorker, i: int, j: int) requires b.same_but(&a, i), 0 <= j < 4, j != i
    ensures a.plane(j) == b.plane(j), a.offset(j) == b.offset(j), a.comp(j) == b.comp(j), a.table(j) == b.table(j) { assert(b.results@[j]@ == a.results@[j]@); }
impl Worker for ImmediateWorker {
    closed spec fn ok(&self) -> bool { self.shape() }
    closed spec fn idle(&self, i: int) -> bool { self.plane(i).len() == 0 }
    closed spec fn holds(&self, i: int, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>) -> bool {
        comp_ok(c) && self.comp(i) == Some(c) && (self.table(i) matches Some(t) && t@ == q) && self.offset(i) == rows.len() * used(c) && rows_in(self.plane(i), c, q, rows)
    }
//@fn src/worker/immediate.rs ImmediateWorker::start
    fn start(&mut self, data: RowData) -> Result<()> {
        self.start_immediate(data);
        /*@ proof { let (a, b, i) = (*old(self), *self, data.index as int); assert forall|j: int| 0 <= j < 4 && j != i implies a.plane(j) == #[trigger] b.plane(j) && a.offset(j) == b.offset(j) && a.comp(j) == b.comp(j) && a.table(j) == b.table(j) by { same_fields(a, b, i, j); } } @*/
        Ok(())
    }
//@end
//@fn src/worker/immediate.rs ImmediateWorker::append_row
    fn append_row(&mut self, row: (usize, Vec<i16>)) -> Result<()> {
        /*@ let ghost old_state = *self; let ghost i = row.0 as int; proof { let (c, q, rows) = choose|c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>| #[trigger] self.holds(i, c, q, rows) && row_ok(c, row.1@) && fits(c, rows.len() + 1);
            assert(self.holds(i, c, q, rows)); assert((rows.len() + 1) * used(c) == rows.len() * used(c) + used(c)) by (nonlinear_arith); } @*/
        self.append_row_immediate(row);
        /*@ proof { let (a, b) = (old_state, *self); assert forall|j: int| 0 <= j < 4 && j != i implies a.plane(j) == #[trigger] b.plane(j) && a.offset(j) == b.offset(j) && a.comp(j) == b.comp(j) && a.table(j) == b.table(j) by { same_fields(a, b, i, j); }
            assert forall|c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>| #[trigger] a.holds(i, c, q, rows) implies b.holds(i, c, q, rows.push(row.1@)) by {
                assert((rows.len() + 1) * used(c) == rows.len() * used(c) + used(c)) by (nonlinear_arith);
                rows_push(a.plane(i), b.plane(i), c, q, rows, row.1@);
            } } @*/
        Ok(())
    }
//@end
//@fn src/worker/immediate.rs ImmediateWorker::get_result
    fn get_result(&mut self, index: usize) -> Result<Vec<u8>> {
        /*@ let ghost a = *self; let ghost i = index as int; @*/
        Ok(self.get_result_immediate(index))
    }
//@end
}
