/// core::mem::replace
pub fn replace_vec(a: &mut Vec<i16>, b: Vec<i16>) -> (r: Vec<i16>) ensures r == *old(a), *final(a) == b { let mut x = b; core::mem::swap(a, &mut x); x }
/// vec![0i16; n]
pub fn zero_row(n: usize) -> (r: Vec<i16>) ensures r@ == zeros(n as int) { let mut v: Vec<i16> = Vec::new(); v.resize(n, 0i16); assert(v@ =~= zeros(n as int)); v }
/// vec![vec![]; n]
pub fn empty_rows(n: usize) -> (r: Vec<Vec<i16>>) ensures r.len() == n { let mut r: Vec<Vec<i16>> = Vec::new(); for i in 0..n invariant r.len() == i { r.push(Vec::new()); } r }
/// vec![Vec::new(); n]
pub fn empty_planes(n: usize) -> (r: Vec<Vec<u8>>) ensures r.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).len() == 0
{ let mut r: Vec<Vec<u8>> = Vec::new(); for i in 0..n invariant r.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j]).len() == 0 { r.push(Vec::new()); } r }
/// vec![1]
pub fn just_one() -> (r: Vec<u16>) ensures r@ == seq![1u16] { let mut r: Vec<u16> = Vec::new(); r.push(1u16); assert(r@ =~= seq![1u16]); r }
/// v[a..b].to_vec()
pub fn copy_row(v: &Vec<i16>, a: usize, b: usize) -> (r: Vec<i16>) requires a <= b <= v.len() ensures r@ == v@.subrange(a as int, b as int)
{ let mut r: Vec<i16> = Vec::new(); for k in a..b invariant a <= b <= v.len(), r@ =~= v@.subrange(a as int, k as int) { r.push(v[k]); } r }
pub fn some_table(t: &Option<Arc<[u16; 64]>>) -> (r: Arc<[u16; 64]>) requires *t is Some ensures r == t->0 { match t { Some(x) => x.clone(), None => unreached() } }
pub fn copy_component(c: &Component) -> (r: Component) ensures r == *c
{ Component { identifier: c.identifier, horizontal_sampling_factor: c.horizontal_sampling_factor, vertical_sampling_factor: c.vertical_sampling_factor, quantization_table_index: c.quantization_table_index, dct_scale: c.dct_scale, size: c.size, block_size: c.block_size } }
pub fn copy_range(r: &Range<u8>) -> (x: Range<u8>) ensures x == *r { Range { start: r.start, end: r.end } }
/// s.try_into().unwrap() to &mut [i16; 64]
#[verifier::external_body]
pub fn as_block(s: &mut [i16]) -> (r: &mut [i16; 64]) requires old(s).len() == 64 ensures r@ == old(s)@, final(s)@ == final(r)@ { s.try_into().unwrap() }
impl<R: Read> Decoder<R> {
/// nothing but the reader, the coefficients and the Huffman tables
pub open spec fn but_scan(&self, o: &Self) -> bool {
    self.frame == o.frame && self.quantization_tables == o.quantization_tables && self.restart_interval == o.restart_interval
    && self.adobe_color_transform == o.adobe_color_transform && self.color_transform == o.color_transform && self.is_jfif == o.is_jfif && self.is_mjpeg == o.is_mjpeg && self.icc_markers == o.icc_markers
    && self.exif_data == o.exif_data && self.xmp_data == o.xmp_data && self.psir_data == o.psir_data && self.coefficients_finished == o.coefficients_finished && self.decoding_buffer_size_limit == o.decoding_buffer_size_limit
    && (o.reader.reliable() ==> self.reader.reliable())
}
/// missing tables are the default ones if the stream is Motion JPEG
pub open spec fn tables_after(&self, o: &Self, c: ScanInfo) -> bool {
    if o.is_mjpeg { filled(o.dc_huffman_tables@, self.dc_huffman_tables@, c.dc_table_indices@, 3) && filled(o.ac_huffman_tables@, self.ac_huffman_tables@, c.ac_table_indices@, 5) }
    else { self.dc_huffman_tables@ == o.dc_huffman_tables@ && self.ac_huffman_tables@ == o.ac_huffman_tables@ }
}
pub open spec fn tables_same(&self, o: &Self) -> bool { self.dc_huffman_tables@ == o.dc_huffman_tables@ && self.ac_huffman_tables@ == o.ac_huffman_tables@ }
pub open spec fn tables_ok(&self) -> bool { self.dc_huffman_tables.len() == 4 && self.ac_huffman_tables.len() == 4 && tabs_wf(self.dc_huffman_tables@) && tabs_wf(self.ac_huffman_tables@) }
pub open spec fn ready(&self, f: FrameInfo, c: ScanInfo) -> bool { tables_ready(f, c, self.quantization_tables@, self.dc_huffman_tables@, self.ac_huffman_tables@) }
pub open spec fn plan(&self, f: FrameInfo, c: ScanInfo, fin: Seq<bool>) -> Plan { plan_of(f, c, self.dc_huffman_tables@, self.ac_huffman_tables@, self.restart_interval as int, fin) }
/// in the middle of a scan
pub open spec fn scanning(&self, e: Env, o: &Self, c: ScanInfo) -> bool {
    self.but_scan(o) && self.tables_after(o, c) && self.tables_ok() && self.dc_huffman_tables@ == e.dcs && self.ac_huffman_tables@ == e.acs && self.quantization_tables@ == e.qs && self.restart_interval == e.p.r && e.sure == o.reader.reliable()
}
/// after the last MCU and the marker behind it
pub open spec fn ended(&self, e: Env, o: &Self, c: ScanInfo, tr: Seq<Seq<Sn>>, now: Sn, m: Option<Marker>) -> bool {
    e.ok() && self.scanning(e, o, c) && e.s0 == start_of(e.p, o.reader.rest(), e.c0) && e.c0 == o.coefficients@ && e.reached(tr, now, e.p.mw * e.p.mh) && scan_end(now.st, e.sure, m, self.reader.rest()) && co_after(e.p, now.store, e.c0, self.coefficients@) && (e.p.prog ==> co_ok(e.f, self.coefficients@))
}
//@fn src/decoder.rs Decoder::decode_scan
//@rw errtext
//@sub `fn decode_scan (` => `fn decode_scan < W : Worker > (`
//@sub `& mut dyn Worker` => `& mut W`
//@sub `$a . $b . iter ( ) . any ( | & $c | $$e )` => `{ let mut found = false ; for ix in 0 .. $a . $b . len ( ) { let $c = $a . $b [ ix ] ; if $$e { found = true ; } } found }`
//@sub `$a . $b . iter ( ) . any ( | $c | $$e )` => `{ let mut found = false ; for ix in 0 .. $a . $b . len ( ) { let $c = & $a . $b [ ix ] ; if $$e { found = true ; } } found }`
//@sub `$a . iter ( ) . any ( | & $c | $$e )` => `{ let mut found = false ; for ix in 0 .. $a . len ( ) { let $c = $a [ ix ] ; if $$e { found = true ; } } found }`
//@sub `$a . iter ( ) . any ( | $c | $$e )` => `{ let mut found = false ; for ix in 0 .. $a . len ( ) { let $c = & $a [ ix ] ; if $$e { found = true ; } } found }`
//@sub `scan . component_indices . iter ( ) . map ( | & $i | frame . components [ $i ] . clone ( ) ) . collect ( )` => `pick_components ( frame , & scan . component_indices )`
//@sub `for ( $i , & $c ) in $$v . iter ( ) . enumerate ( ) {` => `for $i in 0 .. $$v . len ( ) { let $c = $$v [ $i ] ;`
//@sub `for ( $i , $c ) in $v . iter ( ) . enumerate ( ) {` => `for $i in 0 .. $v . len ( ) { let $c = & $v [ $i ] ;`
//@sub `for ( $i , $c ) in $v . iter ( ) . enumerate ( ) . filter ( | & ( $j , _ ) | $$e ) { $%b }` => `for $i in 0 .. $v . len ( ) { let $c = & $v [ $i ] ; if { let $j = $i ; $$e } { $%b } }`
//@sub `$v . iter ( ) . map ( | $c | $$e ) . collect :: < Vec < _ >> ( )` => `{ let mut out = Vec :: new ( ) ; for ix in 0 .. $v . len ( ) { let $c = & $v [ ix ] ; out . push ( $$e ) ; } out }`
//@sub `vec ! [ vec ! [ ] ; $$n ]` => `empty_rows ( $$n )`
//@sub `vec ! [ Vec :: new ( ) ; $$n ]` => `empty_planes ( $$n )`
//@sub `vec ! [ 0i16 ; $$n ]` => `zero_row ( $$n )`
//@sub `vec ! [ 1 ]` => `just_one ( )`
//@sub `mem :: replace ( $$a )` => `replace_vec ( $$a )`
//@sub `self . coefficients [ $$a ] [ $$f .. $$t ] . to_vec ( )` => `copy_row ( & self . coefficients [ $$a ] , $$f , $$t )`
//@sub `self . quantization_tables [ $$a ] . clone ( ) . unwrap ( )` => `some_table ( & self . quantization_tables [ $$a ] )`
//@sub `component . clone ( )` => `copy_component ( component )`
//@sub `scan . spectral_selection . clone ( )` => `copy_range ( & scan . spectral_selection )`
//@sub `let coefficients = if $%a . try_into ( ) . unwrap ( ) ;` => `let coefficients = as_block ( if $%a ) ;`
//@sub `& mut self . coefficients [ $$a ] [` => `& mut self . coefficients [ $$a ] . as_mut_slice ( ) [`
//@sub `& mut mcu_row_coefficients [ $$a ] [` => `& mut mcu_row_coefficients [ $$a ] . as_mut_slice ( ) [`
//@sub `& mut huffman` => `huffman`
//@sub `& mut eob_run` => `eob_run`
//@outline `for $h in $$e { let coefficients = $%body }` => `for $h in $$e { self . decode_unit ( scan , finished , component , is_progressive , is_interleaved , & mcu_horizontal_samples , & mcu_vertical_samples , mcu_y , mcu_x , i , v_pos , $h , & mut huffman , & mut dc_predictors , & mut eob_run , & mut mcu_row_coefficients , & mut dummy_block ) ? ; }` as `fn decode_unit ( & mut self , scan : & ScanInfo , finished : & [ bool ; MAX_COMPONENTS ] , component : & Component , is_progressive : bool , is_interleaved : bool , mcu_horizontal_samples : & Vec < u16 > , mcu_vertical_samples : & Vec < u16 > , mcu_y : u16 , mcu_x : u16 , i : usize , v_pos : u16 , $h : u16 , huffman : & mut HuffmanDecoder , dc_predictors : & mut [ i16 ; MAX_COMPONENTS ] , eob_run : & mut u16 , mcu_row_coefficients : & mut Vec < Vec < i16 >> , dummy_block : & mut [ i16 ; 64 ] ) -> Result < ( ) > { let coefficients = $%body Ok ( ( ) ) }`
//@sub `if $$c { continue ; } $%b }` => `if ! ( $$c ) { $%b } }`
//@sub `while let $$p = $m { $%b }` => `loop { match $m { $$p => { } , _ => break } $%b }`
/*@ #[verifier::rlimit(240)] @*/
fn decode_scan < W: Worker > (&mut self, frame: &FrameInfo, scan: &ScanInfo, worker: &mut W, finished: & [bool; MAX_COMPONENTS],) -> /*@ (r: @*/ Result < (Option < Marker >, Option < Vec < Vec < u8 >> >) > /*@ )
    requires frame_full(*frame), scan_ok(*frame, *scan), frame.coding_process != CodingProcess::Lossless, old(self).tables_ok(), frame.coding_process == CodingProcess::DctProgressive ==> co_ok(*frame, old(self).coefficients@),
        old(worker).ok(), forall|i: int| 0 <= i < 4 ==> #[trigger] old(worker).idle(i)
    ensures final(self).but_scan(old(self)), final(self).tables_ok(), final(self).tables_after(old(self), *scan) || final(self).tables_same(old(self)),
        frame.coding_process == CodingProcess::DctProgressive ==> co_ok(*frame, final(self).coefficients@), frame.coding_process != CodingProcess::DctProgressive ==> final(self).coefficients@ == old(self).coefficients@,
        r matches Ok((m, data)) ==> final(self).tables_after(old(self), *scan) && final(self).ready(*frame, *scan) && final(worker).ok() && (forall|i: int| 0 <= i < 4 ==> #[trigger] final(worker).idle(i))
            && dct_scan(final(self).plan(*frame, *scan, finished@), old(self).reader.rest(), old(self).reader.reliable(), m, final(self).reader.rest(), old(self).coefficients@, final(self).coefficients@, final(self).quantization_tables@, frame.components@.len() as int, data),
        r is Err && old(self).reader.reliable() ==> !final(self).ready(*frame, *scan) || final(self).tables_after(old(self), *scan) && scan_stuck(final(self).plan(*frame, *scan, finished@), start_of(final(self).plan(*frame, *scan, finished@), old(self).reader.rest(), old(self).coefficients@)) @*/ {
    assert!(scan.component_indices.len() <= MAX_COMPONENTS);
    let components: Vec < Component > = pick_components(frame, &scan.component_indices);
    if {
        let mut found = false;
        for ix in 0..components.len() /*@ invariant frame_full(*frame), scan_ok(*frame, *scan), components.len() == scan.component_indices.len(), forall|i: int| 0 <= i < components.len() ==> components@[i] == frame.components@[#[trigger] scan.component_indices@[i] as int],
            found ==> !self.ready(*frame, *scan), !found ==> forall|i: int| 0 <= i < ix ==> self.quantization_tables@[frame.components@[#[trigger] scan.component_indices@[i] as int].quantization_table_index as int] is Some @*/ {
            /*@ assert(components@[ix as int] == frame.components@[scan.component_indices@[ix as int] as int]); @*/
            let component = &components[ix];
            if self.quantization_tables[component.quantization_table_index].is_none() {
                found = true;
            }
        }
        found
    }
    {
        return Err(Error::Format(error_text()));
    }
    if self.is_mjpeg {
        fill_default_mjpeg_tables(scan, &mut self.dc_huffman_tables, &mut self.ac_huffman_tables,);
    }
    if scan.spectral_selection.start == 0 && {
        let mut found = false;
        for ix in 0..scan.dc_table_indices.len() /*@ invariant scan_ok(*frame, *scan), self.tables_ok(), found ==> !tables_set(self.dc_huffman_tables@, scan.dc_table_indices@), !found ==> forall|k: int| 0 <= k < ix ==> self.dc_huffman_tables@[#[trigger] scan.dc_table_indices@[k] as int] is Some @*/ {
            let i = scan.dc_table_indices[ix];
            if self.dc_huffman_tables[i].is_none() {
                found = true;
            }
        }
        found
    }
    {
        return Err(Error::Format(error_text()));
    }
    if scan.spectral_selection.end > 1 && {
        let mut found = false;
        for ix in 0..scan.ac_table_indices.len() /*@ invariant scan_ok(*frame, *scan), self.tables_ok(), found ==> !tables_set(self.ac_huffman_tables@, scan.ac_table_indices@), !found ==> forall|k: int| 0 <= k < ix ==> self.ac_huffman_tables@[#[trigger] scan.ac_table_indices@[k] as int] is Some @*/ {
            let i = scan.ac_table_indices[ix];
            if self.ac_huffman_tables[i].is_none() {
                found = true;
            }
        }
        found
    }
    {
        return Err(Error::Format(error_text()));
    }
    /*@ let ghost p = self.plan(*frame, *scan, finished@); let ghost s0 = start_of(p, self.reader.rest(), self.coefficients@);
        let ghost e = Env { p, f: *frame, c: *scan, dcs: self.dc_huffman_tables@, acs: self.ac_huffman_tables@, qs: self.quantization_tables@, c0: self.coefficients@, s0, sure: self.reader.reliable() };
        proof { plan_ok(*frame, *scan, self.dc_huffman_tables@, self.ac_huffman_tables@, self.restart_interval as int, finished@); assert(components@ =~= p.comps);
            assert(lens(p, s0.store)) by { assert forall|i: int| 0 <= i < p.n() implies (#[trigger] s0.store[i]).len() == p.size(i) by { store_size(p, i); assert(p.ix[i] == scan.component_indices@[i]); } } } @*/
    for i in /*@ iti: @*/ 0..components.len() /*@ invariant iti.iter.end == p.n(), e.ok(), p == e.p, *frame == e.f, *scan == e.c, components@ == p.comps, finished@ == p.done, self.scanning(e, old(self), *scan), self.coefficients@ == e.c0, e.c0 == old(self).coefficients@, self.reader.rest() == old(self).reader.rest(), lens(p, s0.store), worker.ok(),
            forall|j: int| 0 <= j < i && #[trigger] p.done[j] ==> worker.holds(j, p.comps[j], e.q(j), Seq::empty()), forall|j: int| 0 <= j < 4 && (j >= i || !p.done[j]) ==> #[trigger] worker.idle(j) @*/ {
        /*@ proof { assert(p.comp_fits(i as int)); assert(p.comps[i as int] == frame.components@[scan.component_indices@[i as int] as int]); } @*/
        let component = &components[i];
        /*@ let ghost w0 = *worker; @*/
        if finished[i] {
            let row_data = RowData {
                index: i, component: copy_component(component), quantization_table: some_table(&self.quantization_tables[component.quantization_table_index]),
            };
            worker.start(row_data)?;
            /*@ proof { assert forall|j: int| 0 <= j < 4 && (j >= i + 1 || !p.done[j]) implies #[trigger] worker.idle(j) by { assert(w0.idle(j)); } } @*/
        }
    }
    let is_progressive = frame.coding_process == CodingProcess::DctProgressive;
    let is_interleaved = components.len() > 1;
    let mut dummy_block = [0i16; 64];
    let mut huffman = HuffmanDecoder::new();
    let mut dc_predictors = [0i16; MAX_COMPONENTS];
    let mut mcus_left_until_restart = self.restart_interval;
    let mut expected_rst_num = 0;
    let mut eob_run = 0;
    let mut mcu_row_coefficients = empty_rows(components.len());
    if!is_progressive {
        for i in /*@ iti: @*/ 0..components.len() /*@ invariant iti.iter.end == p.n(), e.ok(), p == e.p, components@ == p.comps, finished@ == p.done, mcu_row_coefficients.len() == p.n(), forall|j: int| 0 <= j < i && p.done[j] ==> (#[trigger] mcu_row_coefficients@[j])@ == zeros(p.rb(j) * 64) @*/ {
            /*@ proof { batch_fits(p, zeros(p.size(i as int)), i as int, 0); store_size(p, i as int); assert(p.comp_fits(i as int)); } @*/
            let component = &components[i];
            if {
                let i = i;
                finished[i]
            }
            {
                let coefficients_per_mcu_row = component.block_size.width as usize * component.vertical_sampling_factor as usize * 64;
                mcu_row_coefficients[i] = zero_row(coefficients_per_mcu_row);
            }
        }
    }
    let(mcu_horizontal_samples, mcu_vertical_samples) = if is_interleaved {
        let horizontal = {
            let mut out = Vec::new();
            for ix in /*@ itx: @*/ 0..components.len() /*@ invariant itx.iter.end == components.len(), out.len() == ix, forall|j: int| 0 <= j < ix ==> #[trigger] out@[j] == components@[j].horizontal_sampling_factor @*/ {
                let component = &components[ix];
                out.push(component.horizontal_sampling_factor as u16);
            }
            out
        };
        let vertical = {
            let mut out = Vec::new();
            for ix in /*@ itx: @*/ 0..components.len() /*@ invariant itx.iter.end == components.len(), out.len() == ix, forall|j: int| 0 <= j < ix ==> #[trigger] out@[j] == components@[j].vertical_sampling_factor @*/ {
                let component = &components[ix];
                out.push(component.vertical_sampling_factor as u16);
            }
            out
        };
        (horizontal, vertical)
    } else {
        (just_one(), just_one())
    };
    let(max_mcu_x, max_mcu_y) = if is_interleaved {
        (frame.mcu_size.width, frame.mcu_size.height)
    } else {
        /*@ let ghost x = p.comps[0]; proof { assert(p.comp_fits(0)); assert(x == frame.components@[scan.component_indices@[0] as int]); assert(comp_geom(frame.image_size, hmax(frame.components@, frame.components@.len() as int), vmax(frame.components@, frame.components@.len() as int), x)); max_bounds(frame.components@, frame.components@.len() as int);
            let (hm, vm) = (hmax(frame.components@, frame.components@.len() as int), vmax(frame.components@, frame.components@.len() as int));
            assert(frame.image_size.width * x.horizontal_sampling_factor >= 1) by (nonlinear_arith) requires frame.image_size.width >= 1, x.horizontal_sampling_factor >= 1; assert(frame.image_size.height * x.vertical_sampling_factor >= 1) by (nonlinear_arith) requires frame.image_size.height >= 1, x.vertical_sampling_factor >= 1;
            cdiv_scaled(frame.image_size.width * x.horizontal_sampling_factor, 8 * hm, x.dct_scale as int); cdiv_scaled(frame.image_size.height * x.vertical_sampling_factor, 8 * vm, x.dct_scale as int); } @*/
        let blocks = | size: u16 | /*@ -> (r: u16) requires components.len() >= 1, 1 <= components@[0].dct_scale <= 8 ensures cdiv(size as int, components@[0].dct_scale as int) <= 65535 ==> r == cdiv(size as int, components@[0].dct_scale as int) @*/ {
            let scale = components[0].dct_scale;
            ((usize::from(size) + scale - 1) / scale) as u16
        };
        (blocks(components[0].size.width), blocks(components[0].size.height),)
    };
    /*@ let ghost mut tr: Seq<Seq<Sn>> = seq![]; let ghost mut now = s0; let ghost mut qn: int = 0; let ghost mut jn: int = 0;
        proof { batch_all(p); assert(0 * p.mw == 0); assert(dc_predictors@ =~= zeros(4)); begun(e, self.coefficients@, mcu_row_coefficients@); assert forall|i: int| 0 <= i < 4 implies #[trigger] e.given_one(*worker, now.store, 0, 0, i) by { if i < p.n() { batch_bounds(p, i, 0); sent_next(p, now.store[i], i, 0); } } } @*/
    for mcu_y in /*@ ity: @*/ 0..max_mcu_y /*@ invariant ity.iter.end == p.mh, e.ok(), p == e.p, s0 == e.s0, s0 == start_of(p, old(self).reader.rest(), e.c0), e.locals(*frame, *scan, components@, is_progressive, is_interleaved, finished@), e.grid(mcu_horizontal_samples@, mcu_vertical_samples@, max_mcu_x, max_mcu_y), self.scanning(e, old(self), *scan), e.c0 == old(self).coefficients@, huffman.wf(), dummy_block.len() == 64, dc_predictors.len() == 4, now == (Sn { st: state_of(huffman, self.reader.rest()), eob: eob_run as int, preds: dc_predictors@, store: now.store }), e.reached(tr, now, mcu_y * p.mw), e.mem(now.store, self.coefficients@, mcu_row_coefficients@, mcu_y as int, 0), e.given(*worker, now.store, mcu_y as int, 0), counted(p.r, mcu_y * p.mw, qn, jn, mcus_left_until_restart as int, expected_rst_num as int) @*/ {
        /*@ proof { mcu_index(p, mcu_y as int, 0); } @*/
        for mcu_x in /*@ itx: @*/ 0..max_mcu_x /*@ invariant itx.iter.end == p.mw, 0 <= mcu_y < p.mh, e.ok(), p == e.p, s0 == e.s0, s0 == start_of(p, old(self).reader.rest(), e.c0), e.locals(*frame, *scan, components@, is_progressive, is_interleaved, finished@), e.grid(mcu_horizontal_samples@, mcu_vertical_samples@, max_mcu_x, max_mcu_y), self.scanning(e, old(self), *scan), e.c0 == old(self).coefficients@, huffman.wf(), dummy_block.len() == 64, dc_predictors.len() == 4, now == (Sn { st: state_of(huffman, self.reader.rest()), eob: eob_run as int, preds: dc_predictors@, store: now.store }), e.reached(tr, now, mcu_y * p.mw + mcu_x), e.mem(now.store, self.coefficients@, mcu_row_coefficients@, mcu_y as int, 0), e.given(*worker, now.store, mcu_y as int, 0), counted(p.r, mcu_y * p.mw + mcu_x, qn, jn, mcus_left_until_restart as int, expected_rst_num as int) @*/ {
            /*@ let ghost k = mcu_y * p.mw + mcu_x; let ghost before = now; proof { mcu_index(p, mcu_y as int, mcu_x as int); co_kept(e, now.store, self.coefficients@, mcu_row_coefficients@, mcu_y as int, 0); if p.r > 0 { unit_index(qn, p.r, jn); } stuck_at_restart(e, tr, now, k); } @*/
            if self.restart_interval > 0 {
                if mcus_left_until_restart == 0 {
                    match huffman.take_marker(&mut self.reader)? {
                        Some(Marker::RST(n)) => {
                            if n != expected_rst_num {
                                return Err(Error::Format(error_text()));
                            }
                            huffman.reset();
                            dc_predictors = [0i16; MAX_COMPONENTS];
                            eob_run = 0;
                            expected_rst_num = (expected_rst_num + 1) % 8;
                            mcus_left_until_restart = self.restart_interval;
                            /*@ proof { qn = qn + 1; jn = 0; now = Sn { st: state_of(huffman, self.reader.rest()), eob: 0, preds: zeros(4), store: now.store }; assert(dc_predictors@ =~= zeros(4)); } @*/
                        }
                        Some(marker) => {
                            return Err(Error::Format(error_text()))
                        }
                        None => {
                            return Err(Error::Format(error_text()))
                        }
                    }
                }
                mcus_left_until_restart -= 1;
                /*@ proof { jn = jn + 1; } @*/
            }
            /*@ let ghost mut cur: Seq<Sn> = seq![now]; assert(linked_sn(p.r, k, before, now)); @*/
            for i in /*@ iti: @*/ 0..components.len() /*@ invariant iti.iter.end == p.n(), e.ok(), p == e.p, s0 == e.s0, s0 == start_of(p, old(self).reader.rest(), e.c0), e.locals(*frame, *scan, components@, is_progressive, is_interleaved, finished@), e.grid(mcu_horizontal_samples@, mcu_vertical_samples@, max_mcu_x, max_mcu_y), self.scanning(e, old(self), *scan), e.c0 == old(self).coefficients@, huffman.wf(), dummy_block.len() == 64, dc_predictors.len() == 4, now == (Sn { st: state_of(huffman, self.reader.rest()), eob: eob_run as int, preds: dc_predictors@, store: now.store }), e.mem(now.store, self.coefficients@, mcu_row_coefficients@, mcu_y as int, 0), e.given(*worker, now.store, mcu_y as int, 0), k == mcu_y * p.mw + mcu_x, 0 <= mcu_y < p.mh, 0 <= mcu_x < p.mw, e.within(tr, cur, now, k, p.units(i as int)) @*/ {
                /*@ proof { unit_line(p, i as int, 0); } @*/
                let component = &components[i];
                for v_pos in /*@ itv: @*/ 0..mcu_vertical_samples[i] /*@ invariant itv.iter.end == p.vs(i as int), 0 <= i < p.n(), *component == p.comps[i as int], e.ok(), p == e.p, s0 == e.s0, s0 == start_of(p, old(self).reader.rest(), e.c0), e.locals(*frame, *scan, components@, is_progressive, is_interleaved, finished@), e.grid(mcu_horizontal_samples@, mcu_vertical_samples@, max_mcu_x, max_mcu_y), self.scanning(e, old(self), *scan), e.c0 == old(self).coefficients@, huffman.wf(), dummy_block.len() == 64, dc_predictors.len() == 4, now == (Sn { st: state_of(huffman, self.reader.rest()), eob: eob_run as int, preds: dc_predictors@, store: now.store }), e.mem(now.store, self.coefficients@, mcu_row_coefficients@, mcu_y as int, 0), e.given(*worker, now.store, mcu_y as int, 0), k == mcu_y * p.mw + mcu_x, 0 <= mcu_y < p.mh, 0 <= mcu_x < p.mw, e.within(tr, cur, now, k, p.units(i as int) + v_pos * p.hs(i as int)) @*/ {
                    /*@ proof { unit_line(p, i as int, v_pos as int); } @*/
                    for h_pos in /*@ ith: @*/ 0..mcu_horizontal_samples[i] /*@ invariant ith.iter.end == p.hs(i as int), 0 <= i < p.n(), 0 <= v_pos < p.vs(i as int), *component == p.comps[i as int], e.ok(), p == e.p, s0 == e.s0, s0 == start_of(p, old(self).reader.rest(), e.c0), e.locals(*frame, *scan, components@, is_progressive, is_interleaved, finished@), e.grid(mcu_horizontal_samples@, mcu_vertical_samples@, max_mcu_x, max_mcu_y), self.scanning(e, old(self), *scan), e.c0 == old(self).coefficients@, huffman.wf(), dummy_block.len() == 64, dc_predictors.len() == 4, now == (Sn { st: state_of(huffman, self.reader.rest()), eob: eob_run as int, preds: dc_predictors@, store: now.store }), e.mem(now.store, self.coefficients@, mcu_row_coefficients@, mcu_y as int, 0), e.given(*worker, now.store, mcu_y as int, 0), k == mcu_y * p.mw + mcu_x, 0 <= mcu_y < p.mh, 0 <= mcu_x < p.mw, e.within(tr, cur, now, k, p.units(i as int) + v_pos * p.hs(i as int) + h_pos) @*/ {
                        /*@ let ghost a = now; let ghost co0 = self.coefficients@; let ghost rows0 = mcu_row_coefficients@; let ghost se = *self; @*/
                        self.decode_unit(scan, finished, component, is_progressive, is_interleaved, &mcu_horizontal_samples, &mcu_vertical_samples, mcu_y, mcu_x, i, v_pos, h_pos, &mut huffman, &mut dc_predictors, &mut eob_run, &mut mcu_row_coefficients, &mut dummy_block /*@ , Ghost(e), Ghost(tr), Ghost(cur), Ghost(a) @*/)?;
                        /*@ proof {
                            now = Sn { st: state_of(huffman, self.reader.rest()), eob: eob_run as int, preds: dc_predictors@, store: unit_store(e, a, mcu_y as int, mcu_x as int, v_pos as int, h_pos as int, i as int, self.coefficients@, mcu_row_coefficients@) };
                            unit_finished(e, *worker, tr, cur, a, now, mcu_y as int, mcu_x as int, v_pos as int, h_pos as int, i as int, co0, self.coefficients@, rows0, mcu_row_coefficients@);
                            cur = cur.push(now);
                        } @*/
                    }
                }
            }
            /*@ proof { mcu_pushed(e, tr, cur, now, k); tr = tr.push(cur); } @*/
        }
        /*@ proof { mcu_index(p, mcu_y as int, p.mw); } @*/
        for i in /*@ iti: @*/ 0..components.len() /*@ invariant iti.iter.end == p.n(), 0 <= mcu_y < p.mh, e.ok(), p == e.p, s0 == e.s0, s0 == start_of(p, old(self).reader.rest(), e.c0), e.locals(*frame, *scan, components@, is_progressive, is_interleaved, finished@), e.grid(mcu_horizontal_samples@, mcu_vertical_samples@, max_mcu_x, max_mcu_y), self.scanning(e, old(self), *scan), e.c0 == old(self).coefficients@, huffman.wf(), dummy_block.len() == 64, dc_predictors.len() == 4, now == (Sn { st: state_of(huffman, self.reader.rest()), eob: eob_run as int, preds: dc_predictors@, store: now.store }), e.reached(tr, now, mcu_y * p.mw + p.mw), counted(p.r, mcu_y * p.mw + p.mw, qn, jn, mcus_left_until_restart as int, expected_rst_num as int), e.mem(now.store, self.coefficients@, mcu_row_coefficients@, mcu_y as int, i as int), e.given(*worker, now.store, mcu_y as int, i as int) @*/ {
            /*@ let ghost b = p.batch(i as int, mcu_y as int); proof { assert(p.comp_fits(i as int)); batch_bounds(p, i as int, mcu_y as int); batch_fits(p, now.store[i as int], i as int, b); store_size(p, i as int); assert(p.ix[i as int] == scan.component_indices@[i as int]); } let ghost w0 = *worker; let ghost rows0 = mcu_row_coefficients@; @*/
            let component = &components[i];
            if finished[i] {
if !(!is_interleaved && mcu_y + 1 < max_mcu_y && (mcu_y + 1) % component.vertical_sampling_factor as u16 > 0) {
                let coefficients_per_mcu_row = component.block_size.width as usize * component.vertical_sampling_factor as usize * 64;
                let row_coefficients = if is_progressive {
                    let worker_mcu_y = if is_interleaved {
                        mcu_y
                    } else {
                        mcu_y / component.vertical_sampling_factor as u16
                    };
                    let offset = worker_mcu_y as usize * coefficients_per_mcu_row;
                    copy_row(&self.coefficients[scan.component_indices[i]], offset, offset + coefficients_per_mcu_row)
                } else {
                    replace_vec(&mut mcu_row_coefficients[i], zero_row(coefficients_per_mcu_row),)
                };
                /*@ proof { sent_next(p, now.store[i as int], i as int, b); } assert(row_coefficients@ =~= win(p, now.store[i as int], i as int, b)); assert(e.given_one(*worker, now.store, mcu_y as int, i as int, i as int)); assert(worker.holds(i as int, p.comps[i as int], e.q(i as int), sent(p, now.store[i as int], i as int, b))); let ghost rs = sent(p, now.store[i as int], i as int, b); assert(rs.len() + 1 == (b + 1) as nat && fits(p.comps[i as int], rs.len() + 1)); assert(row_ok(p.comps[i as int], row_coefficients@)); let ghost row9 = (i, row_coefficients); assert(worker.holds(row9.0 as int, p.comps[i as int], e.q(i as int), rs) && row_ok(p.comps[i as int], row9.1@) && fits(p.comps[i as int], rs.len() + 1)); @*/
                worker.append_row((i, row_coefficients))?;
                /*@ proof { sent_next(p, now.store[i as int], i as int, b); } @*/
                }
                /*@ proof { row_sent(e, now.store, self.coefficients@, rows0, mcu_row_coefficients@, mcu_y as int, i as int); row_given(e, w0, *worker, now.store, mcu_y as int, i as int); } @*/
            } /*@ else { proof { row_sent(e, now.store, self.coefficients@, rows0, mcu_row_coefficients@, mcu_y as int, i as int); row_given(e, w0, *worker, now.store, mcu_y as int, i as int); } } @*/
        }
        /*@ proof { next_line(e, *worker, now.store, mcu_y as int); } @*/
    }
    /*@ proof { co_kept(e, now.store, self.coefficients@, mcu_row_coefficients@, p.mh, 0); assert(p.mh * p.mw == p.mw * p.mh) by (nonlinear_arith); stuck_at_end(e, tr, now); } let ghost co9 = self.coefficients@; @*/
    let mut marker = huffman.take_marker(&mut self.reader)?;
    /*@ let ghost (m1, s1) = (marker, self.reader.rest()); assert(taken(now.st, m1, s1)); @*/
    loop /*@ invariant_except_break true invariant self.scanning(e, old(self), *scan), self.coefficients@ == co9, e.sure ==> self.reader.reliable(), e.sure == old(self).reader.reliable(), marker == m1 && self.reader.rest() == s1 || m1 is Some && m1->0 is RST, marker is Some ==> past_rst(marker, self.reader.rest()) == past_rst(m1, s1), marker is None && m1 is Some && e.sure ==> past_rst(m1, s1) is None
        ensures !(marker is Some && marker->0 is RST) decreases if marker is Some { self.reader.rest().len() + 1 } else { 0 } @*/ {
        match marker {
            Some(Marker::RST(_)) => {
            }, _ => break
        }
        /*@ let ghost r0 = self.reader.rest(); @*/
        marker = self.read_marker().ok();
        /*@ proof { if marker is None && e.sure { assert(next_marker(r0) is None); } } @*/
    }
    /*@ proof { assert(self.ended(e, old(self), *scan, tr, now, marker)); } @*/
    if {
        let mut found = false;
        for ix in /*@ itx: @*/ 0..finished.len() /*@ invariant itx.iter.end == 4, finished@.len() == 4, found == exists|j: int| 0 <= j < ix && #[trigger] finished@[j] @*/ {
            let c = finished[ix];
            if c {
                found = true;
            }
        }
        found
    }
    {
        let mut data = empty_planes(frame.components.len());
        /*@ let ghost ncomp = frame.components@.len() as int; proof { assert(any_done(p)); assert forall|j: int| 0 <= j < p.n() && #[trigger] p.done[j] implies worker.holds(j, p.comps[j], e.q(j), sent(p, now.store[j], j, p.fh)) by { batch_bounds(p, j, 0); assert(e.given_one(*worker, now.store, p.mh, 0, j)); }
            assert forall|j: int| 0 <= j < 4 && (j >= p.n() || !p.done[j]) implies #[trigger] worker.idle(j) by { assert(e.given_one(*worker, now.store, p.mh, 0, j)); } } @*/
        for i in /*@ iti: @*/ 0..scan.component_indices.len() /*@ invariant iti.iter.end == p.n(), self.ended(e, old(self), *scan, tr, now, marker), p == e.p, *frame == e.f, *scan == e.c, finished@ == p.done, data.len() == ncomp, ncomp == frame.components@.len(), worker.ok(), any_done(p),
                forall|j: int| i <= j < p.n() && #[trigger] p.done[j] ==> worker.holds(j, p.comps[j], e.q(j), sent(p, now.store[j], j, p.fh)), forall|j: int| 0 <= j < 4 && (j < i || j >= p.n() || !p.done[j]) ==> #[trigger] worker.idle(j),
                some_planes(p, e.qs, now.store, ncomp, data@, i as int) @*/ {
            /*@ let ghost w0 = *worker; let ghost d0 = data@; proof { assert(p.ix[i as int] == scan.component_indices@[i as int]); } @*/
            let component_index = scan.component_indices[i];
            if finished[i] {
                data[component_index] = worker.get_result(i)?;
                /*@ proof { assert forall|j: int| 0 <= j < 4 && (j < i + 1 || j >= p.n() || !p.done[j]) implies #[trigger] worker.idle(j) by { if j != i { assert(w0.idle(j)); } }
                    assert(w0.holds(i as int, p.comps[i as int], e.q(i as int), sent(p, now.store[i as int], i as int, p.fh))); } @*/
            }
            /*@ proof { plane_more(e, now.store, d0, data@, i as int); } @*/
        }
        /*@ proof { assert(planes_after(p, e.qs, now.store, ncomp, Some(data))); assert(dct_done(p, e.s0, tr, e.sure, marker, self.reader.rest(), e.c0, self.coefficients@, e.qs, ncomp, Some(data))); } @*/
        Ok((marker, Some(data)))
    } else {
        /*@ proof { assert(!any_done(p)); assert(planes_after(p, e.qs, now.store, frame.components@.len() as int, None)); assert(dct_done(p, e.s0, tr, e.sure, marker, self.reader.rest(), e.c0, self.coefficients@, e.qs, frame.components@.len() as int, None));
            assert forall|j: int| 0 <= j < 4 implies #[trigger] worker.idle(j) by { assert(e.given_one(*worker, now.store, p.mh, 0, j)); } } @*/
        Ok((marker, None))
    }
}
/*@ #[verifier::rlimit(240)] @*/
fn decode_unit(&mut self, scan: &ScanInfo, finished: &[bool; MAX_COMPONENTS], component: &Component, is_progressive: bool, is_interleaved: bool, mcu_horizontal_samples: &Vec<u16>, mcu_vertical_samples: &Vec<u16>, mcu_y: u16, mcu_x: u16, i: usize, v_pos: u16, h_pos: u16, huffman: &mut HuffmanDecoder, dc_predictors: &mut [i16; MAX_COMPONENTS], eob_run: &mut u16, mcu_row_coefficients: &mut Vec<Vec<i16>>, dummy_block: &mut [i16; 64] /*@ , Ghost(e): Ghost<Env>, Ghost(tr): Ghost<Seq<Seq<Sn>>>, Ghost(cur): Ghost<Seq<Sn>>, Ghost(a): Ghost<Sn> @*/) -> /*@ (r: @*/ Result<()> /*@ )
    requires e.ok(), *scan == e.c, finished@ == e.p.done, is_progressive == e.p.prog, is_interleaved == (e.p.n() > 1), 0 <= i < e.p.n(), *component == e.p.comps[i as int], mcu_horizontal_samples.len() == e.p.n(), mcu_vertical_samples.len() == e.p.n(), mcu_horizontal_samples@[i as int] == e.p.hs(i as int), mcu_vertical_samples@[i as int] == e.p.vs(i as int),
        0 <= mcu_y < e.p.mh, 0 <= mcu_x < e.p.mw, 0 <= v_pos < e.p.vs(i as int), 0 <= h_pos < e.p.hs(i as int), old(huffman).wf(), old(dc_predictors).len() == 4, old(dummy_block).len() == 64,
        a == (Sn { st: state_of(*old(huffman), old(self).reader.rest()), eob: *old(eob_run) as int, preds: old(dc_predictors)@, store: a.store }), old(self).dc_huffman_tables@ == e.dcs, old(self).ac_huffman_tables@ == e.acs, e.sure ==> old(self).reader.reliable(),
        e.mem(a.store, old(self).coefficients@, old(mcu_row_coefficients)@, mcu_y as int, 0), e.within(tr, cur, a, mcu_y * e.p.mw + mcu_x, unit_no(e.p, i as int, v_pos as int, h_pos as int))
    ensures final(self).but_scan(old(self)), final(self).tables_same(old(self)), e.p.prog ==> co_ok(e.f, final(self).coefficients@), !e.p.prog ==> final(self).coefficients@ == old(self).coefficients@,
        r is Err && e.sure ==> scan_stuck(e.p, e.s0),
        r is Ok ==> final(huffman).wf() && unit_run(e, a, Sn { st: state_of(*final(huffman), final(self).reader.rest()), eob: *final(eob_run) as int, preds: final(dc_predictors)@, store: unit_store(e, a, mcu_y as int, mcu_x as int, v_pos as int, h_pos as int, i as int, final(self).coefficients@, final(mcu_row_coefficients)@) }, mcu_y as int, mcu_x as int, v_pos as int, h_pos as int, i as int, old(self).coefficients@, final(self).coefficients@, old(mcu_row_coefficients)@, final(mcu_row_coefficients)@) @*/ {
    /*@ hide(Env::mem); hide(Env::given); hide(Env::given_one); hide(Env::within); hide(Env::ok); hide(Env::reached); hide(tabs_wf); hide(frame_ok); hide(frame_full); hide(geom); hide(tables_ready); hide(mcus_done); hide(block_first); hide(block_refine); hide(Plan::ok); hide(Plan::comp_fits); hide(Plan::units); hide(plan_of); hide(scan_ok); hide(start_of); hide(linked_sn); hide(units_done); hide(co_after); hide(lens); hide(row_at); hide(sent); hide(win); hide(filled); hide(scan_stuck); hide(row_ok); hide(fits); @*/
                        /*@ let ghost p = e.p; let ghost kk = blk_at(p, i as int, mcu_y as int, mcu_x as int, v_pos as int, h_pos as int); let ghost lk = blk_in(p, i as int, mcu_y as int, mcu_x as int, v_pos as int, h_pos as int); let ghost co0 = self.coefficients@; let ghost rows0 = mcu_row_coefficients@;
                            proof { unit_ready(e, self.coefficients@, mcu_row_coefficients@, tr, cur, a, mcu_y as int, mcu_x as int, v_pos as int, h_pos as int, i as int); } @*/
                        let coefficients = as_block(if is_progressive {
                            let block_y = (mcu_y * mcu_vertical_samples[i] + v_pos) as usize; let block_x = (mcu_x * mcu_horizontal_samples[i] + h_pos) as usize; let block_offset = (block_y * component.block_size.width as usize + block_x) * 64; &mut self.coefficients[scan.component_indices[i]].as_mut_slice()[block_offset..block_offset + 64]
                        } else if finished[i] {
                            let mcu_batch_current_row = if is_interleaved {
                                0
                            } else {
                                mcu_y % component.vertical_sampling_factor as u16
                            }; let block_y = (mcu_batch_current_row * mcu_vertical_samples[i] + v_pos) as usize; let block_x = (mcu_x * mcu_horizontal_samples[i] + h_pos) as usize; let block_offset = (block_y * component.block_size.width as usize + block_x) * 64; &mut mcu_row_coefficients[i].as_mut_slice()[block_offset..block_offset + 64]
                        } else {
                            & mut dummy_block[..64]
                        });
                        /*@ let ghost blk0 = coefficients@; let ghost mut b1 = a; proof { if p.kept(i as int) { assert(blk0 =~= coefs(a.store[i as int], kk)); } unit_fails(e, tr, cur, a, mcu_y as int, mcu_x as int, v_pos as int, h_pos as int, i as int, blk0); } @*/
                        if scan.successive_approximation_high == 0 {
                            decode_block(&mut self.reader, coefficients, huffman, self.dc_huffman_tables[scan.dc_table_indices[i]].as_ref(), self.ac_huffman_tables[scan.ac_table_indices[i]].as_ref(), copy_range(&scan.spectral_selection), scan.successive_approximation_low, eob_run, &mut dc_predictors[i],)?;
                            /*@ proof { b1 = Sn { st: state_of(*huffman, self.reader.rest()), eob: *eob_run as int, preds: dc_predictors@, store: a.store }; assert(dc_predictors@ =~= a.preds.update(i as int, unit_result(p, i as int, a, blk0).1)); assert(unit_ok(p, i as int, a, blk0, b1, coefficients@)); } @*/
                        } else {
                            decode_block_successive_approximation(&mut self.reader, coefficients, huffman, self.ac_huffman_tables[scan.ac_table_indices[i]].as_ref(), copy_range(&scan.spectral_selection), scan.successive_approximation_low, eob_run,)?;
                            /*@ proof { b1 = Sn { st: state_of(*huffman, self.reader.rest()), eob: *eob_run as int, preds: dc_predictors@, store: a.store }; assert(dc_predictors@ =~= a.preds.update(i as int, unit_result(p, i as int, a, blk0).1)); assert(unit_ok(p, i as int, a, blk0, b1, coefficients@)); } @*/
                        }
                        /*@ let ghost blk1 = coefficients@; @*/
                        /*@ proof {
                            if p.prog { assert(self.coefficients@[p.ix[i as int]]@ =~= put(co0[p.ix[i as int]]@, kk, blk1)); put_block(co0[p.ix[i as int]]@, kk, blk1); } else if p.done[i as int] { assert(mcu_row_coefficients@[i as int]@ =~= put(rows0[i as int]@, lk, blk1)); put_block(rows0[i as int]@, lk, blk1); }
                            let b2 = Sn { st: b1.st, eob: b1.eob, preds: b1.preds, store: unit_store(e, a, mcu_y as int, mcu_x as int, v_pos as int, h_pos as int, i as int, self.coefficients@, mcu_row_coefficients@) };
                            assert(unit_over(e, a, b2, mcu_y as int, mcu_x as int, v_pos as int, h_pos as int, i as int, co0, self.coefficients@, rows0, mcu_row_coefficients@, blk0, blk1));
                        } @*/
                        Ok(())
}
//@end
}
