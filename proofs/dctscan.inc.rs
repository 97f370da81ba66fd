// ---- DCT scans (T.81 A.2, B.2.3, F.2, G.2) ------------------------------------------------------------------------
/// what a scan has to do
pub ghost struct Plan {
    /// the components of the scan, their positions in the frame and their tables
    pub comps: Seq<Component>, pub ix: Seq<int>, pub dc: Seq<Option<HuffmanTable>>, pub ac: Seq<Option<HuffmanTable>>,
    pub start: int, pub end: int, pub high: int, pub low: u8, pub r: int, pub prog: bool,
    /// components whose coefficients are complete after this scan
    pub done: Seq<bool>,
    /// MCUs per line and lines of MCUs in the scan; lines of MCUs in the frame
    pub mw: int, pub mh: int, pub fh: int,
}
/// the frame as parse_sof and update_idct_size leave it
pub open spec fn frame_full(f: FrameInfo) -> bool {
    frame_ok(f) && f.components@.len() <= 4 && geom(f.image_size, f.components@, f.mcu_size) && forall|i: int| 0 <= i < f.components@.len() ==> scale_ok((#[trigger] f.components@[i]).dct_scale as int)
}
/// blocks of a component that contain samples (A.2.2)
pub open spec fn blocks_x(f: FrameInfo, c: Component) -> int { cdiv(f.image_size.width * c.horizontal_sampling_factor, 8 * hmax(f.components@, f.components@.len() as int)) }
pub open spec fn blocks_y(f: FrameInfo, c: Component) -> int { cdiv(f.image_size.height * c.vertical_sampling_factor, 8 * vmax(f.components@, f.components@.len() as int)) }
pub open spec fn plan_of(f: FrameInfo, c: ScanInfo, dcs: Seq<Option<HuffmanTable>>, acs: Seq<Option<HuffmanTable>>, r: int, fin: Seq<bool>) -> Plan {
    let n = c.component_indices@.len(); let one = f.components@[c.component_indices@[0] as int];
    Plan {
        comps: Seq::new(n, |i: int| f.components@[c.component_indices@[i] as int]), ix: Seq::new(n, |i: int| c.component_indices@[i] as int),
        dc: Seq::new(n, |i: int| dcs[c.dc_table_indices@[i] as int]), ac: Seq::new(n, |i: int| acs[c.ac_table_indices@[i] as int]),
        start: c.spectral_selection.start as int, end: c.spectral_selection.end as int, high: c.successive_approximation_high as int, low: c.successive_approximation_low, r, prog: f.coding_process == CodingProcess::DctProgressive,
        done: fin, mw: if n > 1 { f.mcu_size.width as int } else { blocks_x(f, one) }, mh: if n > 1 { f.mcu_size.height as int } else { blocks_y(f, one) }, fh: f.mcu_size.height as int,
    }
}
impl Plan {
    pub open spec fn n(self) -> int { self.comps.len() as int }
    /// data units of component i in an MCU
    pub open spec fn hs(self, i: int) -> int { if self.n() > 1 { self.comps[i].horizontal_sampling_factor as int } else { 1 } }
    pub open spec fn vs(self, i: int) -> int { if self.n() > 1 { self.comps[i].vertical_sampling_factor as int } else { 1 } }
    pub open spec fn bw(self, i: int) -> int { self.comps[i].block_size.width as int }
    pub open spec fn bh(self, i: int) -> int { self.comps[i].block_size.height as int }
    pub open spec fn v(self, i: int) -> int { self.comps[i].vertical_sampling_factor as int }
    /// blocks of a row of MCUs of the frame
    pub open spec fn rb(self, i: int) -> int { self.bw(i) * self.v(i) }
    pub open spec fn size(self, i: int) -> int { self.rb(i) * 64 * self.fh }
    pub open spec fn kept(self, i: int) -> bool { self.prog || self.done[i] }
    /// data units of the first i components in an MCU
    pub open spec fn units(self, i: int) -> int decreases i { if i <= 0 { 0 } else { self.units(i - 1) + self.vs(i - 1) * self.hs(i - 1) } }
    pub open spec fn total(self) -> int { self.units(self.n()) }
    /// data unit u of an MCU, looking at components from i on: component, row and column in the MCU
    pub open spec fn unit_at(self, u: int, i: int) -> (int, int, int) decreases self.n() - i {
        if i >= self.n() - 1 || u < self.units(i + 1) { (i, (u - self.units(i)) / self.hs(i), (u - self.units(i)) % self.hs(i)) } else { self.unit_at(u, i + 1) }
    }
    /// the row of MCUs of the frame that MCU row y of the scan belongs to
    pub open spec fn batch(self, i: int, y: int) -> int { if y >= self.mh { self.fh } else if self.n() > 1 { y } else { y / self.v(i) } }
    pub open spec fn ok(self) -> bool {
        &&& 1 <= self.n() <= 4 && self.ix.len() == self.n() && self.dc.len() == self.n() && self.ac.len() == self.n() && self.done.len() == 4 && 0 <= self.start < self.end <= 64 && self.low <= 13 && self.r >= 0
        &&& 1 <= self.mw <= 65535 && 1 <= self.mh <= 65535 && 1 <= self.fh
        &&& forall|i: int| 0 <= i < self.n() ==> #[trigger] self.comp_fits(i)
        &&& forall|i: int, j: int| 0 <= i < j < self.n() ==> #[trigger] self.ix[i] != #[trigger] self.ix[j]
    }
    pub open spec fn comp_fits(self, i: int) -> bool {
        let c = self.comps[i];
        comp_ok(c) && 1 <= c.horizontal_sampling_factor <= 4 && 1 <= c.vertical_sampling_factor <= 4 && c.block_size.height == self.fh * c.vertical_sampling_factor && c.block_size.width <= 8195 && c.block_size.height <= 8195
        && self.mw * self.hs(i) <= c.block_size.width && self.mh * self.vs(i) <= c.block_size.height && (self.n() == 1 ==> cdiv(self.mh, c.vertical_sampling_factor as int) == self.fh) && (self.n() > 1 ==> self.mh == self.fh)
    }
}
/// bit position and predictors, end-of-band run, and the coefficients of the components of the scan
pub ghost struct Sn { pub st: St, pub eob: int, pub preds: Seq<i16>, pub store: Seq<Seq<i16>> }
pub open spec fn oref(t: Option<HuffmanTable>) -> Option<&'static HuffmanTable> { match t { None => None, Some(h) => Some(&h) } }
pub open spec fn unit_result(p: Plan, i: int, a: Sn, blk: Seq<i16>) -> (BRes, i16) {
    if p.high == 0 { block_first(oref(p.dc[i]), oref(p.ac[i]), a.st.bits(), p.start, p.end, p.low, a.eob, a.preds[i], blk) }
    else { (block_refine(oref(p.ac[i]), a.st.bits(), p.start, p.end, scaled(1, p.low), a.eob, blk), a.preds[i]) }
}
/// a data unit of component i is decoded into a block
pub open spec fn unit_ok(p: Plan, i: int, a: Sn, blk: Seq<i16>, b: Sn, blk2: Seq<i16>) -> bool {
    let (res, np) = unit_result(p, i, a, blk);
    b.st.d.wf() && fetched(a.st.d, a.st.rest, b.st.d, b.st.rest) && b.preds == a.preds.update(i, np) && match res {
        BRes::Done(c, q, e) => q >= 0 && blk2 == c && b.eob == e && shifted(a.st.bits(), b.st.bits(), q),
        BRes::Over => same_outside(p.start, p.end, blk, blk2),
        BRes::Fail => false,
    }
}
/// nothing but block k
pub open spec fn only64(a: Seq<i16>, b: Seq<i16>, k: int) -> bool { a.len() == b.len() && forall|j: int| 0 <= j < a.len() && !(64 * k <= j < 64 * k + 64) ==> #[trigger] b[j] == a[j] }
pub open spec fn some_unit(p: Plan, i: int, a: Sn, b: Sn) -> bool { exists|x: Seq<i16>, y: Seq<i16>| x.len() == 64 && #[trigger] unit_ok(p, i, a, x, b, y) }
/// the data unit is decoded into the block of component i in line by, column bx, and into nothing else
pub open spec fn unit_done(p: Plan, a: Sn, i: int, by: int, bx: int, b: Sn) -> bool {
    let k = by * p.bw(i) + bx;
    if p.kept(i) { b.store == a.store.update(i, b.store[i]) && only64(a.store[i], b.store[i], k) && unit_ok(p, i, a, coefs(a.store[i], k), b, coefs(b.store[i], k)) } else { b.store == a.store && some_unit(p, i, a, b) }
}
/// the data unit cannot be decoded
pub open spec fn unit_stuck(p: Plan, a: Sn, i: int, by: int, bx: int) -> bool {
    !seg_ok(a.st.d, a.st.rest) || if p.kept(i) { !(unit_result(p, i, a, coefs(a.store[i], by * p.bw(i) + bx)).0 is Done) } else { exists|x: Seq<i16>| x.len() == 64 && !((#[trigger] unit_result(p, i, a, x)).0 is Done) }
}
pub open spec fn unit_step(p: Plan, my: int, mx: int, cur: Seq<Sn>, u: int) -> bool {
    let (i, v, h) = p.unit_at(u, 0);
    unit_done(p, cur[u], i, my * p.vs(i) + v, mx * p.hs(i) + h, cur[u + 1])
}
/// the first n data units of an MCU, along the states cur
pub open spec fn units_done(p: Plan, my: int, mx: int, cur: Seq<Sn>, n: int) -> bool { cur.len() == n + 1 && forall|u: int| 0 <= u < n ==> #[trigger] unit_step(p, my, mx, cur, u) }
pub open spec fn zeros(n: int) -> Seq<i16> { Seq::new(n as nat, |k: int| 0i16) }
/// before MCU k, after a: every r MCUs a restart marker is taken and decoding starts anew
pub open spec fn linked_sn(r: int, k: int, a: Sn, b: Sn) -> bool {
    if r > 0 && k > 0 && k % r == 0 { restart_at((k / r - 1) % 8, a.st, b.st) && b.eob == 0 && b.preds == zeros(4) && b.store == a.store } else { b == a }
}
pub open spec fn mcu_done(p: Plan, s: Sn, tr: Seq<Seq<Sn>>, k: int) -> bool {
    units_done(p, k / p.mw, k % p.mw, tr[k], p.total()) && linked_sn(p.r, k, if k == 0 { s } else { tr[k - 1][p.total()] }, tr[k][0])
}
/// the first n MCUs
pub open spec fn mcus_done(p: Plan, s: Sn, tr: Seq<Seq<Sn>>, n: int) -> bool { tr.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] mcu_done(p, s, tr, k) }
pub open spec fn last_sn(p: Plan, s: Sn, tr: Seq<Seq<Sn>>) -> Sn { if tr.len() == 0 { s } else { tr[tr.len() - 1][p.total()] } }
pub open spec fn no_unit(p: Plan, a: Sn, cur: Seq<Sn>, k: int, u: int) -> bool {
    0 <= u < p.total() && units_done(p, k / p.mw, k % p.mw, cur, u) && linked_sn(p.r, k, a, cur[0]) && ({ let (i, v, h) = p.unit_at(u, 0); unit_stuck(p, cur[u], i, (k / p.mw) * p.vs(i) + v, (k % p.mw) * p.hs(i) + h) })
}
pub open spec fn mcus_stuck(p: Plan, s: Sn, tr: Seq<Seq<Sn>>) -> bool {
    let k = tr.len() as int; let a = last_sn(p, s, tr); let n = p.mw * p.mh;
    k <= n && mcus_done(p, s, tr, k) && (k == n && !seg_ok(a.st.d, a.st.rest)
        || k < n && p.r > 0 && k > 0 && k % p.r == 0 && restart_stuck((k / p.r - 1) % 8, a.st)
        || k < n && exists|cur: Seq<Sn>, u: int| #[trigger] no_unit(p, a, cur, k, u))
}
/// the scan cannot be decoded: no code word, no marker, or the end of the data at some place
pub open spec fn scan_stuck(p: Plan, s: Sn) -> bool { exists|tr: Seq<Seq<Sn>>| #[trigger] mcus_stuck(p, s, tr) }
/// row r of MCUs of the coefficients of component i
pub open spec fn win(p: Plan, s: Seq<i16>, i: int, r: int) -> Seq<i16> { s.subrange(r * (p.rb(i) * 64), (r + 1) * (p.rb(i) * 64)) }
pub open spec fn sent(p: Plan, s: Seq<i16>, i: int, n: int) -> Seq<Seq<i16>> { Seq::new(n as nat, |r: int| win(p, s, i, r)) }
/// before the scan: what earlier scans of a progressive frame left, zeros otherwise
pub open spec fn store0(p: Plan, co: Seq<Vec<i16>>) -> Seq<Seq<i16>> { Seq::new(p.comps.len(), |i: int| if p.prog { co[p.ix[i]]@ } else { zeros(p.size(i)) }) }
pub open spec fn start_of(p: Plan, rest: Seq<u8>, co: Seq<Vec<i16>>) -> Sn { Sn { st: begin(rest), eob: 0, preds: zeros(4), store: store0(p, co) } }
/// coefficients of a progressive frame after the scan
pub open spec fn co_after(p: Plan, store: Seq<Seq<i16>>, c0: Seq<Vec<i16>>, c1: Seq<Vec<i16>>) -> bool {
    c1.len() == c0.len() && (!p.prog ==> c1 == c0) && (p.prog ==> (forall|i: int| 0 <= i < p.n() ==> c1[#[trigger] p.ix[i]]@ == store[i]) && forall|k: int| 0 <= k < c0.len() && !p.ix.contains(k) ==> #[trigger] c1[k] == c0[k])
}
pub open spec fn any_done(p: Plan) -> bool { exists|i: int| 0 <= i < 4 && #[trigger] p.done[i] }
/// the planes of the completed components are the transforms of all their rows; nothing else is returned
pub open spec fn planes_after(p: Plan, qs: Seq<Option<Arc<[u16; 64]>>>, store: Seq<Seq<i16>>, ncomp: int, data: Option<Vec<Vec<u8>>>) -> bool {
    (data is Some <==> any_done(p)) && (data matches Some(d) ==> d.len() == ncomp
        && (forall|i: int| 0 <= i < p.n() && #[trigger] p.done[i] ==> rows_in(d[p.ix[i]]@, p.comps[i], qs[p.comps[i].quantization_table_index as int]->0@, sent(p, store[i], i, p.fh)))
        && forall|k: int| 0 <= k < ncomp && (forall|i: int| 0 <= i < p.n() && p.ix[i] == k ==> !#[trigger] p.done[i]) ==> (#[trigger] d[k]).len() == 0)
}
pub open spec fn dct_done(p: Plan, s: Sn, tr: Seq<Seq<Sn>>, sure: bool, m: Option<Marker>, rest: Seq<u8>, c0: Seq<Vec<i16>>, c1: Seq<Vec<i16>>, qs: Seq<Option<Arc<[u16; 64]>>>, ncomp: int, data: Option<Vec<Vec<u8>>>) -> bool {
    let e = last_sn(p, s, tr);
    mcus_done(p, s, tr, p.mw * p.mh) && scan_end(e.st, sure, m, rest) && co_after(p, e.store, c0, c1) && planes_after(p, qs, e.store, ncomp, data)
}
pub open spec fn dct_scan(p: Plan, rest0: Seq<u8>, sure: bool, m: Option<Marker>, rest: Seq<u8>, c0: Seq<Vec<i16>>, c1: Seq<Vec<i16>>, qs: Seq<Option<Arc<[u16; 64]>>>, ncomp: int, data: Option<Vec<Vec<u8>>>) -> bool {
    exists|tr: Seq<Seq<Sn>>| #[trigger] dct_done(p, start_of(p, rest0, c0), tr, sure, m, rest, c0, c1, qs, ncomp, data)
}
/// coefficient buffers of a progressive frame
pub open spec fn co_ok(f: FrameInfo, co: Seq<Vec<i16>>) -> bool { co.len() == f.components@.len() && forall|k: int| 0 <= k < co.len() ==> (#[trigger] co[k]).len() == f.components@[k].block_size.width * f.components@[k].block_size.height * 64 }
pub open spec fn tables_ready(f: FrameInfo, c: ScanInfo, qs: Seq<Option<Arc<[u16; 64]>>>, dcs: Seq<Option<HuffmanTable>>, acs: Seq<Option<HuffmanTable>>) -> bool {
    (forall|i: int| 0 <= i < c.component_indices@.len() ==> qs[f.components@[#[trigger] c.component_indices@[i] as int].quantization_table_index as int] is Some)
    && (c.spectral_selection.start == 0 ==> tables_set(dcs, c.dc_table_indices@)) && (c.spectral_selection.end > 1 ==> tables_set(acs, c.ac_table_indices@))
}
// ---- lemmas ---------------------------------------------------------------------------------------------------------
pub proof fn cdiv_is(a: int, b: int, q: int) requires b >= 1, q * b >= a, (q - 1) * b < a ensures cdiv(a, b) == q
{ assert((a + b - 1) / b == q) by { let r = a + b - 1 - q * b; assert(0 <= r < b) by (nonlinear_arith) requires q * b >= a, (q - 1) * b < a, r == a + b - 1 - q * b; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a + b - 1, b, q, r); } }
pub proof fn cdiv_bounds(a: int, b: int) requires b >= 1 ensures cdiv(a, b) * b >= a, (cdiv(a, b) - 1) * b < a
{ let q = cdiv(a, b); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a + b - 1, b); let r = (a + b - 1) % b; assert(0 <= r < b) by (nonlinear_arith) requires r == (a + b - 1) % b, b >= 1; assert(q * b == a + b - 1 - r) by (nonlinear_arith) requires a + b - 1 == b * q + r; assert((q - 1) * b == q * b - b) by (nonlinear_arith); }
/// scaling by s and counting blocks of s samples is counting blocks
pub proof fn cdiv_scaled(a: int, b: int, s: int) requires b >= 1, s >= 1, a >= 1 ensures cdiv(cdiv(a * s, b), s) == cdiv(a, b)
{
    let q = cdiv(a, b); let t = cdiv(a * s, b);
    cdiv_bounds(a, b); cdiv_bounds(a * s, b);
    assert(t <= q * s) by (nonlinear_arith) requires (t - 1) * b < a * s, q * b >= a, b >= 1, s >= 1;
    assert(t > (q - 1) * s) by (nonlinear_arith) requires t * b >= a * s, (q - 1) * b < a, b >= 1, s >= 1;
    cdiv_is(t, s, q);
}
/// lines of blocks of a component against lines of MCUs
pub proof fn blocks_fit(w: int, f: int, m: int) requires 1 <= w <= 65535, 1 <= f <= m <= 4 ensures 1 <= cdiv(w * f, 8 * m) <= cdiv(w, 8 * m) * f, cdiv(cdiv(w * f, 8 * m), f) == cdiv(w, 8 * m)
{
    let q = cdiv(w, 8 * m); let t = cdiv(w * f, 8 * m); let y = 8 * m;
    cdiv_bounds(w, y); cdiv_bounds(w * f, y);
    assert(w * f >= 1) by (nonlinear_arith) requires w >= 1, f >= 1;
    assert(t >= 1) by (nonlinear_arith) requires t * y >= w * f, w * f >= 1, y >= 8;
    assert(t <= q * f) by (nonlinear_arith) requires (t - 1) * y < w * f, q * y >= w, y >= 8, f >= 1;
    assert(t > (q - 1) * f) by (nonlinear_arith) requires t * y >= w * f, (q - 1) * y < w, y >= 8, f >= 1;
    cdiv_is(t, f, q);
}
pub proof fn plan_ok(f: FrameInfo, c: ScanInfo, dcs: Seq<Option<HuffmanTable>>, acs: Seq<Option<HuffmanTable>>, r: int, fin: Seq<bool>)
    requires frame_full(f), scan_ok(f, c), f.coding_process != CodingProcess::Lossless, fin.len() == 4, r >= 0 ensures plan_of(f, c, dcs, acs, r, fin).ok()
{
    let p = plan_of(f, c, dcs, acs, r, fin); let cs = f.components@; let (hm, vm) = (hmax(cs, cs.len() as int), vmax(cs, cs.len() as int)); let (w, h) = (f.image_size.width as int, f.image_size.height as int);
    max_bounds(cs, cs.len() as int);
    grid_bound(w, 1, hm); grid_bound(h, 1, vm);
    assert forall|i: int| 0 <= i < p.n() implies #[trigger] p.comp_fits(i) by {
        let k = c.component_indices@[i] as int; let x = cs[k];
        assert(p.comps[i] == x); assert(factors_ok(x)); assert(comp_geom(f.image_size, hm, vm, x)); assert(scale_ok(cs[k].dct_scale as int));
        let (hf, vf) = (x.horizontal_sampling_factor as int, x.vertical_sampling_factor as int);
        grid_bound(w, hf, hm); grid_bound(h, vf, vm); blocks_fit(w, hf, hm); blocks_fit(h, vf, vm);
        assert(p.fh * vf == cdiv(h, 8 * vm) * vf);
        assert(x.block_size.width >= 1) by (nonlinear_arith) requires x.block_size.width == cdiv(w, 8 * hm) * hf, cdiv(w, 8 * hm) >= 1, hf >= 1;
        if p.n() == 1 { assert(i == 0); assert(p.mw * 1 == p.mw && p.mh * 1 == p.mh); }
    }
    assert forall|i: int, j: int| 0 <= i < j < p.n() implies #[trigger] p.ix[i] != #[trigger] p.ix[j] by { assert(c.component_indices@[i] < c.component_indices@[j]); }
    let k0 = c.component_indices@[0] as int;
    assert(p.comp_fits(0)); assert(cs[k0].block_size.width <= 65535);
    if p.n() == 1 { assert(p.mw * 1 == p.mw && p.mh * 1 == p.mh); assert(factors_ok(cs[k0])); blocks_fit(w, cs[k0].horizontal_sampling_factor as int, hm); blocks_fit(h, cs[k0].vertical_sampling_factor as int, vm); }
}
