// ---- decode_scan: what holds where -----------------------------------------------------------------------------------
pub ghost struct Env { pub p: Plan, pub f: FrameInfo, pub c: ScanInfo, pub dcs: Seq<Option<HuffmanTable>>, pub acs: Seq<Option<HuffmanTable>>, pub qs: Seq<Option<Arc<[u16; 64]>>>, pub c0: Seq<Vec<i16>>, pub s0: Sn, pub sure: bool }
impl Env {
    pub open spec fn ok(self) -> bool {
        &&& self.p == plan_of(self.f, self.c, self.dcs, self.acs, self.p.r, self.p.done) && self.p.ok() && frame_full(self.f) && scan_ok(self.f, self.c) && self.f.coding_process != CodingProcess::Lossless
        &&& self.dcs.len() == 4 && self.acs.len() == 4 && self.qs.len() == 4 && tabs_wf(self.dcs) && tabs_wf(self.acs) && tables_ready(self.f, self.c, self.qs, self.dcs, self.acs)
        &&& self.p.prog ==> co_ok(self.f, self.c0)
    }
    pub open spec fn locals(self, f: FrameInfo, c: ScanInfo, comps: Seq<Component>, prog: bool, inter: bool, fin: Seq<bool>) -> bool {
        self.ok() && f == self.f && c == self.c && comps == self.p.comps && prog == self.p.prog && inter == (self.p.n() > 1) && fin == self.p.done
    }
    pub open spec fn grid(self, h: Seq<u16>, v: Seq<u16>, mx: u16, my: u16) -> bool {
        h.len() == self.p.n() && v.len() == self.p.n() && mx == self.p.mw && my == self.p.mh && (forall|i: int| 0 <= i < self.p.n() ==> #[trigger] h[i] == self.p.hs(i)) && (forall|i: int| 0 <= i < self.p.n() ==> #[trigger] v[i] == self.p.vs(i))
    }
    pub open spec fn q(self, i: int) -> Seq<u16> { self.qs[self.p.comps[i].quantization_table_index as int]->0@ }
    /// coefficients in memory, before the rows of MCU row y of components from k on are handed out
    pub open spec fn mem(self, store: Seq<Seq<i16>>, co: Seq<Vec<i16>>, rows: Seq<Vec<i16>>, y: int, k: int) -> bool {
        lens(self.p, store) && co_after(self.p, store, self.c0, co) && rows.len() == self.p.n() && forall|i: int| 0 <= i < self.p.n() ==> row_at(self.p, store[i], (#[trigger] rows[i])@, i, if i < k { y + 1 } else { y })
    }
    pub open spec fn given_one<W: Worker>(self, w: W, store: Seq<Seq<i16>>, y: int, k: int, i: int) -> bool {
        if i < self.p.n() && self.p.done[i] { w.holds(i, self.p.comps[i], self.q(i), sent(self.p, store[i], i, self.p.batch(i, if i < k { y + 1 } else { y }))) } else { w.idle(i) }
    }
    pub open spec fn given<W: Worker>(self, w: W, store: Seq<Seq<i16>>, y: int, k: int) -> bool { w.ok() && forall|i: int| 0 <= i < 4 ==> #[trigger] self.given_one(w, store, y, k, i) }
    /// k MCUs are done
    pub open spec fn reached(self, tr: Seq<Seq<Sn>>, now: Sn, k: int) -> bool { mcus_done(self.p, self.s0, tr, k) && now == last_sn(self.p, self.s0, tr) }
    /// and u data units of the next one
    pub open spec fn within(self, tr: Seq<Seq<Sn>>, cur: Seq<Sn>, now: Sn, k: int, u: int) -> bool {
        0 <= k < self.p.mw * self.p.mh && mcus_done(self.p, self.s0, tr, k) && linked_sn(self.p.r, k, last_sn(self.p, self.s0, tr), cur[0]) && units_done(self.p, k / self.p.mw, k % self.p.mw, cur, u) && now == cur[u]
    }
}
pub open spec fn lens(p: Plan, store: Seq<Seq<i16>>) -> bool { store.len() == p.n() && forall|i: int| 0 <= i < p.n() ==> (#[trigger] store[i]).len() == p.size(i) }
pub open spec fn blank(s: Seq<i16>, from: int) -> bool { forall|j: int| from <= j < s.len() ==> #[trigger] s[j] == 0 }
/// the row of MCUs in work of a component of a sequential frame
pub open spec fn row_at(p: Plan, s: Seq<i16>, row: Seq<i16>, i: int, y: int) -> bool {
    !p.prog && p.done[i] && y < p.mh ==> row == win(p, s, i, p.batch(i, y)) && blank(s, (p.batch(i, y) + 1) * (p.rb(i) * 64))
}
/// block k replaced
pub open spec fn put(s: Seq<i16>, k: int, blk: Seq<i16>) -> Seq<i16> { Seq::new(s.len(), |j: int| if 64 * k <= j < 64 * k + 64 { blk[j - 64 * k] } else { s[j] }) }
pub proof fn put_block(s: Seq<i16>, k: int, blk: Seq<i16>) requires 0 <= k, 64 * k + 64 <= s.len(), blk.len() == 64 ensures only64(s, put(s, k, blk), k), coefs(put(s, k, blk), k) == blk
{ assert(coefs(put(s, k, blk), k) =~= blk); }
/// where a data unit lies: in line by, column bx of the blocks of component i; in row r of MCUs at line r0
pub open spec fn line0(p: Plan, i: int, y: int, v: int) -> int { y * p.vs(i) + v - p.batch(i, y) * p.v(i) }
pub proof fn place_unit(p: Plan, i: int, y: int, x: int, v: int, h: int)
    requires p.ok(), 0 <= i < p.n(), 0 <= y < p.mh, 0 <= x < p.mw, 0 <= v < p.vs(i), 0 <= h < p.hs(i)
    ensures ({ let (by, bx, b, r0) = (y * p.vs(i) + v, x * p.hs(i) + h, p.batch(i, y), line0(p, i, y, v));
        &&& 0 <= by < p.bh(i) <= 8195 && 0 <= bx < p.bw(i) <= 8195 && 0 <= y * p.vs(i) && 0 <= x * p.hs(i)
        &&& 0 <= by * p.bw(i) && 0 <= by * p.bw(i) + bx && (by * p.bw(i) + bx) * 64 + 64 <= p.size(i)
        &&& 0 <= b < p.fh && 0 <= r0 < p.v(i) && r0 == if p.n() > 1 { v } else { y % p.v(i) }
        &&& 0 <= r0 * p.bw(i) && (r0 * p.bw(i) + bx) * 64 + 64 <= p.rb(i) * 64
        &&& (by * p.bw(i) + bx) * 64 == b * (p.rb(i) * 64) + (r0 * p.bw(i) + bx) * 64
        &&& (b + 1) * (p.rb(i) * 64) <= p.size(i)
        &&& 0 <= b * (p.rb(i) * 64) && (b + 1) * (p.rb(i) * 64) == b * (p.rb(i) * 64) + p.rb(i) * 64 })
{
    assert(p.comp_fits(i));
    let (by, bx, b, r0) = (y * p.vs(i) + v, x * p.hs(i) + h, p.batch(i, y), line0(p, i, y, v)); let (bw, bh, vv, fh) = (p.bw(i), p.bh(i), p.v(i), p.fh);
    let (vs, hs, mh, mw) = (p.vs(i), p.hs(i), p.mh, p.mw);
    assert(0 <= y * vs && y * vs + v < mh * vs) by (nonlinear_arith) requires 0 <= y < mh, 0 <= v < vs;
    assert(0 <= x * hs && x * hs + h < mw * hs) by (nonlinear_arith) requires 0 <= x < mw, 0 <= h < hs;
    batch_bounds(p, i, y);
    if p.n() == 1 { assert(y * 1 == y); assert(y - (y / vv) * vv == y % vv && 0 <= y % vv < vv) by (nonlinear_arith) requires vv >= 1, y >= 0; }
    assert(by == b * vv + r0);
    rows_of_blocks(bw, vv, fh, b, r0, bx);
    assert(fh * vv == bh); assert(p.rb(i) == bw * vv); assert(p.size(i) == bw * vv * 64 * fh);
}
pub proof fn rows_of_blocks(bw: int, v: int, fh: int, b: int, r0: int, bx: int)
    requires bw >= 1, v >= 1, 0 <= b < fh, 0 <= r0 < v, 0 <= bx < bw
    ensures 0 <= (b * v + r0) * bw, ((b * v + r0) * bw + bx) * 64 == b * (bw * v * 64) + (r0 * bw + bx) * 64, (r0 * bw + bx) * 64 + 64 <= bw * v * 64, 0 <= r0 * bw, (b + 1) * (bw * v * 64) <= bw * v * 64 * fh, 0 <= b * (bw * v * 64), (b + 1) * (bw * v * 64) == b * (bw * v * 64) + bw * v * 64
{
    assert(r0 * bw + bx + 1 <= v * bw && 0 <= r0 * bw) by (nonlinear_arith) requires 0 <= r0 < v, 0 <= bx < bw;
    assert((b * v + r0) * bw == b * (bw * v) + r0 * bw) by (nonlinear_arith);
    let t = bw * v; assert(t >= 0 && t == v * bw) by (nonlinear_arith) requires t == bw * v, bw >= 1, v >= 1;
    assert(b * t >= 0 && b * (t * 64) == (b * t) * 64 && (b + 1) * (t * 64) == b * (t * 64) + t * 64) by (nonlinear_arith) requires b >= 0, t >= 0;
    assert((b + 1) * (t * 64) <= t * 64 * fh) by (nonlinear_arith) requires b + 1 <= fh, t >= 0;
}
pub proof fn batch_bounds(p: Plan, i: int, y: int)
    requires p.ok(), 0 <= i < p.n(), 0 <= y < p.mh
    ensures 0 <= p.batch(i, y) < p.fh, p.batch(i, 0) == 0, p.batch(i, p.mh) == p.fh,
        p.batch(i, y + 1) == if p.n() == 1 && y + 1 < p.mh && (y + 1) % p.v(i) > 0 { p.batch(i, y) } else { p.batch(i, y) + 1 },
{
    assert(p.comp_fits(i)); let v = p.v(i);
    if p.n() == 1 {
        let (q, r) = (y / v, y % v); assert(y == q * v + r && 0 <= r < v && q >= 0) by (nonlinear_arith) requires q == y / v, r == y % v, v >= 1, y >= 0;
        if r + 1 < v { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y + 1, v, q, r + 1); } else { assert((q + 1) * v == q * v + v) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y + 1, v, q + 1, 0); }
        cdiv_bounds(p.mh, v); let f = p.fh;
        assert(q < f) by (nonlinear_arith) requires q * v + r < p.mh, f * v >= p.mh, r >= 0, v >= 1;
        if y + 1 == p.mh { assert(q + 1 >= f) by (nonlinear_arith) requires (f - 1) * v < p.mh, p.mh == q * v + r + 1, r < v, v >= 1; }
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(0, v, 0, 0);
    }
}
/// a block inside row b of MCUs is replaced
pub proof fn put_win(p: Plan, s: Seq<i16>, i: int, b: int, k: int, lk: int, blk: Seq<i16>)
    requires s.len() == p.size(i), 0 <= b, 0 <= lk, 64 * lk + 64 <= p.rb(i) * 64, 64 * k == b * (p.rb(i) * 64) + 64 * lk, (b + 1) * (p.rb(i) * 64) <= s.len(), (b + 1) * (p.rb(i) * 64) == b * (p.rb(i) * 64) + p.rb(i) * 64, 0 <= b * (p.rb(i) * 64), blk.len() == 64, p.rb(i) >= 0
    ensures win(p, put(s, k, blk), i, b) == put(win(p, s, i, b), lk, blk), sent(p, put(s, k, blk), i, b) == sent(p, s, i, b), blank(s, (b + 1) * (p.rb(i) * 64)) ==> blank(put(s, k, blk), (b + 1) * (p.rb(i) * 64))
{
    let t = put(s, k, blk); let w = p.rb(i) * 64;
    assert(win(p, t, i, b) =~= put(win(p, s, i, b), lk, blk));
    assert forall|r: int| 0 <= r < b implies #[trigger] win(p, t, i, r) == win(p, s, i, r) by {
        assert((r + 1) * w <= b * w && 0 <= r * w && (r + 1) * w == r * w + w) by (nonlinear_arith) requires 0 <= r, r + 1 <= b, w >= 0;
        assert(win(p, t, i, r) =~= win(p, s, i, r));
    }
    assert(sent(p, t, i, b) =~= sent(p, s, i, b));
}
pub proof fn sent_next(p: Plan, s: Seq<i16>, i: int, b: int) requires b >= 0 ensures sent(p, s, i, b + 1) == sent(p, s, i, b).push(win(p, s, i, b)), sent(p, s, i, b).len() == b, sent(p, s, i, 0) == Seq::<Seq<i16>>::empty()
{ assert(sent(p, s, i, b + 1) =~= sent(p, s, i, b).push(win(p, s, i, b))); assert(sent(p, s, i, 0) =~= Seq::<Seq<i16>>::empty()); }
/// row b is as long as a row of MCUs has to be and there is room for it
pub proof fn batch_fits(p: Plan, s: Seq<i16>, i: int, b: int)
    requires p.ok(), 0 <= i < p.n(), 0 <= b < p.fh, s.len() == p.size(i)
    ensures row_ok(p.comps[i], win(p, s, i, b)), fits(p.comps[i], (b + 1) as nat), 0 <= b * (p.rb(i) * 64), (b + 1) * (p.rb(i) * 64) == b * (p.rb(i) * 64) + p.rb(i) * 64, (b + 1) * (p.rb(i) * 64) <= p.size(i), p.rb(i) * 64 <= 8195 * 4 * 64, p.size(i) <= 8195 * 8195 * 64, p.rb(i) >= 1
{
    assert(p.comp_fits(i)); let c = p.comps[i];
    let (bw, v, fh, d) = (p.bw(i), p.v(i), p.fh, c.dct_scale as int);
    rows_of_blocks(bw, v, fh, b, 0, 0);
    assert(1 <= bw * v <= 8195 * 4) by (nonlinear_arith) requires 1 <= bw <= 8195, 1 <= v <= 4;
    assert((b + 1) * (bw * v * d * d) <= bw * (fh * v) * d * d) by (nonlinear_arith) requires b + 1 <= fh, bw >= 1, v >= 1, d >= 1;
    assert(bw * v * 64 * fh <= 8195 * 8195 * 64) by (nonlinear_arith) requires 1 <= bw <= 8195, fh * v <= 8195, v >= 1, fh >= 1;
}
pub proof fn store_size(p: Plan, i: int) requires p.ok(), 0 <= i < p.n() ensures p.size(i) == p.bw(i) * p.bh(i) * 64, p.size(i) >= 0, p.rb(i) >= 1
{ assert(p.comp_fits(i)); let (bw, v, fh) = (p.bw(i), p.v(i), p.fh); assert(bw * v * 64 * fh == bw * (fh * v) * 64 && bw * v * 64 * fh >= 0 && bw * v >= 1) by (nonlinear_arith) requires bw >= 1, v >= 1, fh >= 1; }
pub proof fn units_pos(p: Plan, i: int) requires p.ok(), 0 <= i <= p.n() ensures p.units(i) >= i, i < p.n() ==> p.units(i + 1) == p.units(i) + p.vs(i) * p.hs(i) && p.vs(i) * p.hs(i) >= 1 decreases i
{
    if i > 0 { units_pos(p, i - 1); assert(p.comp_fits(i - 1)); let (a, b) = (p.vs(i - 1), p.hs(i - 1)); assert(a * b >= 1) by (nonlinear_arith) requires a >= 1, b >= 1; }
    if i < p.n() { assert(p.comp_fits(i)); let (a, b) = (p.vs(i), p.hs(i)); assert(a * b >= 1) by (nonlinear_arith) requires a >= 1, b >= 1; }
}
pub proof fn units_more(p: Plan, i: int, j: int) requires p.ok(), 0 <= i <= j <= p.n() ensures p.units(i) <= p.units(j) decreases j
{ if i < j { units_more(p, i, j - 1); units_pos(p, j - 1); } }
pub proof fn unit_found(p: Plan, k: int, i: int, v: int, h: int)
    requires p.ok(), 0 <= k <= i < p.n(), 0 <= v < p.vs(i), 0 <= h < p.hs(i)
    ensures p.unit_at(p.units(i) + v * p.hs(i) + h, k) == (i, v, h), p.units(i) <= p.units(i) + v * p.hs(i) + h < p.units(i + 1) <= p.total(), 0 <= p.units(i)
    decreases i - k
{
    let (vs, hs) = (p.vs(i), p.hs(i)); let u = p.units(i) + v * hs + h;
    units_pos(p, i); units_more(p, i + 1, p.n());
    assert(0 <= v * hs && v * hs + h < vs * hs) by (nonlinear_arith) requires 0 <= v < vs, 0 <= h < hs;
    if k < i { units_more(p, k + 1, i); unit_found(p, k + 1, i, v, h); }
    else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v * hs + h, hs, v, h); }
}
/// a line of units of an MCU, and the lines of a component
pub proof fn unit_line(p: Plan, i: int, v: int) requires p.ok(), 0 <= i < p.n(), 0 <= v ensures p.units(i) + v * p.hs(i) + p.hs(i) == p.units(i) + (v + 1) * p.hs(i), 0 * p.hs(i) == 0, p.units(i + 1) == p.units(i) + p.vs(i) * p.hs(i)
{ units_pos(p, i); let hs = p.hs(i); assert((v + 1) * hs == v * hs + hs) by (nonlinear_arith); }
pub proof fn unit_pushed(p: Plan, y: int, x: int, cur: Seq<Sn>, u: int, b: Sn)
    requires units_done(p, y, x, cur, u), u >= 0, ({ let (i, v, h) = p.unit_at(u, 0); unit_done(p, cur[u], i, y * p.vs(i) + v, x * p.hs(i) + h, b) })
    ensures units_done(p, y, x, cur.push(b), u + 1)
{
    let c1 = cur.push(b);
    assert forall|w: int| 0 <= w < u + 1 implies #[trigger] unit_step(p, y, x, c1, w) by { if w < u { assert(unit_step(p, y, x, cur, w)); assert(c1[w] == cur[w] && c1[w + 1] == cur[w + 1]); } else { assert(c1[w] == cur[w]); } }
}
/// MCU x of line y
pub proof fn mcu_index(p: Plan, y: int, x: int) requires p.ok(), 0 <= y < p.mh, 0 <= x <= p.mw ensures 0 <= y * p.mw, x < p.mw ==> y * p.mw + x < p.mw * p.mh && (y * p.mw + x) / p.mw == y && (y * p.mw + x) % p.mw == x, (y + 1) * p.mw == y * p.mw + p.mw, y * p.mw + x <= p.mw * p.mh
{
    let (w, h) = (p.mw, p.mh);
    assert(0 <= y * w && y * w + w <= w * h && (y + 1) * w == y * w + w) by (nonlinear_arith) requires 0 <= y < h, w >= 1;
    if x < w { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * w + x, w, y, x); }
}
pub proof fn mcu_pushed(e: Env, tr: Seq<Seq<Sn>>, cur: Seq<Sn>, now: Sn, k: int) requires e.within(tr, cur, now, k, e.p.total()), e.p.ok() ensures e.reached(tr.push(cur), now, k + 1)
{
    let t1 = tr.push(cur); units_pos(e.p, e.p.n());
    assert forall|m: int| 0 <= m < k + 1 implies #[trigger] mcu_done(e.p, e.s0, t1, m) by {
        if m < k { assert(mcu_done(e.p, e.s0, tr, m)); assert(t1[m] == tr[m]); if m > 0 { assert(t1[m - 1] == tr[m - 1]); } } else { if k > 0 { assert(t1[k - 1] == tr[k - 1]); } }
    }
}
pub proof fn stuck_at_restart(e: Env, tr: Seq<Seq<Sn>>, now: Sn, k: int) requires e.reached(tr, now, k), 0 <= k < e.p.mw * e.p.mh
    ensures e.p.r > 0 && k > 0 && k % e.p.r == 0 && restart_stuck((k / e.p.r - 1) % 8, now.st) ==> scan_stuck(e.p, e.s0)
{ if e.p.r > 0 && k > 0 && k % e.p.r == 0 && restart_stuck((k / e.p.r - 1) % 8, now.st) { assert(mcus_stuck(e.p, e.s0, tr)); } }
pub proof fn stuck_at_unit(e: Env, tr: Seq<Seq<Sn>>, cur: Seq<Sn>, now: Sn, k: int, i: int, v: int, h: int)
    requires e.p.ok(), 0 <= i < e.p.n(), 0 <= v < e.p.vs(i), 0 <= h < e.p.hs(i), e.within(tr, cur, now, k, e.p.units(i) + v * e.p.hs(i) + h)
    ensures unit_stuck(e.p, now, i, (k / e.p.mw) * e.p.vs(i) + v, (k % e.p.mw) * e.p.hs(i) + h) ==> scan_stuck(e.p, e.s0)
{
    if unit_stuck(e.p, now, i, (k / e.p.mw) * e.p.vs(i) + v, (k % e.p.mw) * e.p.hs(i) + h) {
        let u = e.p.units(i) + v * e.p.hs(i) + h; unit_found(e.p, 0, i, v, h);
        assert(no_unit(e.p, last_sn(e.p, e.s0, tr), cur, k, u)); assert(mcus_stuck(e.p, e.s0, tr));
    }
}
pub proof fn stuck_at_end(e: Env, tr: Seq<Seq<Sn>>, now: Sn) requires e.reached(tr, now, e.p.mw * e.p.mh) ensures !seg_ok(now.st.d, now.st.rest) ==> scan_stuck(e.p, e.s0)
{ if !seg_ok(now.st.d, now.st.rest) { assert(mcus_stuck(e.p, e.s0, tr)); } }
pub proof fn batch_all(p: Plan) requires p.ok() ensures forall|i: int| 0 <= i < p.n() ==> #[trigger] p.batch(i, 0) == 0 && p.batch(i, p.mh) == p.fh
{ assert forall|i: int| 0 <= i < p.n() implies #[trigger] p.batch(i, 0) == 0 && p.batch(i, p.mh) == p.fh by { batch_bounds(p, i, 0); } }
/// before the first MCU
pub proof fn begun(e: Env, co: Seq<Vec<i16>>, rows: Seq<Vec<i16>>)
    requires e.ok(), co == e.c0, rows.len() == e.p.n(), e.s0.store == store0(e.p, e.c0), lens(e.p, e.s0.store), !e.p.prog ==> forall|j: int| 0 <= j < e.p.n() && e.p.done[j] ==> (#[trigger] rows[j])@ == zeros(e.p.rb(j) * 64)
    ensures e.mem(e.s0.store, co, rows, 0, 0), e.reached(seq![], e.s0, 0)
{
    let p = e.p;
    assert forall|i: int| 0 <= i < p.n() implies row_at(p, e.s0.store[i], (#[trigger] rows[i])@, i, 0) by { batch_bounds(p, i, 0); batch_fits(p, e.s0.store[i], i, 0); if !p.prog && p.done[i] { assert(rows[i]@ =~= win(p, e.s0.store[i], i, 0)); } }
    assert(mcus_done(p, e.s0, seq![], 0));
}
pub proof fn table_ready(e: Env, i: int) requires e.ok(), 0 <= i < e.p.n()
    ensures e.p.start == 0 ==> e.p.dc[i] is Some && (e.p.dc[i]->0).wf(), e.p.end > 1 ==> e.p.ac[i] is Some && (e.p.ac[i]->0).wf()
{ assert(e.c.dc_table_indices@[i] <= 3 && e.c.ac_table_indices@[i] <= 3); }
/// where the coefficients of a data unit are
pub proof fn block_memory(e: Env, store: Seq<Seq<i16>>, co: Seq<Vec<i16>>, rows: Seq<Vec<i16>>, y: int, i: int, k: int, lk: int)
    requires e.ok(), 0 <= i < e.p.n(), 0 <= y < e.p.mh, e.mem(store, co, rows, y, 0), ({ let p = e.p; let b = p.batch(i, y); 0 <= lk && lk * 64 + 64 <= p.rb(i) * 64 && 0 <= b * (p.rb(i) * 64) && (b + 1) * (p.rb(i) * 64) == b * (p.rb(i) * 64) + p.rb(i) * 64 && (b + 1) * (p.rb(i) * 64) <= p.size(i) && k * 64 == b * (p.rb(i) * 64) + lk * 64 })
    ensures e.p.prog ==> co[e.p.ix[i]]@ == store[i] && co[e.p.ix[i]].len() == e.p.size(i) && 0 <= e.p.ix[i] < co.len(), !e.p.prog && e.p.done[i] ==> rows[i].len() == e.p.rb(i) * 64 && coefs(rows[i]@, lk) == coefs(store[i], k)
{
    assert(row_at(e.p, store[i], rows[i]@, i, y)); assert(e.p.ix[i] == e.c.component_indices@[i]);
    if !e.p.prog && e.p.done[i] { assert(coefs(rows[i]@, lk) =~= coefs(store[i], k)); }
}
pub open spec fn changed_at<T>(a: Seq<T>, b: Seq<T>, at: int) -> bool { a.len() == b.len() && forall|j: int| 0 <= j < a.len() && j != at ==> #[trigger] b[j] == a[j] }
pub proof fn put_memory(e: Env, store: Seq<Seq<i16>>, co: Seq<Vec<i16>>, co1: Seq<Vec<i16>>, rows: Seq<Vec<i16>>, rows1: Seq<Vec<i16>>, y: int, i: int, b: int, k: int, lk: int, blk: Seq<i16>)
    requires e.ok(), 0 <= i < e.p.n(), 0 <= y < e.p.mh, e.mem(store, co, rows, y, 0), e.p.kept(i), blk.len() == 64, b == e.p.batch(i, y),
        ({ let p = e.p; 0 <= b && 0 <= lk && lk * 64 + 64 <= p.rb(i) * 64 && 0 <= b * (p.rb(i) * 64) && (b + 1) * (p.rb(i) * 64) == b * (p.rb(i) * 64) + p.rb(i) * 64 && (b + 1) * (p.rb(i) * 64) <= p.size(i) && k * 64 == b * (p.rb(i) * 64) + lk * 64 }),
        e.p.prog ==> changed_at(co, co1, e.p.ix[i]) && rows1 == rows && co1[e.p.ix[i]]@ == put(co[e.p.ix[i]]@, k, blk), !e.p.prog ==> co1 == co && changed_at(rows, rows1, i) && rows1[i]@ == put(rows[i]@, lk, blk)
    ensures e.mem(store.update(i, put(store[i], k, blk)), co1, rows1, y, 0)
{
    let p = e.p; let s1 = store.update(i, put(store[i], k, blk));
    put_win(p, store[i], i, b, k, lk, blk);
    if p.prog {
        assert forall|j: int| 0 <= j < p.n() implies co1[#[trigger] p.ix[j]]@ == s1[j] by { assert(p.ix[j] == e.c.component_indices@[j]); if j < i { assert(p.ix[j] != p.ix[i]); } else if j > i { assert(p.ix[i] != p.ix[j]); } }
        assert forall|j: int| 0 <= j < e.c0.len() && !p.ix.contains(j) implies #[trigger] co1[j] == e.c0[j] by { if j == p.ix[i] { assert(p.ix.contains(j)); } }
    }
    assert forall|j: int| 0 <= j < p.n() implies row_at(p, s1[j], (#[trigger] rows1[j])@, j, y) by { assert(row_at(p, store[j], rows[j]@, j, y)); }
}
pub proof fn put_given<W: Worker>(e: Env, w: W, store: Seq<Seq<i16>>, y: int, i: int, k: int, lk: int, blk: Seq<i16>)
    requires e.ok(), 0 <= i < e.p.n(), 0 <= y < e.p.mh, e.given(w, store, y, 0), blk.len() == 64, lens(e.p, store),
        ({ let p = e.p; let b = p.batch(i, y); 0 <= b && 0 <= lk && lk * 64 + 64 <= p.rb(i) * 64 && 0 <= b * (p.rb(i) * 64) && (b + 1) * (p.rb(i) * 64) == b * (p.rb(i) * 64) + p.rb(i) * 64 && (b + 1) * (p.rb(i) * 64) <= p.size(i) && k * 64 == b * (p.rb(i) * 64) + lk * 64 }),
    ensures e.given(w, store.update(i, put(store[i], k, blk)), y, 0)
{
    let s1 = store.update(i, put(store[i], k, blk));
    put_win(e.p, store[i], i, e.p.batch(i, y), k, lk, blk);
    assert forall|j: int| 0 <= j < 4 implies #[trigger] e.given_one(w, s1, y, 0, j) by { assert(e.given_one(w, store, y, 0, j)); }
}
/// row of MCUs y + 1 continues the row in work, or a new one has been begun
pub open spec fn goes_on(p: Plan, i: int, y: int) -> bool { p.n() == 1 && y + 1 < p.mh && (y + 1) % p.v(i) > 0 }
pub proof fn row_sent(e: Env, store: Seq<Seq<i16>>, co: Seq<Vec<i16>>, rows: Seq<Vec<i16>>, rows1: Seq<Vec<i16>>, y: int, i: int)
    requires e.ok(), 0 <= i < e.p.n(), 0 <= y < e.p.mh, e.mem(store, co, rows, y, i), if e.p.done[i] && !e.p.prog && !goes_on(e.p, i, y) { changed_at(rows, rows1, i) && rows1[i]@ == zeros(e.p.rb(i) * 64) } else { rows1 == rows }
    ensures e.mem(store, co, rows1, y, i + 1)
{
    let p = e.p; batch_bounds(p, i, y);
    assert forall|j: int| 0 <= j < p.n() implies row_at(p, store[j], (#[trigger] rows1[j])@, j, if j < i + 1 { y + 1 } else { y }) by {
        assert(row_at(p, store[j], rows[j]@, j, if j < i { y + 1 } else { y }));
        if j == i && !p.prog && p.done[i] && y + 1 < p.mh && !goes_on(p, i, y) { batch_bounds(p, i, y + 1); batch_fits(p, store[i], i, p.batch(i, y + 1)); assert(rows1[i]@ =~= win(p, store[i], i, p.batch(i, y + 1))); }
    }
}
pub proof fn row_given<W: Worker>(e: Env, w: W, w1: W, store: Seq<Seq<i16>>, y: int, i: int)
    requires e.ok(), 0 <= i < e.p.n(), 0 <= y < e.p.mh, e.given(w, store, y, i), if e.p.done[i] && !goes_on(e.p, i, y) {
            w1.ok() && w1.holds(i, e.p.comps[i], e.q(i), sent(e.p, store[i], i, e.p.batch(i, y) + 1)) && (forall|j: int| 0 <= j < 4 && j != i && #[trigger] w.idle(j) ==> w1.idle(j))
            && (forall|j: int, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>| 0 <= j < 4 && j != i && #[trigger] w.holds(j, c, q, rows) ==> w1.holds(j, c, q, rows)) } else { w1 == w }
    ensures e.given(w1, store, y, i + 1)
{
    batch_bounds(e.p, i, y);
    assert forall|j: int| 0 <= j < 4 implies #[trigger] e.given_one(w1, store, y, i + 1, j) by { assert(e.given_one(w, store, y, i, j)); }
}
pub proof fn co_kept(e: Env, store: Seq<Seq<i16>>, co: Seq<Vec<i16>>, rows: Seq<Vec<i16>>, y: int, k: int) requires e.ok(), e.mem(store, co, rows, y, k) ensures e.p.prog ==> co_ok(e.f, co), !e.p.prog ==> co == e.c0
{
    let p = e.p;
    if p.prog { assert forall|j: int| 0 <= j < co.len() implies (#[trigger] co[j]).len() == e.f.components@[j].block_size.width * e.f.components@[j].block_size.height * 64 by {
        if p.ix.contains(j) { let i = choose|i: int| 0 <= i < p.ix.len() && p.ix[i] == j; assert(co[p.ix[i]]@ == store[i]); store_size(p, i); assert(p.comps[i] == e.f.components@[e.c.component_indices@[i] as int]); assert(p.ix[i] == e.c.component_indices@[i]); } else { assert(co[j] == e.c0[j]); }
    } }
}
/// the planes of the first k components of the scan
pub open spec fn some_planes(p: Plan, qs: Seq<Option<Arc<[u16; 64]>>>, store: Seq<Seq<i16>>, ncomp: int, d: Seq<Vec<u8>>, k: int) -> bool {
    (forall|i: int| 0 <= i < k && #[trigger] p.done[i] ==> rows_in(d[p.ix[i]]@, p.comps[i], qs[p.comps[i].quantization_table_index as int]->0@, sent(p, store[i], i, p.fh)))
        && forall|m: int| 0 <= m < ncomp && (forall|i: int| 0 <= i < k && p.ix[i] == m ==> !#[trigger] p.done[i]) ==> (#[trigger] d[m]).len() == 0
}
pub proof fn plane_more(e: Env, store: Seq<Seq<i16>>, d: Seq<Vec<u8>>, d1: Seq<Vec<u8>>, k: int)
    requires e.ok(), 0 <= k < e.p.n(), d.len() == e.f.components@.len(), some_planes(e.p, e.qs, store, d.len() as int, d, k), if e.p.done[k] { changed_at(d, d1, e.p.ix[k]) && rows_in(d1[e.p.ix[k]]@, e.p.comps[k], e.q(k), sent(e.p, store[k], k, e.p.fh)) } else { d1 == d }
    ensures some_planes(e.p, e.qs, store, d.len() as int, d1, k + 1)
{
    let p = e.p;
    assert forall|i: int| 0 <= i < k + 1 && #[trigger] p.done[i] implies rows_in(d1[p.ix[i]]@, p.comps[i], e.qs[p.comps[i].quantization_table_index as int]->0@, sent(p, store[i], i, p.fh)) by { assert(p.ix[i] == e.c.component_indices@[i]); if i < k { assert(p.ix[i] != p.ix[k]); } }
    assert forall|m: int| 0 <= m < d.len() && (forall|i: int| 0 <= i < k + 1 && p.ix[i] == m ==> !#[trigger] p.done[i]) implies (#[trigger] d1[m]).len() == 0 by { assert(d[m].len() == 0); if e.p.done[k] { assert(p.ix[k] != m); } }
}
pub proof fn next_line<W: Worker>(e: Env, w: W, store: Seq<Seq<i16>>, y: int) requires e.given(w, store, y, e.p.n()) ensures e.given(w, store, y + 1, 0)
{ assert forall|j: int| 0 <= j < 4 implies #[trigger] e.given_one(w, store, y + 1, 0, j) by { assert(e.given_one(w, store, y, e.p.n(), j)); } }
/// data unit (v, h) of component i of MCU (y, x): block of the component, and inside the row of MCUs
pub open spec fn blk_at(p: Plan, i: int, y: int, x: int, v: int, h: int) -> int { (y * p.vs(i) + v) * p.bw(i) + (x * p.hs(i) + h) }
pub open spec fn blk_in(p: Plan, i: int, y: int, x: int, v: int, h: int) -> int { line0(p, i, y, v) * p.bw(i) + (x * p.hs(i) + h) }
pub open spec fn unit_no(p: Plan, i: int, v: int, h: int) -> int { p.units(i) + v * p.hs(i) + h }
pub proof fn unit_ready(e: Env, co: Seq<Vec<i16>>, rows: Seq<Vec<i16>>, tr: Seq<Seq<Sn>>, cur: Seq<Sn>, now: Sn, y: int, x: int, v: int, h: int, i: int)
    requires e.ok(), 0 <= i < e.p.n(), 0 <= y < e.p.mh, 0 <= x < e.p.mw, 0 <= v < e.p.vs(i), 0 <= h < e.p.hs(i), e.mem(now.store, co, rows, y, 0), e.within(tr, cur, now, y * e.p.mw + x, unit_no(e.p, i, v, h))
    ensures ({ let p = e.p; let (by, bx, r0, k, lk) = (y * p.vs(i) + v, x * p.hs(i) + h, line0(p, i, y, v), blk_at(p, i, y, x, v, h), blk_in(p, i, y, x, v, h));
        &&& 0 <= by < 8195 && 0 <= bx < p.bw(i) <= 8195 && 0 <= y * p.vs(i) && 0 <= x * p.hs(i) && 1 <= p.v(i) <= 4
        &&& 0 <= by * p.bw(i) && 0 <= k && k * 64 + 64 <= p.size(i) <= 8195 * 8195 * 64
        &&& 0 <= r0 < p.v(i) && r0 == if p.n() > 1 { v } else { y % p.v(i) }
        &&& 0 <= r0 * p.bw(i) && 0 <= lk && lk * 64 + 64 <= p.rb(i) * 64 <= 8195 * 4 * 64
        &&& p.n() <= 4 && e.c.component_indices@.len() == p.n() && e.c.dc_table_indices@.len() == p.n() && e.c.ac_table_indices@.len() == p.n() && p.ix[i] == e.c.component_indices@[i] && e.c.dc_table_indices@[i] <= 3 && e.c.ac_table_indices@[i] <= 3
        &&& p.dc[i] == e.dcs[e.c.dc_table_indices@[i] as int] && p.ac[i] == e.acs[e.c.ac_table_indices@[i] as int] && e.dcs.len() == 4 && e.acs.len() == 4
        &&& p.start == e.c.spectral_selection.start && p.end == e.c.spectral_selection.end && p.high == e.c.successive_approximation_high && p.low == e.c.successive_approximation_low && 0 <= p.start < p.end <= 64 && p.low <= 13 && (p.high != 0 && p.start == 0 ==> p.end == 1)
        &&& (p.start == 0 ==> p.dc[i] is Some && (p.dc[i]->0).wf()) && (p.end > 1 ==> p.ac[i] is Some && (p.ac[i]->0).wf())
        &&& (p.prog ==> co[p.ix[i]]@ == now.store[i] && co[p.ix[i]].len() == p.size(i) && 0 <= p.ix[i] < co.len()) && (!p.prog && p.done[i] ==> rows[i].len() == p.rb(i) * 64 && coefs(rows[i]@, lk) == coefs(now.store[i], k))
        &&& rows.len() == p.n() && p.done.len() == 4 && now.store.len() == p.n() && now.store[i].len() == p.size(i)
        &&& (p.prog ==> co_ok(e.f, co)) && (!p.prog ==> co == e.c0) })
{
    let p = e.p; let b = p.batch(i, y);
    assert(p.comp_fits(i)); place_unit(p, i, y, x, v, h); batch_fits(p, now.store[i], i, b); store_size(p, i);
    assert(p.ix[i] == e.c.component_indices@[i]); assert(p.comps[i] == e.f.components@[e.c.component_indices@[i] as int]); assert(p.dc[i] == e.dcs[e.c.dc_table_indices@[i] as int] && p.ac[i] == e.acs[e.c.ac_table_indices@[i] as int]);
    table_ready(e, i); co_kept(e, now.store, co, rows, y, 0); block_memory(e, now.store, co, rows, y, i, blk_at(p, i, y, x, v, h), blk_in(p, i, y, x, v, h));
}
pub proof fn unit_fails(e: Env, tr: Seq<Seq<Sn>>, cur: Seq<Sn>, now: Sn, y: int, x: int, v: int, h: int, i: int, blk: Seq<i16>)
    requires e.ok(), 0 <= i < e.p.n(), 0 <= y < e.p.mh, 0 <= x < e.p.mw, 0 <= v < e.p.vs(i), 0 <= h < e.p.hs(i), e.within(tr, cur, now, y * e.p.mw + x, unit_no(e.p, i, v, h)), blk.len() == 64, e.p.kept(i) ==> blk == coefs(now.store[i], blk_at(e.p, i, y, x, v, h))
    ensures !seg_ok(now.st.d, now.st.rest) || !(unit_result(e.p, i, now, blk).0 is Done) ==> scan_stuck(e.p, e.s0)
{
    mcu_index(e.p, y, x); stuck_at_unit(e, tr, cur, now, y * e.p.mw + x, i, v, h);
}
/// the block of component i in memory after data unit (v, h) of MCU (y, x), and the coefficients of the scan
pub open spec fn unit_block(e: Env, y: int, x: int, v: int, h: int, i: int, co: Seq<Vec<i16>>, rows: Seq<Vec<i16>>) -> Seq<i16> { if e.p.prog { coefs(co[e.p.ix[i]]@, blk_at(e.p, i, y, x, v, h)) } else { coefs(rows[i]@, blk_in(e.p, i, y, x, v, h)) } }
pub open spec fn unit_store(e: Env, a: Sn, y: int, x: int, v: int, h: int, i: int, co1: Seq<Vec<i16>>, rows1: Seq<Vec<i16>>) -> Seq<Seq<i16>> {
    if e.p.kept(i) { a.store.update(i, put(a.store[i], blk_at(e.p, i, y, x, v, h), unit_block(e, y, x, v, h, i, co1, rows1))) } else { a.store }
}
/// the data unit is decoded into its block in memory and nothing else there changes
pub open spec fn unit_over(e: Env, a: Sn, b: Sn, y: int, x: int, v: int, h: int, i: int, co: Seq<Vec<i16>>, co1: Seq<Vec<i16>>, rows: Seq<Vec<i16>>, rows1: Seq<Vec<i16>>, blk: Seq<i16>, blk1: Seq<i16>) -> bool {
    let p = e.p; let (k, lk) = (blk_at(p, i, y, x, v, h), blk_in(p, i, y, x, v, h));
    &&& blk.len() == 64 && blk1.len() == 64 && unit_ok(p, i, a, blk, b, blk1)
    &&& if p.prog { changed_at(co, co1, p.ix[i]) && rows1 == rows && blk == coefs(co[p.ix[i]]@, k) && co1[p.ix[i]]@ == put(co[p.ix[i]]@, k, blk1) } else if p.done[i] { co1 == co && changed_at(rows, rows1, i) && blk == coefs(rows[i]@, lk) && rows1[i]@ == put(rows[i]@, lk, blk1) } else { co1 == co && rows1 == rows }
}
pub open spec fn unit_run(e: Env, a: Sn, b: Sn, y: int, x: int, v: int, h: int, i: int, co: Seq<Vec<i16>>, co1: Seq<Vec<i16>>, rows: Seq<Vec<i16>>, rows1: Seq<Vec<i16>>) -> bool {
    exists|blk: Seq<i16>, blk1: Seq<i16>| #[trigger] unit_over(e, a, b, y, x, v, h, i, co, co1, rows, rows1, blk, blk1)
}
pub proof fn unit_finished<W: Worker>(e: Env, w: W, tr: Seq<Seq<Sn>>, cur: Seq<Sn>, a: Sn, now: Sn, y: int, x: int, v: int, h: int, i: int, co: Seq<Vec<i16>>, co1: Seq<Vec<i16>>, rows: Seq<Vec<i16>>, rows1: Seq<Vec<i16>>)
    requires e.ok(), 0 <= i < e.p.n(), 0 <= y < e.p.mh, 0 <= x < e.p.mw, 0 <= v < e.p.vs(i), 0 <= h < e.p.hs(i), e.mem(a.store, co, rows, y, 0), e.given(w, a.store, y, 0), e.within(tr, cur, a, y * e.p.mw + x, unit_no(e.p, i, v, h)),
        unit_run(e, a, now, y, x, v, h, i, co, co1, rows, rows1), now.store == unit_store(e, a, y, x, v, h, i, co1, rows1)
    ensures e.mem(now.store, co1, rows1, y, 0), e.given(w, now.store, y, 0), e.within(tr, cur.push(now), now, y * e.p.mw + x, unit_no(e.p, i, v, h) + 1)
{
    let p = e.p; let b = p.batch(i, y); let (k, lk) = (blk_at(p, i, y, x, v, h), blk_in(p, i, y, x, v, h));
    let (blk, blk1) = choose|blk: Seq<i16>, blk1: Seq<i16>| #[trigger] unit_over(e, a, now, y, x, v, h, i, co, co1, rows, rows1, blk, blk1);
    unit_ready(e, co, rows, tr, cur, a, y, x, v, h, i); place_unit(p, i, y, x, v, h); unit_found(p, 0, i, v, h); mcu_index(p, y, x);
    if p.kept(i) {
        if p.prog { put_block(co[p.ix[i]]@, k, blk1); } else { put_block(rows[i]@, lk, blk1); }
        assert(unit_block(e, y, x, v, h, i, co1, rows1) == blk1);
        put_block(a.store[i], k, blk1);
        put_memory(e, a.store, co, co1, rows, rows1, y, i, b, k, lk, blk1); put_given(e, w, a.store, y, i, k, lk, blk1);
        assert(blk == coefs(a.store[i], k)); assert(now.store[i] == put(a.store[i], k, blk1)); assert(now.store =~= a.store.update(i, now.store[i]));
    } else { assert(some_unit(p, i, a, now)); }
    assert(unit_ok(p, i, a, blk, now, blk1));
    unit_pushed(p, y, x, cur, unit_no(p, i, v, h), now);
}
