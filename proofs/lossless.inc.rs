// ---- lossless prediction (T.81 H.1.2.1) --------------------------------------------------------------------------
/// Table H.1
pub open spec fn predicted(p: Predictor, ra: int, rb: int, rc: int) -> int {
    match p {
        Predictor::NoPrediction => 0, Predictor::Ra => ra, Predictor::Rb => rb, Predictor::Rc => rc,
        Predictor::RaRbRc1 => ra + rb - rc, Predictor::RaRbRc2 => ra + (rb - rc) / 2, Predictor::RaRbRc3 => rb + (ra - rc) / 2, Predictor::RaRb => (ra + rb) / 2,
    }
}
/// what is predicted for sample k of a plane of lines of w samples that restarts every r samples
pub open spec fn prediction(x: Seq<u16>, k: int, w: int, r: int, init: int, p: Predictor) -> int {
    let pos = if r > 0 { k % r } else { k };
    if pos == 0 { init } else if pos / w == 0 { x[k - 1] as int } else if k % w == 0 { x[k - w] as int } else { predicted(p, x[k - 1] as int, x[k - w] as int, x[k - w - 1] as int) }
}
pub open spec fn sample_ok(x: Seq<u16>, d: Seq<i32>, k: int, w: int, r: int, init: int, p: Predictor) -> bool { x[k] == (prediction(x, k, w, r, init, p) + d[k]) % 65536 }
/// the samples of a component before the point transform is undone
pub open spec fn rebuilt(x: Seq<u16>, d: Seq<i32>, n: int, w: int, r: int, init: int, p: Predictor) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] sample_ok(x, d, k, w, r, init, p) }
pub proof fn shl_one(n: u8) requires n <= 15 ensures (1i32 << n) == pow2i(n as int), 1 <= pow2i(n as int) <= 32768
{
    pow2i_is(n as int);
    assert(1i32 << n == (if n == 0 { 1i32 } else if n == 1 { 2 } else if n == 2 { 4 } else if n == 3 { 8 } else if n == 4 { 16 } else if n == 5 { 32 } else if n == 6 { 64 } else if n == 7 { 128 }
        else if n == 8 { 256 } else if n == 9 { 512 } else if n == 10 { 1024 } else if n == 11 { 2048 } else if n == 12 { 4096 } else if n == 13 { 8192 } else if n == 14 { 16384 } else { 32768 })) by (bit_vector) requires n <= 15;
}
pub proof fn halves(v: i32) ensures (v >> 1) as int == (v as int) / 2 { assert((v >> 1) as i64 * 2 <= v as i64 && (v as i64) <= (v >> 1) as i64 * 2 + 1) by (bit_vector); }
pub proof fn low16(v: i32) ensures 0 <= (v & 0xFFFF) <= 65535, (v & 0xFFFF) as u16 == (v as int) % 65536
{
    assert(0 <= (v & 0xFFFF) <= 65535) by (bit_vector);
    assert((v as i64 - (v & 0xFFFF) as i64) == ((v >> 16) as i64) * 65536) by (bit_vector);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v as int, 65536, (v >> 16) as int, (v & 0xFFFF) as int);
}
//@fn src/decoder/lossless.rs predict
fn predict(
    ra: i32,
    rb: i32,
    rc: i32,
    predictor: Predictor,
    point_transform: u8,
    input_precision: u8,
    ix: usize,
    iy: usize,
    restart: bool,
) -> /*@ (r: @*/ i32 /*@ )
    requires 0 <= ra <= 65535, 0 <= rb <= 65535, 0 <= rc <= 65535, input_precision <= 16
    ensures r == if (ix == 0 && iy == 0) || restart { if input_precision > point_transform { pow2i(input_precision - point_transform - 1) } else { 0 } }
        else if iy == 0 { ra as int } else if ix == 0 { rb as int } else { predicted(predictor, ra as int, rb as int, rc as int) }, -65535 <= r <= 131070 @*/ {
    /*@ proof { halves((rb - rc) as i32); halves((ra - rc) as i32); if input_precision > point_transform { shl_one((input_precision - point_transform - 1) as u8); } } @*/
    if (ix == 0 && iy == 0) || restart {
        // start of first line or restart
        if input_precision > point_transform {
            1 << (input_precision - point_transform - 1)
        } else {
            0
        }
    } else if iy == 0 {
        // rest of first line
        ra
    } else if ix == 0 {
        // start of other line
        rb
    } else {
        // use predictor Table H.1
        match predictor {
            Predictor::NoPrediction => 0,
            Predictor::Ra => ra,
            Predictor::Rb => rb,
            Predictor::Rc => rc,
            Predictor::RaRbRc1 => ra + rb - rc,
            Predictor::RaRbRc2 => ra + ((rb - rc) >> 1),
            Predictor::RaRbRc3 => rb + ((ra - rc) >> 1),
            Predictor::RaRb => (ra + rb) / 2,
        }
    }
}
//@end
// ---- the differences of a scan (H.1.2.2): one of each component per position -------------------------------------
/// one difference is decoded with table t
pub open spec fn diff_at(t: HuffmanTable, a: St, v: int, b: St) -> bool {
    b.d.wf() && fetched(a.d, a.rest, b.d, b.rest) && (t.dec(a.bits()) matches Some((m, len)) && m <= 16
        && v == (if m == 16 { 32768 } else { extv(val(a.bits(), len, m as int), m as int) }) && shifted(a.bits(), b.bits(), len + if m == 16 { 0 } else { m as int }))
}
pub open spec fn diff_stuck(t: HuffmanTable, a: St) -> bool { !seg_ok(a.d, a.rest) || (t.dec(a.bits()) matches Some((m, len)) ==> m > 16) }
/// the first i differences at position k, along the states cur
pub open spec fn some_diffs(ts: Seq<HuffmanTable>, cur: Seq<St>, ds: Seq<Vec<i32>>, k: int, i: int) -> bool {
    cur.len() == i + 1 && forall|j: int| 0 <= j < i ==> diff_at(ts[j], cur[j], #[trigger] ds[j]@[k] as int, cur[j + 1])
}
pub open spec fn pos_done(ts: Seq<HuffmanTable>, r: int, s: St, tr: Seq<Seq<St>>, ds: Seq<Vec<i32>>, k: int) -> bool {
    some_diffs(ts, tr[k], ds, k, ts.len() as int) && linked(r, k, if k == 0 { s } else { tr[k - 1][ts.len() as int] }, tr[k][0])
}
/// all differences of the first n positions
pub open spec fn diffs_done(ts: Seq<HuffmanTable>, r: int, s: St, tr: Seq<Seq<St>>, ds: Seq<Vec<i32>>, n: int) -> bool {
    tr.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] pos_done(ts, r, s, tr, ds, k)
}
pub open spec fn last_state(ts: Seq<HuffmanTable>, s: St, tr: Seq<Seq<St>>) -> St { if tr.len() == 0 { s } else { tr[tr.len() - 1][ts.len() as int] } }
/// the scan cannot be decoded: no code word, no marker, or the end of the data at some position
pub open spec fn diffs_stuck(ts: Seq<HuffmanTable>, r: int, s: St, n: int) -> bool {
    exists|tr: Seq<Seq<St>>, ds: Seq<Vec<i32>>| #[trigger] stuck_after(ts, r, s, tr, ds, n)
}
pub open spec fn no_diff(ts: Seq<HuffmanTable>, r: int, a: St, cur: Seq<St>, ds: Seq<Vec<i32>>, k: int, i: int) -> bool {
    0 <= i < ts.len() && some_diffs(ts, cur, ds, k, i) && linked(r, k, a, cur[0]) && diff_stuck(ts[i], cur[i])
}
pub open spec fn stuck_after(ts: Seq<HuffmanTable>, r: int, s: St, tr: Seq<Seq<St>>, ds: Seq<Vec<i32>>, n: int) -> bool {
    let k = tr.len() as int; let a = last_state(ts, s, tr);
    k <= n && diffs_done(ts, r, s, tr, ds, k) && (k == n && !seg_ok(a.d, a.rest)
        || k < n && r > 0 && k > 0 && k % r == 0 && restart_stuck((k / r - 1) % 8, a)
        || k < n && exists|cur: Seq<St>, i: int| #[trigger] no_diff(ts, r, a, cur, ds, k, i))
}
/// each sequence is the beginning of its successor
pub open spec fn grown(a: Seq<Vec<i32>>, b: Seq<Vec<i32>>) -> bool {
    a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> (#[trigger] b[j]).len() >= a[j].len() && forall|k: int| 0 <= k < a[j].len() ==> #[trigger] b[j]@[k] == a[j]@[k]
}
pub proof fn diffs_grown(ts: Seq<HuffmanTable>, r: int, s: St, tr: Seq<Seq<St>>, a: Seq<Vec<i32>>, b: Seq<Vec<i32>>, n: int)
    requires diffs_done(ts, r, s, tr, a, n), grown(a, b), ts.len() == a.len(), forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).len() >= n ensures diffs_done(ts, r, s, tr, b, n)
{
    assert forall|k: int| 0 <= k < n implies #[trigger] pos_done(ts, r, s, tr, b, k) by { assert(pos_done(ts, r, s, tr, a, k)); assert forall|j: int| 0 <= j < ts.len() implies diff_at(ts[j], tr[k][j], #[trigger] b[j]@[k] as int, tr[k][j + 1]) by { assert(b[j]@[k] == a[j]@[k]); } }
}
/// one more position
pub proof fn diffs_more(ts: Seq<HuffmanTable>, r: int, s: St, tr: Seq<Seq<St>>, ds: Seq<Vec<i32>>, n: int, cur: Seq<St>)
    requires diffs_done(ts, r, s, tr, ds, n), n >= 0, some_diffs(ts, cur, ds, n, ts.len() as int), linked(r, n, last_state(ts, s, tr), cur[0]) ensures diffs_done(ts, r, s, tr.push(cur), ds, n + 1), last_state(ts, s, tr.push(cur)) == cur[ts.len() as int]
{
    let t2 = tr.push(cur);
    assert forall|k: int| 0 <= k < n + 1 implies #[trigger] pos_done(ts, r, s, t2, ds, k) by { if k < n { assert(pos_done(ts, r, s, tr, ds, k)); assert(t2[k] == tr[k]); if k > 0 { assert(t2[k - 1] == tr[k - 1]); } } else { assert(t2[n] == cur); if n > 0 { assert(t2[n - 1] == tr[n - 1]); } } }
}
/// what the decoder works with
pub open spec fn ll_ok(f: FrameInfo, c: ScanInfo) -> bool {
    let n = c.component_indices@.len();
    &&& 1 <= n <= 4 && c.dc_table_indices@.len() == n && f.image_size.width >= 1 && f.image_size.height >= 1 && c.point_transform < f.precision <= 16
    &&& forall|i: int| 0 <= i < n ==> #[trigger] c.component_indices@[i] < f.components@.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] c.dc_table_indices@[i] <= 3
}
pub open spec fn tables_of(ts: Seq<Option<HuffmanTable>>, ix: Seq<usize>) -> Seq<HuffmanTable> { Seq::new(ix.len(), |i: int| ts[ix[i] as int]->0) }
/// the planes are the samples rebuilt from the differences of the scan, the point transform undone
pub open spec fn planes_of(f: FrameInfo, c: ScanInfo, r: int, ds: Seq<Vec<i32>>, xs: Seq<Seq<u16>>, o: Seq<Vec<u16>>) -> bool {
    let (w, n) = (f.image_size.width as int, f.image_size.height * f.image_size.width);
    o.len() == ds.len() && xs.len() == ds.len() && forall|i: int| 0 <= i < ds.len() ==> #[trigger] xs[i].len() == n && o[i].len() == n
        && (r == 0 || r % w == 0 ==> rebuilt(xs[i], ds[i]@, n, w, r, pow2i(f.precision - c.point_transform - 1), c.predictor_selection))
        && forall|k: int| 0 <= k < n ==> #[trigger] o[i]@[k] == xs[i][k] << c.point_transform
}
pub open spec fn lossless_done(f: FrameInfo, c: ScanInfo, ts: Seq<HuffmanTable>, r: int, s: St, tr: Seq<Seq<St>>, ds: Seq<Vec<i32>>, xs: Seq<Seq<u16>>, o: Seq<Vec<u16>>, sure: bool, m: Option<Marker>, rest: Seq<u8>) -> bool {
    diffs_done(ts, r, s, tr, ds, f.image_size.height * f.image_size.width) && ds.len() == ts.len() && planes_of(f, c, r, ds, xs, o) && scan_end(last_state(ts, s, tr), sure, m, rest)
}
pub open spec fn scan_done(f: FrameInfo, c: ScanInfo, ts: Seq<HuffmanTable>, r: int, s: St, o: Seq<Vec<u16>>, sure: bool, m: Option<Marker>, rest: Seq<u8>) -> bool {
    exists|tr: Seq<Seq<St>>, ds: Seq<Vec<i32>>, xs: Seq<Seq<u16>>| #[trigger] lossless_done(f, c, ts, r, s, tr, ds, xs, o, sure, m, rest)
}
/// vec![vec![0u16; n]; k]
pub fn zero_planes(k: usize, n: usize) -> (r: Vec<Vec<u16>>) ensures r.len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] r@[i]).len() == n
{
    let mut r: Vec<Vec<u16>> = Vec::new();
    for i in 0..k invariant r.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j]).len() == n { let mut v: Vec<u16> = Vec::new(); v.resize(n, 0u16); r.push(v); }
    r
}
/// vec![Vec::with_capacity(c); k]
pub fn empty_lists(c: usize, k: usize) -> (r: Vec<Vec<i32>>) ensures r.len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] r@[i]).len() == 0
{
    let mut r: Vec<Vec<i32>> = Vec::new();
    for i in 0..k invariant r.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j]).len() == 0 { r.push(Vec::new()); }
    r
}
pub proof fn area(w: int, h: int, y: int, x: int) requires 1 <= w <= 65535, 1 <= h <= 65535, 0 <= y < h, 0 <= x <= w ensures 0 <= y * w, y * w + x <= h * w <= 65535 * 65535, (y + 1) * w == y * w + w, y > 0 ==> (y - 1) * w == y * w - w && y * w >= w, x < w ==> (y * w + x) / w == y && (y * w + x) % w == x && y * w + x < h * w, 0 * w == 0
{
    assert(0 <= y * w && y * w + w <= h * w <= 65535 * 65535 && (y + 1) * w == y * w + w) by (nonlinear_arith) requires 1 <= w <= 65535, 1 <= h <= 65535, 0 <= y < h;
    if y > 0 { assert((y - 1) * w == y * w - w && y * w >= w) by (nonlinear_arith) requires y >= 1, w >= 1; }
    if x < w { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * w + x, w, y, x); }
}
pub open spec fn bounded(ds: Seq<Vec<i32>>) -> bool { forall|j: int, k: int| 0 <= j < ds.len() && 0 <= k < ds[j].len() ==> -32768 <= #[trigger] ds[j]@[k] <= 32768 }
pub open spec fn lengths(ds: Seq<Vec<i32>>, n: int) -> bool { forall|j: int| 0 <= j < ds.len() ==> (#[trigger] ds[j]).len() == n }
pub open spec fn widths(o: Seq<Vec<u16>>, n: int) -> bool { forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j]).len() == n }
/// the differences of the first p positions are read
pub open spec fn reached(ts: Seq<HuffmanTable>, r: int, s: St, tr: Seq<Seq<St>>, ds: Seq<Vec<i32>>, d: HuffmanDecoder, rest: Seq<u8>, p: int) -> bool {
    tr.len() == p && diffs_done(ts, r, s, tr, ds, p) && last_state(ts, s, tr) == state_of(d, rest) && d.wf() && ds.len() == ts.len() && lengths(ds, p) && bounded(ds)
}
pub proof fn stuck_restart(ts: Seq<HuffmanTable>, r: int, s: St, tr: Seq<Seq<St>>, ds: Seq<Vec<i32>>, n: int, p: int)
    requires tr.len() == p, 0 <= p < n, diffs_done(ts, r, s, tr, ds, p) ensures r > 0 && p > 0 && p % r == 0 && restart_stuck((p / r - 1) % 8, last_state(ts, s, tr)) ==> diffs_stuck(ts, r, s, n)
{ if r > 0 && p > 0 && p % r == 0 && restart_stuck((p / r - 1) % 8, last_state(ts, s, tr)) { assert(stuck_after(ts, r, s, tr, ds, n)); } }
pub proof fn stuck_diff(ts: Seq<HuffmanTable>, r: int, s: St, tr: Seq<Seq<St>>, ds: Seq<Vec<i32>>, n: int, cur: Seq<St>, i: int)
    requires tr.len() < n, diffs_done(ts, r, s, tr, ds, tr.len() as int), 0 <= i < ts.len(), some_diffs(ts, cur, ds, tr.len() as int, i), linked(r, tr.len() as int, last_state(ts, s, tr), cur[0]) ensures diff_stuck(ts[i], cur[i]) ==> diffs_stuck(ts, r, s, n)
{ if diff_stuck(ts[i], cur[i]) { assert(no_diff(ts, r, last_state(ts, s, tr), cur, ds, tr.len() as int, i)); assert(stuck_after(ts, r, s, tr, ds, n)); } }
pub open spec fn prediction_at(x: Seq<u16>, k: int, w: int, r: int, init: int, p: Predictor) -> int { prediction(x, k, w, r, init, p) }
pub open spec fn moved_up(o: Seq<u16>, x: Seq<u16>, n: int, pt: u8) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] o[k] == x[k] << pt }
/// position p of the image, seen from the restart before it
pub proof fn position_of(p: int, w: int, r: int, x: int, y: int) requires w >= 1, r >= 0, 0 <= x < w, y >= 0, p == y * w + x
    ensures r > 0 ==> 0 <= p % r < r && 0 <= p % r <= p && (p % r) / w >= 0, r > 0 && r % w == 0 ==> (p % r) % w == x && ((p % r) / w == 0 && x == 0 ==> p % r == 0) && ((p % r) / w > 0 ==> p >= w), p / w == y, p % w == x, y == 0 ==> p < w, y > 0 ==> p >= w
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p, w, y, x);
    assert(y > 0 ==> p >= w) by (nonlinear_arith) requires p == y * w + x, w >= 1, x >= 0;
    assert(p >= 0) by (nonlinear_arith) requires p == y * w + x, w >= 1, x >= 0, y >= 0;
    if r > 0 {
        let s = p % r;
        assert(0 <= s < r && s <= p) by (nonlinear_arith) requires r > 0, p >= 0, s == p % r;
        assert(s / w >= 0) by (nonlinear_arith) requires s >= 0, w >= 1;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, w);
        let l = s / w;
        if r % w == 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(r, w); vstd::arithmetic::div_mod::lemma_mod_mod(p, w, r / w); }
        assert(l > 0 ==> s >= w) by (nonlinear_arith) requires s == w * l + s % w, s % w >= 0, w >= 1;
        assert(w * 0 == 0);
    }
}
proof fn sample_kept(x: Seq<u16>, d: Seq<i32>, k: int, w: int, r: int, init: int, p: Predictor, at: int, v: u16)
    requires w >= 1, r == 0 || r > 0 && r % w == 0, 0 <= k < at < x.len(), sample_ok(x, d, k, w, r, init, p) ensures sample_ok(x.update(at, v), d, k, w, r, init, p)
{
    assert(k == (k / w) * w + k % w && 0 <= k % w < w && k / w >= 0) by (nonlinear_arith) requires k >= 0, w >= 1;
    position_of(k, w, r, k % w, k / w);
    assert(k % w == 0 || k >= 1);
}
pub proof fn step_sample(x: Seq<u16>, d: Seq<i32>, k: int, w: int, r: int, init: int, p: Predictor, v: u16)
    requires w >= 1, r == 0 || r > 0 && r % w == 0, 0 <= k < x.len(), rebuilt(x, d, k, w, r, init, p), v == (prediction(x, k, w, r, init, p) + d[k]) % 65536 ensures rebuilt(x.update(k, v), d, k + 1, w, r, init, p)
{
    let y = x.update(k, v);
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] sample_ok(y, d, j, w, r, init, p) by {
        if j < k { assert(sample_ok(x, d, j, w, r, init, p)); sample_kept(x, d, j, w, r, init, p, k, v); } else {
            assert(k == (k / w) * w + k % w && 0 <= k % w < w && k / w >= 0) by (nonlinear_arith) requires k >= 0, w >= 1;
            position_of(k, w, r, k % w, k / w);
        }
    }
}
/// the first samples of the first n lines
pub open spec fn first_column(x: Seq<u16>, d: Seq<i32>, n: int, w: int, init: int, p: Predictor) -> bool { forall|y: int| 0 <= y < n ==> sample_ok(x, d, #[trigger] (y * w), w, 0, init, p) }
pub proof fn step_column(x: Seq<u16>, x1: Seq<u16>, d: Seq<i32>, n: int, w: int, h: int, init: int, p: Predictor)
    requires 1 <= w <= 65535, 1 <= h <= 65535, 1 <= n < h, x.len() == h * w, first_column(x, d, n, w, init, p), x1 == x.update(n * w, x1[n * w]), x1[n * w] == (x[(n - 1) * w] + d[n * w]) % 65536 ensures first_column(x1, d, n + 1, w, init, p)
{
    area(w, h, n, 0);
    assert forall|y: int| 0 <= y < n + 1 implies sample_ok(x1, d, #[trigger] (y * w), w, 0, init, p) by {
        area(w, h, y, 0);
        if y < n { assert(y * w < n * w) by (nonlinear_arith) requires y < n, w >= 1; assert(sample_ok(x, d, y * w, w, 0, init, p)); sample_kept(x, d, y * w, w, 0, init, p, n * w, x1[n * w]); }
    }
}
pub proof fn column_kept(x: Seq<u16>, d: Seq<i32>, h: int, w: int, init: int, p: Predictor, at: int, v: u16)
    requires 1 <= w <= 65535, 1 <= h <= 65535, x.len() == h * w, first_column(x, d, h, w, init, p), 0 <= at < x.len(), at % w != 0, p == Predictor::Ra ensures first_column(x.update(at, v), d, h, w, init, p)
{
    let x1 = x.update(at, v);
    assert forall|y: int| 0 <= y < h implies sample_ok(x1, d, #[trigger] (y * w), w, 0, init, p) by { area(w, h, y, 0); assert(sample_ok(x, d, y * w, w, 0, init, p)); if y > 0 { area(w, h, y - 1, 0); } }
}
pub proof fn first_in_row(x: Seq<u16>, d: Seq<i32>, y: int, w: int, h: int, init: int, p: Predictor)
    requires 1 <= w <= 65535, 1 <= h <= 65535, 0 <= y < h, x.len() == h * w, first_column(x, d, h, w, init, p), rebuilt(x, d, y * w, w, 0, init, p) ensures rebuilt(x, d, y * w + 1, w, 0, init, p)
{ assert(sample_ok(x, d, y * w, w, 0, init, p)); assert forall|k: int| 0 <= k < y * w + 1 implies #[trigger] sample_ok(x, d, k, w, 0, init, p) by { if k == y * w {} } }
impl<R: Read> Decoder<R> {
//@fn src/decoder/lossless.rs Decoder::decode_scan_lossless
//@rw errtext
//@sub `if $$x . iter ( ) . any ( | & $c | $$e ) {` => `if { let mut found = false ; for ix in 0 .. $$x . len ( ) { let $c = $$x [ ix ] ; if $$e { found = true ; } } found } {`
//@sub `vec ! [ vec ! [ 0u16 ; $$n ] ; $$k ]` => `zero_planes ( $$k , $$n )`
//@sub `vec ! [ Vec :: with_capacity ( $$n ) ; $$k ]` => `empty_lists ( $$n , $$k )`
//@sub `scan . component_indices . iter ( ) . map ( | & $i | frame . components [ $i ] . clone ( ) ) . collect ( )` => `pick_components ( frame , & scan . component_indices )`
//@sub `for ( $i , $c ) in $v . iter ( ) . enumerate ( ) {` => `for $i in 0 .. $v . len ( ) {`
//@sub `for $s in $v . iter_mut ( ) . flatten ( ) { * $s <<= $$p ; }` => `for plane in 0 .. $v . len ( ) { for at in 0 .. $v [ plane ] . len ( ) { $v [ plane ] [ at ] = $v [ plane ] [ at ] << $$p ; } }`
//@sub `while let $$p = $m { $%b }` => `loop { match $m { $$p => { } , _ => break } $%b }`
//@sub `let reader = & mut self . reader ;` => ``
//@sub `( reader` => `( & mut self . reader`
pub fn decode_scan_lossless(&mut self, frame: &FrameInfo, scan: &ScanInfo,) -> /*@ (r: @*/ Result < (Option < Marker >, Vec < Vec < u16 >>) > /*@ )
    requires ll_ok(*frame, *scan), old(self).dc_huffman_tables.len() == 4, tabs_wf(old(self).dc_huffman_tables@)
    ensures final(self).only_reader(old(self)), old(self).reader.reliable() ==> final(self).reader.reliable(),
        r matches Ok((m, o)) ==> tables_set(old(self).dc_huffman_tables@, scan.dc_table_indices@) && scan_done(*frame, *scan, tables_of(old(self).dc_huffman_tables@, scan.dc_table_indices@), old(self).restart_interval as int, begin(old(self).reader.rest()), o@, old(self).reader.reliable(), m, final(self).reader.rest()),
        r is Err && old(self).reader.reliable() ==> !tables_set(old(self).dc_huffman_tables@, scan.dc_table_indices@) || diffs_stuck(tables_of(old(self).dc_huffman_tables@, scan.dc_table_indices@), old(self).restart_interval as int, begin(old(self).reader.rest()), frame.image_size.height * frame.image_size.width) @*/ {
    /*@ let ghost (n, w, h, rr) = (scan.component_indices@.len() as int, frame.image_size.width as int, frame.image_size.height as int, self.restart_interval as int); let ghost s0 = begin(self.reader.rest()); let ghost ix = scan.dc_table_indices@; let ghost tabs = self.dc_huffman_tables@; let ghost ts = tables_of(tabs, ix); let ghost sure = self.reader.reliable();
        proof { area(w, h, 0, 0); } let ghost all = h * w; @*/
    let ncomp = scan.component_indices.len();
    let npixel = frame.image_size.height as usize * frame.image_size.width as usize;
    assert!(ncomp <= MAX_COMPONENTS);
    let mut results = zero_planes(ncomp, npixel);
    let components: Vec < Component > = pick_components(frame, &scan.component_indices);
    if {
        let mut found = false;
        for ix in 0..scan.dc_table_indices.len() /*@ invariant scan.dc_table_indices.len() == n, ll_ok(*frame, *scan), self.dc_huffman_tables.len() == 4, found ==> !tables_set(self.dc_huffman_tables@, scan.dc_table_indices@), !found ==> forall|k: int| 0 <= k < ix ==> self.dc_huffman_tables@[#[trigger] scan.dc_table_indices@[k] as int] is Some @*/ {
            let i = scan.dc_table_indices[ix];
            if self.dc_huffman_tables[i].is_none() {
                found = true;
            }
        }
        found
    } {
        return Err(Error::Format(error_text()));
    }
    let mut huffman = HuffmanDecoder::new();
    let mut mcus_left_until_restart = self.restart_interval;
    let mut expected_rst_num = 0;
    let mut ra = [0u16; MAX_COMPONENTS];
    let mut rb = [0u16; MAX_COMPONENTS];
    let mut rc = [0u16; MAX_COMPONENTS];
    let width = frame.image_size.width as usize;
    let height = frame.image_size.height as usize;
    let mut differences = empty_lists(npixel, ncomp);
    /*@ let ghost mut tr: Seq<Seq<St>> = seq![]; let ghost mut q: int = 0; let ghost mut j: int = 0; assert(state_of(huffman, self.reader.rest()) == s0); @*/
    for _mcu_y in /*@ ity: @*/ 0..height /*@ invariant ity.iter.end == h, width == w, height == h, 1 <= w <= 65535, 1 <= h <= 65535, all == h * w, rr == self.restart_interval, n == ncomp, n == components.len(), 1 <= n <= 4, ll_ok(*frame, *scan), scan.dc_table_indices@.len() == n, scan.component_indices@.len() == n, ix == scan.dc_table_indices@, tabs == self.dc_huffman_tables@, tabs.len() == 4, tabs_wf(tabs), tables_set(tabs, ix), ts == tables_of(tabs, ix), self.only_reader(old(self)), old(self).reader.reliable() == sure, sure ==> self.reader.reliable(), s0 == begin(old(self).reader.rest()), old(self).dc_huffman_tables@ == tabs, old(self).restart_interval == rr, frame.image_size.width == w, frame.image_size.height == h,
            reached(ts, rr, s0, tr, differences@, huffman, self.reader.rest(), _mcu_y * w), counted(rr, _mcu_y * w, q, j, mcus_left_until_restart as int, expected_rst_num as int) @*/ {
        /*@ proof { area(w, h, _mcu_y as int, w); } @*/
        for _mcu_x in /*@ itx: @*/ 0..width /*@ invariant itx.iter.end == w, 0 <= _mcu_y < h, width == w, height == h, 1 <= w <= 65535, 1 <= h <= 65535, all == h * w, rr == self.restart_interval, n == ncomp, n == components.len(), 1 <= n <= 4, ll_ok(*frame, *scan), scan.dc_table_indices@.len() == n, scan.component_indices@.len() == n, ix == scan.dc_table_indices@, tabs == self.dc_huffman_tables@, tabs.len() == 4, tabs_wf(tabs), tables_set(tabs, ix), ts == tables_of(tabs, ix), self.only_reader(old(self)), old(self).reader.reliable() == sure, sure ==> self.reader.reliable(), s0 == begin(old(self).reader.rest()), old(self).dc_huffman_tables@ == tabs, old(self).restart_interval == rr, frame.image_size.width == w, frame.image_size.height == h,
            reached(ts, rr, s0, tr, differences@, huffman, self.reader.rest(), _mcu_y * w + _mcu_x), counted(rr, _mcu_y * w + _mcu_x, q, j, mcus_left_until_restart as int, expected_rst_num as int) @*/ {
            /*@ let ghost p = _mcu_y * w + _mcu_x; let ghost a = state_of(huffman, self.reader.rest()); proof { area(w, h, _mcu_y as int, _mcu_x as int); if rr > 0 { unit_index(q, rr, j); stuck_restart(ts, rr, s0, tr, differences@, all, p); } } @*/
            if self.restart_interval > 0 {
                if mcus_left_until_restart == 0 {
                    /*@ assert((p / rr - 1) % 8 == expected_rst_num); @*/
                    match huffman.take_marker(&mut self.reader)? {
                        Some(Marker::RST(n)) => {
                            if n != expected_rst_num {
                                return Err(Error::Format(error_text()));
                            }
                            huffman.reset();
                            expected_rst_num = (expected_rst_num + 1) % 8;
                            mcus_left_until_restart = self.restart_interval;
                            /*@ proof { q = q + 1; j = 0; } @*/
                        }
                        Some(marker) => {
                            return Err(Error::Format(error_text()))
                        }
                        None => {
                            return Err(Error::Format(error_text()))
                        }
                    }
                }
                mcus_left_until_restart -= 1;
                /*@ proof { j = j + 1; } @*/
            }
            /*@ let ghost mut cur = seq![state_of(huffman, self.reader.rest())]; assert(linked(rr, p, a, cur[0])); let ghost d0 = differences@; @*/
            for i in /*@ iti: @*/ 0..components.len() /*@ invariant iti.iter.end == n, all == h * w, rr == self.restart_interval, n == components.len(), 1 <= n <= 4, ll_ok(*frame, *scan), scan.dc_table_indices@.len() == n, scan.component_indices@.len() == n, ix == scan.dc_table_indices@, tabs == self.dc_huffman_tables@, tabs.len() == 4, tabs_wf(tabs), tables_set(tabs, ix), ts == tables_of(tabs, ix), self.only_reader(old(self)), old(self).reader.reliable() == sure, sure ==> self.reader.reliable(), s0 == begin(old(self).reader.rest()), old(self).dc_huffman_tables@ == tabs, old(self).restart_interval == rr, 0 <= p < all, frame.image_size.width == w, frame.image_size.height == h,
                    tr.len() == p, diffs_done(ts, rr, s0, tr, d0, p), a == last_state(ts, s0, tr), linked(rr, p, a, cur[0]), d0.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] d0[k]).len() == p, grown(d0, differences@), forall|k: int| 0 <= k < n ==> (#[trigger] differences@[k]).len() == if k < i { p + 1 } else { p }, bounded(differences@),
                    some_diffs(ts, cur, differences@, p, i as int), cur[i as int] == state_of(huffman, self.reader.rest()), huffman.wf() @*/ {
                /*@ let ghost b = cur[i as int]; let ghost d1 = differences@; proof { assert(ts[i as int] == tabs[ix[i as int] as int]->0); diffs_grown(ts, rr, s0, tr, d0, d1, p); stuck_diff(ts, rr, s0, tr, d1, all, cur, i as int); } @*/
                let dc_table = self.dc_huffman_tables[scan.dc_table_indices[i]].as_ref().unwrap();
                let value = huffman.decode(&mut self.reader, dc_table)?;
                /*@ let ghost c = state_of(huffman, self.reader.rest()); let ghost len = (ts[i as int].dec(b.bits())->0).1; proof { if 1 <= value <= 15 { val_shift(b.bits(), c.bits(), len, 0, value as int); } } @*/
                let diff = match value {
                    0 => 0, 1..=15 => huffman.receive_extend(&mut self.reader, value)? as i32, 16 => 32768, _ => {
                        return Err(Error::Format(error_text()));
                    }
                };
                /*@ let ghost e = state_of(huffman, self.reader.rest()); proof { if 1 <= value <= 15 { shift_trans(b.bits(), c.bits(), e.bits(), len, value as int); fetched_trans(b.d, b.rest, c.d, c.rest, e.d, e.rest); } } assert(diff_at(ts[i as int], b, diff as int, e)); @*/
                differences[i].push(diff);
                /*@ proof { let ghost c0 = cur; cur = cur.push(e); assert forall|k: int| 0 <= k < i + 1 implies diff_at(ts[k], cur[k], #[trigger] differences@[k]@[p] as int, cur[k + 1]) by { if k < i { assert(differences@[k]@[p] == d1[k]@[p]); assert(cur[k] == c0[k] && cur[k + 1] == c0[k + 1]); } } } @*/
            }
            /*@ proof { diffs_grown(ts, rr, s0, tr, d0, differences@, p); diffs_more(ts, rr, s0, tr, differences@, p, cur); tr = tr.push(cur); } @*/
        }
    }
    /*@ assert(0 * w == 0); let ghost ds = differences@; let ghost last = state_of(huffman, self.reader.rest()); proof { area(w, h, h - 1, w); } let ghost pr = scan.predictor_selection; let ghost init = pow2i(frame.precision - scan.point_transform - 1); proof { shl_one((frame.precision - scan.point_transform - 1) as u8); } @*/
    if scan.predictor_selection == Predictor::Ra && self.restart_interval == 0 {
        for i in /*@ iti: @*/ 0..components.len() /*@ invariant iti.iter.end == n, n == components.len(), n == results.len(), ll_ok(*frame, *scan), rr == 0, pr == Predictor::Ra, width == w, height == h, 1 <= w <= 65535, 1 <= h <= 65535, all == h * w, init == pow2i(frame.precision - scan.point_transform - 1), 1 <= init <= 32768, ds == differences@, ds.len() == n, bounded(ds), lengths(ds, all), widths(results@, all),
                forall|k: int| 0 <= k < i ==> rebuilt((#[trigger] results@[k])@, ds[k]@, all, w, rr, init, pr) @*/ {
            /*@ let ghost d = ds[i as int]@; proof { assert(differences@[i as int].len() == all); area(w, h, 0, 0); shl_one((frame.precision - scan.point_transform - 1) as u8); } let ghost res0 = results@; @*/
            let diff = differences[i][0];
            let prediction = 1 << (frame.precision - scan.point_transform - 1) as i32;
            /*@ proof { assert(prediction == init); low16((prediction + diff) as i32); } @*/
            let result = ((prediction + diff) &0xFFFF) as u16;
            results[i][0] = result;
            let mut previous = result;
            for mcu_y in /*@ ity: @*/ 1..height /*@ invariant ity.iter.end == h, n == results.len(), 0 <= i < n, 1 <= mcu_y, rr == 0, pr == Predictor::Ra, width == w, height == h, 1 <= w <= 65535, 1 <= h <= 65535, all == h * w, ds == differences@, ds.len() == n, d == ds[i as int]@, bounded(ds), lengths(ds, all), widths(results@, all), res0.len() == n,
                    forall|k: int| 0 <= k < n && k != i ==> #[trigger] results@[k] == res0[k], previous == results@[i as int]@[(mcu_y - 1) * w], first_column(results@[i as int]@, d, if mcu_y <= h { mcu_y as int } else { h }, w, init, pr) @*/ {
                /*@ proof { area(w, h, mcu_y as int, 0); assert(differences@[i as int].len() == all); } let ghost x0 = results@[i as int]@; @*/
                let diff = differences[i][mcu_y * width];
                let prediction = previous as i32;
                /*@ proof { low16((prediction + diff) as i32); } @*/
                let result = ((prediction + diff) &0xFFFF) as u16;
                results[i][mcu_y * width] = result;
                previous = result;
                /*@ proof { assert(results@[i as int]@ == x0.update(mcu_y * w, result)); step_column(x0, results@[i as int]@, d, mcu_y as int, w, h, init, pr); } @*/
            }
            for mcu_y in /*@ ity: @*/ 0..height /*@ invariant ity.iter.end == h, n == results.len(), 0 <= i < n, rr == 0, pr == Predictor::Ra, width == w, height == h, 1 <= w <= 65535, 1 <= h <= 65535, all == h * w, ds == differences@, ds.len() == n, d == ds[i as int]@, bounded(ds), lengths(ds, all), widths(results@, all), res0.len() == n,
                    forall|k: int| 0 <= k < n && k != i ==> #[trigger] results@[k] == res0[k], first_column(results@[i as int]@, d, h, w, init, pr), rebuilt(results@[i as int]@, d, mcu_y * w, w, rr, init, pr) @*/ {
                /*@ proof { area(w, h, mcu_y as int, 0); area(w, h, mcu_y as int, w); first_in_row(results@[i as int]@, d, mcu_y as int, w, h, init, pr); } @*/
                for mcu_x in /*@ itx: @*/ 1..width /*@ invariant itx.iter.end == w, 1 <= mcu_x, n == results.len(), 0 <= i < n, 0 <= mcu_y < h, rr == 0, pr == Predictor::Ra, width == w, height == h, 1 <= w <= 65535, 1 <= h <= 65535, all == h * w, ds == differences@, ds.len() == n, d == ds[i as int]@, bounded(ds), lengths(ds, all), widths(results@, all), res0.len() == n,
                        forall|k: int| 0 <= k < n && k != i ==> #[trigger] results@[k] == res0[k], first_column(results@[i as int]@, d, h, w, init, pr), rebuilt(results@[i as int]@, d, mcu_y * w + if mcu_x <= w { mcu_x as int } else { w }, w, rr, init, pr) @*/ {
                    /*@ let ghost p = mcu_y * w + mcu_x; proof { area(w, h, mcu_y as int, mcu_x as int); assert(differences@[i as int].len() == all); assert(results@[i as int].len() == all); } let ghost x0 = results@[i as int]@; @*/
                    let diff = differences[i][mcu_y * width + mcu_x];
                    let prediction = results[i][mcu_y * width + mcu_x - 1] as i32;
                    /*@ proof { low16((prediction + diff) as i32); } @*/
                    let result = ((prediction + diff) &0xFFFF) as u16;
                    results[i][mcu_y * width + mcu_x] = result;
                    /*@ proof { assert(results@[i as int]@ == x0.update(p, result)); step_sample(x0, d, p, w, rr, init, pr, result); column_kept(x0, d, h, w, init, pr, p, result); } @*/
                }
            }
        }
    } else {
        for mcu_y in /*@ ity: @*/ 0..height /*@ invariant ity.iter.end == h, rr == self.restart_interval, n == components.len(), 1 <= n <= 4, n == results.len(), ll_ok(*frame, *scan), pr == scan.predictor_selection, width == w, height == h, frame.image_size.width == w, frame.image_size.height == h, 1 <= w <= 65535, 1 <= h <= 65535, all == h * w, init == pow2i(frame.precision - scan.point_transform - 1), ds == differences@, ds.len() == n, bounded(ds), lengths(ds, all), widths(results@, all),
                rr == 0 || rr % w == 0 ==> forall|k: int| 0 <= k < n ==> rebuilt((#[trigger] results@[k])@, ds[k]@, mcu_y * w, w, rr, init, pr) @*/ {
            /*@ proof { area(w, h, mcu_y as int, w); } @*/
            for mcu_x in /*@ itx: @*/ 0..width /*@ invariant itx.iter.end == w, 0 <= mcu_y < h, rr == self.restart_interval, n == components.len(), 1 <= n <= 4, n == results.len(), ll_ok(*frame, *scan), pr == scan.predictor_selection, width == w, height == h, frame.image_size.width == w, frame.image_size.height == h, 1 <= w <= 65535, 1 <= h <= 65535, all == h * w, init == pow2i(frame.precision - scan.point_transform - 1), ds == differences@, ds.len() == n, bounded(ds), lengths(ds, all), widths(results@, all),
                    rr == 0 || rr % w == 0 ==> forall|k: int| 0 <= k < n ==> rebuilt((#[trigger] results@[k])@, ds[k]@, mcu_y * w + mcu_x, w, rr, init, pr) @*/ {
                /*@ let ghost p = mcu_y * w + mcu_x; proof { area(w, h, mcu_y as int, mcu_x as int); } @*/
                let(line, restart) = if self.restart_interval > 0 {
                    let position = (mcu_y * width + mcu_x) % usize::from(self.restart_interval);
                    (position / width, position == 0)
                } else {
                    (mcu_y, false)
                };
                /*@ proof { position_of(p, w, rr, mcu_x as int, mcu_y as int); } @*/
                for i in /*@ iti: @*/ 0..components.len() /*@ invariant iti.iter.end == n, 0 <= mcu_x < w, 0 <= mcu_y < h, p == mcu_y * w + mcu_x, rr == self.restart_interval, n == components.len(), 1 <= n <= 4, n == results.len(), ll_ok(*frame, *scan), pr == scan.predictor_selection, width == w, height == h, frame.image_size.width == w, frame.image_size.height == h, 1 <= w <= 65535, 1 <= h <= 65535, all == h * w, init == pow2i(frame.precision - scan.point_transform - 1), ds == differences@, ds.len() == n, bounded(ds), lengths(ds, all), widths(results@, all),
                        restart == (rr > 0 && p % rr == 0), rr == 0 ==> line == mcu_y, rr > 0 ==> line == (p % rr) / w,
                        rr == 0 || rr % w == 0 ==> forall|k: int| 0 <= k < n ==> rebuilt((#[trigger] results@[k])@, ds[k]@, if k < i { p + 1 } else { p }, w, rr, init, pr) @*/ {
                    /*@ proof { area(w, h, mcu_y as int, mcu_x as int); position_of(p, w, rr, mcu_x as int, mcu_y as int); assert(differences@[i as int].len() == all); assert(results@[i as int].len() == all); } let ghost res0 = results@; let ghost x0 = results@[i as int]@; @*/
                    let diff = differences[i][mcu_y * width + mcu_x];
                    if mcu_x > 0 {
                        ra[i] = results[i][mcu_y * frame.image_size.width as usize + mcu_x - 1];
                    }
                    if mcu_y > 0 {
                        rb[i] = results[i][(mcu_y - 1) * frame.image_size.width as usize + mcu_x];
                        if mcu_x > 0 {
                            rc[i] = results[i][(mcu_y - 1) * frame.image_size.width as usize + (mcu_x - 1)];
                        }
                    }
                    let prediction = predict(ra[i] as i32, rb[i] as i32, rc[i] as i32, scan.predictor_selection, scan.point_transform, frame.precision, mcu_x, line, restart,);
                    /*@ proof { low16((prediction + diff) as i32); } @*/
                    let result = ((prediction + diff) &0xFFFF) as u16;
                    results[i][mcu_y * width + mcu_x] = result;
                    /*@ proof { assert(results@[i as int]@ == x0.update(p, result)); if rr == 0 || rr % w == 0 { assert(rebuilt(res0[i as int]@, ds[i as int]@, p, w, rr, init, pr)); assert(prediction == prediction_at(x0, p, w, rr, init, pr)); step_sample(x0, ds[i as int]@, p, w, rr, init, pr, result);
                        assert forall|k: int| 0 <= k < n implies rebuilt((#[trigger] results@[k])@, ds[k]@, if k < i + 1 { p + 1 } else { p }, w, rr, init, pr) by { if k != i { assert(results@[k] == res0[k]); } } } } @*/
                }
            }
        }
    }
    /*@ let ghost xs = Seq::new(n as nat, |k: int| results@[k]@); @*/
    if scan.point_transform > 0 {
        for plane in /*@ itp: @*/ 0..results.len() /*@ invariant itp.iter.end == n, n == results.len(), xs.len() == n, widths(results@, all), scan.point_transform <= 15, forall|k: int| plane <= k < n ==> (#[trigger] results@[k])@ == xs[k], forall|k: int| 0 <= k < plane ==> moved_up((#[trigger] results@[k])@, xs[k], all, scan.point_transform) @*/ {
            /*@ let ghost res0 = results@; assert(results@[plane as int].len() == all); @*/
            for at in /*@ ita: @*/ 0..results[plane].len() /*@ invariant ita.iter.end == all, n == results.len(), 0 <= plane < n, widths(results@, all), res0.len() == n, scan.point_transform <= 15, forall|k: int| 0 <= k < n && k != plane ==> #[trigger] results@[k] == res0[k], res0[plane as int]@ == xs[plane as int], moved_up(results@[plane as int]@, xs[plane as int], at as int, scan.point_transform), forall|k: int| at <= k < all ==> #[trigger] results@[plane as int]@[k] == xs[plane as int][k] @*/ {
                results[plane][at] = results[plane][at] << scan.point_transform;
            }
        }
    }
    /*@ else { proof { assert forall|k: int, x: int| 0 <= k < n && 0 <= x < all implies #[trigger] results@[k]@[x] == xs[k][x] << scan.point_transform by { let v = xs[k][x]; assert(v << 0u8 == v) by (bit_vector); } } } @*/
    /*@ proof { if sure && !seg_ok(last.d, last.rest) { assert(stuck_after(ts, rr, s0, tr, ds, all)); } } @*/
    let mut marker = huffman.take_marker(&mut self.reader)?;
    /*@ let ghost (m1, s1) = (marker, self.reader.rest()); assert(taken(last, m1, s1)); @*/
    loop /*@ invariant_except_break true invariant self.only_reader(old(self)), sure == old(self).reader.reliable(), sure ==> self.reader.reliable(), marker == m1 && self.reader.rest() == s1 || m1 is Some && m1->0 is RST, marker is Some ==> past_rst(marker, self.reader.rest()) == past_rst(m1, s1), marker is None && m1 is Some && sure ==> past_rst(m1, s1) is None
        ensures !(marker is Some && marker->0 is RST) decreases if marker is Some { self.reader.rest().len() + 1 } else { 0 } @*/ {
        match marker {
            Some(Marker::RST(_)) => {
            }, _ => break
        }
        /*@ let ghost r0 = self.reader.rest(); @*/
        marker = self.read_marker().ok();
        /*@ proof { if marker is None && sure { assert(next_marker(r0) is None); } } @*/
    }
    /*@ proof { assert(scan_end(last, sure, marker, self.reader.rest())); assert(lossless_done(*frame, *scan, ts, rr, s0, tr, ds, xs, results@, sure, marker, self.reader.rest())); assert(tables_set(old(self).dc_huffman_tables@, scan.dc_table_indices@)); assert(rr == old(self).restart_interval); assert(ts == tables_of(old(self).dc_huffman_tables@, scan.dc_table_indices@)); assert(s0 == begin(old(self).reader.rest())); assert(sure == old(self).reader.reliable()); assert(scan_done(*frame, *scan, tables_of(old(self).dc_huffman_tables@, scan.dc_table_indices@), old(self).restart_interval as int, begin(old(self).reader.rest()), results@, old(self).reader.reliable(), marker, self.reader.rest())); } @*/
    Ok((marker, results))
}
//@end
}
