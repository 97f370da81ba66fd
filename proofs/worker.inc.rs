// ---- one row of MCUs of one component -> samples -------------------------------------------------------------
//@include cut.inc.rs
/// b is the inverse transform of the block, see unit idct4
pub uninterp spec fn is_idct(scale: int, c: Seq<i16>, q: Seq<u16>, b: Seq<u8>) -> bool;
/// contract proved in unit idct4
#[verifier::external_body]
pub fn dequantize_and_idct_block(scale: usize, coefficients: &[i16; 64], quantization_table: &[u16; 64], output_linestride: usize, output: &mut [u8])
    requires scale == 1 || scale == 2 || scale == 4 || scale == 8, output_linestride >= scale, old(output).len() >= (scale - 1) * output_linestride + scale,
    ensures outside(old(output)@, final(output)@, output_linestride as int, scale as int), is_idct(scale as int, coefficients@, quantization_table@, cut(final(output)@, 0, output_linestride as int, scale as int)),
{ unimplemented!() }
/// data[a..b].try_into().unwrap()
pub fn block64(data: &[i16], a: usize, b: usize) -> (r: [i16; 64]) requires a + 64 == b, b <= data.len() ensures r@ == data@.subrange(a as int, b as int) {
    let mut r = [0i16; 64];
    for k in 0..64usize invariant a + 64 == b, b <= data.len(), forall|i: int| 0 <= i < k ==> #[trigger] r@[i] == data@[a + i] { r[k] = data[a + k]; }
    assert(r@ =~= data@.subrange(a as int, b as int));
    r
}
pub open spec fn scale_ok(s: int) -> bool { s == 1 || s == 2 || s == 4 || s == 8 }
pub open spec fn coefs(data: Seq<i16>, i: int) -> Seq<i16> { data.subrange(64 * i, 64 * i + 64) }
/// where block i of an MCU row starts
pub open spec fn spot(bw: int, s: int, i: int) -> int { (i / bw) * s * (bw * s) + (i % bw) * s }
/// the first n blocks of the MCU row that starts at off are in place
pub open spec fn blocks_ok(o: Seq<u8>, off: int, bw: int, s: int, data: Seq<i16>, q: Seq<u16>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> is_idct(s, #[trigger] coefs(data, i), q, cut(o, off + spot(bw, s, i), bw * s, s))
}
/// nothing but the bytes from..to
pub open spec fn only(o0: Seq<u8>, o: Seq<u8>, from: int, to: int) -> bool { o.len() == o0.len() && forall|j: int| 0 <= j < o.len() && !(from <= j < to) ==> #[trigger] o[j] == o0[j] }
pub open spec fn row_of(j: int, st: int) -> int { j / st }
/// the area of block n, relative to the MCU row
pub open spec fn in_area(j: int, bw: int, s: int, n: int) -> bool { 0 <= j && (n / bw) * s <= j / (bw * s) < (n / bw) * s + s && (n % bw) * s <= j % (bw * s) < (n % bw) * s + s }
pub open spec fn only_block(o0: Seq<u8>, o: Seq<u8>, off: int, bw: int, s: int, n: int) -> bool { o.len() == o0.len() && forall|j: int| 0 <= j < o.len() && !in_area(j - off, bw, s, n) ==> #[trigger] o[j] == o0[j] }
/// block n of v rows of bw blocks
pub proof fn place(bw: int, v: int, s: int, n: int)
    requires bw >= 1, v >= 1, s >= 1, 0 <= n < bw * v
    ensures 0 <= n / bw < v, 0 <= n % bw < bw, 0 <= (n % bw) * s, (n % bw) * s + s <= bw * s, 0 <= (n / bw) * s, (n / bw) * s + s <= v * s, bw * s >= s,
        0 <= spot(bw, s, n), 0 <= (n / bw) * s * (bw * s), spot(bw, s, n) + (s - 1) * (bw * s) + s <= bw * v * s * s, n == (n / bw) * bw + n % bw
{
    assert(0 <= n / bw < v && 0 <= n % bw < bw && n == (n / bw) * bw + n % bw) by (nonlinear_arith) requires bw >= 1, 0 <= n < bw * v;
    let (y, x) = (n / bw, n % bw);
    assert(0 <= x * s && x * s + s <= bw * s && bw * s >= s) by (nonlinear_arith) requires 0 <= x < bw, s >= 1;
    assert(0 <= y * s && y * s + s <= v * s) by (nonlinear_arith) requires 0 <= y < v, s >= 1;
    let (ys, st) = (y * s, bw * s);
    assert(ys * st >= 0 && ys * st + (s - 1) * st + st <= (v * s) * st) by (nonlinear_arith) requires ys + s <= v * s, ys >= 0, st >= 0;
    assert((v * s) * (bw * s) == bw * v * s * s) by (nonlinear_arith);
}
/// byte m of line k of block n
pub proof fn area_byte(bw: int, v: int, s: int, n: int, k: int, m: int)
    requires bw >= 1, v >= 1, s >= 1, 0 <= n < bw * v, 0 <= k < s, 0 <= m < s
    ensures in_area(spot(bw, s, n) + k * (bw * s) + m, bw, s, n), (spot(bw, s, n) + k * (bw * s) + m) / (bw * s) == (n / bw) * s + k, (spot(bw, s, n) + k * (bw * s) + m) % (bw * s) == (n % bw) * s + m,
        0 <= spot(bw, s, n) + k * (bw * s) + m < bw * v * s * s
{
    place(bw, v, s, n);
    let (ys, xs, st) = ((n / bw) * s, (n % bw) * s, bw * s);
    let j = spot(bw, s, n) + k * st + m;
    assert(j == (ys + k) * st + (xs + m)) by (nonlinear_arith) requires j == ys * st + xs + k * st + m;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(j, st, ys + k, xs + m);
    assert(k * st + m <= (s - 1) * st + s - 1 && k * st >= 0) by (nonlinear_arith) requires 0 <= k < s, 0 <= m < s, st >= s, s >= 1;
}
pub proof fn areas_apart(bw: int, s: int, i: int, n: int, j: int) requires bw >= 1, s >= 1, 0 <= i, 0 <= n, i != n, in_area(j, bw, s, i) ensures !in_area(j, bw, s, n)
{
    if in_area(j, bw, s, n) {
        let (r, c) = (j / (bw * s), j % (bw * s));
        let (a, b, x, y) = (i / bw, n / bw, i % bw, n % bw);
        assert(a == b) by (nonlinear_arith) requires a * s <= r < a * s + s, b * s <= r < b * s + s, s >= 1;
        assert(x == y) by (nonlinear_arith) requires x * s <= c < x * s + s, y * s <= c < y * s + s, s >= 1;
        assert(i == a * bw + x) by (nonlinear_arith) requires bw >= 1, a == i / bw, x == i % bw; assert(n == b * bw + y) by (nonlinear_arith) requires bw >= 1, b == n / bw, y == n % bw;
    }
}
/// an area as the transform sees it (from its first byte on) and as it lies in the MCU row
pub proof fn area_shift(bw: int, v: int, s: int, n: int, j: int) requires bw >= 1, v >= 1, s >= 1, 0 <= n < bw * v, j >= 0
    ensures (j / (bw * s) < s && j % (bw * s) < s) ==> in_area(spot(bw, s, n) + j, bw, s, n)
{
    let st = bw * s;
    place(bw, v, s, n);
    if j / st < s && j % st < s {
        assert(j / st >= 0 && j % st >= 0 && j == (j / st) * st + j % st) by (nonlinear_arith) requires j >= 0, st >= 1;
        area_byte(bw, v, s, n, j / st, j % st);
    }
}
pub proof fn coefs_at(data: Seq<i16>, i: int) ensures coefs(data, i) == data.subrange(64 * i, 64 * i + 64) {}
/// one more block in place
pub proof fn step_block(o0: Seq<u8>, o1: Seq<u8>, off: int, bw: int, v: int, s: int, data: Seq<i16>, q: Seq<u16>, n: int)
    requires bw >= 1, v >= 1, s >= 1, 0 <= n < bw * v, 0 <= off, off + bw * v * s * s <= o0.len(), blocks_ok(o0, off, bw, s, data, q, n), only_block(o0, o1, off, bw, s, n),
        is_idct(s, coefs(data, n), q, cut(o1, off + spot(bw, s, n), bw * s, s)),
    ensures blocks_ok(o1, off, bw, s, data, q, n + 1)
{
    assert forall|i: int| 0 <= i < n + 1 implies is_idct(s, #[trigger] coefs(data, i), q, cut(o1, off + spot(bw, s, i), bw * s, s)) by {
        if i < n {
            assert(is_idct(s, coefs(data, i), q, cut(o0, off + spot(bw, s, i), bw * s, s)));
            same_cut(o0, o1, off, bw, v, s, i, n);
        }
    }
}
pub proof fn same_cut(o0: Seq<u8>, o1: Seq<u8>, off: int, bw: int, v: int, s: int, i: int, n: int)
    requires bw >= 1, v >= 1, s >= 1, 0 <= i < bw * v, 0 <= n < bw * v, i != n, 0 <= off, off + bw * v * s * s <= o0.len(), only_block(o0, o1, off, bw, s, n)
    ensures cut(o0, off + spot(bw, s, i), bw * s, s) == cut(o1, off + spot(bw, s, i), bw * s, s)
{
    let (a, b) = (cut(o0, off + spot(bw, s, i), bw * s, s), cut(o1, off + spot(bw, s, i), bw * s, s));
    assert forall|k: int| 0 <= k < s * s implies #[trigger] a[k] == b[k] by {
        assert(0 <= k / s < s && 0 <= k % s < s) by (nonlinear_arith) requires 0 <= k < s * s, s >= 1;
        area_byte(bw, v, s, i, k / s, k % s);
        let j = spot(bw, s, i) + (k / s) * (bw * s) + k % s;
        areas_apart(bw, s, i, n, j);
        assert(o1[off + j] == o0[off + j]);
    }
    assert(a =~= b);
}
pub proof fn cut_shift(o: Seq<u8>, t: Seq<u8>, base: int, st: int, s: int) requires 0 <= base, base + t.len() == o.len(), t == o.subrange(base, o.len() as int), s >= 1, st >= s, (s - 1) * st + s <= t.len() ensures cut(t, 0, st, s) == cut(o, base, st, s)
{
    assert forall|k: int| 0 <= k < s * s implies #[trigger] cut(t, 0, st, s)[k] == cut(o, base, st, s)[k] by {
        assert(0 <= k / s < s && 0 <= k % s < s) by (nonlinear_arith) requires 0 <= k < s * s, s >= 1;
        let (y, x) = (k / s, k % s);
        assert(0 <= y * st && y * st + x < (s - 1) * st + s) by (nonlinear_arith) requires 0 <= y < s, 0 <= x < s, st >= s;
    }
    assert(cut(t, 0, st, s) =~= cut(o, base, st, s));
}
/// the transform, applied at its place, changes block n only
pub proof fn at_its_place(o0: Seq<u8>, o1: Seq<u8>, t0: Seq<u8>, t1: Seq<u8>, off: int, bw: int, v: int, s: int, n: int)
    requires bw >= 1, v >= 1, s >= 1, 0 <= n < bw * v, 0 <= off, off + bw * v * s * s <= o0.len(), o1.len() == o0.len(), outside(t0, t1, bw * s, s), 
        t0 == o0.subrange(off + spot(bw, s, n), o0.len() as int), t1 == o1.subrange(off + spot(bw, s, n), o0.len() as int), forall|j: int| 0 <= j < off + spot(bw, s, n) ==> #[trigger] o1[j] == o0[j],
    ensures only_block(o0, o1, off, bw, s, n), cut(t1, 0, bw * s, s) == cut(o1, off + spot(bw, s, n), bw * s, s)
{
    place(bw, v, s, n);
    let base = off + spot(bw, s, n);
    cut_shift(o1, t1, base, bw * s, s);
    assert forall|j: int| 0 <= j < o1.len() && !in_area(j - off, bw, s, n) implies #[trigger] o1[j] == o0[j] by {
        if j >= base { area_shift(bw, v, s, n, j - base); assert(t1[j - base] == t0[j - base]); }
    }
}
pub proof fn row_only(o0: Seq<u8>, o1: Seq<u8>, o2: Seq<u8>, off: int, bw: int, v: int, s: int, n: int)
    requires bw >= 1, v >= 1, s >= 1, 0 <= n < bw * v, only(o0, o1, off, off + bw * v * s * s), only_block(o1, o2, off, bw, s, n) ensures only(o0, o2, off, off + bw * v * s * s)
{
    assert forall|j: int| 0 <= j < o2.len() && !(off <= j < off + bw * v * s * s) implies #[trigger] o2[j] == o0[j] by {
        if in_area(j - off, bw, s, n) {
            let st = bw * s; place(bw, v, s, n);
            let i = j - off; let r = i / st; let c = i % st;
            assert(i == r * st + c && r <= v * s - 1 && c < st) by (nonlinear_arith) requires r == i / st, c == i % st, st >= 1, i >= 0, r < (n / bw) * s + s, (n / bw) * s + s <= v * s;
            assert(r * st + c < (v * s) * st) by (nonlinear_arith) requires r <= v * s - 1, c < st, st >= 1;
            assert((v * s) * (bw * s) == bw * v * s * s) by (nonlinear_arith);
        }
        assert(o2[j] == o1[j]);
    }
}
/// core::mem::take
#[verifier::external_body]
pub fn take_vec(v: &mut Vec<u8>) -> (r: Vec<u8>) ensures r == *old(v), final(v)@.len() == 0 { core::mem::take(v) }
// ---- whole planes --------------------------------------------------------------------------------------------
pub open spec fn comp_ok(c: Component) -> bool { scale_ok(c.dct_scale as int) && c.block_size.width >= 1 && c.vertical_sampling_factor >= 1 }
/// samples of one row of MCUs
pub open spec fn used(c: Component) -> int { c.block_size.width * c.vertical_sampling_factor * c.dct_scale * c.dct_scale }
pub open spec fn plane_len(c: Component) -> int { c.block_size.width * c.block_size.height * c.dct_scale * c.dct_scale }
pub open spec fn row_blocks(c: Component) -> int { c.block_size.width * c.vertical_sampling_factor }
/// row r of MCUs is in its place
pub open spec fn row_in(o: Seq<u8>, c: Component, q: Seq<u16>, row: Seq<i16>, r: int) -> bool { blocks_ok(o, r * used(c), c.block_size.width as int, c.dct_scale as int, row, q, row_blocks(c)) }
/// the plane after the given rows of MCUs
pub open spec fn rows_in(o: Seq<u8>, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>) -> bool {
    o.len() == plane_len(c) && forall|r: int| 0 <= r < rows.len() ==> row_in(o, c, q, #[trigger] rows[r], r)
}
pub open spec fn row_ok(c: Component, row: Seq<i16>) -> bool { row.len() == row_blocks(c) * 64 }
pub proof fn used_pos(c: Component) requires comp_ok(c) ensures used(c) >= 1, row_blocks(c) >= 1
{ let (a, b, s) = (c.block_size.width as int, c.vertical_sampling_factor as int, c.dct_scale as int); assert(a * b >= 1) by (nonlinear_arith) requires a >= 1, b >= 1; assert(a * b * s >= 1) by (nonlinear_arith) requires a * b >= 1, s >= 1; assert(a * b * s * s >= 1) by (nonlinear_arith) requires a * b * s >= 1, s >= 1; }
/// a row that was in place stays in place when a later part of the plane changes
pub proof fn row_stays(o0: Seq<u8>, o1: Seq<u8>, c: Component, q: Seq<u16>, row: Seq<i16>, r: int, from: int, to: int)
    requires comp_ok(c), r >= 0, row_in(o0, c, q, row, r), only(o0, o1, from, to), (r + 1) * used(c) <= from, from <= o0.len()
    ensures row_in(o1, c, q, row, r)
{

    let (bw, v, s, off) = (c.block_size.width as int, c.vertical_sampling_factor as int, c.dct_scale as int, r * used(c));
    used_pos(c);
    assert(off >= 0 && off + used(c) == (r + 1) * used(c)) by (nonlinear_arith) requires off == r * used(c), r >= 0, used(c) >= 1;
    assert forall|i: int| 0 <= i < row_blocks(c) implies is_idct(s, #[trigger] coefs(row, i), q, cut(o1, off + spot(bw, s, i), bw * s, s)) by {
        assert(is_idct(s, coefs(row, i), q, cut(o0, off + spot(bw, s, i), bw * s, s)));
        let (a, b) = (cut(o0, off + spot(bw, s, i), bw * s, s), cut(o1, off + spot(bw, s, i), bw * s, s));
        assert forall|k: int| 0 <= k < s * s implies #[trigger] a[k] == b[k] by {
            assert(0 <= k / s < s && 0 <= k % s < s) by (nonlinear_arith) requires 0 <= k < s * s, s >= 1;
            area_byte(bw, v, s, i, k / s, k % s);
            assert(o1[off + spot(bw, s, i) + (k / s) * (bw * s) + k % s] == o0[off + spot(bw, s, i) + (k / s) * (bw * s) + k % s]);
        }
        assert(a =~= b);
    }
}
/// the rows in place and one more
pub proof fn rows_push(o0: Seq<u8>, o1: Seq<u8>, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>, row: Seq<i16>)
    requires comp_ok(c), rows_in(o0, c, q, rows), only(o0, o1, rows.len() * used(c), (rows.len() + 1) * used(c)), row_in(o1, c, q, row, rows.len() as int), (rows.len() + 1) * used(c) <= plane_len(c)
    ensures rows_in(o1, c, q, rows.push(row))
{
    used_pos(c);
    assert forall|r: int| 0 <= r < rows.push(row).len() implies row_in(o1, c, q, #[trigger] rows.push(row)[r], r) by {
        if r < rows.len() {
            assert(rows.push(row)[r] == rows[r]);
            assert((r + 1) * used(c) <= rows.len() * used(c)) by (nonlinear_arith) requires r + 1 <= rows.len(), used(c) >= 1;
            assert((rows.len() + 1) * used(c) == rows.len() * used(c) + used(c)) by (nonlinear_arith);
            row_stays(o0, o1, c, q, rows[r], r, rows.len() * used(c), (rows.len() + 1) * used(c));
        }
    }
}
/// block i of row r of MCUs has its upper left sample in column (i % bw) * s of line (r * v + i / bw) * s of the plane
pub proof fn plane_position(c: Component, r: int, i: int)
    ensures r * used(c) + spot(c.block_size.width as int, c.dct_scale as int, i) == ((r * c.vertical_sampling_factor + i / c.block_size.width as int) * c.dct_scale) * (c.block_size.width * c.dct_scale) + (i % c.block_size.width as int) * c.dct_scale
{
    let (bw, v, s) = (c.block_size.width as int, c.vertical_sampling_factor as int, c.dct_scale as int); let y = i / bw;
    assert(r * (bw * v * s * s) + y * s * (bw * s) == ((r * v + y) * s) * (bw * s)) by (nonlinear_arith);
}
/// the tasks handed to append_rows: an iterator is the sequence of what it has still to deliver
pub struct TaskIter { pub opaque: u8 }
impl TaskIter {
    pub uninterp spec fn rest(&self) -> Seq<(usize, Vec<i16>)>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, Vec<i16>)>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0, old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1)
    { unimplemented!() }
}
//@item src/worker/mod.rs RowData
pub struct RowData {
    pub index: usize,
    pub component: Component,
    pub quantization_table: Arc<[u16; 64]>,
}
//@end
/// the rows of some tasks
pub open spec fn task_rows(t: Seq<(usize, Vec<i16>)>) -> Seq<Seq<i16>> { t.map_values(|x: (usize, Vec<i16>)| x.1@) }
pub open spec fn tasks_ok(t: Seq<(usize, Vec<i16>)>, i: int, c: Component) -> bool { forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).0 == i && row_ok(c, t[k].1@) }
pub proof fn task_first(t: Seq<(usize, Vec<i16>)>, rows: Seq<Seq<i16>>) requires t.len() > 0 ensures rows.push(t[0].1@) + task_rows(t.skip(1)) == rows + task_rows(t)
{ assert(rows.push(t[0].1@) + task_rows(t.skip(1)) =~= rows + task_rows(t)); }
pub proof fn task_none(t: Seq<(usize, Vec<i16>)>, rows: Seq<Seq<i16>>) requires t.len() == 0 ensures rows + task_rows(t) == rows
{ assert(rows + task_rows(t) =~= rows); }
pub open spec fn fits(c: Component, n: nat) -> bool { n * used(c) <= plane_len(c) }
pub proof fn fits_less(c: Component, m: nat, n: nat) requires comp_ok(c), m <= n, fits(c, n) ensures fits(c, m) { used_pos(c); assert(m * used(c) <= n * used(c)) by (nonlinear_arith) requires m <= n, used(c) >= 1; }
/// what a worker promises: the rows given to it after start come out of get_result in their places
pub trait Worker {
    /// component i has been started with c and q and has been given these rows
    spec fn holds(&self, i: int, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>) -> bool;
    spec fn idle(&self, i: int) -> bool;
    spec fn ok(&self) -> bool;
    fn start(&mut self, row_data: RowData) -> (r: Result<()>)
        requires old(self).ok(), row_data.index < 4, old(self).idle(row_data.index as int), comp_ok(row_data.component)
        ensures r is Ok, r is Ok ==> final(self).ok() && final(self).holds(row_data.index as int, row_data.component, row_data.quantization_table@, Seq::empty()),
            r is Ok ==> forall|j: int| 0 <= j < 4 && j != row_data.index && #[trigger] old(self).idle(j) ==> final(self).idle(j),
            r is Ok ==> forall|j: int, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>| 0 <= j < 4 && j != row_data.index && #[trigger] old(self).holds(j, c, q, rows) ==> final(self).holds(j, c, q, rows);
    fn append_row(&mut self, row: (usize, Vec<i16>)) -> (r: Result<()>)
        requires old(self).ok(), row.0 < 4, exists|c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>| #[trigger] old(self).holds(row.0 as int, c, q, rows) && row_ok(c, row.1@) && fits(c, rows.len() + 1)
        ensures r is Ok, r is Ok ==> final(self).ok(),
            r is Ok ==> forall|j: int| 0 <= j < 4 && j != row.0 && #[trigger] old(self).idle(j) ==> final(self).idle(j),
            r is Ok ==> forall|j: int, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>| 0 <= j < 4 && j != row.0 && #[trigger] old(self).holds(j, c, q, rows) ==> final(self).holds(j, c, q, rows),
            r is Ok ==> forall|c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>| #[trigger] old(self).holds(row.0 as int, c, q, rows) ==> final(self).holds(row.0 as int, c, q, rows.push(row.1@));
    fn get_result(&mut self, index: usize) -> (r: Result<Vec<u8>>)
        requires old(self).ok(), index < 4
        ensures r is Ok, r is Ok ==> final(self).ok() && final(self).idle(index as int),
            r is Ok ==> forall|j: int| 0 <= j < 4 && j != index && #[trigger] old(self).idle(j) ==> final(self).idle(j),
            r is Ok ==> forall|j: int, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>| 0 <= j < 4 && j != index && #[trigger] old(self).holds(j, c, q, rows) ==> final(self).holds(j, c, q, rows),
            r matches Ok(v) ==> forall|c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>| #[trigger] old(self).holds(index as int, c, q, rows) ==> rows_in(v@, c, q, rows);
//@fn src/worker/mod.rs Worker::append_rows
//@sub `row : & mut dyn Iterator < Item = ( usize , Vec < i16 > ) >` => `row : & mut TaskIter`
//@sub `for $i in row {` => `loop { let $i = match row . next ( ) { Some ( x ) => x , None => break } ;`
    fn append_rows(&mut self, /*@ Ghost(ix): Ghost<int>, Ghost(c): Ghost<Component>, Ghost(q): Ghost<Seq<u16>>, Ghost(rows): Ghost<Seq<Seq<i16>>>, @*/ row: &mut TaskIter) -> /*@ (r: @*/ Result<()> /*@ )
        requires old(self).ok(), 0 <= ix < 4, comp_ok(c), old(self).holds(ix, c, q, rows), tasks_ok(old(row).rest(), ix, c), fits(c, rows.len() + old(row).rest().len())
        ensures r is Ok, r is Ok ==> final(self).ok() && final(self).holds(ix, c, q, rows + task_rows(old(row).rest())),
            r is Ok ==> forall|j: int| 0 <= j < 4 && j != ix && #[trigger] old(self).idle(j) ==> final(self).idle(j),
            r is Ok ==> forall|j: int, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>| 0 <= j < 4 && j != ix && #[trigger] old(self).holds(j, c, q, rows) ==> final(self).holds(j, c, q, rows) @*/ {
        /*@ let ghost all = rows + task_rows(row.rest()); let ghost mut done = rows; @*/
        loop /*@ invariant self.ok(), 0 <= ix < 4, comp_ok(c), self.holds(ix, c, q, done), all == done + task_rows(row.rest()), tasks_ok(row.rest(), ix, c), fits(c, done.len() + row.rest().len()),
            forall|j: int| 0 <= j < 4 && j != ix && #[trigger] old(self).idle(j) ==> self.idle(j),
            forall|j: int, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>| 0 <= j < 4 && j != ix && #[trigger] old(self).holds(j, c, q, rows) ==> self.holds(j, c, q, rows)
            ensures self.ok(), self.holds(ix, c, q, all), forall|j: int| 0 <= j < 4 && j != ix && #[trigger] old(self).idle(j) ==> self.idle(j),
            forall|j: int, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>| 0 <= j < 4 && j != ix && #[trigger] old(self).holds(j, c, q, rows) ==> self.holds(j, c, q, rows)
            decreases row.rest().len() @*/ {
            /*@ let ghost t = row.rest(); proof { if t.len() == 0 { task_none(t, done); } else { task_first(t, done); fits_less(c, done.len() + 1, (done.len() + t.len()) as nat); } } @*/
            let item = match row.next() { Some(x) => x, None => break };
            self.append_row(item)?;
            /*@ proof { done = done.push(t[0].1@); assert(forall|k: int| 0 <= k < t.len() - 1 ==> #[trigger] t.skip(1)[k] == t[k + 1]); } @*/
        }
        Ok(())
    }
//@end
}
