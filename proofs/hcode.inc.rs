// ---- canonical Huffman codes (T.81 Annex C) --------------------------------------------------------------------
/// number of codes of length l
pub open spec fn ncode(lens: Seq<u8>, l: int) -> int { lens[l - 1] as int }
/// first code of length l
pub open spec fn fcode(lens: Seq<u8>, l: int) -> int decreases l { if l <= 1 { 0 } else { 2 * (fcode(lens, l - 1) + ncode(lens, l - 1)) } }
/// number of codes shorter than l
pub open spec fn fidx(lens: Seq<u8>, l: int) -> int decreases l { if l <= 1 { 0 } else { fidx(lens, l - 1) + ncode(lens, l - 1) } }
/// c is a code word of length l
pub open spec fn hit(lens: Seq<u8>, l: int, c: int) -> bool { fcode(lens, l) <= c < fcode(lens, l) + ncode(lens, l) }
/// the list of lengths does not over-subscribe the code space
pub open spec fn legal(lens: Seq<u8>) -> bool {
    forall|l: int| 1 <= l <= 16 && ncode(lens, l) > 0 ==> #[trigger] fcode(lens, l) + ncode(lens, l) <= pow2i(l)
}
pub open spec fn symbol(lens: Seq<u8>, vals: Seq<u8>, l: int, c: int) -> u8 { vals[fidx(lens, l) + c - fcode(lens, l)] }
/// the symbol the stream starts with, and the length of its code; looking at codes of at least l bits
pub open spec fn hdec_from(lens: Seq<u8>, vals: Seq<u8>, s: Bits, l: int) -> Option<(u8, int)>
    decreases 17 - l
{
    if l > 16 { None }
    else if hit(lens, l, val(s, 0, l)) { Some((symbol(lens, vals, l, val(s, 0, l)), l)) }
    else { hdec_from(lens, vals, s, l + 1) }
}
pub open spec fn hdec(lens: Seq<u8>, vals: Seq<u8>, s: Bits) -> Option<(u8, int)> { hdec_from(lens, vals, s, 1) }
/// F.2.2.1 EXTEND
pub open spec fn extv(v: int, n: int) -> int { if n > 0 && v < pow2i(n - 1) { v - pow2i(n) + 1 } else { v } }

pub proof fn fidx_mono(lens: Seq<u8>, a: int, b: int)
    requires 1 <= a <= b
    ensures 0 <= fidx(lens, a) <= fidx(lens, b), 0 <= fcode(lens, a)
    decreases b
{
    if a < b { fidx_mono(lens, a, b - 1); } else if a > 1 { fidx_mono(lens, a - 1, a - 1); fidx_mono(lens, a - 1, a - 1); }
}
pub proof fn fcode_zero(lens: Seq<u8>, l: int)
    requires l >= 1, fidx(lens, l) == 0
    ensures fcode(lens, l) == 0
    decreases l
{
    if l > 1 { fidx_mono(lens, 1, l - 1); fcode_zero(lens, l - 1); }
}
/// the symbol index determines the length
pub proof fn fidx_unique(lens: Seq<u8>, a: int, b: int, j: int)
    requires a >= 1, b >= 1, fidx(lens, a) <= j < fidx(lens, a + 1), fidx(lens, b) <= j < fidx(lens, b + 1)
    ensures a == b
{
    if a < b { fidx_mono(lens, a + 1, b); } else if b < a { fidx_mono(lens, b + 1, a); }
}
pub proof fn fidx_len(lens: Seq<u8>, j: int, l: int) -> (a: int)
    requires 0 <= j < fidx(lens, l + 1), 0 <= l <= 16
    ensures 1 <= a <= l, fidx(lens, a) <= j < fidx(lens, a + 1)
    decreases l
{
    if l == 0 { 0 } else if j >= fidx(lens, l) { l } else { fidx_len(lens, j, l - 1) }
}
/// a code word is not a prefix of a longer one
pub proof fn not_below(lens: Seq<u8>, s: Bits, l: int, m: int)
    requires 1 <= l < m <= 16, val(s, 0, l) < fcode(lens, l) + ncode(lens, l)
    ensures val(s, 0, m) < fcode(lens, m)
    decreases m
{
    if m > l + 1 { not_below(lens, s, l, m - 1); }
}
pub proof fn above(lens: Seq<u8>, s: Bits, l: int)
    requires 1 <= l <= 17, forall|k: int| 1 <= k < l ==> !hit(lens, k, #[trigger] val(s, 0, k))
    ensures val(s, 0, l) >= fcode(lens, l)
    decreases l
{
    if l > 1 { above(lens, s, l - 1); assert(!hit(lens, l - 1, val(s, 0, l - 1))); } else { val_bound(s, 0, 1); }
}
pub proof fn hdec_none(lens: Seq<u8>, vals: Seq<u8>, s: Bits, l: int)
    requires 1 <= l <= 17, forall|k: int| l <= k <= 16 ==> !hit(lens, k, #[trigger] val(s, 0, k))
    ensures hdec_from(lens, vals, s, l) == None::<(u8, int)>
    decreases 17 - l
{
    if l <= 16 { assert(!hit(lens, l, val(s, 0, l))); hdec_none(lens, vals, s, l + 1); }
}
pub proof fn hdec_skip(lens: Seq<u8>, vals: Seq<u8>, s: Bits, l: int, m: int)
    requires 1 <= l <= m <= 16, forall|k: int| l <= k < m ==> !hit(lens, k, #[trigger] val(s, 0, k)), hit(lens, m, val(s, 0, m))
    ensures hdec_from(lens, vals, s, l) == Some((symbol(lens, vals, m, val(s, 0, m)), m))
    decreases 17 - l
{
    if l < m { assert(!hit(lens, l, val(s, 0, l))); hdec_skip(lens, vals, s, l + 1, m); }
}
pub proof fn hdec_hit(lens: Seq<u8>, vals: Seq<u8>, s: Bits, m: int)
    requires 1 <= m <= 16, hit(lens, m, val(s, 0, m))
    ensures hdec(lens, vals, s) == Some((symbol(lens, vals, m, val(s, 0, m)), m))
{
    assert forall|k: int| 1 <= k < m implies !hit(lens, k, #[trigger] val(s, 0, k)) by {
        if hit(lens, k, val(s, 0, k)) { not_below(lens, s, k, m); }
    }
    hdec_skip(lens, vals, s, 1, m);
}
pub proof fn pow2i_pos(n: int) ensures pow2i(n) >= 1 decreases n { if n > 0 { pow2i_pos(n - 1); } }
pub proof fn pow2i_is(n: int)
    ensures n == 0 ==> pow2i(n) == 1, n == 1 ==> pow2i(n) == 2, n == 2 ==> pow2i(n) == 4, n == 3 ==> pow2i(n) == 8, n == 4 ==> pow2i(n) == 16,
        n == 5 ==> pow2i(n) == 32, n == 6 ==> pow2i(n) == 64, n == 7 ==> pow2i(n) == 128, n == 8 ==> pow2i(n) == 256, n == 9 ==> pow2i(n) == 512,
        n == 10 ==> pow2i(n) == 1024, n == 11 ==> pow2i(n) == 2048, n == 12 ==> pow2i(n) == 4096, n == 13 ==> pow2i(n) == 8192,
        n == 14 ==> pow2i(n) == 16384, n == 15 ==> pow2i(n) == 32768, n == 16 ==> pow2i(n) == 65536
{ reveal_with_fuel(pow2i, 18); }
/// the leading bits of a value
pub proof fn val_div(s: Bits, p: int, n: int, m: int)
    requires 0 <= m <= n
    ensures val(s, p, n) / pow2i(n - m) == val(s, p, m), val(s, p, n) % pow2i(n - m) == val(s, p + m, n - m), pow2i(n - m) > 0
    decreases n - m
{
    pow2i_pos(n - m);
    val_bound(s, p, n);
    if m < n {
        val_div(s, p, n - 1, m);
        pow2i_pos(n - 1 - m);
        let a = val(s, p, n - 1); let q = pow2i(n - 1 - m); let b = if s(p + n - 1) { 1int } else { 0int };
        assert(p + m + (n - m) - 1 == p + n - 1);
        let h = a / q; let r = a % q;
        assert(a == q * h + r) by (nonlinear_arith) requires q > 0, h == a / q, r == a % q;
        let x = 2 * a + b;
        let d = 2 * q; let e = 2 * r + b; assert(x == h * d + e) by (nonlinear_arith) requires a == q * h + r, x == 2 * a + b, d == 2 * q, e == 2 * r + b; assert(0 <= r < q) by (nonlinear_arith) requires q > 0, r == a % q;
        assert(0 <= e < d);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, d, h, e);
    } else {
        assert(val(s, p, n) / 1 == val(s, p, n));
    }
}
pub proof fn shr16(x: u16, k: u16)
    requires k <= 16
    ensures k < 16 ==> x >> k == x as int / pow2i(k as int)
    decreases k
{
    if k > 0 && k < 16 {
        shr16(x, (k - 1) as u16);
        let y = x >> ((k - 1) as u16); let j = (k - 1) as u16;
        assert(x >> add(j, 1) == (x >> j) / 2) by (bit_vector) requires j < 15;
        pow2i_pos(k - 1);
        vstd::arithmetic::div_mod::lemma_div_denominator(x as int, pow2i(k - 1), 2);
    } else if k == 0 {
        assert(x >> 0 == x) by (bit_vector);
    }
}

/// entry p of the shortcut table
pub open spec fn lut_ok(lens: Seq<u8>, vals: Seq<u8>, p: int, e: (u8, u8)) -> bool {
    if e.1 == 0 { e.0 == 0 && forall|l: int| 1 <= l <= 8 ==> !#[trigger] hit(lens, l, p / pow2i(8 - l)) }
    else { e.1 <= 8 && hit(lens, e.1 as int, p / pow2i(8 - e.1)) && e.0 == symbol(lens, vals, e.1 as int, p / pow2i(8 - e.1)) }
}
/// entry p of the shortcut table for AC coefficients, given the entry of the other table
pub open spec fn aclut_ok(e: (u8, u8), p: int, a: (i16, u8)) -> bool {
    a.1 != 0 ==> {
        let m = (e.0 % 16) as int; let n = (a.1 % 16) as int;
        &&& e.1 > 0 && m > 0 && n == e.1 + m && n <= 8
        &&& a.1 / 16 == e.0 / 16
        &&& a.0 == extv((p / pow2i(8 - n)) % pow2i(m), m)
    }
}
impl HuffmanTable {
    pub open spec fn wf(self) -> bool {
        &&& self.lens@.len() == 16 && legal(self.lens@) && 0 < fidx(self.lens@, 17) <= 256 && self.values@.len() == fidx(self.lens@, 17)
        &&& forall|l: int| 1 <= l <= 16 ==> #[trigger] self.maxcode@[l - 1] == (if ncode(self.lens@, l) == 0 { -1 } else { fcode(self.lens@, l) + ncode(self.lens@, l) - 1 })
        &&& forall|l: int| 1 <= l <= 16 && ncode(self.lens@, l) > 0 ==> #[trigger] self.delta@[l - 1] == fidx(self.lens@, l) - fcode(self.lens@, l)
        &&& forall|p: int| 0 <= p < 256 ==> lut_ok(self.lens@, self.values@, p, #[trigger] self.lut@[p])
        &&& self.ac_lut matches Some(a) ==> forall|p: int| 0 <= p < 256 ==> aclut_ok(self.lut@[p], p, #[trigger] a@[p])
    }
    pub open spec fn dec(self, s: Bits) -> Option<(u8, int)> { hdec(self.lens@, self.values@, s) }
}
