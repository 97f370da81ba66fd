// ---- SSSE3 colour conversion ----------------------------------------------------------------------------------
pub open spec fn one_off(a: u8, b: int) -> bool { -1 <= a - b <= 1 }
/// an output pixel: the conversion of BT.601, at most one level from the portable formula
pub open spec fn simd_px(r: u8, g: u8, b: u8, y: u8, cb: u8, cr: u8) -> bool {
    bt601(r, g, b, y, cb, cr) && one_off(r, port_r(y, cb, cr)) && one_off(g, port_g(y, cb, cr)) && one_off(b, port_b(y, cb, cr))
}
pub open spec fn up6(x: int) -> int { s16((x * 64) % 65536) }
pub open spec fn mix_r(y: int, cb: int, cr: int) -> int { let c = ssub(up6(cr), 8192); clampi(sadd(sadd(up6(y), 32), sadd(hrs(c, 13173), c)) / 64) }
pub open spec fn mix_g(y: int, cb: int, cr: int) -> int { clampi(ssub(sadd(up6(y), 32), sadd(hrs(ssub(up6(cb), 8192), 11276), hrs(ssub(up6(cr), 8192), 23401))) / 64) }
pub open spec fn mix_b(y: int, cb: int, cr: int) -> int { let c = ssub(up6(cb), 8192); clampi(sadd(sadd(up6(y), 32), sadd(hrs(c, 25297), c)) / 64) }
#[verifier::spinoff_prover]
#[verifier::rlimit(100)]
pub proof fn mixed(r: u8, g: u8, b: u8, y: u8, cb: u8, cr: u8) requires r == mix_r(y as int, cb as int, cr as int), g == mix_g(y as int, cb as int, cr as int), b == mix_b(y as int, cb as int, cr as int)
    ensures simd_px(r, g, b, y, cb, cr)
{
    hide(hrs);
    let (u, v) = (64 * cb - 8192, 64 * cr - 8192);
    assert(up6(y as int) == 64 * y && ssub(up6(cb as int), 8192) == u && ssub(up6(cr as int), 8192) == v);
    hrs_is(v, 13173); hrs_is(u, 11276); hrs_is(v, 23401); hrs_is(u, 25297);
    let rr = (64 * y + 32 + hrs(v, 13173) + v) / 64; let gg = (64 * y + 32 - hrs(u, 11276) - hrs(v, 23401)) / 64; let bb = (64 * y + 32 + hrs(u, 25297) + u) / 64;
    assert(clampi(rr) == r && clampi(gg) == g && clampi(bb) == b);
}
/// widening of eight bytes
pub proof fn widened(m: __m128i, k: int)
    requires 0 <= k < 8, m.b(0) == 0, m.b(1) == 129, m.b(2) == 1, m.b(3) == 129, m.b(4) == 2, m.b(5) == 129, m.b(6) == 3, m.b(7) == 129, m.b(8) == 4, m.b(9) == 129, m.b(10) == 5, m.b(11) == 129, m.b(12) == 6, m.b(13) == 129, m.b(14) == 7, m.b(15) == 129,
    ensures m.b(2 * k) == k, m.b(2 * k + 1) == 129
{
    if k == 0 {} else if k == 1 {} else if k == 2 {} else if k == 3 {} else if k == 4 {} else if k == 5 {} else if k == 6 {} else {}
}
/// one lane of it
pub proof fn wide(a: __m128i, r: __m128i, k: int) requires 0 <= k < 8, r.b(2 * k) == a.b(k), r.b(2 * k + 1) == 0 ensures r.l(k) == a.b(k) { }
pub proof fn or_zero(a: int) requires 0 <= a < 256 ensures bor(a, 0) == a, bor(0, a) == a { let x = a as u8; assert(x | 0u8 == x) by (bit_vector); assert(0u8 | x == x) by (bit_vector); }
/// the three planes interleaved: byte t of the pixels
pub open spec fn woven(r: __m128i, g: __m128i, b: __m128i, t: int) -> int { if t % 3 == 0 { r.b(t / 3) } else if t % 3 == 1 { g.b(t / 3) } else { b.b(t / 3) } }
pub open spec fn shuffled(a: __m128i, m: __m128i, k: int) -> int { if m.b(k) >= 128 { 0 } else { a.b(m.b(k) % 16) } }
/// the masks of the first (at = 0) and the second (at = 16) sixteen bytes
pub open spec fn picks(m: __m128i, at: int, c: int) -> bool { forall|k: int| 0 <= k < 16 ==> pick(#[trigger] m.b(k), at + k, c) }
pub open spec fn pick(x: int, t: int, c: int) -> bool { if t % 3 == c { x == t / 3 } else { x >= 128 } }
pub proof fn mask_r0(m: __m128i) requires m.b(0) == 0, m.b(1) >= 128, m.b(2) >= 128, m.b(3) == 1, m.b(4) >= 128, m.b(5) >= 128, m.b(6) == 2, m.b(7) >= 128, m.b(8) >= 128, m.b(9) == 3, m.b(10) >= 128, m.b(11) >= 128, m.b(12) == 4, m.b(13) >= 128, m.b(14) >= 128, m.b(15) == 5 ensures picks(m, 0, 0)
{ assert forall|k: int| 0 <= k < 16 implies pick(#[trigger] m.b(k), 0 + k, 0) by { if k == 0 { } else if k == 1 { } else if k == 2 { } else if k == 3 { } else if k == 4 { } else if k == 5 { } else if k == 6 { } else if k == 7 { } else if k == 8 { } else if k == 9 { } else if k == 10 { } else if k == 11 { } else if k == 12 { } else if k == 13 { } else if k == 14 { } else { } } }
pub proof fn mask_g0(m: __m128i) requires m.b(0) >= 128, m.b(1) == 0, m.b(2) >= 128, m.b(3) >= 128, m.b(4) == 1, m.b(5) >= 128, m.b(6) >= 128, m.b(7) == 2, m.b(8) >= 128, m.b(9) >= 128, m.b(10) == 3, m.b(11) >= 128, m.b(12) >= 128, m.b(13) == 4, m.b(14) >= 128, m.b(15) >= 128 ensures picks(m, 0, 1)
{ assert forall|k: int| 0 <= k < 16 implies pick(#[trigger] m.b(k), 0 + k, 1) by { if k == 0 { } else if k == 1 { } else if k == 2 { } else if k == 3 { } else if k == 4 { } else if k == 5 { } else if k == 6 { } else if k == 7 { } else if k == 8 { } else if k == 9 { } else if k == 10 { } else if k == 11 { } else if k == 12 { } else if k == 13 { } else if k == 14 { } else { } } }
pub proof fn mask_b0(m: __m128i) requires m.b(0) >= 128, m.b(1) >= 128, m.b(2) == 0, m.b(3) >= 128, m.b(4) >= 128, m.b(5) == 1, m.b(6) >= 128, m.b(7) >= 128, m.b(8) == 2, m.b(9) >= 128, m.b(10) >= 128, m.b(11) == 3, m.b(12) >= 128, m.b(13) >= 128, m.b(14) == 4, m.b(15) >= 128 ensures picks(m, 0, 2)
{ assert forall|k: int| 0 <= k < 16 implies pick(#[trigger] m.b(k), 0 + k, 2) by { if k == 0 { } else if k == 1 { } else if k == 2 { } else if k == 3 { } else if k == 4 { } else if k == 5 { } else if k == 6 { } else if k == 7 { } else if k == 8 { } else if k == 9 { } else if k == 10 { } else if k == 11 { } else if k == 12 { } else if k == 13 { } else if k == 14 { } else { } } }
pub proof fn mask_r1(m: __m128i) requires m.b(0) >= 128, m.b(1) >= 128, m.b(2) == 6, m.b(3) >= 128, m.b(4) >= 128, m.b(5) == 7, m.b(6) >= 128, m.b(7) >= 128, m.b(8) == 8, m.b(9) >= 128, m.b(10) >= 128, m.b(11) == 9, m.b(12) >= 128, m.b(13) >= 128, m.b(14) == 10, m.b(15) >= 128 ensures picks(m, 16, 0)
{ assert forall|k: int| 0 <= k < 16 implies pick(#[trigger] m.b(k), 16 + k, 0) by { if k == 0 { } else if k == 1 { } else if k == 2 { } else if k == 3 { } else if k == 4 { } else if k == 5 { } else if k == 6 { } else if k == 7 { } else if k == 8 { } else if k == 9 { } else if k == 10 { } else if k == 11 { } else if k == 12 { } else if k == 13 { } else if k == 14 { } else { } } }
pub proof fn mask_g1(m: __m128i) requires m.b(0) == 5, m.b(1) >= 128, m.b(2) >= 128, m.b(3) == 6, m.b(4) >= 128, m.b(5) >= 128, m.b(6) == 7, m.b(7) >= 128, m.b(8) >= 128, m.b(9) == 8, m.b(10) >= 128, m.b(11) >= 128, m.b(12) == 9, m.b(13) >= 128, m.b(14) >= 128, m.b(15) == 10 ensures picks(m, 16, 1)
{ assert forall|k: int| 0 <= k < 16 implies pick(#[trigger] m.b(k), 16 + k, 1) by { if k == 0 { } else if k == 1 { } else if k == 2 { } else if k == 3 { } else if k == 4 { } else if k == 5 { } else if k == 6 { } else if k == 7 { } else if k == 8 { } else if k == 9 { } else if k == 10 { } else if k == 11 { } else if k == 12 { } else if k == 13 { } else if k == 14 { } else { } } }
pub proof fn mask_b1(m: __m128i) requires m.b(0) >= 128, m.b(1) == 5, m.b(2) >= 128, m.b(3) >= 128, m.b(4) == 6, m.b(5) >= 128, m.b(6) >= 128, m.b(7) == 7, m.b(8) >= 128, m.b(9) >= 128, m.b(10) == 8, m.b(11) >= 128, m.b(12) >= 128, m.b(13) == 9, m.b(14) >= 128, m.b(15) >= 128 ensures picks(m, 16, 2)
{ assert forall|k: int| 0 <= k < 16 implies pick(#[trigger] m.b(k), 16 + k, 2) by { if k == 0 { } else if k == 1 { } else if k == 2 { } else if k == 3 { } else if k == 4 { } else if k == 5 { } else if k == 6 { } else if k == 7 { } else if k == 8 { } else if k == 9 { } else if k == 10 { } else if k == 11 { } else if k == 12 { } else if k == 13 { } else if k == 14 { } else { } } }
pub proof fn weave(r: __m128i, g: __m128i, b: __m128i, mr: __m128i, mg: __m128i, mb: __m128i, o: __m128i, at: int)
    requires at == 0 || at == 16, picks(mr, at, 0), picks(mg, at, 1), picks(mb, at, 2),
        forall|k: int| 0 <= k < 16 ==> #[trigger] o.b(k) == bor(shuffled(r, mr, k), bor(shuffled(g, mg, k), shuffled(b, mb, k))),
    ensures forall|k: int| 0 <= k < 16 && at + k < 24 ==> #[trigger] o.b(k) == woven(r, g, b, at + k)
{
    hide(bor);
    assert forall|k: int| 0 <= k < 16 && at + k < 24 implies #[trigger] o.b(k) == woven(r, g, b, at + k) by {
        let t = at + k; assert(t % 3 == 0 || t % 3 == 1 || t % 3 == 2); assert(0 <= t / 3 < 8);
        assert(if t % 3 == 0 { mr.b(k) == t / 3 } else { mr.b(k) >= 128 }); assert(if t % 3 == 1 { mg.b(k) == t / 3 } else { mg.b(k) >= 128 }); assert(if t % 3 == 2 { mb.b(k) == t / 3 } else { mb.b(k) >= 128 });
        or_zero(shuffled(r, mr, k)); or_zero(shuffled(g, mg, k)); or_zero(shuffled(b, mb, k)); or_zero(0);
    }
}
/// the samples of eight pixels
pub open spec fn took(s: Seq<u8>, i: int, x: __m128i) -> bool { forall|k: int| 0 <= k < 8 ==> #[trigger] x.l(k) == s[8 * i + k] }
/// pixels converted so far
pub open spec fn pixels_done(o0: Seq<u8>, o: Seq<u8>, y: Seq<u8>, cb: Seq<u8>, cr: Seq<u8>, n: int) -> bool {
    &&& o.len() == o0.len()
    &&& forall|p: int| 0 <= p < n ==> simd_px(#[trigger] o[p * 3], o[p * 3 + 1], o[p * 3 + 2], y[p], cb[p], cr[p])
    &&& forall|j: int| n * 3 <= j < o.len() ==> #[trigger] o[j] == o0[j]
}
pub proof fn pixels_more(o0: Seq<u8>, o1: Seq<u8>, o: Seq<u8>, d: Seq<u8>, y: Seq<u8>, cb: Seq<u8>, cr: Seq<u8>, r: __m128i, g: __m128i, b: __m128i, i: int)
    requires i >= 0, pixels_done(o0, o1, y, cb, cr, 8 * i), o.len() == o1.len(), 24 * i + 24 <= o.len(), d.len() == 32,
        forall|j: int| 0 <= j < o.len() ==> #[trigger] o[j] == (if 24 * i <= j < 24 * i + 24 { d[j - 24 * i] } else { o1[j] }),
        forall|t: int| 0 <= t < 24 ==> #[trigger] d[t] == woven(r, g, b, t),
        forall|k: int| 0 <= k < 8 ==> #[trigger] r.b(k) == mix_r(y[8 * i + k] as int, cb[8 * i + k] as int, cr[8 * i + k] as int),
        forall|k: int| 0 <= k < 8 ==> #[trigger] g.b(k) == mix_g(y[8 * i + k] as int, cb[8 * i + k] as int, cr[8 * i + k] as int),
        forall|k: int| 0 <= k < 8 ==> #[trigger] b.b(k) == mix_b(y[8 * i + k] as int, cb[8 * i + k] as int, cr[8 * i + k] as int),
    ensures pixels_done(o0, o, y, cb, cr, 8 * (i + 1))
{
    hide(simd_px); hide(mix_r); hide(mix_g); hide(mix_b);
    assert forall|p: int| 0 <= p < 8 * (i + 1) implies simd_px(#[trigger] o[p * 3], o[p * 3 + 1], o[p * 3 + 2], y[p], cb[p], cr[p]) by {
        if p < 8 * i { assert(simd_px(o1[p * 3], o1[p * 3 + 1], o1[p * 3 + 2], y[p], cb[p], cr[p])); }
        else {
            let k = p - 8 * i;
            assert(o[p * 3] == d[3 * k] && o[p * 3 + 1] == d[3 * k + 1] && o[p * 3 + 2] == d[3 * k + 2]);
            assert(d[3 * k] == woven(r, g, b, 3 * k) && d[3 * k + 1] == woven(r, g, b, 3 * k + 1) && d[3 * k + 2] == woven(r, g, b, 3 * k + 2));
            assert(r.b(k) == mix_r(y[8 * i + k] as int, cb[8 * i + k] as int, cr[8 * i + k] as int) && g.b(k) == mix_g(y[8 * i + k] as int, cb[8 * i + k] as int, cr[8 * i + k] as int) && b.b(k) == mix_b(y[8 * i + k] as int, cb[8 * i + k] as int, cr[8 * i + k] as int));
            mixed(o[p * 3], o[p * 3 + 1], o[p * 3 + 2], y[p], cb[p], cr[p]);
        }
    }
}
pub proof fn shifts6() ensures 128i16 << 6 == 8192i16, (1i16 << 6) >> 1 == 32i16, two(6) == 64
{ assert(128i16 << 6 == 8192i16) by (bit_vector); assert((1i16 << 6) >> 1 == 32i16) by (bit_vector); reveal_with_fuel(two, 8); }
//@fn src/arch/ssse3.rs color_convert_line_ycbcr
//@sub `unsafe fn` => `fn`
//@sub `assert ! ( $$e ) ;` => `guard ( $$e ) ;`
//@sub `const $n : $t = $$e ;` => `let $n : $t = $$e ;`
//@sub `_mm_loadu_si128 ( $x . as_ptr ( ) . wrapping_add ( $$e ) as * const _ )` => `loadu ( $x , $$e )`
//@sub `_mm_storeu_si128 ( $x . as_mut_ptr ( ) as * mut _ , $$v )` => `storeu ( & mut $x , 0 , $$v )`
//@sub `_mm_storeu_si128 ( $x . as_mut_ptr ( ) . wrapping_add ( $$e ) as * mut _ , $$v )` => `storeu ( & mut $x , $$e , $$v )`
//@sub `std :: ptr :: copy_nonoverlapping :: < u8 > ( $a . as_ptr ( ) , $b . as_mut_ptr ( ) . wrapping_add ( $$e ) , $n , )` => `copy_nonoverlapping ( & $a , $b , $$e , $n )`
#[verifier::spinoff_prover]
#[verifier::rlimit(200)]
pub fn color_convert_line_ycbcr(y: & [u8], cb: & [u8], cr: & [u8], output: &mut[u8]) -> /*@ (n: @*/ usize /*@ )
    ensures n <= old(output).len() / 3, pixels_done(old(output)@, final(output)@, y@, cb@, cr@, n as int), @*/ {
    /*@ hide(simd_px); hide(hrs); hide(sadd); hide(ssub); hide(bor); hide(pixels_done); hide(picks); hide(clampi); hide(woven); hide(s16); let ghost (o0, ys, us, vs) = (output@, y@, cb@, cr@); let ghost room = output.len() % 3 == 0 && y.len() >= output.len() / 3 && cb.len() >= output.len() / 3 && cr.len() >= output.len() / 3; proof { shifts6(); assert(pixels_done(o0, output@, ys, us, vs, 0)) by { reveal(pixels_done); } } @*/
    guard(output.len() % 3 == 0 /*@, Ghost(room) @*/);
    let num = output.len() / 3;
    guard(num <= y.len() /*@, Ghost(room) @*/);
    guard(num <= cb.len() /*@, Ghost(room) @*/);
    guard(num <= cr.len() /*@, Ghost(room) @*/);
    let num_vecs = (num / 8).saturating_sub(1);
    for i in 0..num_vecs /*@ invariant num == o0.len() / 3, num_vecs * 8 <= num, num_vecs >= 1 ==> num_vecs * 8 + 8 <= num, ys == y@, us == cb@, vs == cr@, ys.len() >= num, us.len() >= num, vs.len() >= num, o0.len() <= usize::MAX, output@.len() == o0.len(), 3 * num <= o0.len(), two(6) == 64, 128i16 << 6 == 8192i16, (1i16 << 6) >> 1 == 32i16,
        pixels_done(o0, output@, ys, us, vs, 8 * i as int), @*/ {
        /*@ let ghost o1 = output@; proof { assert(8 * i + 16 <= num && 24 * i + 24 <= o1.len()); } @*/
        let SHIFT: i32 = 6;
        let y = loadu(y, i * 8);
        let cb = loadu(cb, i * 8);
        let cr = loadu(cr, i * 8);
        let shuf16 = _mm_setr_epi8(0, - 0x7F, 1, - 0x7F, 2, - 0x7F, 3, - 0x7F, 4, - 0x7F, 5, - 0x7F, 6, - 0x7F, 7, - 0x7F,);
        /*@ let ghost ly = y; proof { assert forall|w: __m128i, k: int| 0 <= k < 8 && w.b(2 * k) == shuffled(ly, shuf16, 2 * k) && w.b(2 * k + 1) == shuffled(ly, shuf16, 2 * k + 1) implies #[trigger] w.l(k) == ly.b(k) by { widened(shuf16, k); wide(ly, w, k); } } @*/
        let y = _mm_slli_epi16(_mm_shuffle_epi8(y, shuf16), SHIFT);
        /*@ proof { assert forall|k: int| 0 <= k < 8 implies #[trigger] y.l(k) == up6(ys[8 * i + k] as int) by { assert(ly.b(k) == ys[8 * i + k]); } } @*/
        /*@ let ghost lcb = cb; proof { assert forall|w: __m128i, k: int| 0 <= k < 8 && w.b(2 * k) == shuffled(lcb, shuf16, 2 * k) && w.b(2 * k + 1) == shuffled(lcb, shuf16, 2 * k + 1) implies #[trigger] w.l(k) == lcb.b(k) by { widened(shuf16, k); wide(lcb, w, k); } } @*/
        let cb = _mm_slli_epi16(_mm_shuffle_epi8(cb, shuf16), SHIFT);
        /*@ proof { assert forall|k: int| 0 <= k < 8 implies #[trigger] cb.l(k) == up6(us[8 * i + k] as int) by { assert(lcb.b(k) == us[8 * i + k]); } } @*/
        /*@ let ghost lcr = cr; proof { assert forall|w: __m128i, k: int| 0 <= k < 8 && w.b(2 * k) == shuffled(lcr, shuf16, 2 * k) && w.b(2 * k + 1) == shuffled(lcr, shuf16, 2 * k + 1) implies #[trigger] w.l(k) == lcr.b(k) by { widened(shuf16, k); wide(lcr, w, k); } } @*/
        let cr = _mm_slli_epi16(_mm_shuffle_epi8(cr, shuf16), SHIFT);
        /*@ proof { assert forall|k: int| 0 <= k < 8 implies #[trigger] cr.l(k) == up6(vs[8 * i + k] as int) by { assert(lcr.b(k) == vs[8 * i + k]); } } @*/
        /*@ let ghost yy = y; @*/
        let c128 = _mm_set1_epi16(128 << SHIFT);
        let y = _mm_adds_epi16(y, _mm_set1_epi16((1 << SHIFT) >> 1));
        let cb = _mm_subs_epi16(cb, c128);
        let cr = _mm_subs_epi16(cr, c128);
        let cr_140200 = _mm_adds_epi16(_mm_mulhrs_epi16(cr, _mm_set1_epi16(13173)), cr);
        let cb_034414 = _mm_mulhrs_epi16(cb, _mm_set1_epi16(11276));
        let cr_071414 = _mm_mulhrs_epi16(cr, _mm_set1_epi16(23401));
        let cb_177200 = _mm_adds_epi16(_mm_mulhrs_epi16(cb, _mm_set1_epi16(25297)), cb);
        let r = _mm_adds_epi16(y, cr_140200);
        let g = _mm_subs_epi16(y, _mm_adds_epi16(cb_034414, cr_071414));
        let b = _mm_adds_epi16(y, cb_177200);
        let zero = _mm_setzero_si128();
        let r = _mm_packus_epi16(_mm_srai_epi16(r, SHIFT), zero);
        let g = _mm_packus_epi16(_mm_srai_epi16(g, SHIFT), zero);
        let b = _mm_packus_epi16(_mm_srai_epi16(b, SHIFT), zero);
        /*@ proof {
            assert forall|k: int| 0 <= k < 8 implies #[trigger] r.b(k) == mix_r(ys[8 * i + k] as int, us[8 * i + k] as int, vs[8 * i + k] as int) by { assert(yy.l(k) == up6(ys[8 * i + k] as int)); }
            assert forall|k: int| 0 <= k < 8 implies #[trigger] g.b(k) == mix_g(ys[8 * i + k] as int, us[8 * i + k] as int, vs[8 * i + k] as int) by { assert(yy.l(k) == up6(ys[8 * i + k] as int)); }
            assert forall|k: int| 0 <= k < 8 implies #[trigger] b.b(k) == mix_b(ys[8 * i + k] as int, us[8 * i + k] as int, vs[8 * i + k] as int) by { assert(yy.l(k) == up6(ys[8 * i + k] as int)); }
        } @*/
        let shufr = _mm_setr_epi8(0, - 0x7F, - 0x7F, 1, - 0x7F, - 0x7F, 2, - 0x7F, - 0x7F, 3, - 0x7F, - 0x7F, 4, - 0x7F, - 0x7F, 5,);
        let shufg = _mm_setr_epi8(- 0x7F, 0, - 0x7F, - 0x7F, 1, - 0x7F, - 0x7F, 2, - 0x7F, - 0x7F, 3, - 0x7F, - 0x7F, 4, - 0x7F, - 0x7F,);
        let shufb = _mm_alignr_epi8(shufg, shufg, 15);
        /*@ proof { mask_r0(shufr);
            mask_g0(shufg);
            mask_b0(shufb); } @*/
        let rgb_low = _mm_or_si128(_mm_shuffle_epi8(r, shufr), _mm_or_si128(_mm_shuffle_epi8(g, shufg), _mm_shuffle_epi8(b, shufb)),);
        let shufr1 = _mm_add_epi8(shufb, _mm_set1_epi8(6));
        let shufg1 = _mm_add_epi8(shufr, _mm_set1_epi8(5));
        let shufb1 = _mm_add_epi8(shufg, _mm_set1_epi8(5));
        /*@ proof { mask_r1(shufr1);
            mask_g1(shufg1);
            mask_b1(shufb1); } @*/
        let rgb_hi = _mm_or_si128(_mm_shuffle_epi8(r, shufr1), _mm_or_si128(_mm_shuffle_epi8(g, shufg1), _mm_shuffle_epi8(b, shufb1)),);
        /*@ proof { weave(r, g, b, shufr, shufg, shufb, rgb_low, 0); weave(r, g, b, shufr1, shufg1, shufb1, rgb_hi, 16); } @*/
        let mut data = [0u8; 32];
        storeu(&mut data, 0, rgb_low);
        storeu(&mut data, 16, rgb_hi);
        /*@ proof { assert forall|t: int| 0 <= t < 24 implies #[trigger] data@[t] == woven(r, g, b, t) by { if t < 16 { assert(rgb_low.b(t) == woven(r, g, b, t)); } else { assert(rgb_hi.b(t - 16) == woven(r, g, b, t)); } } } @*/
        copy_nonoverlapping(&data, output, 24 * i, 24);
        /*@ proof { pixels_more(o0, o1, output@, data@, ys, us, vs, r, g, b, i as int); } @*/
    }
    num_vecs * 8
}
//@end
