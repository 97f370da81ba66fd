// ---- SSSE3 inverse DCT ---------------------------------------------------------------------------------------
/// one lane of the even half and the odd half, with saturating steps
pub open spec fn ev_t3(x2: int, x6: int) -> int { sadd(hrs(sadd(x2, x6), 17734), hrs(x2, 25079)) }
pub open spec fn ev_t2(x2: int, x6: int) -> int { ssub(ssub(hrs(sadd(x2, x6), 17734), x6), hrs(x6, 27779)) }
pub open spec fn ev(n: int, x0: int, x2: int, x4: int, x6: int) -> int {
    if n == 0 { sadd(sadd(x0, x4), ev_t3(x2, x6)) } else if n == 1 { sadd(ssub(x0, x4), ev_t2(x2, x6)) } else if n == 2 { ssub(ssub(x0, x4), ev_t2(x2, x6)) } else { ssub(sadd(x0, x4), ev_t3(x2, x6)) }
}
pub open spec fn od_p5(x1: int, x3: int, x5: int, x7: int) -> int { let p = sadd(sadd(x7, x3), sadd(x5, x1)); sadd(p, hrs(p, 5763)) }
pub open spec fn od_p1(x1: int, x3: int, x5: int, x7: int) -> int { ssub(od_p5(x1, x3, x5, x7), hrs(sadd(x7, x1), 29490)) }
pub open spec fn od_p2(x1: int, x3: int, x5: int, x7: int) -> int { ssub(ssub(ssub(od_p5(x1, x3, x5, x7), sadd(x5, x3)), sadd(x5, x3)), hrs(sadd(x5, x3), 18446)) }
pub open spec fn od_p3(x3: int, x7: int) -> int { ssub(hrs(sadd(x7, x3), -31509), sadd(x7, x3)) }
pub open spec fn od_p4(x1: int, x5: int) -> int { hrs(sadd(x5, x1), -12785) }
pub open spec fn od(n: int, x1: int, x3: int, x5: int, x7: int) -> int {
    if n == 0 { sadd(sadd(od_p1(x1, x3, x5, x7), od_p4(x1, x5)), sadd(x1, hrs(x1, 16427))) }
    else if n == 1 { sadd(sadd(od_p2(x1, x3, x5, x7), od_p3(x3, x7)), sadd(sadd(x3, sadd(x3, x3)), hrs(x3, 2383))) }
    else if n == 2 { sadd(sadd(od_p2(x1, x3, x5, x7), od_p4(x1, x5)), sadd(sadd(x5, x5), hrs(x5, 1741))) }
    else { sadd(sadd(od_p1(x1, x3, x5, x7), od_p3(x3, x7)), hrs(x7, 9786)) }
}
pub open spec fn lane(n: int, x0: int, x1: int, x2: int, x3: int, x4: int, x5: int, x6: int, x7: int) -> int { if n < 4 { sadd(ev(n, x0, x2, x4, x6), od(n, x1, x3, x5, x7)) } else { ssub(ev(7 - n, x0, x2, x4, x6), od(7 - n, x1, x3, x5, x7)) } }
/// 32768 r is 32768 times the transform, up to the precision of the constants and six roundings
pub open spec fn simd_lin(n: int, r: int, x0: int, x1: int, x2: int, x3: int, x4: int, x5: int, x6: int, x7: int) -> bool { abs(327680000000 * r - 32768 * idct8(n, x0, x1, x2, x3, x4, x5, x6, x7)) <= 5210000 * sum8(x0, x1, x2, x3, x4, x5, x6, x7) + 983040000000 }
/// 32768 times an output of the even (odd) half, up to the precision of the constants and the roundings
pub open spec fn simd_even(n: int, r: int, x0: int, x2: int, x4: int, x6: int) -> bool {
    abs(327680000000 * r - 32768 * (dct8(n, 0) * x0 + dct8(n, 2) * x2 + dct8(n, 4) * x4 + dct8(n, 6) * x6)) <= 5210000 * (abs(x0) + abs(x2) + abs(x4) + abs(x6)) + 327680000000
}
pub open spec fn simd_odd(n: int, r: int, x1: int, x3: int, x5: int, x7: int) -> bool {
    abs(327680000000 * r - 32768 * (dct8(n, 1) * x1 + dct8(n, 3) * x3 + dct8(n, 5) * x5 + dct8(n, 7) * x7)) <= 5210000 * (abs(x1) + abs(x3) + abs(x5) + abs(x7)) + 655360000000
}
pub proof fn se0(r: int, x0: int, x2: int, x4: int, x6: int) requires abs(32768 * r - (32768 * x0 + 42813 * x2 + 32768 * x4 + 17734 * x6)) <= 32768 ensures simd_even(0, r, x0, x2, x4, x6) { lemma_basis(); }
pub proof fn so0(r: int, x1: int, x3: int, x5: int, x7: int) requires abs(32768 * r - (45451 * x1 + 38531 * x3 + 25746 * x5 + 9041 * x7)) <= 65536 ensures simd_odd(0, r, x1, x3, x5, x7) { lemma_basis(); }
pub proof fn se1(r: int, x0: int, x2: int, x4: int, x6: int) requires abs(32768 * r - (32768 * x0 + 17734 * x2 - 32768 * x4 - 42813 * x6)) <= 32768 ensures simd_even(1, r, x0, x2, x4, x6) { lemma_basis(); }
pub proof fn so1(r: int, x1: int, x3: int, x5: int, x7: int) requires abs(32768 * r - (38531 * x1 - 9041 * x3 - 45451 * x5 - 25746 * x7)) <= 65536 ensures simd_odd(1, r, x1, x3, x5, x7) { lemma_basis(); }
pub proof fn se2(r: int, x0: int, x2: int, x4: int, x6: int) requires abs(32768 * r - (32768 * x0 - 17734 * x2 - 32768 * x4 + 42813 * x6)) <= 32768 ensures simd_even(2, r, x0, x2, x4, x6) { lemma_basis(); }
pub proof fn so2(r: int, x1: int, x3: int, x5: int, x7: int) requires abs(32768 * r - (25746 * x1 - 45451 * x3 + 9041 * x5 + 38531 * x7)) <= 65536 ensures simd_odd(2, r, x1, x3, x5, x7) { lemma_basis(); }
pub proof fn se3(r: int, x0: int, x2: int, x4: int, x6: int) requires abs(32768 * r - (32768 * x0 - 42813 * x2 + 32768 * x4 - 17734 * x6)) <= 32768 ensures simd_even(3, r, x0, x2, x4, x6) { lemma_basis(); }
pub proof fn so3(r: int, x1: int, x3: int, x5: int, x7: int) requires abs(32768 * r - (9041 * x1 - 25746 * x3 + 38531 * x5 - 45450 * x7)) <= 65536 ensures simd_odd(3, r, x1, x3, x5, x7) { lemma_basis(); }
pub proof fn simd_join(n: int, x: int, t: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires 0 <= n < 4, simd_even(n, x, a, c, e, g), simd_odd(n, t, b, d, f, h)
    ensures simd_lin(n, x + t, a, b, c, d, e, f, g, h), simd_lin(7 - n, x - t, a, b, c, d, e, f, g, h)
{
    hide(dct8);
    lemma_basis();
    let ev = dct8(n, 0) * a + dct8(n, 2) * c + dct8(n, 4) * e + dct8(n, 6) * g;
    let od = dct8(n, 1) * b + dct8(n, 3) * d + dct8(n, 5) * f + dct8(n, 7) * h;
    assert(idct8(n, a, b, c, d, e, f, g, h) == ev + od);
    assert(dct8(7 - n, 1) * b == -(dct8(n, 1) * b)) by (nonlinear_arith) requires dct8(7 - n, 1) == -dct8(n, 1);
    assert(dct8(7 - n, 3) * d == -(dct8(n, 3) * d)) by (nonlinear_arith) requires dct8(7 - n, 3) == -dct8(n, 3);
    assert(dct8(7 - n, 5) * f == -(dct8(n, 5) * f)) by (nonlinear_arith) requires dct8(7 - n, 5) == -dct8(n, 5);
    assert(dct8(7 - n, 7) * h == -(dct8(n, 7) * h)) by (nonlinear_arith) requires dct8(7 - n, 7) == -dct8(n, 7);
    assert(idct8(7 - n, a, b, c, d, e, f, g, h) == ev - od);
}
pub proof fn abs_box(x: int) ensures -abs(x) <= x <= abs(x), abs(x) >= 0 { }
pub proof fn hrs_is(a: int, c: int) requires -32768 < c < 32768 ensures a * c - 16384 <= 32768 * hrs(a, c) <= a * c + 16384 { }
pub proof fn ev_is(n: int, x0: int, x2: int, x4: int, x6: int) requires 0 <= n < 4, abs(x0) + abs(x2) + abs(x4) + abs(x6) <= 9600
    ensures simd_even(n, ev(n, x0, x2, x4, x6), x0, x2, x4, x6), abs(ev(n, x0, x2, x4, x6)) <= 14000
{
    hide(simd_even);
    let p1 = hrs(sadd(x2, x6), 17734); hrs_is(x2 + x6, 17734); hrs_is(x6, 27779); hrs_is(x2, 25079);
    assert(sadd(x2, x6) == x2 + x6);
    assert(sadd(x0, x4) == x0 + x4 && ssub(x0, x4) == x0 - x4);
    assert(abs(32768 * p1 - 17734 * x2 - 17734 * x6) <= 16384);
    assert(ev_t3(x2, x6) == p1 + hrs(x2, 25079));
    assert(ev_t2(x2, x6) == p1 - x6 - hrs(x6, 27779));
    if n == 0 { se0(ev(0, x0, x2, x4, x6), x0, x2, x4, x6); } else if n == 1 { se1(ev(1, x0, x2, x4, x6), x0, x2, x4, x6); } else if n == 2 { se2(ev(2, x0, x2, x4, x6), x0, x2, x4, x6); } else { se3(ev(3, x0, x2, x4, x6), x0, x2, x4, x6); }
}
/// saturation does not happen for small values
pub proof fn sadd_is(a: int, b: int) requires -32768 <= a + b <= 32767 ensures sadd(a, b) == a + b { }
pub proof fn ssub_is(a: int, b: int) requires -32768 <= a - b <= 32767 ensures ssub(a, b) == a - b { }
/// the sums of the odd half, rounding errors apart
pub open spec fn od_parts(x1: int, x3: int, x5: int, x7: int, p1: int, p2: int, p3: int, p4: int) -> bool {
    &&& -32768 <= 32768 * p1 - (9041 * x1 + 38531 * x3 + 38531 * x5 + 9041 * x7) <= 32768
    &&& -32768 <= 32768 * p2 - (38531 * x1 - 45451 * x3 - 45451 * x5 + 38531 * x7) <= 32768
    &&& -16384 <= 32768 * p3 + 64277 * x3 + 64277 * x7 <= 16384
    &&& -16384 <= 32768 * p4 + 12785 * x1 + 12785 * x5 <= 16384
}
pub proof fn od_sums(x1: int, x3: int, x5: int, x7: int) requires abs(x1) + abs(x3) + abs(x5) + abs(x7) <= 9600
    ensures od_parts(x1, x3, x5, x7, od_p1(x1, x3, x5, x7), od_p2(x1, x3, x5, x7), od_p3(x3, x7), od_p4(x1, x5))
{
    hide(sadd); hide(ssub); hide(hrs); hide(abs);
    let p = x1 + x3 + x5 + x7;
    let A = abs(x1); let B = abs(x3); let C = abs(x5); let D = abs(x7); abs_box(x1); abs_box(x3); abs_box(x5); abs_box(x7);
    let (h5, h1, h2, h3, h4) = (hrs(p, 5763), hrs(x7 + x1, 29490), hrs(x5 + x3, 18446), hrs(x7 + x3, -31509), hrs(x5 + x1, -12785));
    hrs_is(p, 5763); hrs_is(x7 + x1, 29490); hrs_is(x5 + x3, 18446); hrs_is(x7 + x3, -31509); hrs_is(x5 + x1, -12785);
    sadd_is(x7, x3); sadd_is(x5, x1); sadd_is(x7, x1); sadd_is(x5, x3); sadd_is(x7 + x3, x5 + x1); sadd_is(p, h5);
    assert((x7 + x3) + (x5 + x1) == p);
    let p5 = p + h5;
    assert(od_p5(x1, x3, x5, x7) == p5);
    assert(-16384 <= 32768 * p5 - 38531 * p <= 16384);
    ssub_is(p5, h1); ssub_is(p5, x5 + x3); ssub_is(p5 - (x5 + x3), x5 + x3); 
    assert(-16384 <= 32768 * (p5 - 2 * (x5 + x3)) - (38531 * x1 - 27005 * x3 - 27005 * x5 + 38531 * x7) <= 16384);
    ssub_is(p5 - (x5 + x3) - (x5 + x3), h2); ssub_is(h3, x7 + x3);
}
pub proof fn od_is(n: int, x1: int, x3: int, x5: int, x7: int) requires 0 <= n < 4, abs(x1) + abs(x3) + abs(x5) + abs(x7) <= 9600
    ensures simd_odd(n, od(n, x1, x3, x5, x7), x1, x3, x5, x7), abs(od(n, x1, x3, x5, x7)) <= 14000
{
    hide(simd_odd); hide(hrs); hide(sadd); hide(od_p1); hide(od_p2); hide(od_p3); hide(od_p4);
    od_sums(x1, x3, x5, x7);
    let A = abs(x1); let B = abs(x3); let C = abs(x5); let D = abs(x7);
    assert(-A <= x1 <= A && -B <= x3 <= B && -C <= x5 <= C && -D <= x7 <= D && A + B + C + D <= 9600);
    let p1 = od_p1(x1, x3, x5, x7); let p2 = od_p2(x1, x3, x5, x7); let p3 = od_p3(x3, x7); let p4 = od_p4(x1, x5);
    let r = od(n, x1, x3, x5, x7);
    if n == 0 {
        hrs_is(x1, 16427); sadd_is(x1, hrs(x1, 16427)); sadd_is(p1, p4); sadd_is(p1 + p4, x1 + hrs(x1, 16427)); so0(r, x1, x3, x5, x7);
    } else if n == 1 {
        hrs_is(x3, 2383); sadd_is(x3, x3); sadd_is(x3, x3 + x3); sadd_is(x3 + (x3 + x3), hrs(x3, 2383)); sadd_is(p2, p3); sadd_is(p2 + p3, x3 + (x3 + x3) + hrs(x3, 2383)); so1(r, x1, x3, x5, x7);
    } else if n == 2 {
        hrs_is(x5, 1741); sadd_is(x5, x5); sadd_is(x5 + x5, hrs(x5, 1741)); sadd_is(p2, p4); sadd_is(p2 + p4, x5 + x5 + hrs(x5, 1741)); so2(r, x1, x3, x5, x7);
    } else {
        hrs_is(x7, 9786); sadd_is(p1, p3); sadd_is(p1 + p3, hrs(x7, 9786)); so3(r, x1, x3, x5, x7);
    }
}
/// what one lane computes
pub proof fn lane_ok(n: int, x0: int, x1: int, x2: int, x3: int, x4: int, x5: int, x6: int, x7: int) requires 0 <= n < 8, sum8(x0, x1, x2, x3, x4, x5, x6, x7) <= 9600
    ensures simd_lin(n, lane(n, x0, x1, x2, x3, x4, x5, x6, x7), x0, x1, x2, x3, x4, x5, x6, x7)
{
    hide(ev); hide(od); hide(simd_lin); hide(simd_even); hide(simd_odd);
    let m = if n < 4 { n } else { 7 - n };
    ev_is(m, x0, x2, x4, x6); od_is(m, x1, x3, x5, x7);
    simd_join(m, ev(m, x0, x2, x4, x6), od(m, x1, x3, x5, x7), x0, x1, x2, x3, x4, x5, x6, x7);
}
// ---- the lanes of the registers
pub open spec fn lanes(d: Seq<__m128i>, k: int, n: int) -> int { lane(n, d[0].l(k), d[1].l(k), d[2].l(k), d[3].l(k), d[4].l(k), d[5].l(k), d[6].l(k), d[7].l(k)) }
pub open spec fn lanesum(d: Seq<__m128i>, k: int) -> int { sum8(d[0].l(k), d[1].l(k), d[2].l(k), d[3].l(k), d[4].l(k), d[5].l(k), d[6].l(k), d[7].l(k)) }
//@fn src/arch/ssse3.rs idct8
//@sub `unsafe fn idct8` => `fn simd_idct8`
fn simd_idct8(data: &mut[__m128i; 8]) /*@ ensures forall|n: int, k: int| 0 <= n < 8 && 0 <= k < 8 ==> #[trigger] final(data)@[n].l(k) == lanes(old(data)@, k, n) @*/ {
    /*@ hide(hrs); hide(sadd); hide(ssub); let ghost d0 = data@; @*/

    let p2 = data[2];
    let p3 = data[6];
    let p1 = _mm_mulhrs_epi16(_mm_adds_epi16(p2, p3), _mm_set1_epi16(17734));
    let t2 = _mm_subs_epi16(_mm_subs_epi16(p1, p3), _mm_mulhrs_epi16(p3, _mm_set1_epi16(27779)),);
    let t3 = _mm_adds_epi16(p1, _mm_mulhrs_epi16(p2, _mm_set1_epi16(25079)));
    let p2 = data[0];
    let p3 = data[4];
    let t0 = _mm_adds_epi16(p2, p3);
    let t1 = _mm_subs_epi16(p2, p3);
    let x0 = _mm_adds_epi16(t0, t3);
    let x3 = _mm_subs_epi16(t0, t3);
    let x1 = _mm_adds_epi16(t1, t2);
    let x2 = _mm_subs_epi16(t1, t2);
    let t0 = data[7];
    let t1 = data[5];
    let t2 = data[3];
    let t3 = data[1];
    let p3 = _mm_adds_epi16(t0, t2);
    let p4 = _mm_adds_epi16(t1, t3);
    let p1 = _mm_adds_epi16(t0, t3);
    let p2 = _mm_adds_epi16(t1, t2);
    let p5 = _mm_adds_epi16(p3, p4);
    let p5 = _mm_adds_epi16(p5, _mm_mulhrs_epi16(p5, _mm_set1_epi16(5763)));
    let t0 = _mm_mulhrs_epi16(t0, _mm_set1_epi16(9786));
    let t1 = _mm_adds_epi16(_mm_adds_epi16(t1, t1), _mm_mulhrs_epi16(t1, _mm_set1_epi16(1741)),);
    let t2 = _mm_adds_epi16(_mm_adds_epi16(t2, _mm_adds_epi16(t2, t2)), _mm_mulhrs_epi16(t2, _mm_set1_epi16(2383)),);
    let t3 = _mm_adds_epi16(t3, _mm_mulhrs_epi16(t3, _mm_set1_epi16(16427)));
    let p1 = _mm_subs_epi16(p5, _mm_mulhrs_epi16(p1, _mm_set1_epi16(29490)));
    let p2 = _mm_subs_epi16(_mm_subs_epi16(_mm_subs_epi16(p5, p2), p2), _mm_mulhrs_epi16(p2, _mm_set1_epi16(18446)),);
    let p3 = _mm_subs_epi16(_mm_mulhrs_epi16(p3, _mm_set1_epi16(- 31509)), p3,);
    let p4 = _mm_mulhrs_epi16(p4, _mm_set1_epi16(- 12785));
    let t3 = _mm_adds_epi16(_mm_adds_epi16(p1, p4), t3);
    let t2 = _mm_adds_epi16(_mm_adds_epi16(p2, p3), t2);
    let t1 = _mm_adds_epi16(_mm_adds_epi16(p2, p4), t1);
    let t0 = _mm_adds_epi16(_mm_adds_epi16(p1, p3), t0);
    data[0] = _mm_adds_epi16(x0, t3);
    data[7] = _mm_subs_epi16(x0, t3);
    data[1] = _mm_adds_epi16(x1, t2);
    data[6] = _mm_subs_epi16(x1, t2);
    data[2] = _mm_adds_epi16(x2, t1);
    data[5] = _mm_subs_epi16(x2, t1);
    data[3] = _mm_adds_epi16(x3, t0);
    data[4] = _mm_subs_epi16(x3, t0);
    /*@ proof { assert forall|n: int, k: int| 0 <= n < 8 && 0 <= k < 8 implies #[trigger] data@[n].l(k) == lanes(d0, k, n) by {
        if n == 0 {} else if n == 1 {} else if n == 2 {} else if n == 3 {} else if n == 4 {} else if n == 5 {} else if n == 6 {} else {} } } @*/
}
//@end
//@fn src/arch/ssse3.rs transpose8
//@sub `unsafe fn` => `fn`
fn transpose8(data: &mut[__m128i; 8]) /*@ ensures forall|n: int, k: int| 0 <= n < 8 && 0 <= k < 8 ==> #[trigger] final(data)@[n].l(k) == old(data)@[k].l(n) @*/ {
    /*@ let ghost d0 = data@; @*/

    let d01l = _mm_unpacklo_epi16(data[0], data[1]);
    let d23l = _mm_unpacklo_epi16(data[2], data[3]);
    let d45l = _mm_unpacklo_epi16(data[4], data[5]);
    let d67l = _mm_unpacklo_epi16(data[6], data[7]);
    let d01h = _mm_unpackhi_epi16(data[0], data[1]);
    let d23h = _mm_unpackhi_epi16(data[2], data[3]);
    let d45h = _mm_unpackhi_epi16(data[4], data[5]);
    let d67h = _mm_unpackhi_epi16(data[6], data[7]);
    let d0123ll = _mm_unpacklo_epi32(d01l, d23l);
    let d0123lh = _mm_unpackhi_epi32(d01l, d23l);
    let d4567ll = _mm_unpacklo_epi32(d45l, d67l);
    let d4567lh = _mm_unpackhi_epi32(d45l, d67l);
    let d0123hl = _mm_unpacklo_epi32(d01h, d23h);
    let d0123hh = _mm_unpackhi_epi32(d01h, d23h);
    let d4567hl = _mm_unpacklo_epi32(d45h, d67h);
    let d4567hh = _mm_unpackhi_epi32(d45h, d67h);
    data[0] = _mm_unpacklo_epi64(d0123ll, d4567ll);
    data[1] = _mm_unpackhi_epi64(d0123ll, d4567ll);
    data[2] = _mm_unpacklo_epi64(d0123lh, d4567lh);
    data[3] = _mm_unpackhi_epi64(d0123lh, d4567lh);
    data[4] = _mm_unpacklo_epi64(d0123hl, d4567hl);
    data[5] = _mm_unpackhi_epi64(d0123hl, d4567hl);
    data[6] = _mm_unpacklo_epi64(d0123hh, d4567hh);
    data[7] = _mm_unpackhi_epi64(d0123hh, d4567hh);
    /*@ proof { assert forall|n: int, k: int| 0 <= n < 8 && 0 <= k < 8 implies #[trigger] data@[n].l(k) == d0[k].l(n) by {
        if n == 0 {} else if n == 1 {} else if n == 2 {} else if n == 3 {} else if n == 4 {} else if n == 5 {} else if n == 6 {} else {}
        if k == 0 {} else if k == 1 {} else if k == 2 {} else if k == 3 {} else if k == 4 {} else if k == 5 {} else if k == 6 {} else {} } } @*/
}
//@end
// ---- the block
pub open spec fn stmp_ok(t: int, l: int, s: int) -> bool { abs(327680000000 * t - 262144 * l) <= 41680000 * s + 983040000000 }
pub proof fn eight_times(n: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    ensures idct8(n, 8 * a, 8 * b, 8 * c, 8 * d, 8 * e, 8 * f, 8 * g, 8 * h) == 8 * idct8(n, a, b, c, d, e, f, g, h), sum8(8 * a, 8 * b, 8 * c, 8 * d, 8 * e, 8 * f, 8 * g, 8 * h) == 8 * sum8(a, b, c, d, e, f, g, h)
{
    hide(dct8);
    times8(dct8(n, 0), a); times8(dct8(n, 1), b); times8(dct8(n, 2), c); times8(dct8(n, 3), d); times8(dct8(n, 4), e); times8(dct8(n, 5), f); times8(dct8(n, 6), g); times8(dct8(n, 7), h);
}
pub proof fn times8(d: int, x: int) ensures d * (8 * x) == 8 * (d * x) { assert(d * (8 * x) == 8 * (d * x)) by (nonlinear_arith); }
pub open spec fn loaded(d: Seq<__m128i>, c: Seq<i16>, q: Seq<u16>) -> bool { forall|j: int, k: int| 0 <= j < 8 && 0 <= k < 8 ==> #[trigger] d[j].l(k) == 8 * deq(c, q, 8 * j + k) }
pub proof fn pass_close(n: int, r: int, x0: int, x1: int, x2: int, x3: int, x4: int, x5: int, x6: int, x7: int, l: int, s: int) requires simd_lin(n, r, x0, x1, x2, x3, x4, x5, x6, x7), idct8(n, x0, x1, x2, x3, x4, x5, x6, x7) == 8 * l, sum8(x0, x1, x2, x3, x4, x5, x6, x7) == 8 * s, abs(l) <= 13870398 * s, s >= 0
    ensures stmp_ok(r, l, s), 327680000000 * abs(r) <= 3636083293312 * s + 983040000000
{ hide(idct8); hide(sum8); }
/// the first pass
pub proof fn first_pass(d: Seq<__m128i>, c: Seq<i16>, q: Seq<u16>, n: int, k: int)
    requires loaded(d, c, q), total(c, q) <= 800, 0 <= n < 8, 0 <= k < 8
    ensures stmp_ok(lanes(d, k, n), col8(c, q, n, k), colsum(c, q, k)), abs(col8(c, q, n, k)) <= 13870398 * colsum(c, q, k), colsum(c, q, k) >= 0, 327680000000 * abs(lanes(d, k, n)) <= 3636083293312 * colsum(c, q, k) + 983040000000
{
    hide(idct8); hide(lane); hide(deq); hide(total); hide(sum8); hide(simd_lin); hide(abs); hide(stmp_ok);
    lemma_col_small(c, q, k); colsum_pos(c, q, k);
    assert(d[0].l(k) == 8 * deq(c, q, k) && d[1].l(k) == 8 * deq(c, q, 8 + k) && d[2].l(k) == 8 * deq(c, q, 16 + k) && d[3].l(k) == 8 * deq(c, q, 24 + k) && d[4].l(k) == 8 * deq(c, q, 32 + k) && d[5].l(k) == 8 * deq(c, q, 40 + k) && d[6].l(k) == 8 * deq(c, q, 48 + k) && d[7].l(k) == 8 * deq(c, q, 56 + k));
    eight_times(n, deq(c, q, k), deq(c, q, 8 + k), deq(c, q, 16 + k), deq(c, q, 24 + k), deq(c, q, 32 + k), deq(c, q, 40 + k), deq(c, q, 48 + k), deq(c, q, 56 + k));
    assert(lanesum(d, k) == 8 * colsum(c, q, k));
    lane_ok(n, d[0].l(k), d[1].l(k), d[2].l(k), d[3].l(k), d[4].l(k), d[5].l(k), d[6].l(k), d[7].l(k));
    lemma_size(n, deq(c, q, k), deq(c, q, 8 + k), deq(c, q, 16 + k), deq(c, q, 24 + k), deq(c, q, 32 + k), deq(c, q, 40 + k), deq(c, q, 48 + k), deq(c, q, 56 + k));
    let r = lanes(d, k, n);
    pass_close(n, r, d[0].l(k), d[1].l(k), d[2].l(k), d[3].l(k), d[4].l(k), d[5].l(k), d[6].l(k), d[7].l(k), col8(c, q, n, k), colsum(c, q, k));
}
pub proof fn simd_scale(d: int, t: int, l: int, e: int, s: int)
    requires 327680000000 * t == 262144 * l + e, abs(e) <= 41680000 * s + 983040000000, abs(d) <= 13870398, s >= 0
    ensures 327680000000 * (d * t) == 262144 * (d * l) + d * e, abs(d * e) <= 13870398 * (41680000 * s) + abs(d) * 983040000000
{
    assert(327680000000 * (d * t) == d * (327680000000 * t)) by (nonlinear_arith);
    assert(d * (262144 * l + e) == 262144 * (d * l) + d * e) by (nonlinear_arith);
    assert(abs(d * e) <= abs(d) * abs(e)) by (nonlinear_arith);
    assert(abs(d) * abs(e) <= abs(d) * (41680000 * s + 983040000000)) by (nonlinear_arith) requires abs(e) <= 41680000 * s + 983040000000;
    assert(abs(d) * (41680000 * s + 983040000000) == abs(d) * (41680000 * s) + abs(d) * 983040000000) by (nonlinear_arith);
    assert(abs(d) * (41680000 * s) <= 13870398 * (41680000 * s)) by (nonlinear_arith) requires abs(d) <= 13870398, s >= 0;
}
pub proof fn stmp_is(t: int, l: int, s: int) requires stmp_ok(t, l, s) ensures abs(327680000000 * t - 262144 * l) <= 41680000 * s + 983040000000 { }
/// the transform of approximate values
pub proof fn simd_weighted(d0: int, d1: int, d2: int, d3: int, d4: int, d5: int, d6: int, d7: int, t0: int, t1: int, t2: int, t3: int, t4: int, t5: int, t6: int, t7: int, l0: int, l1: int, l2: int, l3: int, l4: int, l5: int, l6: int, l7: int, s0: int, s1: int, s2: int, s3: int, s4: int, s5: int, s6: int, s7: int)
    requires stmp_ok(t0, l0, s0) && s0 >= 0, stmp_ok(t1, l1, s1) && s1 >= 0, stmp_ok(t2, l2, s2) && s2 >= 0, stmp_ok(t3, l3, s3) && s3 >= 0, stmp_ok(t4, l4, s4) && s4 >= 0, stmp_ok(t5, l5, s5) && s5 >= 0, stmp_ok(t6, l6, s6) && s6 >= 0, stmp_ok(t7, l7, s7) && s7 >= 0, abs(d0) <= 13870398, abs(d1) <= 13870398, abs(d2) <= 13870398, abs(d3) <= 13870398, abs(d4) <= 13870398, abs(d5) <= 13870398, abs(d6) <= 13870398, abs(d7) <= 13870398, abs(d0) + abs(d1) + abs(d2) + abs(d3) + abs(d4) + abs(d5) + abs(d6) + abs(d7) <= 75000000
    ensures ({ let x = d0 * t0 + d1 * t1 + d2 * t2 + d3 * t3 + d4 * t4 + d5 * t5 + d6 * t6 + d7 * t7; let y = d0 * l0 + d1 * l1 + d2 * l2 + d3 * l3 + d4 * l4 + d5 * l5 + d6 * l6 + d7 * l7; abs(327680000000 * x - 262144 * y) <= 13870398 * (41680000 * (s0 + s1 + s2 + s3 + s4 + s5 + s6 + s7)) + 983040000000 * 75000000 })
{
    hide(stmp_ok); hide(abs);
    stmp_is(t0, l0, s0); simd_scale(d0, t0, l0, 327680000000 * t0 - 262144 * l0, s0);
    stmp_is(t1, l1, s1); simd_scale(d1, t1, l1, 327680000000 * t1 - 262144 * l1, s1);
    stmp_is(t2, l2, s2); simd_scale(d2, t2, l2, 327680000000 * t2 - 262144 * l2, s2);
    stmp_is(t3, l3, s3); simd_scale(d3, t3, l3, 327680000000 * t3 - 262144 * l3, s3);
    stmp_is(t4, l4, s4); simd_scale(d4, t4, l4, 327680000000 * t4 - 262144 * l4, s4);
    stmp_is(t5, l5, s5); simd_scale(d5, t5, l5, 327680000000 * t5 - 262144 * l5, s5);
    stmp_is(t6, l6, s6); simd_scale(d6, t6, l6, 327680000000 * t6 - 262144 * l6, s6);
    stmp_is(t7, l7, s7); simd_scale(d7, t7, l7, 327680000000 * t7 - 262144 * l7, s7);
    sum_abs(d0 * (327680000000 * t0 - 262144 * l0), d1 * (327680000000 * t1 - 262144 * l1), d2 * (327680000000 * t2 - 262144 * l2), d3 * (327680000000 * t3 - 262144 * l3), d4 * (327680000000 * t4 - 262144 * l4), d5 * (327680000000 * t5 - 262144 * l5), d6 * (327680000000 * t6 - 262144 * l6), d7 * (327680000000 * t7 - 262144 * l7));
}
/// the second pass
pub proof fn second_pass(m: int, r: int, v: int, t0: int, t1: int, t2: int, t3: int, t4: int, t5: int, t6: int, t7: int, l0: int, l1: int, l2: int, l3: int, l4: int, l5: int, l6: int, l7: int, s0: int, s1: int, s2: int, s3: int, s4: int, s5: int, s6: int, s7: int, s: int)
    requires 0 <= m < 8, simd_lin(m, r, t0, t1, t2, t3, t4, t5, t6, t7), 64 * v <= r + 8224 < 64 * (v + 1),
        stmp_ok(t0, l0, s0) && s0 >= 0, stmp_ok(t1, l1, s1) && s1 >= 0, stmp_ok(t2, l2, s2) && s2 >= 0, stmp_ok(t3, l3, s3) && s3 >= 0, stmp_ok(t4, l4, s4) && s4 >= 0, stmp_ok(t5, l5, s5) && s5 >= 0, stmp_ok(t6, l6, s6) && s6 >= 0, stmp_ok(t7, l7, s7) && s7 >= 0,
        327680000000 * abs(t0) <= 3636083293312 * s0 + 983040000000, 327680000000 * abs(t1) <= 3636083293312 * s1 + 983040000000, 327680000000 * abs(t2) <= 3636083293312 * s2 + 983040000000, 327680000000 * abs(t3) <= 3636083293312 * s3 + 983040000000, 327680000000 * abs(t4) <= 3636083293312 * s4 + 983040000000, 327680000000 * abs(t5) <= 3636083293312 * s5 + 983040000000, 327680000000 * abs(t6) <= 3636083293312 * s6 + 983040000000, 327680000000 * abs(t7) <= 3636083293312 * s7 + 983040000000, s == s0 + s1 + s2 + s3 + s4 + s5 + s6 + s7, s <= 800
    ensures abs(800000000000000 * (v - 128) - idct8(m, l0, l1, l2, l3, l4, l5, l6, l7)) <= 800000000000000, -13000 <= r <= 13000
{
    hide(dct8); hide(stmp_ok);
    lemma_rowsum(m); basis_row(m, 0); basis_row(m, 1); basis_row(m, 2); basis_row(m, 3); basis_row(m, 4); basis_row(m, 5); basis_row(m, 6); basis_row(m, 7);
    simd_weighted(dct8(m, 0), dct8(m, 1), dct8(m, 2), dct8(m, 3), dct8(m, 4), dct8(m, 5), dct8(m, 6), dct8(m, 7), t0, t1, t2, t3, t4, t5, t6, t7, l0, l1, l2, l3, l4, l5, l6, l7, s0, s1, s2, s3, s4, s5, s6, s7);
    lemma_size(m, t0, t1, t2, t3, t4, t5, t6, t7);
    let x = idct8(m, t0, t1, t2, t3, t4, t5, t6, t7); let y = idct8(m, l0, l1, l2, l3, l4, l5, l6, l7); let st = sum8(t0, t1, t2, t3, t4, t5, t6, t7);
    assert(327680000000 * st <= 3636083293312 * s + 8 * 983040000000);
    pass_final(r, v, s, st, x, y, 327680000000 * x - 262144 * y);
}
pub proof fn pass_final(r: int, v: int, s: int, st: int, x: int, y: int, z: int)
    requires 64 * v <= r + 8224 < 64 * (v + 1), 327680000000 * x == 262144 * y + z, abs(z) <= 13870398 * (41680000 * s) + 983040000000 * 75000000, 327680000000 * st <= 3636083293312 * s + 8 * 983040000000, abs(327680000000 * r - 32768 * x) <= 5210000 * st + 983040000000, 0 <= s <= 800, abs(x) <= 13870398 * st
    ensures abs(800000000000000 * (v - 128) - y) <= 800000000000000, -13000 <= r <= 13000
{ }
pub open spec fn sample(d: Seq<__m128i>, n: int, m: int) -> int { lane(m, lanes(d, 0, n), lanes(d, 1, n), lanes(d, 2, n), lanes(d, 3, n), lanes(d, 4, n), lanes(d, 5, n), lanes(d, 6, n), lanes(d, 7, n)) }
pub proof fn sample_ok(d: Seq<__m128i>, c: Seq<i16>, q: Seq<u16>, n: int, m: int) requires loaded(d, c, q), total(c, q) <= 800, 0 <= n < 8, 0 <= m < 8
    ensures -13000 <= sample(d, n, m) <= 13000, ({ let v = (sample(d, n, m) + 8224) / 64; abs(800000000000000 * (v - 128) - exact8(c, q, n, m)) <= 800000000000000 })
{
    hide(lanes); hide(lane); hide(idct8); hide(stmp_ok); hide(simd_lin); hide(colsum); hide(col8); hide(abs);
    first_pass(d, c, q, n, 0); first_pass(d, c, q, n, 1); first_pass(d, c, q, n, 2); first_pass(d, c, q, n, 3); first_pass(d, c, q, n, 4); first_pass(d, c, q, n, 5); first_pass(d, c, q, n, 6); first_pass(d, c, q, n, 7);
    nine_six(lanes(d, 0, n), lanes(d, 1, n), lanes(d, 2, n), lanes(d, 3, n), lanes(d, 4, n), lanes(d, 5, n), lanes(d, 6, n), lanes(d, 7, n), colsum(c, q, 0), colsum(c, q, 1), colsum(c, q, 2), colsum(c, q, 3), colsum(c, q, 4), colsum(c, q, 5), colsum(c, q, 6), colsum(c, q, 7));
    let r = sample(d, n, m);
    lane_ok(m, lanes(d, 0, n), lanes(d, 1, n), lanes(d, 2, n), lanes(d, 3, n), lanes(d, 4, n), lanes(d, 5, n), lanes(d, 6, n), lanes(d, 7, n));
    second_pass(m, r, (r + 8224) / 64, lanes(d, 0, n), lanes(d, 1, n), lanes(d, 2, n), lanes(d, 3, n), lanes(d, 4, n), lanes(d, 5, n), lanes(d, 6, n), lanes(d, 7, n), col8(c, q, n, 0), col8(c, q, n, 1), col8(c, q, n, 2), col8(c, q, n, 3), col8(c, q, n, 4), col8(c, q, n, 5), col8(c, q, n, 6), col8(c, q, n, 7), colsum(c, q, 0), colsum(c, q, 1), colsum(c, q, 2), colsum(c, q, 3), colsum(c, q, 4), colsum(c, q, 5), colsum(c, q, 6), colsum(c, q, 7), total(c, q));
}
pub proof fn nine_six(t0: int, t1: int, t2: int, t3: int, t4: int, t5: int, t6: int, t7: int, s0: int, s1: int, s2: int, s3: int, s4: int, s5: int, s6: int, s7: int)
    requires 327680000000 * abs(t0) <= 3636083293312 * s0 + 983040000000, 327680000000 * abs(t1) <= 3636083293312 * s1 + 983040000000, 327680000000 * abs(t2) <= 3636083293312 * s2 + 983040000000, 327680000000 * abs(t3) <= 3636083293312 * s3 + 983040000000, 327680000000 * abs(t4) <= 3636083293312 * s4 + 983040000000, 327680000000 * abs(t5) <= 3636083293312 * s5 + 983040000000, 327680000000 * abs(t6) <= 3636083293312 * s6 + 983040000000, 327680000000 * abs(t7) <= 3636083293312 * s7 + 983040000000, s0 + s1 + s2 + s3 + s4 + s5 + s6 + s7 <= 800
    ensures sum8(t0, t1, t2, t3, t4, t5, t6, t7) <= 9600
{ }
// ---- storing
pub proof fn shifts() ensures 128i16 << 6 == 8192i16, (1i16 << 6) >> 1 == 32i16, two(3) == 8, two(6) == 64
{ assert(128i16 << 6 == 8192i16) by (bit_vector); assert((1i16 << 6) >> 1 == 32i16) by (bit_vector); reveal_with_fuel(two, 8); }
/// dequantized and scaled up
pub proof fn deq_fits(c: int, q: int) requires -32768 <= c < 32768, 0 <= q < 65536
    ensures -800 <= c * q <= 800 ==> s16((s16((c * s16(q)) % 65536) * 8) % 65536) == 8 * (c * q)
{
    if -800 <= c * q <= 800 {
        if c == 0 { assert(c * s16(q) == 0) by (nonlinear_arith) requires c == 0; assert(c * q == 0) by (nonlinear_arith) requires c == 0; }
        else { assert(q <= 800) by (nonlinear_arith) requires c != 0, -800 <= c * q <= 800, q >= 0; assert(s16(q) == q); }
    }
}
pub proof fn deq_small(c: Seq<i16>, q: Seq<u16>, j: int, k: int) requires 0 <= j < 8, 0 <= k < 8, total(c, q) <= 800 ensures abs(deq(c, q, 8 * j + k)) <= 800
{ colsum_pos(c, q, k); lemma_col_small(c, q, k); if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else {} }
/// the rows stored so far
pub open spec fn rows_stored(o0: Seq<u8>, o: Seq<u8>, c: Seq<i16>, q: Seq<u16>, stride: int, n: int) -> bool {
    &&& o.len() == o0.len()
    &&& forall|j: int| 0 <= j < o.len() && !(j / stride < n && j % stride < 8) ==> #[trigger] o[j] == o0[j]
    &&& total(c, q) <= 800 ==> forall|p: int, m: int| 0 <= p < n && 0 <= m < 8 ==> px_simd(#[trigger] o[p * stride + m], exact8(c, q, p, m))
}
pub proof fn row_stored(o0: Seq<u8>, o1: Seq<u8>, o: Seq<u8>, b: Seq<u8>, c: Seq<i16>, q: Seq<u16>, stride: int, n: int)
    requires 0 <= n < 8, stride >= 8, rows_stored(o0, o1, c, q, stride, n), stride * n + 8 <= o0.len(), o.len() == o1.len(), b.len() == 16,
        forall|j: int| 0 <= j < o.len() ==> #[trigger] o[j] == (if stride * n <= j < stride * n + 8 { b[j - stride * n] } else { o1[j] }),
        total(c, q) <= 800 ==> forall|m: int| 0 <= m < 8 ==> px_simd(#[trigger] b[m], exact8(c, q, n, m)),
    ensures rows_stored(o0, o, c, q, stride, n + 1)
{
    hide(px_simd); hide(exact8); hide(total);
    assert(stride * n == n * stride && n * stride >= 0) by (nonlinear_arith) requires n >= 0, stride >= 8;
    assert forall|j: int| 0 <= j < o.len() && !(j / stride < n + 1 && j % stride < 8) implies #[trigger] o[j] == o0[j] by {
        if n * stride <= j < n * stride + 8 {
            assert(j / stride == n && j % stride == j - n * stride) by (nonlinear_arith) requires n * stride <= j < n * stride + stride, stride >= 8, n >= 0;
        } else { assert(o1[j] == o0[j]); }
    }
    if total(c, q) <= 800 {
        assert forall|p: int, m: int| 0 <= p < n + 1 && 0 <= m < 8 implies px_simd(#[trigger] o[p * stride + m], exact8(c, q, p, m)) by {
            if p < n {
                assert(p * stride + stride <= n * stride && p * stride >= 0) by (nonlinear_arith) requires 0 <= p < n, stride >= 8;
                assert(o[p * stride + m] == o1[p * stride + m]);
            } else { assert(o[p * stride + m] == b[m]); }
        }
    }
}
pub proof fn all_stored(o0: Seq<u8>, o: Seq<u8>, c: Seq<i16>, q: Seq<u16>, stride: int) requires rows_stored(o0, o, c, q, stride, 8)
    ensures outside(o0, o, stride, 8), simd_block(c, q, cut(o, 0, stride, 8))
{
    hide(px_simd); hide(exact8); hide(total);
    if total(c, q) <= 800 {
        assert forall|n: int, m: int| 0 <= n < 8 && 0 <= m < 8 implies px_simd(#[trigger] cut(o, 0, stride, 8)[n * 8 + m], exact8(c, q, n, m)) by {
            cut_at(o, stride, 8, n, m); assert(px_simd(o[n * stride + m], exact8(c, q, n, m)));
        }
    }
}
pub proof fn stored_px(out: u8, r: int, x: int) requires out == clampi((r + 8224) / 64), ({ let v = (r + 8224) / 64; abs(800000000000000 * (v - 128) - x) <= 800000000000000 }) ensures px_simd(out, x) { }
//@fn src/arch/ssse3.rs dequantize_and_idct_block_8x8
//@sub `unsafe fn` => `fn`
//@sub `assert ! ( $$e ) ;` => `guard ( $$e ) ;`
//@sub `$x . checked_mul ( $$a ) . unwrap ( ) . checked_add ( $$b ) . unwrap ( )` => `guard_some ( guard_some ( $x . checked_mul ( $$a ) ) . checked_add ( $$b ) )`
//@sub `use std :: arch :: x86 :: * ;` => ``
//@sub `use std :: arch :: x86_64 :: * ;` => ``
//@sub `const $n : $t = $$e ;` => `let $n : $t = $$e ;`
//@sub `idct8 ( & mut data )` => `simd_idct8 ( & mut data )`
//@sub `for ( $i , $x ) in $d . iter_mut ( ) . enumerate ( ) {` => `for $i in 0 .. $d . len ( ) { let $x = & mut $d [ $i ] ;`
//@sub `_mm_loadu_si128 ( $x . as_ptr ( ) . wrapping_add ( $$e ) as * const _ )` => `loadu ( $x , $$e )`
//@sub `_mm_storeu_si128 ( $x . as_mut_ptr ( ) as * mut _ , $$v )` => `storeu ( & mut $x , 0 , $$v )`
//@sub `std :: ptr :: copy_nonoverlapping :: < u8 > ( $a . as_ptr ( ) , $b . as_mut_ptr ( ) . wrapping_add ( $$e ) $*z , $n , )` => `copy_nonoverlapping ( & $a , $b , $$e , $n )`
pub fn dequantize_and_idct_block_8x8(coefficients: & [i16; 64], quantization_table: & [u16; 64], output_linestride: usize, output: &mut[u8],) /*@
    ensures old(output).len() >= 7 * output_linestride + 8, final(output).len() == old(output).len(), output_linestride >= 8 ==> outside(old(output)@, final(output)@, output_linestride as int, 8) && simd_block(coefficients@, quantization_table@, cut(final(output)@, 0, output_linestride as int, 8)), @*/ {
    /*@ hide(lane); hide(px_simd); hide(exact8); hide(total); hide(cut); hide(simd_block); hide(outside); let ghost (c, q, o0, st) = (coefficients@, quantization_table@, output@, output_linestride as int); proof { shifts(); } @*/
    /*@ let ghost room = output.len() >= 7 * output_linestride + 8; @*/
    guard(output.len() > guard_some(guard_some(output_linestride.checked_mul(7) /*@, Ghost(room) @*/).checked_add(7) /*@, Ghost(room) @*/) /*@, Ghost(room) @*/);
    let SHIFT: i32 = 3;
    let mut data = [_mm_setzero_si128(); 8];
    for i in 0..data.len() /*@ invariant SHIFT == 3, c == coefficients@, q == quantization_table@, two(3) == 8, data.len() == 8,
        total(c, q) <= 800 ==> forall|j: int, k: int| 0 <= j < i && 0 <= k < 8 ==> #[trigger] data@[j].l(k) == 8 * deq(c, q, 8 * j + k), @*/ {
        /*@ let ghost d1 = data@; @*/
        let item = &mut data[i];
        * item = _mm_slli_epi16(_mm_mullo_epi16(loadu(coefficients, i * 8), loadu(quantization_table, i * 8),), SHIFT,);
        /*@ proof { if total(c, q) <= 800 { assert forall|j: int, k: int| 0 <= j < i + 1 && 0 <= k < 8 implies #[trigger] data@[j].l(k) == 8 * deq(c, q, 8 * j + k) by {
            if j < i { assert(data@[j] == d1[j]); } else { deq_small(c, q, j, k); deq_fits(c[8 * j + k] as int, q[8 * j + k] as int); } } } } @*/
    }
    /*@ let ghost d0 = data@; @*/
    simd_idct8(&mut data);
    /*@ let ghost d1 = data@; @*/
    transpose8(&mut data);
    /*@ let ghost d2 = data@; @*/
    simd_idct8(&mut data);
    /*@ let ghost d3 = data@; @*/
    transpose8(&mut data);
    /*@ let ghost d4 = data@; proof { assert forall|n: int, m: int| 0 <= n < 8 && 0 <= m < 8 implies #[trigger] d4[n].l(m) == sample(d0, n, m) by {
        assert(d4[n].l(m) == d3[m].l(n)); assert(d3[m].l(n) == lanes(d2, n, m));
        assert(d2[0].l(n) == d1[n].l(0) && d2[1].l(n) == d1[n].l(1) && d2[2].l(n) == d1[n].l(2) && d2[3].l(n) == d1[n].l(3) && d2[4].l(n) == d1[n].l(4) && d2[5].l(n) == d1[n].l(5) && d2[6].l(n) == d1[n].l(6) && d2[7].l(n) == d1[n].l(7));
        assert(d1[n].l(0) == lanes(d0, 0, n) && d1[n].l(1) == lanes(d0, 1, n) && d1[n].l(2) == lanes(d0, 2, n) && d1[n].l(3) == lanes(d0, 3, n) && d1[n].l(4) == lanes(d0, 4, n) && d1[n].l(5) == lanes(d0, 5, n) && d1[n].l(6) == lanes(d0, 6, n) && d1[n].l(7) == lanes(d0, 7, n)); } } @*/
    for i in 0..data.len() /*@ invariant SHIFT == 3, two(6) == 64, data.len() == 8, data@ == d4, output_linestride == st, st >= 0, o0.len() >= 7 * st + 8, output@.len() == o0.len(), o0.len() <= usize::MAX, 128i16 << 6 == 8192i16, (1i16 << 6) >> 1 == 32i16,
        forall|n: int, m: int| 0 <= n < 8 && 0 <= m < 8 ==> #[trigger] d4[n].l(m) == sample(d0, n, m), total(c, q) <= 800 ==> loaded(d0, c, q), st >= 8 ==> rows_stored(o0, output@, c, q, st, i as int), @*/ {
        /*@ let ghost o1 = output@; assert(st * i <= st * 7) by (nonlinear_arith) requires i <= 7, st >= 0; @*/
        let item = &mut data[i];
        let mut buf = [0u8; 16];
        let OFFSET: i16 = 128 << (SHIFT + 3);
        let ROUNDING_BIAS: i16 = (1 << (SHIFT + 3)) >> 1;
        let data_with_offset = _mm_adds_epi16(* item, _mm_set1_epi16(OFFSET + ROUNDING_BIAS));
        storeu(&mut buf, 0, _mm_packus_epi16(_mm_srai_epi16(data_with_offset, SHIFT + 3), _mm_setzero_si128(),),);
        copy_nonoverlapping(&buf, output, output_linestride * i, 8);
        /*@ proof { if total(c, q) <= 800 { assert forall|m: int| 0 <= m < 8 implies px_simd(#[trigger] buf@[m], exact8(c, q, i as int, m)) by { assert(buf@[0 + m] == buf@[m]); assert(d4[i as int].l(m) == sample(d0, i as int, m)); sample_ok(d0, c, q, i as int, m); stored_px(buf@[m], sample(d0, i as int, m), exact8(c, q, i as int, m)); } }
            if st >= 8 { row_stored(o0, o1, output@, buf@, c, q, st, i as int); } } @*/
    }
    /*@ proof { if st >= 8 { all_stored(o0, output@, c, q, st); } } @*/
}
//@end
