// ---- reduced sizes -------------------------------------------------------------------------------------------
/// 10^7 times the 4-point basis: sqrt(2) cos((2n+1) k pi / 8)
pub open spec fn dct4(n: int, k: int) -> int { if k == 0 { 10000000 } else { cos16(2 * ((2 * n + 1) * k)) } }
pub open spec fn idct4(n: int, a: int, b: int, c: int, d: int) -> int { dct4(n, 0) * a + dct4(n, 1) * b + dct4(n, 2) * c + dct4(n, 3) * d }
pub open spec fn sum4(a: int, b: int, c: int, d: int) -> int { abs(a) + abs(b) + abs(c) + abs(d) }
pub open spec fn lin4_ok(n: int, r: int, a: int, b: int, c: int, d: int) -> bool { abs(10000000 * r - 4096 * idct4(n, a, b, c, d)) <= 19200000 * sum4(a, b, c, d) }
pub open spec fn col4(c: Seq<i16>, q: Seq<u16>, n: int, i: int) -> int { idct4(n, deq(c, q, i), deq(c, q, 8 + i), deq(c, q, 16 + i), deq(c, q, 24 + i)) }
pub open spec fn colsum4(c: Seq<i16>, q: Seq<u16>, i: int) -> int { sum4(deq(c, q, i), deq(c, q, 8 + i), deq(c, q, 16 + i), deq(c, q, 24 + i)) }
/// 8 * 10^14 times the exact sample of the half-size block
pub open spec fn exact4(c: Seq<i16>, q: Seq<u16>, n: int, m: int) -> int { idct4(m, col4(c, q, n, 0), col4(c, q, n, 1), col4(c, q, n, 2), col4(c, q, n, 3)) }
pub open spec fn total4(c: Seq<i16>, q: Seq<u16>) -> int { colsum4(c, q, 0) + colsum4(c, q, 1) + colsum4(c, q, 2) + colsum4(c, q, 3) }
pub open spec fn block4_ok(c: Seq<i16>, q: Seq<u16>, o: Seq<u8>, stride: int) -> bool {
    total4(c, q) <= 16000 ==> forall|n: int, m: int| 0 <= n < 4 && 0 <= m < 4 ==> px_ok(#[trigger] o[n * stride + m], exact4(c, q, n, m), total4(c, q))
}
pub proof fn lemma_basis4(n: int) requires 0 <= n < 4
    ensures dct4(n, 0) == 10000000,
        n == 0 ==> dct4(n, 1) == 13065630 && dct4(n, 2) == 10000000 && dct4(n, 3) == 5411961,
        n == 1 ==> dct4(n, 1) == 5411961 && dct4(n, 2) == -10000000 && dct4(n, 3) == -13065630,
        n == 2 ==> dct4(n, 1) == -5411961 && dct4(n, 2) == -10000000 && dct4(n, 3) == 13065630,
        n == 3 ==> dct4(n, 1) == -13065630 && dct4(n, 2) == 10000000 && dct4(n, 3) == -5411961,
{ if n == 0 {} else if n == 1 {} else if n == 2 {} else {} }
/// the four linear forms of the kernel
pub open spec fn form4(n: int, a: int, b: int, c: int, d: int) -> int {
    if n == 0 { 4096 * (a + c) + (5352 * b + 2217 * d) } else if n == 1 { 4096 * (a - c) + (2217 * b - 5350 * d) } else if n == 2 { 4096 * (a - c) - (2217 * b - 5350 * d) } else { 4096 * (a + c) - (5352 * b + 2217 * d) }
}
pub proof fn lemma_form4(n: int, a: int, b: int, c: int, d: int) requires 0 <= n < 4 ensures lin4_ok(n, form4(n, a, b, c, d), a, b, c, d) { lemma_basis4(n); }
/// a value of the first pass
pub proof fn lemma_tmp4(n: int, t: int, a: int, b: int, c: int, d: int)
    requires 0 <= n < 4, abs(1024 * t - form4(n, a, b, c, d)) <= 512 ensures tmp_ok(t, idct4(n, a, b, c, d), sum4(a, b, c, d)) { lemma_form4(n, a, b, c, d); }
pub proof fn lemma_size4(n: int, a: int, b: int, c: int, d: int) requires 0 <= n < 4 ensures abs(idct4(n, a, b, c, d)) <= 13870398 * sum4(a, b, c, d) { lemma_basis4(n); }
pub proof fn lemma_row4(m: int, v: int, t0: int, t1: int, t2: int, t3: int, l0: int, l1: int, l2: int, l3: int, s0: int, s1: int, s2: int, s3: int, s: int)
    requires 0 <= m < 4, 131072 * v <= form4(m, t0, t1, t2, t3) + 16842752 < 131072 * (v + 1),
        tmp_ok(t0, l0, s0) && s0 >= 0, tmp_ok(t1, l1, s1) && s1 >= 0, tmp_ok(t2, l2, s2) && s2 >= 0, tmp_ok(t3, l3, s3) && s3 >= 0,
        abs(l0) <= 13870398 * s0, abs(l1) <= 13870398 * s1, abs(l2) <= 13870398 * s2, abs(l3) <= 13870398 * s3, s == s0 + s1 + s2 + s3,
    ensures abs(800000000000000 * (v - 128) - idct4(m, l0, l1, l2, l3)) <= 500000000000000 + s * 133333333333,
{
    hide(tmp_ok); hide(dct4); hide(form4);
    lemma_form4(m, t0, t1, t2, t3); lemma_basis4(m); small4b(m);
    lemma_tmp_size(t0, l0, s0); lemma_tmp_size(t1, l1, s1); lemma_tmp_size(t2, l2, s2); lemma_tmp_size(t3, l3, s3);
    zero_ok();
    lemma_weighted(dct4(m, 0), dct4(m, 1), dct4(m, 2), dct4(m, 3), 0, 0, 0, 0, t0, t1, t2, t3, 0, 0, 0, 0, l0, l1, l2, l3, 0, 0, 0, 0, s0, s1, s2, s3, 0, 0, 0, 0);
    let x = idct4(m, t0, t1, t2, t3); let y = idct4(m, l0, l1, l2, l3); let st = sum4(t0, t1, t2, t3);
    assert(10240000000 * st <= 56833270208 * s + 8 * 5120000000);
    row_final(form4(m, t0, t1, t2, t3), v, s, st, x, y, 10240000000 * x - 4096 * y);
}
pub proof fn small4b(n: int) requires 0 <= n < 4 ensures abs(dct4(n, 0)) + abs(dct4(n, 1)) + abs(dct4(n, 2)) + abs(dct4(n, 3)) <= 75000000, abs(dct4(n, 0)) <= 13870398, abs(dct4(n, 1)) <= 13870398, abs(dct4(n, 2)) <= 13870398, abs(dct4(n, 3)) <= 13870398 { lemma_basis4(n); }
pub proof fn zero_ok() ensures tmp_ok(0, 0, 0) {}
pub open spec fn tmp4(t: Seq<Wrapping<i32>>, n: int, i: int) -> int { t[4 * n + i].0 as int }
pub open spec fn col4_done(t: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, i: int) -> bool { forall|n: int| 0 <= n < 4 ==> tmp_ok(#[trigger] tmp4(t, n, i), col4(c, q, n, i), colsum4(c, q, i)) }
pub open spec fn cols4_done(t: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, i: int) -> bool { t.len() == 16 && forall|k: int| 0 <= k < i ==> #[trigger] col4_done(t, c, q, k) }
pub open spec fn other_cols4(a: Seq<Wrapping<i32>>, b: Seq<Wrapping<i32>>, i: int) -> bool { a.len() == 16 && b.len() == 16 && forall|j: int| 0 <= j < 16 && j % 4 != i ==> #[trigger] b[j] == a[j] }
pub proof fn prod_fits(c: i16, q: u16) ensures fits(c * q) { assert(-2147450880 <= c * q <= 2147385345) by (nonlinear_arith) requires -32768 <= c <= 32767, 0 <= q <= 65535; }
pub proof fn deq_is(c: Seq<i16>, q: Seq<u16>, j: int) ensures deq(c, q, j) == c[j] * q[j] {}
pub proof fn col4_small(c: Seq<i16>, q: Seq<u16>, i: int) requires 0 <= i < 4, total4(c, q) <= 16000
    ensures abs(c[i] * q[i]) + abs(c[8 + i] * q[8 + i]) + abs(c[16 + i] * q[16 + i]) + abs(c[24 + i] * q[24 + i]) <= 16000
{ hide(sum4); hide(deq); deq_is(c, q, i); deq_is(c, q, 8 + i); deq_is(c, q, 16 + i); deq_is(c, q, 24 + i); colsum4_is(c, q, 0); colsum4_is(c, q, 1); colsum4_is(c, q, 2); colsum4_is(c, q, 3); colsum4_is(c, q, i); four(i); }
pub proof fn colsum4_is(c: Seq<i16>, q: Seq<u16>, i: int) ensures colsum4(c, q, i) == abs(deq(c, q, i)) + abs(deq(c, q, 8 + i)) + abs(deq(c, q, 16 + i)) + abs(deq(c, q, 24 + i)), colsum4(c, q, i) >= 0 { hide(deq); }
pub proof fn step_col4(a: Seq<Wrapping<i32>>, b: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, i: int, s0: int, s1: int, s2: int, s3: int)
    requires 0 <= i < 4, cols4_done(a, c, q, i), other_cols4(a, b, i), s0 == c[i] * q[i], s1 == c[8 + i] * q[8 + i], s2 == c[16 + i] * q[16 + i], s3 == c[24 + i] * q[24 + i],
        abs(1024 * tmp4(b, 0, i) - form4(0, s0, s1, s2, s3)) <= 512, abs(1024 * tmp4(b, 1, i) - form4(1, s0, s1, s2, s3)) <= 512, abs(1024 * tmp4(b, 2, i) - form4(2, s0, s1, s2, s3)) <= 512, abs(1024 * tmp4(b, 3, i) - form4(3, s0, s1, s2, s3)) <= 512,
    ensures cols4_done(b, c, q, i + 1)
{
    hide(tmp_ok); hide(idct4); hide(sum4); hide(form4); hide(abs);
    deq_is(c, q, i); deq_is(c, q, 8 + i); deq_is(c, q, 16 + i); deq_is(c, q, 24 + i);
    lemma_tmp4(0, tmp4(b, 0, i), s0, s1, s2, s3); lemma_tmp4(1, tmp4(b, 1, i), s0, s1, s2, s3); lemma_tmp4(2, tmp4(b, 2, i), s0, s1, s2, s3); lemma_tmp4(3, tmp4(b, 3, i), s0, s1, s2, s3);
    assert forall|k: int| 0 <= k < i + 1 implies #[trigger] col4_done(b, c, q, k) by {
        if k < i {
            assert(col4_done(a, c, q, k));
            assert forall|n: int| 0 <= n < 4 implies tmp_ok(#[trigger] tmp4(b, n, k), col4(c, q, n, k), colsum4(c, q, k)) by { assert((4 * n + k) % 4 == k); assert(tmp4(b, n, k) == tmp4(a, n, k)); }
        } else {
            assert forall|n: int| 0 <= n < 4 implies tmp_ok(#[trigger] tmp4(b, n, k), col4(c, q, n, k), colsum4(c, q, k)) by { four(n); }
        }
    }
}
pub proof fn four(n: int) requires 0 <= n < 4 ensures n == 0 || n == 1 || n == 2 || n == 3 {}
pub proof fn col4_fact(t: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, n: int, k: int) requires 0 <= n < 4, col4_done(t, c, q, k)
    ensures tmp_ok(tmp4(t, n, k), col4(c, q, n, k), colsum4(c, q, k)), abs(col4(c, q, n, k)) <= 13870398 * colsum4(c, q, k), colsum4(c, q, k) >= 0, 10240000000 * abs(tmp4(t, n, k)) <= 56833270208 * colsum4(c, q, k) + 5120000000
{
    hide(idct4); hide(deq);
    assert(tmp_ok(tmp4(t, n, k), col4(c, q, n, k), colsum4(c, q, k)));
    lemma_size4(n, deq(c, q, k), deq(c, q, 8 + k), deq(c, q, 16 + k), deq(c, q, 24 + k));
    lemma_tmp_size(tmp4(t, n, k), col4(c, q, n, k), colsum4(c, q, k));
}
pub proof fn row4_small(t: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, n: int) requires 0 <= n < 4, total4(c, q) <= 16000, cols4_done(t, c, q, 4)
    ensures abs(t[4 * n].0 as int) + abs(t[4 * n + 1].0 as int) + abs(t[4 * n + 2].0 as int) + abs(t[4 * n + 3].0 as int) <= 100000
{ hide(tmp_ok); hide(idct4); hide(colsum4); hide(col4_done); assert(col4_done(t, c, q, 0) && col4_done(t, c, q, 1) && col4_done(t, c, q, 2) && col4_done(t, c, q, 3)); col4_fact(t, c, q, n, 0); col4_fact(t, c, q, n, 1); col4_fact(t, c, q, n, 2); col4_fact(t, c, q, n, 3); }
pub proof fn lemma_px4(t: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, n: int, m: int, v: int, out: u8)
    requires 0 <= n < 4, 0 <= m < 4, total4(c, q) <= 16000, cols4_done(t, c, q, 4), 131072 * v <= form4(m, tmp4(t, n, 0), tmp4(t, n, 1), tmp4(t, n, 2), tmp4(t, n, 3)) + 16842752 < 131072 * (v + 1), out == clampi(v)
    ensures px_ok(out, exact4(c, q, n, m), total4(c, q))
{
    hide(idct4); hide(tmp_ok); hide(form4); hide(col4_done); hide(colsum4); hide(col4);
    assert(col4_done(t, c, q, 0) && col4_done(t, c, q, 1) && col4_done(t, c, q, 2) && col4_done(t, c, q, 3));
    col4_fact(t, c, q, n, 0); col4_fact(t, c, q, n, 1); col4_fact(t, c, q, n, 2); col4_fact(t, c, q, n, 3);
    lemma_row4(m, v, tmp4(t, n, 0), tmp4(t, n, 1), tmp4(t, n, 2), tmp4(t, n, 3), col4(c, q, n, 0), col4(c, q, n, 1), col4(c, q, n, 2), col4(c, q, n, 3), colsum4(c, q, 0), colsum4(c, q, 1), colsum4(c, q, 2), colsum4(c, q, 3), total4(c, q));
    assert(clampi(v) == out);
}
pub open spec fn rows4_done(o0: Seq<u8>, o: Seq<u8>, c: Seq<i16>, q: Seq<u16>, stride: int, i: int) -> bool {
    &&& o.len() == o0.len()
    &&& forall|j: int| 0 <= j < o0.len() && !(j / stride < i && j % stride < 4) ==> #[trigger] o[j] == o0[j]
    &&& forall|n: int, m: int| 0 <= n < i && 0 <= m < 4 ==> total4(c, q) <= 16000 ==> px_ok(#[trigger] o[n * stride + m], exact4(c, q, n, m), total4(c, q))
}
pub open spec fn other_bytes4(a: Seq<u8>, b: Seq<u8>, at: int) -> bool { a.len() == b.len() && forall|j: int| 0 <= j < a.len() && !(at <= j < at + 4) ==> #[trigger] b[j] == a[j] }
pub open spec fn out4(o: Seq<u8>, at: int, m: int, v: int) -> bool { o[at + m] as int == clampi(v / 131072) }
pub proof fn step_row4(o0: Seq<u8>, o1: Seq<u8>, o: Seq<u8>, n: int, stride: int, c: Seq<i16>, q: Seq<u16>, t: Seq<Wrapping<i32>>, s0: int, s1: int, s2: int, s3: int)
    requires 0 <= n < 4, stride >= 4, n * stride + 4 <= o0.len(), rows4_done(o0, o1, c, q, stride, n), other_bytes4(o1, o, n * stride), total4(c, q) <= 16000 ==> cols4_done(t, c, q, 4),
        s0 == tmp4(t, n, 0), s1 == tmp4(t, n, 1), s2 == tmp4(t, n, 2), s3 == tmp4(t, n, 3),
        total4(c, q) <= 16000 ==> out4(o, n * stride, 0, form4(0, s0, s1, s2, s3) + 16842752) && out4(o, n * stride, 1, form4(1, s0, s1, s2, s3) + 16842752) && out4(o, n * stride, 2, form4(2, s0, s1, s2, s3) + 16842752) && out4(o, n * stride, 3, form4(3, s0, s1, s2, s3) + 16842752),
    ensures rows4_done(o0, o, c, q, stride, n + 1)
{
    hide(px_ok); hide(exact4); hide(total4); hide(form4); hide(cols4_done);
    if total4(c, q) <= 16000 {
        lemma_px4(t, c, q, n, 0, (form4(0, s0, s1, s2, s3) + 16842752) / 131072, o[n * stride + 0]); lemma_px4(t, c, q, n, 1, (form4(1, s0, s1, s2, s3) + 16842752) / 131072, o[n * stride + 1]);
        lemma_px4(t, c, q, n, 2, (form4(2, s0, s1, s2, s3) + 16842752) / 131072, o[n * stride + 2]); lemma_px4(t, c, q, n, 3, (form4(3, s0, s1, s2, s3) + 16842752) / 131072, o[n * stride + 3]);
    }
    assert(n * stride >= 0) by (nonlinear_arith) requires n >= 0, stride >= 4;
    assert forall|j: int| 0 <= j < o0.len() && !(j / stride < n + 1 && j % stride < 4) implies #[trigger] o[j] == o0[j] by {
        if n * stride <= j < n * stride + 4 {
            assert(j / stride == n && j % stride == j - n * stride) by (nonlinear_arith) requires n * stride <= j < n * stride + stride, stride >= 4, n >= 0;
        } else { assert(o1[j] == o0[j]); }
    }
    assert forall|p: int, m: int| 0 <= p < n + 1 && 0 <= m < 4 && total4(c, q) <= 16000 implies px_ok(#[trigger] o[p * stride + m], exact4(c, q, p, m), total4(c, q)) by {
        if p < n {
            assert(p * stride + stride <= n * stride && p * stride >= 0) by (nonlinear_arith) requires 0 <= p < n, stride >= 4;
            assert(o[p * stride + m] == o1[p * stride + m]);
        } else { four(m); }
    }
}
pub proof fn rows4_none(o: Seq<u8>, c: Seq<i16>, q: Seq<u16>, stride: int) requires stride >= 4 ensures rows4_done(o, o, c, q, stride, 0) {}
pub proof fn rows4_all(o0: Seq<u8>, o: Seq<u8>, c: Seq<i16>, q: Seq<u16>, stride: int) requires rows4_done(o0, o, c, q, stride, 4), stride >= 4 ensures outside(o0, o, stride, 4), block4_ok(c, q, o, stride) { hide(px_ok); hide(exact4); hide(total4); }
//@fn src/idct.rs dequantize_and_idct_block_4x4
//@rw f2f mulc opassign assertmsg
//@sub `debug_assert_eq ! ( $$a , 64 ) ;` => `assert_exec ( $$a == 64 ) ;`
//@sub `const $n : usize = $$e ;` => `let $n : usize = $$e ;`
//@sub `let output = & mut output [ $$e .. ] [ .. 4 ] ;` => `let base = $$e ; assert_exec ( base <= output . len ( ) && output . len ( ) - base >= 4 ) ;`
//@sub `output [ $k ] =` => `output [ base + $k ] =`
/*@ #[verifier::rlimit(80)] #[verifier::spinoff_prover] @*/
fn dequantize_and_idct_block_4x4(coefficients: & [i16; 64], quantization_table: & [u16; 64], output_linestride: usize, output: &mut[u8],) /*@
    requires output_linestride >= 4, old(output).len() >= 3 * output_linestride + 4,
    ensures outside(old(output)@, final(output)@, output_linestride as int, 4), block4_ok(coefficients@, quantization_table@, final(output)@, output_linestride as int) @*/ {
    /*@ hide(outside); hide(block4_ok); hide(total4); hide(px_ok); hide(exact4); hide(col4_done); hide(cols4_done); hide(rows4_done); hide(deq);
    let ghost (c, q, o0, stride) = (coefficients@, quantization_table@, output@, output_linestride as int); let ghost small = total4(c, q) <= 16000; @*/
    assert_exec(coefficients.len() == 64);
    let mut temp = [Wrapping(0i32); 4 * 4];
    let CONST_BITS: usize = 12;
    let PASS1_BITS: usize = 2;
    let FINAL_BITS: usize = CONST_BITS + PASS1_BITS + 3;
    /*@ proof { assert(1i32 << 16 == 65536i32) by (bit_vector); assert(128i32 << 17 == 16777216i32) by (bit_vector); cols4_none(temp@, c, q); } @*/
    for i in 0..4 /*@ invariant c == coefficients@, q == quantization_table@, small == (total4(c, q) <= 16000), small ==> cols4_done(temp@, c, q, i as int), CONST_BITS == 12, PASS1_BITS == 2, FINAL_BITS == 17 @*/ {
        /*@ let ghost before = temp@; proof { if small { col4_small(c, q, i as int); }
            prod_fits(c[i as int], q[i as int]); prod_fits(c[8 + i], q[8 + i]); prod_fits(c[16 + i], q[16 + i]); prod_fits(c[24 + i], q[24 + i]); } @*/
        let s0 = Wrapping(coefficients[i + 8 * 0] as i32 * quantization_table[i + 8 * 0] as i32);
        let s1 = Wrapping(coefficients[i + 8 * 1] as i32 * quantization_table[i + 8 * 1] as i32);
        let s2 = Wrapping(coefficients[i + 8 * 2] as i32 * quantization_table[i + 8 * 2] as i32);
        let s3 = Wrapping(coefficients[i + 8 * 3] as i32 * quantization_table[i + 8 * 3] as i32);
        /*@ let ghost (d0, d1, d2, d3) = (s0.0 as int, s1.0 as int, s2.0 as int, s3.0 as int); proof { if small { assert(abs(d0) + abs(d1) + abs(d2) + abs(d3) <= 16000); } } @*/
        let x0 = (s0 + s2) << PASS1_BITS;
        let x2 = (s0 - s2) << PASS1_BITS;
        let p1 = mulc(s1 + s3, 2217i32);
        let t0 = (p1 + mulc(s3, - 7567i32) + Wrapping(512)) >> (CONST_BITS - PASS1_BITS);
        let t2 = (p1 + mulc(s1, 3135i32) + Wrapping(512)) >> (CONST_BITS - PASS1_BITS);
        temp[i + 4 * 0] = x0 + t2;
        temp[i + 4 * 3] = x0 - t2;
        temp[i + 4 * 1] = x2 + t0;
        temp[i + 4 * 2] = x2 - t0;
        /*@ assert(other_cols4(before, temp@, i as int)); proof { if small { step_col4(before, temp@, c, q, i as int, d0, d1, d2, d3); } } @*/
    }
    /*@ proof { rows4_none(o0, c, q, stride); } @*/
    for i in 0..4 /*@ invariant c == coefficients@, q == quantization_table@, small == (total4(c, q) <= 16000), small ==> cols4_done(temp@, c, q, 4), CONST_BITS == 12, PASS1_BITS == 2, FINAL_BITS == 17,
        stride == output_linestride, stride >= 4, o0.len() >= 3 * stride + 4, output.len() == o0.len(), 128i32 << 17 == 16777216i32, 1i32 << 16 == 65536i32, rows4_done(o0, output@, c, q, stride, i as int) @*/ {
        /*@ let ghost o1 = output@; let ghost at = i * stride; assert(0 <= at <= 3 * stride && at == i * output_linestride) by (nonlinear_arith) requires 0 <= i < 4, stride >= 4, at == i * stride, stride == output_linestride;
            proof { if small { row4_small(temp@, c, q, i as int); } } @*/
        let s0 = temp[i * 4 + 0];
        let s1 = temp[i * 4 + 1];
        let s2 = temp[i * 4 + 2];
        let s3 = temp[i * 4 + 3];
        /*@ let ghost (d0, d1, d2, d3) = (s0.0 as int, s1.0 as int, s2.0 as int, s3.0 as int); proof { if small { assert(abs(d0) + abs(d1) + abs(d2) + abs(d3) <= 100000); } } @*/
        let x0 = (s0 + s2) << CONST_BITS;
        let x2 = (s0 - s2) << CONST_BITS;
        let p1 = mulc(s1 + s3, 2217i32);
        let t0 = p1 + mulc(s3, - 7567i32);
        let t2 = p1 + mulc(s1, 3135i32);
        let x0 = x0 + Wrapping(1 << (FINAL_BITS - 1)) + Wrapping(128 << FINAL_BITS);
        let x2 = x2 + Wrapping(1 << (FINAL_BITS - 1)) + Wrapping(128 << FINAL_BITS);
        let base = i * output_linestride;
        assert_exec(base <= output.len() && output.len() - base >= 4);
        output[base + 0] = stbi_clamp((x0 + t2) >> FINAL_BITS);
        output[base + 3] = stbi_clamp((x0 - t2) >> FINAL_BITS);
        output[base + 1] = stbi_clamp((x2 + t0) >> FINAL_BITS);
        output[base + 2] = stbi_clamp((x2 - t0) >> FINAL_BITS);
        /*@ assert(other_bytes4(o1, output@, at)); proof { step_row4(o0, o1, output@, i as int, stride, c, q, temp@, d0, d1, d2, d3); } @*/
    }
    /*@ proof { rows4_all(o0, output@, c, q, stride); } @*/
}
//@end
pub proof fn cols4_none(t: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>) requires t.len() == 16 ensures cols4_done(t, c, q, 0) {}
// ---- 2x2 and 1x1 ---------------------------------------------------------------------------------------------
/// four times the mean over the quarter block, which the lowest four coefficients determine: rounded to nearest
pub open spec fn clamp_level(x: int) -> int { if x < 0 { 0 } else if x > 255 { 255 } else { x } }
pub open spec fn sum22(c: Seq<i16>, q: Seq<u16>) -> int { abs(deq(c, q, 0)) + abs(deq(c, q, 1)) + abs(deq(c, q, 8)) + abs(deq(c, q, 9)) }
pub open spec fn exact2(c: Seq<i16>, q: Seq<u16>, n: int, m: int) -> int {
    deq(c, q, 0) + (if m == 0 { deq(c, q, 1) } else { -deq(c, q, 1) }) + (if n == 0 { deq(c, q, 8) } else { -deq(c, q, 8) }) + (if n == m { deq(c, q, 9) } else { -deq(c, q, 9) })
}
pub open spec fn px2_ok(o: Seq<u8>, c: Seq<i16>, q: Seq<u16>, stride: int, n: int, m: int) -> bool { o[n * stride + m] == clamp_level((exact2(c, q, n, m) + 4) / 8 + 128) }
pub open spec fn block2_ok(c: Seq<i16>, q: Seq<u16>, o: Seq<u8>, stride: int) -> bool {
    sum22(c, q) <= 1000000000 ==> px2_ok(o, c, q, stride, 0, 0) && px2_ok(o, c, q, stride, 0, 1) && px2_ok(o, c, q, stride, 1, 0) && px2_ok(o, c, q, stride, 1, 1)
}
pub open spec fn block1_ok(c: Seq<i16>, q: Seq<u16>, o: Seq<u8>) -> bool { abs(deq(c, q, 0)) <= 1000000000 ==> o[0] == clamp_level((deq(c, q, 0) + 1024) / 8) }
pub proof fn outside_four(o0: Seq<u8>, o: Seq<u8>, stride: int) requires stride >= 2, o.len() == o0.len(), forall|j: int| 0 <= j < o.len() && j != 0 && j != 1 && j != stride && j != stride + 1 ==> #[trigger] o[j] == o0[j] ensures outside(o0, o, stride, 2)
{
    assert forall|j: int| 0 <= j < o.len() && !(j / stride < 2 && j % stride < 2) implies #[trigger] o[j] == o0[j] by {
        if j == 0 || j == 1 { assert(j / stride == 0 && j % stride == j) by (nonlinear_arith) requires 0 <= j < stride; }
        if j == stride || j == stride + 1 { assert(j / stride == 1 && j % stride == j - stride) by (nonlinear_arith) requires stride <= j < stride + stride; }
    }
}
//@fn src/idct.rs dequantize_and_idct_block_2x2
//@rw opassign assertmsg
//@sub `debug_assert_eq ! ( $$a , 64 ) ;` => `assert_exec ( $$a == 64 ) ;`
//@sub `const $n : usize = $$e ;` => `let $n : usize = $$e ;`
/*@ #[verifier::rlimit(60)] #[verifier::spinoff_prover] @*/
fn dequantize_and_idct_block_2x2(coefficients: & [i16; 64], quantization_table: & [u16; 64], output_linestride: usize, output: &mut[u8],) /*@
    requires output_linestride >= 2, old(output).len() >= output_linestride + 2,
    ensures outside(old(output)@, final(output)@, output_linestride as int, 2), block2_ok(coefficients@, quantization_table@, final(output)@, output_linestride as int) @*/ {
    /*@ hide(outside); hide(deq); let ghost (c, q, o0, stride) = (coefficients@, quantization_table@, output@, output_linestride as int); let ghost small = sum22(c, q) <= 1000000000;
        proof { assert(1i32 << 2 == 4i32) by (bit_vector); assert(128i32 << 3 == 1024i32) by (bit_vector); deq_is(c, q, 0); deq_is(c, q, 1); deq_is(c, q, 8); deq_is(c, q, 9);
            prod_fits(c[0], q[0]); prod_fits(c[1], q[1]); prod_fits(c[8], q[8]); prod_fits(c[9], q[9]); } @*/
    assert_exec(coefficients.len() == 64);
    let SCALE_BITS: usize = 3;
    let s00 = Wrapping(coefficients[8 * 0] as i32 * quantization_table[8 * 0] as i32);
    let s10 = Wrapping(coefficients[8 * 1] as i32 * quantization_table[8 * 1] as i32);
    let x0 = s00 + s10;
    let x2 = s00 - s10;
    let s01 = Wrapping(coefficients[8 * 0 + 1] as i32 * quantization_table[8 * 0 + 1] as i32);
    let s11 = Wrapping(coefficients[8 * 1 + 1] as i32 * quantization_table[8 * 1 + 1] as i32);
    let x1 = s01 + s11;
    let x3 = s01 - s11;
    let x0 = x0 + Wrapping(1 << (SCALE_BITS - 1)) + Wrapping(128 << SCALE_BITS);
    let x2 = x2 + Wrapping(1 << (SCALE_BITS - 1)) + Wrapping(128 << SCALE_BITS);
    output[0] = stbi_clamp((x0 + x1) >> SCALE_BITS);
    output[1] = stbi_clamp((x0 - x1) >> SCALE_BITS);
    output[output_linestride + 0] = stbi_clamp((x2 + x3) >> SCALE_BITS);
    output[output_linestride + 1] = stbi_clamp((x2 - x3) >> SCALE_BITS);
    /*@ proof { outside_four(o0, output@, stride);
        if small { assert(x0.0 == deq(c, q, 0) + deq(c, q, 8) + 1028); assert(x2.0 == deq(c, q, 0) - deq(c, q, 8) + 1028); assert(1 * stride + 1 == stride + 1 && 1 * stride + 0 == stride && 0 * stride + 1 == 1 && 0 * stride + 0 == 0); } } @*/
}
//@end
//@fn src/idct.rs dequantize_and_idct_block_1x1
//@rw opassign assertmsg
//@sub `debug_assert_eq ! ( $$a , 64 ) ;` => `assert_exec ( $$a == 64 ) ;`
fn dequantize_and_idct_block_1x1(coefficients: & [i16; 64], quantization_table: & [u16; 64], _output_linestride: usize, output: &mut[u8],) /*@
    requires old(output).len() >= 1,
    ensures final(output).len() == old(output).len(), forall|j: int| 1 <= j < old(output).len() ==> #[trigger] final(output)@[j] == old(output)@[j], block1_ok(coefficients@, quantization_table@, final(output)@) @*/ {
    /*@ hide(deq); proof { deq_is(coefficients@, quantization_table@, 0); prod_fits(coefficients@[0], quantization_table@[0]); } @*/
    assert_exec(coefficients.len() == 64);
    let s0 = (Wrapping(coefficients[0] as i32 * quantization_table[0] as i32) + Wrapping(128 * 8)) / Wrapping(8);
    output[0] = stbi_clamp(s0);
}
//@end
/// the full-size transform: see unit idct8
pub uninterp spec fn block8_post(c: Seq<i16>, q: Seq<u16>, b: Seq<u8>) -> bool;
/// contract proved in unit idct8 (dequantize_and_idct_block_8x8); block8_post stands for its postcondition on the samples
#[verifier::external_body]
pub fn dequantize_and_idct_block_8x8(coefficients: &[i16; 64], quantization_table: &[u16; 64], output_linestride: usize, output: &mut [u8])
    requires output_linestride >= 8, old(output).len() >= 7 * output_linestride + 8,
    ensures outside(old(output)@, final(output)@, output_linestride as int, 8), block8_post(coefficients@, quantization_table@, cut(final(output)@, 0, output_linestride as int, 8)),
{ unimplemented!() }
/// b, one line of scale * scale samples, is the inverse transform of the block
pub open spec fn is_idct(scale: int, c: Seq<i16>, q: Seq<u16>, b: Seq<u8>) -> bool {
    if scale == 8 { block8_post(c, q, b) } else if scale == 4 { block4_ok(c, q, b, 4) } else if scale == 2 { block2_ok(c, q, b, 2) } else { block1_ok(c, q, b) }
}
pub proof fn block4_cut(c: Seq<i16>, q: Seq<u16>, o: Seq<u8>, stride: int) requires block4_ok(c, q, o, stride) ensures block4_ok(c, q, cut(o, 0, stride, 4), 4) {
    hide(px_ok); hide(exact4); hide(total4); hide(cut);
    if total4(c, q) <= 16000 { assert forall|n: int, m: int| 0 <= n < 4 && 0 <= m < 4 implies px_ok(#[trigger] cut(o, 0, stride, 4)[n * 4 + m], exact4(c, q, n, m), total4(c, q)) by { cut_at(o, stride, 4, n, m); assert(px_ok(o[n * stride + m], exact4(c, q, n, m), total4(c, q))); } }
}
pub proof fn block2_cut(c: Seq<i16>, q: Seq<u16>, o: Seq<u8>, stride: int) requires block2_ok(c, q, o, stride) ensures block2_ok(c, q, cut(o, 0, stride, 2), 2) {
    hide(cut); cut_at(o, stride, 2, 0, 0); cut_at(o, stride, 2, 0, 1); cut_at(o, stride, 2, 1, 0); cut_at(o, stride, 2, 1, 1);
}
pub proof fn block1_cut(c: Seq<i16>, q: Seq<u16>, o: Seq<u8>, stride: int) requires block1_ok(c, q, o) ensures block1_ok(c, q, cut(o, 0, stride, 1)) { cut_at(o, stride, 1, 0, 0); }
pub proof fn outside_one(o0: Seq<u8>, o: Seq<u8>, stride: int) requires stride >= 1, o.len() == o0.len(), forall|j: int| 1 <= j < o.len() ==> #[trigger] o[j] == o0[j] ensures outside(o0, o, stride, 1)
{
    assert forall|j: int| 0 <= j < o.len() && !(j / stride < 1 && j % stride < 1) implies #[trigger] o[j] == o0[j] by {
        if j == 0 { assert(j / stride == 0 && j % stride == 0) by (nonlinear_arith) requires j == 0, stride >= 1; }
    }
}
//@fn src/idct.rs dequantize_and_idct_block
//@rw panic
pub(crate) fn dequantize_and_idct_block(scale: usize, coefficients: & [i16; 64], quantization_table: & [u16; 64], output_linestride: usize, output: &mut[u8],) /*@
    requires scale == 1 || scale == 2 || scale == 4 || scale == 8, output_linestride >= scale, old(output).len() >= (scale - 1) * output_linestride + scale,
    ensures outside(old(output)@, final(output)@, output_linestride as int, scale as int), is_idct(scale as int, coefficients@, quantization_table@, cut(final(output)@, 0, output_linestride as int, scale as int)) @*/ {
    /*@ hide(outside); hide(block4_ok); hide(block2_ok); hide(block1_ok); hide(cut);
        let ghost (sc, st) = (scale as int, output_linestride as int); assert(sc == 2 ==> (sc - 1) * st == st) by (nonlinear_arith); assert(sc == 4 ==> (sc - 1) * st == 3 * st) by (nonlinear_arith); assert(sc == 8 ==> (sc - 1) * st == 7 * st) by (nonlinear_arith); @*/
    match scale {
        8 => dequantize_and_idct_block_8x8(coefficients, quantization_table, output_linestride, output,), 4 => dequantize_and_idct_block_4x4(coefficients, quantization_table, output_linestride, output,), 2 => dequantize_and_idct_block_2x2(coefficients, quantization_table, output_linestride, output,), 1 => dequantize_and_idct_block_1x1(coefficients, quantization_table, output_linestride, output,), _ => unreached(),
    }
    /*@ proof { let (c, q, o, st) = (coefficients@, quantization_table@, output@, output_linestride as int);
        if scale == 4 { block4_cut(c, q, o, st); } if scale == 2 { block2_cut(c, q, o, st); } if scale == 1 { block1_cut(c, q, o, st); outside_one(old(output)@, output@, output_linestride as int); } } @*/
}
//@end
