// ---- steps of the two passes
pub open spec fn cols_done(t: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, i: int) -> bool { t.len() == 64 && forall|k: int| 0 <= k < i ==> #[trigger] col_done(t, c, q, k) }
pub open spec fn other_cols(a: Seq<Wrapping<i32>>, b: Seq<Wrapping<i32>>, i: int) -> bool { a.len() == 64 && b.len() == 64 && forall|j: int| 0 <= j < 64 && j % 8 != i ==> #[trigger] b[j] == a[j] }
pub proof fn col_small(c: Seq<i16>, q: Seq<u16>, i: int) requires 0 <= i < 8, total(c, q) <= 16000
    ensures sum8(c[i] * q[i], c[8 + i] * q[8 + i], c[16 + i] * q[16 + i], c[24 + i] * q[24 + i], c[32 + i] * q[32 + i], c[40 + i] * q[40 + i], c[48 + i] * q[48 + i], c[56 + i] * q[56 + i]) <= 16000, abs(c[i] * q[i]) <= 16000, abs(c[8 + i] * q[8 + i]) <= 16000, abs(c[16 + i] * q[16 + i]) <= 16000, abs(c[24 + i] * q[24 + i]) <= 16000, abs(c[32 + i] * q[32 + i]) <= 16000, abs(c[40 + i] * q[40 + i]) <= 16000, abs(c[48 + i] * q[48 + i]) <= 16000, abs(c[56 + i] * q[56 + i]) <= 16000
{ hide(deq); hide(total); lemma_col_small(c, q, i); colsum_pos(c, q, i); deq_is(c, q, i); deq_is(c, q, 8 + i); deq_is(c, q, 16 + i); deq_is(c, q, 24 + i); deq_is(c, q, 32 + i); deq_is(c, q, 40 + i); deq_is(c, q, 48 + i); deq_is(c, q, 56 + i); }
pub proof fn deq_is(c: Seq<i16>, q: Seq<u16>, j: int) ensures deq(c, q, j) == c[j] * q[j] {}
pub proof fn step_cols(a: Seq<Wrapping<i32>>, b: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, i: int)
    requires 0 <= i < 8, cols_done(a, c, q, i), other_cols(a, b, i), col_done(b, c, q, i) ensures cols_done(b, c, q, i + 1)
{
    hide(tmp_ok); hide(col8); hide(colsum);
    assert forall|k: int| 0 <= k < i + 1 implies #[trigger] col_done(b, c, q, k) by {
        if k < i { assert(col_done(a, c, q, k)); assert forall|n: int| 0 <= n < 8 implies #[trigger] tmp(b, n, k) == tmp(a, n, k) by { assert((8 * n + k) % 8 == k); } keep_col(a, b, c, q, k); }
    }
}
pub proof fn step_col_dc(a: Seq<Wrapping<i32>>, b: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, i: int, d: int)
    requires 0 <= i < 8, cols_done(a, c, q, i), other_cols(a, b, i), d == 4 * (c[i] * q[i]), c[8 + i] == 0, c[16 + i] == 0, c[24 + i] == 0, c[32 + i] == 0, c[40 + i] == 0, c[48 + i] == 0, c[56 + i] == 0, tmp(b, 0, i) == d, tmp(b, 1, i) == d, tmp(b, 2, i) == d, tmp(b, 3, i) == d, tmp(b, 4, i) == d, tmp(b, 5, i) == d, tmp(b, 6, i) == d, tmp(b, 7, i) == d
    ensures cols_done(b, c, q, i + 1)
{
    hide(tmp_ok); hide(idct8); hide(sum8); hide(cols_done);
    let s0 = deq(c, q, i); deq_zero(c, q, 8 + i); deq_zero(c, q, 16 + i); deq_zero(c, q, 24 + i); deq_zero(c, q, 32 + i); deq_zero(c, q, 40 + i); deq_zero(c, q, 48 + i); deq_zero(c, q, 56 + i);
    assert forall|n: int| 0 <= n < 8 implies tmp_ok(#[trigger] tmp(b, n, i), col8(c, q, n, i), colsum(c, q, i)) by { lemma_tmp_dc(n, s0); eight(n); }
    step_cols(a, b, c, q, i);
}
/// 8 values of an approximate transform, from the kernel
pub open spec fn kval(k: Kernel, n: int) -> int { if n == 0 { k.xs[0].0 + k.ts[3].0 } else if n == 1 { k.xs[1].0 + k.ts[2].0 } else if n == 2 { k.xs[2].0 + k.ts[1].0 } else if n == 3 { k.xs[3].0 + k.ts[0].0 } else if n == 4 { k.xs[3].0 - k.ts[0].0 } else if n == 5 { k.xs[2].0 - k.ts[1].0 } else if n == 6 { k.xs[1].0 - k.ts[2].0 } else { k.xs[0].0 - k.ts[3].0 } }
pub proof fn kernel_vals(s: [Wrapping<i32>; 8], x: int, k: Kernel) requires kernel_ok(s, x, k)
    ensures -1000000000 <= k.xs[0].0 <= 1000000000, -1000000000 <= k.ts[0].0 <= 1000000000, -1000000000 <= k.xs[1].0 <= 1000000000, -1000000000 <= k.ts[1].0 <= 1000000000, -1000000000 <= k.xs[2].0 <= 1000000000, -1000000000 <= k.ts[2].0 <= 1000000000, -1000000000 <= k.xs[3].0 <= 1000000000, -1000000000 <= k.ts[3].0 <= 1000000000,
        forall|n: int| 0 <= n < 8 ==> lin_ok(n, #[trigger] kval(k, n) - x, s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int)
{
    hide(lin_ok);
    let _ = k.xs[0]; let _ = k.xs[1]; let _ = k.xs[2]; let _ = k.xs[3];
    assert forall|n: int| 0 <= n < 8 implies lin_ok(n, #[trigger] kval(k, n) - x, s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int) by { eight(n); assert(7 - 0 == 7 && 7 - 1 == 6 && 7 - 2 == 5 && 7 - 3 == 4); }
}
pub proof fn step_col(a: Seq<Wrapping<i32>>, b: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, i: int, s: [Wrapping<i32>; 8], k: Kernel)
    requires 0 <= i < 8, cols_done(a, c, q, i), other_cols(a, b, i), kernel_ok(s, 512, k), s[0].0 == c[i] * q[i], s[1].0 == c[8 + i] * q[8 + i], s[2].0 == c[16 + i] * q[16 + i], s[3].0 == c[24 + i] * q[24 + i], s[4].0 == c[32 + i] * q[32 + i], s[5].0 == c[40 + i] * q[40 + i], s[6].0 == c[48 + i] * q[48 + i], s[7].0 == c[56 + i] * q[56 + i],
        1024 * tmp(b, 0, i) <= kval(k, 0) < 1024 * (tmp(b, 0, i) + 1), 1024 * tmp(b, 1, i) <= kval(k, 1) < 1024 * (tmp(b, 1, i) + 1), 1024 * tmp(b, 2, i) <= kval(k, 2) < 1024 * (tmp(b, 2, i) + 1), 1024 * tmp(b, 3, i) <= kval(k, 3) < 1024 * (tmp(b, 3, i) + 1), 1024 * tmp(b, 4, i) <= kval(k, 4) < 1024 * (tmp(b, 4, i) + 1), 1024 * tmp(b, 5, i) <= kval(k, 5) < 1024 * (tmp(b, 5, i) + 1), 1024 * tmp(b, 6, i) <= kval(k, 6) < 1024 * (tmp(b, 6, i) + 1), 1024 * tmp(b, 7, i) <= kval(k, 7) < 1024 * (tmp(b, 7, i) + 1)
    ensures cols_done(b, c, q, i + 1)
{
    hide(tmp_ok); hide(idct8); hide(sum8); hide(cols_done); hide(kernel_ok); hide(lin_ok);
    kernel_vals(s, 512, k); deq_is(c, q, i); deq_is(c, q, 8 + i); deq_is(c, q, 16 + i); deq_is(c, q, 24 + i); deq_is(c, q, 32 + i); deq_is(c, q, 40 + i); deq_is(c, q, 48 + i); deq_is(c, q, 56 + i);
    assert forall|n: int| 0 <= n < 8 implies tmp_ok(#[trigger] tmp(b, n, i), col8(c, q, n, i), colsum(c, q, i)) by {
        eight(n); assert(1024 * tmp(b, n, i) <= kval(k, n) < 1024 * (tmp(b, n, i) + 1));
        lemma_tmp(n, kval(k, n) - 512, tmp(b, n, i), s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int);
    }
    step_cols(a, b, c, q, i);
}
pub open spec fn rows_done(o0: Seq<u8>, o: Seq<u8>, c: Seq<i16>, q: Seq<u16>, stride: int, i: int) -> bool {
    &&& o.len() == o0.len()
    &&& forall|j: int| 0 <= j < o0.len() && !(j / stride < i && j % stride < 8) ==> #[trigger] o[j] == o0[j]
    &&& forall|n: int, m: int| 0 <= n < i && 0 <= m < 8 ==> total(c, q) <= 16000 ==> px_ok(#[trigger] o[n * stride + m], exact8(c, q, n, m), total(c, q))
}
pub open spec fn other_bytes(a: Seq<u8>, b: Seq<u8>, at: int) -> bool { a.len() == b.len() && forall|j: int| 0 <= j < a.len() && !(at <= j < at + 8) ==> #[trigger] b[j] == a[j] }
pub proof fn step_rows(o0: Seq<u8>, o1: Seq<u8>, o: Seq<u8>, n: int, stride: int, c: Seq<i16>, q: Seq<u16>)
    requires 0 <= n < 8, stride >= 8, n * stride + 8 <= o0.len(), rows_done(o0, o1, c, q, stride, n), other_bytes(o1, o, n * stride),
        total(c, q) <= 16000 ==> px_ok(o[n * stride + 0], exact8(c, q, n, 0), total(c, q)) && px_ok(o[n * stride + 1], exact8(c, q, n, 1), total(c, q)) && px_ok(o[n * stride + 2], exact8(c, q, n, 2), total(c, q)) && px_ok(o[n * stride + 3], exact8(c, q, n, 3), total(c, q)) && px_ok(o[n * stride + 4], exact8(c, q, n, 4), total(c, q)) && px_ok(o[n * stride + 5], exact8(c, q, n, 5), total(c, q)) && px_ok(o[n * stride + 6], exact8(c, q, n, 6), total(c, q)) && px_ok(o[n * stride + 7], exact8(c, q, n, 7), total(c, q)),
    ensures rows_done(o0, o, c, q, stride, n + 1)
{
    hide(px_ok); hide(exact8); hide(total);
    assert(n * stride >= 0) by (nonlinear_arith) requires n >= 0, stride >= 8;
    assert forall|m: int| 0 <= m < 8 && total(c, q) <= 16000 implies px_ok(#[trigger] o[n * stride + m], exact8(c, q, n, m), total(c, q)) by { eight(m); }
    row_written(o0, o1, o, n, stride, c, q);
}
pub proof fn step_row_dc(o0: Seq<u8>, o1: Seq<u8>, o: Seq<u8>, n: int, stride: int, c: Seq<i16>, q: Seq<u16>, t: Seq<Wrapping<i32>>, s: [Wrapping<i32>; 8], v: int)
    requires 0 <= n < 8, stride >= 8, n * stride + 8 <= o0.len(), rows_done(o0, o1, c, q, stride, n), other_bytes(o1, o, n * stride),
        total(c, q) <= 16000 ==> cols_done(t, c, q, 8), forall|k: int| 0 <= k < 8 ==> s[k].0 as int == #[trigger] tmp(t, n, k), forall|k: int| 1 <= k < 8 ==> (#[trigger] s[k]).0 == 0,
        total(c, q) <= 16000 ==> v == (s[0].0 * 4096 + 16842752) / 131072 && o[n * stride + 0] as int == clampi(v) && o[n * stride + 1] as int == clampi(v) && o[n * stride + 2] as int == clampi(v) && o[n * stride + 3] as int == clampi(v) && o[n * stride + 4] as int == clampi(v) && o[n * stride + 5] as int == clampi(v) && o[n * stride + 6] as int == clampi(v) && o[n * stride + 7] as int == clampi(v)
    ensures rows_done(o0, o, c, q, stride, n + 1)
{
    hide(px_ok); hide(exact8); hide(total); hide(lin_ok); hide(rows_done);
    if total(c, q) <= 16000 {
        let r = s[0].0 * 4096; lemma_row_dc(s, 0); tmps(s, t, n);
        assert(lin_ok(0, r, s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int)); lemma_px(t, c, q, n, 0, r, v, o[n * stride + 0]); assert(lin_ok(1, r, s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int)); lemma_px(t, c, q, n, 1, r, v, o[n * stride + 1]); assert(lin_ok(2, r, s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int)); lemma_px(t, c, q, n, 2, r, v, o[n * stride + 2]); assert(lin_ok(3, r, s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int)); lemma_px(t, c, q, n, 3, r, v, o[n * stride + 3]); assert(lin_ok(4, r, s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int)); lemma_px(t, c, q, n, 4, r, v, o[n * stride + 4]); assert(lin_ok(5, r, s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int)); lemma_px(t, c, q, n, 5, r, v, o[n * stride + 5]); assert(lin_ok(6, r, s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int)); lemma_px(t, c, q, n, 6, r, v, o[n * stride + 6]); assert(lin_ok(7, r, s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int)); lemma_px(t, c, q, n, 7, r, v, o[n * stride + 7]);
    }
    step_rows(o0, o1, o, n, stride, c, q);
}
pub proof fn tmps(s: [Wrapping<i32>; 8], t: Seq<Wrapping<i32>>, n: int) requires forall|k: int| 0 <= k < 8 ==> s[k].0 as int == #[trigger] tmp(t, n, k) ensures s[0].0 as int == tmp(t, n, 0), s[1].0 as int == tmp(t, n, 1), s[2].0 as int == tmp(t, n, 2), s[3].0 as int == tmp(t, n, 3), s[4].0 as int == tmp(t, n, 4), s[5].0 as int == tmp(t, n, 5), s[6].0 as int == tmp(t, n, 6), s[7].0 as int == tmp(t, n, 7) {}
pub proof fn step_row(o0: Seq<u8>, o1: Seq<u8>, o: Seq<u8>, n: int, stride: int, c: Seq<i16>, q: Seq<u16>, t: Seq<Wrapping<i32>>, s: [Wrapping<i32>; 8], k: Kernel)
    requires 0 <= n < 8, stride >= 8, n * stride + 8 <= o0.len(), rows_done(o0, o1, c, q, stride, n), other_bytes(o1, o, n * stride),
        total(c, q) <= 16000 ==> cols_done(t, c, q, 8) && kernel_ok(s, 16842752, k), forall|k: int| 0 <= k < 8 ==> s[k].0 as int == #[trigger] tmp(t, n, k),
        total(c, q) <= 16000 ==> o[n * stride + 0] as int == clampi(kval(k, 0) / 131072) && o[n * stride + 1] as int == clampi(kval(k, 1) / 131072) && o[n * stride + 2] as int == clampi(kval(k, 2) / 131072) && o[n * stride + 3] as int == clampi(kval(k, 3) / 131072) && o[n * stride + 4] as int == clampi(kval(k, 4) / 131072) && o[n * stride + 5] as int == clampi(kval(k, 5) / 131072) && o[n * stride + 6] as int == clampi(kval(k, 6) / 131072) && o[n * stride + 7] as int == clampi(kval(k, 7) / 131072)
    ensures rows_done(o0, o, c, q, stride, n + 1)
{
    hide(px_ok); hide(exact8); hide(total); hide(lin_ok); hide(rows_done); hide(kernel_ok);
    if total(c, q) <= 16000 {
        kernel_vals(s, 16842752, k); tmps(s, t, n);
        lemma_px(t, c, q, n, 0, kval(k, 0) - 16842752, kval(k, 0) / 131072, o[n * stride + 0]); lemma_px(t, c, q, n, 1, kval(k, 1) - 16842752, kval(k, 1) / 131072, o[n * stride + 1]); lemma_px(t, c, q, n, 2, kval(k, 2) - 16842752, kval(k, 2) / 131072, o[n * stride + 2]); lemma_px(t, c, q, n, 3, kval(k, 3) - 16842752, kval(k, 3) / 131072, o[n * stride + 3]); lemma_px(t, c, q, n, 4, kval(k, 4) - 16842752, kval(k, 4) / 131072, o[n * stride + 4]); lemma_px(t, c, q, n, 5, kval(k, 5) - 16842752, kval(k, 5) / 131072, o[n * stride + 5]); lemma_px(t, c, q, n, 6, kval(k, 6) - 16842752, kval(k, 6) / 131072, o[n * stride + 6]); lemma_px(t, c, q, n, 7, kval(k, 7) - 16842752, kval(k, 7) / 131072, o[n * stride + 7]);
    }
    step_rows(o0, o1, o, n, stride, c, q);
}
pub proof fn row_is_small(t: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, n: int, s: [Wrapping<i32>; 8])
    requires 0 <= n < 8, total(c, q) <= 16000, cols_done(t, c, q, 8), forall|k: int| 0 <= k < 8 ==> s[k].0 as int == #[trigger] tmp(t, n, k)
    ensures small8(s), -100000 <= s[0].0 <= 100000
{ hide(total); hide(col_done); assert(all_done(t, c, q)); row_small(t, c, q, n); tmps(s, t, n); }
pub proof fn rows_all(o0: Seq<u8>, o: Seq<u8>, c: Seq<i16>, q: Seq<u16>, stride: int) requires rows_done(o0, o, c, q, stride, 8), stride >= 8 ensures outside(o0, o, stride, 8), block8_ok(c, q, o, stride) { hide(px_ok); hide(exact8); hide(total); }

pub proof fn small_of(s: [Wrapping<i32>; 8], a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) requires sum8(a, b, c, d, e, f, g, h) <= 16000, s[0].0 == a, s[1].0 == b, s[2].0 == c, s[3].0 == d, s[4].0 == e, s[5].0 == f, s[6].0 == g, s[7].0 == h ensures small8(s) {}
pub proof fn cols_none(t: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>) requires t.len() == 64 ensures cols_done(t, c, q, 0) {}
pub proof fn rows_none(o: Seq<u8>, c: Seq<i16>, q: Seq<u16>, stride: int) requires stride >= 8 ensures rows_done(o, o, c, q, stride, 0) {}
pub proof fn chunks_eight(len: int, stride: int) requires stride >= 8, len >= 7 * stride + 8 ensures chunks(len, stride) >= 8
{ assert((len + stride - 1) / stride >= 8) by (nonlinear_arith) requires len >= 7 * stride + 8, stride >= 8; }
//@fn src/idct.rs dequantize_and_idct_block_8x8_inner
//@rw kernel_pattern
//@sub `< 'a , I > ( coefficients : & [ i16 ; 64 ] , quantization_table : & [ u16 ; 64 ] , output : I , ) where $$w {` => `( coefficients : & [ i16 ; 64 ] , quantization_table : & [ u16 ; 64 ] , output_linestride : usize , output : & mut [ u8 ] ) {`
//@sub `let output = output . into_iter ( ) ;` => ``
//@sub `debug_assert ! ( output . len ( ) >= $n , $$m ) ;` => `assert_exec ( chunk_count ( output . len ( ) , output_linestride ) >= $n ) ;`
//@sub `for ( chunk , output_chunk ) in temp . chunks_exact ( 8 ) . zip ( output ) { let chunk = < & [ _ ; 8 ] > :: try_from ( chunk ) . unwrap ( ) ;` => `for ix in 0 .. min2 ( 8 , chunk_count ( output . len ( ) , output_linestride ) ) { let chunk = row8 ( & temp , ix ) ;`
//@sub `let output_chunk = & mut output_chunk [ .. 8 ] ;` => `assert_exec ( chunk_len ( output . len ( ) , output_linestride , ix ) >= 8 ) ;`
//@sub `output_chunk [ $k ] = $$e ;` => `output [ ix * output_linestride + $k ] = $$e ;`
//@sub `let ( s0 , rest ) = chunk . split_first ( ) . unwrap ( ) ;` => `let s0 = & chunk [ 0 ] ;`
//@sub `* rest == [ Wrapping ( 0 ) ; 7 ]` => `rest_is_zero ( & chunk )`
//@sub `* chunk` => `chunk`
//@sub `const X_SCALE : i32 = $$e ;` => `let x_scale : i32 = $$e ;`
//@sub `X_SCALE` => `x_scale`
/*@ #[verifier::rlimit(60)] #[verifier::spinoff_prover] @*/
fn dequantize_and_idct_block_8x8_inner(coefficients: & [i16; 64], quantization_table: & [u16; 64], output_linestride: usize, output: &mut [u8]) /*@
    requires output_linestride >= 8, old(output).len() >= 7 * output_linestride + 8,
    ensures outside(old(output)@, final(output)@, output_linestride as int, 8), block8_ok(coefficients@, quantization_table@, final(output)@, output_linestride as int) @*/   {
    /*@ hide(idct8); hide(tmp_ok); hide(lin_ok); hide(px_ok); hide(exact8); hide(total); hide(sum8); hide(dct8); hide(deq); hide(outside); hide(chunks); hide(cols_done); hide(rows_done); hide(kernel_ok); hide(small8); hide(colsum); hide(col8); hide(col_done); @*/
    /*@ let ghost (c, q, o0, stride) = (coefficients@, quantization_table@, output@, output_linestride as int); let ghost small = total(c, q) <= 16000;
        proof { chunks_eight(o0.len() as int, stride); assert(128i32 << 17 == 16777216i32) by (bit_vector); } @*/
    
    
    
    
    assert_exec(chunk_count(output.len(), output_linestride) >= 8);
    let mut temp = [Wrapping(0); 64];
    
    /*@ proof { cols_none(temp@, c, q); } @*/
    for i in 0..8 /*@ invariant c == coefficients@, q == quantization_table@, small == (total(c, q) <= 16000), small ==> cols_done(temp@, c, q, i as int), @*/ {
        /*@ let ghost before = temp@; proof { if small { col_small(c, q, i as int); } } @*/
        
        
        if coefficients[i + 8] == 0 && coefficients[i + 16] == 0 && coefficients[i + 24] == 0 && coefficients[i + 32] == 0 && coefficients[i + 40] == 0 && coefficients[i + 48] == 0 && coefficients[i + 56] == 0 {
            let dcterm = dequantize(coefficients[i], quantization_table[i]) << 2;
            temp[i] = dcterm;
            temp[i + 8] = dcterm;
            temp[i + 16] = dcterm;
            temp[i + 24] = dcterm;
            temp[i + 32] = dcterm;
            temp[i + 40] = dcterm;
            temp[i + 48] = dcterm;
            temp[i + 56] = dcterm;
            /*@ assert(other_cols(before, temp@, i as int)); proof { if small { assert(dcterm.0 == 4 * (c[i as int] * q[i as int])); step_col_dc(before, temp@, c, q, i as int, dcterm.0 as int); } } @*/
        } else {
            let s0 = dequantize(coefficients[i], quantization_table[i]);
            let s1 = dequantize(coefficients[i + 8], quantization_table[i + 8]);
            let s2 = dequantize(coefficients[i + 16], quantization_table[i + 16]);
            let s3 = dequantize(coefficients[i + 24], quantization_table[i + 24]);
            let s4 = dequantize(coefficients[i + 32], quantization_table[i + 32]);
            let s5 = dequantize(coefficients[i + 40], quantization_table[i + 40]);
            let s6 = dequantize(coefficients[i + 48], quantization_table[i + 48]);
            let s7 = dequantize(coefficients[i + 56], quantization_table[i + 56]);
            
            
            /*@ let ghost sv = [s0, s1, s2, s3, s4, s5, s6, s7]; proof { if small { small_of(sv, s0.0 as int, s1.0 as int, s2.0 as int, s3.0 as int, s4.0 as int, s5.0 as int, s6.0 as int, s7.0 as int); } } @*/
            let ker = kernel([s0, s1, s2, s3, s4, s5, s6, s7], 512,);
            /*@ proof { if small { assert(kernel_ok(sv, 512, ker)); kernel_vals(sv, 512, ker); } } @*/
            
            
            let(x0, x1, x2, x3) = (ker.xs[0], ker.xs[1], ker.xs[2], ker.xs[3]);
            let(t0, t1, t2, t3) = (ker.ts[0], ker.ts[1], ker.ts[2], ker.ts[3]);
            temp[i] = (x0 + t3) >> 10;
            temp[i + 56] = (x0 - t3) >> 10;
            temp[i + 8] = (x1 + t2) >> 10;
            temp[i + 48] = (x1 - t2) >> 10;
            temp[i + 16] = (x2 + t1) >> 10;
            temp[i + 40] = (x2 - t1) >> 10;
            temp[i + 24] = (x3 + t0) >> 10;
            temp[i + 32] = (x3 - t0) >> 10;
            /*@ assert(other_cols(before, temp@, i as int)); proof { if small { step_col(before, temp@, c, q, i as int, sv, ker); } } @*/
        }
    }
    
    /*@ proof { rows_none(o0, c, q, stride); } @*/
    for ix in /*@ it: @*/ 0..min2(8, chunk_count(output.len(), output_linestride)) /*@
        invariant it.iter.end == 8, c == coefficients@, q == quantization_table@, small == (total(c, q) <= 16000), stride == output_linestride, stride >= 8, o0.len() >= 7 * stride + 8, output.len() == o0.len(), 128i32 << 17 == 16777216i32,
            small ==> cols_done(temp@, c, q, 8), rows_done(o0, output@, c, q, stride, ix as int), @*/ {
        /*@ let ghost o1 = output@; let ghost at = ix * stride; assert(0 <= at <= 7 * stride && at == ix * output_linestride) by (nonlinear_arith) requires 0 <= ix < 8, stride >= 8, at == ix * stride, stride == output_linestride; @*/
        
        
        let chunk = row8(&temp, ix);
        let x_scale: i32 = 65536 + (128 << 17);
        assert_exec(chunk_len(output.len(), output_linestride, ix) >= 8);
        let s0 = &chunk[0];
        /*@ let ghost n = ix as int; proof { if small { row_is_small(temp@, c, q, n, chunk); } } @*/
        
        
        if rest_is_zero(&chunk) {
            let dcterm = stbi_clamp((stbi_fsh(* s0) + Wrapping(x_scale)) >> 17);
            output[ix * output_linestride + 0] = dcterm;
            output[ix * output_linestride + 1] = dcterm;
            output[ix * output_linestride + 2] = dcterm;
            output[ix * output_linestride + 3] = dcterm;
            output[ix * output_linestride + 4] = dcterm;
            output[ix * output_linestride + 5] = dcterm;
            output[ix * output_linestride + 6] = dcterm;
            output[ix * output_linestride + 7] = dcterm;
            /*@ assert(other_bytes(o1, output@, at)); proof { step_row_dc(o0, o1, output@, n, stride, c, q, temp@, chunk, (chunk[0].0 * 4096 + 16842752) / 131072); } @*/
        } else {
            let ker = kernel(chunk, x_scale);
            /*@ proof { if small { assert(kernel_ok(chunk, 16842752, ker)); kernel_vals(chunk, 16842752, ker); } } @*/
            
            let(x0, x1, x2, x3) = (ker.xs[0], ker.xs[1], ker.xs[2], ker.xs[3]);
            let(t0, t1, t2, t3) = (ker.ts[0], ker.ts[1], ker.ts[2], ker.ts[3]);
            output[ix * output_linestride + 0] = stbi_clamp((x0 + t3) >> 17);
            output[ix * output_linestride + 7] = stbi_clamp((x0 - t3) >> 17);
            output[ix * output_linestride + 1] = stbi_clamp((x1 + t2) >> 17);
            output[ix * output_linestride + 6] = stbi_clamp((x1 - t2) >> 17);
            output[ix * output_linestride + 2] = stbi_clamp((x2 + t1) >> 17);
            output[ix * output_linestride + 5] = stbi_clamp((x2 - t1) >> 17);
            output[ix * output_linestride + 3] = stbi_clamp((x3 + t0) >> 17);
            output[ix * output_linestride + 4] = stbi_clamp((x3 - t0) >> 17);
            /*@ assert(other_bytes(o1, output@, at)); proof { step_row(o0, o1, output@, n, stride, c, q, temp@, chunk, ker); } @*/
        }
    }
    
    /*@ proof { rows_all(o0, output@, c, q, stride); } @*/
}
//@end
/// the samples of a full-size block, as one line of 64
pub open spec fn block8_post(c: Seq<i16>, q: Seq<u16>, b: Seq<u8>) -> bool { block8_ok(c, q, b, 8) || simd_block(c, q, b) }
pub proof fn block8_cut(c: Seq<i16>, q: Seq<u16>, o: Seq<u8>, stride: int) requires block8_ok(c, q, o, stride) ensures block8_ok(c, q, cut(o, 0, stride, 8), 8) {
    hide(px_ok); hide(exact8); hide(total); hide(cut);
    if total(c, q) <= 16000 { assert forall|n: int, m: int| 0 <= n < 8 && 0 <= m < 8 implies px_ok(#[trigger] cut(o, 0, stride, 8)[n * 8 + m], exact8(c, q, n, m), total(c, q)) by { cut_at(o, stride, 8, n, m); assert(px_ok(o[n * stride + m], exact8(c, q, n, m), total(c, q))); } }
}
/// stands for the call through crate::arch::get_dequantize_and_idct_block_8x8: true if the block was done by it (unit ssse3)
#[verifier::external_body]
pub fn arch_idct(coefficients: &[i16; 64], quantization_table: &[u16; 64], output_linestride: usize, output: &mut [u8]) -> (r: bool)
    requires output_linestride >= 8, old(output).len() >= 7 * output_linestride + 8,
    ensures r ==> outside(old(output)@, final(output)@, output_linestride as int, 8) && simd_block(coefficients@, quantization_table@, cut(final(output)@, 0, output_linestride as int, 8)), !r ==> final(output)@ == old(output)@,
{ unimplemented!() }
//@fn src/idct.rs dequantize_and_idct_block_8x8
//@sub `if let Some ( $f ) = crate :: arch :: get_dequantize_and_idct_block_8x8 ( ) { unsafe { return $f ( $$a ) ; } }` => `if arch_idct ( $$a ) { return ; }`
//@sub `let $o = $o . chunks_mut ( $s ) ; dequantize_and_idct_block_8x8_inner ( $a , $b , $o )` => `dequantize_and_idct_block_8x8_inner ( $a , $b , $s , $o )`
pub fn dequantize_and_idct_block_8x8(
    coefficients: &[i16; 64],
    quantization_table: &[u16; 64],
    output_linestride: usize,
    output: &mut [u8],
) /*@ requires output_linestride >= 8, old(output).len() >= 7 * output_linestride + 8,
    ensures outside(old(output)@, final(output)@, output_linestride as int, 8),
        block8_post(coefficients@, quantization_table@, cut(final(output)@, 0, output_linestride as int, 8)), @*/
{
    /*@ hide(outside); hide(block8_ok); hide(cut); @*/
    if arch_idct(coefficients, quantization_table, output_linestride, output) {
        return;
    }
    dequantize_and_idct_block_8x8_inner(coefficients, quantization_table, output_linestride, output)
    /*@ ; proof { block8_cut(coefficients@, quantization_table@, output@, output_linestride as int); } @*/
}
//@end
