// ---- inverse DCT ---------------------------------------------------------------------------------------------
pub open spec fn abs(x: int) -> int { if x < 0 { -x } else { x } }
/// 10^7 sqrt(2) cos(j pi / 16), rounded
pub open spec fn cosq(j: int) -> int {
    if j == 0 { 14142136 } else if j == 1 { 13870398 } else if j == 2 { 13065630 } else if j == 3 { 11758756 } else if j == 4 { 10000000 } else if j == 5 { 7856950 } else if j == 6 { 5411961 } else if j == 7 { 2758994 } else { 0 }
}
pub open spec fn cos16(j: int) -> int {
    let k = j % 32; if k <= 8 { cosq(k) } else if k <= 16 { -cosq(16 - k) } else if k <= 24 { -cosq(k - 16) } else { cosq(32 - k) }
}
/// 10^7 times the DCT basis: weight of frequency k in sample n of 8
pub open spec fn dct8(n: int, k: int) -> int { if k == 0 { 10000000 } else { cos16((2 * n + 1) * k) } }
/// 10^7 times the 8-point inverse DCT (scaled by sqrt 8) at n
pub open spec fn idct8(n: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int {
    dct8(n, 0) * a + dct8(n, 1) * b + dct8(n, 2) * c + dct8(n, 3) * d + dct8(n, 4) * e + dct8(n, 5) * f + dct8(n, 6) * g + dct8(n, 7) * h
}
pub open spec fn sum8(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { abs(a) + abs(b) + abs(c) + abs(d) + abs(e) + abs(f) + abs(g) + abs(h) }
// precision of the constants: 1.92 units of 1/4096 per coefficient
/// r is 4096 times the transform of s, up to the precision of the constants
pub open spec fn even_ok(n: int, r: int, a: int, c: int, e: int, g: int) -> bool {
    abs(10000000 * r - 4096 * (dct8(n, 0) * a + dct8(n, 2) * c + dct8(n, 4) * e + dct8(n, 6) * g)) <= 19200000 * (abs(a) + abs(c) + abs(e) + abs(g))
}
pub open spec fn odd_ok(n: int, r: int, b: int, d: int, f: int, h: int) -> bool {
    abs(10000000 * r - 4096 * (dct8(n, 1) * b + dct8(n, 3) * d + dct8(n, 5) * f + dct8(n, 7) * h)) <= 19200000 * (abs(b) + abs(d) + abs(f) + abs(h))
}
pub open spec fn lin_ok(n: int, r: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> bool {
    abs(10000000 * r - 4096 * idct8(n, a, b, c, d, e, f, g, h)) <= 19200000 * sum8(a, b, c, d, e, f, g, h)
}
/// the basis has the values and symmetries of the cosine
pub proof fn lemma_basis()
    ensures
        dct8(0, 1) == 13870398, dct8(0, 2) == 13065630, dct8(0, 3) == 11758756, dct8(0, 4) == 10000000, dct8(0, 5) == 7856950, dct8(0, 6) == 5411961, dct8(0, 7) == 2758994,
        dct8(1, 1) == 11758756, dct8(1, 2) == 5411961, dct8(1, 3) == -2758994, dct8(1, 4) == -10000000, dct8(1, 5) == -13870398, dct8(1, 6) == -13065630, dct8(1, 7) == -7856950,
        dct8(2, 1) == 7856950, dct8(2, 2) == -5411961, dct8(2, 3) == -13870398, dct8(2, 4) == -10000000, dct8(2, 5) == 2758994, dct8(2, 6) == 13065630, dct8(2, 7) == 11758756,
        dct8(3, 1) == 2758994, dct8(3, 2) == -13065630, dct8(3, 3) == -7856950, dct8(3, 4) == 10000000, dct8(3, 5) == 11758756, dct8(3, 6) == -5411961, dct8(3, 7) == -13870398,
        forall|n: int| 0 <= n < 8 ==> #[trigger] dct8(n, 0) == 10000000,
        forall|n: int, k: int| 0 <= n < 8 && 0 <= k < 8 ==> #[trigger] dct8(n, k) == (if k % 2 == 0 { dct8(7 - n, k) } else { -dct8(7 - n, k) }),
        forall|n: int, k: int| 0 <= n < 8 && 0 <= k < 8 ==> abs(#[trigger] dct8(n, k)) <= 13870398,
{
    assert(forall|n: int, k: int| 0 <= n < 8 && 0 <= k < 8 ==> #[trigger] dct8(n, k) == (if k % 2 == 0 { dct8(7 - n, k) } else { -dct8(7 - n, k) }) && abs(dct8(n, k)) <= 13870398) by {
        assert forall|n: int, k: int| 0 <= n < 8 && 0 <= k < 8 implies #[trigger] dct8(n, k) == (if k % 2 == 0 { dct8(7 - n, k) } else { -dct8(7 - n, k) }) && abs(dct8(n, k)) <= 13870398 by {
            if n == 0 { basis_row(0, k); } else if n == 1 { basis_row(1, k); } else if n == 2 { basis_row(2, k); } else if n == 3 { basis_row(3, k); } else if n == 4 { basis_row(4, k); } else if n == 5 { basis_row(5, k); } else if n == 6 { basis_row(6, k); } else { basis_row(7, k); }
        }
    }
}
pub proof fn basis_row(n: int, k: int) requires 0 <= n < 8, 0 <= k < 8 ensures dct8(n, k) == (if k % 2 == 0 { dct8(7 - n, k) } else { -dct8(7 - n, k) }) && abs(dct8(n, k)) <= 13870398
{
    assert((2 * (7 - n) + 1) * k == 16 * k - (2 * n + 1) * k) by (nonlinear_arith);
    if k == 0 {} else if k == 1 {} else if k == 2 {} else if k == 3 {} else if k == 4 {} else if k == 5 {} else if k == 6 {} else {}
}
pub open spec fn small4(s: [Wrapping<i32>; 4]) -> bool { abs(s[0].0 as int) + abs(s[1].0 as int) + abs(s[2].0 as int) + abs(s[3].0 as int) <= 100000 }
pub open spec fn small8(s: [Wrapping<i32>; 8]) -> bool { sum8(s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int) <= 100000 }

// the linear forms the kernels compute
pub proof fn lemma_even0(a: int, c: int, e: int, g: int) ensures even_ok(0, 4096 * a + 5352 * c + 4096 * e + 2217 * g, a, c, e, g) { lemma_basis(); }
pub proof fn lemma_even1(a: int, c: int, e: int, g: int) ensures even_ok(1, 4096 * a + 2217 * c - 4096 * e - 5350 * g, a, c, e, g) { lemma_basis(); }
pub proof fn lemma_even2(a: int, c: int, e: int, g: int) ensures even_ok(2, 4096 * a - 2217 * c - 4096 * e + 5350 * g, a, c, e, g) { lemma_basis(); }
pub proof fn lemma_even3(a: int, c: int, e: int, g: int) ensures even_ok(3, 4096 * a - 5352 * c + 4096 * e - 2217 * g, a, c, e, g) { lemma_basis(); }
pub proof fn lemma_odd0(b: int, d: int, f: int, h: int) ensures odd_ok(0, 5683 * b + 4816 * d + 3219 * f + 1131 * h, b, d, f, h) { lemma_basis(); }
pub proof fn lemma_odd1(b: int, d: int, f: int, h: int) ensures odd_ok(1, 4816 * b - 1129 * d - 5681 * f - 3218 * h, b, d, f, h) { lemma_basis(); }
pub proof fn lemma_odd2(b: int, d: int, f: int, h: int) ensures odd_ok(2, 3219 * b - 5681 * d + 1132 * f + 4816 * h, b, d, f, h) { lemma_basis(); }
pub proof fn lemma_odd3(b: int, d: int, f: int, h: int) ensures odd_ok(3, 1131 * b - 3218 * d + 4816 * f - 5680 * h, b, d, f, h) { lemma_basis(); }
//@fn src/idct.rs stbi_clamp
//@rw clamp
fn stbi_clamp(x: Wrapping<i32>) -> /*@ (r: @*/ u8 /*@ ) ensures r as int == clampi(x.0 as int) @*/ {
    clamp_u8(x.0)
}
//@end
//@fn src/idct.rs stbi_fsh
fn stbi_fsh(x: Wrapping<i32>) -> /*@ (r: @*/ Wrapping<i32> /*@ ) ensures fits(x.0 * 4096) ==> r.0 == x.0 * 4096 @*/ {
    x << 12
}
//@end
//@fn src/idct.rs dequantize
//@rw i32_from
fn dequantize(c: i16, q: u16) -> /*@ (r: @*/ Wrapping<i32> /*@ ) ensures r.0 == c * q @*/ {
    /*@ assert(-2147450880 <= c * q <= 2147385345) by (nonlinear_arith) requires -32768 <= c <= 32767, 0 <= q <= 65535; @*/
    Wrapping(((c) as i32) * ((q) as i32))
}
//@end
//@item src/idct.rs Kernel
/*@ pub @*/ struct Kernel {
    /*@ pub @*/ xs: [Wrapping<i32>; 4],
    /*@ pub @*/ ts: [Wrapping<i32>; 4],
}
//@end
//@fn src/idct.rs kernel_x
//@rw f2f opassign mulc array_params late_pair
fn kernel_x(s: [Wrapping<i32>; 4], x_scale: i32) -> /*@ (r: @*/ [Wrapping<i32>; 4] /*@ )
    ensures small4(s) && 0 <= x_scale <= 20000000 ==> forall|n: int| 0 <= n < 4 ==> -1000000000 <= (#[trigger] r[n]).0 <= 1000000000 && even_ok(n, r[n].0 - x_scale, s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int) @*/ {
    /*@ hide(even_ok); @*/
    let (s0, s2, s4, s6) = (s[0], s[1], s[2], s[3]);
    /*@ let ghost sm = small4(s) && 0 <= x_scale <= 20000000; let ghost (a, c, e, g) = (s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int); let ghost (A, C, E, G) = (abs(a), abs(c), abs(e), abs(g));
        assert(-A <= a <= A && A >= 0 && -C <= c <= C && C >= 0 && -E <= e <= E && E >= 0 && -G <= g <= G && G >= 0 && (sm ==> A + C + E + G <= 100000));  @*/
    let t2;
    let t3;
    {
        let p2 = s2;
        /*@ assert(sm ==> p2.0 == 1 * c); @*/
        let p3 = s6;
        /*@ assert(sm ==> p3.0 == 1 * g); @*/
        let p1 = mulc(p2 + p3, 2217i32);
        /*@ assert(sm ==> p1.0 == 2217 * c + 2217 * g); @*/
        t2 = p1 + mulc(p3, -7567i32);
        /*@ assert(sm ==> t2.0 == 2217 * c - 5350 * g); @*/
        t3 = p1 + mulc(p2, 3135i32);
        /*@ assert(sm ==> t3.0 == 5352 * c + 2217 * g); @*/
    }
    let t0;
    let t1;
    {
        let p2 = s0;
        /*@ assert(sm ==> p2.0 == 1 * a); @*/
        let p3 = s4;
        /*@ assert(sm ==> p3.0 == 1 * e); @*/
        t0 = stbi_fsh(p2 + p3);
        /*@ assert(sm ==> t0.0 == 4096 * a + 4096 * e); @*/
        t1 = stbi_fsh(p2 - p3);
        /*@ assert(sm ==> t1.0 == 4096 * a - 4096 * e); @*/
    }
    let x0 = t0 + t3;
        /*@ assert(sm ==> x0.0 == 4096 * a + 5352 * c + 4096 * e + 2217 * g); @*/
    let x3 = t0 - t3;
        /*@ assert(sm ==> x3.0 == 4096 * a - 5352 * c + 4096 * e - 2217 * g); @*/
    let x1 = t1 + t2;
        /*@ assert(sm ==> x1.0 == 4096 * a + 2217 * c - 4096 * e - 5350 * g); @*/
    let x2 = t1 - t2;
        /*@ assert(sm ==> x2.0 == 4096 * a - 2217 * c - 4096 * e + 5350 * g); @*/
    let x_scale = Wrapping(x_scale);
    /*@ proof { if sm { lemma_even0(a, c, e, g); lemma_even1(a, c, e, g); lemma_even2(a, c, e, g); lemma_even3(a, c, e, g); assert(x0.0 + x_scale.0 - x_scale.0 == x0.0 && x1.0 + x_scale.0 - x_scale.0 == x1.0 && x2.0 + x_scale.0 - x_scale.0 == x2.0 && x3.0 + x_scale.0 - x_scale.0 == x3.0); } } @*/
    /*@ proof { if sm { lemma_even0(a, c, e, g); lemma_even1(a, c, e, g); lemma_even2(a, c, e, g); lemma_even3(a, c, e, g); assert(x0.0 + x_scale.0 - x_scale.0 == x0.0 && x1.0 + x_scale.0 - x_scale.0 == x1.0 && x2.0 + x_scale.0 - x_scale.0 == x2.0 && x3.0 + x_scale.0 - x_scale.0 == x3.0); } } @*/
    /*@ proof { if sm { lemma_even0(a, c, e, g); lemma_even1(a, c, e, g); lemma_even2(a, c, e, g); lemma_even3(a, c, e, g); assert(x0.0 + x_scale.0 - x_scale.0 == x0.0 && x1.0 + x_scale.0 - x_scale.0 == x1.0 && x2.0 + x_scale.0 - x_scale.0 == x2.0 && x3.0 + x_scale.0 - x_scale.0 == x3.0); } } @*/
    [x0 + x_scale, x1 + x_scale, x2 + x_scale, x3 + x_scale]
}
//@end
//@fn src/idct.rs kernel_t
//@rw f2f opassign mulc array_params late_pair
/*@ #[verifier::rlimit(40)] #[verifier::spinoff_prover] @*/
fn kernel_t(s: [Wrapping<i32>; 4]) -> /*@ (r: @*/ [Wrapping<i32>; 4] /*@ )
    ensures small4(s) ==> forall|n: int| 0 <= n < 4 ==> -1000000000 <= (#[trigger] r[n]).0 <= 1000000000 && odd_ok(3 - n, r[n].0 as int, s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int) @*/ {
    /*@ hide(odd_ok); @*/
    let (s1, s3, s5, s7) = (s[0], s[1], s[2], s[3]);
    /*@ let ghost sm = small4(s); let ghost (b, d, f, h) = (s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int); let ghost (B, D, F, H) = (abs(b), abs(d), abs(f), abs(h));
        assert(-B <= b <= B && B >= 0 && -D <= d <= D && D >= 0 && -F <= f <= F && F >= 0 && -H <= h <= H && H >= 0 && (sm ==> B + D + F + H <= 100000));  @*/
    let mut t0 = s7;
        /*@ assert(sm ==> t0.0 == 1 * h); @*/
    let mut t1 = s5;
        /*@ assert(sm ==> t1.0 == 1 * f); @*/
    let mut t2 = s3;
        /*@ assert(sm ==> t2.0 == 1 * d); @*/
    let mut t3 = s1;
        /*@ assert(sm ==> t3.0 == 1 * b); @*/
    let p3 = t0 + t2;
        /*@ assert(sm ==> p3.0 == 1 * d + 1 * h); @*/
    let p4 = t1 + t3;
        /*@ assert(sm ==> p4.0 == 1 * b + 1 * f); @*/
    let p1 = t0 + t3;
        /*@ assert(sm ==> p1.0 == 1 * b + 1 * h); @*/
    let p2 = t1 + t2;
        /*@ assert(sm ==> p2.0 == 1 * d + 1 * f); @*/
    let p5 = mulc(p3 + p4, 4816i32);
        /*@ assert(sm ==> p5.0 == 4816 * b + 4816 * d + 4816 * f + 4816 * h); @*/
    t0 = mulc(t0, 1223i32);
        /*@ assert(sm ==> t0.0 == 1223 * h); @*/
    t1 = mulc(t1, 8410i32);
        /*@ assert(sm ==> t1.0 == 8410 * f); @*/
    t2 = mulc(t2, 12586i32);
        /*@ assert(sm ==> t2.0 == 12586 * d); @*/
    t3 = mulc(t3, 6149i32);
        /*@ assert(sm ==> t3.0 == 6149 * b); @*/
    let p1 = p5 + mulc(p1, -3685i32);
        /*@ assert(sm ==> p1.0 == 1131 * b + 4816 * d + 4816 * f + 1131 * h); @*/
    let p2 = p5 + mulc(p2, -10497i32);
        /*@ assert(sm ==> p2.0 == 4816 * b - 5681 * d - 5681 * f + 4816 * h); @*/
    let p3 = mulc(p3, -8034i32);
        /*@ assert(sm ==> p3.0 == - 8034 * d - 8034 * h); @*/
    let p4 = mulc(p4, -1597i32);
        /*@ assert(sm ==> p4.0 == - 1597 * b - 1597 * f); @*/
    t3 = t3 + (p1 + p4);
        /*@ assert(sm ==> t3.0 == 5683 * b + 4816 * d + 3219 * f + 1131 * h); @*/
    t2 = t2 + (p2 + p3);
        /*@ assert(sm ==> t2.0 == 4816 * b - 1129 * d - 5681 * f - 3218 * h); @*/
    t1 = t1 + (p2 + p4);
        /*@ assert(sm ==> t1.0 == 3219 * b - 5681 * d + 1132 * f + 4816 * h); @*/
    t0 = t0 + (p1 + p3);
        /*@ assert(sm ==> t0.0 == 1131 * b - 3218 * d + 4816 * f - 5680 * h); @*/
    /*@ proof { if sm { lemma_odd0(b, d, f, h); lemma_odd1(b, d, f, h); lemma_odd2(b, d, f, h); lemma_odd3(b, d, f, h); } } @*/
    /*@ proof { if sm { lemma_odd0(b, d, f, h); lemma_odd1(b, d, f, h); lemma_odd2(b, d, f, h); lemma_odd3(b, d, f, h); } } @*/
    /*@ proof { if sm { lemma_odd0(b, d, f, h); lemma_odd1(b, d, f, h); lemma_odd2(b, d, f, h); lemma_odd3(b, d, f, h); } } @*/
    [t0, t1, t2, t3]
}
//@end
pub proof fn lemma_combine(n: int, x: int, t: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires 0 <= n < 4, even_ok(n, x, a, c, e, g), odd_ok(n, t, b, d, f, h)
    ensures lin_ok(n, x + t, a, b, c, d, e, f, g, h), lin_ok(7 - n, x - t, a, b, c, d, e, f, g, h)
{
    lemma_basis();
    let ev = dct8(n, 0) * a + dct8(n, 2) * c + dct8(n, 4) * e + dct8(n, 6) * g;
    let od = dct8(n, 1) * b + dct8(n, 3) * d + dct8(n, 5) * f + dct8(n, 7) * h;
    assert(idct8(n, a, b, c, d, e, f, g, h) == ev + od);
    assert(dct8(7 - n, 1) * b == -(dct8(n, 1) * b)) by (nonlinear_arith) requires dct8(7 - n, 1) == -dct8(n, 1);
    assert(dct8(7 - n, 3) * d == -(dct8(n, 3) * d)) by (nonlinear_arith) requires dct8(7 - n, 3) == -dct8(n, 3);
    assert(dct8(7 - n, 5) * f == -(dct8(n, 5) * f)) by (nonlinear_arith) requires dct8(7 - n, 5) == -dct8(n, 5);
    assert(dct8(7 - n, 7) * h == -(dct8(n, 7) * h)) by (nonlinear_arith) requires dct8(7 - n, 7) == -dct8(n, 7);
    assert(idct8(7 - n, a, b, c, d, e, f, g, h) == ev - od);
}
pub open spec fn kernel_ok(s: [Wrapping<i32>; 8], x_scale: int, k: Kernel) -> bool {
    forall|n: int| 0 <= n < 4 ==> {
        &&& -1000000000 <= (#[trigger] k.xs[n]).0 <= 1000000000 && -1000000000 <= k.ts[3 - n].0 <= 1000000000
        &&& lin_ok(n, k.xs[n].0 + k.ts[3 - n].0 - x_scale, s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int)
        &&& lin_ok(7 - n, k.xs[n].0 - k.ts[3 - n].0 - x_scale, s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int)
    }
}
//@fn src/idct.rs kernel
//@rw array_params
fn kernel(s: [Wrapping<i32>; 8], x_scale: i32) -> /*@ (r: @*/ Kernel /*@ )
    ensures small8(s) && 0 <= x_scale <= 20000000 ==> kernel_ok(s, x_scale as int, r) @*/ {
    /*@ hide(even_ok); hide(odd_ok); hide(lin_ok); @*/
    let (s0, s1, s2, s3, s4, s5, s6, s7) = (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    /*@ proof {
        let (a, b, c, d, e, f, g, h) = (s0.0 as int, s1.0 as int, s2.0 as int, s3.0 as int, s4.0 as int, s5.0 as int, s6.0 as int, s7.0 as int);
        assert(small8(s) ==> small4([s0, s2, s4, s6]) && small4([s1, s3, s5, s7]));
        assert forall|n: int, x: int, t: int| 0 <= n < 4 && #[trigger] even_ok(n, x, a, c, e, g) && #[trigger] odd_ok(n, t, b, d, f, h) implies lin_ok(n, x + t, a, b, c, d, e, f, g, h) && lin_ok(7 - n, x - t, a, b, c, d, e, f, g, h) by { lemma_combine(n, x, t, a, b, c, d, e, f, g, h); }
    } @*/
    Kernel {
        xs: kernel_x([s0, s2, s4, s6], x_scale),
        ts: kernel_t([s1, s3, s5, s7]),
    }
}
//@end

// ---- 8x8 -------------------------------------------------------------------------------------------------------
pub open spec fn deq(c: Seq<i16>, q: Seq<u16>, j: int) -> int { c[j] * q[j] }
/// transform of column i at row n, times 10^7
pub open spec fn col8(c: Seq<i16>, q: Seq<u16>, n: int, i: int) -> int { idct8(n, deq(c, q, i), deq(c, q, 8 + i), deq(c, q, 16 + i), deq(c, q, 24 + i), deq(c, q, 32 + i), deq(c, q, 40 + i), deq(c, q, 48 + i), deq(c, q, 56 + i)) }
pub open spec fn colsum(c: Seq<i16>, q: Seq<u16>, i: int) -> int { sum8(deq(c, q, i), deq(c, q, 8 + i), deq(c, q, 16 + i), deq(c, q, 24 + i), deq(c, q, 32 + i), deq(c, q, 40 + i), deq(c, q, 48 + i), deq(c, q, 56 + i)) }
/// 8 * 10^14 times the exact sample (before level shift) at row n, column m
pub open spec fn exact8(c: Seq<i16>, q: Seq<u16>, n: int, m: int) -> int { idct8(m, col8(c, q, n, 0), col8(c, q, n, 1), col8(c, q, n, 2), col8(c, q, n, 3), col8(c, q, n, 4), col8(c, q, n, 5), col8(c, q, n, 6), col8(c, q, n, 7)) }
/// sum of the magnitudes of all dequantized coefficients
pub open spec fn total(c: Seq<i16>, q: Seq<u16>) -> int { colsum(c, q, 0) + colsum(c, q, 1) + colsum(c, q, 2) + colsum(c, q, 3) + colsum(c, q, 4) + colsum(c, q, 5) + colsum(c, q, 6) + colsum(c, q, 7) }
/// out is within 5/8 + s/6000 levels of the exact sample x / (8 * 10^14), level-shifted and clamped
pub open spec fn px_ok(out: u8, x: int, s: int) -> bool {
    exists|v: int| #[trigger] clampi(v) == out && abs(800000000000000 * (v - 128) - x) <= 500000000000000 + s * 133333333333
}
pub open spec fn block8_ok(c: Seq<i16>, q: Seq<u16>, o: Seq<u8>, stride: int) -> bool {
    total(c, q) <= 16000 ==> forall|n: int, m: int| 0 <= n < 8 && 0 <= m < 8 ==> px_ok(#[trigger] o[n * stride + m], exact8(c, q, n, m), total(c, q))
}
/// out is within one level of the exact sample
pub open spec fn px_simd(out: u8, x: int) -> bool { exists|v: int| #[trigger] clampi(v) == out && abs(800000000000000 * (v - 128) - x) <= 800000000000000 }
/// what the SIMD transform guarantees for a block, as one line of 64
pub open spec fn simd_block(c: Seq<i16>, q: Seq<u16>, b: Seq<u8>) -> bool { total(c, q) <= 800 ==> forall|n: int, m: int| 0 <= n < 8 && 0 <= m < 8 ==> px_simd(#[trigger] b[n * 8 + m], exact8(c, q, n, m)) }
//@include cut.inc.rs
//@include cutlem.inc.rs
pub open spec fn tmp_ok(t: int, lin: int, sum: int) -> bool { abs(10240000000 * t - 4096 * lin) <= 19200000 * sum + 5120000000 }
pub open spec fn tmp(t: Seq<Wrapping<i32>>, n: int, i: int) -> int { t[8 * n + i].0 as int }
pub open spec fn col_done(t: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, i: int) -> bool { forall|n: int| 0 <= n < 8 ==> tmp_ok(#[trigger] tmp(t, n, i), col8(c, q, n, i), colsum(c, q, i)) }
pub proof fn lemma_tmp(n: int, r: int, t: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires lin_ok(n, r, a, b, c, d, e, f, g, h), 1024 * t <= r + 512 < 1024 * (t + 1) ensures tmp_ok(t, idct8(n, a, b, c, d, e, f, g, h), sum8(a, b, c, d, e, f, g, h)) { }
pub proof fn lemma_tmp_dc(n: int, a: int) requires 0 <= n < 8 ensures idct8(n, a, 0, 0, 0, 0, 0, 0, 0) == 10000000 * a, tmp_ok(4 * a, idct8(n, a, 0, 0, 0, 0, 0, 0, 0), sum8(a, 0, 0, 0, 0, 0, 0, 0)) { lemma_basis(); }
pub proof fn lemma_rowsum(n: int) requires 0 <= n < 8 ensures sum8(dct8(n, 0), dct8(n, 1), dct8(n, 2), dct8(n, 3), dct8(n, 4), dct8(n, 5), dct8(n, 6), dct8(n, 7)) <= 75000000
{ lemma_basis(); if n == 0 {} else if n == 1 {} else if n == 2 {} else if n == 3 {} else if n == 4 { assert(dct8(4, 1) == -dct8(3, 1)); } else if n == 5 {} else if n == 6 {} else {} }
pub proof fn lemma_scale(d: int, t: int, l: int, e: int, s: int)
    requires 10240000000 * t == 4096 * l + e, abs(e) <= 19200000 * s + 5120000000, abs(d) <= 13870398, s >= 0
    ensures 10240000000 * (d * t) == 4096 * (d * l) + d * e, abs(d * e) <= 13870398 * (19200000 * s) + abs(d) * 5120000000
{
    assert(10240000000 * (d * t) == d * (10240000000 * t)) by (nonlinear_arith);
    assert(d * (4096 * l + e) == 4096 * (d * l) + d * e) by (nonlinear_arith);
    assert(abs(d * e) <= abs(d) * abs(e)) by (nonlinear_arith);
    assert(abs(d) * abs(e) <= abs(d) * (19200000 * s + 5120000000)) by (nonlinear_arith) requires abs(e) <= 19200000 * s + 5120000000;
    assert(abs(d) * (19200000 * s + 5120000000) == abs(d) * (19200000 * s) + abs(d) * 5120000000) by (nonlinear_arith);
    assert(abs(d) * (19200000 * s) <= 13870398 * (19200000 * s)) by (nonlinear_arith) requires abs(d) <= 13870398, s >= 0;
}
pub proof fn mul_bound(d: int, x: int) requires abs(d) <= 13870398 ensures abs(d * x) <= 13870398 * abs(x)
{ assert(abs(d * x) <= 13870398 * abs(x)) by (nonlinear_arith) requires -13870398 <= d <= 13870398; }
/// size of a transform
pub proof fn lemma_size(n: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) requires 0 <= n < 8
    ensures abs(idct8(n, a, b, c, d, e, f, g, h)) <= 13870398 * sum8(a, b, c, d, e, f, g, h)
{
    hide(dct8); hide(abs);
    basis_row(n, 0); mul_bound(dct8(n, 0), a);
    basis_row(n, 1); mul_bound(dct8(n, 1), b);
    basis_row(n, 2); mul_bound(dct8(n, 2), c);
    basis_row(n, 3); mul_bound(dct8(n, 3), d);
    basis_row(n, 4); mul_bound(dct8(n, 4), e);
    basis_row(n, 5); mul_bound(dct8(n, 5), f);
    basis_row(n, 6); mul_bound(dct8(n, 6), g);
    basis_row(n, 7); mul_bound(dct8(n, 7), h);
    sum_abs(dct8(n, 0) * a, dct8(n, 1) * b, dct8(n, 2) * c, dct8(n, 3) * d, dct8(n, 4) * e, dct8(n, 5) * f, dct8(n, 6) * g, dct8(n, 7) * h);
}
pub proof fn lemma_tmp_size(t: int, l: int, s: int) requires tmp_ok(t, l, s), abs(l) <= 13870398 * s, s >= 0 ensures 10240000000 * abs(t) <= 56833270208 * s + 5120000000 { }
pub proof fn tmp_is(t: int, l: int, s: int) requires tmp_ok(t, l, s) ensures abs(10240000000 * t - 4096 * l) <= 19200000 * s + 5120000000 { }
/// the transform of approximate values
pub proof fn lemma_weighted(d0: int, d1: int, d2: int, d3: int, d4: int, d5: int, d6: int, d7: int, t0: int, t1: int, t2: int, t3: int, t4: int, t5: int, t6: int, t7: int, l0: int, l1: int, l2: int, l3: int, l4: int, l5: int, l6: int, l7: int, s0: int, s1: int, s2: int, s3: int, s4: int, s5: int, s6: int, s7: int)
    requires tmp_ok(t0, l0, s0) && s0 >= 0, tmp_ok(t1, l1, s1) && s1 >= 0, tmp_ok(t2, l2, s2) && s2 >= 0, tmp_ok(t3, l3, s3) && s3 >= 0, tmp_ok(t4, l4, s4) && s4 >= 0, tmp_ok(t5, l5, s5) && s5 >= 0, tmp_ok(t6, l6, s6) && s6 >= 0, tmp_ok(t7, l7, s7) && s7 >= 0, abs(d0) <= 13870398, abs(d1) <= 13870398, abs(d2) <= 13870398, abs(d3) <= 13870398, abs(d4) <= 13870398, abs(d5) <= 13870398, abs(d6) <= 13870398, abs(d7) <= 13870398, abs(d0) + abs(d1) + abs(d2) + abs(d3) + abs(d4) + abs(d5) + abs(d6) + abs(d7) <= 75000000
    ensures ({ let x = d0 * t0 + d1 * t1 + d2 * t2 + d3 * t3 + d4 * t4 + d5 * t5 + d6 * t6 + d7 * t7; let y = d0 * l0 + d1 * l1 + d2 * l2 + d3 * l3 + d4 * l4 + d5 * l5 + d6 * l6 + d7 * l7; abs(10240000000 * x - 4096 * y) <= 13870398 * (19200000 * (s0 + s1 + s2 + s3 + s4 + s5 + s6 + s7)) + 5120000000 * 75000000 })
{
    hide(tmp_ok); hide(abs);
    tmp_is(t0, l0, s0); lemma_scale(d0, t0, l0, 10240000000 * t0 - 4096 * l0, s0);
    tmp_is(t1, l1, s1); lemma_scale(d1, t1, l1, 10240000000 * t1 - 4096 * l1, s1);
    tmp_is(t2, l2, s2); lemma_scale(d2, t2, l2, 10240000000 * t2 - 4096 * l2, s2);
    tmp_is(t3, l3, s3); lemma_scale(d3, t3, l3, 10240000000 * t3 - 4096 * l3, s3);
    tmp_is(t4, l4, s4); lemma_scale(d4, t4, l4, 10240000000 * t4 - 4096 * l4, s4);
    tmp_is(t5, l5, s5); lemma_scale(d5, t5, l5, 10240000000 * t5 - 4096 * l5, s5);
    tmp_is(t6, l6, s6); lemma_scale(d6, t6, l6, 10240000000 * t6 - 4096 * l6, s6);
    tmp_is(t7, l7, s7); lemma_scale(d7, t7, l7, 10240000000 * t7 - 4096 * l7, s7);
    sum_abs(d0 * (10240000000 * t0 - 4096 * l0), d1 * (10240000000 * t1 - 4096 * l1), d2 * (10240000000 * t2 - 4096 * l2), d3 * (10240000000 * t3 - 4096 * l3), d4 * (10240000000 * t4 - 4096 * l4), d5 * (10240000000 * t5 - 4096 * l5), d6 * (10240000000 * t6 - 4096 * l6), d7 * (10240000000 * t7 - 4096 * l7));
}
pub proof fn sum_abs(z0: int, z1: int, z2: int, z3: int, z4: int, z5: int, z6: int, z7: int) ensures abs(z0 + z1 + z2 + z3 + z4 + z5 + z6 + z7) <= abs(z0) + abs(z1) + abs(z2) + abs(z3) + abs(z4) + abs(z5) + abs(z6) + abs(z7) { }
/// the second pass: v is the sample computed from the row t
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn lemma_row(m: int, r: int, v: int, t0: int, t1: int, t2: int, t3: int, t4: int, t5: int, t6: int, t7: int, l0: int, l1: int, l2: int, l3: int, l4: int, l5: int, l6: int, l7: int, s0: int, s1: int, s2: int, s3: int, s4: int, s5: int, s6: int, s7: int, s: int)
    requires 0 <= m < 8, lin_ok(m, r, t0, t1, t2, t3, t4, t5, t6, t7), 131072 * v <= r + 16842752 < 131072 * (v + 1),
        tmp_ok(t0, l0, s0) && s0 >= 0, tmp_ok(t1, l1, s1) && s1 >= 0, tmp_ok(t2, l2, s2) && s2 >= 0, tmp_ok(t3, l3, s3) && s3 >= 0, tmp_ok(t4, l4, s4) && s4 >= 0, tmp_ok(t5, l5, s5) && s5 >= 0, tmp_ok(t6, l6, s6) && s6 >= 0, tmp_ok(t7, l7, s7) && s7 >= 0,
        abs(l0) <= 13870398 * s0, abs(l1) <= 13870398 * s1, abs(l2) <= 13870398 * s2, abs(l3) <= 13870398 * s3, abs(l4) <= 13870398 * s4, abs(l5) <= 13870398 * s5, abs(l6) <= 13870398 * s6, abs(l7) <= 13870398 * s7, s == s0 + s1 + s2 + s3 + s4 + s5 + s6 + s7,
    ensures abs(800000000000000 * (v - 128) - idct8(m, l0, l1, l2, l3, l4, l5, l6, l7)) <= 500000000000000 + s * 133333333333,
{
    hide(dct8); hide(tmp_ok);
    lemma_rowsum(m); basis_row(m, 0); basis_row(m, 1); basis_row(m, 2); basis_row(m, 3); basis_row(m, 4); basis_row(m, 5); basis_row(m, 6); basis_row(m, 7);
    lemma_tmp_size(t0, l0, s0);
    lemma_tmp_size(t1, l1, s1);
    lemma_tmp_size(t2, l2, s2);
    lemma_tmp_size(t3, l3, s3);
    lemma_tmp_size(t4, l4, s4);
    lemma_tmp_size(t5, l5, s5);
    lemma_tmp_size(t6, l6, s6);
    lemma_tmp_size(t7, l7, s7);
    lemma_weighted(dct8(m, 0), dct8(m, 1), dct8(m, 2), dct8(m, 3), dct8(m, 4), dct8(m, 5), dct8(m, 6), dct8(m, 7), t0, t1, t2, t3, t4, t5, t6, t7, l0, l1, l2, l3, l4, l5, l6, l7, s0, s1, s2, s3, s4, s5, s6, s7);
    let x = idct8(m, t0, t1, t2, t3, t4, t5, t6, t7); let y = idct8(m, l0, l1, l2, l3, l4, l5, l6, l7); let st = sum8(t0, t1, t2, t3, t4, t5, t6, t7);
    assert(10240000000 * st <= 56833270208 * s + 8 * 5120000000);
    row_final(r, v, s, st, x, y, 10240000000 * x - 4096 * y);
}
pub proof fn row_final(r: int, v: int, s: int, st: int, x: int, y: int, z: int)
    requires 131072 * v <= r + 16842752 < 131072 * (v + 1), 10240000000 * x == 4096 * y + z, abs(z) <= 13870398 * (19200000 * s) + 5120000000 * 75000000, 10240000000 * st <= 56833270208 * s + 8 * 5120000000, abs(10000000 * r - 4096 * x) <= 19200000 * st, s >= 0
    ensures abs(800000000000000 * (v - 128) - y) <= 500000000000000 + s * 133333333333
{ }

/// number and lengths of the chunks of chunks_mut(stride)
pub open spec fn chunks(len: int, stride: int) -> int { (len + stride - 1) / stride }
pub fn chunk_count(len: usize, stride: usize) -> (r: usize) requires stride > 0 ensures r == chunks(len as int, stride as int)
{
    proof { assert(len as int == stride * (len as int / stride as int) + len as int % stride as int) by (nonlinear_arith) requires stride > 0; let a = len as int / stride as int; let b = len as int % stride as int; let s = stride as int;
        assert(0 <= a <= len) by (nonlinear_arith) requires len as int == s * a + b, 0 <= b < s, s > 0;
        if b == 0 { assert((s * a + s - 1) / s == a) by (nonlinear_arith) requires s > 0; assert(a <= len); } else { assert((s * a + b + s - 1) / s == a + 1) by (nonlinear_arith) requires 0 < b < s;
            assert(a < len) by (nonlinear_arith) requires len as int == s * a + b, 0 < b, s >= 1, a >= 0; } }
    len / stride + if len % stride == 0 { 0 } else { 1 }
}
pub fn chunk_len(len: usize, stride: usize, i: usize) -> (r: usize) requires 0 <= i * stride < len ensures r == if len - i * stride < stride { len - i * stride } else { stride as int }
{ if len - i * stride < stride { len - i * stride } else { stride } }
pub fn row8(t: &[Wrapping<i32>; 64], i: usize) -> (r: [Wrapping<i32>; 8]) requires i < 8 ensures forall|k: int| 0 <= k < 8 ==> #[trigger] r[k] == t[8 * i + k], forall|k: int| 0 <= k < 8 ==> r[k].0 as int == #[trigger] tmp(t@, i as int, k)
{ let r = [t[8 * i], t[8 * i + 1], t[8 * i + 2], t[8 * i + 3], t[8 * i + 4], t[8 * i + 5], t[8 * i + 6], t[8 * i + 7]]; assert(forall|k: int| 0 <= k < 8 ==> #[trigger] r[k] == t[8 * i + k]); r }
pub fn rest_is_zero(s: &[Wrapping<i32>; 8]) -> (r: bool) ensures r == (forall|k: int| 1 <= k < 8 ==> (#[trigger] s[k]).0 == 0)
{ s[1].0 == 0 && s[2].0 == 0 && s[3].0 == 0 && s[4].0 == 0 && s[5].0 == 0 && s[6].0 == 0 && s[7].0 == 0 }

pub proof fn colsum_pos(c: Seq<i16>, q: Seq<u16>, i: int) ensures colsum(c, q, i) >= 0, abs(deq(c, q, i)) <= colsum(c, q, i), abs(deq(c, q, 8 + i)) <= colsum(c, q, i), abs(deq(c, q, 16 + i)) <= colsum(c, q, i), abs(deq(c, q, 24 + i)) <= colsum(c, q, i), abs(deq(c, q, 32 + i)) <= colsum(c, q, i), abs(deq(c, q, 40 + i)) <= colsum(c, q, i), abs(deq(c, q, 48 + i)) <= colsum(c, q, i), abs(deq(c, q, 56 + i)) <= colsum(c, q, i) { hide(deq); }
pub proof fn lemma_col_small(c: Seq<i16>, q: Seq<u16>, i: int) requires 0 <= i < 8 ensures colsum(c, q, i) <= total(c, q)
{ hide(colsum); colsum_pos(c, q, 0); colsum_pos(c, q, 1); colsum_pos(c, q, 2); colsum_pos(c, q, 3); colsum_pos(c, q, 4); colsum_pos(c, q, 5); colsum_pos(c, q, 6); colsum_pos(c, q, 7); if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else {} }
pub proof fn deq_zero(c: Seq<i16>, q: Seq<u16>, j: int) requires c[j] == 0 ensures deq(c, q, j) == 0 {}
pub proof fn col_index(n: int, k: int, i: int) requires 0 <= n < 8, 0 <= k < i < 8 ensures 0 <= 8 * n + k < 64, 8 * n + k != 0 + i, 8 * n + k != 8 + i, 8 * n + k != 16 + i, 8 * n + k != 24 + i, 8 * n + k != 32 + i, 8 * n + k != 40 + i, 8 * n + k != 48 + i, 8 * n + k != 56 + i {}
pub proof fn keep_col(a: Seq<Wrapping<i32>>, b: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, k: int) requires col_done(a, c, q, k), forall|n: int| 0 <= n < 8 ==> #[trigger] tmp(b, n, k) == tmp(a, n, k) ensures col_done(b, c, q, k)
{ assert forall|n: int| 0 <= n < 8 implies tmp_ok(#[trigger] tmp(b, n, k), col8(c, q, n, k), colsum(c, q, k)) by { assert(tmp_ok(tmp(a, n, k), col8(c, q, n, k), colsum(c, q, k))); } }
pub proof fn eight(n: int) requires 0 <= n < 8 ensures n == 0 || n == 1 || n == 2 || n == 3 || n == 4 || n == 5 || n == 6 || n == 7 {}
pub open spec fn all_done(t: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>) -> bool { forall|k: int| 0 <= k < 8 ==> #[trigger] col_done(t, c, q, k) }
/// the facts about row n of the intermediate result
pub proof fn row_small(t: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, n: int)
    requires 0 <= n < 8, total(c, q) <= 16000, all_done(t, c, q)
    ensures sum8(tmp(t, n, 0), tmp(t, n, 1), tmp(t, n, 2), tmp(t, n, 3), tmp(t, n, 4), tmp(t, n, 5), tmp(t, n, 6), tmp(t, n, 7)) <= 100000
{
    hide(tmp_ok); hide(idct8);
    assert(col_done(t, c, q, 0)); col_fact(t, c, q, n, 0); assert(col_done(t, c, q, 1)); col_fact(t, c, q, n, 1); assert(col_done(t, c, q, 2)); col_fact(t, c, q, n, 2); assert(col_done(t, c, q, 3)); col_fact(t, c, q, n, 3); assert(col_done(t, c, q, 4)); col_fact(t, c, q, n, 4); assert(col_done(t, c, q, 5)); col_fact(t, c, q, n, 5); assert(col_done(t, c, q, 6)); col_fact(t, c, q, n, 6); assert(col_done(t, c, q, 7)); col_fact(t, c, q, n, 7);
}
pub proof fn col_fact(t: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, n: int, k: int) requires 0 <= n < 8, col_done(t, c, q, k)
    ensures tmp_ok(tmp(t, n, k), col8(c, q, n, k), colsum(c, q, k)), abs(col8(c, q, n, k)) <= 13870398 * colsum(c, q, k), colsum(c, q, k) >= 0, 10240000000 * abs(tmp(t, n, k)) <= 56833270208 * colsum(c, q, k) + 5120000000
{
    hide(idct8);
    assert(tmp_ok(tmp(t, n, k), col8(c, q, n, k), colsum(c, q, k)));
    lemma_size(n, deq(c, q, k), deq(c, q, 8 + k), deq(c, q, 16 + k), deq(c, q, 24 + k), deq(c, q, 32 + k), deq(c, q, 40 + k), deq(c, q, 48 + k), deq(c, q, 56 + k));
    lemma_tmp_size(tmp(t, n, k), col8(c, q, n, k), colsum(c, q, k));
}
pub proof fn lemma_row_dc(s: [Wrapping<i32>; 8], m: int) requires forall|k: int| 1 <= k < 8 ==> (#[trigger] s[k]).0 == 0
    ensures forall|m: int| 0 <= m < 8 ==> #[trigger] lin_ok(m, s[0].0 * 4096, s[0].0 as int, s[1].0 as int, s[2].0 as int, s[3].0 as int, s[4].0 as int, s[5].0 as int, s[6].0 as int, s[7].0 as int)
{ lemma_basis(); }
pub proof fn lemma_px(t: Seq<Wrapping<i32>>, c: Seq<i16>, q: Seq<u16>, n: int, m: int, r: int, v: int, out: u8)
    requires 0 <= n < 8, 0 <= m < 8, total(c, q) <= 16000, all_done(t, c, q), lin_ok(m, r, tmp(t, n, 0), tmp(t, n, 1), tmp(t, n, 2), tmp(t, n, 3), tmp(t, n, 4), tmp(t, n, 5), tmp(t, n, 6), tmp(t, n, 7)), 131072 * v <= r + 16842752 < 131072 * (v + 1), out == clampi(v)
    ensures px_ok(out, exact8(c, q, n, m), total(c, q))
{
    hide(idct8); hide(tmp_ok); hide(lin_ok);
    assert(col_done(t, c, q, 0)); col_fact(t, c, q, n, 0); assert(col_done(t, c, q, 1)); col_fact(t, c, q, n, 1); assert(col_done(t, c, q, 2)); col_fact(t, c, q, n, 2); assert(col_done(t, c, q, 3)); col_fact(t, c, q, n, 3); assert(col_done(t, c, q, 4)); col_fact(t, c, q, n, 4); assert(col_done(t, c, q, 5)); col_fact(t, c, q, n, 5); assert(col_done(t, c, q, 6)); col_fact(t, c, q, n, 6); assert(col_done(t, c, q, 7)); col_fact(t, c, q, n, 7);
    lemma_row(m, r, v, tmp(t, n, 0), tmp(t, n, 1), tmp(t, n, 2), tmp(t, n, 3), tmp(t, n, 4), tmp(t, n, 5), tmp(t, n, 6), tmp(t, n, 7), col8(c, q, n, 0), col8(c, q, n, 1), col8(c, q, n, 2), col8(c, q, n, 3), col8(c, q, n, 4), col8(c, q, n, 5), col8(c, q, n, 6), col8(c, q, n, 7), colsum(c, q, 0), colsum(c, q, 1), colsum(c, q, 2), colsum(c, q, 3), colsum(c, q, 4), colsum(c, q, 5), colsum(c, q, 6), colsum(c, q, 7), total(c, q));
    assert(clampi(v) == out);
}
/// one output row
pub proof fn row_written(o0: Seq<u8>, o1: Seq<u8>, o: Seq<u8>, n: int, stride: int, c: Seq<i16>, q: Seq<u16>)
    requires 0 <= n < 8, stride >= 8, o.len() == o0.len(), o1.len() == o0.len(), n * stride + 8 <= o0.len(), n * stride >= 0,
        forall|j: int| 0 <= j < o.len() && !(n * stride <= j < n * stride + 8) ==> #[trigger] o[j] == o1[j],
        forall|j: int| 0 <= j < o0.len() && !(j / stride < n && j % stride < 8) ==> #[trigger] o1[j] == o0[j],
        total(c, q) <= 16000 ==> px_ok(o[n * stride + 0], exact8(c, q, n, 0), total(c, q)) && px_ok(o[n * stride + 1], exact8(c, q, n, 1), total(c, q)) && px_ok(o[n * stride + 2], exact8(c, q, n, 2), total(c, q)) && px_ok(o[n * stride + 3], exact8(c, q, n, 3), total(c, q)) && px_ok(o[n * stride + 4], exact8(c, q, n, 4), total(c, q)) && px_ok(o[n * stride + 5], exact8(c, q, n, 5), total(c, q)) && px_ok(o[n * stride + 6], exact8(c, q, n, 6), total(c, q)) && px_ok(o[n * stride + 7], exact8(c, q, n, 7), total(c, q)),
        forall|p: int, m: int| 0 <= p < n && 0 <= m < 8 ==> total(c, q) <= 16000 ==> px_ok(#[trigger] o1[p * stride + m], exact8(c, q, p, m), total(c, q)),
    ensures
        forall|j: int| 0 <= j < o0.len() && !(j / stride < n + 1 && j % stride < 8) ==> #[trigger] o[j] == o0[j],
        forall|p: int, m: int| 0 <= p < n + 1 && 0 <= m < 8 ==> total(c, q) <= 16000 ==> px_ok(#[trigger] o[p * stride + m], exact8(c, q, p, m), total(c, q)),
{
    hide(px_ok); hide(exact8); hide(total);
    assert forall|j: int| 0 <= j < o0.len() && !(j / stride < n + 1 && j % stride < 8) implies #[trigger] o[j] == o0[j] by {
        if n * stride <= j < n * stride + 8 {
            assert(j / stride == n && j % stride == j - n * stride) by (nonlinear_arith) requires n * stride <= j < n * stride + stride, stride >= 8, n >= 0;
        } else { assert(o1[j] == o0[j]); }
    }
    assert forall|p: int, m: int| 0 <= p < n + 1 && 0 <= m < 8 && total(c, q) <= 16000 implies px_ok(#[trigger] o[p * stride + m], exact8(c, q, p, m), total(c, q)) by {
        if p < n {
            assert(p * stride + stride <= n * stride && p * stride >= 0) by (nonlinear_arith) requires 0 <= p < n, stride >= 8;
            assert(o[p * stride + m] == o1[p * stride + m]);
        } else { eight(m); }
    }
}
