pub proof fn cut_at(o: Seq<u8>, stride: int, s: int, n: int, m: int) requires 0 <= n < s, 0 <= m < s
    ensures 0 <= n * s + m < s * s, cut(o, 0, stride, s)[n * s + m] == o[n * stride + m]
{
    assert((n * s + m) / s == n && (n * s + m) % s == m && 0 <= n * s + m < s * s) by (nonlinear_arith) requires 0 <= n < s, 0 <= m < s;
}
