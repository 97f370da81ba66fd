// ---- v.chunks_mut(size): pieces of `size` elements, the last one may be shorter
pub open spec fn chunks(len: int, size: int) -> int { (len + size - 1) / size }
pub proof fn chunks_whole(n: int, size: int) requires n >= 0, size >= 1 ensures chunks(n * size, size) == n
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n * size + size - 1, size, n, size - 1); }
pub fn chunk_count(len: usize, size: usize) -> (r: usize) requires size >= 1 ensures r == chunks(len as int, size as int)
{
    proof {
        let (l, s) = (len as int, size as int); let (d, m) = (l / s, l % s);
        assert(l == d * s + m && 0 <= m < s && d >= 0 && d <= l) by (nonlinear_arith) requires s >= 1, l >= 0, d == l / s, m == l % s;
        if m == 0 { assert((d * s + s - 1) / s == d) by (nonlinear_arith) requires s >= 1; } else { assert((d * s + m + s - 1) / s == d + 1) by (nonlinear_arith) requires 1 <= m < s; assert(d < l) by (nonlinear_arith) requires l == d * s + m, s >= 1, m >= 1, d >= 0; }
    }
    if len % size == 0 { len / size } else { len / size + 1 }
}
