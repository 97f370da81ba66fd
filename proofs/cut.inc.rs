/// the s x s area whose upper left corner is at off, line by line
pub open spec fn cut(o: Seq<u8>, off: int, stride: int, s: int) -> Seq<u8> { Seq::new((s * s) as nat, |k: int| o[off + (k / s) * stride + k % s]) }
/// bytes outside the n x n area are not touched
pub open spec fn outside(o0: Seq<u8>, o: Seq<u8>, stride: int, n: int) -> bool {
    o.len() == o0.len() && forall|j: int| 0 <= j < o.len() && !(j / stride < n && j % stride < n) ==> #[trigger] o[j] == o0[j]
}
