// ---- SSE2/SSSE3 registers: the intrinsics by their definition in the Intel manual -------------------------------
#[derive(Clone, Copy)]
pub struct __m128i { pub v: [u8; 16] }
pub open spec fn s16(x: int) -> int { if x < 32768 { x } else { x - 65536 } }
pub open spec fn cl16(x: int) -> int { if x < -32768 { -32768 } else if x > 32767 { 32767 } else { x } }
pub open spec fn sadd(a: int, b: int) -> int { cl16(a + b) }
pub open spec fn ssub(a: int, b: int) -> int { cl16(a - b) }
/// rounded high half of the product
pub open spec fn hrs(a: int, c: int) -> int { if a == -32768 && c == -32768 { -32768 } else { (a * c + 16384) / 32768 } }
pub open spec fn two(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * two(n - 1) } }
pub open spec fn bor(a: int, b: int) -> int { ((a as u8) | (b as u8)) as int }
pub open spec fn u8of(x: i8) -> int { if x < 0 { x + 256 } else { x as int } }
impl __m128i {
    /// byte k
    pub open spec fn b(self, k: int) -> int { self.v@[k] as int }
    /// 16-bit lane k, signed
    pub open spec fn l(self, k: int) -> int { s16(self.v@[2 * k] + 256 * self.v@[2 * k + 1]) }
}
#[verifier::external_body]
pub fn _mm_setzero_si128() -> (r: __m128i) ensures forall|k: int| 0 <= k < 16 ==> #[trigger] r.b(k) == 0, forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == 0 { unimplemented!() }
#[verifier::external_body]
pub fn _mm_set1_epi16(c: i16) -> (r: __m128i) ensures forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == c { unimplemented!() }
#[verifier::external_body]
pub fn _mm_set1_epi8(c: i8) -> (r: __m128i) ensures forall|k: int| 0 <= k < 16 ==> #[trigger] r.b(k) == u8of(c) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_setr_epi8(e0: i8, e1: i8, e2: i8, e3: i8, e4: i8, e5: i8, e6: i8, e7: i8, e8: i8, e9: i8, e10: i8, e11: i8, e12: i8, e13: i8, e14: i8, e15: i8) -> (r: __m128i)
    ensures r.b(0) == u8of(e0), r.b(1) == u8of(e1), r.b(2) == u8of(e2), r.b(3) == u8of(e3), r.b(4) == u8of(e4), r.b(5) == u8of(e5), r.b(6) == u8of(e6), r.b(7) == u8of(e7),
        r.b(8) == u8of(e8), r.b(9) == u8of(e9), r.b(10) == u8of(e10), r.b(11) == u8of(e11), r.b(12) == u8of(e12), r.b(13) == u8of(e13), r.b(14) == u8of(e14), r.b(15) == u8of(e15) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_adds_epi16(a: __m128i, b: __m128i) -> (r: __m128i) ensures forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == sadd(a.l(k), b.l(k)) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_subs_epi16(a: __m128i, b: __m128i) -> (r: __m128i) ensures forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == ssub(a.l(k), b.l(k)) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_mulhrs_epi16(a: __m128i, b: __m128i) -> (r: __m128i) ensures forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == hrs(a.l(k), b.l(k)) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_mullo_epi16(a: __m128i, b: __m128i) -> (r: __m128i) ensures forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == s16((a.l(k) * b.l(k)) % 65536) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_slli_epi16(a: __m128i, n: i32) -> (r: __m128i) requires 0 <= n < 16 ensures forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == s16((a.l(k) * two(n as int)) % 65536) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_srai_epi16(a: __m128i, n: i32) -> (r: __m128i) requires 0 <= n < 16 ensures forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == a.l(k) / two(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_packus_epi16(a: __m128i, b: __m128i) -> (r: __m128i) ensures forall|k: int| 0 <= k < 16 ==> #[trigger] r.b(k) == clampi(if k < 8 { a.l(k) } else { b.l(k - 8) }) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_shuffle_epi8(a: __m128i, m: __m128i) -> (r: __m128i) ensures forall|k: int| 0 <= k < 16 ==> #[trigger] r.b(k) == (if m.b(k) >= 128 { 0 } else { a.b(m.b(k) % 16) }) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_alignr_epi8(a: __m128i, b: __m128i, n: i32) -> (r: __m128i) requires 0 <= n < 256 ensures forall|k: int| 0 <= k < 16 ==> #[trigger] r.b(k) == (if k + n < 16 { b.b(k + n) } else if k + n < 32 { a.b(k + n - 16) } else { 0 }) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_add_epi8(a: __m128i, b: __m128i) -> (r: __m128i) ensures forall|k: int| 0 <= k < 16 ==> #[trigger] r.b(k) == (a.b(k) + b.b(k)) % 256 { unimplemented!() }
#[verifier::external_body]
pub fn _mm_or_si128(a: __m128i, b: __m128i) -> (r: __m128i) ensures forall|k: int| 0 <= k < 16 ==> #[trigger] r.b(k) == bor(a.b(k), b.b(k)) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_unpacklo_epi16(a: __m128i, b: __m128i) -> (r: __m128i) ensures forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == (if k % 2 == 0 { a.l(k / 2) } else { b.l(k / 2) }) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_unpackhi_epi16(a: __m128i, b: __m128i) -> (r: __m128i) ensures forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == (if k % 2 == 0 { a.l(4 + k / 2) } else { b.l(4 + k / 2) }) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_unpacklo_epi32(a: __m128i, b: __m128i) -> (r: __m128i) ensures forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == (if k % 4 < 2 { a.l(2 * (k / 4) + k % 2) } else { b.l(2 * (k / 4) + k % 2) }) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_unpackhi_epi32(a: __m128i, b: __m128i) -> (r: __m128i) ensures forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == (if k % 4 < 2 { a.l(4 + 2 * (k / 4) + k % 2) } else { b.l(4 + 2 * (k / 4) + k % 2) }) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_unpacklo_epi64(a: __m128i, b: __m128i) -> (r: __m128i) ensures forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == (if k < 4 { a.l(k) } else { b.l(k - 4) }) { unimplemented!() }
#[verifier::external_body]
pub fn _mm_unpackhi_epi64(a: __m128i, b: __m128i) -> (r: __m128i) ensures forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == (if k < 4 { a.l(4 + k) } else { b.l(k) }) { unimplemented!() }
/// assert!(b): returns only if b holds; where the caller keeps to the call conditions `pre` it must hold
#[verifier::external_body]
pub fn guard(b: bool, Ghost(pre): Ghost<bool>) requires pre ==> b ensures b { if !b { panic!() } }
/// Option::unwrap in the same way
#[verifier::external_body]
pub fn guard_some<T>(x: Option<T>, Ghost(pre): Ghost<bool>) -> (r: T) requires pre ==> x is Some ensures x == Some(r) { x.unwrap() }
/// raw memory accesses, with the bounds they need: 16 bytes from element `at` of the slice on
pub trait Words {
    spec fn wsize(&self) -> int;
    spec fn wlen(&self) -> int;
    spec fn holds(&self, at: int, r: __m128i) -> bool;
}
impl Words for [i16; 64] {
    open spec fn wsize(&self) -> int { 2 }
    open spec fn wlen(&self) -> int { 64 }
    open spec fn holds(&self, at: int, r: __m128i) -> bool { forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == self@[at + k] }
}
impl Words for [u16; 64] {
    open spec fn wsize(&self) -> int { 2 }
    open spec fn wlen(&self) -> int { 64 }
    open spec fn holds(&self, at: int, r: __m128i) -> bool { forall|k: int| 0 <= k < 8 ==> #[trigger] r.l(k) == s16(self@[at + k] as int) }
}
impl Words for [u8] {
    open spec fn wsize(&self) -> int { 1 }
    open spec fn wlen(&self) -> int { self@.len() as int }
    open spec fn holds(&self, at: int, r: __m128i) -> bool { forall|k: int| 0 <= k < 16 ==> #[trigger] r.b(k) == self@[at + k] }
}
#[verifier::external_body]
pub fn loadu<T: Words + ?Sized>(s: &T, at: usize) -> (r: __m128i) requires at * s.wsize() + 16 <= s.wlen() * s.wsize() ensures s.holds(at as int, r) { unimplemented!() }
#[verifier::external_body]
pub fn storeu<const N: usize>(s: &mut [u8; N], at: usize, x: __m128i) requires at + 16 <= N
    ensures forall|j: int| 0 <= j < N ==> #[trigger] final(s)@[j] as int == (if at <= j < at + 16 { x.b(j - at) } else { old(s)@[j] as int }) { unimplemented!() }
#[verifier::external_body]
pub fn copy_nonoverlapping<const N: usize>(from: &[u8; N], to: &mut [u8], at: usize, n: usize) requires n <= N, at + n <= old(to).len()
    ensures final(to).len() == old(to).len(), forall|j: int| 0 <= j < old(to).len() ==> #[trigger] final(to)@[j] == (if at <= j < at + n { from@[j - at] } else { old(to)@[j] }) { unimplemented!() }
