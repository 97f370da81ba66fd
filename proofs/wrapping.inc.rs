// core::num::Wrapping on i32: the operations used, exact whenever the exact result fits
pub struct Wrapping<T>(pub T);
impl Clone for Wrapping<i32> { fn clone(&self) -> (r: Self) ensures r == *self { Wrapping(self.0) } }
impl Copy for Wrapping<i32> {}
pub open spec fn fits(x: int) -> bool { -0x8000_0000 <= x <= 0x7fff_ffff }
impl vstd::std_specs::ops::AddSpecImpl<Wrapping<i32>> for Wrapping<i32> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Wrapping<i32>) -> bool { true }
    open spec fn add_spec(self, rhs: Wrapping<i32>) -> Wrapping<i32> { arbitrary() }
}
impl core::ops::Add<Wrapping<i32>> for Wrapping<i32> {
    type Output = Wrapping<i32>;
    fn add(self, o: Wrapping<i32>) -> (r: Wrapping<i32>) ensures fits(self.0 + o.0) ==> r.0 == self.0 + o.0 { Wrapping(self.0.wrapping_add(o.0)) }
}
impl vstd::std_specs::ops::SubSpecImpl<Wrapping<i32>> for Wrapping<i32> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Wrapping<i32>) -> bool { true }
    open spec fn sub_spec(self, rhs: Wrapping<i32>) -> Wrapping<i32> { arbitrary() }
}
impl core::ops::Sub<Wrapping<i32>> for Wrapping<i32> {
    type Output = Wrapping<i32>;
    fn sub(self, o: Wrapping<i32>) -> (r: Wrapping<i32>) ensures fits(self.0 - o.0) ==> r.0 == self.0 - o.0 { Wrapping(self.0.wrapping_sub(o.0)) }
}
impl vstd::std_specs::ops::MulSpecImpl<Wrapping<i32>> for Wrapping<i32> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: Wrapping<i32>) -> bool { true }
    open spec fn mul_spec(self, rhs: Wrapping<i32>) -> Wrapping<i32> { arbitrary() }
}
impl core::ops::Mul<Wrapping<i32>> for Wrapping<i32> {
    type Output = Wrapping<i32>;
    fn mul(self, o: Wrapping<i32>) -> (r: Wrapping<i32>) ensures fits(self.0 * o.0) ==> r.0 == self.0 * o.0 { Wrapping(self.0.wrapping_mul(o.0)) }
}
impl vstd::std_specs::ops::DivSpecImpl<Wrapping<i32>> for Wrapping<i32> {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: Wrapping<i32>) -> bool { rhs.0 > 0 }
    open spec fn div_spec(self, rhs: Wrapping<i32>) -> Wrapping<i32> { arbitrary() }
}
impl core::ops::Div<Wrapping<i32>> for Wrapping<i32> {
    type Output = Wrapping<i32>;
    /// truncating division
    fn div(self, o: Wrapping<i32>) -> (r: Wrapping<i32>) ensures self.0 >= 0 ==> r.0 == self.0 as int / o.0 as int, self.0 < 0 ==> r.0 == -((-self.0) / o.0 as int) {
        Wrapping(self.0 / o.0)
    }
}
impl vstd::std_specs::ops::ShlSpecImpl<usize> for Wrapping<i32> {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, rhs: usize) -> bool { true }
    open spec fn shl_spec(self, rhs: usize) -> Wrapping<i32> { arbitrary() }
}
impl core::ops::Shl<usize> for Wrapping<i32> {
    type Output = Wrapping<i32>;
    fn shl(self, n: usize) -> (r: Wrapping<i32>)
        ensures n == 12 && fits(self.0 * 4096) ==> r.0 == self.0 * 4096, n == 2 && fits(self.0 * 4) ==> r.0 == self.0 * 4
    {
        let v = self.0;
        proof {
            if n == 12 && fits(v * 4096) { assert((v << 12) == v * 4096) by (bit_vector) requires -524288 <= v <= 524287; }
            if n == 2 && fits(v * 4) { assert((v << 2) == v * 4) by (bit_vector) requires -536870912 <= v <= 536870911; }
        }
        Wrapping(v << (n % 32))
    }
}
impl vstd::std_specs::ops::ShrSpecImpl<usize> for Wrapping<i32> {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, rhs: usize) -> bool { true }
    open spec fn shr_spec(self, rhs: usize) -> Wrapping<i32> { arbitrary() }
}
impl core::ops::Shr<usize> for Wrapping<i32> {
    type Output = Wrapping<i32>;
    fn shr(self, n: usize) -> (r: Wrapping<i32>)
        ensures n == 17 ==> r.0 * 131072 <= self.0 < (r.0 + 1) * 131072, n == 10 ==> r.0 * 1024 <= self.0 < (r.0 + 1) * 1024, n == 3 ==> r.0 * 8 <= self.0 < (r.0 + 1) * 8
    {
        let v = self.0;
        proof {
            assert((v >> 17) as i64 * 131072 <= v as i64 && (v as i64) < ((v >> 17) as i64 + 1) * 131072) by (bit_vector);
            assert((v >> 10) as i64 * 1024 <= v as i64 && (v as i64) < ((v >> 10) as i64 + 1) * 1024) by (bit_vector);
            assert((v >> 3) as i64 * 8 <= v as i64 && (v as i64) < ((v >> 3) as i64 + 1) * 8) by (bit_vector);
        }
        Wrapping(v >> (n % 32))
    }
}
pub fn mulc(x: Wrapping<i32>, c: i32) -> (r: Wrapping<i32>) ensures fits(x.0 * c) ==> r.0 == x.0 * c { x * Wrapping(c) }
