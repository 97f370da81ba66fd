// ---- the entropy-coded segment as a bit stream ---------------------------------------------------------------
/// data bytes of an entropy-coded segment: FF 00 stands for FF, everything else after FF ends the data
pub open spec fn ubytes(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { seq![] }
    else if s[0] != 0xFF { seq![s[0]] + ubytes(s.skip(1)) }
    else if s.len() < 2 { seq![] }
    else if s[1] == 0 { seq![0xFFu8] + ubytes(s.skip(2)) }
    else { seq![] }
}
/// what follows the data bytes (starting at the FF of the marker)
pub open spec fn utail(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { s }
    else if s[0] != 0xFF { utail(s.skip(1)) }
    else if s.len() < 2 { s }
    else if s[1] == 0 { utail(s.skip(2)) }
    else { s }
}
pub open spec fn skip_fill(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() > 0 && s[0] == 0xFF { skip_fill(s.skip(1)) } else { s }
}
/// `t` starts with FF fill bytes and a marker code: the marker and the rest after it
pub open spec fn marker_code(t: Seq<u8>) -> u8 { let u = skip_fill(t.skip(1)); if u.len() > 0 { u[0] } else { 0 } }
pub open spec fn after_marker(t: Seq<u8>) -> Seq<u8> { skip_fill(t.skip(1)).skip(1) }

pub open spec fn ubit(b: Seq<u8>, k: int) -> bool {
    0 <= k < b.len() * 8 && bitof(b[k / 8], (7 - k % 8) as u8)
}
pub open spec fn bitof(x: u8, i: u8) -> bool { (x >> i) & 1 == 1 }
pub open spec fn rbit(x: u64, k: int) -> bool { 0 <= k < 64 && (x >> ((63 - k) as u64)) & 1 == 1 }

pub type Bits = spec_fn(int) -> bool;
/// the bits still to be delivered: those in the register, then those of the segment, then zeros
pub open spec fn dbit(d: HuffmanDecoder, rest: Seq<u8>, k: int) -> bool {
    if k < d.num_bits { rbit(d.bits, k) }
    else if d.marker is Some { false }
    else { ubit(ubytes(rest), k - d.num_bits) }
}
pub open spec fn strm(d: HuffmanDecoder, rest: Seq<u8>) -> Bits { |k: int| dbit(d, rest, k) }
/// b is a after n bits were taken
pub open spec fn shifted(a: Bits, b: Bits, n: int) -> bool { forall|k: int| k >= 0 ==> #[trigger] b(k) == a(k + n) }
/// the value of n bits starting at p
pub open spec fn val(s: Bits, p: int, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { 2 * val(s, p, n - 1) + if s(p + n - 1) { 1int } else { 0int } }
}
impl HuffmanDecoder {
    pub open spec fn wf(self) -> bool {
        self.num_bits <= 64 && real(self.marker) && forall|k: int| self.num_bits <= k < 64 ==> !#[trigger] rbit(self.bits, k)
    }
}
/// where the reader and the marker are allowed to be after some bits were fetched: either further into the data
/// of the same segment, or just behind its marker, which is remembered
pub open spec fn fetched(d0: HuffmanDecoder, r0: Seq<u8>, d1: HuffmanDecoder, r1: Seq<u8>) -> bool {
    if d0.marker is Some { d1.marker == d0.marker && r1 == r0 }
    else if d1.marker is Some { utail(r0).len() > 1 && r1 == after_marker(utail(r0)) && d1.marker == marker_of(marker_code(utail(r0))) }
    else { utail(r1) == utail(r0) && r1.len() <= r0.len() }
}
/// number of bits before the end of the segment
pub open spec fn avail(d: HuffmanDecoder, rest: Seq<u8>) -> int { d.num_bits + 8 * ubytes(rest).len() }
/// the segment ends with a marker
pub open spec fn seg_ok(d: HuffmanDecoder, rest: Seq<u8>) -> bool {
    d.marker is Some || (utail(rest).len() > 0 && skip_fill(utail(rest).skip(1)).len() > 0 && marker_code(utail(rest)) != 0)
}
/// bits can be fetched without an error
pub open spec fn can_fetch<R: Read>(d: HuffmanDecoder, r: R) -> bool { r.reliable() && seg_ok(d, r.rest()) }

pub proof fn val_bound(s: Bits, p: int, n: int)
    requires n >= 0
    ensures 0 <= val(s, p, n) < pow2i(n)
    decreases n
{
    if n > 0 { val_bound(s, p, n - 1); }
}
pub open spec fn pow2i(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * pow2i(n - 1) } }
pub proof fn val_shift(a: Bits, b: Bits, d: int, p: int, n: int)
    requires shifted(a, b, d), p >= 0
    ensures val(b, p, n) == val(a, p + d, n)
    decreases n
{
    if n > 0 { val_shift(a, b, d, p, n - 1); assert(b(p + n - 1) == a(p + n - 1 + d)); }
}
/// the first c bits of the register as a number
pub proof fn val_reg(s: Bits, x: u64, c: int)
    requires 0 <= c <= 64, forall|k: int| 0 <= k < c ==> #[trigger] s(k) == rbit(x, k)
    ensures c > 0 ==> val(s, 0, c) == x >> ((64 - c) as u64), c == 0 ==> val(s, 0, c) == 0
    decreases c
{
    if c > 0 {
        val_reg(s, x, c - 1);
        let i = (64 - c) as u64;
        assert(s(c - 1) == rbit(x, c - 1));
        if c == 1 {
            assert(x >> 63 <= 1) by (bit_vector);
            assert((x >> 63) & 1 == x >> 63) by (bit_vector);
        } else {
            let hi = x >> ((i + 1) as u64); let b = (x >> i) & 1;
            assert((x >> i) == add(mul(2, (x >> add(i, 1))), (x >> i) & 1)) by (bit_vector) requires i < 63;
            assert(hi <= 0x7fff_ffff_ffff_ffffu64) by (bit_vector) requires hi == x >> add(i, 1), i < 63;
            assert(b <= 1) by (bit_vector) requires b == (x >> i) & 1;
        }
    }
}
/// appending a byte to the register
pub proof fn push_byte(x: u64, nb: u8, b: u8)
    requires nb <= 56, forall|k: int| nb <= k < 64 ==> !#[trigger] rbit(x, k)
    ensures ({ let y = x | ((b as u64) << ((56 - nb) as u64));
        forall|k: int| 0 <= k < 64 ==> #[trigger] rbit(y, k) == (if k < nb { rbit(x, k) } else if k < nb + 8 { bitof(b, (7 - (k - nb)) as u8) } else { false }) })
{
    let s = (56 - nb) as u64;
    let y = x | ((b as u64) << s);
    assert forall|k: int| 0 <= k < 64 implies #[trigger] rbit(y, k) == (if k < nb { rbit(x, k) } else if k < nb + 8 { bitof(b, (7 - (k - nb)) as u8) } else { false }) by {
        let i = (63 - k) as u64;
        if k < nb {
            assert(((x | ((b as u64) << s)) >> i) & 1 == (x >> i) & 1) by (bit_vector) requires s <= 56, i < 64, i > s + 7;
        } else {
            assert(!rbit(x, k));
            assert((x >> i) & 1 == 0) by { assert((x >> i) & 1 == 0 || (x >> i) & 1 == 1) by (bit_vector); }
            if k < nb + 8 {
                let j = (7 - (k - nb)) as u8;
                assert(i == s + j);
                assert(((x | ((b as u64) << s)) >> i) & 1 == (((b >> j) & 1) as u64)) by (bit_vector)
                    requires s <= 56, i == s + j, j <= 7, (x >> i) & 1 == 0;
            } else {
                assert(((x | ((b as u64) << s)) >> i) & 1 == 0) by (bit_vector) requires s <= 56, i < s, (x >> i) & 1 == 0;
            }
        }
    }
}
/// one data byte moves from the segment into the register
pub proof fn push_strm(d: HuffmanDecoder, rest: Seq<u8>, b: u8, e: HuffmanDecoder, rest2: Seq<u8>)
    requires d.wf(), d.num_bits <= 56, e.num_bits == d.num_bits + 8, e.marker == d.marker,
        e.bits == d.bits | ((b as u64) << ((56 - d.num_bits) as u64)),
        d.marker is Some ==> b == 0,
        d.marker is None ==> ubytes(rest) == seq![b] + ubytes(rest2)
    ensures e.wf(), shifted(strm(d, rest), strm(e, rest2), 0)
{
    push_byte(d.bits, d.num_bits, b);
    assert forall|k: int| k >= 0 implies #[trigger] strm(e, rest2)(k) == strm(d, rest)(k + 0) by {
        if k < d.num_bits {
        } else if k < e.num_bits {
            let j = k - d.num_bits;
            assert(rbit(e.bits, k) == bitof(b, (7 - j) as u8));
            if d.marker is Some {
                let i = (7 - j) as u8;
                assert((0u8 >> i) & 1 == 0) by (bit_vector);
            } else {
                assert(ubytes(rest)[0] == b);
                assert(j / 8 == 0 && j % 8 == j);
            }
        } else if d.marker is None {
            let j = k - d.num_bits;
            assert((j - 8) / 8 == j / 8 - 1 && (j - 8) % 8 == j % 8);
            assert(k - e.num_bits == j - 8);
            if j < ubytes(rest).len() * 8 { assert(ubytes(rest)[j / 8] == ubytes(rest2)[j / 8 - 1]); }
        }
    }
}
/// the marker is met: no bit is lost
pub proof fn end_strm(d: HuffmanDecoder, rest: Seq<u8>, e: HuffmanDecoder, rest2: Seq<u8>)
    requires d.wf(), d.marker is None, ubytes(rest).len() == 0, e.marker is Some, real(e.marker), e.bits == d.bits, e.num_bits == d.num_bits
    ensures e.wf(), shifted(strm(d, rest), strm(e, rest2), 0)
{}
pub proof fn shift_trans(a: Bits, b: Bits, c: Bits, n: int, m: int)
    requires shifted(a, b, n), shifted(b, c, m), n >= 0, m >= 0
    ensures shifted(a, c, n + m)
{
    assert forall|k: int| k >= 0 implies #[trigger] c(k) == a(k + (n + m)) by { assert(b(k + m) == a(k + m + n)); }
}
pub proof fn fetched_trans(d0: HuffmanDecoder, r0: Seq<u8>, d1: HuffmanDecoder, r1: Seq<u8>, d2: HuffmanDecoder, r2: Seq<u8>)
    requires fetched(d0, r0, d1, r1), fetched(d1, r1, d2, r2)
    ensures fetched(d0, r0, d2, r2)
{}
