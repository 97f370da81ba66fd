//@item src/huffman.rs LUT_BITS
const LUT_BITS: u8 = 8;
//@end
//@item src/huffman.rs HuffmanDecoder
pub struct HuffmanDecoder {
    /*@ pub @*/ bits: u64,
    /*@ pub @*/ num_bits: u8,
    /*@ pub @*/ marker: Option<Marker>,
}
//@end
//@include bits.inc.rs
//@item src/huffman.rs HuffmanTableClass
/*@ #[derive(Clone, Copy, PartialEq, Eq, Structural)] @*/
pub enum HuffmanTableClass {
    DC,
    AC,
}
//@end
//@item src/huffman.rs HuffmanTable
pub struct HuffmanTable {
    /*@ pub lens: Ghost<Seq<u8>>, pub @*/ values: Vec<u8>,
    /*@ pub @*/ delta: [i32; 16],
    /*@ pub @*/ maxcode: [i32; 16],

    /*@ pub @*/ lut: [(u8, u8); 1 << LUT_BITS],
    /*@ pub @*/ ac_lut: Option<[(i16, u8); 1 << LUT_BITS]>,
}
//@end
//@include hcode.inc.rs
impl HuffmanDecoder {
//@fn src/huffman.rs HuffmanDecoder::new
    pub fn new() -> /*@ (r: @*/ HuffmanDecoder /*@ ) ensures r.wf(), r.bits == 0, r.num_bits == 0, r.marker is None @*/ {
        /*@ proof { assert forall|k: int| 0 <= k < 64 implies !#[trigger] rbit(0, k) by {
            let i = (63 - k) as u64; assert((0u64 >> i) & 1 == 0) by (bit_vector); } } @*/
        HuffmanDecoder {
            bits: 0,
            num_bits: 0,
            marker: None,
        }
    }
//@end
//@fn src/huffman.rs HuffmanDecoder::reset
    pub fn reset(&mut self)
    /*@ requires real(old(self).marker) ensures final(self).wf(), final(self).num_bits == 0, final(self).marker == old(self).marker @*/
    {
        /*@ proof { assert forall|k: int| 0 <= k < 64 implies !#[trigger] rbit(0, k) by {
            let i = (63 - k) as u64; assert((0u64 >> i) & 1 == 0) by (bit_vector); } } @*/
        self.bits = 0;
        self.num_bits = 0;
    }
//@end
//@fn src/huffman.rs HuffmanDecoder::peek_bits
//@rw debug_assert
    fn peek_bits(&mut self, count: u8) -> /*@ (r: @*/ u16
    /*@ ) requires old(self).wf(), 1 <= count <= 16, count <= old(self).num_bits
        ensures *final(self) == *old(self),
            forall|rest: Seq<u8>| r == #[trigger] val(strm(*final(self), rest), 0, count as int),
            count == 8 ==> r < 256
    @*/
    {
        assert_exec(count <= 16);
        assert_exec(self.num_bits >= count);
        /*@ proof {
            let c = count as u64; let x = self.bits; let r = (x >> sub(64, c)) & sub(1u64 << c, 1);
            assert(((1u64 << c) - 1) as u64 == sub(1u64 << c, 1) && 1 <= (1u64 << c)) by { assert(1 <= (1u64 << c)) by (bit_vector) requires c <= 16; }
            assert(r == x >> sub(64, c) && r <= 0xFFFF) by (bit_vector) requires 1 <= c <= 16, r == (x >> sub(64, c)) & sub(1u64 << c, 1);
            if c == 8 { assert(r < 256) by (bit_vector) requires c == 8, r == (x >> sub(64, c)) & sub(1u64 << c, 1); }
            assert forall|rest: Seq<u8>| r == #[trigger] val(strm(*self, rest), 0, count as int) by {
                val_reg(strm(*self, rest), x, count as int);
            }
        } @*/

        ((self.bits >> (64 - count)) & ((1 << count) - 1)) as u16
    }
//@end
//@fn src/huffman.rs HuffmanDecoder::consume_bits
//@rw debug_assert
    fn consume_bits(&mut self, count: u8)
    /*@ requires old(self).wf(), count <= 16, count <= old(self).num_bits
        ensures final(self).wf(), final(self).marker == old(self).marker, final(self).num_bits == old(self).num_bits - count,
            forall|rest: Seq<u8>| shifted(#[trigger] strm(*old(self), rest), strm(*final(self), rest), count as int)
    @*/
    {
        assert_exec(self.num_bits >= count);
        /*@ proof {
            let x = self.bits; let c = count as u64;
            assert forall|k: int| 0 <= k < 64 implies #[trigger] rbit(x << c, k) == rbit(x, k + c) by {
                let i = (63 - k) as u64;
                if k + c < 64 {
                    assert(((x << c) >> i) & 1 == (x >> sub(i, c)) & 1) by (bit_vector) requires c <= 16, c <= i, i < 64;
                } else {
                    assert(((x << c) >> i) & 1 == 0) by (bit_vector) requires c <= 16, i < c;
                }
            }
        } @*/

        self.bits <<= count as usize;
        self.num_bits -= count;
    }
//@end
//@fn src/huffman.rs HuffmanDecoder::read_bits
//@rw errtext
    fn read_bits<R: Read>(&mut self, reader: &mut R) -> /*@ (r: @*/ Result<()>
    /*@ )
        requires old(self).wf()
        ensures r is Ok ==> {
            &&& final(self).wf()
            &&& final(self).num_bits > 56
            &&& shifted(strm(*old(self), old(reader).rest()), strm(*final(self), final(reader).rest()), 0)
            &&& fetched(*old(self), old(reader).rest(), *final(self), final(reader).rest())
            &&& final(self).marker is None ==> avail(*final(self), final(reader).rest()) == avail(*old(self), old(reader).rest())
        },
        old(reader).reliable() ==> final(reader).reliable(),
        can_fetch(*old(self), *old(reader)) ==> r is Ok && can_fetch(*final(self), *final(reader))
    @*/
    {
        /*@ let ghost r0 = reader.rest(); let ghost d0 = *self; let ghost ok = can_fetch(*self, *reader); @*/
        while self.num_bits <= 56
        /*@ invariant old(reader).reliable() ==> reader.reliable(), ok == can_fetch(*old(self), *old(reader)), ok ==> can_fetch(*self, *reader), self.marker is None ==> avail(*self, reader.rest()) == avail(d0, r0), self.wf(), shifted(strm(d0, r0), strm(*self, reader.rest()), 0), fetched(d0, r0, *self, reader.rest())
            decreases 64 - self.num_bits, reader.rest().len() @*/
        {
            /*@ let ghost r1 = reader.rest(); let ghost d1 = *self; @*/
            /*@ proof { if ok && d1.marker is None { assert(r1.len() > 0 && (r1[0] == 0xFF ==> r1.len() > 1)); } } @*/
            // Fill with zero bits if we have reached the end.
            let byte = match self.marker {
                Some(_) => 0,
                None => read_u8(reader)?,
            };

            if byte == 0xFF {
                let mut next_byte = read_u8(reader)?;

                // Check for byte stuffing.
                if next_byte != 0x00 {
                    /*@ proof { assert(r1 == seq![0xFFu8] + r1.skip(1)); assert(reader.rest() == r1.skip(2)); } @*/
                    while next_byte == 0xFF
                    /*@ invariant old(reader).reliable() ==> reader.reliable(), ok == can_fetch(*old(self), *old(reader)), ok ==> reader.reliable() && skip_fill(r1.skip(1)).len() > 0 && skip_fill(r1.skip(1))[0] != 0, *self == d1, reader.rest().len() < r1.len(),
                            skip_fill(r1.skip(1)) == (if next_byte != 0xFF { seq![next_byte] + reader.rest() } else { skip_fill(reader.rest()) })
                        ensures next_byte != 0xFF, reader.rest().len() < r1.len()
                        decreases reader.rest().len() @*/
                    {
                        next_byte = read_u8(reader)?;
                    }

                    match next_byte {
                        0x00 => return Err(Error::Format(error_text())),
                        _    => self.marker = Some(Marker::from_u8(next_byte).unwrap()),
                    }

                    /*@ proof {
                        assert(reader.rest() == after_marker(r1));
                        end_strm(d1, r1, *self, reader.rest());
                        shift_trans(strm(d0, r0), strm(d1, r1), strm(*self, reader.rest()), 0, 0);
                        fetched_trans(d0, r0, d1, r1, *self, reader.rest());
                    } @*/
                    continue;
                }
            }

            self.bits |= (byte as u64) << (56 - self.num_bits);
            self.num_bits += 8;
            /*@ proof {
                if d1.marker is None {
                    if r1[0] == 0xFF { assert(r1[1] == 0); assert(r1.skip(1).skip(1) == r1.skip(2)); assert(reader.rest() == r1.skip(2)); }
                }
                push_strm(d1, r1, byte, *self, reader.rest());
                shift_trans(strm(d0, r0), strm(d1, r1), strm(*self, reader.rest()), 0, 0);
                fetched_trans(d0, r0, d1, r1, *self, reader.rest());
            } @*/
        }

        Ok(())
    }
//@end
//@fn src/huffman.rs HuffmanDecoder::get_bits
    pub fn get_bits<R: Read>(&mut self, reader: &mut R, count: u8) -> /*@ (r: @*/ Result<u16>
    /*@ ) requires old(self).wf(), 1 <= count <= 16
        ensures
            r matches Ok(v) ==> final(self).wf() && v == val(strm(*old(self), old(reader).rest()), 0, count as int)
                && shifted(strm(*old(self), old(reader).rest()), strm(*final(self), final(reader).rest()), count as int)
                && fetched(*old(self), old(reader).rest(), *final(self), final(reader).rest()),
            old(reader).reliable() ==> final(reader).reliable(),
            can_fetch(*old(self), *old(reader)) ==> r is Ok && can_fetch(*final(self), *final(reader)),
    @*/
    {
        /*@ let ghost d0 = *self; let ghost s0 = strm(*self, reader.rest()); @*/
        if self.num_bits < count {
            self.read_bits(reader)?;
        }
        /*@ let ghost s1 = strm(*self, reader.rest()); proof { val_shift(s0, s1, 0, 0, count as int); } @*/

        let bits = self.peek_bits(count);
        self.consume_bits(count);
        /*@ proof { shift_trans(s0, s1, strm(*self, reader.rest()), 0, count as int); } @*/

        Ok(bits)
    }
//@end
//@fn src/huffman.rs HuffmanDecoder::receive_extend
    pub fn receive_extend<R: Read>(&mut self, reader: &mut R, count: u8) -> /*@ (r: @*/ Result<i16>
    /*@ ) requires old(self).wf(), 1 <= count <= 15
        ensures
            r matches Ok(v) ==> final(self).wf() && v == extv(val(strm(*old(self), old(reader).rest()), 0, count as int), count as int)
                && shifted(strm(*old(self), old(reader).rest()), strm(*final(self), final(reader).rest()), count as int)
                && fetched(*old(self), old(reader).rest(), *final(self), final(reader).rest()),
            old(reader).reliable() ==> final(reader).reliable(),
            can_fetch(*old(self), *old(reader)) ==> r is Ok && can_fetch(*final(self), *final(reader)),
    @*/
    {
        /*@ proof { val_bound(strm(*self, reader.rest()), 0, count as int); } @*/
        let value = self.get_bits(reader, count)?;
        Ok(extend(value, count))
    }
//@end
//@fn src/huffman.rs HuffmanDecoder::take_marker
//@rw map_ignore
    pub fn take_marker<R: Read>(&mut self, reader: &mut R) -> /*@ (r: @*/ Result<Option<Marker>>
    /*@ ) requires old(self).wf()
        ensures
            r matches Ok(m) ==> final(self).wf() && final(self).marker is None,
            r matches Ok(Some(m)) ==> {
                if old(self).marker is Some { Some(m) == old(self).marker && final(reader).rest() == old(reader).rest() }
                else { utail(old(reader).rest()).len() > 1 && Some(m) == marker_of(marker_code(utail(old(reader).rest()))) && final(reader).rest() == after_marker(utail(old(reader).rest())) }
            },
            r matches Ok(None) ==> old(self).marker is None && avail(*old(self), old(reader).rest()) > 56
                && shifted(strm(*old(self), old(reader).rest()), strm(*final(self), final(reader).rest()), 0)
                && fetched(*old(self), old(reader).rest(), *final(self), final(reader).rest()),
            old(reader).reliable() ==> final(reader).reliable(),
            can_fetch(*old(self), *old(reader)) ==> r is Ok,
    @*/
    {
        match self.read_bits(reader) { Ok(_) => Ok(self.marker.take()), Err(e) => Err(e) }
    }
//@end
//@fn src/huffman.rs HuffmanDecoder::decode
//@rw errtext
    pub fn decode<R: Read>(&mut self, reader: &mut R, table: &HuffmanTable) -> /*@ (r: @*/ Result<u8>
    /*@ ) requires old(self).wf(), table.wf()
        ensures
            r matches Ok(v) ==> final(self).wf() && (table.dec(strm(*old(self), old(reader).rest())) matches Some((sym, len)) && v == sym && 1 <= len <= 16
                && shifted(strm(*old(self), old(reader).rest()), strm(*final(self), final(reader).rest()), len))
                && fetched(*old(self), old(reader).rest(), *final(self), final(reader).rest()),
            old(reader).reliable() ==> final(reader).reliable(),
            can_fetch(*old(self), *old(reader)) ==> (r is Ok <==> table.dec(strm(*old(self), old(reader).rest())) is Some) && can_fetch(*final(self), *final(reader)),
    @*/
    {
        /*@ let ghost s0 = strm(*self, reader.rest()); let ghost lens = table.lens@; let ghost vals = table.values@; @*/
        if self.num_bits < 16 {
            self.read_bits(reader)?;
        }
        /*@ let ghost s = strm(*self, reader.rest()); let ghost p = val(s, 0, 8);
            proof {
                val_bound(s, 0, 8); pow2i_is(8);
                assert forall|l: int| 1 <= l <= 16 implies #[trigger] val(s, 0, l) == val(s0, 0, l) by { val_shift(s0, s, 0, 0, l); }
                assert forall|l: int| 1 <= l <= 8 implies #[trigger] val(s, 0, l) == p / pow2i(8 - l) by { val_div(s, 0, 8, l); }
                assert(lut_ok(lens, vals, p, table.lut@[p]));
            } @*/

        let (value, size) = table.lut[self.peek_bits(LUT_BITS) as usize];

        if size > 0 {
            /*@ proof { let l = size as int; assert(val(s, 0, l) == val(s0, 0, l)); assert(val(s, 0, l) == p / pow2i(8 - l)); hdec_hit(lens, vals, s0, l); } @*/
            self.consume_bits(size);
            /*@ proof { shift_trans(s0, s, strm(*self, reader.rest()), 0, size as int); } @*/
            Ok(value)
        }
        else {
            let bits = self.peek_bits(16);
            /*@ proof { val_bound(s, 0, 16); pow2i_is(16);
                assert forall|l: int| 1 <= l <= 8 implies !hit(lens, l, #[trigger] val(s0, 0, l)) by { assert(val(s, 0, l) == val(s0, 0, l)); assert(val(s, 0, l) == p / pow2i(8 - l)); assert(!hit(lens, l, p / pow2i(8 - l))); }
            } @*/

            for i in LUT_BITS .. 16
            /*@ invariant
                    self.wf(), table.wf(), self.num_bits >= 16, s0 == strm(*old(self), old(reader).rest()), s == strm(*self, reader.rest()), shifted(s0, s, 0),
                    fetched(*old(self), old(reader).rest(), *self, reader.rest()),
                    old(reader).reliable() ==> reader.reliable(), can_fetch(*old(self), *old(reader)) ==> can_fetch(*self, *reader),
                    lens == table.lens@, vals == table.values@,
                    bits == val(s, 0, 16),
                    forall|l: int| 1 <= l <= 16 ==> #[trigger] val(s, 0, l) == val(s0, 0, l),
                    forall|l: int| 1 <= l <= i ==> !hit(lens, l, #[trigger] val(s0, 0, l)),
            @*/
            {
                /*@ let ghost l = i as int + 1; proof {
                    shr16(bits, (15 - i) as u16); val_div(s, 0, 16, l);
                    assert(val(s0, 0, l) == val(s, 0, l));
                    assert((bits >> ((15 - i) as u16)) == val(s0, 0, l));
                    assert(table.maxcode@[l - 1] == (if ncode(lens, l) == 0 { -1 } else { fcode(lens, l) + ncode(lens, l) - 1 }));
                    above(lens, s0, l);
                    val_bound(s, 0, l);
                    fidx_mono(lens, l, l); fidx_mono(lens, l + 1, 17);
                } @*/
                let code = (bits >> (15 - i)) as i32;

                if code <= table.maxcode[i as usize] {
                    /*@ proof { assert(hit(lens, l, code as int)); hdec_hit(lens, vals, s0, l); assert(table.delta@[l - 1] == fidx(lens, l) - fcode(lens, l)); } @*/
                    self.consume_bits(i + 1);
                    /*@ proof { shift_trans(s0, s, strm(*self, reader.rest()), 0, l); } @*/

                    let index = (code + table.delta[i as usize]) as usize;
                    return Ok(table.values[index]);
                }
            }
            /*@ proof { hdec_none(lens, vals, s0, 1); } @*/

            Err(Error::Format(error_text()))
        }
    }
//@end
//@fn src/huffman.rs HuffmanDecoder::decode_fast_ac
    pub fn decode_fast_ac<R: Read>(&mut self, reader: &mut R, table: &HuffmanTable) -> /*@ (r: @*/ Result<Option<(i16, u8)>>
    /*@ ) requires old(self).wf(), table.wf()
        ensures
            r matches Ok(Some((v, run))) ==> final(self).wf() && (table.dec(strm(*old(self), old(reader).rest())) matches Some((sym, len)) && len >= 1 && sym % 16 > 0 && run == sym / 16
                && v == extv(val(strm(*old(self), old(reader).rest()), len, (sym % 16) as int), (sym % 16) as int)
                && shifted(strm(*old(self), old(reader).rest()), strm(*final(self), final(reader).rest()), len + sym % 16))
                && fetched(*old(self), old(reader).rest(), *final(self), final(reader).rest()),
            r matches Ok(None) ==> final(self).wf() && shifted(strm(*old(self), old(reader).rest()), strm(*final(self), final(reader).rest()), 0)
                && fetched(*old(self), old(reader).rest(), *final(self), final(reader).rest()),
            old(reader).reliable() ==> final(reader).reliable(),
            can_fetch(*old(self), *old(reader)) ==> r is Ok && can_fetch(*final(self), *final(reader)),
    @*/
    {
        /*@ let ghost s0 = strm(*self, reader.rest()); let ghost lens = table.lens@; let ghost vals = table.values@; @*/
        if let Some(ref ac_lut) = table.ac_lut {
            if self.num_bits < LUT_BITS {
                self.read_bits(reader)?;
            }
            /*@ let ghost s = strm(*self, reader.rest()); let ghost p = val(s, 0, 8);
                proof {
                    val_bound(s, 0, 8); pow2i_is(8);
                    assert(lut_ok(lens, vals, p, table.lut@[p]));
                    assert(aclut_ok(table.lut@[p], p, ac_lut@[p]));
                } @*/

            let (value, run_size) = ac_lut[self.peek_bits(LUT_BITS) as usize];

            if run_size != 0 {
                /*@ proof {
                    assert(run_size >> 4 == run_size / 16) by (bit_vector);
                    assert(run_size & 0x0f == run_size % 16) by (bit_vector);
                    let e = table.lut@[p]; let l = e.1 as int; let m = (e.0 % 16) as int; let n = (run_size % 16) as int;
                    val_shift(s0, s, 0, 0, l); val_shift(s0, s, 0, l, m);
                    val_div(s, 0, 8, l); hdec_hit(lens, vals, s0, l);
                    val_div(s, 0, 8, n); val_div(s, 0, n, l);
                } @*/
                let run = run_size >> 4;
                let size = run_size & 0x0f;

                self.consume_bits(size);
                /*@ proof { shift_trans(s0, s, strm(*self, reader.rest()), 0, size as int); } @*/
                return Ok(Some((value, run)));
            }
        }

        Ok(None)
    }
//@end
}
#[verifier::external_body]
pub fn slice_to_vec(v: &[u8]) -> (r: Vec<u8>) ensures r@ == v@ { v.to_vec() }
pub fn vec_extend_repeat(v: &mut Vec<u8>, x: u8, n: usize)
    ensures final(v)@ == old(v)@ + Seq::new(n as nat, |i: int| x)
{
    let ghost v0 = v@;
    for k in 0..n
        invariant v@ == v0 + Seq::new(k as nat, |i: int| x)
    { v.push(x); assert(v@ =~= v0 + Seq::new((k + 1) as nat, |i: int| x)); }
}
//@fn src/huffman.rs extend
//@sub `<< count as i16` => `<< count as u16`
fn extend(value: u16, count: u8) -> /*@ (r: @*/ i16
/*@ ) requires 1 <= count <= 15, value < pow2i(count as int) ensures r == extv(value as int, count as int) @*/
{
    /*@ proof {
        let c = count as u16; pow2i_is(c as int); pow2i_is(c - 1);
        assert(c == 1 || c == 2 || c == 3 || c == 4 || c == 5 || c == 6 || c == 7 || c == 8 || c == 9 || c == 10 || c == 11 || c == 12 || c == 13 || c == 14 || c == 15);
        assert(1u16 << sub(c, 1) == (if c == 1 { 1u16 } else if c == 2 { 2 } else if c == 3 { 4 } else if c == 4 { 8 } else if c == 5 { 16 } else if c == 6 { 32 } else if c == 7 { 64 }
            else if c == 8 { 128 } else if c == 9 { 256 } else if c == 10 { 512 } else if c == 11 { 1024 } else if c == 12 { 2048 } else if c == 13 { 4096 } else if c == 14 { 8192 } else { 16384 })) by (bit_vector) requires 1 <= c <= 15;
        let d = count as u16;
        assert(-1i16 << d == (if d == 1 { -2i16 } else if d == 2 { -4i16 } else if d == 3 { -8i16 } else if d == 4 { -16i16 } else if d == 5 { -32i16 } else if d == 6 { -64i16 } else if d == 7 { -128i16 }
            else if d == 8 { -256i16 } else if d == 9 { -512i16 } else if d == 10 { -1024i16 } else if d == 11 { -2048i16 } else if d == 12 { -4096i16 } else if d == 13 { -8192i16 } else if d == 14 { -16384i16 } else { -32768i16 })) by (bit_vector) requires 1 <= d <= 15;
    } @*/
    let vt = 1 << (count as u16 - 1);

    if value < vt {
        value as i16 + (-1 << count as u16) + 1
    } else {
        value as i16
    }
}
//@end
pub open spec fn tabs_wf(t: Seq<Option<HuffmanTable>>) -> bool { forall|i: int| 0 <= i < t.len() && #[trigger] t[i] is Some ==> (t[i]->0).wf() }
