// ---- zig-zag order -------------------------------------------------------------------------------------------
/// row and column of the k-th coefficient of the zig-zag sequence (T.81 Figure A.6): diagonals walked in alternating direction
pub open spec fn zrc(k: int) -> (int, int) decreases k {
    if k <= 0 { (0, 0) } else {
        let (r, c) = zrc(k - 1);
        if (r + c) % 2 == 0 { if c == 7 { (r + 1, c) } else if r == 0 { (r, c + 1) } else { (r - 1, c + 1) } }
        else { if r == 7 { (r, c + 1) } else if c == 0 { (r + 1, c) } else { (r + 1, c - 1) } }
    }
}
#[verifier::opaque]
pub open spec fn zz(k: int) -> int { 8 * zrc(k).0 + zrc(k).1 }
//@item src/decoder.rs UNZIGZAG
//@sub `static UNZIGZAG` => `const UNZIGZAG`
/*@ pub @*/ const UNZIGZAG: [u8; 64] = [
     0,  1,  8, 16,  9,  2,  3, 10,
    17, 24, 32, 25, 18, 11,  4,  5,
    12, 19, 26, 33, 40, 48, 41, 34,
    27, 20, 13,  6,  7, 14, 21, 28,
    35, 42, 49, 56, 57, 50, 43, 36,
    29, 22, 15, 23, 30, 37, 44, 51,
    58, 59, 52, 45, 38, 31, 39, 46,
    53, 60, 61, 54, 47, 55, 62, 63,
];
//@end
pub open spec fn zz_chk(n: int) -> bool decreases n { n <= 0 || (UNZIGZAG@[n - 1] == zz(n - 1) && 0 <= zz(n - 1) < 64 && zz_chk(n - 1)) }
pub proof fn zz_chk_at(n: int, k: int) requires zz_chk(n), 0 <= k < n ensures UNZIGZAG@[k] == zz(k), 0 <= zz(k) < 64 decreases n
{ if k < n - 1 { zz_chk_at(n - 1, k); } }
/// the table is the zig-zag order
pub proof fn unzigzag_table()
    ensures forall|k: int| 0 <= k < 64 ==> #[trigger] UNZIGZAG@[k] == zz(k) && 0 <= zz(k) < 64
{
    reveal(zz);
    assert(zz_chk(64)) by (compute);
    assert forall|k: int| 0 <= k < 64 implies #[trigger] UNZIGZAG@[k] == zz(k) && 0 <= zz(k) < 64 by { zz_chk_at(64, k); }
}
pub fn unzigzag(k: usize) -> (r: u8)
    requires k < 64
    ensures r == zz(k as int), 0 <= zz(k as int) < 64
{ proof { unzigzag_table(); } UNZIGZAG[k] }
pub fn max_u8(a: u8, b: u8) -> (r: u8) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }

// ---- decoding of blocks, as a function of the bit stream ---------------------------------------------------------
pub enum BRes {
    /// coefficients, bits consumed, end-of-band run
    Done(Seq<i16>, int, int),
    /// a run leads out of the band: no JPEG stream does this and T.81 does not define it
    Over,
    /// not decodable
    Fail,
}
pub open spec fn off(s: Bits, p: int) -> Bits { |k: int| s(k + p) }
pub open spec fn dec_at(t: HuffmanTable, s: Bits, p: int) -> Option<(u8, int)> { t.dec(off(s, p)) }
pub proof fn dec_shift_from(lens: Seq<u8>, vals: Seq<u8>, a: Bits, b: Bits, n: int, l: int)
    requires shifted(a, b, n), n >= 0, 1 <= l <= 17
    ensures hdec_from(lens, vals, b, l) == hdec_from(lens, vals, off(a, n), l)
    decreases 17 - l
{
    if l <= 16 { assert(shifted(off(a, n), b, 0)); val_shift(off(a, n), b, 0, 0, l); dec_shift_from(lens, vals, a, b, n, l + 1); }
}
pub proof fn dec_shift(t: HuffmanTable, a: Bits, b: Bits, n: int)
    requires shifted(a, b, n), n >= 0
    ensures t.dec(b) == dec_at(t, a, n)
{ dec_shift_from(t.lens@, t.values@, a, b, n, 1); }
pub proof fn dec_len(t: HuffmanTable, s: Bits, l: int)
    requires 1 <= l <= 17
    ensures hdec_from(t.lens@, t.values@, s, l) matches Some((sym, len)) ==> 1 <= len <= 16
    decreases 17 - l
{ if l <= 16 { dec_len(t, s, l + 1); } }

/// point transform: multiplication by 2^al (in 16 bits)
pub open spec fn scaled(v: int, al: u8) -> i16 { (v as i16) << al }
pub proof fn scaled_value(v: i16, al: u8)
    requires al <= 14, -32768 <= v * pow2i(al as int) <= 32767
    ensures scaled(v as int, al) == v * pow2i(al as int)
{
    pow2i_is(al as int);
    if al == 0 { assert(v << 0u8 == v) by (bit_vector); }
    else if al == 1 { assert(-32768 <= v * 2 <= 32767 ==> v << 1u8 == v * 2) by (bit_vector); }
    else if al == 2 { assert(-32768 <= v * 4 <= 32767 ==> v << 2u8 == v * 4) by (bit_vector); }
    else if al == 3 { assert(-32768 <= v * 8 <= 32767 ==> v << 3u8 == v * 8) by (bit_vector); }
    else if al == 4 { assert(-32768 <= v * 16 <= 32767 ==> v << 4u8 == v * 16) by (bit_vector); }
    else if al == 5 { assert(-32768 <= v * 32 <= 32767 ==> v << 5u8 == v * 32) by (bit_vector); }
    else if al == 6 { assert(-32768 <= v * 64 <= 32767 ==> v << 6u8 == v * 64) by (bit_vector); }
    else if al == 7 { assert(-32768 <= v * 128 <= 32767 ==> v << 7u8 == v * 128) by (bit_vector); }
    else if al == 8 { assert(-32768 <= v * 256 <= 32767 ==> v << 8u8 == v * 256) by (bit_vector); }
    else if al == 9 { assert(-32768 <= v * 512 <= 32767 ==> v << 9u8 == v * 512) by (bit_vector); }
    else if al == 10 { assert(-32768 <= v * 1024 <= 32767 ==> v << 10u8 == v * 1024) by (bit_vector); }
    else if al == 11 { assert(-32768 <= v * 2048 <= 32767 ==> v << 11u8 == v * 2048) by (bit_vector); }
    else if al == 12 { assert(-32768 <= v * 4096 <= 32767 ==> v << 12u8 == v * 4096) by (bit_vector); }
    else if al == 13 { assert(-32768 <= v * 8192 <= 32767 ==> v << 13u8 == v * 8192) by (bit_vector); }
    else { assert(-32768 <= v * 16384 <= 32767 ==> v << 14u8 == v * 16384) by (bit_vector); }
}
/// F.2.2.2, G.1.2.2: AC coefficients from position k of the band on
pub open spec fn ac_first(t: HuffmanTable, s: Bits, p: int, k: int, end: int, al: u8, c: Seq<i16>) -> BRes
    decreases end + 16 - k
{
    if k >= end { BRes::Done(c, p, 0) } else {
        match dec_at(t, s, p) {
            None => BRes::Fail,
            Some((rs, len)) => {
                let r = (rs / 16) as int; let m = (rs % 16) as int; let q = p + len;
                if m == 0 {
                    if r == 15 { ac_first(t, s, q, k + 16, end, al, c) }
                    else { BRes::Done(c, q + r, pow2i(r) - 1 + val(s, q, r)) }
                } else if k + r >= end { BRes::Over }
                else { ac_first(t, s, q + m, k + r + 1, end, al, c.update(zz(k + r), scaled(extv(val(s, q, m), m), al))) }
            },
        }
    }
}
pub open spec fn pred_add(p: i16, d: int) -> i16 { p.wrapping_add(d as i16) }
/// the DC part of a first scan: predictor and bits consumed
pub open spec fn dc_first(t: HuffmanTable, s: Bits, pred: i16) -> Option<(i16, int)> {
    match dec_at(t, s, 0) {
        None => None,
        Some((m, len)) => if m > 11 { None } else { Some((pred_add(pred, extv(val(s, len, m as int), m as int)), len + m)) },
    }
}
pub open spec fn ac_part(t: Option<&HuffmanTable>, s: Bits, p: int, k: int, end: int, al: u8, eob: int, c: Seq<i16>) -> BRes {
    if k >= end { BRes::Done(c, p, eob) }
    else if eob > 0 { BRes::Done(c, p, eob - 1) }
    else { ac_first(*t->0, s, p, k, end, al, c) }
}
/// one block of a sequential scan or of the first scan of a band: its coefficients, the bits it takes, the remaining
/// end-of-band run; and the predictor
pub open spec fn block_first(dct: Option<&HuffmanTable>, act: Option<&HuffmanTable>, s: Bits, start: int, end: int, al: u8, eob: int, pred: i16, c: Seq<i16>) -> (BRes, i16) {
    if start == 0 {
        match dc_first(*dct->0, s, pred) {
            None => (BRes::Fail, pred),
            Some((np, p)) => (ac_part(act, s, p, 1, end, al, eob, c.update(0, scaled(np as int, al))), np),
        }
    } else { (ac_part(act, s, 0, start, end, al, eob, c), pred) }
}
/// only coefficients of the band may differ
pub open spec fn same_outside(start: int, end: int, a: Seq<i16>, b: Seq<i16>) -> bool {
    a.len() == 64 && b.len() == 64 && forall|j: int| 0 <= j < 64 && (forall|k: int| start <= k < end ==> #[trigger] zz(k) != j) ==> #[trigger] b[j] == a[j]
}
//@fn src/decoder.rs decode_block
//@rw debug_assert errtext
//@sub `cmp :: max (` => `max_u8 (`
//@sub `UNZIGZAG [ $$i ]` => `unzigzag ( $$i )`
/*@ #[verifier::rlimit(60)] @*/ fn decode_block<R: Read>(
    reader: &mut R,
    coefficients: &mut [i16; 64],
    huffman: &mut HuffmanDecoder,
    dc_table: Option<&HuffmanTable>,
    ac_table: Option<&HuffmanTable>,
    spectral_selection: Range<u8>,
    successive_approximation_low: u8,
    eob_run: &mut u16,
    dc_predictor: &mut i16,
) -> /*@ (r: @*/ Result<()>
/*@ )
    requires old(huffman).wf(), spectral_selection.start < spectral_selection.end <= 64, successive_approximation_low <= 14,
        spectral_selection.start == 0 ==> (dc_table is Some && (*dc_table->0).wf()),
        spectral_selection.end > 1 ==> (ac_table is Some && (*ac_table->0).wf())
    ensures
        ({ let (b, np) = block_first(dc_table, ac_table, strm(*old(huffman), old(reader).rest()), spectral_selection.start as int, spectral_selection.end as int, successive_approximation_low,
                *old(eob_run) as int, *old(dc_predictor), old(coefficients)@);
            &&& r is Ok ==> final(huffman).wf() && fetched(*old(huffman), old(reader).rest(), *final(huffman), final(reader).rest()) && *final(dc_predictor) == np
            &&& r is Ok ==> (match b {
                    BRes::Done(c, p, e) => p >= 0 && final(coefficients)@ == c && *final(eob_run) == e && shifted(strm(*old(huffman), old(reader).rest()), strm(*final(huffman), final(reader).rest()), p),
                    BRes::Over => true,
                    BRes::Fail => false,
                })
            &&& can_fetch(*old(huffman), *old(reader)) ==> (b is Done ==> r is Ok) && (b is Fail ==> r is Err) && can_fetch(*final(huffman), *final(reader))
        }),
        old(reader).reliable() ==> final(reader).reliable(),
        same_outside(spectral_selection.start as int, spectral_selection.end as int, old(coefficients)@, final(coefficients)@)
@*/
{
    assert_exec(coefficients.len() == 64);
    /*@ let ghost s0 = strm(*huffman, reader.rest()); let ghost start = spectral_selection.start as int; let ghost end = spectral_selection.end as int;
        let ghost al = successive_approximation_low; let ghost c0 = coefficients@; let ghost total = block_first(dc_table, ac_table, s0, start, end, al, *eob_run as int, *dc_predictor, coefficients@);
        let ghost ok = can_fetch(*huffman, *reader); let ghost mut p = 0int;
        proof { assert(zz(0) == 0) by { reveal(zz); } } @*/

    if spectral_selection.start == 0 {
        // Section F.2.2.1
        // Figure F.12
        /*@ proof { dec_shift(*dc_table->0, s0, s0, 0); dec_len(*dc_table->0, off(s0, 0), 1); } @*/
        let value = huffman.decode(reader, dc_table.unwrap())?;
        /*@ let ghost s1 = strm(*huffman, reader.rest()); let ghost len = (dec_at(*dc_table->0, s0, 0)->0).1; proof { val_shift(s0, s1, len, 0, value as int); } @*/
        let diff = match value {
            0 => 0,
            1..=11 => huffman.receive_extend(reader, value)?,
            _ => {
                // Section F.1.2.1.1
                // Table F.1
                return Err(Error::Format(
                    error_text()
                ));
            }
        };
        /*@ proof { p = len + value; shift_trans(s0, s1, strm(*huffman, reader.rest()), len, value as int); } @*/

        // Malicious JPEG files can cause this add to overflow, therefore we use wrapping_add.
        // One example of such a file is tests/crashtest/images/dc-predictor-overflow.jpg
        *dc_predictor = dc_predictor.wrapping_add(diff);
        coefficients[0] = *dc_predictor << successive_approximation_low;
    }

    let mut index = max_u8(spectral_selection.start, 1);

    if index < spectral_selection.end && *eob_run > 0 {
        *eob_run -= 1;
        return Ok(());
    }

    // Section F.1.2.2.1
    /*@ proof { if start == 0 { assert(coefficients@ == c0.update(0, scaled(*dc_predictor as int, al))); } } @*/
    while index < spectral_selection.end
    /*@ invariant_except_break total.0 == (if index >= end && *eob_run != 0 { BRes::Done(coefficients@, p, *eob_run as int) } else { ac_first(*ac_table->0, s0, p, index as int, end, al, coefficients@) }),
            *eob_run == *old(eob_run), index < end ==> *eob_run == 0, p >= 0, shifted(s0, strm(*huffman, reader.rest()), p)
        invariant 1 <= index, index <= 64 + 16, start <= index, end == spectral_selection.end, start == spectral_selection.start, end <= 64, start < end, al == successive_approximation_low, al <= 14,
            end > 1 ==> (ac_table is Some && (*ac_table->0).wf()),
            huffman.wf(), fetched(*old(huffman), old(reader).rest(), *huffman, reader.rest()), old(reader).reliable() ==> reader.reliable(), ok == can_fetch(*old(huffman), *old(reader)), ok ==> can_fetch(*huffman, *reader),
            total == block_first(dc_table, ac_table, strm(*old(huffman), old(reader).rest()), start, end, al, *old(eob_run) as int, *old(dc_predictor), old(coefficients)@), *dc_predictor == total.1,
            same_outside(start, end, old(coefficients)@, coefficients@), 
            s0 == strm(*old(huffman), old(reader).rest())
        ensures match total.0 {
                    BRes::Done(c, q, e) => q >= 0 && coefficients@ == c && *eob_run == e && shifted(s0, strm(*huffman, reader.rest()), q),
                    BRes::Over => true,
                    BRes::Fail => false,
                }
        decreases 64 + 16 - index @*/
    {
        /*@ let ghost t = *ac_table->0; let ghost s1 = strm(*huffman, reader.rest()); proof { dec_shift(t, s0, s1, p); dec_len(t, off(s0, p), 1); } @*/
        if let Some((value, run)) = huffman.decode_fast_ac(reader, ac_table.unwrap())? {
            /*@ let ghost len = (dec_at(t, s0, p)->0).1; let ghost m = ((dec_at(t, s0, p)->0).0 % 16) as int; let ghost k0 = index as int; let ghost cc = coefficients@;
                proof { val_shift(s0, s1, p, len, m); shift_trans(s0, s1, strm(*huffman, reader.rest()), p, len + m); } @*/
            index += run;

            if index >= spectral_selection.end {
                break;
            }

            coefficients[unzigzag(index as usize) as usize] = value << successive_approximation_low;
            /*@ proof { assert(coefficients@ == cc.update(zz(index as int), scaled(value as int, al))); p = p + len + m; } @*/
            index += 1;
        } else {
            /*@ let ghost s1 = strm(*huffman, reader.rest()); proof { shift_trans(s0, strm(*huffman, reader.rest()), strm(*huffman, reader.rest()), p, 0); dec_shift(t, s0, s1, p); } @*/
            let byte = huffman.decode(reader, ac_table.unwrap())?;
            /*@ let ghost len = (dec_at(t, s0, p)->0).1; let ghost s2 = strm(*huffman, reader.rest());
                proof { shift_trans(s0, s1, s2, p, len); assert(byte >> 4 == byte / 16 && byte & 0x0f == byte % 16) by (bit_vector); } @*/
            let r = byte >> 4;
            let s = byte & 0x0f;

            if s == 0 {
                /*@ proof { if r == 15 { p = p + len; } } @*/
                match r {
                    15 => index += 16, // Run length of 16 zero coefficients.
                    _ => {
                        /*@ proof { pow2i_is(r as int); val_bound(s0, p + len, r as int); val_shift(s0, s2, p + len, 0, r as int); let rr = r as u16;
                            assert(1u16 << rr == (if rr == 0 { 1u16 } else if rr == 1 { 2 } else if rr == 2 { 4 } else if rr == 3 { 8 } else if rr == 4 { 16 } else if rr == 5 { 32 } else if rr == 6 { 64 } else if rr == 7 { 128 }
                                else if rr == 8 { 256 } else if rr == 9 { 512 } else if rr == 10 { 1024 } else if rr == 11 { 2048 } else if rr == 12 { 4096 } else if rr == 13 { 8192 } else { 16384 })) by (bit_vector) requires rr <= 14;
                        } @*/
                        *eob_run = (1 << r) - 1;

                        if r > 0 {
                            *eob_run += huffman.get_bits(reader, r)?;
                        }
                        /*@ proof { p = p + len + r; shift_trans(s0, s2, strm(*huffman, reader.rest()), p - r, r as int); } @*/

                        break;
                    }
                }
            } else {
                index += r;

                if index >= spectral_selection.end {
                    break;
                }
                /*@ proof { val_shift(s0, s2, p + len, 0, s as int); } let ghost cc = coefficients@; @*/

                coefficients[unzigzag(index as usize) as usize] =
                    huffman.receive_extend(reader, s)? << successive_approximation_low;
                /*@ proof { shift_trans(s0, s2, strm(*huffman, reader.rest()), p + len, s as int); p = p + len + s;
                    assert(coefficients@ == cc.update(zz(index as int), scaled(extv(val(s0, p - s, s as int), s as int), al))); } @*/
                index += 1;
            }
        }
    }

    Ok(())
}
//@end
pub enum RRes {
    /// coefficients, bits consumed, position of the zero coefficient after the run (None: the band ended before it)
    Found(Seq<i16>, int, Option<int>),
    Fail,
}
/// G.1.2.3: one bit for every non-zero coefficient on the way over zrl zero coefficients
pub open spec fn refine(s: Bits, p: int, k: int, end: int, zrl: int, bit: i16, c: Seq<i16>) -> RRes
    decreases end - k
{
    if k >= end { RRes::Found(c, p, None) } else {
        let x = c[zz(k)];
        if x == 0 {
            if zrl == 0 { RRes::Found(c, p, Some(k)) } else { refine(s, p, k + 1, end, zrl - 1, bit, c) }
        } else if s(p) && x & bit == 0 {
            let y = if x > 0 { x + bit } else { x - bit };
            if -32768 <= y <= 32767 { refine(s, p + 1, k + 1, end, zrl, bit, c.update(zz(k), y as i16)) } else { RRes::Fail }
        } else { refine(s, p + 1, k + 1, end, zrl, bit, c) }
    }
}
/// refinement of a band from position k on
pub open spec fn ac_refine(t: HuffmanTable, s: Bits, p: int, k: int, end: int, bit: i16, c: Seq<i16>) -> BRes
    decreases end - k
{
    if k >= end { BRes::Done(c, p, 0) } else {
        match dec_at(t, s, p) {
            None => BRes::Fail,
            Some((rs, len)) => {
                let r = (rs / 16) as int; let m = rs % 16; let q = p + len;
                if m == 0 && r < 15 {
                    // end of band: only the coefficients that are already there
                    match refine(s, q + r, k, end, 64, bit, c) {
                        RRes::Found(c2, p2, _) => BRes::Done(c2, p2, pow2i(r) - 1 + val(s, q, r)),
                        RRes::Fail => BRes::Fail,
                    }
                } else if m <= 1 {
                    let v = if m == 0 { 0 } else if s(q) { bit as int } else { -bit };
                    match refine(s, q + m, k, end, r, bit, c) {
                        RRes::Found(c2, p2, Some(k2)) => if k <= k2 < end { ac_refine(t, s, p2, k2 + 1, end, bit, c2.update(zz(k2), v as i16)) } else { BRes::Fail },
                        RRes::Found(c2, p2, None) => BRes::Over,
                        RRes::Fail => BRes::Fail,
                    }
                } else { BRes::Fail }
            },
        }
    }
}
/// one block of a refinement scan
pub open spec fn block_refine(act: Option<&HuffmanTable>, s: Bits, start: int, end: int, bit: i16, eob: int, c: Seq<i16>) -> BRes {
    if start == 0 { BRes::Done(if s(0) { c.update(0, c[0] | bit) } else { c }, 1, eob) }
    else if eob > 0 {
        match refine(s, 0, start, end, 64, bit, c) {
            RRes::Found(c2, p2, _) => BRes::Done(c2, p2, eob - 1),
            RRes::Fail => BRes::Fail,
        }
    } else { ac_refine(*act->0, s, 0, start, end, bit, c) }
}
pub proof fn refine_pos(s: Bits, p: int, k: int, end: int, zrl: int, bit: i16, c: Seq<i16>)
    requires k >= 0
    ensures refine(s, p, k, end, zrl, bit, c) matches RRes::Found(c2, p2, Some(k2)) ==> k <= k2 < end && c2[zz(k2)] == 0,
        refine(s, p, k, end, zrl, bit, c) matches RRes::Found(c2, p2, k2) ==> c2.len() == c.len() && p2 >= p
    decreases end - k
{
    if k < end {
        let x = c[zz(k)];
        if x == 0 { if zrl != 0 { refine_pos(s, p, k + 1, end, zrl - 1, bit, c); } }
        else if s(p) && x & bit == 0 {
            let y = if x > 0 { x + bit } else { x - bit };
            if -32768 <= y <= 32767 { refine_pos(s, p + 1, k + 1, end, zrl, bit, c.update(zz(k), y as i16)); }
        } else { refine_pos(s, p + 1, k + 1, end, zrl, bit, c); }
    }
}
/// fewer than zrl coefficients: the run never ends inside the band
pub proof fn refine_all(s: Bits, p: int, k: int, end: int, zrl: int, bit: i16, c: Seq<i16>)
    requires zrl >= end - k
    ensures refine(s, p, k, end, zrl, bit, c) matches RRes::Found(c2, p2, k2) ==> k2 is None
    decreases end - k
{
    if k < end {
        let x = c[zz(k)];
        if x == 0 { refine_all(s, p, k + 1, end, zrl - 1, bit, c); }
        else if s(p) && x & bit == 0 {
            let y = if x > 0 { x + bit } else { x - bit };
            if -32768 <= y <= 32767 { refine_all(s, p + 1, k + 1, end, zrl, bit, c.update(zz(k), y as i16)); }
        } else { refine_all(s, p + 1, k + 1, end, zrl, bit, c); }
    }
}
pub proof fn refine_shift(a: Bits, b: Bits, n: int, p: int, k: int, end: int, zrl: int, bit: i16, c: Seq<i16>)
    requires shifted(a, b, n), p >= 0
    ensures refine(b, p, k, end, zrl, bit, c) == (match refine(a, p + n, k, end, zrl, bit, c) { RRes::Found(c2, p2, k2) => RRes::Found(c2, p2 - n, k2), RRes::Fail => RRes::Fail })
    decreases end - k
{
    if k < end {
        let x = c[zz(k)];
        assert(b(p) == a(p + n));
        if x == 0 { if zrl != 0 { refine_shift(a, b, n, p, k + 1, end, zrl - 1, bit, c); } }
        else if b(p) && x & bit == 0 {
            let y = if x > 0 { x + bit } else { x - bit };
            if -32768 <= y <= 32767 { refine_shift(a, b, n, p + 1, k + 1, end, zrl, bit, c.update(zz(k), y as i16)); }
        } else { refine_shift(a, b, n, p + 1, k + 1, end, zrl, bit, c); }
    }
}
pub proof fn val1(s: Bits)
    ensures val(s, 0, 1) == (if s(0) { 1int } else { 0int })
{ reveal_with_fuel(val, 2); }
//@fn src/decoder.rs refine_non_zeroes
//@rw debug_assert errtext ok_or_else
//@sub `UNZIGZAG [ $$i ]` => `unzigzag ( $$i )`
/*@ #[verifier::rlimit(60)] @*/ fn refine_non_zeroes<R: Read>(
    reader: &mut R,
    coefficients: &mut [i16; 64],
    huffman: &mut HuffmanDecoder,
    range: Range<u8>,
    zrl: u8,
    bit: i16,
) -> /*@ (r: @*/ Result<u8>
/*@ )
    requires old(huffman).wf(), range.start < range.end <= 64
    ensures
        r is Ok ==> final(huffman).wf() && fetched(*old(huffman), old(reader).rest(), *final(huffman), final(reader).rest()),
        match refine(strm(*old(huffman), old(reader).rest()), 0, range.start as int, range.end as int, zrl as int, bit, old(coefficients)@) {
            RRes::Found(c, p, k) => r matches Ok(i) ==> p >= 0 && final(coefficients)@ == c && shifted(strm(*old(huffman), old(reader).rest()), strm(*final(huffman), final(reader).rest()), p)
                && i == (match k { Some(k) => k, None => range.end - 1 }),
            RRes::Fail => r is Err,
        },
        can_fetch(*old(huffman), *old(reader)) ==> (refine(strm(*old(huffman), old(reader).rest()), 0, range.start as int, range.end as int, zrl as int, bit, old(coefficients)@) is Found ==> r is Ok) && can_fetch(*final(huffman), *final(reader)),
        old(reader).reliable() ==> final(reader).reliable(),
        same_outside(range.start as int, range.end as int, old(coefficients)@, final(coefficients)@)
@*/
{
    assert_exec(coefficients.len() == 64);
    /*@ let ghost s0 = strm(*huffman, reader.rest()); let ghost start = range.start as int; let ghost end = range.end as int;
        let ghost ok = can_fetch(*huffman, *reader); let ghost mut p = 0int; let ghost total = refine(s0, 0, start, end, zrl as int, bit, coefficients@); @*/

    let last = range.end - 1;
    let mut zero_run_length = zrl;

    for i in range
    /*@ invariant start == range.start, end == range.end, end <= 64, p >= 0, huffman.wf(), fetched(*old(huffman), old(reader).rest(), *huffman, reader.rest()), last == end - 1,
            s0 == strm(*old(huffman), old(reader).rest()), old(reader).reliable() ==> reader.reliable(), ok == can_fetch(*old(huffman), *old(reader)), ok ==> can_fetch(*huffman, *reader), shifted(s0, strm(*huffman, reader.rest()), p),
            total == refine(s0, 0, start, end, zrl as int, bit, old(coefficients)@),
            total == refine(s0, p, i as int, end, zero_run_length as int, bit, coefficients@),
            same_outside(start, end, old(coefficients)@, coefficients@)
    @*/
    {
        let index = unzigzag(i as usize) as usize;
        /*@ let ghost s1 = strm(*huffman, reader.rest()); let ghost c1 = coefficients@; @*/

        let coefficient = &mut coefficients[index];

        if *coefficient == 0 {
            if zero_run_length == 0 {
                return Ok(i);
            }

            zero_run_length -= 1;
        } else if huffman.get_bits(reader, 1)? == 1 && *coefficient & bit == 0 {
            /*@ proof { val1(s1); assert(s1(0) == s0(0 + p)); shift_trans(s0, s1, strm(*huffman, reader.rest()), p, 1); p = p + 1; } @*/
            if *coefficient > 0 {
                *coefficient = match coefficient
                    .checked_add(bit)
                    { Some(v) => v, None => return Err(Error::Format(error_text())) };
            } else {
                *coefficient = match coefficient
                    .checked_sub(bit)
                    { Some(v) => v, None => return Err(Error::Format(error_text())) };
            }
        } /*@ else { proof { assert(*coefficient == c1[zz(i as int)]); val1(s1); assert(s1(0) == s0(0 + p)); shift_trans(s0, s1, strm(*huffman, reader.rest()), p, 1); p = p + 1; } }
        proof { let x = c1[zz(i as int)]; let y = if x > 0 { x + bit } else { x - bit };
            if x != 0 && s1(0) && x & bit == 0 { assert(coefficients@ =~= c1.update(zz(i as int), y as i16)); } else { assert(coefficients@ =~= c1); } } @*/
    }

    Ok(last)
}
//@end
//@fn src/decoder.rs decode_block_successive_approximation
//@rw debug_assert errtext
//@sub `UNZIGZAG [ $$i ]` => `unzigzag ( $$i )`
/*@ #[verifier::rlimit(60)] @*/ fn decode_block_successive_approximation<R: Read>(
    reader: &mut R,
    coefficients: &mut [i16; 64],
    huffman: &mut HuffmanDecoder,
    ac_table: Option<&HuffmanTable>,
    spectral_selection: Range<u8>,
    successive_approximation_low: u8,
    eob_run: &mut u16,
) -> /*@ (r: @*/ Result<()>
/*@ )
    requires old(huffman).wf(), spectral_selection.start < spectral_selection.end <= 64, successive_approximation_low <= 13,
        spectral_selection.start > 0 ==> (ac_table is Some && (*ac_table->0).wf()), spectral_selection.start == 0 ==> spectral_selection.end == 1
    ensures
        ({ let b = block_refine(ac_table, strm(*old(huffman), old(reader).rest()), spectral_selection.start as int, spectral_selection.end as int, scaled(1, successive_approximation_low), *old(eob_run) as int, old(coefficients)@);
            &&& r is Ok ==> final(huffman).wf() && fetched(*old(huffman), old(reader).rest(), *final(huffman), final(reader).rest())
            &&& r is Ok ==> (match b {
                    BRes::Done(c, p, e) => p >= 0 && final(coefficients)@ == c && *final(eob_run) == e && shifted(strm(*old(huffman), old(reader).rest()), strm(*final(huffman), final(reader).rest()), p),
                    BRes::Over => true,
                    BRes::Fail => false,
                })
            &&& can_fetch(*old(huffman), *old(reader)) ==> (b is Done ==> r is Ok) && (b is Fail ==> r is Err) && can_fetch(*final(huffman), *final(reader))
        }),
        old(reader).reliable() ==> final(reader).reliable(),
        same_outside(spectral_selection.start as int, spectral_selection.end as int, old(coefficients)@, final(coefficients)@)
@*/
{
    assert_exec(coefficients.len() == 64);
    /*@ let ghost s0 = strm(*huffman, reader.rest()); let ghost start = spectral_selection.start as int; let ghost end = spectral_selection.end as int;
        let ghost al = successive_approximation_low; let ghost total = block_refine(ac_table, s0, start, end, scaled(1, al), *eob_run as int, coefficients@);
        let ghost ok = can_fetch(*huffman, *reader); let ghost mut p = 0int;
        proof { val1(s0); assert(zz(0) == 0) by { reveal(zz); } pow2i_is(al as int); scaled_value(1, al); } @*/

    let bit = 1 << successive_approximation_low;

    if spectral_selection.start == 0 {
        // Section G.1.2.1

        if huffman.get_bits(reader, 1)? == 1 {
            coefficients[0] |= bit;
            /*@ proof { assert(coefficients@ =~= old(coefficients)@.update(0, old(coefficients)@[0] | bit)); } @*/
        }
    } else {
        // Section G.1.2.3

        if *eob_run > 0 {
            *eob_run -= 1;
            refine_non_zeroes(reader, coefficients, huffman, spectral_selection, 64, bit)?;
            return Ok(());
        }

        let mut index = spectral_selection.start;

        while index < spectral_selection.end
        /*@ invariant_except_break
                total != BRes::Over ==> total == (if index >= end && *eob_run != 0 { BRes::Done(coefficients@, p, *eob_run as int) } else { ac_refine(*ac_table->0, s0, p, index as int, end, bit, coefficients@) }) && p >= 0 && shifted(s0, strm(*huffman, reader.rest()), p),
                index < end ==> *eob_run == 0,
            invariant 1 <= index, index <= end, start <= index, end == spectral_selection.end, start == spectral_selection.start, end <= 64, start < end, al == successive_approximation_low, al <= 13,
                bit == scaled(1, al), 0 < bit,
                ac_table is Some && (*ac_table->0).wf(),
                huffman.wf(), fetched(*old(huffman), old(reader).rest(), *huffman, reader.rest()), old(reader).reliable() ==> reader.reliable(), ok == can_fetch(*old(huffman), *old(reader)), ok ==> can_fetch(*huffman, *reader),
                total == block_refine(ac_table, strm(*old(huffman), old(reader).rest()), start, end, scaled(1, al), *old(eob_run) as int, old(coefficients)@),
                same_outside(start, end, old(coefficients)@, coefficients@),
                s0 == strm(*old(huffman), old(reader).rest())
            ensures match total {
                    BRes::Done(c, q, e) => q >= 0 && coefficients@ == c && *eob_run == e && shifted(s0, strm(*huffman, reader.rest()), q),
                    BRes::Over => true,
                    BRes::Fail => false,
                }
            decreases 64 - index @*/
        {
            /*@ let ghost t = *ac_table->0; let ghost s1 = strm(*huffman, reader.rest()); let ghost k0 = index as int; let ghost c1 = coefficients@;
                proof { if total != BRes::Over { dec_shift(t, s0, s1, p); } dec_len(t, s1, 1); } @*/
            let byte = huffman.decode(reader, ac_table.unwrap())?;
            /*@ let ghost len = (t.dec(s1)->0).1; let ghost s2 = strm(*huffman, reader.rest());
                proof { if total != BRes::Over { shift_trans(s0, s1, s2, p, len); } assert(byte >> 4 == byte / 16 && byte & 0x0f == byte % 16) by (bit_vector); } @*/
            let r = byte >> 4;
            let s = byte & 0x0f;

            let mut zero_run_length = r;
            let mut value = 0;

            match s {
                0 => {
                    match r {
                        15 => {
                            // Run length of 16 zero coefficients.
                            // We don't need to do anything special here, zero_run_length is 15
                            // and then value (which is zero) gets written, resulting in 16
                            // zero coefficients.
                        }
                        _ => {
                            /*@ proof { pow2i_is(r as int); val_bound(s2, 0, r as int); if total != BRes::Over { val_shift(s0, s2, p + len, 0, r as int); } let rr = r as u16;
                                assert(1u16 << rr == (if rr == 0 { 1u16 } else if rr == 1 { 2 } else if rr == 2 { 4 } else if rr == 3 { 8 } else if rr == 4 { 16 } else if rr == 5 { 32 } else if rr == 6 { 64 } else if rr == 7 { 128 }
                                    else if rr == 8 { 256 } else if rr == 9 { 512 } else if rr == 10 { 1024 } else if rr == 11 { 2048 } else if rr == 12 { 4096 } else if rr == 13 { 8192 } else { 16384 })) by (bit_vector) requires rr <= 14;
                            } @*/
                            *eob_run = (1 << r) - 1;

                            if r > 0 {
                                *eob_run += huffman.get_bits(reader, r)?;
                            }

                            // Force end of block.
                            zero_run_length = 64;
                        }
                    }
                }
                1 => {
                    /*@ proof { val1(s2); if total != BRes::Over { assert(s2(0) == s0(0 + (p + len))); } } @*/
                    if huffman.get_bits(reader, 1)? == 1 {
                        value = bit;
                    } else {
                        value = -bit;
                    }
                }
                _ => return Err(Error::Format(error_text())),
            }
            /*@ let ghost more = if s == 0 && r < 15 { r as int } else { s as int }; let ghost s3 = strm(*huffman, reader.rest()); let ghost q = p + len + more;
                proof { if total != BRes::Over { shift_trans(s0, s2, s3, p + len, more); refine_shift(s0, s3, q, 0, k0, end, zero_run_length as int, bit, c1); }
                    refine_pos(s3, 0, k0, end, zero_run_length as int, bit, c1); if zero_run_length == 64 { refine_all(s3, 0, k0, end, 64, bit, c1); } } @*/

            let range = Range {
                start: index,
                end: spectral_selection.end,
            };
            index = refine_non_zeroes(reader, coefficients, huffman, range, zero_run_length, bit)?;
            /*@ let ghost c2 = coefficients@; let ghost rr = refine(s3, 0, k0, end, zero_run_length as int, bit, c1); let ghost k2 = index as int; let ghost p2 = rr->Found_1;
                proof { if total != BRes::Over { shift_trans(s0, s3, strm(*huffman, reader.rest()), q, p2); p = q + p2; } } @*/

            if value != 0 {
                coefficients[unzigzag(index as usize) as usize] = value;
            }
            /*@ proof { if rr->Found_2 is Some { assert(coefficients@ =~= c2.update(zz(k2), value)); } } @*/

            index += 1;
        }
    }

    Ok(())
}
//@end
