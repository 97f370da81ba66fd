/// the codes assigned so far: entry j of the two lists
pub open spec fn code_at(lens: Seq<u8>, j: int, hc: u16, hs: u8) -> bool {
    1 <= hs <= 16 && fidx(lens, hs as int) <= j < fidx(lens, hs + 1) && hc == fcode(lens, hs as int) + (j - fidx(lens, hs as int)) && hc < pow2i(hs as int)
}
/// 2^a * 2^(8-a)
pub proof fn pow2_pair(a: int) requires 0 <= a <= 8 ensures pow2i(8 - a) * pow2i(a) == 256
{
    assert(pow2i(0) == 1 && pow2i(1) == 2 && pow2i(2) == 4 && pow2i(3) == 8 && pow2i(4) == 16 && pow2i(5) == 32 && pow2i(6) == 64 && pow2i(7) == 128 && pow2i(8) == 256) by (compute);
    let (x, y) = (pow2i(8 - a), pow2i(a));
    assert(x * y == 256) by (nonlinear_arith) requires a == 0 && x == 256 && y == 1 || a == 1 && x == 128 && y == 2 || a == 2 && x == 64 && y == 4 || a == 3 && x == 32 && y == 8 || a == 4 && x == 16 && y == 16 || a == 5 && x == 8 && y == 32 || a == 6 && x == 4 && y == 64 || a == 7 && x == 2 && y == 128 || a == 8 && x == 1 && y == 256;
}
//@fn src/huffman.rs derive_huffman_codes
//@rw fold_vec extend_repeat enumerate_ref errtext
fn derive_huffman_codes(bits: &[u8; 16]) -> /*@ (r: @*/ Result<(Vec<u16>, Vec<u8>)>
/*@ ) requires 0 < fidx(bits@, 17) <= 256
    ensures r is Ok <==> legal(bits@),
        r matches Ok((hc, hs)) ==> hc@.len() == fidx(bits@, 17) && hs@.len() == fidx(bits@, 17)
            && forall|j: int| 0 <= j < hs@.len() ==> #[trigger] code_at(bits@, j, hc@[j], hs@[j])
@*/
{
    /*@ let ghost lens = bits@; proof { fidx_mono(lens, 1, 1); } @*/
    // Figure C.1
    let mut acc /*@ : Vec<u8> @*/ = Vec::new();
    for i in 0 .. bits.len()
    /*@ invariant lens == bits@, acc@.len() == fidx(lens, i + 1),
            forall|j: int| 0 <= j < acc@.len() ==> 1 <= #[trigger] acc@[j] <= i && fidx(lens, acc@[j] as int) <= j < fidx(lens, acc@[j] + 1)
    @*/
    {
        let value = bits[i];
        vec_extend_repeat(&mut acc, (i + 1) as u8, value as usize);
        /*@ proof { fidx_mono(lens, i + 1, i + 2); } @*/
    }
    let huffsize = acc;

    // Figure C.2
    let mut huffcode = vec![0u16; huffsize.len()];
    /*@ let ghost total = fidx(lens, 17); @*/
    let mut code_size = huffsize[0];
    let mut code = 0u32;
    /*@ proof { fidx_mono(lens, 1, code_size as int); fcode_zero(lens, code_size as int); pow2i_pos(code_size as int); } @*/

    for i in 0 .. huffsize.len()
    /*@ invariant lens == bits@, huffsize@.len() == total, huffcode@.len() == total, total == fidx(lens, 17), 0 < total <= 256,
            forall|j: int| 0 <= j < total ==> 1 <= #[trigger] huffsize@[j] <= 16 && fidx(lens, huffsize@[j] as int) <= j < fidx(lens, huffsize@[j] + 1),
            1 <= code_size <= 16, fidx(lens, code_size as int) <= i <= fidx(lens, code_size + 1),
            code == fcode(lens, code_size as int) + (i - fidx(lens, code_size as int)), code <= pow2i(code_size as int),
            forall|j: int| 0 <= j < i ==> #[trigger] code_at(lens, j, huffcode@[j], huffsize@[j])
    @*/
    {
        let size = huffsize[i];
        /*@ proof { if size < code_size { fidx_mono(lens, size + 1, code_size as int); } } @*/
        while code_size < size
        /*@ invariant 1 <= code_size <= size <= 16, fidx(lens, size as int) <= i < fidx(lens, size + 1), fidx(lens, code_size as int) <= i <= fidx(lens, code_size + 1),
                code == fcode(lens, code_size as int) + (i - fidx(lens, code_size as int)), code <= pow2i(code_size as int),
                i < total, total <= 256
            decreases size - code_size @*/
        {
            /*@ proof {
                fidx_mono(lens, code_size + 1, size as int); pow2i_is(code_size as int);
                fidx_mono(lens, code_size + 1, code_size + 2);
                assert(code << 1 == 2 * code) by (bit_vector) requires code <= 32768;
            } @*/
            code <<= 1;
            code_size += 1;
        }

        /*@ proof { pow2i_is(size as int);
            let z = size as u32;
            assert(1u32 << z == (if z == 1 { 2u32 } else if z == 2 { 4 } else if z == 3 { 8 } else if z == 4 { 16 } else if z == 5 { 32 } else if z == 6 { 64 } else if z == 7 { 128 }
            else if z == 8 { 256 } else if z == 9 { 512 } else if z == 10 { 1024 } else if z == 11 { 2048 } else if z == 12 { 4096 } else if z == 13 { 8192 } else if z == 14 { 16384 } else if z == 15 { 32768 } else { 65536 })) by (bit_vector) requires 1 <= z <= 16;
        } @*/
        if code >= (1u32 << size) {
            /*@ proof { assert(fcode(lens, size as int) + ncode(lens, size as int) > pow2i(size as int)); } @*/
            return Err(Error::Format(error_text()));
        }

        huffcode[i] = code as u16;
        code += 1;
        /*@ proof { assert(code_at(lens, i as int, huffcode@[i as int], huffsize@[i as int]));
            assert forall|j: int| 0 <= j < i + 1 implies #[trigger] code_at(lens, j, huffcode@[j], huffsize@[j]) by { if j < i { } } } @*/
    }
    /*@ proof {
        assert forall|l: int| 1 <= l <= 16 && ncode(lens, l) > 0 implies #[trigger] fcode(lens, l) + ncode(lens, l) <= pow2i(l) by {
            let j = fidx(lens, l + 1) - 1;
            fidx_mono(lens, l + 1, 17); fidx_mono(lens, 1, l);
            assert(code_at(lens, j, huffcode@[j], huffsize@[j]));
            fidx_unique(lens, l, huffsize@[j] as int, j);
        }
    } @*/

    Ok((huffcode, huffsize))
}
//@end
pub open spec fn lut_part(lens: Seq<u8>, vals: Seq<u8>, hc: Seq<u16>, hs: Seq<u8>, n: int, p: int, e: (u8, u8)) -> bool {
    if e.1 == 0 { e.0 == 0 && forall|j: int| 0 <= j < n && #[trigger] hs[j] <= 8 ==> p / pow2i(8 - hs[j]) != hc[j] }
    else { exists|j: int| 0 <= j < n && hs[j] <= 8 && #[trigger] hs[j] == e.1 && e.0 == vals[j] && p / pow2i(8 - hs[j]) == hc[j] }
}
impl HuffmanTable {
//@fn src/huffman.rs HuffmanTable::new
//@rw enumerate_filter fill_slice enumerate_pair to_vec
    pub fn new(bits: &[u8; 16], values: &[u8], class: HuffmanTableClass) -> /*@ (r: @*/ Result<HuffmanTable>
    /*@ ) requires 0 < fidx(bits@, 17) <= 256, values@.len() == fidx(bits@, 17)
        ensures r is Ok <==> legal(bits@),
            r matches Ok(t) ==> t.wf() && t.lens@ == bits@ && t.values@ == values@ && (t.ac_lut is Some <==> class == HuffmanTableClass::AC)
    @*/
    {
        let (huffcode, huffsize) = derive_huffman_codes(bits)?;
        /*@ let ghost lens = bits@; let ghost vals = values@; let ghost total = fidx(lens, 17); let ghost hc = huffcode@; let ghost hs = huffsize@;
            proof { fidx_mono(lens, 1, 1); } @*/

        // Section F.2.2.3
        // Figure F.15
        // delta[i] is set to VALPTR(I) - MINCODE(I)
        let mut delta = [0i32; 16];
        let mut maxcode = [-1i32; 16];
        let mut j = 0;

        for i in 0 .. 16
        /*@ invariant lens == bits@, lens.len() == 16, total == fidx(lens, 17), total <= 256, huffcode@ == hc, hc.len() == total, hs.len() == total,
                forall|j: int| 0 <= j < total ==> #[trigger] code_at(lens, j, hc[j], hs[j]),
                j == fidx(lens, i + 1),
                forall|l: int| 1 <= l <= i ==> #[trigger] maxcode@[l - 1] == (if ncode(lens, l) == 0 { -1 } else { fcode(lens, l) + ncode(lens, l) - 1 }),
                forall|l: int| i < l <= 16 ==> #[trigger] maxcode@[l - 1] == -1,
                forall|l: int| 1 <= l <= i && ncode(lens, l) > 0 ==> #[trigger] delta@[l - 1] == fidx(lens, l) - fcode(lens, l)
        @*/
        {
            /*@ proof { let l = i + 1; fidx_mono(lens, 1, l); fidx_mono(lens, l + 1, 17);
                if ncode(lens, l) > 0 {
                    let a = fidx(lens, l); let b = fidx(lens, l + 1) - 1;
                    assert(code_at(lens, a, hc[a], hs[a])); assert(code_at(lens, b, hc[b], hs[b]));
                    fidx_unique(lens, l, hs[a] as int, a); fidx_unique(lens, l, hs[b] as int, b);
                }
                assert(maxcode@[l - 1] == -1);
            } @*/
            /*@ let ghost m0 = maxcode@; let ghost d0 = delta@; @*/
            if bits[i] != 0 {
                delta[i] = j as i32 - huffcode[j] as i32;
                j += bits[i] as usize;
                maxcode[i] = huffcode[j - 1] as i32;
            }
            /*@ proof {
                assert forall|l: int| 1 <= l <= i + 1 implies #[trigger] maxcode@[l - 1] == (if ncode(lens, l) == 0 { -1 } else { fcode(lens, l) + ncode(lens, l) - 1 }) by {
                    if l <= i { assert(maxcode@[l - 1] == m0[l - 1]); } }
                assert forall|l: int| i + 1 < l <= 16 implies #[trigger] maxcode@[l - 1] == -1 by { assert(maxcode@[l - 1] == m0[l - 1]); }
                assert forall|l: int| 1 <= l <= i + 1 && ncode(lens, l) > 0 implies #[trigger] delta@[l - 1] == fidx(lens, l) - fcode(lens, l) by {
                    if l <= i { assert(delta@[l - 1] == d0[l - 1]); } }
            } @*/
        }

        // Build a lookup table for faster decoding.
        let mut lut = [(0u8, 0u8); 1 << LUT_BITS];
        /*@ proof { assert((1usize << LUT_BITS) == 256) by (compute); } @*/

        for i in 0 .. huffsize.len()
        /*@ invariant lens == bits@, lens.len() == 16, total == fidx(lens, 17), total <= 256, huffcode@ == hc, huffsize@ == hs, hc.len() == total, hs.len() == total, values@ == vals, vals.len() == total,
                forall|j: int| 0 <= j < total ==> #[trigger] code_at(lens, j, hc[j], hs[j]),
                forall|p: int| 0 <= p < 256 ==> lut_part(lens, vals, hc, hs, i as int, p, #[trigger] lut@[p])
        @*/
        {
            let size = huffsize[i];
            /*@ proof { assert(code_at(lens, i as int, hc[i as int], hs[i as int])); } let ghost lut0 = lut@; @*/
            if size <= LUT_BITS {
                let bits_remaining = LUT_BITS - size;
                /*@ let ghost q = pow2i(bits_remaining as int); let ghost c = huffcode[i as int] as int;
                    proof {
                        pow2i_is(bits_remaining as int); pow2i_is(size as int);
                        let x = huffcode[i as int]; let r = bits_remaining as u16; let z = bits_remaining as usize;
                        assert(1usize << z == (if z == 0 { 1usize } else if z == 1 { 2 } else if z == 2 { 4 } else if z == 3 { 8 } else if z == 4 { 16 } else if z == 5 { 32 } else if z == 6 { 64 } else { 128 })) by (bit_vector) requires z <= 7;
                        assert(x << r == mul(x, if r == 0 { 1u16 } else if r == 1 { 2 } else if r == 2 { 4 } else if r == 3 { 8 } else if r == 4 { 16 } else if r == 5 { 32 } else if r == 6 { 64 } else { 128 })) by (bit_vector) requires r <= 7;
                        pow2_pair(size as int); assert(q * pow2i(size as int) == 256);
                        assert((c + 1) * q <= 256) by (nonlinear_arith) requires q * pow2i(size as int) == 256, c + 1 <= pow2i(size as int), q > 0;
                        assert(c * q + q == (c + 1) * q) by (nonlinear_arith);
                        assert(x << r == c * q);
                    } @*/
                let start = (huffcode[i] << bits_remaining) as usize;

                let val = (values[i], size);
                for k in start .. start + (1 << bits_remaining)
                /*@ invariant start == c * q, start + q <= 256, (1usize << bits_remaining) == q,
                        val == (vals[i as int], size), lut0.len() == 256,
                        forall|p: int| 0 <= p < 256 ==> #[trigger] lut@[p] == (if start <= p < k { val } else { lut0[p] })
                @*/
                {
                    lut[k] = val;
                }
                /*@ proof {
                    assert forall|p: int| 0 <= p < 256 implies lut_part(lens, vals, hc, hs, i + 1, p, #[trigger] lut@[p]) by {
                        assert(lut_part(lens, vals, hc, hs, i as int, p, lut0[p]));
                        let d = p / q;
                        assert(p == d * q + p % q && 0 <= p % q < q) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, q); assert(q * d == d * q) by (nonlinear_arith); }
                        assert(d == c <==> start <= p < start + q) by (nonlinear_arith) requires p == d * q + p % q, 0 <= p % q < q, start == c * q;
                        if start <= p < start + q { assert(hs[i as int] == val.1); } else {
                            if lut0[p].1 != 0 {
                                let j = choose|j: int| 0 <= j < i && hs[j] <= 8 && #[trigger] hs[j] == lut0[p].1 && lut0[p].0 == vals[j] && p / pow2i(8 - hs[j]) == hc[j];
                                assert(0 <= j < i + 1 && hs[j] == lut@[p].1);
                            }
                        }
                    }
                } @*/
            }
            /*@ proof { if size > LUT_BITS {
                assert forall|p: int| 0 <= p < 256 implies lut_part(lens, vals, hc, hs, i + 1, p, #[trigger] lut@[p]) by {
                    assert(lut_part(lens, vals, hc, hs, i as int, p, lut0[p]));
                    if lut0[p].1 != 0 {
                        let j = choose|j: int| 0 <= j < i && hs[j] <= 8 && #[trigger] hs[j] == lut0[p].1 && lut0[p].0 == vals[j] && p / pow2i(8 - hs[j]) == hc[j];
                        assert(0 <= j < i + 1 && hs[j] == lut@[p].1);
                    }
                }
            } } @*/
        }
        /*@ proof {
            assert forall|p: int| 0 <= p < 256 implies lut_ok(lens, vals, p, #[trigger] lut@[p]) by {
                let e = lut@[p];
                assert(lut_part(lens, vals, hc, hs, total, p, e));
                if e.1 == 0 {
                    assert forall|l: int| 1 <= l <= 8 implies !#[trigger] hit(lens, l, p / pow2i(8 - l)) by {
                        let c = p / pow2i(8 - l);
                        if hit(lens, l, c) {
                            let j = fidx(lens, l) + c - fcode(lens, l);
                            fidx_mono(lens, 1, l); fidx_mono(lens, l + 1, 17);
                            assert(code_at(lens, j, hc[j], hs[j]));
                            fidx_unique(lens, l, hs[j] as int, j);
                            assert(hs[j] <= 8);
                        }
                    }
                } else {
                    let j = choose|j: int| 0 <= j < total && hs[j] <= 8 && #[trigger] hs[j] == e.1 && e.0 == vals[j] && p / pow2i(8 - hs[j]) == hc[j];
                    assert(code_at(lens, j, hc[j], hs[j]));
                }
            }
        } @*/

        // Build a lookup table for small AC coefficients which both decodes the value and does the
        // equivalent of receive_extend.
        let ac_lut = match class {
            HuffmanTableClass::DC => None,
            HuffmanTableClass::AC => {
                let mut table = [(0i16, 0u8); 1 << LUT_BITS];

                for i in 0 .. lut.len()
                /*@ invariant lut@.len() == 256, table@.len() == 256, forall|p: int| 0 <= p < 256 ==> lut_ok(lens, vals, p, #[trigger] lut@[p]),
                        forall|p: int| 0 <= p < 256 ==> aclut_ok(lut@[p], p, #[trigger] table@[p])
                @*/
                {
                    let (value, size) = lut[i];
                    /*@ proof {
                        assert(lut_ok(lens, vals, i as int, lut@[i as int]));
                        assert(value >> 4 == value / 16) by (bit_vector);
                        assert(value & 0x0f == value % 16) by (bit_vector);
                    } @*/
                    let run_length = value >> 4;
                    let magnitude_category = value & 0x0f;

                    if magnitude_category > 0 && size + magnitude_category <= LUT_BITS {
                        /*@ proof {
                            let m = magnitude_category as usize; let z = size as usize; let n = (z + m) as usize;
                            let sh = sub(8, n);
                            assert(((i << z) & 255) >> sub(8, m) == (i >> sh) % (1usize << m)) by (bit_vector) requires i < 256, m >= 1, n == add(z, m), z <= 7, m <= 8, n <= 8, sh == sub(8, n);
                            assert(1usize << m == (if m == 1 { 2usize } else if m == 2 { 4 } else if m == 3 { 8 } else if m == 4 { 16 } else if m == 5 { 32 } else if m == 6 { 64 } else if m == 7 { 128 } else { 256 })) by (bit_vector) requires 1 <= m <= 8;
                            pow2i_is(m as int); pow2i_is(8 - n);
                            let ii = i as u16; let ss = sh as u16;
                            assert((i >> sh) as u16 == ii >> ss) by (bit_vector) requires i < 256, ii == i as u16, ss == sh as u16, sh < 8;
                            assert(i >> sh < 256) by (bit_vector) requires i < 256;
                            shr16(ii, ss);
                            assert((1usize << LUT_BITS) - 1 == 255) by (compute);
                            let rl = run_length; let w = add(size, magnitude_category);
                            assert(((rl << 4) | w) / 16 == rl && ((rl << 4) | w) % 16 == w) by (bit_vector) requires rl < 16, w <= 8;
                        } @*/
                        let unextended_ac_value = (((i << size) & ((1 << LUT_BITS) - 1)) >> (LUT_BITS - magnitude_category)) as u16;
                        let ac_value = extend(unextended_ac_value, magnitude_category);

                        table[i] = (ac_value, (run_length << 4) | (size + magnitude_category));
                    }
                }

                Some(table)
            },
        };

        Ok(HuffmanTable {
            /*@ lens: Ghost(lens), @*/ values: slice_to_vec(values),
            delta,
            maxcode,
            lut,
            ac_lut,
        })
    }
//@end
}
