use Marker::*;
impl Marker {
//@fn src/marker.rs Marker::has_length
//@sub `! matches ! ( $$e , $$p )` => `match $$e { $$p => false , _ => true }`
pub fn has_length(self) -> /*@ (r: @*/ bool /*@ ) ensures r == has_len(self) @*/ {
    use self::Marker::*;
    match self { RST(..) | SOI | EOI | TEM => false, _ => true }
}
//@end
}
/// markers that stand alone have no length (T.81 B.1.1.3)
pub open spec fn has_len(m: Marker) -> bool { !(m is RST || m == Marker::SOI || m == Marker::EOI || m == Marker::TEM) }
/// segment length without the length field itself
pub open spec fn seg_len(s: Seq<u8>) -> int { be16(s) - 2 }
//@fn src/parser.rs read_length
//@rw debug_assert errtext usize_from
fn read_length<R: Read>(reader: &mut R, marker: Marker) -> /*@ (r: @*/ Result<usize> /*@ )
    requires has_len(marker)
    ensures
        r matches Ok(l) ==> old(reader).rest().len() >= 2 && l == seg_len(old(reader).rest()) && final(reader).rest() == old(reader).rest().skip(2),
        old(reader).reliable() ==> final(reader).reliable() && (old(reader).rest().len() >= 2 && seg_len(old(reader).rest()) >= 0 ==> r is Ok) @*/ {
    assert_exec(marker.has_length());
    let length = ((read_u16_from_be(reader)?) as usize);
    if length < 2 {
        return Err(Error::Format(error_text()));
    }
    Ok(length - 2)
}
//@end
pub fn vec_contains(v: &Vec<usize>, x: &usize) -> (r: bool) ensures r == v@.contains(*x) {
    for i in 0..v.len() invariant forall|j: int| 0 <= j < i ==> v@[j] != *x {
        if v[i] == *x { return true; }
    }
    false
}
/// *v.iter().max().unwrap_or(&0)
pub open spec fn seqmax(v: Seq<usize>, n: int) -> int decreases n { if n <= 0 { 0 } else if v[n - 1] > seqmax(v, n - 1) { v[n - 1] as int } else { seqmax(v, n - 1) } }
pub fn max_or_zero(v: &Vec<usize>) -> (r: usize) ensures r == seqmax(v@, v@.len() as int) {
    let mut m = 0usize;
    for i in 0..v.len() invariant m == seqmax(v@, i as int) {
        if v[i] > m { m = v[i]; }
    }
    m
}
// ---- frame header (T.81 B.2.2) -------------------------------------------------------------------------------
/// s starts at the length field: L(2) P(1) Y(2) X(2) N(1) then C(1) H:V(1) Tq(1) per component
pub open spec fn sof_n(s: Seq<u8>) -> int { s[7] as int }
pub open spec fn sof_id(s: Seq<u8>, i: int) -> u8 { s[8 + 3 * i] }
pub open spec fn sof_h(s: Seq<u8>, i: int) -> int { s[9 + 3 * i] as int / 16 }
pub open spec fn sof_v(s: Seq<u8>, i: int) -> int { s[9 + 3 * i] as int % 16 }
pub open spec fn sof_tq(s: Seq<u8>, i: int) -> int { s[10 + 3 * i] as int }
pub open spec fn sof_kind(m: Marker) -> Option<(CodingProcess, bool, EntropyCoding)> {
    match m {
        Marker::SOF(n) => if n == 0 || n == 1 { Some((CodingProcess::DctSequential, false, EntropyCoding::Huffman)) } else if n == 2 { Some((CodingProcess::DctProgressive, false, EntropyCoding::Huffman)) }
            else if n == 3 { Some((CodingProcess::Lossless, false, EntropyCoding::Huffman)) } else if n == 5 { Some((CodingProcess::DctSequential, true, EntropyCoding::Huffman)) }
            else if n == 6 { Some((CodingProcess::DctProgressive, true, EntropyCoding::Huffman)) } else if n == 7 { Some((CodingProcess::Lossless, true, EntropyCoding::Huffman)) }
            else if n == 9 { Some((CodingProcess::DctSequential, false, EntropyCoding::Arithmetic)) } else if n == 10 { Some((CodingProcess::DctProgressive, false, EntropyCoding::Arithmetic)) }
            else if n == 11 { Some((CodingProcess::Lossless, false, EntropyCoding::Arithmetic)) } else if n == 13 { Some((CodingProcess::DctSequential, true, EntropyCoding::Arithmetic)) }
            else if n == 14 { Some((CodingProcess::DctProgressive, true, EntropyCoding::Arithmetic)) } else if n == 15 { Some((CodingProcess::Lossless, true, EntropyCoding::Arithmetic)) }
            else { None },
        _ => None,
    }
}
/// sample precision P allowed by the process (Table B.2)
pub open spec fn precision_ok(m: Marker, p: int) -> bool { p == 8 || p == 12 && m != Marker::SOF(0) || (sof_kind(m)->0).0 == CodingProcess::Lossless && p <= 16 }
pub open spec fn sof_comp_ok(m: Marker, s: Seq<u8>, i: int) -> bool {
    1 <= sof_h(s, i) <= 4 && 1 <= sof_v(s, i) <= 4 && sof_tq(s, i) <= 3 && ((sof_kind(m)->0).0 == CodingProcess::Lossless ==> sof_tq(s, i) == 0)
    && forall|j: int| 0 <= j < i ==> #[trigger] sof_id(s, j) != sof_id(s, i)
}
/// legal up to the height
pub open spec fn sof_head_ok(m: Marker, s: Seq<u8>) -> bool { s.len() >= 7 && seg_len(s) > 6 && precision_ok(m, s[2] as int) }
pub open spec fn sof_legal(m: Marker, s: Seq<u8>) -> bool {
    &&& sof_head_ok(m, s) && s.len() >= 8 && be16(s.skip(3)) != 0 && be16(s.skip(5)) != 0
    &&& sof_n(s) >= 1 && ((sof_kind(m)->0).0 == CodingProcess::DctProgressive ==> sof_n(s) <= 4)
    &&& be16(s) == 8 + 3 * sof_n(s) && s.len() >= be16(s)
    &&& forall|i: int| 0 <= i < sof_n(s) ==> #[trigger] sof_comp_ok(m, s, i)
}
pub open spec fn sof_comp(s: Seq<u8>, i: int, c: Component) -> bool {
    c.identifier == sof_id(s, i) && c.horizontal_sampling_factor == sof_h(s, i) && c.vertical_sampling_factor == sof_v(s, i) && c.quantization_table_index == sof_tq(s, i) && c.dct_scale == 8
}
pub open spec fn sof_frame(m: Marker, s: Seq<u8>, f: FrameInfo) -> bool {
    &&& f.is_baseline == (m == Marker::SOF(0)) && sof_kind(m) == Some((f.coding_process, f.is_differential, f.entropy_coding)) && f.precision == s[2]
    &&& f.image_size.height == be16(s.skip(3)) && f.image_size.width == be16(s.skip(5)) && f.output_size == f.image_size
    &&& f.components@.len() == sof_n(s) && forall|i: int| 0 <= i < sof_n(s) ==> sof_comp(s, i, #[trigger] f.components@[i])
    &&& geom(f.image_size, f.components@, f.mcu_size)
}
//@include frameok.inc.rs
pub proof fn nibbles(b: u8) ensures (b >> 4) as int == b as int / 16, (b & 0x0f) as int == b as int % 16
{ assert(b >> 4 == b / 16 && b & 0x0f == b % 16) by (bit_vector); }
//@fn src/parser.rs parse_sof
//@rw panic any errtext
pub fn parse_sof<R: Read>(reader: &mut R, marker: Marker) -> /*@ (r: @*/ Result<FrameInfo> /*@ )
    requires sof_kind(marker) is Some
    ensures
        r matches Ok(f) ==> sof_legal(marker, old(reader).rest()) && sof_frame(marker, old(reader).rest(), f) && frame_ok(f) && final(reader).rest() == old(reader).rest().skip(be16(old(reader).rest())),
        old(reader).reliable() ==> final(reader).reliable() && (sof_legal(marker, old(reader).rest()) ==> r is Ok)
            && (sof_head_ok(marker, old(reader).rest()) && be16(old(reader).rest().skip(3)) == 0 ==> r == Result::<FrameInfo>::Err(Error::Unsupported(UnsupportedFeature::DNL))) @*/ {
    /*@ broadcast use skip_skip; let ghost s = reader.rest(); @*/
    let length = read_length(reader, marker)?;
    if length <= 6 {
        return Err(Error::Format(error_text()));
    }
    let is_baseline = marker == SOF(0);
    let is_differential = match marker {
        SOF(0 ..= 3) | SOF(9 ..= 11) => false, SOF(5 ..= 7) | SOF(13 ..= 15) => true, _ => unreached(),
    };
    let coding_process = match marker {
        SOF(0) | SOF(1) | SOF(5) | SOF(9) | SOF(13) => CodingProcess::DctSequential, SOF(2) | SOF(6) | SOF(10) | SOF(14) => CodingProcess::DctProgressive, SOF(3) | SOF(7) | SOF(11) | SOF(15) => CodingProcess::Lossless, _ => unreached(),
    };
    let entropy_coding = match marker {
        SOF(0 ..= 3) | SOF(5 ..= 7) => EntropyCoding::Huffman, SOF(9 ..= 11) | SOF(13 ..= 15) => EntropyCoding::Arithmetic, _ => unreached(),
    };
    /*@ assert(sof_kind(marker) == Some((coding_process, is_differential, entropy_coding))); @*/
    let precision = read_u8(reader)?;
    match precision {
        8 => {
        },
        12 => {
            if is_baseline {
                return Err(Error::Format(error_text()));
            }
        },
        _ => {
            if coding_process != CodingProcess::Lossless || precision > 16 {
                return Err(Error::Format(error_text()))
            }
        },
    }
    /*@ assert(precision == s[2]); assert(precision_ok(marker, precision as int)); @*/
    let height = read_u16_from_be(reader)?;
    let width = read_u16_from_be(reader)?;
    if height == 0 {
        return Err(Error::Unsupported(UnsupportedFeature::DNL));
    }
    if width == 0 {
        return Err(Error::Format(error_text()));
    }
    let component_count = read_u8(reader)?;
    if component_count == 0 {
        return Err(Error::Format(error_text()));
    }
    if coding_process == CodingProcess::DctProgressive && component_count > 4 {
        return Err(Error::Format(error_text()));
    }
    if length != 6 + 3 * component_count as usize {
        return Err(Error::Format(error_text()));
    }
    let mut components: Vec<Component> = Vec::with_capacity(component_count as usize);
    for _ in /*@ it: @*/ 0..component_count /*@
        invariant components@.len() == it.index@, reader.rest() == s.skip(8 + 3 * it.index@), 8 + 3 * it.index@ <= s.len(), component_count == sof_n(s), length == 6 + 3 * component_count, length == seg_len(s), s.len() >= 8, be16(s.skip(3)) != 0, sof_kind(marker) is Some,
            coding_process == (sof_kind(marker)->0).0,
            forall|i: int| 0 <= i < it.index@ ==> sof_comp(s, i, #[trigger] components@[i]), forall|i: int| 0 <= i < it.index@ ==> #[trigger] sof_comp_ok(marker, s, i),
            old(reader).reliable() ==> reader.reliable(), s == old(reader).rest(), @*/ {
        /*@ broadcast use skip_skip; let ghost n = it.index@; @*/
        let identifier = read_u8(reader)?;
        if {
            let mut found = false;
            for ix in 0..components.len() /*@ invariant components@.len() == n, found == exists|i: int| 0 <= i < ix && #[trigger] components@[i].identifier == identifier @*/ {
                let c = &components[ix];
                if c.identifier == identifier {
                    found = true;
                }
            }
            found
        }
        {
            /*@ proof { let i = choose|i: int| 0 <= i < n && #[trigger] components@[i].identifier == identifier; assert(sof_comp(s, i, components@[i])); assert(sof_id(s, i) == sof_id(s, n as int)); assert(!sof_comp_ok(marker, s, n as int)); } @*/
            return Err(Error::Format(error_text()));
        }
        let byte = read_u8(reader)?;
        /*@ proof { nibbles(byte); assert(byte == s[9 + 3 * n]); } @*/
        let horizontal_sampling_factor = byte >> 4;
        let vertical_sampling_factor = byte & 0x0f;
        if horizontal_sampling_factor == 0 || horizontal_sampling_factor > 4 {
            /*@ assert(!sof_comp_ok(marker, s, n as int)); @*/
            return Err(Error::Format(error_text()));
        }
        if vertical_sampling_factor == 0 || vertical_sampling_factor > 4 {
            /*@ assert(!sof_comp_ok(marker, s, n as int)); @*/
            return Err(Error::Format(error_text()));
        }
        let quantization_table_index = read_u8(reader)?;
        if quantization_table_index > 3 || (coding_process == CodingProcess::Lossless && quantization_table_index != 0) {
            /*@ assert(!sof_comp_ok(marker, s, n as int)); @*/
            return Err(Error::Format(error_text()));
        }
        components.push(Component {
            identifier, horizontal_sampling_factor, vertical_sampling_factor, quantization_table_index: quantization_table_index as usize, dct_scale: 8, size: Dimensions {
                width: 0, height: 0
            }, block_size: Dimensions {
                width: 0, height: 0
            },
        });
        /*@ assert forall|j: int| 0 <= j < n implies #[trigger] sof_id(s, j) != sof_id(s, n as int) by { assert(sof_comp(s, j, components@[j])); }
        assert(sof_comp_ok(marker, s, n as int)); @*/
    }
    /*@ let ghost cs = components@; proof {
        assert forall|i: int| 0 <= i < cs.len() implies factors_ok(#[trigger] cs[i]) by { assert(sof_comp(s, i, cs[i])); assert(sof_comp_ok(marker, s, i)); }
    } @*/
    let mcu_size = update_component_sizes(Dimensions {
        width, height
    }, &mut components)?;
    /*@ proof {
        assert forall|i: int| 0 <= i < cs.len() implies sof_comp(s, i, #[trigger] components@[i]) && factors_ok(components@[i]) && components@[i].quantization_table_index <= 3 by { assert(same_coding(components@[i], cs[i])); assert(sof_comp(s, i, cs[i])); assert(sof_comp_ok(marker, s, i)); }
        assert forall|i: int, j: int| 0 <= i < j < cs.len() implies (#[trigger] components@[i]).identifier != (#[trigger] components@[j]).identifier by { assert(sof_comp(s, i, components@[i])); assert(sof_comp(s, j, components@[j])); assert(sof_comp_ok(marker, s, j)); assert(sof_id(s, i) != sof_id(s, j)); }
    } @*/
    Ok(FrameInfo {
        is_baseline, is_differential, coding_process, entropy_coding, precision, image_size: Dimensions {
            width, height
        }, output_size: Dimensions {
            width, height
        }, mcu_size, components,
    })
}
//@end
