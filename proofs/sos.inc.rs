
// ---- scan header (T.81 B.2.3) --------------------------------------------------------------------------------
/// s starts at the length field: L(2) Ns(1), then Cs(1) Td:Ta(1) per component, then Ss(1) Se(1) Ah:Al(1)
pub open spec fn sos_n(s: Seq<u8>) -> int { s[2] as int }
pub open spec fn sos_id(s: Seq<u8>, i: int) -> u8 { s[3 + 2 * i] }
pub open spec fn sos_td(s: Seq<u8>, i: int) -> int { s[4 + 2 * i] as int / 16 }
pub open spec fn sos_ta(s: Seq<u8>, i: int) -> int { s[4 + 2 * i] as int % 16 }
pub open spec fn sos_ss(s: Seq<u8>) -> int { s[3 + 2 * sos_n(s)] as int }
pub open spec fn sos_se(s: Seq<u8>) -> int { s[4 + 2 * sos_n(s)] as int }
pub open spec fn sos_ah(s: Seq<u8>) -> int { s[5 + 2 * sos_n(s)] as int / 16 }
pub open spec fn sos_al(s: Seq<u8>) -> int { s[5 + 2 * sos_n(s)] as int % 16 }
/// k is the index of the component with this identifier
pub open spec fn is_comp(cs: Seq<Component>, id: u8, k: int) -> bool { 0 <= k < cs.len() && cs[k].identifier == id }
pub open spec fn comp_ix(cs: Seq<Component>, id: u8) -> int { choose|k: int| is_comp(cs, id, k) }
pub open spec fn sos_ix(f: FrameInfo, s: Seq<u8>, i: int) -> int { comp_ix(f.components@, sos_id(s, i)) }
pub open spec fn sos_comp_ok(f: FrameInfo, s: Seq<u8>, i: int) -> bool {
    &&& exists|k: int| is_comp(f.components@, sos_id(s, i), k)
    &&& forall|j: int| 0 <= j < i ==> #[trigger] sos_ix(f, s, j) < sos_ix(f, s, i)
    &&& sos_td(s, i) <= 3 && sos_ta(s, i) <= 3 && (f.is_baseline ==> sos_td(s, i) <= 1 && sos_ta(s, i) <= 1)
}
/// data units of the first n components of the scan in one MCU
pub open spec fn mcu_units(f: FrameInfo, s: Seq<u8>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { mcu_units(f, s, n - 1) + f.components@[sos_ix(f, s, n - 1)].horizontal_sampling_factor * f.components@[sos_ix(f, s, n - 1)].vertical_sampling_factor }
}
pub open spec fn sos_params_ok(f: FrameInfo, n: int, ss: int, se: int, ah: int, al: int) -> bool {
    &&& al < f.precision
    &&& match f.coding_process {
        CodingProcess::DctProgressive => ss <= se <= 63 && (ss == 0 ==> se == 0) && (ss != 0 ==> n == 1) && ah <= 13 && al <= 13 && (ah != 0 ==> ah == al + 1),
        CodingProcess::Lossless => ss <= 7 && se == 0 && ah == 0,
        CodingProcess::DctSequential => ss == 0 && (se == 63 || se == 0) && ah == 0 && al == 0,
    }
}
pub open spec fn sos_legal(f: FrameInfo, s: Seq<u8>) -> bool {
    &&& s.len() >= 3 && 1 <= sos_n(s) <= 4 && be16(s) == 6 + 2 * sos_n(s) && s.len() >= be16(s)
    &&& forall|i: int| 0 <= i < sos_n(s) ==> #[trigger] sos_comp_ok(f, s, i)
    &&& sos_n(s) > 1 ==> mcu_units(f, s, sos_n(s)) <= 10
    &&& sos_params_ok(f, sos_n(s), sos_ss(s), sos_se(s), sos_ah(s), sos_al(s))
}
pub open spec fn predictor(ss: int) -> Predictor {
    if ss == 1 { Predictor::Ra } else if ss == 2 { Predictor::Rb } else if ss == 3 { Predictor::Rc } else if ss == 4 { Predictor::RaRbRc1 }
    else if ss == 5 { Predictor::RaRbRc2 } else if ss == 6 { Predictor::RaRbRc3 } else if ss == 7 { Predictor::RaRb } else { Predictor::NoPrediction }
}
pub open spec fn sos_scan(f: FrameInfo, s: Seq<u8>, c: ScanInfo) -> bool {
    &&& c.component_indices@.len() == sos_n(s) && c.dc_table_indices@.len() == sos_n(s) && c.ac_table_indices@.len() == sos_n(s)
    &&& forall|i: int| 0 <= i < sos_n(s) ==> #[trigger] c.component_indices@[i] == sos_ix(f, s, i)
    &&& forall|i: int| 0 <= i < sos_n(s) ==> #[trigger] c.dc_table_indices@[i] == sos_td(s, i)
    &&& forall|i: int| 0 <= i < sos_n(s) ==> #[trigger] c.ac_table_indices@[i] == sos_ta(s, i)
    &&& c.spectral_selection.start == sos_ss(s)
    &&& c.spectral_selection.end == 1 + if f.coding_process == CodingProcess::DctSequential { 63 } else { sos_se(s) }
    &&& c.predictor_selection == if f.coding_process == CodingProcess::Lossless { predictor(sos_ss(s)) } else { Predictor::NoPrediction }
    &&& c.successive_approximation_high == sos_ah(s) && c.successive_approximation_low == sos_al(s) && c.point_transform == sos_al(s)
}
//@include scanok.inc.rs
pub open spec fn ids_unique(cs: Seq<Component>) -> bool { forall|i: int, j: int| 0 <= i < j < cs.len() ==> (#[trigger] cs[i]).identifier != (#[trigger] cs[j]).identifier }
pub proof fn comp_ix_is(cs: Seq<Component>, id: u8, k: int) requires ids_unique(cs), is_comp(cs, id, k) ensures comp_ix(cs, id) == k
{ let m = comp_ix(cs, id); assert(is_comp(cs, id, m)); if m < k { assert(cs[m].identifier != cs[k].identifier); } if k < m { assert(cs[k].identifier != cs[m].identifier); } }
pub proof fn seqmax_is(v: Seq<usize>, n: int) requires 0 <= n <= v.len()
    ensures forall|i: int| 0 <= i < n ==> #[trigger] v[i] <= seqmax(v, n), n > 0 ==> exists|i: int| 0 <= i < n && #[trigger] v[i] == seqmax(v, n), n == 0 ==> seqmax(v, n) == 0
    decreases n
{ if n > 0 { seqmax_is(v, n - 1); if v[n - 1] > seqmax(v, n - 1) { assert(v[n - 1] == seqmax(v, n)); } else if n == 1 { assert(v[0] == 0); assert(v[0] == seqmax(v, 1)); } else { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] v[i] == seqmax(v, n - 1); assert(v[i] == seqmax(v, n)); } } }
//@fn src/parser.rs parse_sos
//@rw position errtext usize_from sum
//@sub `component_indices . contains ( & component_index )` => `vec_contains ( & component_indices , & component_index )`
//@sub `* component_indices . iter ( ) . max ( ) . unwrap_or ( & 0 )` => `max_or_zero ( & component_indices )`
pub fn parse_sos < R: Read > (reader: &mut R, frame: &FrameInfo) -> /*@ (r: @*/ Result<ScanInfo> /*@ )
    requires frame_ok(*frame)
    ensures
        r matches Ok(c) ==> sos_legal(*frame, old(reader).rest()) && sos_scan(*frame, old(reader).rest(), c) && scan_ok(*frame, c) && final(reader).rest() == old(reader).rest().skip(be16(old(reader).rest())),
        old(reader).reliable() ==> final(reader).reliable() && (sos_legal(*frame, old(reader).rest()) ==> r is Ok) @*/ {
    /*@ broadcast use skip_skip; let ghost s = reader.rest(); let ghost cs = frame.components@; @*/
    let length = read_length(reader, SOS)?;
    if 0 == length {
        return Err(Error::Format(error_text()));
    }
    let component_count = read_u8(reader)?;
    if component_count == 0 || component_count > 4 {
        return Err(Error::Format(error_text()));
    }
    if length != 4 + 2 * component_count as usize {
        return Err(Error::Format(error_text()));
    }
    let mut component_indices /*@ : Vec<usize> @*/ = Vec::with_capacity(component_count as usize);
    let mut dc_table_indices /*@ : Vec<usize> @*/ = Vec::with_capacity(component_count as usize);
    let mut ac_table_indices /*@ : Vec<usize> @*/ = Vec::with_capacity(component_count as usize);
    for _ in /*@ it: @*/ 0..component_count /*@
        invariant s == old(reader).rest(), cs == frame.components@, frame_ok(*frame), ids_unique(cs), s.len() >= 3, component_count == sos_n(s), 1 <= component_count <= 4, length == seg_len(s), length == 4 + 2 * component_count,
            reader.rest() == s.skip(3 + 2 * it.index@), 3 + 2 * it.index@ <= s.len(),
            component_indices@.len() == it.index@, dc_table_indices@.len() == it.index@, ac_table_indices@.len() == it.index@,
            forall|i: int| 0 <= i < it.index@ ==> #[trigger] sos_comp_ok(*frame, s, i),
            forall|i: int| 0 <= i < it.index@ ==> #[trigger] component_indices@[i] == sos_ix(*frame, s, i),
            forall|i: int| 0 <= i < it.index@ ==> #[trigger] component_indices@[i] < cs.len(),
            forall|i: int| 0 <= i < it.index@ ==> #[trigger] dc_table_indices@[i] == sos_td(s, i) && dc_table_indices@[i] <= 3,
            forall|i: int| 0 <= i < it.index@ ==> #[trigger] ac_table_indices@[i] == sos_ta(s, i) && ac_table_indices@[i] <= 3,
            forall|i: int, j: int| 0 <= i < j < it.index@ ==> #[trigger] component_indices@[i] < #[trigger] component_indices@[j],
            old(reader).reliable() ==> reader.reliable(), @*/ {
        /*@ broadcast use skip_skip; let ghost n = it.index@; @*/
        let identifier = read_u8(reader)?;
        let component_index = match {
            let mut at = None;
            for ix in 0..frame.components.len() /*@ invariant cs == frame.components@, at matches Some(k) ==> is_comp(cs, identifier, k as int), at is None ==> forall|k: int| 0 <= k < ix ==> (#[trigger] cs[k]).identifier != identifier @*/ {
                let c = &frame.components[ix];
                if at.is_none() && c.identifier == identifier {
                    at = Some(ix);
                }
            }
            /*@ proof { if at is None { assert(sos_id(s, n) == identifier); assert forall|k: int| !is_comp(cs, identifier, k) by {} assert(!sos_comp_ok(*frame, s, n)); } } @*/
            at
        }
        {
            Some(value) => value, None => return Err(Error::Format(error_text())),
        };
        /*@ proof { comp_ix_is(cs, identifier, component_index as int); assert(sos_id(s, n) == identifier); assert(component_index == sos_ix(*frame, s, n)); seqmax_is(component_indices@, n); } @*/
        if vec_contains(&component_indices, &component_index) {
            /*@ proof { let j = component_indices@.index_of(component_index); assert(component_indices@[j] == component_index); assert(sos_ix(*frame, s, j) == sos_ix(*frame, s, n)); assert(!sos_comp_ok(*frame, s, n)); } @*/
            return Err(Error::Format(error_text()));
        }
        if component_index < max_or_zero(&component_indices) {
            /*@ proof { let j = choose|i: int| 0 <= i < n && #[trigger] component_indices@[i] == seqmax(component_indices@, n); assert(component_indices@[j] > component_index); assert(sos_ix(*frame, s, j) > sos_ix(*frame, s, n)); assert(!sos_comp_ok(*frame, s, n)); } @*/
            return Err(Error::Format(error_text()));
        }
        let byte = read_u8(reader)?;
        /*@ proof { nibbles(byte); assert(byte == s[4 + 2 * n]); } @*/
        let dc_table_index = byte >> 4;
        let ac_table_index = byte &0x0f;
        if dc_table_index > 3 || (frame.is_baseline && dc_table_index > 1) {
            /*@ assert(!sos_comp_ok(*frame, s, n)); @*/
            return Err(Error::Format(error_text()));
        }
        if ac_table_index > 3 || (frame.is_baseline && ac_table_index > 1) {
            /*@ assert(!sos_comp_ok(*frame, s, n)); @*/
            return Err(Error::Format(error_text()));
        }
        /*@ proof {
            assert forall|j: int| 0 <= j < n implies #[trigger] sos_ix(*frame, s, j) < sos_ix(*frame, s, n) by { assert(component_indices@[j] == sos_ix(*frame, s, j)); assert(component_indices@[j] != component_index) by { if component_indices@[j] == component_index { assert(component_indices@.contains(component_index)); } } }
            assert(is_comp(cs, sos_id(s, n), component_index as int)); assert(sos_comp_ok(*frame, s, n));
            assert forall|j: int| 0 <= j < n implies #[trigger] component_indices@[j] < component_index by { assert(component_indices@[j] == sos_ix(*frame, s, j)); }
        } @*/
        component_indices.push(component_index);
        dc_table_indices.push(dc_table_index as usize);
        ac_table_indices.push(ac_table_index as usize);
    }
    let blocks_per_mcu = {
        let mut acc /*@ : u32 @*/ = 0;
        for ix in 0..component_indices.len() /*@
            invariant cs == frame.components@, frame_ok(*frame), component_indices@.len() == sos_n(s), sos_n(s) <= 4, acc == mcu_units(*frame, s, ix as int), 0 <= acc <= 16 * ix,
                forall|i: int| 0 <= i < sos_n(s) ==> #[trigger] component_indices@[i] == sos_ix(*frame, s, i) && component_indices@[i] < cs.len(), @*/ {
            let i = component_indices[ix];
            /*@ proof { assert(component_indices@[ix as int] == sos_ix(*frame, s, ix as int)); let c = cs[i as int]; assert(factors_ok(c)); assert(1 <= c.horizontal_sampling_factor * c.vertical_sampling_factor <= 16) by (nonlinear_arith) requires 1 <= c.horizontal_sampling_factor <= 4, 1 <= c.vertical_sampling_factor <= 4; } @*/
            acc = acc + ({
                frame.components[i].horizontal_sampling_factor as u32 * frame.components[i].vertical_sampling_factor as u32
            });
        }
        acc
    };
    if component_count > 1 && blocks_per_mcu > 10 {
        return Err(Error::Format(error_text()));
    }
    let spectral_selection_start = read_u8(reader)?;
    let mut spectral_selection_end = read_u8(reader)?;
    let byte = read_u8(reader)?;
    /*@ proof { nibbles(byte); assert(spectral_selection_start == sos_ss(s) && spectral_selection_end == sos_se(s) && byte == s[5 + 2 * sos_n(s)]); } @*/
    let successive_approximation_high = byte >> 4;
    let successive_approximation_low = byte &0x0f;
    let predictor_selection;
    let point_transform = successive_approximation_low;
    if point_transform >= frame.precision {
        return Err(Error::Format(error_text()));
    }
    if frame.coding_process == CodingProcess::DctProgressive {
        predictor_selection = Predictor::NoPrediction;
        if spectral_selection_end > 63 || spectral_selection_start > spectral_selection_end || (spectral_selection_start == 0 && spectral_selection_end != 0) {
            return Err(Error::Format(error_text()));
        }
        if spectral_selection_start != 0 && component_count != 1 {
            return Err(Error::Format(error_text()));
        }
        if successive_approximation_high > 13 || successive_approximation_low > 13 {
            return Err(Error::Format(error_text()));
        }
        if successive_approximation_high != 0 && successive_approximation_high != successive_approximation_low + 1 {
            return Err(Error::Format(error_text()));
        }
    } else if frame.coding_process == CodingProcess::Lossless {
        if spectral_selection_end != 0 {
            return Err(Error::Format(error_text()));
        }
        if successive_approximation_high != 0 {
            return Err(Error::Format(error_text()));
        }
        predictor_selection = match spectral_selection_start {
            0 => Predictor::NoPrediction, 1 => Predictor::Ra, 2 => Predictor::Rb, 3 => Predictor::Rc, 4 => Predictor::RaRbRc1, 5 => Predictor::RaRbRc2, 6 => Predictor::RaRbRc3, 7 => Predictor::RaRb, _ => {
                return Err(Error::Format(error_text()));
            },
        };
    } else {
        predictor_selection = Predictor::NoPrediction;
        if spectral_selection_end == 0 {
            spectral_selection_end = 63;
        }
        if spectral_selection_start != 0 || spectral_selection_end != 63 {
            return Err(Error::Format(error_text()));
        }
        if successive_approximation_high != 0 || successive_approximation_low != 0 {
            return Err(Error::Format(error_text()));
        }
    }
    Ok(ScanInfo {
        component_indices, dc_table_indices, ac_table_indices, spectral_selection: Range {
            start: spectral_selection_start, end: spectral_selection_end + 1,
        }, predictor_selection, successive_approximation_high, successive_approximation_low, point_transform,
    })
}
//@end
