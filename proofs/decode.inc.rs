// ---- the decoder as a whole: markers, segments, scans, image --------------------------------------------------------
/// the inverse of the zig-zag order
pub open spec fn unz(v: int) -> int { seq![0int, 1int, 5int, 6int, 14int, 15int, 27int, 28int, 2int, 4int, 7int, 13int, 16int, 26int, 29int, 42int, 3int, 8int, 12int, 17int, 25int, 30int, 41int, 43int, 9int, 11int, 18int, 24int, 31int, 40int, 44int, 53int, 10int, 19int, 23int, 32int, 39int, 45int, 52int, 54int, 20int, 22int, 33int, 38int, 46int, 51int, 55int, 60int, 21int, 34int, 37int, 47int, 50int, 56int, 59int, 61int, 35int, 36int, 48int, 49int, 57int, 58int, 62int, 63int][v] }
pub open spec fn unz_chk(n: int) -> bool decreases n { n <= 0 || (unz(UNZIGZAG@[n - 1] as int) == n - 1 && unz_chk(n - 1)) }
pub proof fn unz_chk_at(n: int, k: int) requires unz_chk(n), 0 <= k < n ensures unz(UNZIGZAG@[k] as int) == k decreases n { if k < n - 1 { unz_chk_at(n - 1, k); } }
pub proof fn zz_inj() ensures forall|a: int, b: int| 0 <= a < 64 && 0 <= b < 64 && a != b ==> #[trigger] zz(a) != #[trigger] zz(b), forall|k: int| 0 <= k < 64 ==> 0 <= #[trigger] zz(k) < 64
{
    assert(unz_chk(64)) by (compute); unzigzag_table();
    assert forall|a: int, b: int| 0 <= a < 64 && 0 <= b < 64 && a != b implies #[trigger] zz(a) != #[trigger] zz(b) by { unz_chk_at(64, a); unz_chk_at(64, b); assert(UNZIGZAG@[a] == zz(a) && UNZIGZAG@[b] == zz(b)); }
    assert forall|k: int| 0 <= k < 64 implies 0 <= #[trigger] zz(k) < 64 by { assert(UNZIGZAG@[k] == zz(k)); }
}
// ---- frames the decoder accepts ----
pub open spec fn one_scale(f: FrameInfo) -> bool {
    let s = f.components@[0].dct_scale as int;
    (forall|i: int| 0 <= i < f.components@.len() ==> (#[trigger] f.components@[i]).dct_scale == s) && f.output_size.width == cdiv(f.image_size.width * s, 8) && f.output_size.height == cdiv(f.image_size.height * s, 8) && (f.coding_process == CodingProcess::Lossless ==> s == 8)
}
pub open spec fn count_ok(n: int) -> bool { n == 1 || n == 3 || n == 4 }
pub open spec fn precision_supported(f: FrameInfo) -> bool { (f.coding_process != CodingProcess::Lossless ==> f.precision == 8) && 2 <= f.precision <= 16 }
pub open spec fn supported(f: FrameInfo) -> bool {
    count_ok(f.components@.len() as int) && !f.is_differential && f.entropy_coding == EntropyCoding::Huffman && precision_supported(f) && ratios_supported(f.components@, f.image_size.width as int, f.image_size.height as int)
}
/// the frame is well-formed but not supported, for this reason
pub open spec fn refuses(f: FrameInfo, e: Error) -> bool {
    f.is_differential && e == Error::Unsupported(UnsupportedFeature::Hierarchical) || f.entropy_coding == EntropyCoding::Arithmetic && e == Error::Unsupported(UnsupportedFeature::ArithmeticEntropyCoding)
    || !precision_supported(f) && e == Error::Unsupported(UnsupportedFeature::SamplePrecision(f.precision)) || !count_ok(f.components@.len() as int) && e == Error::Unsupported(UnsupportedFeature::ComponentCount(f.components@.len() as u8))
    || !ratios_supported(f.components@, f.image_size.width as int, f.image_size.height as int) && e == Error::Unsupported(UnsupportedFeature::NonIntegerSubsamplingRatio)
}
pub open spec fn frame_inv(f: FrameInfo) -> bool { frame_full(f) && supported(f) && one_scale(f) }
impl<R: Read> Decoder<R> {
/// what holds between calls
pub open spec fn inv(&self) -> bool {
    self.tables_ok() && match self.frame { None => self.coefficients@.len() == 0, Some(f) => frame_inv(f) && (f.coding_process == CodingProcess::DctProgressive ==> self.coefficients@.len() == 0 || co_ok(f, self.coefficients@)) }
}
pub open spec fn base(&self) -> Option<bool> { match self.frame { None => None, Some(f) => Some(f.is_baseline) } }
}
pub open spec fn is_format(e: Error) -> bool { e is Format }
// ---- one marker segment after the other ----
/// between two segments: the decoder, the marker before, a marker already read, the number of scans, the planes so far
pub ghost struct Hs<R: Read> { pub d: Decoder<R>, pub prev: Marker, pub pend: Option<Marker>, pub scans: int, pub planes: Seq<Vec<u8>>, pub wide: Seq<Vec<u16>> }
/// the next marker and what follows it
pub open spec fn next_of<R: Read>(a: Hs<R>) -> Option<(Marker, Seq<u8>)> {
    match a.pend { Some(m) => Some((m, a.d.reader.rest())), None => match next_marker(a.d.reader.rest()) { None => None, Some((b, t)) => Some((marker_of(b)->0, t)) } }
}
pub open spec fn behind_seg(t: Seq<u8>) -> Seq<u8> { t.skip(be16(t)) }
/// SOF
pub open spec fn frame_taken<R: Read>(a: Decoder<R>, m: Marker, t: Seq<u8>, b: Decoder<R>) -> bool {
    a.frame is None && sof_legal(m, t) && (b.frame matches Some(f) && sof_frame(m, t, f) && frame_inv(f)) && b == (Decoder { reader: b.reader, frame: b.frame, ..a }) && b.reader.rest() == behind_seg(t)
}
pub open spec fn blank_planes<T>(p: Seq<Vec<T>>, n: int) -> bool { p.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] p[k]).len() == 0 }
/// DQT: the elements come in zig-zag order
pub open spec fn installed(z: Option<Seq<u16>>, q0: Option<Arc<[u16; 64]>>, q1: Option<Arc<[u16; 64]>>) -> bool {
    match z { None => q1 == q0, Some(s) => q1 matches Some(q) && forall|k: int| 0 <= k < 64 ==> q@[#[trigger] zz(k)] == s[k] }
}
pub open spec fn dqt_taken<R: Read>(a: Decoder<R>, t: Seq<u8>, b: Decoder<R>) -> bool {
    b == (Decoder { reader: b.reader, quantization_tables: b.quantization_tables, ..a }) && b.reader.rest() == behind_seg(t) && seg_whole(t)
    && (dqt_of(t) matches Some(v) && forall|i: int| 0 <= i < 4 ==> installed(v[i], a.quantization_tables@[i], #[trigger] b.quantization_tables@[i]))
}
/// DHT
pub open spec fn merged(v: Seq<Option<TabView>>, t0: Seq<Option<HuffmanTable>>, t1: Seq<Option<HuffmanTable>>) -> bool {
    t1.len() == 4 && forall|i: int| 0 <= i < 4 ==> match v[i] { None => #[trigger] t1[i] == t0[i], Some(x) => hview(t1[i]) == Some(x) }
}
pub open spec fn dht_taken<R: Read>(a: Decoder<R>, t: Seq<u8>, b: Decoder<R>) -> bool {
    b == (Decoder { reader: b.reader, dc_huffman_tables: b.dc_huffman_tables, ac_huffman_tables: b.ac_huffman_tables, ..a }) && b.reader.rest() == behind_seg(t) && seg_whole(t)
    && (dht_of(t, a.base()) matches Some((dc, ac)) && merged(dc, a.dc_huffman_tables@, b.dc_huffman_tables@) && merged(ac, a.ac_huffman_tables@, b.ac_huffman_tables@))
}
/// DRI
pub open spec fn dri_ok(t: Seq<u8>) -> bool { t.len() >= 4 && be16(t) == 4 }
pub open spec fn dri_taken<R: Read>(a: Decoder<R>, t: Seq<u8>, b: Decoder<R>) -> bool { dri_ok(t) && b == (Decoder { reader: b.reader, restart_interval: be16(t.skip(2)) as u16, ..a }) && b.reader.rest() == t.skip(4) }
/// APPn: what was recognised is kept
pub open spec fn kept<R: Read>(a: Decoder<R>, x: Option<AppData>, b: Decoder<R>) -> bool {
    match x {
        None => b == (Decoder { reader: b.reader, ..a }),
        Some(AppData::Adobe(c)) => b == (Decoder { reader: b.reader, adobe_color_transform: Some(c), ..a }),
        Some(AppData::Jfif) => b == (Decoder { reader: b.reader, is_jfif: true, ..a }),
        Some(AppData::Avi1) => b == (Decoder { reader: b.reader, is_mjpeg: true, ..a }),
        Some(AppData::Icc(c)) => b == (Decoder { reader: b.reader, icc_markers: b.icc_markers, ..a }) && b.icc_markers@ == a.icc_markers@.push(c),
        Some(AppData::Exif(v)) => b == (Decoder { reader: b.reader, exif_data: Some(v), ..a }),
        Some(AppData::Xmp(v)) => b == (Decoder { reader: b.reader, xmp_data: Some(v), ..a }),
        Some(AppData::Psir(v)) => b == (Decoder { reader: b.reader, psir_data: Some(v), ..a }),
    }
}
pub open spec fn app_ok(m: Marker, t: Seq<u8>) -> bool { seg_whole(t) && (is_adobe(m, payload(t)) ==> payload(t)[11] <= 2) }
pub open spec fn app_taken<R: Read>(a: Decoder<R>, m: Marker, t: Seq<u8>, b: Decoder<R>) -> bool {
    seg_whole(t) && b.reader.rest() == behind_seg(t) && exists|x: Option<AppData>| app_data(m, payload(t), x) && #[trigger] kept(a, x, b)
}
// ---- scans ----
pub open spec fn bit(x: u64, j: int) -> bool { 0 <= j < 64 && (x >> (j as u64)) & 1 == 1 }
pub open spec fn bits_set(a: u64, b: u64, s: int, e: int) -> bool { forall|j: int| 0 <= j < 64 ==> #[trigger] bit(b, j) == (bit(a, j) || s <= j < e) }
/// the coefficients that are complete after the scan
pub open spec fn finished_after(c: ScanInfo, x0: Seq<u64>, x1: Seq<u64>) -> bool {
    if c.successive_approximation_low != 0 { x1 == x0 } else {
        x1.len() == x0.len() && (forall|i: int| 0 <= i < c.component_indices@.len() ==> bits_set(x0[#[trigger] c.component_indices@[i] as int], x1[c.component_indices@[i] as int], c.spectral_selection.start as int, c.spectral_selection.end as int))
        && forall|k: int| 0 <= k < x0.len() && (forall|i: int| 0 <= i < c.component_indices@.len() ==> #[trigger] c.component_indices@[i] != k) ==> #[trigger] x1[k] == x0[k]
    }
}
/// the components of the scan that it completes
pub open spec fn now_done(c: ScanInfo, x0: Seq<u64>, x1: Seq<u64>) -> Seq<bool> {
    Seq::new(4, |i: int| i < c.component_indices@.len() && c.successive_approximation_low == 0 && x0[c.component_indices@[i] as int] != !0u64 && x1[c.component_indices@[i] as int] == !0u64)
}
/// the coefficients a progressive frame starts with
pub open spec fn first_co(f: FrameInfo, co: Seq<Vec<i16>>, c0: Seq<Vec<i16>>) -> bool {
    if f.coding_process == CodingProcess::DctProgressive && co.len() == 0 { c0.len() == f.components@.len() && forall|k: int| 0 <= k < c0.len() ==> (#[trigger] c0[k])@ == zeros(f.components@[k].block_size.width * f.components@[k].block_size.height * 64) } else { c0 == co }
}
pub open spec fn but_dct<R: Read>(a: Decoder<R>, b: Decoder<R>) -> bool {
    b == (Decoder { reader: b.reader, coefficients: b.coefficients, coefficients_finished: b.coefficients_finished, dc_huffman_tables: b.dc_huffman_tables, ac_huffman_tables: b.ac_huffman_tables, ..a })
}
pub open spec fn plane_after(data: Option<Vec<Vec<u8>>>, k: int, done: bool, p0: Vec<u8>, p1: Vec<u8>) -> bool { p1 == if done && data is Some && data->0@[k].len() > 0 { data->0@[k] } else { p0 } }
pub open spec fn dct_planes<R: Read>(a: Hs<R>, f: FrameInfo, t: Seq<u8>, c: ScanInfo, b: Hs<R>, data: Option<Vec<Vec<u8>>>, sure: bool, c0: Seq<Vec<i16>>) -> bool {
    let p = b.d.plan(f, c, now_done(c, a.d.coefficients_finished@, b.d.coefficients_finished@));
    &&& (a.d.reader.reliable() ==> sure) && but_dct(a.d, b.d) && b.wide == a.wide && first_co(f, a.d.coefficients@, c0) && finished_after(c, a.d.coefficients_finished@, b.d.coefficients_finished@) && b.d.tables_after(&a.d, c) && b.d.ready(f, c)
    &&& dct_scan(p, t, sure, b.pend, b.d.reader.rest(), c0, b.d.coefficients@, a.d.quantization_tables@, f.components@.len() as int, data)
    &&& b.planes.len() == a.planes.len() && forall|k: int| 0 <= k < a.planes.len() ==> plane_after(data, k, b.d.coefficients_finished@[k] == !0u64, a.planes[k], #[trigger] b.planes[k])
}
pub open spec fn lossless_planes<R: Read>(a: Hs<R>, f: FrameInfo, t: Seq<u8>, c: ScanInfo, b: Hs<R>, o: Seq<Vec<u16>>, sure: bool) -> bool {
    &&& (a.d.reader.reliable() ==> sure) && b.d == (Decoder { reader: b.d.reader, ..a.d }) && b.planes == a.planes && tables_set(a.d.dc_huffman_tables@, c.dc_table_indices@)
    &&& scan_done(f, c, tables_of(a.d.dc_huffman_tables@, c.dc_table_indices@), a.d.restart_interval as int, begin(t), o, sure, b.pend, b.d.reader.rest())
    &&& o.len() == c.component_indices@.len() && b.wide.len() == a.wide.len() && (forall|i: int| 0 <= i < o.len() ==> b.wide[#[trigger] c.component_indices@[i] as int] == o[i])
    &&& forall|k: int| 0 <= k < a.wide.len() && (forall|i: int| 0 <= i < c.component_indices@.len() ==> #[trigger] c.component_indices@[i] != k) ==> #[trigger] b.wide[k] == a.wide[k]
}
pub open spec fn lossless_some<R: Read>(a: Hs<R>, f: FrameInfo, t: Seq<u8>, c: ScanInfo, b: Hs<R>) -> bool { exists|o: Seq<Vec<u16>>, sure: bool| #[trigger] lossless_planes(a, f, t, c, b, o, sure) }
pub open spec fn dct_some<R: Read>(a: Hs<R>, f: FrameInfo, t: Seq<u8>, c: ScanInfo, b: Hs<R>) -> bool { exists|data: Option<Vec<Vec<u8>>>, sure: bool, c0: Seq<Vec<i16>>| #[trigger] dct_planes(a, f, t, c, b, data, sure, c0) }
pub open spec fn scan_with<R: Read>(a: Hs<R>, f: FrameInfo, t: Seq<u8>, c: ScanInfo, b: Hs<R>) -> bool {
    sos_scan(f, t, c) && scan_ok(f, c) && if f.coding_process == CodingProcess::Lossless { lossless_some(a, f, behind_seg(t), c, b) } else { dct_some(a, f, behind_seg(t), c, b) }
}
/// SOS and the scan
pub open spec fn scan_taken<R: Read>(a: Hs<R>, t: Seq<u8>, b: Hs<R>) -> bool { a.d.frame matches Some(f) && sos_legal(f, t) && exists|c: ScanInfo| #[trigger] scan_with(a, f, t, c, b) }
pub open spec fn dct_fails<R: Read>(a: Hs<R>, f: FrameInfo, t: Seq<u8>, c: ScanInfo, d: Decoder<R>, c0: Seq<Vec<i16>>) -> bool {
    let p = d.plan(f, c, now_done(c, a.d.coefficients_finished@, d.coefficients_finished@));
    but_dct(a.d, d) && first_co(f, a.d.coefficients@, c0) && finished_after(c, a.d.coefficients_finished@, d.coefficients_finished@) && (!d.ready(f, c) || d.tables_after(&a.d, c) && scan_stuck(p, start_of(p, t, c0)))
}
pub open spec fn lossless_fails<R: Read>(a: Hs<R>, f: FrameInfo, t: Seq<u8>, c: ScanInfo) -> bool {
    !tables_set(a.d.dc_huffman_tables@, c.dc_table_indices@) || diffs_stuck(tables_of(a.d.dc_huffman_tables@, c.dc_table_indices@), a.d.restart_interval as int, begin(t), f.image_size.height * f.image_size.width)
}
pub open spec fn dct_breaks<R: Read>(a: Hs<R>, f: FrameInfo, t: Seq<u8>, c: ScanInfo) -> bool { exists|d: Decoder<R>, c0: Seq<Vec<i16>>| #[trigger] dct_fails(a, f, t, c, d, c0) }
pub open spec fn scan_breaks<R: Read>(a: Hs<R>, f: FrameInfo, t: Seq<u8>, c: ScanInfo) -> bool {
    sos_scan(f, t, c) && scan_ok(f, c) && if f.coding_process == CodingProcess::Lossless { lossless_fails(a, f, behind_seg(t), c) } else { dct_breaks(a, f, behind_seg(t), c) }
}
/// the scan header is malformed or the scan cannot be decoded
pub open spec fn scan_refused<R: Read>(a: Hs<R>, t: Seq<u8>) -> bool { a.d.frame matches Some(f) && (!sos_legal(f, t) || exists|c: ScanInfo| #[trigger] scan_breaks(a, f, t, c)) }
// ---- the sequence of segments (T.81 B.2) ----
pub open spec fn untouched<R: Read>(a: Hs<R>, b: Hs<R>) -> bool { b.pend is None && b.scans == a.scans && b.planes == a.planes && b.wide == a.wide }
/// the segment of marker m, t being what follows the marker
pub open spec fn step<R: Read>(a: Hs<R>, m: Marker, t: Seq<u8>, b: Hs<R>) -> bool {
    match m {
        Marker::SOF(_) => frame_taken(a.d, m, t, b.d) && b.pend is None && b.scans == a.scans && blank_planes(b.planes, b.d.frame->0.components@.len() as int) && blank_planes(b.wide, b.d.frame->0.components@.len() as int),
        Marker::SOS => scan_taken(a, t, b) && b.scans == a.scans + 1,
        Marker::DQT => dqt_taken(a.d, t, b.d) && untouched(a, b),
        Marker::DHT => dht_taken(a.d, t, b.d) && untouched(a, b),
        Marker::DRI => dri_taken(a.d, t, b.d) && untouched(a, b),
        Marker::COM => seg_whole(t) && b.d == (Decoder { reader: b.d.reader, ..a.d }) && b.d.reader.rest() == behind_seg(t) && untouched(a, b),
        Marker::APP(_) => app_taken(a.d, m, t, b.d) && untouched(a, b),
        Marker::RST(_) => a.prev == Marker::SOS && b.d == (Decoder { reader: b.d.reader, ..a.d }) && b.d.reader.rest() == t && untouched(a, b),
        _ => false,
    }
}
/// a frame header that is not accepted
pub open spec fn frame_refused(a: Option<FrameInfo>, m: Marker, t: Seq<u8>, e: Error) -> bool {
    if a is Some { e == Error::Unsupported(UnsupportedFeature::Hierarchical) }
    else if sof_legal(m, t) { exists|f: FrameInfo| sof_frame(m, t, f) && #[trigger] refuses(f, e) } else { sof_head_ok(m, t) && be16(t.skip(3)) == 0 ==> e == Error::Unsupported(UnsupportedFeature::DNL) }
}
/// decoding stops at marker m with this error
pub open spec fn refused<R: Read>(a: Hs<R>, m: Marker, t: Seq<u8>, e: Error) -> bool {
    match m {
        Marker::SOF(_) => frame_refused(a.d.frame, m, t, e),
        Marker::SOS => if a.d.frame is None { is_format(e) } else { scan_refused(a, t) },
        Marker::DQT => dqt_of(t) is None,
        Marker::DHT => dht_of(t, a.d.base()) is None,
        Marker::DAC => e == Error::Unsupported(UnsupportedFeature::ArithmeticEntropyCoding),
        Marker::DRI => !dri_ok(t),
        Marker::COM => !seg_whole(t),
        Marker::APP(_) => !app_ok(m, t),
        Marker::RST(_) => a.prev != Marker::SOS && is_format(e),
        Marker::DNL => if a.prev == Marker::SOS && a.scans == 1 { e == Error::Unsupported(UnsupportedFeature::DNL) } else { is_format(e) },
        Marker::DHP | Marker::EXP => e == Error::Unsupported(UnsupportedFeature::Hierarchical),
        Marker::EOI => a.d.frame is None && is_format(e),
        Marker::SOI | Marker::JPG | Marker::JPGn(_) | Marker::TEM | Marker::RES => is_format(e),
    }
}
pub open spec fn hop<R: Read>(a: Hs<R>, b: Hs<R>) -> bool { next_of(a) matches Some((m, t)) && b.prev == m && step(a, m, t, b) }
pub open spec fn hop_at<R: Read>(tr: Seq<Hs<R>>, k: int) -> bool { hop(tr[k], tr[k + 1]) }
pub open spec fn soi_first(s: Seq<u8>) -> bool { s.len() >= 2 && s[0] == 0xFF && s[1] == 0xD8 }
/// where a call starts: behind SOI, or where the call that read the frame header stopped
pub open spec fn starts<R: Read>(o: Decoder<R>, h: Hs<R>) -> bool {
    h.prev == Marker::SOI && h.pend is None && h.scans == 0 && h.d == (Decoder { reader: h.d.reader, ..o }) && match o.frame {
        None => soi_first(o.reader.rest()) && h.d.reader.rest() == o.reader.rest().skip(2) && blank_planes(h.planes, 0) && blank_planes(h.wide, 0),
        Some(f) => h.d.reader.rest() == o.reader.rest() && blank_planes(h.planes, f.components@.len() as int) && blank_planes(h.wide, f.components@.len() as int),
    }
}
/// the states a call goes through
pub open spec fn ran<R: Read>(o: Decoder<R>, tr: Seq<Hs<R>>) -> bool { tr.len() > 0 && starts(o, tr[0]) && forall|k: int| 0 <= k < tr.len() - 1 ==> #[trigger] hop_at(tr, k) }
pub proof fn ran_push<R: Read>(o: Decoder<R>, tr: Seq<Hs<R>>, b: Hs<R>) requires ran(o, tr), hop(tr.last(), b) ensures ran(o, tr.push(b))
{ let t = tr.push(b); assert(t[0] == tr[0]); assert forall|k: int| 0 <= k < t.len() - 1 implies #[trigger] hop_at(t, k) by { if k < tr.len() - 1 { assert(hop_at(tr, k)); assert(t[k] == tr[k] && t[k + 1] == tr[k + 1]); } else { assert(t[k] == tr.last() && t[k + 1] == b); } } }
// ---- the image ----
pub open spec fn depth(f: FrameInfo) -> int { if f.precision > 8 { 2 } else { 1 } }
pub open spec fn out_len(f: FrameInfo) -> int { f.components@.len() * f.output_size.width * f.output_size.height * depth(f) }
/// the rows of MCUs of the coefficients of component i
pub open spec fn co_rows(f: FrameInfo, co: Seq<i16>, c: Component) -> Seq<Seq<i16>> { Seq::new(f.mcu_size.height as nat, |r: int| co.subrange(r * (row_blocks(c) * 64), r * (row_blocks(c) * 64) + row_blocks(c) * 64)) }
/// a component of a progressive frame that is not complete is shown as far as it is known
pub open spec fn rendered<R: Read>(d: Decoder<R>, f: FrameInfo, i: int, p0: Vec<u8>, p1: Vec<u8>) -> bool {
    let c = f.components@[i]; let q = d.quantization_tables@[c.quantization_table_index as int];
    if f.coding_process == CodingProcess::DctProgressive && d.coefficients@.len() == f.components@.len() && d.coefficients_finished@[i] != !0u64 && q is Some { rows_in(p1@, c, q->0@, co_rows(f, d.coefficients@[i]@, c)) } else { p1 == p0 }
}
pub open spec fn all_rendered<R: Read>(d: Decoder<R>, f: FrameInfo, p0: Seq<Vec<u8>>, p1: Seq<Vec<u8>>) -> bool { p1.len() == p0.len() && forall|i: int| 0 <= i < p0.len() ==> rendered(d, f, i, p0[i], #[trigger] p1[i]) }
pub open spec fn shown<R: Read>(d: Decoder<R>, f: FrameInfo, p: Seq<Vec<u8>>, o: Seq<u8>) -> bool {
    if f.components@.len() == 1 { grey_done(p[0]@, f.output_size.width as int, f.output_size.height as int, stride_of(f.components@[0]), o) } else { image_done(p, f.components@, f.output_size, d.transform(), o) }
}
pub open spec fn image_of<R: Read>(d: Decoder<R>, planes: Seq<Vec<u8>>, wide: Seq<Vec<u16>>, o: Seq<u8>) -> bool {
    d.frame matches Some(f) && o.len() == out_len(f) && out_len(f) <= d.decoding_buffer_size_limit
    && if f.coding_process == CodingProcess::Lossless { lossless_image(wide, f.components@.len() as int, f.image_size.height * f.image_size.width, f.precision as int, o) } else { exists|p: Seq<Vec<u8>>| all_rendered(d, f, planes, p) && #[trigger] shown(d, f, p, o) }
}
/// sizes of the planes
pub open spec fn plane_fits(f: FrameInfo, i: int, n: int) -> bool { n == 0 || n == plane_len(f.components@[i]) }
pub open spec fn planes_inv(f: Option<FrameInfo>, planes: Seq<Vec<u8>>, wide: Seq<Vec<u16>>) -> bool {
    match f { None => planes.len() == 0 && wide.len() == 0,
        Some(f) => planes.len() == f.components@.len() && wide.len() == f.components@.len() && (forall|i: int| 0 <= i < planes.len() ==> plane_fits(f, i, (#[trigger] planes[i]).len() as int))
            && forall|i: int| 0 <= i < wide.len() ==> (#[trigger] wide[i]).len() == 0 || wide[i].len() == f.image_size.height * f.image_size.width }
}
/// a call of decode that returns an image: from SOI (or the frame header) to EOI
pub open spec fn decoded<R: Read>(o: Decoder<R>, tr: Seq<Hs<R>>, z: Decoder<R>, v: Seq<u8>) -> bool {
    ran(o, tr) && (next_of(tr.last()) matches Some((m, t)) && m == Marker::EOI && z.reader.rest() == t) && z == (Decoder { reader: z.reader, ..tr.last().d }) && image_of(z, tr.last().planes, tr.last().wide, v)
}
/// a call of read_info that reads the frame header
pub open spec fn informed<R: Read>(o: Decoder<R>, tr: Seq<Hs<R>>, z: Decoder<R>) -> bool { ran(o, tr) && (next_of(tr.last()) matches Some((m, t)) && m is SOF && frame_taken(tr.last().d, m, t, z)) }
/// a call that fails
pub open spec fn failed<R: Read>(o: Decoder<R>, tr: Seq<Hs<R>>, z: Decoder<R>, e: Error) -> bool {
    ran(o, tr) && match next_of(tr.last()) { None => true, Some((m, t)) => refused(tr.last(), m, t, e) || m == Marker::EOI && z.frame is Some && z == (Decoder { reader: z.reader, ..tr.last().d }) && image_refused(z, tr.last().planes, tr.last().wide) }
}
/// the image is too large, has a plane missing or cannot be converted
pub open spec fn image_refused<R: Read>(d: Decoder<R>, planes: Seq<Vec<u8>>, wide: Seq<Vec<u16>>) -> bool {
    d.frame matches Some(f) && (out_len(f) > d.decoding_buffer_size_limit || if f.coding_process == CodingProcess::Lossless { exists|i: int| 0 <= i < wide.len() && (#[trigger] wide[i]).len() == 0 }
        else { f.components@.len() == 1 ==> exists|p: Seq<Vec<u8>>| #[trigger] all_rendered(d, f, planes, p) && p[0].len() == 0 })
}
// ---- stand-ins for library calls ----
/// self.frame.clone().unwrap(): a derived Clone gives an equal value
#[verifier::external_body]
pub fn frame_copy(f: &Option<FrameInfo>) -> (r: FrameInfo) requires *f is Some ensures r == f->0 { unimplemented!() }
/// vec![Vec::<u16>::new(); n]
pub fn empty_words(n: usize) -> (r: Vec<Vec<u16>>) ensures blank_planes(r@, n as int) { let mut r: Vec<Vec<u16>> = Vec::new(); for i in 0..n invariant r.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j]).len() == 0 { r.push(Vec::new()); } r }
/// the next element of an iterator over vectors
pub fn take_item<T>(v: &mut Vec<Vec<T>>, i: usize) -> (r: Vec<T>) requires i < old(v).len() ensures r == old(v)@[i as int], final(v).len() == old(v).len(), forall|k: int| 0 <= k < old(v).len() && k != i ==> #[trigger] final(v)@[k] == old(v)@[k]
{ let mut x: Vec<T> = Vec::new(); v.push(x); v.swap_remove(i) }
/// mem::take
pub fn take_tables(v: &mut Vec<Option<HuffmanTable>>) -> (r: Vec<Option<HuffmanTable>>) ensures r == *old(v), final(v).len() == 0 { let mut x: Vec<Option<HuffmanTable>> = Vec::new(); core::mem::swap(v, &mut x); x }
pub fn take_table(v: &mut Vec<Option<HuffmanTable>>, i: usize) -> (r: Option<HuffmanTable>) requires i < old(v).len() ensures r == old(v)@[i as int], final(v).len() == old(v).len(), forall|k: int| 0 <= k < old(v).len() && k != i ==> #[trigger] final(v)@[k] == old(v)@[k]
{ v.push(None); v.swap_remove(i) }
pub fn copy_table(t: &Option<Arc<[u16; 64]>>) -> (r: Option<Arc<[u16; 64]>>) ensures r == *t { match t { Some(x) => Some(x.clone()), None => None } }
/// an iterator over the elements of a vector
#[verifier::external_body]
pub fn iter_of(v: Vec<(usize, Vec<i16>)>) -> (r: TaskIter) ensures r.rest() == v@ { unimplemented!() }
// ---- lemmas ----
pub proof fn real_next(s: Seq<u8>) ensures next_marker(s) matches Some((b, t)) ==> real(marker_of(b)) {}
pub proof fn real_marker(b: u8) ensures real(marker_of(b)) {}
pub proof fn real_past(m: Option<Marker>, s: Seq<u8>) requires real(m) ensures past_rst(m, s) matches Some((x, t)) ==> real(Some(x)) decreases s.len()
{ if let Some(Marker::RST(_)) = m { match next_marker(s) { None => {}, Some((b, t)) => { if t.len() < s.len() { real_marker(b); real_past(marker_of(b), t); } } } } }
pub proof fn real_end(a: St, sure: bool, m: Option<Marker>, rest: Seq<u8>) requires scan_end(a, sure, m, rest), a.d.wf() ensures real(m)
{
    let (m0, s0) = choose|m0: Option<Marker>, s0: Seq<u8>| #[trigger] taken(a, m0, s0) && (if m is Some { past_rst(m0, s0) == Some((m->0, rest)) } else if m0 is Some { m0->0 is RST && (sure ==> past_rst(m0, s0) is None) } else { rest == s0 });
    real_marker(marker_code(utail(a.rest)));
    real_past(m0, s0);
}
pub proof fn cdiv_same(a: int, b: int, h: int) requires a >= 1, b >= 1, h >= 1 ensures cdiv(a * h, b * h) == cdiv(a, b)
{ let q = cdiv(a, b); cdiv_bounds(a, b); assert(b * h >= 1) by (nonlinear_arith) requires b >= 1, h >= 1; assert(q * (b * h) >= a * h && (q - 1) * (b * h) < a * h) by (nonlinear_arith) requires q * b >= a, (q - 1) * b < a, h >= 1; cdiv_is(a * h, b * h, q); }
pub proof fn cdiv_one(a: int) requires a >= 1 ensures cdiv(a * 8, 8) == a { cdiv_is(a * 8, 8, a); }
/// a frame as parse_sof leaves it is at full size
pub proof fn fresh_frame(m: Marker, t: Seq<u8>, f: FrameInfo) requires sof_frame(m, t, f), frame_ok(f), supported(f) ensures frame_inv(f)
{
    assert forall|i: int| 0 <= i < f.components@.len() implies (#[trigger] f.components@[i]).dct_scale == 8 by { assert(sof_comp(t, i, f.components@[i])); }
    cdiv_one(f.image_size.width as int); cdiv_one(f.image_size.height as int);
}
/// at any scale the components cover the image
pub proof fn covered(f: FrameInfo) requires frame_full(f), one_scale(f) ensures cover_all(f.components@, f.output_size), f.components@.len() == 1 ==> f.components@[0].size == f.output_size,
    forall|i: int| 0 <= i < f.components@.len() ==> comp_ok(#[trigger] f.components@[i]),
    forall|i: int, n: int| 0 <= i < f.components@.len() && n == plane_len(#[trigger] f.components@[i]) ==> #[trigger] plane_room(f.components@[i], n),
    f.output_size.width >= 1, f.output_size.height >= 1
{
    let cs = f.components@; let (hm, vm) = (hmax(cs, cs.len() as int), vmax(cs, cs.len() as int)); let (w, g) = (f.image_size.width as int, f.image_size.height as int); let s = cs[0].dct_scale as int;
    max_bounds(cs, cs.len() as int); assert(factors_ok(cs[0])); assert(scale_ok(cs[0].dct_scale as int));
    assert(1 <= w * s && 1 <= g * s) by (nonlinear_arith) requires w >= 1, g >= 1, s >= 1;
    cdiv_bounds(w * s, 8); cdiv_bounds(g * s, 8);
    assert forall|i: int| 0 <= i < cs.len() implies #[trigger] covering(cs[i], hm, vm, f.output_size.width as int, f.output_size.height as int) by { assert(factors_ok(cs[i])); geometry_covers(f.image_size, cs, f.mcu_size, i, f.output_size.width as int, f.output_size.height as int); }
    assert forall|i: int| 0 <= i < cs.len() implies comp_ok(#[trigger] cs[i]) by { grid(f, i); }
    assert forall|i: int, n: int| 0 <= i < cs.len() && n == plane_len(#[trigger] cs[i]) implies #[trigger] plane_room(cs[i], n) by {
        let c = cs[i]; grid(f, i); assert(covering(c, hm, vm, f.output_size.width as int, f.output_size.height as int));
        axis_covers(g, c.vertical_sampling_factor as int, vm, s); assert(comp_geom(f.image_size, hm, vm, c));
        let (bw, bh, ih) = (c.block_size.width as int, c.block_size.height as int, c.size.height as int);
        assert(bw * s <= 65535 * 8) by (nonlinear_arith) requires bw <= 65535, 1 <= s <= 8;
        assert(bw * bh * s * s == (bh * s) * (bw * s)) by (nonlinear_arith);
        assert((bh * s) * (bw * s) >= ih * (bw * s)) by (nonlinear_arith) requires ih <= bh * s, bw * s >= 0;
        assert(bw * bh <= 65535 * 65535) by (nonlinear_arith) requires 0 <= bw <= 65535, 0 <= bh <= 65535;
        assert(bw * bh * s * s <= 65535 * 65535 * 64) by (nonlinear_arith) requires 0 <= bw * bh <= 65535 * 65535, 1 <= s <= 8;
        assert(c.dct_scale == s && f.components@.len() >= 1); assert(stride_of(c) == bw * s); assert(n == bw * bh * s * s); assert(n >= ih * stride_of(c)); assert(1 <= c.size.width <= stride_of(c)); assert(ih >= 1); assert(n >= 1) by (nonlinear_arith) requires n >= ih * (bw * s), ih >= 1, bw * s >= 1;
    }
    if cs.len() == 1 {
        let c = cs[0]; assert(comp_geom(f.image_size, hm, vm, c)); let (h, v) = (c.horizontal_sampling_factor as int, c.vertical_sampling_factor as int);
        assert(hm == h && vm == v);
        cdiv_same(w * s, 8, h); cdiv_same(g * s, 8, v);
        assert(w * h * s == (w * s) * h) by (nonlinear_arith); assert(g * v * s == (g * s) * v) by (nonlinear_arith);
    }
}
pub open spec fn plane_room(c: Component, n: int) -> bool { 1 <= c.size.width <= stride_of(c) <= 65535 * 8 && 1 <= c.size.height && n >= c.size.height * stride_of(c) && n >= 1 && n <= 65535 * 65535 * 64 }
pub proof fn grid(f: FrameInfo, i: int) requires frame_full(f), 0 <= i < f.components@.len()
    ensures comp_ok(f.components@[i]), f.components@[i].block_size.height == f.mcu_size.height * f.components@[i].vertical_sampling_factor, f.components@[i].block_size.height >= 1, f.components@[i].block_size.width <= 8195, f.components@[i].block_size.height <= 8195, 1 <= f.mcu_size.height <= 8192, fits(f.components@[i], f.mcu_size.height as nat), plane_len(f.components@[i]) == f.mcu_size.height * used(f.components@[i])
{
    let cs = f.components@; let c = cs[i]; let (hm, vm) = (hmax(cs, cs.len() as int), vmax(cs, cs.len() as int));
    max_bounds(cs, cs.len() as int); assert(factors_ok(c)); assert(comp_geom(f.image_size, hm, vm, c)); assert(scale_ok(c.dct_scale as int));
    let (w, h, hf, vf) = (f.image_size.width as int, f.image_size.height as int, c.horizontal_sampling_factor as int, c.vertical_sampling_factor as int);
    grid_bound(w, hf, hm); grid_bound(h, vf, vm);
    assert(c.block_size.width >= 1) by (nonlinear_arith) requires c.block_size.width == cdiv(w, 8 * hm) * hf, cdiv(w, 8 * hm) >= 1, hf >= 1;
    assert(c.block_size.height >= 1) by (nonlinear_arith) requires c.block_size.height == cdiv(h, 8 * vm) * vf, cdiv(h, 8 * vm) >= 1, vf >= 1;
    let (bw, bh, mh, s) = (c.block_size.width as int, c.block_size.height as int, f.mcu_size.height as int, c.dct_scale as int);
    assert(mh * (bw * vf * s * s) == bw * bh * s * s) by (nonlinear_arith) requires bh == mh * vf;
}
pub proof fn bit_or(x: u64, j: u64) requires j < 64 ensures forall|k: int| 0 <= k < 64 ==> #[trigger] bit(x | (1u64 << j), k) == (bit(x, k) || k == j)
{ assert forall|k: int| 0 <= k < 64 implies #[trigger] bit(x | (1u64 << j), k) == (bit(x, k) || k == j) by { let i = k as u64; assert(((x | (1u64 << j)) >> i) & 1 == 1 <==> ((x >> i) & 1 == 1 || i == j)) by (bit_vector) requires i < 64, j < 64; } }
pub proof fn bit_all(x: u64, j: int) requires x == !0u64, 0 <= j < 64 ensures bit(x, j) { let i = j as u64; assert((!0u64 >> i) & 1 == 1) by (bit_vector) requires i < 64; }
/// the component is complete when all its bits are set
pub proof fn all_bits(x: u64) ensures x == !0u64 <==> forall|j: int| 0 <= j < 64 ==> #[trigger] bit(x, j)
{
    if x == !0u64 { assert forall|j: int| 0 <= j < 64 implies #[trigger] bit(x, j) by { bit_all(x, j); } }
    else { assert(exists|i: u64| i < 64 && (x >> i) & 1 == 0) by { some_zero(x); } let i = choose|i: u64| i < 64 && (x >> i) & 1 == 0; assert(!bit(x, i as int)); }
}
proof fn some_zero(x: u64) requires x != !0u64 ensures exists|i: u64| i < 64 && (x >> i) & 1 == 0
{ if forall|i: u64| !(i < 64 && (x >> i) & 1 == 0) { low_ones(x, 64); assert(x == !0u64) by (bit_vector) requires x & 0xffff_ffff_ffff_ffffu64 == 0xffff_ffff_ffff_ffffu64; } }
proof fn low_ones(x: u64, n: u64) requires n <= 64, forall|i: u64| !(i < 64 && (x >> i) & 1 == 0) ensures n < 64 ==> x & (((1u64 << n) - 1) as u64) == ((1u64 << n) - 1) as u64, n == 64 ==> x & 0xffff_ffff_ffff_ffffu64 == 0xffff_ffff_ffff_ffffu64 decreases n
{
    if n > 0 { let m = (n - 1) as u64; low_ones(x, m); assert(!((x >> m) & 1 == 0));
        assert(n < 64 ==> x & sub(1u64 << n, 1) == sub(1u64 << n, 1)) by (bit_vector) requires x & sub(1u64 << m, 1) == sub(1u64 << m, 1), !((x >> m) & 1 == 0), m == sub(n, 1), 0 < n, n <= 64;
        assert(n == 64 ==> x & 0xffff_ffff_ffff_ffffu64 == 0xffff_ffff_ffff_ffffu64) by (bit_vector) requires x & sub(1u64 << m, 1) == sub(1u64 << m, 1), !((x >> m) & 1 == 0), m == sub(n, 1), 0 < n, n <= 64;
        assert(n < 64 ==> 1u64 << n >= 1) by (bit_vector); assert(1u64 << m >= 1) by (bit_vector) requires m < 64;
    } else { assert(x & sub(1u64 << 0u64, 1) == sub(1u64 << 0u64, 1)) by (bit_vector); assert(1u64 << 0u64 == 1) by (bit_vector); }
}
// ---- the decoder ----
//@item src/worker/mod.rs PreferWorkerKind
pub enum PreferWorkerKind { Immediate, Multithreaded, }
//@end
/// what scans see of the state
pub open spec fn sight<R: Read>(h: Hs<R>) -> Hs<R> { Hs { prev: Marker::SOI, pend: None, scans: 0, ..h } }
pub open spec fn sight_on<R: Read>(h: Hs<R>) -> Hs<R> { Hs { prev: Marker::SOI, scans: 0, ..h } }
pub open spec fn hs_at<R: Read>(d: Decoder<R>, m: Option<Marker>, planes: Seq<Vec<u8>>, wide: Seq<Vec<u16>>) -> Hs<R> { Hs { d, prev: Marker::SOI, pend: m, scans: 0, planes, wide } }
/// a frame as parse_sof leaves it, at full size
pub proof fn full_frame(m: Marker, t: Seq<u8>, f: FrameInfo) requires sof_frame(m, t, f), frame_ok(f), count_ok(f.components@.len() as int) ensures frame_full(f), one_scale(f), f.output_size == f.image_size, ratios_supported(f.components@, f.image_size.width as int, f.image_size.height as int) && supported(f) ==> frame_inv(f)
{
    assert forall|i: int| 0 <= i < f.components@.len() implies (#[trigger] f.components@[i]).dct_scale == 8 by { assert(sof_comp(t, i, f.components@[i])); }
    cdiv_one(f.image_size.width as int); cdiv_one(f.image_size.height as int);
}
/// a prefix of two tables merged
pub open spec fn joined(a: Seq<Option<HuffmanTable>>, b: Seq<Option<HuffmanTable>>, o: Seq<Option<HuffmanTable>>, n: int) -> bool { a.len() == 4 && b.len() == 4 && o.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] o[k] == if a[k] is Some { a[k] } else { b[k] } }
pub proof fn joined_all(a: Seq<Option<HuffmanTable>>, b: Seq<Option<HuffmanTable>>, o: Seq<Option<HuffmanTable>>) requires joined(a, b, o, 4), tabs_wf(a), tabs_wf(b) ensures merged(hviews(a), b, o), tabs_wf(o)
{
    assert forall|i: int| 0 <= i < 4 implies match hviews(a)[i] { None => #[trigger] o[i] == b[i], Some(x) => hview(o[i]) == Some(x) } by {}
    assert forall|i: int| 0 <= i < o.len() && #[trigger] o[i] is Some implies (o[i]->0).wf() by { assert(a[i] is Some || b[i] is Some); }
}
/// the marker behind a lossless scan
pub proof fn ends_real(ts: Seq<HuffmanTable>, r: int, s: St, tr: Seq<Seq<St>>, ds: Seq<Vec<i32>>, n: int, sure: bool, m: Option<Marker>, rest: Seq<u8>, tabs: Seq<Option<HuffmanTable>>, ix: Seq<usize>)
    requires diffs_done(ts, r, s, tr, ds, n), n >= 1, ts == tables_of(tabs, ix), ix.len() >= 1, scan_end(last_state(ts, s, tr), sure, m, rest) ensures real(m)
{
    assert(pos_done(ts, r, s, tr, ds, n - 1)); let cur = tr[n - 1]; let j = ts.len() - 1; let v = ds[j]@[n - 1]; assert(diff_at(ts[j], cur[j], v as int, cur[j + 1]));
    real_end(last_state(ts, s, tr), sure, m, rest);
}
/// the marker behind a scan, and the sizes of the planes
pub proof fn sent_real(p: Plan, t: Seq<u8>, sure: bool, m: Option<Marker>, rest: Seq<u8>, c0: Seq<Vec<i16>>, c1: Seq<Vec<i16>>, qs: Seq<Option<Arc<[u16; 64]>>>, ncomp: int, data: Option<Vec<Vec<u8>>>, f: FrameInfo, c: ScanInfo, dcs: Seq<Option<HuffmanTable>>, acs: Seq<Option<HuffmanTable>>, r: int, fin: Seq<bool>)
    requires dct_scan(p, t, sure, m, rest, c0, c1, qs, ncomp, data), p == plan_of(f, c, dcs, acs, r, fin), frame_full(f), scan_ok(f, c), f.coding_process != CodingProcess::Lossless, fin.len() == 4, r >= 0, ncomp == f.components@.len()
    ensures real(m), data matches Some(d) ==> d.len() == ncomp && forall|k: int| 0 <= k < ncomp ==> plane_fits(f, k, (#[trigger] d@[k]).len() as int)
{
    plan_ok(f, c, dcs, acs, r, fin);
    let s = start_of(p, t, c0); let tr = choose|tr: Seq<Seq<Sn>>| #[trigger] dct_done(p, s, tr, sure, m, rest, c0, c1, qs, ncomp, data);
    let n = p.mw * p.mh; assert(n >= 1) by (nonlinear_arith) requires n == p.mw * p.mh, p.mw >= 1, p.mh >= 1;
    units_pos(p, p.n()); assert(mcu_done(p, s, tr, n - 1)); let cur = tr[n - 1]; let u = p.total() - 1; let (y, x) = ((n - 1) / p.mw, (n - 1) % p.mw);
    assert(unit_step(p, y, x, cur, u)); let (i, v, h) = p.unit_at(u, 0); let (by, bx) = (y * p.vs(i) + v, x * p.hs(i) + h);
    assert(unit_done(p, cur[u], i, by, bx, cur[u + 1]));
    if !p.kept(i) { let (a, b) = choose|a: Seq<i16>, b: Seq<i16>| a.len() == 64 && #[trigger] unit_ok(p, i, cur[u], a, cur[u + 1], b); }
    let e = last_sn(p, s, tr); assert(e == cur[u + 1]); assert(e.st.d.wf());
    real_end(e.st, sure, m, rest);
    if data is Some {
        let d = data->0;
        assert forall|k: int| 0 <= k < ncomp implies plane_fits(f, k, (#[trigger] d@[k]).len() as int) by {
            if exists|i: int| 0 <= i < p.n() && p.ix[i] == k && #[trigger] p.done[i] { let i = choose|i: int| 0 <= i < p.n() && p.ix[i] == k && #[trigger] p.done[i]; assert(rows_in(d@[p.ix[i]]@, p.comps[i], qs[p.comps[i].quantization_table_index as int]->0@, sent(p, e.store[i], i, p.fh))); assert(p.comps[i] == f.components@[k]); }
            else { assert(d@[k].len() == 0); }
        }
    }
}
pub open spec fn dct_all<R: Read>(a: Hs<R>, f: FrameInfo, t: Seq<u8>, c: ScanInfo, b: Hs<R>) -> bool { exists|data: Option<Vec<Vec<u8>>>, sure: bool| #[trigger] dct_planes(a, f, t, c, b, data, sure, a.d.coefficients@) }
/// what a scan does is the same seen from before the scan header
pub proof fn lossless_lift<R: Read>(a: Hs<R>, a1: Hs<R>, f: FrameInfo, s: Seq<u8>, c: ScanInfo)
    requires a1 == (Hs { d: a1.d, ..a }), a1.d.same(&a.d), a.d.frame == Some(f), sos_scan(f, s, c), scan_ok(f, c), f.coding_process == CodingProcess::Lossless
    ensures forall|b: Hs<R>| #[trigger] lossless_some(a1, f, behind_seg(s), c, b) ==> lossless_some(a, f, behind_seg(s), c, b), lossless_fails(a1, f, behind_seg(s), c) ==> scan_breaks(a, f, s, c)
{
    let t = behind_seg(s);
    assert forall|b: Hs<R>| #[trigger] lossless_some(a1, f, t, c, b) implies lossless_some(a, f, t, c, b) by {
        let (o, sure) = choose|o: Seq<Vec<u16>>, sure: bool| #[trigger] lossless_planes(a1, f, t, c, b, o, sure);
        assert(lossless_planes(a, f, t, c, b, o, sure));
    }
}
pub proof fn dct_lift<R: Read>(a: Hs<R>, a1: Hs<R>, f: FrameInfo, s: Seq<u8>, c: ScanInfo)
    requires a1 == (Hs { d: a1.d, ..a }), a1.d == (Decoder { reader: a1.d.reader, coefficients: a1.d.coefficients, ..a.d }), a.d.reader.reliable() ==> a1.d.reader.reliable(), a.d.frame == Some(f), sos_scan(f, s, c), scan_ok(f, c), f.coding_process != CodingProcess::Lossless,
        first_co(f, a.d.coefficients@, a1.d.coefficients@)
    ensures forall|b: Hs<R>| #[trigger] dct_all(a1, f, behind_seg(s), c, b) ==> dct_some(a, f, behind_seg(s), c, b), forall|d: Decoder<R>| #[trigger] dct_fails(a1, f, behind_seg(s), c, d, a1.d.coefficients@) ==> scan_breaks(a, f, s, c)
{
    let t = behind_seg(s); let c0 = a1.d.coefficients@;
    assert forall|b: Hs<R>| #[trigger] dct_all(a1, f, t, c, b) implies dct_some(a, f, t, c, b) by {
        let (data, sure) = choose|data: Option<Vec<Vec<u8>>>, sure: bool| #[trigger] dct_planes(a1, f, t, c, b, data, sure, c0);
        assert(dct_planes(a, f, t, c, b, data, sure, c0));
    }
    assert forall|d: Decoder<R>| #[trigger] dct_fails(a1, f, t, c, d, c0) implies scan_breaks(a, f, s, c) by { assert(dct_fails(a, f, t, c, d, c0)); assert(dct_breaks(a, f, t, c)); }
}
pub open spec fn informs<R: Read>(o: Decoder<R>, z: Decoder<R>) -> bool { exists|tr: Seq<Hs<R>>| #[trigger] informed(o, tr, z) }
pub open spec fn decodes<R: Read>(o: Decoder<R>, z: Decoder<R>, v: Seq<u8>) -> bool { exists|tr: Seq<Hs<R>>| #[trigger] decoded(o, tr, z, v) }
pub open spec fn fails_with<R: Read>(o: Decoder<R>, z: Decoder<R>, e: Error) -> bool { exists|tr: Seq<Hs<R>>| #[trigger] failed(o, tr, z, e) }
/// between two segments
pub open spec fn going<R: Read>(o: Decoder<R>, tr: Seq<Hs<R>>, h: Hs<R>) -> bool {
    ran(o, tr) && tr.last() == h && h.d.inv() && planes_inv(h.d.frame, h.planes, h.wide) && real(h.pend) && h.scans >= 0 && (o.reader.reliable() ==> h.d.reader.reliable())
}
/// behind EOI
pub open spec fn ended<R: Read>(o: Decoder<R>, tr: Seq<Hs<R>>, z: Decoder<R>) -> bool { ran(o, tr) && next_of(tr.last()) == Some((Marker::EOI, z.reader.rest())) && z == (Decoder { reader: z.reader, ..tr.last().d }) }
/// scans depend on nothing else of the state
pub proof fn scan_put<R: Read>(a: Hs<R>, t: Seq<u8>, b1: Hs<R>, b: Hs<R>) requires scan_taken(a, t, b1), b == (Hs { prev: b.prev, scans: b.scans, ..b1 }) ensures scan_taken(a, t, b)
{
    let f = a.d.frame->0; let c = choose|c: ScanInfo| #[trigger] scan_with(a, f, t, c, b1); let u = behind_seg(t);
    if f.coding_process == CodingProcess::Lossless { let (o, sure) = choose|o: Seq<Vec<u16>>, sure: bool| #[trigger] lossless_planes(a, f, u, c, b1, o, sure); assert(lossless_planes(a, f, u, c, b, o, sure)); }
    else { let (data, sure, c0) = choose|data: Option<Vec<Vec<u8>>>, sure: bool, c0: Seq<Vec<i16>>| #[trigger] dct_planes(a, f, u, c, b1, data, sure, c0); assert(dct_planes(a, f, u, c, b, data, sure, c0)); }
    assert(scan_with(a, f, t, c, b));
}
pub proof fn scan_lift<R: Read>(a: Hs<R>, a1: Hs<R>, t: Seq<u8>) requires a1.d.same(&a.d), a1.planes == a.planes, a1.wide == a.wide
    ensures forall|b: Hs<R>| #[trigger] scan_taken(a1, t, b) ==> scan_taken(a, t, b), scan_refused(a1, t) ==> scan_refused(a, t)
{
    let u = behind_seg(t);
    assert forall|b: Hs<R>| #[trigger] scan_taken(a1, t, b) implies scan_taken(a, t, b) by {
        let f = a.d.frame->0; let c = choose|c: ScanInfo| #[trigger] scan_with(a1, f, t, c, b);
        if f.coding_process == CodingProcess::Lossless { let (o, sure) = choose|o: Seq<Vec<u16>>, sure: bool| #[trigger] lossless_planes(a1, f, u, c, b, o, sure); assert(lossless_planes(a, f, u, c, b, o, sure)); }
        else { let (data, sure, c0) = choose|data: Option<Vec<Vec<u8>>>, sure: bool, c0: Seq<Vec<i16>>| #[trigger] dct_planes(a1, f, u, c, b, data, sure, c0); assert(dct_planes(a, f, u, c, b, data, sure, c0)); }
        assert(scan_with(a, f, t, c, b));
    }
    if scan_refused(a1, t) && a.d.frame is Some {
        let f = a.d.frame->0;
        if sos_legal(f, t) {
            let c = choose|c: ScanInfo| #[trigger] scan_breaks(a1, f, t, c);
            if f.coding_process == CodingProcess::Lossless { assert(lossless_fails(a, f, u, c)); }
            else { let (d, c0) = choose|d: Decoder<R>, c0: Seq<Vec<i16>>| #[trigger] dct_fails(a1, f, u, c, d, c0); assert(dct_fails(a, f, u, c, d, c0)); }
            assert(scan_breaks(a, f, t, c));
        }
    }
}
pub proof fn soi_is(b: u8) ensures marker_of(b) == Some(Marker::SOI) ==> b == 0xD8 {}
pub proof fn start_ran<R: Read>(o: Decoder<R>, tr: Seq<Hs<R>>) requires tr.len() == 1, starts(o, tr[0]) ensures ran(o, tr) {}
pub proof fn blank_inv(f: Option<FrameInfo>, p: Seq<Vec<u8>>, w: Seq<Vec<u16>>) requires f is None ==> blank_planes(p, 0) && blank_planes(w, 0), f matches Some(x) ==> blank_planes(p, x.components@.len() as int) && blank_planes(w, x.components@.len() as int) ensures planes_inv(f, p, w) {}
/// the segments that are no frame or scan header
pub proof fn seg_step<R: Read>(a: Hs<R>, d1: Decoder<R>, m: Marker, t: Seq<u8>, b: Decoder<R>)
    requires d1.same(&a.d), d1.inv(), match m {
        Marker::DQT => dqt_taken(d1, t, b), Marker::DHT => dht_taken(d1, t, b) && b.tables_ok(), Marker::DRI => dri_taken(d1, t, b), Marker::COM => seg_whole(t) && b == (Decoder { reader: b.reader, ..d1 }) && b.reader.rest() == behind_seg(t),
        Marker::APP(_) => app_taken(d1, m, t, b), Marker::RST(_) => a.prev == Marker::SOS && b == (Decoder { reader: b.reader, ..d1 }) && b.reader.rest() == t, _ => false }
    ensures step(a, m, t, Hs { d: b, prev: m, pend: None, ..a }), b.inv(), b.frame == a.d.frame
{
    if m is APP { let x = choose|x: Option<AppData>| app_data(m, payload(t), x) && #[trigger] kept(d1, x, b); assert(kept(a.d, x, b)); }
}
pub proof fn frame_step<R: Read>(a: Hs<R>, d1: Decoder<R>, m: Marker, t: Seq<u8>, b: Hs<R>)
    requires d1.same(&a.d), m is SOF, frame_taken(d1, m, t, b.d), b.prev == m, b.pend is None, b.scans == a.scans, blank_planes(b.planes, b.d.frame->0.components@.len() as int), blank_planes(b.wide, b.d.frame->0.components@.len() as int)
    ensures step(a, m, t, b), planes_inv(b.d.frame, b.planes, b.wide), b.d.inv() || !d1.inv() || !b.d.tables_ok() {}
pub proof fn scan_step<R: Read>(a: Hs<R>, t: Seq<u8>, b1: Hs<R>, b: Hs<R>) requires scan_taken(a, t, b1), b == (Hs { prev: Marker::SOS, scans: a.scans + 1, ..b1 }) ensures step(a, Marker::SOS, t, b) { scan_put(a, t, b1, b); }
pub proof fn frame_informs<R: Read>(o: Decoder<R>, tr: Seq<Hs<R>>, d1: Decoder<R>, m: Marker, t: Seq<u8>, z: Decoder<R>)
    requires ran(o, tr), next_of(tr.last()) == Some((m, t)), d1.same(&tr.last().d), m is SOF, frame_taken(d1, m, t, z) ensures informs(o, z) { assert(informed(o, tr, z)); }
pub open spec fn first_state<R: Read>(d: Decoder<R>, p: Seq<Vec<u8>>, w: Seq<Vec<u16>>) -> Hs<R> { Hs { d, prev: Marker::SOI, pend: None, scans: 0, planes: p, wide: w } }
pub proof fn set_out<R: Read>(o: Decoder<R>, d: Decoder<R>, p: Seq<Vec<u8>>, w: Seq<Vec<u16>>)
    requires o.inv(), d.same(&o), o.frame is None ==> soi_first(o.reader.rest()) && d.reader.rest() == o.reader.rest().skip(2) && blank_planes(p, 0) && blank_planes(w, 0),
        o.frame matches Some(f) ==> d == o && blank_planes(p, f.components@.len() as int) && blank_planes(w, f.components@.len() as int)
    ensures going(o, seq![first_state(d, p, w)], first_state(d, p, w))
{ let tr = seq![first_state(d, p, w)]; assert(starts(o, tr[0])); start_ran(o, tr); blank_inv(d.frame, p, w); }
pub proof fn read_soi(s: Seq<u8>, r1: Seq<u8>, r2: Seq<u8>) requires s.len() >= 1, s[0] == 0xFF, r1 == s.skip(1), r1.len() >= 1, marker_of(r1[0]) == Some(Marker::SOI), r2 == r1.skip(1) ensures soi_first(s), r2 == s.skip(2) { soi_is(r1[0]); assert(s.skip(1).skip(1) =~= s.skip(2)); }
pub proof fn no_soi(s: Seq<u8>) ensures s.len() < 2 || s[0] != 0xFF || marker_of(s.skip(1)[0]) != Some(Marker::SOI) ==> !soi_first(s) { if s.len() >= 2 { assert(s.skip(1)[0] == s[1]); } }
/// what the end of the image makes of the last state
pub proof fn rest_of_it<R: Read>(o: Decoder<R>, tr: Seq<Hs<R>>, z: Decoder<R>) requires ended(o, tr, z)
    ensures z.frame is None ==> forall|e: Error| is_format(e) ==> #[trigger] fails_with(o, z, e), z.frame is Some && image_refused(z, tr.last().planes, tr.last().wide) ==> forall|e: Error| #[trigger] fails_with(o, z, e), forall|v: Seq<u8>| image_of(z, tr.last().planes, tr.last().wide, v) ==> #[trigger] decodes(o, z, v)
{
    if z.frame is None { assert forall|e: Error| is_format(e) implies #[trigger] fails_with(o, z, e) by { assert(refused(tr.last(), Marker::EOI, z.reader.rest(), e)); assert(failed(o, tr, z, e)); } }
    else if image_refused(z, tr.last().planes, tr.last().wide) { assert forall|e: Error| #[trigger] fails_with(o, z, e) by { assert(failed(o, tr, z, e)); } }
    assert forall|v: Seq<u8>| image_of(z, tr.last().planes, tr.last().wide, v) implies #[trigger] decodes(o, z, v) by { assert(decoded(o, tr, z, v)); }
}
/// at the head of the loop
pub proof fn going_is<R: Read>(o: Decoder<R>, tr: Seq<Hs<R>>, h: Hs<R>) requires going(o, tr, h)
    ensures ran(o, tr), tr.last() == h, h.d.inv(), planes_inv(h.d.frame, h.planes, h.wide), h.scans >= 0, o.reader.reliable() ==> h.d.reader.reliable(), next_of(h) is None ==> forall|z: Decoder<R>, e: Error| #[trigger] fails_with(o, z, e), real(h.pend), next_marker(h.d.reader.rest()) matches Some((b, t)) ==> real(marker_of(b))
{ if next_of(h) is None { assert forall|z: Decoder<R>, e: Error| #[trigger] fails_with(o, z, e) by { assert(failed(o, tr, z, e)); } } real_next(h.d.reader.rest()); }
pub proof fn on_marker<R: Read>(o: Decoder<R>, tr: Seq<Hs<R>>, m: Marker, t: Seq<u8>) requires ran(o, tr), next_of(tr.last()) == Some((m, t)) ensures forall|z: Decoder<R>, e: Error| refused(tr.last(), m, t, e) ==> #[trigger] fails_with(o, z, e)
{ assert forall|z: Decoder<R>, e: Error| refused(tr.last(), m, t, e) implies #[trigger] fails_with(o, z, e) by { assert(failed(o, tr, z, e)); } }
pub proof fn keep_going<R: Read>(o: Decoder<R>, tr: Seq<Hs<R>>, a: Hs<R>, m: Marker, t: Seq<u8>, b: Hs<R>)
    requires ran(o, tr), tr.last() == a, next_of(a) == Some((m, t)), b.prev == m, step(a, m, t, b), b.d.inv(), planes_inv(b.d.frame, b.planes, b.wide), real(b.pend), b.scans >= 0, o.reader.reliable() ==> b.d.reader.reliable() ensures going(o, tr.push(b), b)
{ assert(hop(a, b)); ran_push(o, tr, b); }
/// the size of the decoded image does not overflow
pub proof fn out_room(f: FrameInfo) requires frame_inv(f)
    ensures ({ let (n, w, h) = (f.components@.len() as int, f.output_size.width as int, f.output_size.height as int); 0 <= n * w <= 4 * 65535 && 0 <= n * w * h <= 4 * 65535 * 65535 && out_len(f) == n * w * h * depth(f) && 0 <= out_len(f) <= 8 * 65535 * 65535 && w * h * n == n * w * h })
{
    let (n, w, h) = (f.components@.len() as int, f.output_size.width as int, f.output_size.height as int);
    assert(0 <= n * w <= 4 * 65535) by (nonlinear_arith) requires 0 <= n <= 4, 0 <= w <= 65535;
    assert(0 <= n * w * h <= 4 * 65535 * 65535) by (nonlinear_arith) requires 0 <= n * w <= 4 * 65535, 0 <= h <= 65535;
    assert(w * h * n == n * w * h) by (nonlinear_arith);
}
pub proof fn wide_len(f: FrameInfo, wide: Seq<Vec<u16>>, v: Seq<u8>) requires frame_inv(f), f.coding_process == CodingProcess::Lossless, lossless_image(wide, f.components@.len() as int, f.image_size.height * f.image_size.width, f.precision as int, v) ensures v.len() == out_len(f)
{
    full_size(f); let (n, w, h) = (f.components@.len() as int, f.image_size.width as int, f.image_size.height as int); assert(n * (h * w) == n * w * h && (h * w) * n == n * w * h) by (nonlinear_arith);
    let u = choose|u: Seq<u16>| interleaved(wide, n, h * w, u) && #[trigger] bytes_of(u, f.precision as int, v); assert(u.len() == n * w * h);
}
pub proof fn full_size(f: FrameInfo) requires frame_inv(f), f.coding_process == CodingProcess::Lossless ensures f.output_size == f.image_size
{ cdiv_one(f.image_size.width as int); cdiv_one(f.image_size.height as int); }
/// the coefficients of a component are its rows of MCUs
pub proof fn rows_room(f: FrameInfo, i: int) requires frame_full(f), 0 <= i < f.components@.len() ensures ({ let c = f.components@[i]; let m = row_blocks(c) * 64; 0 <= m <= 0x4000_0000 && f.mcu_size.height * m == c.block_size.width * c.block_size.height * 64 && c.block_size.width * c.vertical_sampling_factor * 64 == m && c.block_size.width * c.vertical_sampling_factor <= 65535 * 255 })
{
    grid(f, i); let c = f.components@[i]; let (bw, bh, v, mh) = (c.block_size.width as int, c.block_size.height as int, c.vertical_sampling_factor as int, f.mcu_size.height as int);
    assert(0 <= bw * v <= 65535 * 255) by (nonlinear_arith) requires 0 <= bw <= 65535, 0 <= v <= 255;
    assert(mh * (bw * v * 64) == bw * bh * 64) by (nonlinear_arith) requires bh == mh * v;
}
pub proof fn row_len(m: int, h: int, k: int) requires 0 <= k < h, m >= 0 ensures 0 <= k * m, k * m + m <= h * m { assert(0 <= k * m && k * m + m <= h * m) by (nonlinear_arith) requires 0 <= k < h, m >= 0; }
pub open spec fn sane(f: FrameInfo, i: int) -> bool { f.components@[i].quantization_table_index < 4 && comp_ok(f.components@[i]) }
pub proof fn shown_all<R: Read>(d: Decoder<R>, f: FrameInfo, p0: Seq<Vec<u8>>, p1: Seq<Vec<u8>>, wide: Seq<Vec<u16>>) requires all_rendered(d, f, p0, p1), d.frame == Some(f), frame_inv(f), f.coding_process != CodingProcess::Lossless, out_len(f) <= d.decoding_buffer_size_limit
    ensures forall|o: Seq<u8>| #[trigger] shown(d, f, p1, o) && o.len() == out_len(f) ==> image_of(d, p0, wide, o), f.components@.len() == 1 && p1.len() == 1 && p1[0].len() == 0 ==> image_refused(d, p0, wide), f.components@.len() != 1 ==> image_refused(d, p0, wide)
{}
impl<R: Read> Decoder<R> {
/// everything but the reader
pub open spec fn same(&self, o: &Self) -> bool { *self == (Decoder { reader: self.reader, ..*o }) && (o.reader.reliable() ==> self.reader.reliable()) }
//@fn src/decoder.rs Decoder::select_worker
//@sub `$a . $b . $c . into ( )` => `$a . $b . $c as u64`
fn select_worker(frame: &FrameInfo, worker_preference: PreferWorkerKind) -> PreferWorkerKind {
    const PARALLELISM_THRESHOLD: u64 = 128 * 128;
    match worker_preference {
        PreferWorkerKind::Immediate => PreferWorkerKind::Immediate, PreferWorkerKind::Multithreaded => {
            let width: u64 = frame.output_size.width as u64;
            let height: u64 = frame.output_size.width as u64;
            /*@ assert(width * height <= 0xffff * 0xffff) by (nonlinear_arith) requires width <= 0xffff, height <= 0xffff; @*/
            if width * height > PARALLELISM_THRESHOLD { PreferWorkerKind::Multithreaded } else { PreferWorkerKind::Immediate }
        }
    }
}
//@end
//@fn src/decoder.rs Decoder::decode_planes
//@rw errtext
//@sub `fn decode_planes (` => `fn decode_planes < W : Worker > (`
//@sub `worker : & mut dyn Worker` => `worker : & mut W`
//@sub `if $*a . checked_mul ( $$b ) . and_then ( | $m | $$c ) . and_then ( | $n | $$d ) . map_or ( true , | $k | $$e )` => `if ( match $*a . checked_mul ( $$b ) { None => true , Some ( $m ) => match $$c { None => true , Some ( $n ) => match $$d { None => true , Some ( $k ) => $$e } } } )`
//@sub `frame . output_size . $f . into ( )` => `frame . output_size . $f as usize`
//@sub `for ( $i , $c ) in frame . components . iter ( ) . enumerate ( ) {` => `for $i in 0 .. frame . components . len ( ) { let $c = & frame . components [ $i ] ;`
//@sub `if $$c { continue ; } $%b }` => `if ! ( $$c ) { $%b } }`
//@sub `let $q = match $$m { Some ( $r ) => $r , None => continue , } ; $%b }` => `if let Some ( $q ) = $$m { $%b } }`
//@sub `self . quantization_tables [ $$a ] . clone ( )` => `copy_table ( & self . quantization_tables [ $$a ] )`
//@sub `component . clone ( )` => `copy_component ( component )`
//@sub `let mut tasks = ( 0 .. $$n ) . map ( | $y | { $%b ( $i , $r ) } ) ;` => `let mut list : Vec < ( usize , Vec < i16 > ) > = Vec :: new ( ) ; for $y in 0 .. $$n { $%b list . push ( ( $i , $r ) ) ; } let mut tasks = iter_of ( list ) ;`
//@sub `self . coefficients [ $$a ] [ $$f .. $$t ] . to_vec ( )` => `copy_row ( & self . coefficients [ $$a ] , $$f , $$t )`
//@sub `usize :: from ( component . block_size . width )` => `component . block_size . width as usize`
//@sub `usize :: from ( component . vertical_sampling_factor )` => `component . vertical_sampling_factor as usize`
//@sub `usize :: from ( $y )` => `$y as usize`
/*@ #[verifier::rlimit(60)] @*/
fn decode_planes < W: Worker > (&mut self, worker: &mut W, mut planes: Vec < Vec < u8 >>, planes_u16: Vec < Vec < u16 >>,) -> /*@ (r: @*/ Result < Vec < u8 >> /*@ )
    requires old(self).inv(), old(self).frame is Some, planes_inv(old(self).frame, planes@, planes_u16@), old(worker).ok(), forall|i: int| 0 <= i < 4 ==> #[trigger] old(worker).idle(i)
    ensures *final(self) == *old(self), match r { Ok(o) => image_of(*old(self), planes@, planes_u16@, o@), Err(e) => image_refused(*old(self), planes@, planes_u16@) } @*/ {
    /*@ let ghost f = self.frame->0; let ghost p0 = planes@; let ghost n = f.components@.len() as int; proof { assert(f.components@.len() == n); covered(f); out_room(f); } @*/
    if self.frame.is_none() {
        return Err(Error::Format(error_text()));
    }
    let frame = self.frame.as_ref().unwrap();
    if (match frame.components.len().checked_mul(frame.output_size.width as usize) {
        None => true, Some(m) => match m.checked_mul(frame.output_size.height as usize) {
            None => true, Some(m) => match m.checked_mul(if frame.precision > 8 {
                2
            } else {
                1
            }) {
                None => true, Some(m) => self.decoding_buffer_size_limit < m
            }
        }
    }) {
        return Err(Error::Format(error_text()));
    }
    /*@ assert(out_len(f) <= self.decoding_buffer_size_limit); proof { assert forall|k: int| 0 <= k < n implies plane_fits(f, k, (#[trigger] p0[k]).len() as int) by { } } @*/
    if frame.coding_process == CodingProcess::DctProgressive && self.coefficients.len() == frame.components.len() {
        for i in /*@ it: @*/ 0..frame.components.len() /*@ invariant it.iter.end == n, *frame == f, n == f.components@.len(), *self == *old(self), self.frame == Some(f), self.inv(), f.coding_process == CodingProcess::DctProgressive, co_ok(f, self.coefficients@), self.coefficients@.len() == n, n <= 4, self.coefficients_finished@.len() == 4,
            worker.ok(), forall|j: int| 0 <= j < 4 ==> #[trigger] worker.idle(j), planes.len() == n, p0.len() == n, forall|k: int| 0 <= k < i ==> rendered(*self, f, k, p0[k], #[trigger] planes@[k]), forall|k: int| i <= k < n ==> #[trigger] planes@[k] == p0[k], forall|k: int| 0 <= k < n ==> plane_fits(f, k, (#[trigger] planes@[k]).len() as int) @*/ {
            /*@ proof { grid(f, i as int); assert(sane(f, i as int)); } let ghost w0 = *worker; let ghost c = f.components@[i as int]; let ghost before = planes@; @*/
            let component = &frame.components[i];
            if!(self.coefficients_finished[i] ==!0) {
                if let Some(quantization_table) = copy_table(&self.quantization_tables[component.quantization_table_index]) {
                    /*@ let ghost q = quantization_table@; @*/ let row_data = RowData {
                        index: i, component: copy_component(component), quantization_table,
                    };
                    worker.start(row_data)?;
                    /*@ proof { rows_room(f, i as int); } @*/
                    let coefficients_per_mcu_row = component.block_size.width as usize * component.vertical_sampling_factor as usize * 64;
                    /*@ let ghost co = self.coefficients@[i as int]@; let ghost m = row_blocks(c) * 64; proof { assert(coefficients_per_mcu_row == m); } @*/
                    let mut list: Vec<(usize, Vec<i16>)> = Vec::new();
                    for mcu_y in /*@ itm: @*/ 0..frame.mcu_size.height /*@ invariant itm.iter.end == f.mcu_size.height, *frame == f, *self == *old(self), i < n, n == self.coefficients@.len(), co == self.coefficients@[i as int]@, c == f.components@[i as int], coefficients_per_mcu_row == m, m == row_blocks(c) * 64, 0 <= m <= 0x4000_0000, list@.len() == mcu_y, f.mcu_size.height * m == co.len(),
                        forall|k: int| 0 <= k < mcu_y ==> (#[trigger] list@[k]).0 == i && list@[k].1@ == co.subrange(k * m, k * m + m) @*/ {
                        /*@ proof { assert(mcu_y * m + m <= f.mcu_size.height * m && 0 <= mcu_y * m <= 65535 * 0x4000_0000) by (nonlinear_arith) requires 0 <= mcu_y < f.mcu_size.height, f.mcu_size.height <= 65535, 0 <= m <= 0x4000_0000; } @*/
                        let offset = mcu_y as usize * coefficients_per_mcu_row;
                        let row_coefficients = copy_row(&self.coefficients[i], offset, offset + coefficients_per_mcu_row);
                        list.push((i, row_coefficients));
                    }
                    /*@ let ghost all = list@; proof { assert(task_rows(all) =~= co_rows(f, co, c)); assert forall|k: int| 0 <= k < all.len() implies (#[trigger] all[k]).0 == i && row_ok(c, all[k].1@) by { row_len(m, f.mcu_size.height as int, k); } task_none(Seq::empty(), Seq::empty()); assert(Seq::<Seq<i16>>::empty() + task_rows(all) =~= task_rows(all)); } @*/
                    let mut tasks = iter_of(list);
                    worker.append_rows(/*@ Ghost(i as int), Ghost(c), Ghost(q), Ghost(Seq::empty()), @*/ &mut tasks)?;
                    /*@ let ghost w2 = *worker; assert(worker.holds(i as int, c, q, co_rows(f, co, c))); @*/
                    planes[i] = worker.get_result(i)?;
                    /*@ proof { assert(rows_in(planes@[i as int]@, c, q, co_rows(f, co, c))); assert(rendered(*self, f, i as int, p0[i as int], planes@[i as int])); assert forall|j: int| 0 <= j < 4 implies #[trigger] worker.idle(j) by { assert(w0.idle(j)); } } @*/
                }
            }
        }
    }
    /*@ proof { assert(all_rendered(*self, f, p0, planes@)); } let ghost p1 = planes@; @*/
    if frame.coding_process == CodingProcess::Lossless {
        /*@ proof { full_size(f); assert(n == 1 || n == 3 || n == 4); assert forall|v: Seq<u8>| #[trigger] lossless_image(planes_u16@, n, f.image_size.height * f.image_size.width, f.precision as int, v) implies v.len() == out_len(f) by { wide_len(f, planes_u16@, v); } } @*/
        compute_image_lossless(frame, planes_u16)
    } else {
        /*@ proof { assert forall|k: int| 0 <= k < p1.len() implies (#[trigger] p1[k]).len() == 0 || plane_ok(p1[k]@, f.components@[k].size.width as int, f.components@[k].size.height as int, stride_of(f.components@[k])) by { assert(plane_fits(f, k, p1[k].len() as int)); if p1[k].len() > 0 { assert(plane_room(f.components@[k], p1[k].len() as int)); } }
            shown_all(*self, f, p0, p1, planes_u16@); assert(f.precision == 8);
            assert forall|v: Seq<u8>| v.len() == out_len(f) && n != 1 && #[trigger] image_done(p1, f.components@, f.output_size, self.transform(), v) implies image_of(*self, p0, planes_u16@, v) by { assert(shown(*self, f, p1, v)); }
            assert forall|v: Seq<u8>| v.len() == out_len(f) && n == 1 && #[trigger] grey_done(p1[0]@, f.output_size.width as int, f.output_size.height as int, stride_of(f.components@[0]), v) implies image_of(*self, p0, planes_u16@, v) by { assert(shown(*self, f, p1, v)); }
        } @*/
        compute_image(&frame.components, planes, frame.output_size, self.determine_color_transform(),)
    }
}
//@end
//@fn src/decoder.rs Decoder::decode_internal
//@rw errtext
//@sub `fn decode_internal (` => `fn decode_internal < W : Worker > (`
//@sub `worker_scope : & WorkerScope` => `worker : & mut W`
//@sub `worker_scope . get_or_init_worker ( $$p , | worker | { $%b } )` => `{ $%b }`
//@sub `vec ! [ Vec :: < u8 > :: new ( ) ; $$n ]` => `empty_planes ( $$n )`
//@sub `vec ! [ Vec :: < u16 > :: new ( ) ; $$n ]` => `empty_words ( $$n )`
//@sub `planes = vec ! [ Vec :: new ( ) ; $$n ]` => `planes = empty_planes ( $$n )`
//@sub `planes_u16 = vec ! [ Vec :: new ( ) ; $$n ]` => `planes_u16 = empty_words ( $$n )`
//@sub `self . frame . as_ref ( ) . map_or ( $$d , | $f | $$e )` => `match self . frame . as_ref ( ) { Some ( $f ) => $$e , None => $$d }`
//@sub `self . frame . as_ref ( ) . map ( | $f | $$e )` => `match self . frame . as_ref ( ) { Some ( $f ) => Some ( $$e ) , None => None }`
//@sub `self . frame . clone ( ) . unwrap ( )` => `frame_copy ( & self . frame )`
//@sub `self . $a . is_empty ( )` => `( self . $a . len ( ) == 0 )`
//@sub `$a . is_empty ( )` => `( $a . len ( ) == 0 )`
//@sub `! ( $$a ..= $$b ) . contains ( & $$e )` => `! ( $$a <= $$e && $$e <= $$b )`
//@sub `frame . components . iter ( ) . map ( | $c | { $%b } ) . collect ( )` => `{ let mut rows = Vec :: new ( ) ; for ix in 0 .. frame . components . len ( ) { let $c = & frame . components [ ix ] ; rows . push ( { $%b } ) ; } rows }`
//@sub `vec ! [ 0 ; $$n ]` => `zero_row ( $$n )`
//@sub `for ( $i , $p ) in $d . into_iter ( ) . enumerate ( ) . filter ( | ( _ , $q ) | $$e ) { $%b }` => `let mut items = $d ; for $i in 0 .. items . len ( ) { if { let $q = & items [ $i ] ; $$e } { let $p = take_item ( & mut items , $i ) ; $%b } }`
//@sub `for ( & $i , $f ) in scan . component_indices . iter ( ) . zip ( & mut finished ) { if $$c { continue ; } $%b }` => `for ix in 0 .. scan . component_indices . len ( ) { let $i = scan . component_indices [ ix ] ; if ! ( $$c ) { $%b } }`
//@sub `* component_finished =` => `finished [ ix ] =`
//@sub `scan . spectral_selection . clone ( )` => `copy_range ( & scan . spectral_selection )`
//@sub `for ( $i , & $c ) in $v . iter ( ) . enumerate ( ) {` => `for $i in 0 .. $v . len ( ) { let $c = $v [ $i ] ;`
//@sub `UNZIGZAG [ $$j ]` => `unzigzag ( $$j )`
//@sub `mem :: take ( $$a )` => `take_tables ( $$a )`
//@sub `$a . into_iter ( ) . zip ( $b ) . map ( | ( $x , $y ) | $$e ) . collect ( )` => `{ let mut left = $a ; let mut right = $b ; let mut out = Vec :: new ( ) ; for ix in 0 .. min2 ( left . len ( ) , right . len ( ) ) { let $x = take_table ( & mut left , ix ) ; let $y = take_table ( & mut right , ix ) ; out . push ( $$e ) ; } out }`
//@sub `$x . or ( $y )` => `match $x { Some ( t ) => Some ( t ) , None => $y }`
//@outline `Marker :: SOF ( .. ) => { $%body self . frame = Some ( frame ) ;` => `Marker :: SOF ( .. ) => { let component_count = self . on_frame ( marker ) ? ;` as `fn on_frame ( & mut self , marker : Marker ) -> Result < usize > { $%body self . frame = Some ( frame ) ; Ok ( component_count ) }`
//@outline `Marker :: SOS => { $%body scans_processed` => `Marker :: SOS => { self . on_scan ( worker , & mut planes , & mut planes_u16 , & mut pending_marker ) ? ; scans_processed` as `fn on_scan < W : Worker > ( & mut self , worker : & mut W , planes : & mut Vec < Vec < u8 >> , planes_u16 : & mut Vec < Vec < u16 >> , pending_marker : & mut Option < Marker > ) -> Result < ( ) > { $%body Ok ( ( ) ) }`
//@outline `if frame . coding_process == CodingProcess :: Lossless { $%body } else {` => `if frame . coding_process == CodingProcess :: Lossless { self . on_lossless_scan ( & frame , & scan , planes_u16 , pending_marker ) ? ; } else {` as `fn on_lossless_scan ( & mut self , frame : & FrameInfo , scan : & ScanInfo , planes_u16 : & mut Vec < Vec < u16 >> , pending_marker : & mut Option < Marker > ) -> Result < ( ) > { $%body Ok ( ( ) ) }`
//@outline `let mut finished = $$x ; $%body pending_marker = marker ;` => `self . on_dct_scan ( & frame , & scan , worker , planes , pending_marker ) ? ;` as `fn on_dct_scan < W : Worker > ( & mut self , frame : & FrameInfo , scan : & ScanInfo , worker : & mut W , planes : & mut Vec < Vec < u8 >> , pending_marker : & mut Option < Marker > ) -> Result < ( ) > { let mut finished = $$x ; $%body pending_marker = marker ; Ok ( ( ) ) }`
//@outline `if scan . successive_approximation_low == 0 { $%body }` => `if scan . successive_approximation_low == 0 { self . mark_finished ( scan , & mut finished ) ; }` as `fn mark_finished ( & mut self , scan : & ScanInfo , finished : & mut [ bool ; MAX_COMPONENTS ] ) { $%body }`
//@outline `Marker :: DQT => { $%body }` => `Marker :: DQT => { self . on_dqt ( ) ? ; }` as `fn on_dqt ( & mut self ) -> Result < ( ) > { $%body Ok ( ( ) ) }`
//@outline `Marker :: DHT => { $%body }` => `Marker :: DHT => { self . on_dht ( ) ? ; }` as `fn on_dht ( & mut self ) -> Result < ( ) > { $%body Ok ( ( ) ) }`
//@outline `Marker :: APP ( .. ) => { $%body }` => `Marker :: APP ( .. ) => { self . on_app ( marker ) ? ; }` as `fn on_app ( & mut self , marker : Marker ) -> Result < ( ) > { $%body Ok ( ( ) ) }`
//@sub `pending_marker = marker ;` => `* pending_marker = marker ;`
//@sub `decode_scan_lossless ( & frame , & scan )` => `decode_scan_lossless ( frame , scan )`
//@sub `decode_scan ( & frame , & scan ,` => `decode_scan ( frame , scan ,`
//@sub `select_worker ( & frame ,` => `select_worker ( frame ,`
/*@ #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(100)] #[verifier::spinoff_prover] @*/
fn decode_internal < W: Worker > (&mut self, stop_after_metadata: bool, worker: &mut W,) -> /*@ (r: @*/ Result < Vec < u8 >> /*@ )
    requires old(self).inv(), old(worker).ok(), forall|i: int| 0 <= i < 4 ==> #[trigger] old(worker).idle(i)
    ensures final(self).inv(), old(self).reader.reliable() ==> final(self).reader.reliable(),
        stop_after_metadata && old(self).frame is Some ==> r is Ok && *final(self) == *old(self), stop_after_metadata && r is Ok && old(self).frame is None ==> informs(*old(self), *final(self)),
        r matches Ok(o) ==> !stop_after_metadata ==> decodes(*old(self), *final(self), o@),
        r matches Err(e) ==> old(self).reader.reliable() ==> old(self).frame is None && !soi_first(old(self).reader.rest()) || fails_with(*old(self), *final(self), e) @*/ {
    /*@ hide(scan_taken); hide(scan_refused); hide(frame_inv); hide(sof_legal); hide(sof_frame); hide(dqt_of); hide(dht_of); hide(app_data); hide(merged); hide(installed); hide(image_of); hide(image_refused); hide(planes_inv); hide(co_ok); hide(frame_refused); hide(blank_planes); hide(ran); hide(step); hide(app_taken); hide(dqt_taken); hide(dht_taken); hide(frame_taken); hide(starts); hide(supported);
    hide(going); hide(tabs_wf); hide(next_marker); hide(image_done); hide(lossless_image); hide(ended); hide(informs); hide(decodes); hide(fails_with); hide(soi_first); hide(marker_of); let ghost o = *self; proof { no_soi(o.reader.rest()); } @*/
    if stop_after_metadata && self.frame.is_some() {
        return Ok(Vec::new());
    } else if self.frame.is_none() && (read_u8(&mut self.reader)? != 0xFF || Marker::from_u8(read_u8(&mut self.reader)?) != Some(Marker::SOI)) {
        return Err(Error::Format(error_text()));
    }
    let mut previous_marker = Marker::SOI;
    let mut pending_marker = None;
    let mut scans_processed = 0u32;
    let mut planes = empty_planes(match self.frame.as_ref() {
        Some(frame) => frame.components.len(), None => 0
    });
    let mut planes_u16 = empty_words(match self.frame.as_ref() {
        Some(frame) => frame.components.len(), None => 0
    });
    /*@ let ghost mut scans = 0int; let ghost mut tr = seq![first_state(*self, planes@, planes_u16@)];
    proof { reveal(blank_planes); if o.frame is None { read_soi(o.reader.rest(), o.reader.rest().skip(1), self.reader.rest()); } set_out(o, *self, planes@, planes_u16@); } @*/
    loop /*@
        invariant_except_break going(o, tr, Hs { d: *self, prev: previous_marker, pend: pending_marker, scans, planes: planes@, wide: planes_u16@ }), scans_processed == (if scans < 0xffff_ffff { scans } else { 0xffff_ffff }),
        invariant o == *old(self), worker.ok(), forall|i: int| 0 <= i < 4 ==> #[trigger] worker.idle(i), stop_after_metadata ==> self.frame is None && o.frame is None
        ensures self.inv(), o.reader.reliable() ==> self.reader.reliable(), planes_inv(self.frame, planes@, planes_u16@), ended(o, tr, *self), planes@ == tr.last().planes, planes_u16@ == tr.last().wide @*/
    {
        /*@ let ghost a = tr.last(); proof { going_is(o, tr, Hs { d: *self, prev: previous_marker, pend: pending_marker, scans, planes: planes@, wide: planes_u16@ }); } @*/
        let marker = match pending_marker.take() {
            Some(m) => m, None => self.read_marker()?,
        };
        /*@ let ghost t = self.reader.rest(); let ghost d1 = *self;
        proof { assert(next_of(a) == Some((marker, t))); assert(d1.same(&a.d)); on_marker(o, tr, marker, t); scan_lift(a, hs_at(d1, None, planes@, planes_u16@), t); } @*/
        match marker {
            Marker::SOF(..) => {
                /*@ assert(sof_kind(marker) is Some); @*/
                let component_count = self.on_frame(marker)?;
                if stop_after_metadata {
                    /*@ proof { frame_informs(o, tr, d1, marker, t, *self); } @*/
                    return Ok(Vec::new());
                }
                planes = empty_planes(component_count);
                planes_u16 = empty_words(component_count);
                /*@ proof { reveal(blank_planes); frame_step(a, d1, marker, t, Hs { d: *self, prev: marker, pend: None, scans, planes: planes@, wide: planes_u16@ }); } @*/
            }
            Marker::SOS => {
                self.on_scan(worker, &mut planes, &mut planes_u16, &mut pending_marker)?;
                scans_processed = scans_processed.saturating_add(1);
                /*@ proof { scans = scans + 1; scan_step(a, t, hs_at(*self, pending_marker, planes@, planes_u16@), Hs { d: *self, prev: marker, pend: pending_marker, scans, planes: planes@, wide: planes_u16@ }); } @*/
            }
            Marker::DQT => {
                self.on_dqt()?; /*@ proof { seg_step(a, d1, marker, t, *self); } @*/
            }
            Marker::DHT => {
                self.on_dht()?; /*@ proof { seg_step(a, d1, marker, t, *self); } @*/
            }
            Marker::DAC => {
                return Err(Error::Unsupported(UnsupportedFeature::ArithmeticEntropyCoding,))
            }
            Marker::DRI => self.restart_interval = parse_dri(&mut self.reader)?, Marker::COM => {
                let _comment = parse_com(&mut self.reader)?; /*@ proof { seg_step(a, d1, marker, t, *self); } @*/
            }
            Marker::APP(..) => {
                self.on_app(marker)?; /*@ proof { seg_step(a, d1, marker, t, *self); } @*/
            }
            Marker::RST(..) => {
                if previous_marker != Marker::SOS {
                    return Err(Error::Format(error_text()));
                }
                /*@ proof { seg_step(a, d1, marker, t, *self); } @*/
            }
            Marker::DNL => {
                if previous_marker != Marker::SOS || scans_processed != 1 {
                    return Err(Error::Format(error_text()));
                }
                return Err(Error::Unsupported(UnsupportedFeature::DNL));
            }
            Marker::DHP | Marker::EXP => {
                return Err(Error::Unsupported(UnsupportedFeature::Hierarchical))
            }
            Marker::EOI => /*@ { proof { assert(ended(o, tr, *self)) by { reveal(ended); } } @*/ break /*@ } @*/, _ => {
                return Err(Error::Format(error_text()))
            }
        }
        previous_marker = marker;
        /*@ proof { let b = Hs { d: *self, prev: marker, pend: pending_marker, scans, planes: planes@, wide: planes_u16@ };
            if marker == Marker::DRI { seg_step(a, d1, marker, t, *self); } assert(step(a, marker, t, b));
            keep_going(o, tr, a, marker, t, b); tr = tr.push(b); } @*/
    }
    /*@ proof { rest_of_it(o, tr, *self); } @*/
    if self.frame.is_none() {
        return Err(Error::Format(error_text()));
    }
    let frame = self.frame.as_ref().unwrap();
    let preference = Self::select_worker(frame, PreferWorkerKind::Multithreaded);
    {
        self.decode_planes(worker, planes, planes_u16)
    }
}
fn on_frame(&mut self, marker: Marker) -> /*@ (r: @*/ Result < usize > /*@ )
    requires old(self).inv(), sof_kind(marker) is Some
    ensures r is Err ==> final(self).same(old(self)), old(self).reader.reliable() ==> final(self).reader.reliable(), final(self).inv(),
        r matches Ok(n) ==> frame_taken(*old(self), marker, old(self).reader.rest(), *final(self)) && n == final(self).frame->0.components@.len(),
        r matches Err(e) ==> old(self).reader.reliable() ==> frame_refused(old(self).frame, marker, old(self).reader.rest(), e) @*/ {
    if self.frame.is_some() {
        return Err(Error::Unsupported(UnsupportedFeature::Hierarchical));
    }
    /*@ let ghost t = self.reader.rest(); let ghost d0 = *self; @*/
    let frame = parse_sof(&mut self.reader, marker)?;
    let component_count = frame.components.len();
    /*@ assert(self.same(&d0)); @*/
    if frame.is_differential {
        /*@ assert(refuses(frame, Error::Unsupported(UnsupportedFeature::Hierarchical))); @*/
        return Err(Error::Unsupported(UnsupportedFeature::Hierarchical));
    }
    if frame.entropy_coding == EntropyCoding::Arithmetic {
        /*@ assert(refuses(frame, Error::Unsupported(UnsupportedFeature::ArithmeticEntropyCoding))); @*/
        return Err(Error::Unsupported(UnsupportedFeature::ArithmeticEntropyCoding,));
    }
    if frame.precision != 8 && frame.coding_process != CodingProcess::Lossless {
        /*@ assert(refuses(frame, Error::Unsupported(UnsupportedFeature::SamplePrecision(frame.precision)))); @*/
        return Err(Error::Unsupported(UnsupportedFeature::SamplePrecision(frame.precision,)));
    }
    if!(2 <= frame.precision && frame.precision <= 16) {
        /*@ assert(refuses(frame, Error::Unsupported(UnsupportedFeature::SamplePrecision(frame.precision)))); @*/
        return Err(Error::Unsupported(UnsupportedFeature::SamplePrecision(frame.precision,)));
    }
    if component_count != 1 && component_count != 3 && component_count != 4 {
        /*@ assert(refuses(frame, Error::Unsupported(UnsupportedFeature::ComponentCount(component_count as u8)))); @*/
        return Err(Error::Unsupported(UnsupportedFeature::ComponentCount(component_count as u8,)));
    }
    /*@ proof { full_frame(marker, t, frame); covered(frame); let e = Error::Unsupported(UnsupportedFeature::NonIntegerSubsamplingRatio);
        if !ratios_supported(frame.components@, frame.image_size.width as int, frame.image_size.height as int) { assert(refuses(frame, e)); } } @*/
    let _ = Upsampler::new(&frame.components, frame.image_size.width, frame.image_size.height,)?;
    self.frame = Some(frame);
    Ok(component_count)
}
fn on_scan < W: Worker > (&mut self, worker: &mut W, planes: &mut Vec < Vec < u8 >>, planes_u16: &mut Vec < Vec < u16 >>, pending_marker: &mut Option < Marker >) -> /*@ (r: @*/ Result < () > /*@ )
    requires old(self).inv(), planes_inv(old(self).frame, old(planes)@, old(planes_u16)@), old(worker).ok(), forall|i: int| 0 <= i < 4 ==> #[trigger] old(worker).idle(i)
    ensures final(self).inv(), old(self).reader.reliable() ==> final(self).reader.reliable(),
        r is Ok ==> old(self).frame is Some && final(self).frame == old(self).frame && final(worker).ok() && (forall|i: int| 0 <= i < 4 ==> #[trigger] final(worker).idle(i)) && planes_inv(final(self).frame, final(planes)@, final(planes_u16)@) && real(*final(pending_marker))
            && scan_taken(hs_at(*old(self), None, old(planes)@, old(planes_u16)@), old(self).reader.rest(), hs_at(*final(self), *final(pending_marker), final(planes)@, final(planes_u16)@)),
        r matches Err(e) ==> old(self).reader.reliable() ==> if old(self).frame is None { is_format(e) } else { scan_refused(hs_at(*old(self), None, old(planes)@, old(planes_u16)@), old(self).reader.rest()) } @*/ {
    if self.frame.is_none() {
        return Err(Error::Format(error_text()));
    }
    /*@ let ghost s = self.reader.rest(); let ghost d0 = *self; let ghost a = hs_at(*self, None, planes@, planes_u16@); @*/
    let frame = frame_copy(&self.frame);
    let scan = parse_sos(&mut self.reader, &frame)?;
    /*@ let ghost t = self.reader.rest(); assert(self.same(&d0)); let ghost d1 = *self; assert(frame_inv(frame)); let ghost n = frame.components@.len(); @*/
    if frame.coding_process == CodingProcess::DctProgressive && (self.coefficients.len() == 0) {
        self.coefficients = {
            let mut rows /*@ : Vec<Vec<i16>> @*/ = Vec::new();
            for ix in 0..frame.components.len() /*@ invariant n == frame.components@.len(), frame_inv(frame), rows.len() == ix, forall|k: int| 0 <= k < ix ==> (#[trigger] rows@[k])@ == zeros(frame.components@[k].block_size.width * frame.components@[k].block_size.height * 64) @*/ {
                let c = &frame.components[ix];
                /*@ proof { grid(frame, ix as int); let (x, y) = (c.block_size.width as int, c.block_size.height as int); assert(0 <= x * y <= 8195 * 8195) by (nonlinear_arith) requires 0 <= x <= 8195, 0 <= y <= 8195; } @*/
                rows.push({
                    let block_count = c.block_size.width as usize * c.block_size.height as usize; zero_row(block_count * 64)
                });
            }
            rows
        };
    }
    /*@ let ghost c0 = self.coefficients@; let ghost a1 = hs_at(*self, None, planes@, planes_u16@);
    proof {
        assert(first_co(frame, d0.coefficients@, c0));
        if frame.coding_process == CodingProcess::DctProgressive && d0.coefficients@.len() == 0 { assert forall|k: int| 0 <= k < n implies (#[trigger] c0[k]).len() == frame.components@[k].block_size.width * frame.components@[k].block_size.height * 64 by { grid(frame, k); assert(c0[k]@.len() == zeros(frame.components@[k].block_size.width * frame.components@[k].block_size.height * 64).len()); assert(frame.components@[k].block_size.width * frame.components@[k].block_size.height >= 0) by (nonlinear_arith) requires frame.components@[k].block_size.width >= 0, frame.components@[k].block_size.height >= 0; } }
        assert(frame.coding_process == CodingProcess::DctProgressive ==> co_ok(frame, c0));
        assert(self.inv());
        assert(frame.coding_process != CodingProcess::DctProgressive ==> self.coefficients == d0.coefficients);
        assert(frame.coding_process == CodingProcess::Lossless ==> a1.d.same(&d0));
    } @*/
    if frame.coding_process == CodingProcess::Lossless {
        /*@ proof { lossless_lift(a, a1, frame, s, scan); } @*/
        self.on_lossless_scan(&frame, &scan, planes_u16, pending_marker)?;
        /*@ proof { let b = hs_at(*self, *pending_marker, planes@, planes_u16@); assert(scan_with(a, frame, s, scan, b)); } @*/
    } else {
        /*@ proof { dct_lift(a, a1, frame, s, scan); assert(t == behind_seg(s)); assert(self.reader.rest() == t); assert(d0.reader.reliable() ==> self.reader.reliable()); assert(a1 == hs_at(*self, None, planes@, planes_u16@));
            assert forall|d: Decoder<R>| #[trigger] dct_fails(a1, frame, t, scan, d, c0) implies scan_refused(a, s) by { assert(scan_breaks(a, frame, s, scan)); } } @*/
        self.on_dct_scan(&frame, &scan, worker, planes, pending_marker)?;
        /*@ proof { let b = hs_at(*self, *pending_marker, planes@, planes_u16@); assert(scan_with(a, frame, s, scan, b)); } @*/
    }
    Ok(())
}
fn on_lossless_scan(&mut self, frame: &FrameInfo, scan: &ScanInfo, planes_u16: &mut Vec < Vec < u16 >>, pending_marker: &mut Option < Marker >) -> /*@ (r: @*/ Result < () > /*@ )
    requires old(self).inv(), old(self).frame == Some(*frame), scan_ok(*frame, *scan), frame.coding_process == CodingProcess::Lossless, old(planes_u16).len() == frame.components@.len()
    ensures final(self).same(old(self)), r is Ok ==> final(planes_u16).len() == old(planes_u16).len() && real(*final(pending_marker)) && forall|k: int| 0 <= k < final(planes_u16).len() ==> #[trigger] final(planes_u16)@[k] == old(planes_u16)@[k] || final(planes_u16)@[k].len() == frame.image_size.height * frame.image_size.width,
        r is Ok ==> forall|p: Seq<Vec<u8>>| lossless_some(hs_at(*old(self), None, p, old(planes_u16)@), *frame, old(self).reader.rest(), *scan, #[trigger] hs_at(*final(self), *final(pending_marker), p, final(planes_u16)@)),
        r is Err && old(self).reader.reliable() ==> forall|p: Seq<Vec<u8>>| lossless_fails(#[trigger] hs_at(*old(self), None, p, old(planes_u16)@), *frame, old(self).reader.rest(), *scan) @*/ {
    /*@ let ghost d0 = *self; let ghost w0 = planes_u16@; let ghost t = self.reader.rest(); let ghost n = frame.components@.len(); @*/
    let(marker, data) = self.decode_scan_lossless(frame, scan)?;
    let mut items = data;
    /*@ let ghost o = items@; let ghost ci = scan.component_indices@; let ghost px = frame.image_size.height * frame.image_size.width;
    proof { assert(self.same(&d0)); let ts = tables_of(d0.dc_huffman_tables@, scan.dc_table_indices@); let r = d0.restart_interval as int;
        let (tr, ds, xs) = choose|tr: Seq<Seq<St>>, ds: Seq<Vec<i32>>, xs: Seq<Seq<u16>>| #[trigger] lossless_done(*frame, *scan, ts, r, begin(t), tr, ds, xs, o, d0.reader.reliable(), marker, self.reader.rest());
        assert(px >= 1) by (nonlinear_arith) requires frame.image_size.height >= 1, frame.image_size.width >= 1, px == frame.image_size.height * frame.image_size.width;
        assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).len() == px by { assert(xs[i].len() == px); }
        assert(o.len() == ci.len());
        ends_real(ts, r, begin(t), tr, ds, px, d0.reader.reliable(), marker, self.reader.rest(), d0.dc_huffman_tables@, scan.dc_table_indices@);
    } @*/
    for i in /*@ it: @*/ 0..items.len() /*@ invariant it.iter.end == o.len(), items.len() == o.len(), o.len() == ci.len(), ci == scan.component_indices@, scan_ok(*frame, *scan), n == frame.components@.len(), planes_u16.len() == n, w0.len() == n, px >= 1,
        forall|k: int| 0 <= k < o.len() ==> (#[trigger] o[k]).len() == px, forall|k: int| i <= k < o.len() ==> #[trigger] items@[k] == o[k],
        forall|j: int| 0 <= j < i ==> planes_u16@[#[trigger] ci[j] as int] == o[j], forall|k: int| 0 <= k < n && (forall|j: int| 0 <= j < i ==> #[trigger] ci[j] != k) ==> #[trigger] planes_u16@[k] == w0[k] @*/ {
        if {
            let plane = &items[i];
            !(plane.len() == 0)
        }
        {
            let plane = take_item(&mut items, i);
            planes_u16[scan.component_indices[i]] = plane;
        }
    }
    * pending_marker = marker;
    /*@ proof {
        assert forall|p: Seq<Vec<u8>>| lossless_some(hs_at(d0, None, p, w0), *frame, t, *scan, #[trigger] hs_at(*self, *pending_marker, p, planes_u16@)) by { assert(lossless_planes(hs_at(d0, None, p, w0), *frame, t, *scan, hs_at(*self, *pending_marker, p, planes_u16@), o, d0.reader.reliable())); }
        assert forall|k: int| 0 <= k < planes_u16.len() implies #[trigger] planes_u16@[k] == w0[k] || planes_u16@[k].len() == px by { if exists|j: int| 0 <= j < ci.len() && #[trigger] ci[j] == k { let j = choose|j: int| 0 <= j < ci.len() && #[trigger] ci[j] == k; assert(planes_u16@[ci[j] as int] == o[j]); } }
    } @*/
    Ok(())
}
fn on_dct_scan < W: Worker > (&mut self, frame: &FrameInfo, scan: &ScanInfo, worker: &mut W, planes: &mut Vec < Vec < u8 >>, pending_marker: &mut Option < Marker >) -> /*@ (r: @*/ Result < () > /*@ )
    requires old(self).inv(), old(self).frame == Some(*frame), scan_ok(*frame, *scan), frame.coding_process != CodingProcess::Lossless, frame.coding_process == CodingProcess::DctProgressive ==> co_ok(*frame, old(self).coefficients@),
        old(planes).len() == frame.components@.len(), old(worker).ok(), forall|i: int| 0 <= i < 4 ==> #[trigger] old(worker).idle(i)
    ensures final(self).inv(), old(self).reader.reliable() ==> final(self).reader.reliable(), final(self).frame == old(self).frame,
        r is Ok ==> final(worker).ok() && (forall|i: int| 0 <= i < 4 ==> #[trigger] final(worker).idle(i)) && real(*final(pending_marker)),
        r is Ok ==> final(planes).len() == old(planes).len() && forall|k: int| 0 <= k < final(planes).len() ==> #[trigger] final(planes)@[k] == old(planes)@[k] || plane_fits(*frame, k, final(planes)@[k].len() as int),
        r is Ok ==> forall|w: Seq<Vec<u16>>| dct_all(hs_at(*old(self), None, old(planes)@, w), *frame, old(self).reader.rest(), *scan, #[trigger] hs_at(*final(self), *final(pending_marker), final(planes)@, w)),
        r is Err && old(self).reader.reliable() ==> forall|w: Seq<Vec<u16>>| dct_fails(#[trigger] hs_at(*old(self), None, old(planes)@, w), *frame, old(self).reader.rest(), *scan, *final(self), old(self).coefficients@) @*/ {
    let mut finished = [false; MAX_COMPONENTS];
    /*@ let ghost d0 = *self; let ghost p0 = planes@; let ghost t = self.reader.rest(); let ghost n = frame.components@.len(); let ghost ci = scan.component_indices@; let ghost c0 = self.coefficients@; @*/
    if scan.successive_approximation_low == 0 {
        self.mark_finished(scan, &mut finished);
    }
    /*@ let ghost d1 = *self; proof { assert(finished@ =~= now_done(*scan, d0.coefficients_finished@, d1.coefficients_finished@)); assert(finished_after(*scan, d0.coefficients_finished@, d1.coefficients_finished@)); } @*/
    let preference = Self::select_worker(frame, PreferWorkerKind::Multithreaded);
    let(marker, data) = {
        self.decode_scan(frame, scan, worker, &finished)
    }?;
    /*@ let ghost got = data; let ghost p = self.plan(*frame, *scan, finished@);
    proof {
        sent_real(p, t, d1.reader.reliable(), marker, self.reader.rest(), c0, self.coefficients@, self.quantization_tables@, n as int, data, *frame, *scan, self.dc_huffman_tables@, self.ac_huffman_tables@, self.restart_interval as int, finished@);
    } @*/
    if let Some(data) = data {
        let mut items = data;
        /*@ let ghost o = items@; @*/
        for i in /*@ it: @*/ 0..items.len() /*@ invariant it.iter.end == o.len(), items.len() == o.len(), o.len() == n, planes.len() == n, p0.len() == n, n <= 4, self.coefficients_finished == d1.coefficients_finished, got is Some, got->0@ == o,
            forall|k: int| i <= k < n ==> #[trigger] items@[k] == o[k],
            forall|k: int| 0 <= k < i ==> plane_after(got, k, self.coefficients_finished@[k] == !0u64, p0[k], #[trigger] planes@[k]), forall|k: int| i <= k < n ==> #[trigger] planes@[k] == p0[k] @*/ {
            if {
                let plane = &items[i];
                !(plane.len() == 0)
            }
            {
                let plane = take_item(&mut items, i);
                if self.coefficients_finished[i] ==!0 {
                    planes[i] = plane;
                }
            }
        }
    }
    * pending_marker = marker;
    /*@ proof {
        assert forall|k: int| 0 <= k < n implies plane_after(got, k, self.coefficients_finished@[k] == !0u64, p0[k], #[trigger] planes@[k]) by {}
        assert forall|w: Seq<Vec<u16>>| dct_all(hs_at(d0, None, p0, w), *frame, t, *scan, #[trigger] hs_at(*self, *pending_marker, planes@, w)) by {
            assert(dct_planes(hs_at(d0, None, p0, w), *frame, t, *scan, hs_at(*self, *pending_marker, planes@, w), got, d1.reader.reliable(), c0)); }
    } @*/
    Ok(())
}
fn mark_finished(&mut self, scan: &ScanInfo, finished: &mut[bool; MAX_COMPONENTS]) /*@
    requires old(self).frame matches Some(f) && f.components@.len() <= 4 && scan_ok(f, *scan), scan.successive_approximation_low == 0, forall|i: int| 0 <= i < 4 ==> !(#[trigger] old(finished)@[i]), scan.spectral_selection.start < scan.spectral_selection.end <= 64
    ensures *final(self) == (Decoder { coefficients_finished: final(self).coefficients_finished, ..*old(self) }), finished_after(*scan, old(self).coefficients_finished@, final(self).coefficients_finished@),
        final(finished)@ =~= now_done(*scan, old(self).coefficients_finished@, final(self).coefficients_finished@) @*/ {
    /*@ let ghost d0 = *self; let ghost x0 = self.coefficients_finished@; let ghost ci = scan.component_indices@; let ghost (s, e) = (scan.spectral_selection.start as int, scan.spectral_selection.end as int); @*/
    for ix in 0..scan.component_indices.len() /*@ invariant ci == scan.component_indices@, s == scan.spectral_selection.start, e == scan.spectral_selection.end, 0 <= s < e <= 64, d0.frame matches Some(f) && f.components@.len() <= 4 && scan_ok(f, *scan), x0 == d0.coefficients_finished@,
        *self == (Decoder { coefficients_finished: self.coefficients_finished, ..d0 }),
        forall|j: int| 0 <= j < ix ==> bits_set(x0[#[trigger] ci[j] as int], self.coefficients_finished@[ci[j] as int], s, e),
        forall|j: int| 0 <= j < ix ==> finished@[j] == (x0[#[trigger] ci[j] as int] != !0u64 && self.coefficients_finished@[ci[j] as int] == !0u64), forall|j: int| ix <= j < 4 ==> !(#[trigger] finished@[j]),
        forall|k: int| 0 <= k < 4 && (forall|j: int| 0 <= j < ix ==> #[trigger] ci[j] != k) ==> #[trigger] self.coefficients_finished@[k] == x0[k] @*/ {
        let i = scan.component_indices[ix];
        /*@ assert(self.coefficients_finished@[i as int] == x0[i as int]); let ghost x = x0[i as int]; let ghost y0 = self.coefficients_finished@; @*/
        if!(self.coefficients_finished[i] ==!0) {
            for j in copy_range(&scan.spectral_selection) /*@ invariant i < 4, 0 <= s < e <= 64, s == scan.spectral_selection.start, e == scan.spectral_selection.end, y0.len() == 4, x == y0[i as int], *self == (Decoder { coefficients_finished: self.coefficients_finished, ..d0 }), forall|k: int| 0 <= k < 4 && k != i ==> #[trigger] self.coefficients_finished@[k] == y0[k],
                forall|k: int| 0 <= k < 64 ==> #[trigger] bit(self.coefficients_finished@[i as int], k) == (bit(x, k) || s <= k < j) @*/ {
                /*@ proof { bit_or(self.coefficients_finished@[i as int], j as u64); } @*/
                self.coefficients_finished[i] |= 1 << j;
            }
            if self.coefficients_finished[i] ==!0 {
                finished[ix] = true;
            }
        } /*@ else { proof { assert forall|k: int| 0 <= k < 64 implies #[trigger] bit(x, k) by { bit_all(x, k); } } } @*/
    }
    /*@ proof { assert forall|i: int| 0 <= i < 4 implies finished@[i] == #[trigger] now_done(*scan, x0, self.coefficients_finished@)[i] by { if i < ci.len() { assert(ci[i] == scan.component_indices@[i]); } } } @*/
}
fn on_dqt(&mut self) -> /*@ (r: @*/ Result < () > /*@ )
    ensures r is Ok ==> dqt_taken(*old(self), old(self).reader.rest(), *final(self)), r is Err ==> final(self).same(old(self)), old(self).reader.reliable() ==> final(self).reader.reliable(),
        r is Err && old(self).reader.reliable() ==> dqt_of(old(self).reader.rest()) is None @*/ {
    /*@ let ghost t = self.reader.rest(); let ghost d0 = *self; let ghost q0 = self.quantization_tables@; @*/
    let tables = parse_dqt(&mut self.reader)?;
    /*@ let ghost v = tview(tables@); let ghost rd = self.reader; proof { unzigzag_table(); zz_inj(); } @*/
    for i in 0..tables.len() /*@ invariant tables.len() == 4, q0 == d0.quantization_tables@, *self == (Decoder { reader: rd, quantization_tables: self.quantization_tables, ..d0 }),
        forall|k: int| 0 <= k < i ==> installed(tview(tables@)[k], q0[k], #[trigger] self.quantization_tables@[k]), forall|k: int| i <= k < 4 ==> #[trigger] self.quantization_tables@[k] == q0[k] @*/ {
        let table = tables[i];
        if let Some(table) = table {
            let mut unzigzagged_table = [0u16; 64];
            for j in 0..64 /*@ invariant forall|k: int| 0 <= k < j ==> unzigzagged_table@[#[trigger] zz(k)] == table@[k] @*/ {
                /*@ proof { zz_inj(); } @*/
                unzigzagged_table[unzigzag(j) as usize] = table[j];
            }
            self.quantization_tables[i] = Some(Arc::new(unzigzagged_table));
        }
    }
    Ok(())
}
fn on_dht(&mut self) -> /*@ (r: @*/ Result < () > /*@ )
    requires old(self).tables_ok()
    ensures final(self).tables_ok(), r is Ok ==> dht_taken(*old(self), old(self).reader.rest(), *final(self)), r is Err ==> final(self).same(old(self)), old(self).reader.reliable() ==> final(self).reader.reliable(),
        r is Err && old(self).reader.reliable() ==> dht_of(old(self).reader.rest(), old(self).base()) is None @*/ {
    /*@ let ghost d0 = *self; @*/
    let is_baseline = match self.frame.as_ref() {
        Some(frame) => Some(frame.is_baseline), None => None
    };
    let(dc_tables, ac_tables) = parse_dht(&mut self.reader, is_baseline)?;
    let current_dc_tables = take_tables(&mut self.dc_huffman_tables);
    self.dc_huffman_tables = {
        let mut left = dc_tables;
        let mut right = current_dc_tables;
        let mut out /*@ : Vec<Option<HuffmanTable>> @*/ = Vec::new();
        for ix in /*@ it: @*/ 0..min2(left.len(), right.len()) /*@ invariant it.iter.end == 4, ix <= 4, left.len() == 4, right.len() == 4, joined(dc_tables@, d0.dc_huffman_tables@, out@, ix as int), forall|k: int| ix <= k < 4 ==> #[trigger] left@[k] == dc_tables@[k], forall|k: int| ix <= k < 4 ==> #[trigger] right@[k] == d0.dc_huffman_tables@[k] @*/ {
            let a = take_table(&mut left, ix);
            let b = take_table(&mut right, ix);
            out.push(match a {
                Some(t) => Some(t), None => b
            });
        }
        out
    };
    let current_ac_tables = take_tables(&mut self.ac_huffman_tables);
    self.ac_huffman_tables = {
        let mut left = ac_tables;
        let mut right = current_ac_tables;
        let mut out /*@ : Vec<Option<HuffmanTable>> @*/ = Vec::new();
        for ix in /*@ it: @*/ 0..min2(left.len(), right.len()) /*@ invariant it.iter.end == 4, ix <= 4, left.len() == 4, right.len() == 4, joined(ac_tables@, d0.ac_huffman_tables@, out@, ix as int), forall|k: int| ix <= k < 4 ==> #[trigger] left@[k] == ac_tables@[k], forall|k: int| ix <= k < 4 ==> #[trigger] right@[k] == d0.ac_huffman_tables@[k] @*/ {
            let a = take_table(&mut left, ix);
            let b = take_table(&mut right, ix);
            out.push(match a {
                Some(t) => Some(t), None => b
            });
        }
        out
    };
    /*@ proof { joined_all(dc_tables@, d0.dc_huffman_tables@, self.dc_huffman_tables@); joined_all(ac_tables@, d0.ac_huffman_tables@, self.ac_huffman_tables@); } @*/
    Ok(())
}
fn on_app(&mut self, marker: Marker) -> /*@ (r: @*/ Result < () > /*@ )
    requires has_len(marker)
    ensures r is Ok ==> app_taken(*old(self), marker, old(self).reader.rest(), *final(self)), r is Err ==> final(self).same(old(self)), old(self).reader.reliable() ==> final(self).reader.reliable(),
        r is Err && old(self).reader.reliable() ==> !app_ok(marker, old(self).reader.rest()) @*/ {
    /*@ let ghost d0 = *self; let ghost mut kept_data: Option<AppData> = None; let ghost t = self.reader.rest(); @*/
    if let Some(data) = parse_app(&mut self.reader, marker)? {
        /*@ proof { kept_data = Some(data); } @*/
        match data {
            AppData::Adobe(color_transform) => {
                self.adobe_color_transform = Some(color_transform)
            }
            AppData::Jfif => {
                self.is_jfif = true;
            }
            AppData::Avi1 => self.is_mjpeg = true, AppData::Icc(icc) => self.icc_markers.push(icc), AppData::Exif (data) => self.exif_data = Some(data), AppData::Xmp(data) => self.xmp_data = Some(data), AppData::Psir(data) => self.psir_data = Some(data),
        }
    }
    /*@ assert(app_data(marker, payload(t), kept_data)); assert(kept(d0, kept_data, *self)); @*/
    Ok(())
}
//@end
}
// ---- what users call ------------------------------------------------------------------------------------------------
/// the worker of a worker scope: one of the three workers of src/worker, each of which keeps the contract of the trait (unit worker, unit wrayon)
pub struct AnyWorker { pub opaque: u8 }
impl Worker for AnyWorker {
    uninterp spec fn holds(&self, i: int, c: Component, q: Seq<u16>, rows: Seq<Seq<i16>>) -> bool;
    uninterp spec fn idle(&self, i: int) -> bool;
    uninterp spec fn ok(&self) -> bool;
    #[verifier::external_body]
    fn start(&mut self, row_data: RowData) -> Result<()> { unimplemented!() }
    #[verifier::external_body]
    fn append_row(&mut self, row: (usize, Vec<i16>)) -> Result<()> { unimplemented!() }
    #[verifier::external_body]
    fn get_result(&mut self, index: usize) -> Result<Vec<u8>> { unimplemented!() }
}
/// WorkerScope::default() and the worker it makes
#[verifier::external_body]
pub fn new_worker() -> (r: AnyWorker) ensures r.ok(), forall|i: int| 0 <= i < 4 ==> #[trigger] r.idle(i) { unimplemented!() }
/// the number of eighths: the smallest of 1, 2, 4 whose result reaches the request in one axis, else 8
pub open spec fn reaches(full: Dimensions, req: Dimensions, s: int) -> bool { cdiv(full.width * s, 8) >= req.width || cdiv(full.height * s, 8) >= req.height }
pub open spec fn eighths(full: Dimensions, req: Dimensions) -> int { if reaches(full, req, 1) { 1 } else if reaches(full, req, 2) { 2 } else if reaches(full, req, 4) { 4 } else { 8 } }
//@fn src/idct.rs choose_idct_size
//@outline `fn scaled ( len : u16 , scale : usize ) -> u16 { $%body }` => `` as `fn scaled ( len : u16 , scale : usize ) -> u16 { $%body }`
//@sub `scaled (` => `eighth (`
//@sub `for & $s in & [ $$l ] {` => `let choices = [ $$l ] ; for ix in 0 .. choices . len ( ) { let $s = choices [ ix ] ;`
pub(crate) fn choose_idct_size(full_size: Dimensions, requested_size: Dimensions) -> /*@ (r: @*/ usize /*@ ) requires full_size.width >= 1, full_size.height >= 1 ensures r == eighths(full_size, requested_size) @*/ {
    let choices = [1, 2, 4];
    for ix in /*@ it: @*/ 0..choices.len() /*@ invariant it.iter.end == 3, choices@ == seq![1usize, 2, 4], full_size.width >= 1, full_size.height >= 1, forall|k: int| 0 <= k < ix ==> !reaches(full_size, requested_size, #[trigger] choices@[k] as int) @*/ {
        /*@ assert(choices@[0] == 1 && choices@[1] == 2 && choices@[2] == 4); @*/
        let scale = choices[ix];
        if eighth(full_size.width, scale) >= requested_size.width || eighth(full_size.height, scale) >= requested_size.height {
            return scale;
        }
    }
    /*@ assert(choices@[0] == 1 && choices@[1] == 2 && choices@[2] == 4); @*/
    8
}
fn eighth(len: u16, scale: usize) -> /*@ (r: @*/ u16 /*@ ) requires len >= 1, 1 <= scale <= 8 ensures r == cdiv(len * scale, 8) @*/ {
    /*@ proof { assert(1 <= len * scale <= 65535 * 8) by (nonlinear_arith) requires 1 <= len <= 65535, 1 <= scale <= 8; cdiv_is(len * scale, 8, (len * scale - 1) / 8 + 1); } @*/
    ((len as u32 * scale as u32 - 1) / 8 + 1) as u16
}
//@end
//@item src/decoder.rs PixelFormat
pub enum PixelFormat {
    L8,
    L16,
    RGB24,
    CMYK32,
}
//@end
//@item src/decoder.rs ImageInfo
pub struct ImageInfo {
    pub width: u16,
    pub height: u16,
    pub pixel_format: PixelFormat,
    pub coding_process: CodingProcess,
}
//@end
pub open spec fn bytes_in(p: PixelFormat) -> int { match p { PixelFormat::L8 => 1, PixelFormat::L16 => 2, PixelFormat::RGB24 => 3, PixelFormat::CMYK32 => 4 } }
impl PixelFormat {
//@fn src/decoder.rs PixelFormat::pixel_bytes
pub fn pixel_bytes(&self) -> /*@ (r: @*/ usize /*@ ) ensures r == bytes_in(*self) @*/ {
    match self {
        PixelFormat::L8 => 1, PixelFormat::L16 => 2, PixelFormat::RGB24 => 3, PixelFormat::CMYK32 => 4,
    }
}
//@end
}
/// what info tells about a frame
pub open spec fn format_of(f: FrameInfo) -> PixelFormat { if f.components@.len() == 1 { if f.precision <= 8 { PixelFormat::L8 } else { PixelFormat::L16 } } else if f.components@.len() == 3 { PixelFormat::RGB24 } else { PixelFormat::CMYK32 } }
pub open spec fn info_of(f: FrameInfo) -> ImageInfo { ImageInfo { width: f.output_size.width, height: f.output_size.height, pixel_format: format_of(f), coding_process: f.coding_process } }
/// the format reported has the depth of the samples (not so for lossless images of several components of more than 8 bits: known finding)
pub open spec fn depth_told(f: FrameInfo) -> bool { f.components@.len() == 1 || f.precision <= 8 }
/// the image has the size that is reported
pub open spec fn sized(f: FrameInfo, o: Seq<u8>) -> bool { o.len() == f.output_size.width * f.output_size.height * bytes_in(info_of(f).pixel_format) }
pub proof fn told<R: Read>(d: Decoder<R>, planes: Seq<Vec<u8>>, wide: Seq<Vec<u16>>, o: Seq<u8>) requires d.inv(), image_of(d, planes, wide, o) ensures d.frame matches Some(f) && o.len() <= d.decoding_buffer_size_limit && (depth_told(f) ==> sized(f, o))
{
    let f = d.frame->0; let (n, w, h) = (f.components@.len() as int, f.output_size.width as int, f.output_size.height as int); out_room(f); let b = bytes_in(info_of(f).pixel_format);
    if depth_told(f) { assert(n * depth(f) == b); assert(n * w * h * depth(f) == w * h * b) by (nonlinear_arith) requires n * depth(f) == b; }
}
pub proof fn told_all<R: Read>(o: Decoder<R>, z: Decoder<R>, v: Seq<u8>) requires z.inv(), decodes(o, z, v) ensures z.frame matches Some(f) && v.len() <= z.decoding_buffer_size_limit && (depth_told(f) ==> sized(f, v))
{ let tr = choose|tr: Seq<Hs<R>>| #[trigger] decoded(o, tr, z, v); told(z, tr.last().planes, tr.last().wide, v); }
pub open spec fn scale_for(f: FrameInfo, req: Dimensions) -> int { if f.coding_process == CodingProcess::Lossless { 8 } else { eighths(f.image_size, req) } }
/// the frame header has been read
pub open spec fn opened<R: Read>(o: Decoder<R>, d: Decoder<R>) -> bool { if o.frame is Some { d == o } else { informs(o, d) } }
/// a frame at another scale
pub open spec fn rescaled(a: FrameInfo, b: FrameInfo, s: int) -> bool {
    b == (FrameInfo { components: b.components, output_size: b.output_size, ..a }) && b.output_size.width == cdiv(a.image_size.width * s, 8) && b.output_size.height == cdiv(a.image_size.height * s, 8)
    && b.components@.len() == a.components@.len() && forall|i: int| 0 <= i < a.components@.len() ==> same_coding(#[trigger] b.components@[i], Component { dct_scale: s as usize, ..a.components@[i] })
}
/// the frame stays in order at another scale
pub proof fn rescaled_inv(a: FrameInfo, b: FrameInfo, s: int, co: Seq<Vec<i16>>)
    requires frame_inv(a), rescaled(a, b, s), scale_ok(s), geom(a.image_size, b.components@, a.mcu_size), a.coding_process == CodingProcess::Lossless ==> s == 8
    ensures frame_inv(b), co_ok(a, co) ==> co_ok(b, co)
{
    let (x, y) = (a.components@, b.components@); let n = x.len() as int; let (w, h) = (a.image_size.width as int, a.image_size.height as int);
    assert forall|i: int| 0 <= i < n implies factors_ok(#[trigger] y[i]) && same_factors(x[i], y[i]) && y[i].dct_scale == s && y[i].quantization_table_index == x[i].quantization_table_index && y[i].identifier == x[i].identifier by { assert(factors_ok(x[i])); assert(same_coding(y[i], Component { dct_scale: s as usize, ..x[i] })); }
    assert forall|i: int| 0 <= i < n implies same_factors(#[trigger] x[i], y[i]) by { assert(factors_ok(y[i])); }
    max_same(x, y, n);
    assert forall|i: int| 0 <= i < n implies (#[trigger] kind_of(y, i, w, h)) is Some by { assert(kind_of(x, i, w, h) is Some); assert(same_factors(x[i], y[i])); }
    assert forall|i: int| 0 <= i < n implies y[i].block_size == x[i].block_size by { assert(comp_geom(a.image_size, hmax(x, n), vmax(x, n), x[i])); assert(comp_geom(a.image_size, hmax(y, n), vmax(y, n), y[i])); assert(same_factors(x[i], y[i])); }
}
impl<R: Read> Decoder<R> {
//@fn src/decoder.rs Decoder::new
//@sub `vec ! [ None , None , None , None ]` => `four_none ( )`
pub fn new(reader: R) -> /*@ (r: @*/ Decoder < R > /*@ ) ensures r.inv(), r.reader == reader, r.frame is None, r.color_transform is None, r.adobe_color_transform is None, !r.is_jfif, r.icc_markers@.len() == 0, r.exif_data is None, r.xmp_data is None, r.restart_interval == 0, r.decoding_buffer_size_limit == usize::MAX,
    forall|i: int| 0 <= i < 4 ==> (#[trigger] r.quantization_tables@[i]) is None && r.dc_huffman_tables@[i] is None && r.ac_huffman_tables@[i] is None @*/ {
    Decoder {
        reader, frame: None, dc_huffman_tables: four_none(), ac_huffman_tables: four_none(), quantization_tables:[None, None, None, None], restart_interval: 0, adobe_color_transform: None, color_transform: None, is_jfif: false, is_mjpeg: false, icc_markers: Vec::new(), exif_data: None, xmp_data: None, psir_data: None, coefficients: Vec::new(), coefficients_finished:[0; MAX_COMPONENTS], decoding_buffer_size_limit: usize::MAX,
    }
}
//@end
//@fn src/decoder.rs Decoder::set_color_transform
pub fn set_color_transform(&mut self, transform: ColorTransform) /*@ requires old(self).inv() ensures final(self).inv(), *final(self) == (Decoder { color_transform: Some(transform), ..*old(self) }) @*/ {
    self.color_transform = Some(transform);
}
//@end
//@fn src/decoder.rs Decoder::set_max_decoding_buffer_size
pub fn set_max_decoding_buffer_size(&mut self, max: usize) /*@ requires old(self).inv() ensures final(self).inv(), *final(self) == (Decoder { decoding_buffer_size_limit: max, ..*old(self) }) @*/ {
    self.decoding_buffer_size_limit = max;
}
//@end
//@fn src/decoder.rs Decoder::info
//@sub `panic ! ( )` => `never ( )`
pub fn info(&self) -> /*@ (r: @*/ Option < ImageInfo > /*@ ) requires self.inv() ensures r == match self.frame { None => None, Some(f) => Some(info_of(f)) } @*/ {
    match self.frame {
        Some(ref frame) => {
            let pixel_format = match frame.components.len() {
                1 => match frame.precision {
                    2..=8 => PixelFormat::L8, 9..=16 => PixelFormat::L16, _ => never(),
                }, 3 => PixelFormat::RGB24, 4 => PixelFormat::CMYK32, _ => never(),
            };
            Some(ImageInfo {
                width: frame.output_size.width, height: frame.output_size.height, pixel_format, coding_process: frame.coding_process,
            })
        }
        None => None,
    }
}
//@end
//@fn src/decoder.rs Decoder::read_info
//@sub `WorkerScope :: with ( | worker | self . decode_internal ( $x , worker ) )` => `self . decode_internal ( $x , & mut new_worker ( ) )`
//@sub `$$a . map ( | _ | ( ) )` => `match $$a { Ok ( _ ) => Ok ( ( ) ) , Err ( e ) => Err ( e ) }`
pub fn read_info(&mut self) -> /*@ (r: @*/ Result < () > /*@ )
    requires old(self).inv()
    ensures final(self).inv(), old(self).reader.reliable() ==> final(self).reader.reliable(), r is Ok ==> final(self).frame is Some,
        old(self).frame is Some ==> r is Ok && *final(self) == *old(self), r is Ok && old(self).frame is None ==> informs(*old(self), *final(self)),
        r matches Err(e) ==> (old(self).reader.reliable() ==> (old(self).frame is None && !soi_first(old(self).reader.rest()) || fails_with(*old(self), *final(self), e))) @*/ {
    match self.decode_internal(true, &mut new_worker()) {
        Ok(_) => Ok(()), Err(e) => Err(e)
    }
}
//@end
//@fn src/decoder.rs Decoder::decode
//@sub `WorkerScope :: with ( | worker | self . decode_internal ( $x , worker ) )` => `let result = self . decode_internal ( $x , & mut new_worker ( ) ) ; result`
pub fn decode(&mut self) -> /*@ (r: @*/ Result < Vec < u8 >> /*@ )
    requires old(self).inv()
    ensures final(self).inv(), old(self).reader.reliable() ==> final(self).reader.reliable(),
        r matches Ok(o) ==> decodes(*old(self), *final(self), o@) && (final(self).frame matches Some(f) && o.len() <= final(self).decoding_buffer_size_limit && (depth_told(f) ==> sized(f, o@))),
        r matches Err(e) ==> (old(self).reader.reliable() ==> (old(self).frame is None && !soi_first(old(self).reader.rest()) || fails_with(*old(self), *final(self), e))) @*/ {
    /*@ let ghost o = *self; @*/
    let result = self.decode_internal(false, &mut new_worker());
    /*@ proof { if let Ok(ref v) = result { told_all(o, *self, v@); } } @*/
    result
}
//@end
//@fn src/decoder.rs Decoder::scale
//@sub `crate :: idct :: choose_idct_size` => `choose_idct_size`
pub fn scale(&mut self, requested_width: u16, requested_height: u16) -> /*@ (r: @*/ Result < (u16, u16) > /*@ )
    requires old(self).inv()
    ensures final(self).inv(), old(self).reader.reliable() ==> final(self).reader.reliable(),
        old(self).frame is Some ==> r is Ok,
        r matches Ok((w, h)) ==> final(self).frame is Some && w == final(self).frame->0.output_size.width && h == final(self).frame->0.output_size.height
            && exists|d: Decoder<R>| #[trigger] opened(*old(self), d) && d.frame is Some && *final(self) == (Decoder { frame: final(self).frame, ..d })
                && rescaled(d.frame->0, final(self).frame->0, scale_for(d.frame->0, Dimensions { width: requested_width, height: requested_height })) @*/ {
    self.read_info()?;
    /*@ let ghost d = *self; let ghost f = self.frame->0; @*/
    let frame = self.frame.as_mut().unwrap();
    let idct_size = if frame.coding_process == CodingProcess::Lossless {
        8
    } else {
        choose_idct_size(frame.image_size, Dimensions {
            width: requested_width, height: requested_height,
        },)
    };
    /*@ proof { assert(frame_inv(f)); assert forall|k: int| 0 <= k < f.components@.len() implies factors_ok(#[trigger] f.components@[k]) by {} }  @*/
    frame.update_idct_size(idct_size)?;
    /*@ proof { assert(opened(*old(self), d)); rescaled_inv(f, *frame, idct_size as int, d.coefficients@); } @*/
    Ok((frame.output_size.width, frame.output_size.height))
}
//@end
}
pub fn four_none() -> (r: Vec<Option<HuffmanTable>>) ensures r.len() == 4, forall|i: int| 0 <= i < 4 ==> (#[trigger] r@[i]) is None { let mut v: Vec<Option<HuffmanTable>> = Vec::new(); for i in 0..4 invariant v.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] v@[k]) is None { v.push(None); } v }
/// panic!(): to be shown unreachable
#[verifier::external_body]
pub fn never() -> (r: PixelFormat) requires false { panic!() }
