
// ---- other segments ------------------------------------------------------------------------------------------
/// io::copy from the first n bytes of the reader to a sink
#[verifier::external_body]
fn copy_to_sink<R: Read>(reader: &mut R, n: u64) -> (r: core::result::Result<u64, IoError>)
    ensures r matches Ok(c) ==> c == (if old(reader).rest().len() < n { old(reader).rest().len() as int } else { n as int }) && final(reader).rest() == old(reader).rest().skip(c as int),
        old(reader).reliable() ==> final(reader).reliable() && r is Ok
{ unimplemented!() }
#[verifier::external_body]
pub fn unexpected_eof() -> IoError { unimplemented!() }
/// b[0..n] == *lit
pub fn starts_with(b: &[u8], n: usize, lit: &[u8]) -> (r: bool) requires n <= b@.len() ensures r == (b@.take(n as int) == lit@)
{
    if lit.len() != n { assert(b@.take(n as int).len() != lit@.len()); return false; }
    for k in 0..n invariant n <= b@.len(), lit@.len() == n, forall|j: int| 0 <= j < k ==> b@[j] == lit@[j] {
        if b[k] != lit[k] { assert(b@.take(n as int)[k as int] != lit@[k as int]); return false; }
    }
    assert(b@.take(n as int) =~= lit@);
    true
}
/// b[n..].to_vec()
pub fn slice_tail(b: &[u8], n: usize) -> (r: Vec<u8>) requires n <= b@.len() ensures r@ == b@.skip(n as int)
{
    let mut v: Vec<u8> = Vec::new();
    for k in n..b.len() invariant n <= b@.len(), v@ == b@.subrange(n as int, k as int) { v.push(b[k]); assert(v@ =~= b@.subrange(n as int, k + 1)); }
    assert(v@ =~= b@.skip(n as int));
    v
}
//@fn src/parser.rs skip_bytes
//@sub `let to_skip = & mut reader . by_ref ( ) . take ( length ) ; let copied = io :: copy ( to_skip , & mut io :: sink ( ) ) ? ;` => `let copied = copy_to_sink ( reader , length ) ? ;`
//@sub `io :: ErrorKind :: UnexpectedEof . into ( )` => `unexpected_eof ( )`
fn skip_bytes < R: Read > (reader: &mut R, length: usize) -> /*@ (r: @*/ Result<()> /*@ )
    ensures r is Ok ==> old(reader).rest().len() >= length && final(reader).rest() == old(reader).rest().skip(length as int),
        old(reader).reliable() ==> final(reader).reliable() && (old(reader).rest().len() >= length ==> r is Ok) @*/ {
    let length = length as u64;
    let copied = copy_to_sink(reader, length)?;
    if copied < length {
        Err(Error::Io(unexpected_eof()))
    } else {
        Ok(())
    }
}
//@end
//@fn src/parser.rs parse_dri
//@rw errtext
pub fn parse_dri < R: Read > (reader: &mut R) -> /*@ (r: @*/ Result<u16> /*@ )
    ensures r matches Ok(n) ==> old(reader).rest().len() >= 4 && be16(old(reader).rest()) == 4 && n == be16(old(reader).rest().skip(2)) && final(reader).rest() == old(reader).rest().skip(4),
        old(reader).reliable() ==> final(reader).reliable() && (old(reader).rest().len() >= 4 && be16(old(reader).rest()) == 4 ==> r is Ok) @*/ {
    /*@ broadcast use skip_skip; @*/
    let length = read_length(reader, DRI)?;
    if length != 2 {
        return Err(Error::Format(error_text()));
    }
    Ok(read_u16_from_be(reader)?)
}
//@end

pub open spec fn sig(b: Seq<u8>, lit: Seq<u8>) -> bool { b.len() >= lit.len() && b.take(lit.len() as int) == lit }
pub open spec fn sig_jfif() -> Seq<u8> { seq![0x4a, 0x46, 0x49, 0x46, 0] }
pub open spec fn sig_avi1() -> Seq<u8> { seq![0x41, 0x56, 0x49, 0x31, 0] }
pub open spec fn sig_exif() -> Seq<u8> { seq![0x45, 0x78, 0x69, 0x66, 0, 0] }
/// http://ns.adobe.com/xap/1.0/
pub open spec fn sig_xmp() -> Seq<u8> { seq![104, 116, 116, 112, 58, 47, 47, 110, 115, 46, 97, 100, 111, 98, 101, 46, 99, 111, 109, 47, 120, 97, 112, 47, 49, 46, 48, 47, 0] }
pub open spec fn sig_icc() -> Seq<u8> { seq![0x49, 0x43, 0x43, 0x5f, 0x50, 0x52, 0x4f, 0x46, 0x49, 0x4c, 0x45, 0] }
/// Photoshop 3.0
pub open spec fn sig_psir() -> Seq<u8> { seq![80, 104, 111, 116, 111, 115, 104, 111, 112, 32, 51, 46, 48, 0] }
pub open spec fn sig_adobe() -> Seq<u8> { seq![0x41, 0x64, 0x6f, 0x62, 0x65, 0] }
pub open spec fn is_adobe(m: Marker, b: Seq<u8>) -> bool { m == Marker::APP(14) && b.len() >= 12 && sig(b, sig_adobe()) }
/// what a payload b of marker m is recognised as
pub open spec fn app_data(m: Marker, b: Seq<u8>, r: Option<AppData>) -> bool {
    if m == Marker::APP(0) && sig(b, sig_jfif()) { r == Some(AppData::Jfif) }
    else if m == Marker::APP(0) && sig(b, sig_avi1()) { r == Some(AppData::Avi1) }
    else if m == Marker::APP(1) && sig(b, sig_exif()) { r is Some && (r->0 is Exif) && (r->0->Exif_0)@ == b.skip(6) }
    else if m == Marker::APP(1) && sig(b, sig_xmp()) { r is Some && (r->0 is Xmp) && (r->0->Xmp_0)@ == b.skip(29) }
    else if m == Marker::APP(2) && b.len() > 14 && sig(b, sig_icc()) { r is Some && (r->0 is Icc) && (r->0->Icc_0).seq_no == b[12] && (r->0->Icc_0).num_markers == b[13] && (r->0->Icc_0).data@ == b.skip(14) }
    else if m == Marker::APP(13) && sig(b, sig_psir()) { r is Some && (r->0 is Psir) && (r->0->Psir_0)@ == b.skip(14) }
    else if is_adobe(m, b) { b[11] <= 2 && r == Some(AppData::Adobe(if b[11] == 0 { AdobeColorTransform::Unknown } else if b[11] == 1 { AdobeColorTransform::YCbCr } else { AdobeColorTransform::YCCK })) }
    else { r is None }
}
/// a whole segment is present
pub open spec fn seg_whole(s: Seq<u8>) -> bool { s.len() >= 2 && seg_len(s) >= 0 && s.len() >= be16(s) }
pub open spec fn payload(s: Seq<u8>) -> Seq<u8> { s.subrange(2, be16(s)) }

//@include apptypes.inc.rs
//@fn src/parser.rs parse_com
//@rw errtext
pub fn parse_com < R: Read > (reader: &mut R) -> /*@ (r: @*/ Result<Vec<u8>> /*@ )
    ensures r matches Ok(v) ==> seg_whole(old(reader).rest()) && v@ == payload(old(reader).rest()) && final(reader).rest() == old(reader).rest().skip(be16(old(reader).rest())),
        old(reader).reliable() ==> final(reader).reliable() && (seg_whole(old(reader).rest()) ==> r is Ok) @*/ {
    /*@ broadcast use skip_skip; @*/
    let length = read_length(reader, COM)?;
    let mut buffer = vec![0u8; length];
    reader.read_exact(&mut buffer)?;
    /*@ assert(buffer@ =~= payload(old(reader).rest())); @*/
    Ok(buffer)
}
//@end

/// element k of a table at the start of s, in zig-zag order
pub open spec fn dqt_elem(s: Seq<u8>, k: int) -> int { if s[0] < 16 { s[1 + k] as int } else { be16(s.skip(1 + 2 * k)) } }
pub open spec fn elem_off(p: int, k: int) -> int { if p == 0 { 1 + k } else { 1 + 2 * k } }
pub open spec fn dqt_size(s: Seq<u8>) -> int { 65 + 64 * (s[0] as int / 16) }
pub open spec fn dqt_slot(s: Seq<u8>) -> int { s[0] as int % 16 }
pub open spec fn dqt_one_ok(s: Seq<u8>, len: int) -> bool {
    s.len() >= 1 && s[0] < 32 && dqt_slot(s) <= 3 && len >= dqt_size(s) && s.len() >= dqt_size(s) && forall|k: int| 0 <= k < 64 ==> #[trigger] dqt_elem(s, k) != 0
}
pub open spec fn dqt_table(s: Seq<u8>) -> Seq<u16> { Seq::new(64, |k: int| dqt_elem(s, k) as u16) }
/// the tables that len bytes of definitions install, on top of t; None: malformed
pub open spec fn dqt(s: Seq<u8>, len: int, t: Seq<Option<Seq<u16>>>) -> Option<Seq<Option<Seq<u16>>>> decreases len {
    if len <= 0 { Some(t) } else if !dqt_one_ok(s, len) { None }
    else { dqt(s.skip(dqt_size(s)), len - dqt_size(s), t.update(dqt_slot(s), Some(dqt_table(s)))) }
}
pub open spec fn tview(t: Seq<Option<[u16; 64]>>) -> Seq<Option<Seq<u16>>> { Seq::new(t.len(), |i: int| match t[i] { None => None, Some(a) => Some(a@) }) }
pub open spec fn no_tables() -> Seq<Option<Seq<u16>>> { Seq::new(4, |i: int| None) }
pub open spec fn dqt_of(s: Seq<u8>) -> Option<Seq<Option<Seq<u16>>>> { if s.len() >= 2 && seg_len(s) >= 0 { dqt(s.skip(2), seg_len(s), no_tables()) } else { None } }
//@fn src/parser.rs parse_dqt
//@rw panic any_val errtext iter_mut_set
pub fn parse_dqt < R: Read > (reader: &mut R) -> /*@ (r: @*/ Result<[Option<[u16; 64]>; 4]> /*@ )
    ensures r matches Ok(t) ==> dqt_of(old(reader).rest()) == Some(tview(t@)) && seg_whole(old(reader).rest()) && final(reader).rest() == old(reader).rest().skip(be16(old(reader).rest())),
        old(reader).reliable() ==> final(reader).reliable() && (dqt_of(old(reader).rest()) is Some ==> r is Ok) @*/ {
    /*@ broadcast use skip_skip; let ghost s = reader.rest(); @*/
    let mut length = read_length(reader, DQT)?;
    /*@ let ghost total = length as int; @*/
    let mut tables /*@ : [Option<[u16; 64]>; 4] @*/ = [None; 4];
    /*@ assert(tview(tables@) =~= no_tables()); @*/
    while length > 0 /*@
        invariant s == old(reader).rest(), s.len() >= 2, total == seg_len(s), 0 <= length <= total, 2 + total - length <= s.len(), reader.rest() == s.skip(2 + total - length),
            dqt_of(s) == dqt(reader.rest(), length as int, tview(tables@)), old(reader).reliable() ==> reader.reliable(),
        decreases length @*/ {
        /*@ broadcast use skip_skip; let ghost q = reader.rest(); let ghost t0 = tview(tables@); proof { reveal_with_fuel(dqt, 2); } @*/
        let byte = read_u8(reader)?;
        /*@ proof { nibbles(byte); assert(byte == q[0]); } @*/
        let precision = (byte >> 4) as usize;
        let index = (byte &0x0f) as usize;
        if precision > 1 {
            return Err(Error::Format(error_text()));
        }
        if index > 3 {
            return Err(Error::Format(error_text()));
        }
        if length < 65 + 64 * precision {
            return Err(Error::Format(error_text()));
        }
        let mut table = [0u16; 64];
        for ix in 0..table.len() /*@
            invariant q.len() >= 1, q[0] < 32, precision == q[0] as int / 16, reader.rest() == q.skip(elem_off(precision as int, ix as int)), elem_off(precision as int, ix as int) <= q.len(), precision <= 1, table@.len() == 64,
                forall|k: int| 0 <= k < ix ==> #[trigger] table@[k] == dqt_elem(q, k),
                length >= dqt_size(q), dqt_slot(q) <= 3, length > 0, dqt_of(s) == dqt(q, length as int, t0), old(reader).reliable() ==> reader.reliable(), s == old(reader).rest() @*/ {
            /*@ broadcast use skip_skip; proof { reveal_with_fuel(dqt, 2);
            } @*/
            table[ix] = match precision {
                0 => u16::from(read_u8(reader)?), 1 => read_u16_from_be(reader)?, _ => unreached(),
            };
        }
        /*@ assert(reader.rest() == q.skip(65 + 64 * precision)); assert(reader.rest() == s.skip(2 + total - length + 65 + 64 * precision)); @*/
        if {
            let mut found = false;
            for ix in 0..table.len() /*@ invariant table@.len() == 64, found == exists|k: int| 0 <= k < ix && #[trigger] table@[k] == 0 @*/ {
                let val = table[ix];
                if val == 0 {
                    found = true;
                }
            }
            /*@ proof { if found { let k = choose|k: int| 0 <= k < 64 && #[trigger] table@[k] == 0; assert(dqt_elem(q, k) == 0); assert(!dqt_one_ok(q, length as int)); }
                else { assert forall|k: int| 0 <= k < 64 implies #[trigger] dqt_elem(q, k) != 0 by { assert(table@[k] == dqt_elem(q, k)); } } } @*/
            found
        }
        {
            return Err(Error::Format(error_text()));
        }
        tables[index] = Some(table);
        /*@ proof { assert(table@ =~= dqt_table(q)); assert(tview(tables@) =~= t0.update(dqt_slot(q), Some(dqt_table(q)))); } @*/
        length -= 65 + 64 * precision;
    }
    Ok(tables)
}
//@end
//@fn src/parser.rs parse_app
//@rw errtext bytestr signature
pub fn parse_app < R: Read > (reader: &mut R, marker: Marker) -> /*@ (r: @*/ Result<Option<AppData>> /*@ )
    requires has_len(marker)
    ensures r matches Ok(d) ==> seg_whole(old(reader).rest()) && app_data(marker, payload(old(reader).rest()), d) && final(reader).rest() == old(reader).rest().skip(be16(old(reader).rest())),
        old(reader).reliable() ==> final(reader).reliable() && (seg_whole(old(reader).rest()) && (is_adobe(marker, payload(old(reader).rest())) ==> payload(old(reader).rest())[11] <= 2) ==> r is Ok) @*/ {
    /*@ broadcast use skip_skip; let ghost s = reader.rest(); let ghost b = payload(s); let ghost whole = seg_whole(s); @*/
    let length = read_length(reader, marker)?;
    let mut bytes_read = 0;
    let mut result = None;
    match marker {
        APP(0) => {
            if length >= 5 {
                let mut buffer = [0u8; 5];
                reader.read_exact(&mut buffer)?;
                bytes_read = buffer.len();
                /*@ proof { if whole { assert(buffer@ =~= b.take(5 as int)); assert([74u8, 70u8, 73u8, 70u8, 0u8]@ =~= sig_jfif()); assert(b.take(5).take(5) =~= b.take(5)); assert([65u8, 86u8, 73u8, 49u8, 0u8]@ =~= sig_avi1());  } } @*/
                if starts_with(&buffer, 5, & [74u8, 70u8, 73u8, 70u8, 0u8]) {
                    result = Some(AppData::Jfif);
                } else if starts_with(&buffer, 5, & [65u8, 86u8, 73u8, 49u8, 0u8]) {
                    result = Some(AppData::Avi1);
                }
            }
        }
        APP(1) => {
            let mut buffer = vec![0u8; length];
            reader.read_exact(&mut buffer)?;
            bytes_read = buffer.len();
            /*@ proof { if whole { assert(buffer@ =~= b); } assert([69u8, 120u8, 105u8, 102u8, 0u8, 0u8]@ =~= sig_exif()); assert([104u8, 116u8, 116u8, 112u8, 58u8, 47u8, 47u8, 110u8, 115u8, 46u8, 97u8, 100u8, 111u8, 98u8, 101u8, 46u8, 99u8, 111u8, 109u8, 47u8, 120u8, 97u8, 112u8, 47u8, 49u8, 46u8, 48u8, 47u8, 0u8]@ =~= sig_xmp()); } @*/
            if length >= 6 && starts_with(&buffer, 6, & [69u8, 120u8, 105u8, 102u8, 0u8, 0u8]) {
                result = Some(AppData::Exif (slice_tail(&buffer, 6)));
            } else if length >= 29 && starts_with(&buffer, 29, & [104u8, 116u8, 116u8, 112u8, 58u8, 47u8, 47u8, 110u8, 115u8, 46u8, 97u8, 100u8, 111u8, 98u8, 101u8, 46u8, 99u8, 111u8, 109u8, 47u8, 120u8, 97u8, 112u8, 47u8, 49u8, 46u8, 48u8, 47u8, 0u8]) {
                result = Some(AppData::Xmp(slice_tail(&buffer, 29)));
            }
        }
        APP(2) => {
            if length > 14 {
                let mut buffer = [0u8; 14];
                reader.read_exact(&mut buffer)?;
                bytes_read = buffer.len();
                /*@ proof { if whole { assert(buffer@ =~= b.take(14 as int)); assert([73u8, 67u8, 67u8, 95u8, 80u8, 82u8, 79u8, 70u8, 73u8, 76u8, 69u8, 0u8]@ =~= sig_icc()); assert(b.take(14).take(12) =~= b.take(12)); } } @*/
                if starts_with(&buffer, 12, & [73u8, 67u8, 67u8, 95u8, 80u8, 82u8, 79u8, 70u8, 73u8, 76u8, 69u8, 0u8]) {
                    let mut data = vec![0; length - bytes_read];
                    reader.read_exact(&mut data)?;
                    bytes_read += data.len();
                    /*@ proof { if whole { assert(data@ =~= b.skip(14)); } } @*/ result = Some(AppData::Icc(IccChunk {
                        seq_no: buffer[12], num_markers: buffer[13], data,
                    }));
                }
            }
        }
        APP(13) => {
            if length >= 14 {
                let mut buffer = [0u8; 14];
                reader.read_exact(&mut buffer)?;
                bytes_read = buffer.len();
                /*@ proof { if whole { assert(buffer@ =~= b.take(14 as int)); assert([80u8, 104u8, 111u8, 116u8, 111u8, 115u8, 104u8, 111u8, 112u8, 32u8, 51u8, 46u8, 48u8, 0u8]@ =~= sig_psir()); assert(b.take(14).take(14) =~= b.take(14)); } } @*/
                if starts_with(&buffer, 14, & [80u8, 104u8, 111u8, 116u8, 111u8, 115u8, 104u8, 111u8, 112u8, 32u8, 51u8, 46u8, 48u8, 0u8]) {
                    let mut data = vec![0; length - bytes_read];
                    reader.read_exact(&mut data)?;
                    bytes_read += data.len();
                    /*@ proof { if whole { assert(data@ =~= b.skip(14)); } } @*/ result = Some(AppData::Psir(data));
                }
            }
        }
        APP(14) => {
            if length >= 12 {
                let mut buffer = [0u8; 12];
                reader.read_exact(&mut buffer)?;
                bytes_read = buffer.len();
                /*@ proof { if whole { assert(buffer@ =~= b.take(12 as int)); assert([65u8, 100u8, 111u8, 98u8, 101u8, 0u8]@ =~= sig_adobe()); assert(b.take(12).take(6) =~= b.take(6)); } } @*/
                if starts_with(&buffer, 6, & [65u8, 100u8, 111u8, 98u8, 101u8, 0u8]) {
                    let color_transform = match buffer[11] {
                        0 => AdobeColorTransform::Unknown, 1 => AdobeColorTransform::YCbCr, 2 => AdobeColorTransform::YCCK, _ => return Err(Error::Format(error_text())),
                    };
                    result = Some(AppData::Adobe(color_transform));
                }
            }
        }, _ => {
        },
    }
    /*@ assert(whole ==> app_data(marker, b, result)); @*/
    skip_bytes(reader, length - bytes_read)?;
    Ok(result)
}
//@end
