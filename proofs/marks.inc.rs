// ---- markers between segments (T.81 B.1.1.2) -------------------------------------------------------------------
/// code of the next marker and what follows it: bytes that are no marker, fill bytes and stuffed zeros are skipped
pub open spec fn next_marker(s: Seq<u8>) -> Option<(u8, Seq<u8>)> decreases s.len() via next_marker_less {
    if s.len() == 0 { None } else if s[0] != 0xFF { next_marker(s.skip(1)) }
    else { let u = skip_fill(s.skip(1)); if u.len() == 0 { None } else if u[0] == 0 { next_marker(u.skip(1)) } else { Some((u[0], u.skip(1))) } }
}
#[via_fn]
proof fn next_marker_less(s: Seq<u8>) { if s.len() > 0 { skip_fill_len(s.skip(1)); } }
pub proof fn skip_fill_len(s: Seq<u8>) ensures skip_fill(s).len() <= s.len(), skip_fill(s).len() > 0 ==> skip_fill(s)[0] != 0xFF decreases s.len()
{ if s.len() > 0 && s[0] == 0xFF { skip_fill_len(s.skip(1)); } }
/// after an FF
pub open spec fn behind_ff(s: Seq<u8>) -> Option<(u8, Seq<u8>)> { let u = skip_fill(s); if u.len() == 0 { None } else if u[0] == 0 { next_marker(u.skip(1)) } else { Some((u[0], u.skip(1))) } }
/// after an FF and byte b
pub open spec fn behind(b: u8, s: Seq<u8>) -> Option<(u8, Seq<u8>)> { if b == 0xFF { behind_ff(s) } else if b == 0 { next_marker(s) } else { Some((b, s)) } }
impl<R: Read> Decoder<R> {
/// nothing but the reader has changed
pub open spec fn only_reader(&self, o: &Self) -> bool {
    self.frame == o.frame && self.dc_huffman_tables == o.dc_huffman_tables && self.ac_huffman_tables == o.ac_huffman_tables && self.quantization_tables == o.quantization_tables && self.restart_interval == o.restart_interval
    && self.adobe_color_transform == o.adobe_color_transform && self.color_transform == o.color_transform && self.is_jfif == o.is_jfif && self.is_mjpeg == o.is_mjpeg && self.icc_markers == o.icc_markers
    && self.exif_data == o.exif_data && self.xmp_data == o.xmp_data && self.psir_data == o.psir_data && self.coefficients == o.coefficients && self.coefficients_finished == o.coefficients_finished && self.decoding_buffer_size_limit == o.decoding_buffer_size_limit
}
//@fn src/decoder.rs Decoder::read_marker
//@sub `while read_u8 ( & mut self . reader ) ? != 0xFF { }` => `loop { if ! ( read_u8 ( & mut self . reader ) ? != 0xFF ) { break ; } }`
fn read_marker(&mut self) -> /*@ (r: @*/ Result<Marker> /*@ )
    ensures r matches Ok(m) ==> (next_marker(old(self).reader.rest()) matches Some((b, t)) && marker_of(b) == Some(m) && final(self).reader.rest() == t && t.len() < old(self).reader.rest().len()),
        old(self).reader.reliable() ==> final(self).reader.reliable() && (next_marker(old(self).reader.rest()) is Some ==> r is Ok),
        final(self).only_reader(old(self)) @*/ {
    loop /*@ invariant next_marker(self.reader.rest()) == next_marker(old(self).reader.rest()), self.only_reader(old(self)), old(self).reader.reliable() ==> self.reader.reliable(), self.reader.rest().len() <= old(self).reader.rest().len() decreases self.reader.rest().len() @*/ {
        /*@ let ghost r0 = self.reader.rest(); @*/
        // This should be an error as the JPEG spec doesn't allow extraneous data between marker segments.
        loop /*@ invariant_except_break next_marker(self.reader.rest()) == next_marker(old(self).reader.rest()), self.reader.rest().len() <= r0.len()
            invariant self.only_reader(old(self)), old(self).reader.reliable() ==> self.reader.reliable(), r0.len() <= old(self).reader.rest().len()
            ensures self.reader.rest().len() < r0.len(), next_marker(old(self).reader.rest()) == behind_ff(self.reader.rest()) decreases self.reader.rest().len() @*/ { if !(read_u8(&mut self.reader)? != 0xFF) { break; } }

        let mut byte = read_u8(&mut self.reader)?;

        while byte == 0xFF /*@ invariant self.only_reader(old(self)), old(self).reader.reliable() ==> self.reader.reliable(), self.reader.rest().len() < r0.len(), r0.len() <= old(self).reader.rest().len(), next_marker(old(self).reader.rest()) == behind(byte, self.reader.rest()) decreases self.reader.rest().len() @*/ {
            byte = read_u8(&mut self.reader)?;
        }

        if byte != 0x00 && byte != 0xFF {
            return Ok(Marker::from_u8(byte).unwrap());
        }
    }
}
//@end
}
