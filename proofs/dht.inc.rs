
// ---- Huffman table segment (T.81 B.2.4.2) --------------------------------------------------------------------
pub open spec fn dht_class(s: Seq<u8>) -> int { s[0] as int / 16 }
pub open spec fn dht_slot(s: Seq<u8>) -> int { s[0] as int % 16 }
pub open spec fn dht_lens(s: Seq<u8>) -> Seq<u8> { s.subrange(1, 17) }
/// number of symbols of the first definition
pub open spec fn dht_count(s: Seq<u8>) -> int { fidx(dht_lens(s), 17) }
pub open spec fn dht_one_ok(s: Seq<u8>, len: int, base: Option<bool>) -> bool {
    len > 17 && s.len() >= 17 && dht_class(s) <= 1 && dht_slot(s) <= 3 && (base == Some(true) ==> dht_slot(s) <= 1)
    && 1 <= dht_count(s) <= 256 && dht_count(s) <= len - 17 && s.len() >= 17 + dht_count(s) && legal(dht_lens(s))
}
pub open spec fn dht_tab(s: Seq<u8>) -> TabView { (dht_lens(s), s.subrange(17, 17 + dht_count(s))) }
/// what len bytes of definitions leave in the slots; None: malformed
pub open spec fn dht(s: Seq<u8>, len: int, base: Option<bool>, dc: Seq<Option<TabView>>, ac: Seq<Option<TabView>>) -> Option<(Seq<Option<TabView>>, Seq<Option<TabView>>)> decreases len {
    if len == 0 { Some((dc, ac)) } else if !dht_one_ok(s, len, base) { None }
    else if dht_class(s) == 0 { dht(s.skip(17 + dht_count(s)), len - 17 - dht_count(s), base, dc.update(dht_slot(s), Some(dht_tab(s))), ac) }
    else { dht(s.skip(17 + dht_count(s)), len - 17 - dht_count(s), base, dc, ac.update(dht_slot(s), Some(dht_tab(s)))) }
}
/// every installed table is usable; run/size/value shortcuts only in AC tables
pub open spec fn no_hufftables() -> Seq<Option<TabView>> { Seq::new(4, |i: int| None) }
pub open spec fn dht_of(s: Seq<u8>, base: Option<bool>) -> Option<(Seq<Option<TabView>>, Seq<Option<TabView>>)> {
    if s.len() >= 2 && seg_len(s) >= 0 { dht(s.skip(2), seg_len(s), base, no_hufftables(), no_hufftables()) } else { None }
}
//@fn src/parser.rs parse_dht
//@rw panic errtext sum
pub fn parse_dht < R: Read > (reader: &mut R, is_baseline: Option < bool >) -> /*@ (r: @*/ Result<(Vec<Option<HuffmanTable>>, Vec<Option<HuffmanTable>>)> /*@ )
    ensures r matches Ok((dc, ac)) ==> dht_of(old(reader).rest(), is_baseline) == Some((hviews(dc@), hviews(ac@))) && dc@.len() == 4 && ac@.len() == 4 && tabs_wf(dc@) && tabs_wf(ac@)
            && seg_whole(old(reader).rest()) && final(reader).rest() == old(reader).rest().skip(be16(old(reader).rest())),
        old(reader).reliable() ==> final(reader).reliable() && (dht_of(old(reader).rest(), is_baseline) is Some ==> r is Ok) @*/ {
    /*@ broadcast use skip_skip; let ghost s = reader.rest(); @*/
    let mut length = read_length(reader, DHT)?;
    /*@ let ghost total = length as int; @*/
    let mut dc_tables /*@ : Vec<Option<HuffmanTable>> @*/ = vec![None, None, None, None];
    let mut ac_tables /*@ : Vec<Option<HuffmanTable>> @*/ = vec![None, None, None, None];
    /*@ assert(hviews(dc_tables@) =~= no_hufftables() && hviews(ac_tables@) =~= no_hufftables()); @*/
    while length > 17 /*@
        invariant s == old(reader).rest(), s.len() >= 2, total == seg_len(s), 0 <= length <= total, 2 + total - length <= s.len(), reader.rest() == s.skip(2 + total - length),
            dht_of(s, is_baseline) == dht(reader.rest(), length as int, is_baseline, hviews(dc_tables@), hviews(ac_tables@)), dc_tables@.len() == 4, ac_tables@.len() == 4,
            tabs_wf(dc_tables@), tabs_wf(ac_tables@), old(reader).reliable() ==> reader.reliable(),
        decreases length @*/ {
        /*@ broadcast use skip_skip; let ghost q = reader.rest(); let ghost d0 = hviews(dc_tables@); let ghost a0 = hviews(ac_tables@); proof { reveal_with_fuel(dht, 2); } @*/
        let byte = read_u8(reader)?;
        /*@ proof { nibbles(byte); assert(byte == q[0]); } @*/
        let class = byte >> 4;
        let index = (byte &0x0f) as usize;
        if class != 0 && class != 1 {
            return Err(Error::Format(error_text()));
        }
        if is_baseline == Some(true) && index > 1 {
            return Err(Error::Format(error_text()));
        }
        if index > 3 {
            return Err(Error::Format(error_text()));
        }
        /*@ proof { assert(class == dht_class(q) && index == dht_slot(q)); } @*/
        let mut counts = [0u8; 16];
        reader.read_exact(&mut counts)?;
        /*@ assert(counts@ =~= dht_lens(q)); @*/
        let size = {
            let mut acc /*@ : usize @*/ = 0;
            for ix in 0..counts.len() /*@ invariant counts@.len() == 16, acc == fidx(counts@, ix + 1), acc <= 255 * ix @*/ {
                let val = counts[ix];
                acc = acc + (val as usize);
            }
            acc
        };
        if size == 0 {
            return Err(Error::Format(error_text()));
        } else if size > 256 {
            return Err(Error::Format(error_text()));
        } else if size > length - 17 {
            return Err(Error::Format(error_text()));
        }
        /*@ proof { assert(size == dht_count(q)); } @*/
        let mut values = vec![0u8; size];
        reader.read_exact(&mut values)?;
        /*@ assert(values@ =~= q.subrange(17, 17 + size)); let ghost o0 = dc_tables@; let ghost o1 = ac_tables@; @*/
        match class {
            0 => dc_tables[index] = Some(HuffmanTable::new(&counts, &values, HuffmanTableClass::DC)?), 1 => ac_tables[index] = Some(HuffmanTable::new(&counts, &values, HuffmanTableClass::AC)?), _ => unreached(),
        }
        /*@ proof {
            if class == 0 { assert(hviews(dc_tables@) =~= d0.update(index as int, Some(dht_tab(q)))); assert(hviews(ac_tables@) == a0); }
            else { assert(hviews(ac_tables@) =~= a0.update(index as int, Some(dht_tab(q)))); assert(hviews(dc_tables@) == d0); }
            assert(q.skip(17).skip(size as int) == q.skip(17 + size));
        } @*/
        length -= 17 + size;
    }
    /*@ proof { reveal_with_fuel(dht, 2); } @*/
    if length != 0 {
        return Err(Error::Format(error_text()));
    }
    Ok((dc_tables, ac_tables))
}
//@end
