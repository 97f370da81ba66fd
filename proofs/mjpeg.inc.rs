// ---- default tables of Motion JPEG (T.81 K.3) --------------------------------------------------------------------
pub open spec fn k_lens(k: int) -> Seq<u8> {
    if k == 3 { seq![0u8, 1u8, 5u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] } else if k == 4 { seq![0u8, 3u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 1u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
    else if k == 5 { seq![0u8, 2u8, 1u8, 3u8, 3u8, 2u8, 4u8, 3u8, 5u8, 5u8, 4u8, 4u8, 0u8, 0u8, 1u8, 0x7du8] } else { seq![0u8, 2u8, 1u8, 2u8, 4u8, 4u8, 3u8, 4u8, 7u8, 5u8, 4u8, 4u8, 0u8, 1u8, 2u8, 0x77u8] }
}
pub open spec fn k_dc() -> Seq<u8> { seq![0u8, 1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8, 11u8] }
pub open spec fn k5_vals() -> Seq<u8> { seq![0x01u8, 0x02u8, 0x03u8, 0x00u8, 0x04u8, 0x11u8, 0x05u8, 0x12u8, 0x21u8, 0x31u8, 0x41u8, 0x06u8, 0x13u8, 0x51u8, 0x61u8, 0x07u8, 0x22u8, 0x71u8, 0x14u8, 0x32u8, 0x81u8, 0x91u8, 0xa1u8, 0x08u8, 0x23u8, 0x42u8, 0xb1u8, 0xc1u8, 0x15u8, 0x52u8, 0xd1u8, 0xf0u8, 0x24u8, 0x33u8, 0x62u8, 0x72u8, 0x82u8, 0x09u8, 0x0au8, 0x16u8, 0x17u8, 0x18u8, 0x19u8, 0x1au8, 0x25u8, 0x26u8, 0x27u8, 0x28u8, 0x29u8, 0x2au8, 0x34u8, 0x35u8, 0x36u8, 0x37u8, 0x38u8, 0x39u8, 0x3au8, 0x43u8, 0x44u8, 0x45u8, 0x46u8, 0x47u8, 0x48u8, 0x49u8, 0x4au8, 0x53u8, 0x54u8, 0x55u8, 0x56u8, 0x57u8, 0x58u8, 0x59u8, 0x5au8, 0x63u8, 0x64u8, 0x65u8, 0x66u8, 0x67u8, 0x68u8, 0x69u8, 0x6au8, 0x73u8, 0x74u8, 0x75u8, 0x76u8, 0x77u8, 0x78u8, 0x79u8, 0x7au8, 0x83u8, 0x84u8, 0x85u8, 0x86u8, 0x87u8, 0x88u8, 0x89u8, 0x8au8, 0x92u8, 0x93u8, 0x94u8, 0x95u8, 0x96u8, 0x97u8, 0x98u8, 0x99u8, 0x9au8, 0xa2u8, 0xa3u8, 0xa4u8, 0xa5u8, 0xa6u8, 0xa7u8, 0xa8u8, 0xa9u8, 0xaau8, 0xb2u8, 0xb3u8, 0xb4u8, 0xb5u8, 0xb6u8, 0xb7u8, 0xb8u8, 0xb9u8, 0xbau8, 0xc2u8, 0xc3u8, 0xc4u8, 0xc5u8, 0xc6u8, 0xc7u8, 0xc8u8, 0xc9u8, 0xcau8, 0xd2u8, 0xd3u8, 0xd4u8, 0xd5u8, 0xd6u8, 0xd7u8, 0xd8u8, 0xd9u8, 0xdau8, 0xe1u8, 0xe2u8, 0xe3u8, 0xe4u8, 0xe5u8, 0xe6u8, 0xe7u8, 0xe8u8, 0xe9u8, 0xeau8, 0xf1u8, 0xf2u8, 0xf3u8, 0xf4u8, 0xf5u8, 0xf6u8, 0xf7u8, 0xf8u8, 0xf9u8, 0xfau8] }
pub open spec fn k6_vals() -> Seq<u8> { seq![0x00u8, 0x01u8, 0x02u8, 0x03u8, 0x11u8, 0x04u8, 0x05u8, 0x21u8, 0x31u8, 0x06u8, 0x12u8, 0x41u8, 0x51u8, 0x07u8, 0x61u8, 0x71u8, 0x13u8, 0x22u8, 0x32u8, 0x81u8, 0x08u8, 0x14u8, 0x42u8, 0x91u8, 0xa1u8, 0xb1u8, 0xc1u8, 0x09u8, 0x23u8, 0x33u8, 0x52u8, 0xf0u8, 0x15u8, 0x62u8, 0x72u8, 0xd1u8, 0x0au8, 0x16u8, 0x24u8, 0x34u8, 0xe1u8, 0x25u8, 0xf1u8, 0x17u8, 0x18u8, 0x19u8, 0x1au8, 0x26u8, 0x27u8, 0x28u8, 0x29u8, 0x2au8, 0x35u8, 0x36u8, 0x37u8, 0x38u8, 0x39u8, 0x3au8, 0x43u8, 0x44u8, 0x45u8, 0x46u8, 0x47u8, 0x48u8, 0x49u8, 0x4au8, 0x53u8, 0x54u8, 0x55u8, 0x56u8, 0x57u8, 0x58u8, 0x59u8, 0x5au8, 0x63u8, 0x64u8, 0x65u8, 0x66u8, 0x67u8, 0x68u8, 0x69u8, 0x6au8, 0x73u8, 0x74u8, 0x75u8, 0x76u8, 0x77u8, 0x78u8, 0x79u8, 0x7au8, 0x82u8, 0x83u8, 0x84u8, 0x85u8, 0x86u8, 0x87u8, 0x88u8, 0x89u8, 0x8au8, 0x92u8, 0x93u8, 0x94u8, 0x95u8, 0x96u8, 0x97u8, 0x98u8, 0x99u8, 0x9au8, 0xa2u8, 0xa3u8, 0xa4u8, 0xa5u8, 0xa6u8, 0xa7u8, 0xa8u8, 0xa9u8, 0xaau8, 0xb2u8, 0xb3u8, 0xb4u8, 0xb5u8, 0xb6u8, 0xb7u8, 0xb8u8, 0xb9u8, 0xbau8, 0xc2u8, 0xc3u8, 0xc4u8, 0xc5u8, 0xc6u8, 0xc7u8, 0xc8u8, 0xc9u8, 0xcau8, 0xd2u8, 0xd3u8, 0xd4u8, 0xd5u8, 0xd6u8, 0xd7u8, 0xd8u8, 0xd9u8, 0xdau8, 0xe2u8, 0xe3u8, 0xe4u8, 0xe5u8, 0xe6u8, 0xe7u8, 0xe8u8, 0xe9u8, 0xeau8, 0xf2u8, 0xf3u8, 0xf4u8, 0xf5u8, 0xf6u8, 0xf7u8, 0xf8u8, 0xf9u8, 0xfau8] }
pub open spec fn k_vals(k: int) -> Seq<u8> { if k <= 4 { k_dc() } else if k == 5 { k5_vals() } else { k6_vals() } }
/// Table K.k
pub open spec fn k_tab(k: int) -> TabView { (k_lens(k), k_vals(k)) }
pub open spec fn k_ok(k: int) -> bool { k_lens(k).len() == 16 && fidx(k_lens(k), 17) == k_vals(k).len() && k_vals(k).len() <= 162 && legal_upto(k_lens(k), 16) }
pub open spec fn legal_upto(lens: Seq<u8>, l: int) -> bool decreases l { l <= 0 || (ncode(lens, l) > 0 ==> fcode(lens, l) + ncode(lens, l) <= pow2i(l)) && legal_upto(lens, l - 1) }
pub proof fn legal_from(lens: Seq<u8>, l: int, k: int) requires legal_upto(lens, l), 1 <= k <= l ensures ncode(lens, k) > 0 ==> fcode(lens, k) + ncode(lens, k) <= pow2i(k) decreases l { if k < l { legal_from(lens, l - 1, k); } }
/// the default tables are complete and do not over-subscribe the code space
pub proof fn k_legal(k: int) requires 3 <= k <= 6 ensures k_lens(k).len() == 16, 0 < fidx(k_lens(k), 17) == k_vals(k).len() <= 256, legal(k_lens(k))
{
    assert(k_ok(3)) by (compute); assert(k_ok(4)) by (compute); assert(k_ok(5)) by (compute); assert(k_ok(6)) by (compute);
    assert forall|l: int| 1 <= l <= 16 && ncode(k_lens(k), l) > 0 implies #[trigger] fcode(k_lens(k), l) + ncode(k_lens(k), l) <= pow2i(l) by { legal_from(k_lens(k), 16, l); }
}
/// HuffmanTable::new(..).unwrap() of a default table
pub fn default_table(Ghost(k): Ghost<int>, bits: &[u8; 16], values: &[u8], class: HuffmanTableClass) -> (r: HuffmanTable)
    requires 3 <= k <= 6, bits@ =~= k_lens(k), values@ =~= k_vals(k) ensures r.wf(), hview(Some(r)) == Some(k_tab(k)), r.ac_lut is Some <==> class == HuffmanTableClass::AC
{ proof { k_legal(k); } match HuffmanTable::new(bits, values, class) { Ok(t) => t, Err(_) => unreached() } }
/// missing tables 0 and 1 of a class are filled in when the scan uses them
pub open spec fn filled(o: Seq<Option<HuffmanTable>>, t: Seq<Option<HuffmanTable>>, used: Seq<usize>, k: int) -> bool {
    t.len() == o.len() && forall|j: int| 0 <= j < o.len() ==> if j < 2 && o[j] is None && used.contains(j as usize) { hview(#[trigger] t[j]) == Some(k_tab(k + j)) } else { t[j] == o[j] }
}
//@fn src/huffman.rs fill_default_mjpeg_tables
//@sub `if $$a && $$x . iter ( ) . any ( | & $c | $$e ) {` => `if $$a && { let mut found = false ; for ix in 0 .. $$x . len ( ) { let $c = $$x [ ix ] ; if $$e { found = true ; } } found } {`
//@sub `HuffmanTable :: new ( $$a ) . unwrap ( )` => `default_table ( $$a )`
pub fn fill_default_mjpeg_tables(scan: &ScanInfo, dc_huffman_tables: &mut[Option < HuffmanTable >], ac_huffman_tables: &mut[Option < HuffmanTable >])
/*@ requires old(dc_huffman_tables).len() == 4, old(ac_huffman_tables).len() == 4, tabs_wf(old(dc_huffman_tables)@), tabs_wf(old(ac_huffman_tables)@)
    ensures filled(old(dc_huffman_tables)@, final(dc_huffman_tables)@, scan.dc_table_indices@, 3), filled(old(ac_huffman_tables)@, final(ac_huffman_tables)@, scan.ac_table_indices@, 5), tabs_wf(final(dc_huffman_tables)@), tabs_wf(final(ac_huffman_tables)@) @*/ {
    if dc_huffman_tables[0].is_none() && {
        let mut found = false;
        for ix in 0..scan.dc_table_indices.len() /*@ invariant found == exists|q: int| 0 <= q < ix && #[trigger] scan.dc_table_indices@[q] == 0 @*/ {
            let i = scan.dc_table_indices[ix];
            if i == 0 {
                found = true;
            }
        }
        found
    }
    {
        dc_huffman_tables[0] = Some(default_table(/*@ Ghost(3), @*/& [0x00, 0x01, 0x05, 0x01, 0x01, 0x01, 0x01, 0x01, 0x01, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00], & [0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0A, 0x0B], HuffmanTableClass::DC));
    }
    if dc_huffman_tables[1].is_none() && {
        let mut found = false;
        for ix in 0..scan.dc_table_indices.len() /*@ invariant found == exists|q: int| 0 <= q < ix && #[trigger] scan.dc_table_indices@[q] == 1 @*/ {
            let i = scan.dc_table_indices[ix];
            if i == 1 {
                found = true;
            }
        }
        found
    }
    {
        dc_huffman_tables[1] = Some(default_table(/*@ Ghost(4), @*/& [0x00, 0x03, 0x01, 0x01, 0x01, 0x01, 0x01, 0x01, 0x01, 0x01, 0x01, 0x00, 0x00, 0x00, 0x00, 0x00], & [0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0A, 0x0B], HuffmanTableClass::DC));
    }
    if ac_huffman_tables[0].is_none() && {
        let mut found = false;
        for ix in 0..scan.ac_table_indices.len() /*@ invariant found == exists|q: int| 0 <= q < ix && #[trigger] scan.ac_table_indices@[q] == 0 @*/ {
            let i = scan.ac_table_indices[ix];
            if i == 0 {
                found = true;
            }
        }
        found
    }
    {
        ac_huffman_tables[0] = Some(default_table(/*@ Ghost(5), @*/& [0x00, 0x02, 0x01, 0x03, 0x03, 0x02, 0x04, 0x03, 0x05, 0x05, 0x04, 0x04, 0x00, 0x00, 0x01, 0x7D], & [0x01, 0x02, 0x03, 0x00, 0x04, 0x11, 0x05, 0x12, 0x21, 0x31, 0x41, 0x06, 0x13, 0x51, 0x61, 0x07, 0x22, 0x71, 0x14, 0x32, 0x81, 0x91, 0xA1, 0x08, 0x23, 0x42, 0xB1, 0xC1, 0x15, 0x52, 0xD1, 0xF0, 0x24, 0x33, 0x62, 0x72, 0x82, 0x09, 0x0A, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4A, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5A, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6A, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7A, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0xA2, 0xA3, 0xA4, 0xA5, 0xA6, 0xA7, 0xA8, 0xA9, 0xAA, 0xB2, 0xB3, 0xB4, 0xB5, 0xB6, 0xB7, 0xB8, 0xB9, 0xBA, 0xC2, 0xC3, 0xC4, 0xC5, 0xC6, 0xC7, 0xC8, 0xC9, 0xCA, 0xD2, 0xD3, 0xD4, 0xD5, 0xD6, 0xD7, 0xD8, 0xD9, 0xDA, 0xE1, 0xE2, 0xE3, 0xE4, 0xE5, 0xE6, 0xE7, 0xE8, 0xE9, 0xEA, 0xF1, 0xF2, 0xF3, 0xF4, 0xF5, 0xF6, 0xF7, 0xF8, 0xF9, 0xFA], HuffmanTableClass::AC));
    }
    if ac_huffman_tables[1].is_none() && {
        let mut found = false;
        for ix in 0..scan.ac_table_indices.len() /*@ invariant found == exists|q: int| 0 <= q < ix && #[trigger] scan.ac_table_indices@[q] == 1 @*/ {
            let i = scan.ac_table_indices[ix];
            if i == 1 {
                found = true;
            }
        }
        found
    }
    {
        ac_huffman_tables[1] = Some(default_table(/*@ Ghost(6), @*/& [0x00, 0x02, 0x01, 0x02, 0x04, 0x04, 0x03, 0x04, 0x07, 0x05, 0x04, 0x04, 0x00, 0x01, 0x02, 0x77], & [0x00, 0x01, 0x02, 0x03, 0x11, 0x04, 0x05, 0x21, 0x31, 0x06, 0x12, 0x41, 0x51, 0x07, 0x61, 0x71, 0x13, 0x22, 0x32, 0x81, 0x08, 0x14, 0x42, 0x91, 0xA1, 0xB1, 0xC1, 0x09, 0x23, 0x33, 0x52, 0xF0, 0x15, 0x62, 0x72, 0xD1, 0x0A, 0x16, 0x24, 0x34, 0xE1, 0x25, 0xF1, 0x17, 0x18, 0x19, 0x1A, 0x26, 0x27, 0x28, 0x29, 0x2A, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4A, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5A, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6A, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7A, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0xA2, 0xA3, 0xA4, 0xA5, 0xA6, 0xA7, 0xA8, 0xA9, 0xAA, 0xB2, 0xB3, 0xB4, 0xB5, 0xB6, 0xB7, 0xB8, 0xB9, 0xBA, 0xC2, 0xC3, 0xC4, 0xC5, 0xC6, 0xC7, 0xC8, 0xC9, 0xCA, 0xD2, 0xD3, 0xD4, 0xD5, 0xD6, 0xD7, 0xD8, 0xD9, 0xDA, 0xE2, 0xE3, 0xE4, 0xE5, 0xE6, 0xE7, 0xE8, 0xE9, 0xEA, 0xF2, 0xF3, 0xF4, 0xF5, 0xF6, 0xF7, 0xF8, 0xF9, 0xFA], HuffmanTableClass::AC));
    }
}
//@end
