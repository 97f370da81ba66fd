// ---- entropy-coded units of a scan -------------------------------------------------------------------------------
/// where decoding stands: the bit buffer and the data not yet read
pub ghost struct St { pub d: HuffmanDecoder, pub rest: Seq<u8> }
impl St {
    pub open spec fn bits(self) -> Bits { strm(self.d, self.rest) }
    pub open spec fn fresh(self) -> bool { self.d.wf() && self.d.num_bits == 0 && self.d.marker is None }
    /// the marker that ends the segment and what follows it
    pub open spec fn marker(self) -> Option<Marker> { if self.d.marker is Some { self.d.marker } else if utail(self.rest).len() > 1 { marker_of(marker_code(utail(self.rest))) } else { None } }
    pub open spec fn after(self) -> Seq<u8> { if self.d.marker is Some { self.rest } else { after_marker(utail(self.rest)) } }
}
pub open spec fn state_of(d: HuffmanDecoder, rest: Seq<u8>) -> St { St { d, rest } }
/// RSTn is taken: decoding starts anew behind it
pub open spec fn restart_at(n: int, a: St, b: St) -> bool { a.marker() == Some(Marker::RST(n as u8)) && b.fresh() && b.rest == a.after() }
/// no RSTn can be taken: another marker, none at all, or data before it
pub open spec fn restart_stuck(n: int, a: St) -> bool { !seg_ok(a.d, a.rest) || a.marker() != Some(Marker::RST(n as u8)) || a.d.marker is None && avail(a.d, a.rest) > 56 }
/// from one unit to the next: a restart every r units
pub open spec fn linked(r: int, k: int, a: St, b: St) -> bool { if r > 0 && k > 0 && k % r == 0 { restart_at((k / r - 1) % 8, a, b) } else { b == a } }
/// the marker after the scan and the data behind it; none if further data precede it
pub open spec fn taken(a: St, m: Option<Marker>, rest: Seq<u8>) -> bool {
    if m is Some { a.marker() == m && rest == a.after() } else { a.d.marker is None && avail(a.d, a.rest) > 56 && utail(rest) == utail(a.rest) }
}
/// restart markers are passed over
pub open spec fn past_rst(m: Option<Marker>, s: Seq<u8>) -> Option<(Marker, Seq<u8>)> decreases s.len() via past_rst_less {
    match m { None => None, Some(Marker::RST(_)) => match next_marker(s) { None => None, Some((b, t)) => if t.len() < s.len() { past_rst(marker_of(b), t) } else { None } }, Some(x) => Some((x, s)) }
}
#[via_fn]
proof fn past_rst_less(m: Option<Marker>, s: Seq<u8>) {}
pub open spec fn scan_end(a: St, sure: bool, m: Option<Marker>, rest: Seq<u8>) -> bool {
    exists|m0: Option<Marker>, s0: Seq<u8>| #[trigger] taken(a, m0, s0) && (if m is Some { past_rst(m0, s0) == Some((m->0, rest)) } else if m0 is Some { m0->0 is RST && (sure ==> past_rst(m0, s0) is None) } else { rest == s0 })
}
pub proof fn unit_index(q: int, r: int, j: int) requires r >= 1, 0 <= j <= r, q >= 0 ensures j < r ==> (q * r + j) / r == q && (q * r + j) % r == j, j == r ==> (q * r + j) / r == q + 1 && (q * r + j) % r == 0, q * r >= 0, (q + 1) * r == q * r + r, (q * r + j > 0 && j == 0 ==> q > 0)
{
    assert((q + 1) * r == q * r + r && q * r >= 0) by (nonlinear_arith) requires q >= 0, r >= 1;
    if j < r { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(q * r + j, r, q, j); } else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(q * r + j, r, q + 1, 0); }
    if q == 0 { assert(q * r == 0) by (nonlinear_arith) requires q == 0; }
}
pub open spec fn begin(rest: Seq<u8>) -> St { St { d: HuffmanDecoder { bits: 0, num_bits: 0, marker: None }, rest } }
pub open spec fn tables_set(ts: Seq<Option<HuffmanTable>>, ix: Seq<usize>) -> bool { forall|i: int| 0 <= i < ix.len() ==> ts[#[trigger] ix[i] as int] is Some }
/// p units are done, the last j of them since restart q
pub open spec fn counted(r: int, p: int, q: int, j: int, left: int, num: int) -> bool { r > 0 ==> q >= 0 && 0 <= j <= r && p == q * r + j && left == r - j && num == q % 8 && (j == 0 ==> q == 0) }
/// ix.iter().map(|&i| frame.components[i].clone()).collect()
pub fn pick_components(f: &FrameInfo, ix: &Vec<usize>) -> (r: Vec<Component>) requires forall|i: int| 0 <= i < ix@.len() ==> #[trigger] ix@[i] < f.components@.len() ensures r.len() == ix.len(), forall|i: int| 0 <= i < ix@.len() ==> r@[i] == f.components@[#[trigger] ix@[i] as int]
{
    let mut r: Vec<Component> = Vec::new();
    for k in 0..ix.len() invariant r.len() == k, forall|i: int| 0 <= i < ix@.len() ==> #[trigger] ix@[i] < f.components@.len(), forall|i: int| 0 <= i < k ==> r@[i] == f.components@[#[trigger] ix@[i] as int]
    {
        let c = &f.components[ix[k]];
        r.push(Component { identifier: c.identifier, horizontal_sampling_factor: c.horizontal_sampling_factor, vertical_sampling_factor: c.vertical_sampling_factor, quantization_table_index: c.quantization_table_index, dct_scale: c.dct_scale, size: c.size, block_size: c.block_size });
    }
    r
}
