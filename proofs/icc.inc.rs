// ---- ICC profile ---------------------------------------------------------------------------------------------
pub open spec fn has_seq(c: Seq<IccChunk>, k: int) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).seq_no == k }
/// every number 1..n occurs, none twice, all chunks agree on n
pub open spec fn icc_complete(c: Seq<IccChunk>) -> bool {
    let n = c.len();
    &&& 1 <= n <= 255
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] c[i]).num_markers == n && c[i].seq_no >= 1
    &&& forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] c[i]).seq_no != (#[trigger] c[j]).seq_no
    &&& forall|k: int| 1 <= k <= n ==> has_seq(c, k)
}
pub open spec fn chunk_no(c: Seq<IccChunk>, k: int) -> IccChunk { c[choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).seq_no == k] }
/// payloads of the chunks numbered 1..k in this order
pub open spec fn icc_cat(c: Seq<IccChunk>, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { icc_cat(c, k - 1) + chunk_no(c, k).data@ } }
pub fn vec_extend(v: &mut Vec<u8>, x: &Vec<u8>) ensures final(v)@ == old(v)@ + x@
{
    let ghost v0 = v@;
    for k in 0..x.len() invariant v@ == v0 + x@.take(k as int) { v.push(x[k]); assert(v@ =~= v0 + x@.take(k + 1)); }
    assert(v@ =~= v0 + x@);
}
/// slot k holds the first chunk so far numbered k
pub open spec fn slot_ok(c: Seq<IccChunk>, n: int, k: int, s: Option<&IccChunk>) -> bool {
    match s { Some(x) => exists|i: int| 0 <= i < n && #[trigger] c[i] == *x && c[i].seq_no == k, None => forall|i: int| 0 <= i < n ==> (#[trigger] c[i]).seq_no != k }
}
impl<R: Read> Decoder<R> {
//@fn src/decoder.rs Decoder::icc_profile
//@rw usize_from
//@sub `for $c in & self . icc_markers {` => `for ix in 0 .. self . icc_markers . len ( ) { let $c = & self . icc_markers [ ix ] ;`
//@sub `for & $c in $a . get ( 1 ..= $n ) ? {` => `if ! ( $n < $a . len ( ) ) { return None ; } for ix in 1 .. $n + 1 { let $c = $a [ ix ] ;`
//@sub `data . extend_from_slice ( & $$e ) ;` => `vec_extend ( & mut data , & $$e ) ;`
pub fn icc_profile(&self) -> /*@ (r: @*/ Option<Vec<u8>> /*@ )
    ensures r is Some <==> icc_complete(self.icc_markers@), r matches Some(v) ==> v@ == icc_cat(self.icc_markers@, self.icc_markers@.len() as int) @*/ {
    /*@ let ghost c = self.icc_markers@; @*/
    let mut marker_present: [Option<&IccChunk>; 256] = [None; 256];
    let num_markers = self.icc_markers.len();
    if num_markers == 0 || num_markers > 255 {
        return None;
    }
    for ix in 0..self.icc_markers.len() /*@
        invariant c == self.icc_markers@, num_markers == c.len(), 1 <= num_markers <= 255,
            forall|i: int| 0 <= i < ix ==> (#[trigger] c[i]).num_markers == num_markers && c[i].seq_no >= 1,
            forall|i: int, j: int| 0 <= i < j < ix ==> (#[trigger] c[i]).seq_no != (#[trigger] c[j]).seq_no,
            forall|k: int| 0 <= k < 256 ==> slot_ok(c, ix as int, k, #[trigger] marker_present@[k]), @*/ {
        let chunk = &self.icc_markers[ix];
        if ((chunk.num_markers) as usize) != num_markers {
            return None;
        }
        if chunk.seq_no == 0 {
            return None;
        }
        /*@ let ghost before = marker_present@; assert(slot_ok(c, ix as int, chunk.seq_no as int, before[chunk.seq_no as int])); @*/
        if marker_present[((chunk.seq_no) as usize)].is_some() {
            /*@ proof { let i = choose|i: int| 0 <= i < ix && #[trigger] c[i] == *(before[chunk.seq_no as int]->0) && c[i].seq_no == chunk.seq_no; assert(c[i].seq_no == c[ix as int].seq_no); } @*/
            return None;
        } else {
            marker_present[((chunk.seq_no) as usize)] = Some(chunk);
        }
        /*@ proof { assert forall|k: int| 0 <= k < 256 implies slot_ok(c, ix + 1, k, #[trigger] marker_present@[k]) by {
            assert(slot_ok(c, ix as int, k, before[k]));
            if k == chunk.seq_no { assert(c[ix as int] == *chunk); } else { assert(marker_present@[k] == before[k]);
                match before[k] { Some(x) => { let i = choose|i: int| 0 <= i < ix && #[trigger] c[i] == *x && c[i].seq_no == k; assert(c[i] == *x); }, None => {} } } } } @*/
    }
    let mut data = Vec::new();
    if !(num_markers < marker_present.len()) {
        return None;
    }
    for ix in 1..num_markers + 1 /*@
        invariant c == self.icc_markers@, num_markers == c.len(), 1 <= num_markers <= 255, 1 <= ix,
            forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).seq_no != (#[trigger] c[j]).seq_no,
            forall|k: int| 0 <= k < 256 ==> slot_ok(c, c.len() as int, k, #[trigger] marker_present@[k]),
            forall|k: int| 1 <= k < ix ==> has_seq(c, k), data@ == icc_cat(c, ix - 1), @*/ {
        let chunk = marker_present[ix];
        /*@ proof { assert(slot_ok(c, c.len() as int, ix as int, marker_present@[ix as int]));
            if chunk is None { assert(!has_seq(c, ix as int)); } else {
                let x = *(chunk->0); let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i] == x && c[i].seq_no == ix; assert(c[i].seq_no == ix); assert(has_seq(c, ix as int));
                let j = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).seq_no == ix; if i < j { assert(c[i].seq_no != c[j].seq_no); } if j < i { assert(c[j].seq_no != c[i].seq_no); } assert(chunk_no(c, ix as int) == x);
            } } @*/
        vec_extend(&mut data, &chunk?.data);
    }
    Some(data)
}
//@end
}
