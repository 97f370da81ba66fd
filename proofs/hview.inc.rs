pub type TabView = (Seq<u8>, Seq<u8>);
pub open spec fn hview(t: Option<HuffmanTable>) -> Option<TabView> { match t { None => None, Some(h) => Some((h.lens@, h.values@)) } }
pub open spec fn hviews(t: Seq<Option<HuffmanTable>>) -> Seq<Option<TabView>> { Seq::new(t.len(), |i: int| hview(t[i])) }
