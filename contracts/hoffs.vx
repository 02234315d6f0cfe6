// ---- answers over range requests: where each feature starts
impl HttpRange {
    pub open spec fn at(self) -> int { match self { HttpRange::Range(r) => r.start as int, HttpRange::RangeFrom(r) => r.start as int } }
}
/// the offsets answered, relative to the begin of the features
pub open spec fn hoffs(fb: int, r: Seq<HttpSearchResultItem>) -> Seq<u64> { Seq::new(r.len(), |i: int| (r[i].range.at() - fb) as u64) }
/// every range of the answer begins at a feature and is open ended
pub open spec fn all_from(fb: int, r: Seq<HttpSearchResultItem>) -> bool { forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).range is RangeFrom && r[i].range.at() >= fb }
