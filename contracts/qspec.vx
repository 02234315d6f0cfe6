// ---- answers of an index as sets of offsets: an index holds entries (rank of the key, offset)
pub open spec fn hit(e: Seq<(int, u64)>, lo: int, hi: int, o: u64) -> bool {
    exists|k: int| 0 <= k < e.len() && (#[trigger] e[k]).1 == o && lo <= e[k].0 <= hi
}
/// every offset is indexed once
pub open spec fn distinct(e: Seq<(int, u64)>) -> bool {
    forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> (#[trigger] e[i]).1 != (#[trigger] e[j]).1
}
pub open spec fn exact_set(e: Seq<(int, u64)>, v: int, r: Seq<u64>) -> bool {
    &&& forall|o: u64| #[trigger] r.contains(o) <==> hit(e, v, v, o)
    &&& distinct(e) ==> r.no_duplicates()
}
/// what a range lookup promises: nothing outside [lo, hi], everything in [lo, hi) (known finding: an upper bound that is a
/// separator may be left out), and the exact answer when the bounds coincide
pub open spec fn range_set(e: Seq<(int, u64)>, lo: int, hi: int, r: Seq<u64>) -> bool {
    &&& forall|o: u64| #[trigger] r.contains(o) ==> hit(e, lo, hi, o)
    &&& forall|o: u64| hit(e, lo, hi - 1, o) ==> #[trigger] r.contains(o)
    &&& lo == hi ==> exact_set(e, lo, r)
    &&& distinct(e) ==> r.no_duplicates()
}
