// unit http: reading features over range requests (P18)
use vstd::prelude::*;
use std::ops::{Range, RangeFrom};
use std::collections::VecDeque;
verus! {
global size_of usize == 8;
pub enum Error { NoIndex, MissingMagicBytes, IllegalHeaderSize(usize), AttributeIndexNotFound, NoColumnsInHeader, AttributeIndexSizeOverflow, Other }
pub type Result<T, E = Error> = core::result::Result<T, E>;
%%include featsec.vx
// ---- range requests (crates http_range_client and bytes, assumed): the server holds the file d; a range that is asked for lies in the file
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct AsyncBufferedHttpRangeClient<T> { x: core::marker::PhantomData<T> }
pub trait AsyncHttpRangeClient {}
#[verifier::external_body] pub struct Bytes { x: u8 }
#[verifier::external_body] pub struct BytesMut { x: u8 }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl BytesMut {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn from(b: Bytes) -> (r: BytesMut) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, b: Bytes) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
impl<T> AsyncBufferedHttpRangeClient<T> {
    pub uninterp spec fn file(&self) -> Seq<u8>;
    /// no request reaches at or past the end of the file
    #[verifier::external_body] pub fn get_range(&mut self, begin: usize, length: usize) -> (r: Result<Bytes>)
        requires 0 < length, begin + length <= old(self).file().len(),
        ensures final(self).file() == old(self).file(), r is Ok ==> r->Ok_0@ == old(self).file().subrange(begin as int, begin + length) { unimplemented!() }
    #[verifier::external_body] pub fn set_min_req_size(&mut self, n: usize) ensures final(self).file() == old(self).file() { unimplemented!() }
}
pub struct LittleEndian;
impl LittleEndian { #[verifier::external_body] pub fn read_u32(b: &BytesMut) -> (r: u32) requires b@.len() >= 4 ensures r == le32(b@.subrange(0, 4)) { unimplemented!() } }
%%item packed_rtree/mod.rs pub enum HttpRange
%%item packed_rtree/mod.rs pub struct HttpSearchResultItem
impl HttpRange {
    pub open spec fn at(self) -> int { match self { HttpRange::Range(r) => r.start as int, HttpRange::RangeFrom(r) => r.start as int } }
    pub open spec fn until(self) -> int { match self { HttpRange::Range(r) => r.end as int, HttpRange::RangeFrom(r) => -1 } }
}
%%fn packed_rtree/mod.rs "impl HttpRange" start
%%ret r
%%spec
    ensures r == self.at(),
%%done
%%fn packed_rtree/mod.rs "impl HttpRange" length
%%ret r
%%spec
    requires self is Range ==> self.at() <= self.until(),
    ensures r == (if self is Range { Some((self.until() - self.at()) as usize) } else { None }),
%%done
// ---- what is still to be delivered: positions in the file
pub open spec fn starts(r: Seq<HttpRange>) -> Seq<int> { r.map_values(|x: HttpRange| x.at()) }
pub open spec fn item_starts(r: Seq<HttpSearchResultItem>) -> Seq<int> { r.map_values(|x: HttpSearchResultItem| x.range.at()) }
/// ranges of features in ascending order; only the last one may be open
pub open spec fn ranges_ok(r: Seq<HttpRange>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> ((#[trigger] r[i]) is Range ==> r[i].at() <= r[i].until())
    &&& forall|i: int| 0 <= i < r.len() - 1 ==> (#[trigger] r[i]) is Range
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).until() <= (#[trigger] r[j]).at()
}
pub open spec fn ranges_of(l: Seq<HttpSearchResultItem>) -> Seq<HttpRange> { l.map_values(|x: HttpSearchResultItem| x.range) }
%%pubitem http_reader/mod.rs struct FeatureBatch
%%pubitem http_reader/mod.rs struct SelectAll
%%pubitem http_reader/mod.rs struct SelectBbox
%%pubitem http_reader/mod.rs struct SelectAttr
%%pubitem http_reader/mod.rs enum FeatureSelection
/// the batches are used from the last to the first
pub open spec fn flat(b: Seq<VecDeque<HttpRange>>) -> Seq<HttpRange> decreases b.len() { if b.len() == 0 { Seq::empty() } else { flat(b.drop_last()) + b.last()@ } }
pub open spec fn queued(b: Seq<FeatureBatch>) -> Seq<HttpRange> decreases b.len() { if b.len() == 0 { Seq::empty() } else { b.last().feature_ranges@ + queued(b.drop_last()) } }
%%fn http_reader/mod.rs "impl FeatureBatch" new
%%ret r
%%spec
    ensures r.feature_ranges == feature_ranges,
%%done
/// v.last_mut()
#[verifier::external_body] pub fn last_of<X>(v: &mut Vec<X>) -> (r: Option<&mut X>)
    ensures match r { Some(x) => old(v)@.len() > 0 && *x == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(x)), None => old(v)@.len() == 0 && final(v)@ == old(v)@ } { unimplemented!() }
#[verifier::external_body] pub fn back_of<X>(v: &VecDeque<X>) -> (r: Option<&X>) ensures match r { Some(x) => v@.len() > 0 && *x == v@.last(), None => v@.len() == 0 } { unimplemented!() }
#[verifier::external_body] pub fn front_of<X>(v: &VecDeque<X>) -> (r: Option<&X>) ensures match r { Some(x) => v@.len() > 0 && *x == v@[0], None => v@.len() == 0 } { unimplemented!() }
/// the i-th item of the list that is consumed
#[verifier::external_body] pub fn take<X>(v: &Vec<X>, i: usize) -> (r: X) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn reverse<X>(v: &mut Vec<X>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }
/// v.into_iter().map(FeatureBatch::new).collect()
pub fn each_batch(v: Vec<VecDeque<HttpRange>>) -> (r: Vec<FeatureBatch>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] r@[i]).feature_ranges == v@[i],
{
    let mut r: Vec<FeatureBatch> = Vec::new(); let mut i: usize = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), r@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j]).feature_ranges == v@[j],
        decreases v@.len() - i
    { r.push(FeatureBatch::new(take(&v, i))); i += 1; }
    r
}
pub proof fn lemma_reversed(v: Seq<VecDeque<HttpRange>>, b: Seq<FeatureBatch>)
    requires b.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] b[i]).feature_ranges == v[v.len() - 1 - i]
    ensures queued(b) == flat(v),
    decreases v.len()
{
    if v.len() > 0 {
        // the last batch of b is the first of v
        let v1 = v.subrange(1, v.len() as int);
        lemma_reversed(v1, b.drop_last());
        lemma_flat_front(v);
    }
}
pub proof fn lemma_flat_front(v: Seq<VecDeque<HttpRange>>)
    requires v.len() > 0
    ensures flat(v) == v[0]@ + flat(v.subrange(1, v.len() as int)),
    decreases v.len()
{
    let v1 = v.subrange(1, v.len() as int);
    if v.len() == 1 { assert(v.drop_last() =~= Seq::empty()); assert(flat(v.drop_last()) =~= Seq::<HttpRange>::empty()); assert(v1 =~= Seq::empty()); assert(flat(v) =~= v[0]@ + flat(v1)); }
    else { lemma_flat_front(v.drop_last()); assert(v.drop_last().subrange(1, v.len() - 1) =~= v1.drop_last()); assert(flat(v1) == flat(v1.drop_last()) + v1.last()@); assert(flat(v) =~= v[0]@ + flat(v1)); }
}
pub proof fn lemma_flat_push(b0: Seq<VecDeque<HttpRange>>, x: HttpRange)
    ensures
        forall|b: VecDeque<HttpRange>| b@ == Seq::<HttpRange>::empty().push(x) ==> flat(#[trigger] b0.push(b)) == flat(b0).push(x),
        b0.len() > 0 ==> forall|b: VecDeque<HttpRange>| b@ == b0.last()@.push(x) ==> flat(#[trigger] b0.drop_last().push(b)) == flat(b0).push(x),
{
    assert forall|b: VecDeque<HttpRange>| b@ == Seq::<HttpRange>::empty().push(x) implies flat(#[trigger] b0.push(b)) == flat(b0).push(x) by { assert(b0.push(b).drop_last() =~= b0); assert(flat(b0.push(b)) =~= flat(b0).push(x)); }
    if b0.len() > 0 {
        assert forall|b: VecDeque<HttpRange>| b@ == b0.last()@.push(x) implies flat(#[trigger] b0.drop_last().push(b)) == flat(b0).push(x) by { assert(b0.drop_last().push(b).drop_last() =~= b0.drop_last()); assert(flat(b0.drop_last().push(b)) =~= flat(b0).push(x)); }
    }
}
%%fn http_reader/mod.rs "impl FeatureBatch" make_batches
%%ret r
%%deasync
%%loops 1
%%dropmacro trace
%%sub `for search_result_item in feature_ranges.into_iter() {` => `let mut _i: usize = 0; while _i < feature_ranges.len() { let search_result_item = take(&feature_ranges, _i); _i += 1;`
%%sub `let mut batched_ranges = vec![];` => `let mut batched_ranges: Vec<VecDeque<HttpRange>> = vec![];`
%%sub `batched_ranges.last_mut()` => `last_of(&mut batched_ranges)`
%%sub `latest_batch.back()` => `back_of(&*latest_batch)`
%%sub `let HttpRange::Range(Range { end: prev_end, .. }) = previous_item else {` => `let _end = match previous_item { HttpRange::Range(_r) => Some(_r.end), _ => None }; let Some(prev_end) = _end else {`
%%sub `batched_ranges.into_iter().map(FeatureBatch::new).collect();` => `each_batch(batched_ranges);`
%%sub? `batches.reverse();` => `reverse(&mut batches);`
%%spec
    requires
        ranges_ok(ranges_of(feature_ranges@)),
    ensures
        r is Ok, queued(r->Ok_0@) == ranges_of(feature_ranges@), forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i]).feature_ranges@.len() > 0,
%%start
    let ghost all = ranges_of(feature_ranges@);
%%loop 0
    invariant
        all == ranges_of(feature_ranges@), ranges_ok(all), 0 <= _i <= feature_ranges@.len(),
        flat(batched_ranges@) == all.subrange(0, _i as int),
        forall|i: int| 0 <= i < batched_ranges@.len() ==> (#[trigger] batched_ranges@[i])@.len() > 0,
    decreases feature_ranges@.len() - _i
%%loopstart 0
    let ghost b0 = batched_ranges@;
    proof {
        let x = all[_i as int];
        assert(all[_i as int] == feature_ranges@[_i as int].range);
        assert(all.subrange(0, _i + 1) =~= all.subrange(0, _i as int).push(x));
        lemma_flat_push(b0, x);
        if b0.len() > 0 { assert(b0.drop_last().push(b0.last()) =~= b0); assert(b0[b0.len() - 1]@.len() > 0); assert(flat(b0).last() == b0.last()@.last()); assert(flat(b0)[_i - 1] == all[_i - 1]); assert(all[_i - 1].until() <= all[_i as int].at()); }
    }
%%post 0
    let ghost b1 = batched_ranges@;
%%end
    proof { assert(all.subrange(0, all.len() as int) =~= all); lemma_reversed(b1, batches@); }
%%done

/// a..b, its length, cut at m
#[verifier::external_body] pub fn min_len(r: &Range<usize>, m: usize) -> (n: usize) ensures n <= m { unimplemented!() }
%%fn http_reader/mod.rs "impl FeatureBatch" request_size
%%ret r
%%sub `self.feature_ranges.front()` => `front_of(&self.feature_ranges)`
%%sub `self.feature_ranges.back()` => `back_of(&self.feature_ranges)`
%%sub `covering_range .len() .min(` => `min_len(&covering_range, `
%%spec
    requires
        forall|i: int| 0 <= i < self.feature_ranges@.len() ==> ((#[trigger] self.feature_ranges@[i]) is Range ==> self.feature_ranges@[i].at() <= self.feature_ranges@[i].until()) && self.feature_ranges@[i].at() < 0x1000_0000_0000_0000,
%%done
%%item http_reader/mod.rs const DEFAULT_HTTP_FETCH_SIZE
/// position s is the start of a feature
pub open spec fn at_feature(d: Seq<u8>, base: int, n: int, s: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] start(d, base, i) == s }
pub open spec fn good(d: Seq<u8>, base: int, n: int, x: HttpRange) -> bool { at_feature(d, base, n, x.at()) && (x is Range ==> x.at() <= x.until()) }
pub open spec fn all_good(d: Seq<u8>, base: int, n: int, l: Seq<HttpRange>) -> bool { forall|j: int| 0 <= j < l.len() ==> good(d, base, n, #[trigger] l[j]) }
/// the feature there
pub open spec fn feature_from(d: Seq<u8>, s: int) -> Seq<u8> { d.subrange(s, s + 4 + le32(d.subrange(s, s + 4))) }
pub proof fn lemma_feature_from(d: Seq<u8>, base: int, n: int, s: int)
    requires features_ok(d, base, n), at_feature(d, base, n, s)
    ensures base <= s, le32(d.subrange(s, s + 4)) > 0, s + 4 + le32(d.subrange(s, s + 4)) <= d.len() < 0x1000_0000_0000_0000, feature_valid(feature_from(d, s)),
        feature_from(d, s) == d.subrange(s, s + 4) + d.subrange(s + 4, s + 4 + le32(d.subrange(s, s + 4))), d.subrange(s, s + 4).subrange(0, 4) == d.subrange(s, s + 4),
{
    reveal(features_ok);
    let i = choose|i: int| 0 <= i < n && #[trigger] start(d, base, i) == s;
    assert(start(d, base, i) + 4 < start(d, base, i + 1));
    assert(feature_valid(feat(d, base, i)));
    assert(feature_from(d, s) =~= d.subrange(s, s + 4) + d.subrange(s + 4, s + 4 + le32(d.subrange(s, s + 4))));
    assert(d.subrange(s, s + 4).subrange(0, 4) =~= d.subrange(s, s + 4));
}
pub open spec fn delivered(r: Result<Option<Bytes>>, d: Seq<u8>, was: Seq<int>, is: Seq<int>) -> bool {
    r is Ok ==> match r->Ok_0 { Some(b) => was.len() > 0 && b@ == feature_from(d, was[0]) && is == was.subrange(1, was.len() as int), None => was.len() == 0 && is.len() == 0 }
}
%%fn http_reader/mod.rs "impl FeatureBatch" next_buffer
%%ret r
%%deasync
%%sig `client: &mut AsyncBufferedHttpRangeClient<T>,` => `client: &mut AsyncBufferedHttpRangeClient<T>, Ghost(base): Ghost<int>, Ghost(n): Ghost<int>,`
%%spec
    requires
        features_ok(old(client).file(), base, n), all_good(old(client).file(), base, n, old(self).feature_ranges@),
    ensures
        final(client).file() == old(client).file(), delivered(r, old(client).file(), starts(old(self).feature_ranges@), starts(final(self).feature_ranges@)),
        r is Ok ==> match r->Ok_0 { Some(b) => final(self).feature_ranges@ == old(self).feature_ranges@.subrange(1, old(self).feature_ranges@.len() as int), None => final(self).feature_ranges@.len() == 0 },
%%start
    let ghost d = client.file(); let ghost q = self.feature_ranges@;
    proof {
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).at() < 0x1000_0000_0000_0000 by { assert(good(d, base, n, q[i])); lemma_feature_from(d, base, n, q[i].at()); }
        if q.len() > 0 { assert(good(d, base, n, q[0])); assert(starts(q)[0] == q[0].at()); lemma_feature_from(d, base, n, starts(q)[0]); assert(starts(q.subrange(1, q.len() as int)) =~= starts(q).subrange(1, q.len() as int)); }
    }
%%done

// ---- all features
pub open spec fn rest(d: Seq<u8>, base: int, n: int, left: int) -> Seq<int> { Seq::new(left as nat, |j: int| start(d, base, n - left + j)) }
%%fn http_reader/mod.rs "impl SelectAll" next_buffer
%%ret r
%%deasync
%%sig `client: &mut AsyncBufferedHttpRangeClient<T>,` => `client: &mut AsyncBufferedHttpRangeClient<T>, Ghost(base): Ghost<int>, Ghost(n): Ghost<int>,`
%%sub `client.min_req_size(` => `client.set_min_req_size(`
%%spec
    requires
        features_ok(old(client).file(), base, n), old(self).features_left <= n, old(self).pos == start(old(client).file(), base, n - old(self).features_left),
    ensures
        final(client).file() == old(client).file(), delivered(r, old(client).file(), rest(old(client).file(), base, n, old(self).features_left as int), rest(old(client).file(), base, n, final(self).features_left as int)),
        r is Ok ==> final(self).features_left <= n && final(self).pos == start(old(client).file(), base, n - final(self).features_left),
%%start
    let ghost d = client.file(); let ghost l = self.features_left as int;
    proof {
        if l > 0 {
            let i = n - l; assert(start(d, base, i) == self.pos); assert(at_feature(d, base, n, self.pos as int)); lemma_feature_from(d, base, n, self.pos as int);
            assert(rest(d, base, n, l).subrange(1, l) =~= rest(d, base, n, l - 1)); assert(start(d, base, i + 1) == start(d, base, i) + 4 + le32(d.subrange(start(d, base, i), start(d, base, i) + 4)));
        }
    }
%%done
// ---- features of a spatial query
pub open spec fn no_empty(b: Seq<FeatureBatch>) -> bool { forall|i: int| 0 <= i < b.len() - 1 ==> (#[trigger] b[i]).feature_ranges@.len() > 0 }
pub proof fn lemma_last(d: Seq<u8>, base: int, n: int, b: Seq<FeatureBatch>)
    requires b.len() > 0, all_good(d, base, n, queued(b))
    ensures all_good(d, base, n, b.last().feature_ranges@), all_good(d, base, n, queued(b.drop_last())), queued(b) == b.last().feature_ranges@ + queued(b.drop_last()),
{
    let q = queued(b); let l = b.last().feature_ranges@; let t = queued(b.drop_last());
    assert(q == l + t);
    assert forall|j: int| 0 <= j < l.len() implies good(d, base, n, #[trigger] l[j]) by { assert(q[j] == l[j]); }
    assert forall|j: int| 0 <= j < t.len() implies good(d, base, n, #[trigger] t[j]) by { assert(q[l.len() + j] == t[j]); }
}
%%fn http_reader/mod.rs "impl SelectBbox" next_buffer
%%ret r
%%deasync
%%loops 1
%%sig `client: &mut AsyncBufferedHttpRangeClient<T>,` => `client: &mut AsyncBufferedHttpRangeClient<T>, Ghost(base): Ghost<int>, Ghost(n): Ghost<int>,`
%%sub `let mut next_buffer = None;` => `let mut next_buffer: Option<Bytes> = None;`
%%sub `self.feature_batches.last_mut()` => `last_of(&mut self.feature_batches)`
%%sub `feature_batch.next_buffer(client)` => `feature_batch.next_buffer(client, Ghost(base), Ghost(n))`
%%sub `.pop() .expect("already asserted feature_batches was non-empty")` => `.pop()`
%%spec
    requires
        features_ok(old(client).file(), base, n), all_good(old(client).file(), base, n, queued(old(self).feature_batches@)),
    ensures
        final(client).file() == old(client).file(), delivered(r, old(client).file(), starts(queued(old(self).feature_batches@)), starts(queued(final(self).feature_batches@))),
        r is Ok ==> all_good(old(client).file(), base, n, queued(final(self).feature_batches@)),
%%start
    let ghost d = client.file(); let ghost q0 = queued(self.feature_batches@);
%%loop 0
    invariant
        d == old(client).file(), features_ok(d, base, n), client.file() == d, all_good(d, base, n, queued(self.feature_batches@)), all_good(d, base, n, q0), next_buffer is None ==> queued(self.feature_batches@) == q0,
        next_buffer is Some ==> q0.len() > 0 && next_buffer->0@ == feature_from(d, q0[0].at()) && queued(self.feature_batches@) == q0.subrange(1, q0.len() as int),
    ensures
        next_buffer is None ==> q0.len() == 0,
    decreases self.feature_batches@.len(), (if next_buffer is None { 1int } else { 0int })
%%loopstart 0
    let ghost b0 = self.feature_batches@;
    proof {
        if b0.len() > 0 {
            lemma_last(d, base, n, b0); let l = b0.last().feature_ranges@; let t = queued(b0.drop_last());
            if l.len() > 0 { assert(q0.subrange(1, q0.len() as int) =~= l.subrange(1, l.len() as int) + t); assert(q0[0] == l[0]); }
            else { assert(q0 =~= t); }
            assert forall|x: FeatureBatch| queued(#[trigger] b0.drop_last().push(x)) == x.feature_ranges@ + t by { assert(b0.drop_last().push(x).drop_last() =~= b0.drop_last()); }
            assert forall|j: int| 0 <= j < q0.len() - 1 implies good(d, base, n, #[trigger] q0.subrange(1, q0.len() as int)[j]) by { assert(good(d, base, n, q0[j + 1])); }
        }
    }
%%end
    proof { if q0.len() > 0 { assert(starts(q0.subrange(1, q0.len() as int)) =~= starts(q0).subrange(1, q0.len() as int)); } }
%%done
// ---- features of an attribute query
%%fn http_reader/mod.rs "impl SelectAttr" next_buffer
%%ret r
%%deasync
%%dropmacro println
%%sig `client: &mut AsyncBufferedHttpRangeClient<T>,` => `client: &mut AsyncBufferedHttpRangeClient<T>, Ghost(base): Ghost<int>, Ghost(n): Ghost<int>,`
%%spec
    requires
        features_ok(old(client).file(), base, n), all_good(old(client).file(), base, n, old(self).ranges@), old(self).range_pos <= old(self).ranges@.len(),
    ensures
        final(client).file() == old(client).file(), final(self).ranges == old(self).ranges, final(self).range_pos <= old(self).ranges@.len(),
        delivered(r, old(client).file(), starts(old(self).ranges@).skip(old(self).range_pos as int), starts(old(self).ranges@).skip(final(self).range_pos as int)),
%%start
    let ghost d = client.file();
    proof {
        let p = self.range_pos as int; assert(self.ranges.len() == self.ranges@.len());
        if p < self.ranges@.len() { assert(good(d, base, n, self.ranges@[p])); lemma_feature_from(d, base, n, self.ranges@[p].at()); assert(starts(self.ranges@).skip(p).subrange(1, self.ranges@.len() - p) =~= starts(self.ranges@).skip(p + 1)); }
    }
%%done
/// what a selection still delivers, and that it is in order
pub open spec fn pend(s: FeatureSelection, d: Seq<u8>, base: int, n: int) -> Seq<int> {
    match s {
        FeatureSelection::SelectAll(a) => rest(d, base, n, a.features_left as int),
        FeatureSelection::SelectBbox(b) => starts(queued(b.feature_batches@)),
        FeatureSelection::SelectAttr(a) => starts(a.ranges@).skip(a.range_pos as int),
    }
}
pub open spec fn sel_ok(s: FeatureSelection, d: Seq<u8>, base: int, n: int) -> bool {
    features_ok(d, base, n) && match s {
        FeatureSelection::SelectAll(a) => a.features_left <= n && a.pos == start(d, base, n - a.features_left),
        FeatureSelection::SelectBbox(b) => all_good(d, base, n, queued(b.feature_batches@)),
        FeatureSelection::SelectAttr(a) => all_good(d, base, n, a.ranges@) && a.range_pos <= a.ranges@.len(),
    }
}
%%fn http_reader/mod.rs "impl FeatureSelection" next_feature_buffer
%%ret r
%%deasync
%%sig `client: &mut AsyncBufferedHttpRangeClient<T>,` => `client: &mut AsyncBufferedHttpRangeClient<T>, Ghost(base): Ghost<int>, Ghost(n): Ghost<int>,`
%%sub `.next_buffer(client)` => `.next_buffer(client, Ghost(base), Ghost(n))`
%%spec
    requires
        sel_ok(*old(self), old(client).file(), base, n),
    ensures
        final(client).file() == old(client).file(), delivered(r, old(client).file(), pend(*old(self), old(client).file(), base, n), pend(*final(self), old(client).file(), base, n)),
        r is Ok ==> sel_ok(*final(self), old(client).file(), base, n),
%%done
#[verifier::reject_recursive_types(T)]
%%pubitem http_reader/mod.rs pub struct AsyncFeatureIter
%%fn http_reader/mod.rs "impl<T: AsyncHttpRangeClient + Send + Sync> AsyncFeatureIter<T>" next
%%ret r
%%deasync
%%sig `(&mut self)` => `(&mut self, Ghost(base): Ghost<int>, Ghost(n): Ghost<int>)`
%%sig `Option<&FcbBuffer>` => `Option<()>`
%%sub `Ok(Some(&self.fbs))` => `Ok(Some(()))`
%%sub `.next_feature_buffer(&mut self.client)` => `.next_feature_buffer(&mut self.client, Ghost(base), Ghost(n))`
%%spec
    requires
        sel_ok(old(self).selection, old(self).client.file(), base, n),
    ensures
        final(self).client.file() == old(self).client.file(), final(self).fbs.header_buf == old(self).fbs.header_buf,
        r is Ok ==> sel_ok(final(self).selection, old(self).client.file(), base, n) && ({
            let d = old(self).client.file(); let was = pend(old(self).selection, d, base, n); let is = pend(final(self).selection, d, base, n);
            match r->Ok_0 { Some(_) => was.len() > 0 && final(self).fbs.features_buf@ == feature_from(d, was[0]) && is == was.subrange(1, was.len() as int), None => was.len() == 0 && is.len() == 0 }
        }),
%%done

// ---- opening a file and selecting
#[verifier::reject_recursive_types(T)]
%%pubitem http_reader/mod.rs pub struct HttpFcbReader
%%item const_vars.rs pub const MAGIC_BYTES_SIZE
%%item const_vars.rs pub const HEADER_SIZE_SIZE
/// a file behind the magic bytes, with its header
pub open spec fn reader_ok<T: AsyncHttpRangeClient + Send + Sync>(r: HttpFcbReader<T>) -> bool { file_ok(r.client.file(), r.fbs.header_buf@) }
%%fn http_reader/mod.rs "impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T>" attr_index_size
%%loops 1
%%sub `header .attribute_index() .map(|attr_index| {` => `match header.attribute_index() { Some(attr_index) => {`
%%sub `attr_index .iter() .try_fold(0, |acc, ai| {` => `let mut acc: usize = 0; let mut _bad = false; let mut _i: usize = 0; while _i < attr_index.len() && !_bad { let ai = attr_index.get(_i); let _o: Result<usize, Error> = {`
%%sub `Error::AttributeIndexSizeOverflow` => `Error::Other`
%%sub `}) .unwrap_or(0) }) .unwrap_or(0)` => `}; match _o { Ok(x) => { acc = x; } Err(_) => { _bad = true; } } _i += 1; } let _r: usize = if _bad { 0 } else { acc }; _r }, None => 0 }`
%%ret r
%%spec
    requires hdr_attr_size(self.fbs.header_buf@) <= u32::MAX,
    ensures r == hdr_attr_size(self.fbs.header_buf@),
%%loop 0
    invariant 0 <= _i <= attr_index@.len(), hdr_attrs(self.fbs.header_buf@) == Some(attr_index@), lens(attr_index@, attr_index@.len() as int) <= u32::MAX, !_bad, acc == lens(attr_index@, _i as int),
    decreases attr_index@.len() - _i
%%loopstart 0
    proof { lemma_lens(attr_index@, _i as int + 1, attr_index@.len() as int); lemma_lens(attr_index@, _i as int, _i + 1); }
%%done
%%fn http_reader/mod.rs "impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T>" header_len
%%ret r
%%spec
    requires reader_ok(*self),
    ensures r == 8 + self.fbs.header_buf@.len(),
%%start
    proof { lemma_file(self.client.file(), self.fbs.header_buf@); }
%%done
%%fn http_reader/mod.rs "impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T>" rtree_index_size
%%ret r
%%spec
    ensures r == rtree_len(self.fbs.header_buf@),
%%done
%%fn http_reader/mod.rs "impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T>" index_size
%%ret r
%%spec
    requires reader_ok(*self),
    ensures r == rtree_len(self.fbs.header_buf@) + hdr_attr_size(self.fbs.header_buf@),
%%start
    proof { lemma_file(self.client.file(), self.fbs.header_buf@); }
%%done
pub open spec fn all_starts(d: Seq<u8>, h: Seq<u8>) -> Seq<int> { Seq::new(hdr_count(h) as nat, |j: int| start(d, feat_base(h), j)) }
%%fn http_reader/mod.rs "impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T>" select_all
%%ret r
%%deasync
%%spec
    requires
        reader_ok(self),
    ensures
        r is Ok, ({ let d = self.client.file(); let h = self.fbs.header_buf@; let it = r->Ok_0;
            it.client.file() == d && it.fbs.header_buf@ == h && it.count == hdr_count(h) && sel_ok(it.selection, d, feat_base(h), hdr_count(h) as int)
                && pend(it.selection, d, feat_base(h), hdr_count(h) as int) == all_starts(d, h) }),
%%start
    proof { lemma_file(self.client.file(), self.fbs.header_buf@); assert(rest(self.client.file(), feat_base(self.fbs.header_buf@), hdr_count(self.fbs.header_buf@) as int, hdr_count(self.fbs.header_buf@) as int) =~= all_starts(self.client.file(), self.fbs.header_buf@)); }
%%done
/// the features that match, in file order
pub open spec fn is_matching(ks: Seq<int>, d: Seq<u8>, h: Seq<u8>, q: Query) -> bool {
    let n = hdr_count(h) as int; let ns = hdr_node_size(h) as int; let at = 8 + h.len() as int;
    &&& forall|j: int| 0 <= j < ks.len() ==> 0 <= #[trigger] ks[j] < n && leaf_matches(d, at, n, ns, ks[j], q)
    &&& forall|j: int, k: int| 0 <= j < k < ks.len() ==> #[trigger] ks[j] < #[trigger] ks[k]
    &&& forall|i: int| 0 <= i < n && #[trigger] leaf_matches(d, at, n, ns, i, q) ==> ks.contains(i)
}
/// there is one such list only: this reader and the local one deliver the same
pub proof fn lemma_one_list(a: Seq<int>, b: Seq<int>, d: Seq<u8>, h: Seq<u8>, q: Query)
    requires is_matching(a, d, h, q), is_matching(b, d, h, q)
    ensures a == b,
{
    lemma_sorted_prefix(a, b, a.len() as int); lemma_sorted_prefix(b, a, b.len() as int);
    assert(a =~= b);
}
pub proof fn lemma_sorted_prefix(a: Seq<int>, b: Seq<int>, m: int)
    requires 0 <= m <= a.len(), forall|j: int| 0 <= j < a.len() ==> b.contains(#[trigger] a[j]), forall|j: int| 0 <= j < b.len() ==> a.contains(#[trigger] b[j]),
        forall|j: int, k: int| 0 <= j < k < a.len() ==> #[trigger] a[j] < #[trigger] a[k], forall|j: int, k: int| 0 <= j < k < b.len() ==> #[trigger] b[j] < #[trigger] b[k],
    ensures m <= b.len(), forall|j: int| 0 <= j < m ==> #[trigger] a[j] == b[j],
    decreases m
{
    if m > 0 {
        lemma_sorted_prefix(a, b, m - 1);
        let x = a[m - 1];
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        assert(b.contains(x));
        if i < m - 1 { assert(a[i] == b[i]); assert(a[i] < a[m - 1]); }
        if i > m - 1 {
            let y = b[m - 1]; assert(b[m - 1] < b[i]);
            assert(a.contains(y)); let l = choose|l: int| 0 <= l < a.len() && a[l] == y;
            if l < m - 1 { assert(a[l] == b[l]); assert(b[l] < b[m - 1]); }
            if l > m - 1 { assert(a[m - 1] < a[l]); }
        }
    }
}
/// what the traversal over range requests answers: for each matching leaf where its feature lies; the next leaf tells where it ends
pub open spec fn found_http(l: Seq<HttpSearchResultItem>, ks: Seq<int>, d: Seq<u8>, h: Seq<u8>, q: Query) -> bool {
    let n = hdr_count(h) as int; let ns = hdr_node_size(h) as int; let at = 8 + h.len() as int; let base = feat_base(h);
    &&& is_matching(ks, d, h, q) && l.len() == ks.len()
    &&& forall|j: int| 0 <= j < ks.len() ==> (#[trigger] l[j]).range.at() == base + leaf_offset(d, at, n, ns, ks[j])
    &&& forall|j: int| 0 <= j < ks.len() ==> ((#[trigger] l[j]).range is Range <==> ks[j] < n - 1)
    &&& forall|j: int| 0 <= j < ks.len() && ks[j] < n - 1 ==> (#[trigger] l[j]).range.until() == base + leaf_offset(d, at, n, ns, ks[j] + 1)
}
pub open spec fn starts_at(ks: Seq<int>, d: Seq<u8>, h: Seq<u8>) -> Seq<int> { ks.map_values(|k: int| start(d, feat_base(h), k)) }
pub proof fn lemma_found(l: Seq<HttpSearchResultItem>, ks: Seq<int>, d: Seq<u8>, h: Seq<u8>, q: Query)
    requires file_ok(d, h), index_ok(d, h), found_http(l, ks, d, h, q)
    ensures ranges_ok(ranges_of(l)), all_good(d, feat_base(h), hdr_count(h) as int, ranges_of(l)), starts(ranges_of(l)) == starts_at(ks, d, h),
{
    let n = hdr_count(h) as int; let base = feat_base(h); let r = ranges_of(l);
    assert forall|j: int| 0 <= j < l.len() implies good(d, base, n, #[trigger] r[j]) && ((ks[j] < n - 1) ==> r[j].until() == start(d, base, ks[j] + 1)) && r[j].at() == start(d, base, ks[j]) && (r[j] is Range <==> ks[j] < n - 1) by {
        assert(r[j] == l[j].range); let k = ks[j]; assert(start(d, base, k) == r[j].at()); assert(at_feature(d, base, n, r[j].at()));
        if k < n - 1 { lemma_start_mono(d, base, n, k, k + 1); }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).until() <= (#[trigger] r[j]).at() && r[i] is Range by {
        assert(good(d, base, n, r[i]) && good(d, base, n, r[j]));
        assert(ks[i] < ks[j]); if ks[i] + 1 < ks[j] { lemma_start_mono(d, base, n, ks[i] + 1, ks[j]); }
    }
    assert forall|i: int| 0 <= i < r.len() implies ((#[trigger] r[i]) is Range ==> r[i].at() <= r[i].until()) by { assert(good(d, base, n, r[i])); }
    assert forall|i: int| 0 <= i < r.len() - 1 implies (#[trigger] r[i]) is Range by { assert(r[i + 1].at() >= r[i].until()); }
    assert(starts(r) =~= starts_at(ks, d, h)) by { assert forall|j: int| 0 <= j < l.len() implies starts(r)[j] == starts_at(ks, d, h)[j] by { assert(good(d, base, n, r[j])); } }
}
/// assumed_header_size + prefetch_index_bytes: how much is fetched ahead
#[verifier::external_body] pub fn prefetch() -> (r: usize) { unimplemented!() }
impl PackedRTree {
    /// traversal over range requests (assumed here: the traversals are the subject of unit rtree)
    #[verifier::external_body]
    pub fn http_stream_search<T: AsyncHttpRangeClient>(client: &mut AsyncBufferedHttpRangeClient<T>, index_begin: usize, attr_index_size: usize, num_items: usize, branching_factor: u16, query: Query, combine_request_threshold: usize) -> (r: Result<Vec<HttpSearchResultItem>>)
        ensures final(client).file() == old(client).file(),
            r is Ok ==> forall|h: Seq<u8>| index_begin == 8 + h.len() && attr_index_size == hdr_attr_size(h) && num_items == hdr_count(h) && branching_factor == hdr_node_size(h) && num_items > 0 && branching_factor > 0
                ==> exists|ks: Seq<int>| #[trigger] found_http(r->Ok_0@, ks, old(client).file(), h, query),
    { unimplemented!() }
}
%%fn http_reader/mod.rs "impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T>" select_query
%%ret r
%%deasync
%%mutparam self
%%dropmacro debug_assert
%%dropmacro trace
%%spec
    requires
        reader_ok(self), index_ok(self.client.file(), self.fbs.header_buf@),
    ensures
        hdr_node_size(self.fbs.header_buf@) == 0 || hdr_count(self.fbs.header_buf@) == 0 ==> r is Err,
        r is Ok ==> ({ let d = self.client.file(); let h = self.fbs.header_buf@; let it = r->Ok_0; let base = feat_base(h); let n = hdr_count(h) as int;
            it.client.file() == d && it.fbs.header_buf@ == h && sel_ok(it.selection, d, base, n)
                && it.count == pend(it.selection, d, base, n).len()
                && exists|ks: Seq<int>| is_matching(ks, d, h, query) && pend(it.selection, d, base, n) == #[trigger] starts_at(ks, d, h) }),
%%start
    let ghost d = self.client.file(); let ghost h = self.fbs.header_buf@;
    proof { lemma_file(d, h); }
%%pre `let count = list.len()`
    let ghost ks = choose|ks: Seq<int>| #[trigger] found_http(list@, ks, d, h, query);
    proof { lemma_found(list@, ks, d, h, query); }
%%pre `Ok(AsyncFeatureIter`
    proof {
        assert(pend(selection, d, feat_base(h), hdr_count(h) as int) == starts_at(ks, d, h));
        assert(sel_ok(selection, d, feat_base(h), hdr_count(h) as int));
    }
%%done
// ---- the header over range requests
/// what a server must hold
pub open spec fn opens(d: Seq<u8>) -> bool {
    &&& d.len() >= 12 && magic_ok(d.subrange(0, 8))
    &&& 8 <= le32(d.subrange(8, 12)) <= HEADER_MAX_BUFFER_SIZE
    &&& 12 + le32(d.subrange(8, 12)) <= d.len()
    &&& header_valid(d.subrange(8, 12 + le32(d.subrange(8, 12))))
}

%%fn http_reader/mod.rs "impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T>" _open
%%ret r
%%deasync
%%mutparam client
%%dropmacro trace
%%dropmacro debug
%%dropstmt `let prefetch_index_bytes`
%%sub `assumed_header_size + prefetch_index_bytes` => `prefetch()`
%%sub `check_magic_bytes(bytes)` => `check_magic_bytes(bytes.as_slice())`
%%sub `client.get_range(read_bytes, MAGIC_BYTES_SIZE)?;` => `client.get_range(read_bytes, MAGIC_BYTES_SIZE)?; let ghost m = bytes@;`
%%spec
    requires
        client.file().len() >= 12, 8 <= le32(client.file().subrange(8, 12)) <= HEADER_MAX_BUFFER_SIZE ==> 12 + le32(client.file().subrange(8, 12)) <= client.file().len(),
    ensures
        r is Ok ==> opens(client.file()) && r->Ok_0.client.file() == client.file() && r->Ok_0.fbs.header_buf@ == client.file().subrange(8, 12 + le32(client.file().subrange(8, 12))),
%%start
    let ghost d = client.file();
    proof {
        assert(d.subrange(8, 12).subrange(0, 4) =~= d.subrange(8, 12));
        let e = 12 + le32(d.subrange(8, 12));
        if e <= d.len() { assert(d.subrange(8, 12) + d.subrange(12, e) =~= d.subrange(8, e)); }
    }
%%done
fn main() {}
} // verus!
