// unit shttp: attribute index lookups over range requests (P04, P05), from static_btree/stree.rs
use vstd::prelude::*;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::collections::VecDeque;
use std::ops::{Range, RangeFrom};
use std::cmp::{min, max};
use std::mem::size_of;
verus! {
global size_of usize == 8;
%%include streesec.vx
%%item static_btree/stree.rs pub enum HttpRange
%%item static_btree/stree.rs pub struct HttpSearchResultItem
%%item static_btree/stree.rs const DEFAULT_MIN_REQ_SIZE

// ---- range requests (crate http_range_client, assumed): the server holds the file; a range that is asked for lies in the file
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct AsyncBufferedHttpRangeClient<T> { x: core::marker::PhantomData<T> }
pub trait AsyncHttpRangeClient {}
#[verifier::external_body] pub struct Bytes { x: u8 }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn all_(&self) -> (r: &Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl<T> AsyncBufferedHttpRangeClient<T> {
    pub uninterp spec fn file(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn min_req_size(&mut self, n: usize) -> (r: &mut Self) ensures r.file() == old(self).file(), final(self).file() == final(r).file() { unimplemented!() }
    #[verifier::external_body] pub fn get_range(&mut self, begin: usize, length: usize) -> (r: Result<Bytes>)
        requires begin < old(self).file().len(), begin + length <= old(self).file().len(),
        ensures final(self).file() == old(self).file(), r is Ok ==> r->Ok_0@ == old(self).file().subrange(begin as int, begin + length) { unimplemented!() }
}
/// bytes.chunks(k), for a whole number of chunks
#[verifier::external_body] pub fn chunks_of(b: &Bytes, k: usize) -> (r: Vec<&[u8]>)
    requires k > 0, b@.len() as int % k as int == 0,
    ensures r@.len() == b@.len() as int / k as int, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i]@ == b@.subrange(i * k, i * k + k) { unimplemented!() }
#[verifier::external_body] pub fn back_mut_of<X>(v: &mut VecDeque<X>) -> (r: Option<&mut X>)
    ensures match r { Some(x) => old(v)@.len() > 0 && *x == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(x)), None => old(v)@.len() == 0 && final(v)@ == old(v)@ } { unimplemented!() }
#[verifier::opaque]
pub open spec fn up(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
#[verifier::opaque]
pub open spec fn strictly_up(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
proof fn lemma_strict(s: Seq<usize>) requires strictly_up(s) ensures up(s) { reveal(up); reveal(strictly_up); }
/// Vec::sort
#[verifier::external_body] pub fn sort_up(v: &mut Vec<usize>) ensures up(final(v)@), final(v)@.len() == old(v)@.len(), forall|x: usize| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x) { unimplemented!() }
/// Vec::dedup
#[verifier::external_body] pub fn dedup_of(v: &mut Vec<usize>) ensures up(old(v)@) ==> strictly_up(final(v)@), forall|x: usize| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x), old(v)@.len() > 0 ==> final(v)@.len() > 0 { unimplemented!() }
pub fn req_eq(a: usize, b: usize) requires a == b {}

%%include hoffs.vx
/// the answer lists the offsets s, each as often (up to repetitions in s)
pub open spec fn lists(fb: int, r: Seq<HttpSearchResultItem>, s: Seq<u64>) -> bool {
    &&& all_from(fb, r)
    &&& forall|o: u64| #[trigger] hoffs(fb, r).contains(o) <==> s.contains(o)
    &&& s.no_duplicates() ==> hoffs(fb, r).no_duplicates()
}
pub open spec fn LIM() -> int { 0x0800_0000_0000_0000 }

// ---- lists of offsets that are fetched
%%item static_btree/stree.rs enum PayloadRef
spec fn roffs(d: Seq<u8>, q: int, x: PayloadRef) -> Seq<u64> { match x { PayloadRef::Direct(o) => seq![o], PayloadRef::Indirect(rel) => pay(d, q + rel) } }
spec fn flat(d: Seq<u8>, q: int, s: Seq<PayloadRef>) -> Seq<u64>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { flat(d, q, s.drop_last()) + roffs(d, q, s.last()) } }
spec fn ref_fits(d: Seq<u8>, q: int, x: PayloadRef) -> bool {
    &&& x is Indirect ==> q + x->Indirect_0 < LIM() && pay_fits(d, q + x->Indirect_0)
    &&& forall|j: int| 0 <= j < roffs(d, q, x).len() ==> #[trigger] roffs(d, q, x)[j] < LIM()
}
spec fn apart(d: Seq<u8>, x: int, y: int) -> bool { x < y ==> x + 4 + 8 * pay_len(d, x) <= y }
spec fn refs_ok(d: Seq<u8>, q: int, s: Seq<PayloadRef>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> ref_fits(d, q, #[trigger] s[k])
    &&& forall|i: int, k: int| 0 <= i < s.len() && 0 <= k < s.len() && (#[trigger] s[i]) is Indirect && (#[trigger] s[k]) is Indirect ==> apart(d, q + s[i]->Indirect_0, q + s[k]->Indirect_0)
}
/// position j of list k
spec fn slot(d: Seq<u8>, q: int, s: Seq<PayloadRef>, p: (int, int)) -> bool { 0 <= p.0 < s.len() && 0 <= p.1 < roffs(d, q, s[p.0]).len() }
spec fn slot_val(d: Seq<u8>, q: int, s: Seq<PayloadRef>, p: (int, int)) -> u64 { roffs(d, q, s[p.0])[p.1] }
spec fn slots_differ(d: Seq<u8>, q: int, s: Seq<PayloadRef>) -> bool {
    forall|x: (int, int), y: (int, int)| slot(d, q, s, x) && slot(d, q, s, y) && x != y ==> #[trigger] slot_val(d, q, s, x) != #[trigger] slot_val(d, q, s, y)
}
proof fn lemma_flat(d: Seq<u8>, q: int, s: Seq<PayloadRef>)
    ensures forall|o: u64| #[trigger] flat(d, q, s).contains(o) <==> exists|p: (int, int)| slot(d, q, s, p) && #[trigger] slot_val(d, q, s, p) == o,
        flat(d, q, s).no_duplicates() ==> slots_differ(d, q, s),
    decreases s.len(),
{
    if s.len() > 0 {
        let a = s.drop_last(); let f = flat(d, q, a); let z = roffs(d, q, s.last()); let m = s.len() - 1;
        lemma_flat(d, q, a);
        assert(flat(d, q, s) == f + z);
        assert forall|o: u64| #[trigger] flat(d, q, s).contains(o) <==> exists|p: (int, int)| slot(d, q, s, p) && #[trigger] slot_val(d, q, s, p) == o by {
            if (f + z).contains(o) {
                let i = choose|i: int| 0 <= i < (f + z).len() && (f + z)[i] == o;
                if i < f.len() { assert(f[i] == o); assert(f.contains(o)); let p = choose|p: (int, int)| slot(d, q, a, p) && #[trigger] slot_val(d, q, a, p) == o; assert(slot(d, q, s, p) && slot_val(d, q, s, p) == o); }
                else { assert(slot(d, q, s, (m, i - f.len())) && slot_val(d, q, s, (m, i - f.len())) == o); }
            }
            if exists|p: (int, int)| slot(d, q, s, p) && #[trigger] slot_val(d, q, s, p) == o {
                let p = choose|p: (int, int)| slot(d, q, s, p) && #[trigger] slot_val(d, q, s, p) == o;
                if p.0 < m { assert(slot(d, q, a, p) && slot_val(d, q, a, p) == o); assert(f.contains(o)); let i = choose|i: int| 0 <= i < f.len() && f[i] == o; assert((f + z)[i] == o); }
                else { assert((f + z)[f.len() + p.1] == o); }
            }
        }
        if flat(d, q, s).no_duplicates() {
            assert(f.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies f[i] != f[j] by { assert((f + z)[i] == f[i] && (f + z)[j] == f[j]); } }
            assert forall|x: (int, int), y: (int, int)| slot(d, q, s, x) && slot(d, q, s, y) && x != y implies #[trigger] slot_val(d, q, s, x) != #[trigger] slot_val(d, q, s, y) by {
                lemma_slot_at(d, q, s, x); lemma_slot_at(d, q, s, y);
                if x.0 < m && y.0 < m { assert(slot(d, q, a, x) && slot(d, q, a, y)); assert(slot_val(d, q, a, x) != slot_val(d, q, a, y)); }
                else {
                    let i = choose|i: int| at_slot(d, q, s, x, i); let j = choose|j: int| at_slot(d, q, s, y, j);
                    assert(i != j);
                    assert((f + z)[i] != (f + z)[j]);
                }
            }
        }
    }
}
/// slot p is found at i: in the last list exactly behind the others
spec fn at_slot(d: Seq<u8>, q: int, s: Seq<PayloadRef>, p: (int, int), i: int) -> bool {
    let f = flat(d, q, s.drop_last());
    0 <= i < flat(d, q, s).len() && flat(d, q, s)[i] == slot_val(d, q, s, p) && if p.0 == s.len() - 1 { i == f.len() + p.1 } else { i < f.len() }
}
proof fn lemma_slot_at(d: Seq<u8>, q: int, s: Seq<PayloadRef>, p: (int, int))
    requires slot(d, q, s, p),
    ensures exists|i: int| at_slot(d, q, s, p, i),
    decreases s.len(),
{
    let a = s.drop_last(); let f = flat(d, q, a); let z = roffs(d, q, s.last());
    assert(flat(d, q, s) == f + z);
    if p.0 == s.len() - 1 { assert(at_slot(d, q, s, p, f.len() + p.1)); }
    else {
        assert(slot(d, q, a, p) && slot_val(d, q, a, p) == slot_val(d, q, s, p));
        lemma_slot_at(d, q, a, p);
        let i = choose|i: int| at_slot(d, q, a, p, i);
        assert((f + z)[i] == f[i]);
        assert(at_slot(d, q, s, p, i));
    }
}
/// which slot each result comes from
#[verifier::opaque]
spec fn from_slots(d: Seq<u8>, q: int, fb: int, s: Seq<PayloadRef>, r: Seq<HttpSearchResultItem>, src: Seq<(int, int)>) -> bool {
    &&& r.len() == src.len() && src.no_duplicates()
    &&& forall|i: int| 0 <= i < r.len() ==> slot(d, q, s, #[trigger] src[i])
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).range is RangeFrom && r[i].range.at() == fb + slot_val(d, q, s, src[i])
}
proof fn lemma_from_push(d: Seq<u8>, q: int, fb: int, s: Seq<PayloadRef>, r: Seq<HttpSearchResultItem>, src: Seq<(int, int)>, x: HttpSearchResultItem, p: (int, int))
    requires from_slots(d, q, fb, s, r, src), slot(d, q, s, p), !src.contains(p), x.range is RangeFrom, x.range.at() == fb + slot_val(d, q, s, p),
    ensures from_slots(d, q, fb, s, r.push(x), src.push(p)),
        forall|y: (int, int)| #[trigger] src.push(p).contains(y) <==> src.contains(y) || y == p,
{
    reveal(from_slots);
    let t = src.push(p); let r2 = r.push(x);
    assert forall|y: (int, int)| #[trigger] t.contains(y) <==> src.contains(y) || y == p by {
        if t.contains(y) { let i = choose|i: int| 0 <= i < t.len() && t[i] == y; if i < src.len() { assert(src[i] == y); } }
        if src.contains(y) { let i = choose|i: int| 0 <= i < src.len() && src[i] == y; assert(t[i] == y); }
        if y == p { assert(t[src.len() as int] == y); }
    }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
        if i == src.len() { assert(src[j] == t[j]); } else if j == src.len() { assert(src[i] == t[i]); } else { assert(src[i] == t[i] && src[j] == t[j]); }
    }
    assert forall|i: int| 0 <= i < r2.len() implies slot(d, q, s, #[trigger] t[i]) by { if i < r.len() { assert(t[i] == src[i]); } }
    assert forall|i: int| 0 <= i < r2.len() implies (#[trigger] r2[i]).range is RangeFrom && r2[i].range.at() == fb + slot_val(d, q, s, t[i]) by { if i < r.len() { assert(r2[i] == r[i] && t[i] == src[i]); } }
}
/// the answer is complete when every slot's value is listed
proof fn lemma_lists(d: Seq<u8>, q: int, fb: int, s: Seq<PayloadRef>, r: Seq<HttpSearchResultItem>, src: Seq<(int, int)>)
    requires from_slots(d, q, fb, s, r, src), refs_ok(d, q, s),
        forall|p: (int, int)| #[trigger] slot(d, q, s, p) ==> exists|i: int| 0 <= i < src.len() && slot_val(d, q, s, #[trigger] src[i]) == slot_val(d, q, s, p),
    ensures lists(fb, r, flat(d, q, s)),
{
    reveal(from_slots);
    lemma_flat(d, q, s);
    let h = hoffs(fb, r); let f = flat(d, q, s);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] h[i]) == slot_val(d, q, s, src[i]) by { assert(r[i].range.at() == fb + slot_val(d, q, s, src[i])); }
    assert forall|o: u64| #[trigger] h.contains(o) <==> f.contains(o) by {
        if h.contains(o) { let i = choose|i: int| 0 <= i < h.len() && h[i] == o; assert(slot(d, q, s, src[i])); assert(slot_val(d, q, s, src[i]) == o); }
        if f.contains(o) {
            let p = choose|p: (int, int)| slot(d, q, s, p) && #[trigger] slot_val(d, q, s, p) == o;
            let i = choose|i: int| 0 <= i < src.len() && slot_val(d, q, s, #[trigger] src[i]) == slot_val(d, q, s, p);
            assert(h[i] == o);
        }
    }
    if f.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < h.len() && 0 <= j < h.len() && i != j implies h[i] != h[j] by { assert(src[i] != src[j]); assert(slot(d, q, s, src[i]) && slot(d, q, s, src[j])); assert(slot_val(d, q, s, src[i]) != slot_val(d, q, s, src[j])); }
    }
}
%%item static_btree/stree.rs pub struct PayloadCache
impl PayloadCache {
    /// the cache holds the bytes of the file at its place
    pub closed spec fn of(&self, d: Seq<u8>) -> bool { self.end_offset == self.start_offset + self.data@.len() && self.end_offset <= d.len() && self.data@ == d.subrange(self.start_offset as int, self.end_offset as int) }
    pub closed spec fn has(&self, o: int) -> bool { self.data@.len() > 0 && self.start_offset <= o < self.end_offset }
    pub closed spec fn rest(&self, o: int) -> Seq<u8> { self.data@.subrange(o - self.start_offset, self.data@.len() as int) }
    pub closed spec fn whole(&self) -> bool { self.end_offset == self.start_offset + self.data@.len() }
    pub closed spec fn is_at(&self, s: int, b: Seq<u8>) -> bool { self.start_offset == s && self.end_offset == s + b.len() && self.data@ == b }
    /// a list that is wholly in the cache
    pub closed spec fn holds(&self, o: int) -> bool { self.has(o) && pay_fits(self.rest(o), 0) }
}
proof fn lemma_cached(c: &PayloadCache, d: Seq<u8>, o: int)
    requires c.of(d), c.holds(o), pay_fits(d, o),
    ensures pay(c.rest(o), 0) == pay(d, o),
{
    let e = c.rest(o); let s = c.start_offset;
    assert(e =~= d.subrange(o, c.end_offset as int));
    assert(e.subrange(0, 4) =~= d.subrange(o, o + 4));
    assert forall|i: int| 0 <= i < pay_len(d, o) implies pay_at(e, 0, i) == pay_at(d, o, i) by { assert(e.subrange(4 + 8 * i, 12 + 8 * i) =~= d.subrange(o + 4 + 8 * i, o + 12 + 8 * i)); }
    assert(pay(e, 0) =~= pay(d, o));
}
%%fn static_btree/stree.rs "impl PayloadCache" new
%%ret r
%%spec
    ensures true,
%%done
%%fn static_btree/stree.rs "impl PayloadCache" contains
%%ret r
%%spec
    ensures r == self.has(offset as int),
%%done
%%fn static_btree/stree.rs "impl PayloadCache" get_entry
%%ret r
%%sub `&self.data[relative_offset..]` => `slice_from(&self.data, relative_offset)`
%%spec
    requires self.whole(),
    ensures r is Ok <==> self.holds(offset as int), r is Ok ==> r->Ok_0.offsets@ == pay(self.rest(offset as int), 0),
%%done
%%fn static_btree/stree.rs "impl PayloadCache" update
%%spec
    requires start_offset + data@.len() <= usize::MAX,
    ensures final(self).is_at(start_offset as int, data@),
%%done
%%fn static_btree/stree.rs - prefetch_payload
%%ret r
%%deasync
%%dropmacro debug
%%spec
    requires payload_section_start < old(client).file().len(), payload_section_start + chunk_size <= old(client).file().len() <= 0x7000_0000_0000_0000,
    ensures final(client).file() == old(client).file(), r is Ok ==> r->Ok_0.of(old(client).file()),
%%done
%%fn static_btree/stree.rs - read_http_node_items
%%ret r
%%deasync
%%dropmacro info
%%dropmacro debug_assert_eq
%%sub `node_ids.len()` => `(node_ids.end - node_ids.start)`
%%sub `NodeItem::<K>::SERIALIZED_SIZE` => `Entry::<K>::ser_size()`
%%sub `for node_item_bytes in bytes.chunks(Entry::<K>::ser_size()) {` => `let parts_ = chunks_of(&bytes, Entry::<K>::ser_size()); for i_ in 0..parts_.len() { let node_item_bytes = parts_[i_];`
%%loops 1
%%spec
    requires node_ids.start < node_ids.end, items_at::<K>(old(client).file(), base + node_ids.start * es::<K>(), node_ids.end - node_ids.start), old(client).file().len() <= 0x7000_0000_0000_0000,
    ensures final(client).file() == old(client).file(),
        r is Ok ==> r->Ok_0@.len() == node_ids.end - node_ids.start && forall|i: int| 0 <= i < r->Ok_0@.len() ==> #[trigger] r->Ok_0@[i] == dec_item::<K>(old(client).file(), base + node_ids.start * es::<K>() + i * es::<K>()),
%%start
    let ghost d = client.file(); let ghost z = es::<K>(); let ghost p = base + node_ids.start * z; let ghost k = node_ids.end - node_ids.start;
    proof {
        K::size();
        assert((k * z) / z == k && (k * z) % z == 0) by (nonlinear_arith) requires z > 0;
        assert(node_ids.start * z >= 0) by (nonlinear_arith) requires node_ids.start >= 0, z > 0;
        assert(k * z >= z) by (nonlinear_arith) requires k >= 1, z > 0;
    }
%%loop 0
    invariant
        client.file() == d, d == old(client).file(), z == es::<K>(), z > 0, parts_@.len() == k, node_items@.len() == i_, 0 <= p, items_at::<K>(d, p, k), p + k * z <= d.len(),
        forall|i: int| 0 <= i < k ==> #[trigger] parts_@[i]@ == d.subrange(p, p + k * z).subrange(i * z, i * z + z),
        forall|i: int| 0 <= i < i_ ==> #[trigger] node_items@[i] == dec_item::<K>(d, p + i * z),
%%loopstart 0
    proof {
        K::size();
        let w = d.subrange(p, p + k * z).subrange(i_ * z, i_ * z + z); let s = p + i_ * z;
        assert((i_ + 1) * z == i_ * z + z) by (nonlinear_arith);
        assert((i_ + 1) * z <= k * z) by (nonlinear_arith) requires i_ + 1 <= k, z >= 0;
        assert(i_ * z >= 0) by (nonlinear_arith) requires i_ >= 0, z >= 0;
        assert(w =~= d.subrange(s, s + z));
        assert(w.subrange(0, K::sz()) =~= d.subrange(s, s + K::sz())); assert(w.subrange(K::sz(), z) =~= d.subrange(s + K::sz(), s + z));
        assert(key_ok::<K>(d, p + i_ * z)); assert(key_ok::<K>(w, 0)); assert(dec_item::<K>(w, 0) == dec_item::<K>(d, s));
    }
%%done
// ---- resolving the lists: some at once, the others fetched in a few ranges
/// resolved without a request
spec fn imm(c: Option<&PayloadCache>, q: int, x: PayloadRef) -> bool { match x { PayloadRef::Direct(o) => true, PayloadRef::Indirect(rel) => c is Some && c->0.holds(q + rel) } }
spec fn cites(c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, k: int, i: int, x: int) -> bool { 0 <= i < k && s[i] is Indirect && !imm(c, q, s[i]) && q + s[i]->Indirect_0 == x }
spec fn cited(c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, k: int, x: int) -> bool { exists|i: int| cites(c, q, s, k, i, x) }
#[verifier::opaque]
spec fn todo_upto(c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, k: int, f: Seq<usize>) -> bool {
    &&& forall|x: usize| #[trigger] f.contains(x) ==> cited(c, q, s, k, x as int)
    &&& forall|i: int| 0 <= i < k && !imm(c, q, #[trigger] s[i]) ==> f.contains((q + s[i]->Indirect_0) as usize)
}
#[verifier::opaque]
spec fn done_upto(d: Seq<u8>, c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, k: int, src: Seq<(int, int)>) -> bool {
    &&& forall|i: int| 0 <= i < src.len() ==> (#[trigger] src[i]).0 < k && imm(c, q, s[src[i].0])
    &&& forall|p: (int, int)| #[trigger] slot(d, q, s, p) && p.0 < k && imm(c, q, s[p.0]) ==> src.contains(p)
}
/// src also has the first n positions of list k
#[verifier::opaque]
spec fn part_upto(d: Seq<u8>, c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, k: int, n: int, src: Seq<(int, int)>) -> bool {
    &&& forall|i: int| 0 <= i < src.len() ==> (#[trigger] src[i]).0 < k && imm(c, q, s[src[i].0]) || src[i].0 == k && src[i].1 < n
    &&& forall|p: (int, int)| #[trigger] slot(d, q, s, p) && p.0 < k && imm(c, q, s[p.0]) ==> src.contains(p)
    &&& forall|j: int| 0 <= j < n ==> src.contains((k, j))
}
proof fn lemma_none_done(d: Seq<u8>, c: Option<&PayloadCache>, q: int, fb: int, s: Seq<PayloadRef>)
    ensures from_slots(d, q, fb, s, Seq::empty(), Seq::empty()), done_upto(d, c, q, s, 0, Seq::empty()), todo_upto(c, q, s, 0, Seq::empty()),
{ reveal(from_slots); reveal(done_upto); reveal(todo_upto); }
proof fn lemma_part_begin(d: Seq<u8>, c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, k: int, src: Seq<(int, int)>)
    requires done_upto(d, c, q, s, k, src),
    ensures part_upto(d, c, q, s, k, 0, src),
{ reveal(part_upto); reveal(done_upto); }
proof fn lemma_todo_push(c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, k: int, f: Seq<usize>, x: usize)
    requires 0 <= k < s.len(), todo_upto(c, q, s, k, f), cites(c, q, s, k + 1, k, x as int),
    ensures todo_upto(c, q, s, k + 1, f.push(x)),
{
    reveal(todo_upto);
    let g = f.push(x);
    assert(g[f.len() as int] == x);
    assert forall|y: usize| #[trigger] g.contains(y) implies cited(c, q, s, k + 1, y as int) by {
        let m = choose|m: int| 0 <= m < g.len() && g[m] == y;
        if m < f.len() { assert(f[m] == y); assert(f.contains(y)); let i = choose|i: int| cites(c, q, s, k, i, y as int); assert(cites(c, q, s, k + 1, i, y as int)); }
    }
    assert forall|i: int| 0 <= i < k + 1 && !imm(c, q, #[trigger] s[i]) implies g.contains((q + s[i]->Indirect_0) as usize) by {
        if i < k { let y = (q + s[i]->Indirect_0) as usize; assert(f.contains(y)); let m = choose|m: int| 0 <= m < f.len() && f[m] == y; assert(g[m] == y); }
    }
}
proof fn lemma_todo_skip(c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, k: int, f: Seq<usize>)
    requires 0 <= k < s.len(), todo_upto(c, q, s, k, f), imm(c, q, s[k]),
    ensures todo_upto(c, q, s, k + 1, f),
{
    reveal(todo_upto);
    assert forall|y: usize| #[trigger] f.contains(y) implies cited(c, q, s, k + 1, y as int) by { let i = choose|i: int| cites(c, q, s, k, i, y as int); assert(cites(c, q, s, k + 1, i, y as int)); }
}
proof fn lemma_done_skip(d: Seq<u8>, c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, k: int, src: Seq<(int, int)>)
    requires 0 <= k < s.len(), done_upto(d, c, q, s, k, src), !imm(c, q, s[k]),
    ensures done_upto(d, c, q, s, k + 1, src),
{
    reveal(done_upto);}
/// one more position of list k
proof fn lemma_part_step(d: Seq<u8>, c: Option<&PayloadCache>, q: int, fb: int, s: Seq<PayloadRef>, k: int, n: int, r: Seq<HttpSearchResultItem>, src: Seq<(int, int)>, x: HttpSearchResultItem)
    requires 0 <= k < s.len(), part_upto(d, c, q, s, k, n, src), from_slots(d, q, fb, s, r, src), slot(d, q, s, (k, n)), x.range is RangeFrom, x.range.at() == fb + slot_val(d, q, s, (k, n)),
    ensures part_upto(d, c, q, s, k, n + 1, src.push((k, n))), from_slots(d, q, fb, s, r.push(x), src.push((k, n))),
{
    reveal(part_upto); reveal(from_slots);
    let t = src.push((k, n));
    assert(!src.contains((k, n))) by { if src.contains((k, n)) { let i = choose|i: int| 0 <= i < src.len() && src[i] == (k, n); assert(src[i].0 == k); } }
    lemma_from_push(d, q, fb, s, r, src, x, (k, n));
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0 < k && imm(c, q, s[t[i].0]) || t[i].0 == k && t[i].1 < n + 1 by { if i < src.len() { assert(t[i] == src[i]); } }
}
proof fn lemma_part_done(d: Seq<u8>, c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, k: int, src: Seq<(int, int)>)
    requires 0 <= k < s.len(), part_upto(d, c, q, s, k, roffs(d, q, s[k]).len() as int, src), imm(c, q, s[k]),
    ensures done_upto(d, c, q, s, k + 1, src),
{
    reveal(done_upto); reveal(part_upto);}
/// the fetched lists lie in the file, one after another, and hold offsets below LIM
#[verifier::opaque]
spec fn all_ok(d: Seq<u8>, f: Seq<usize>) -> bool {
    &&& forall|x: usize| #[trigger] f.contains(x) ==> pay_fits(d, x as int) && x < LIM()
    &&& forall|x: usize, y: usize| #[trigger] f.contains(x) && #[trigger] f.contains(y) ==> apart(d, x as int, y as int)
    &&& forall|x: usize, j: int| f.contains(x) && 0 <= j < pay(d, x as int).len() ==> #[trigger] pay(d, x as int)[j] < LIM()
}
proof fn lemma_ok(d: Seq<u8>, f: Seq<usize>, i: int)
    requires all_ok(d, f), 0 <= i < f.len(),
    ensures f.contains(f[i]), pay_fits(d, f[i] as int), f[i] < LIM(), forall|j: int| 0 <= j < pay(d, f[i] as int).len() ==> #[trigger] pay(d, f[i] as int)[j] < LIM(),
{ reveal(all_ok); assert(f.contains(f[i])); }
proof fn lemma_ok_has(d: Seq<u8>, f: Seq<usize>, x: usize)
    requires all_ok(d, f), f.contains(x),
    ensures pay_fits(d, x as int), x < LIM(),
{ reveal(all_ok); }
proof fn lemma_ok_apart(d: Seq<u8>, f: Seq<usize>, x: usize, y: usize)
    requires all_ok(d, f), f.contains(x), f.contains(y),
    ensures apart(d, x as int, y as int),
{ reveal(all_ok); }
proof fn lemma_todo(d: Seq<u8>, c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, f: Seq<usize>)
    requires refs_ok(d, q, s), todo_upto(c, q, s, s.len() as int, f),
    ensures all_ok(d, f),
{
    reveal(todo_upto); reveal(all_ok);
    assert forall|x: usize| #[trigger] f.contains(x) implies pay_fits(d, x as int) && x < LIM() && forall|j: int| 0 <= j < pay(d, x as int).len() ==> #[trigger] pay(d, x as int)[j] < LIM() by {
        let i = choose|i: int| cites(c, q, s, s.len() as int, i, x as int); assert(ref_fits(d, q, s[i])); assert(roffs(d, q, s[i]) == pay(d, x as int));
    }
    assert forall|x: usize, y: usize| #[trigger] f.contains(x) && #[trigger] f.contains(y) implies apart(d, x as int, y as int) by {
        let i = choose|i: int| cites(c, q, s, s.len() as int, i, x as int); let k = choose|k: int| cites(c, q, s, s.len() as int, k, y as int);
        assert(s[i] is Indirect && s[k] is Indirect);
    }
}
proof fn lemma_todo_same(c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, k: int, f: Seq<usize>, g: Seq<usize>)
    requires todo_upto(c, q, s, k, f), forall|x: usize| #[trigger] g.contains(x) <==> f.contains(x),
    ensures todo_upto(c, q, s, k, g),
{
    reveal(todo_upto);
    assert forall|x: usize| #[trigger] g.contains(x) implies cited(c, q, s, k, x as int) by { assert(f.contains(x)); }
}
/// a requested range that covers the offset
spec fn in_range(rs: Seq<(usize, usize)>, n: int, x: usize) -> bool { exists|j: int| 0 <= j < n && (#[trigger] rs[j]).0 <= x <= rs[j].1 }
#[verifier::opaque]
spec fn covered(rs: Seq<(usize, usize)>, k: int, f: Seq<usize>, n: int) -> bool { forall|m: int| 0 <= m < n ==> in_range(rs, k, #[trigger] f[m]) }
#[verifier::opaque]
spec fn ranges_ok(rs: Seq<(usize, usize)>, f: Seq<usize>) -> bool { forall|j: int| 0 <= j < rs.len() ==> (#[trigger] rs[j]).0 <= rs[j].1 && f.contains(rs[j].0) && f.contains(rs[j].1) }
/// the offsets seen so far lie in the ranges collected or in the current one
#[verifier::opaque]
spec fn grouped(rs: Seq<(usize, usize)>, cur: (usize, usize), f: Seq<usize>, n: int) -> bool {
    &&& ranges_ok(rs, f) && 1 <= n <= f.len() && f.contains(cur.0) && f.contains(cur.1) && cur.0 <= cur.1 && cur.1 == f[n - 1]
    &&& forall|m: int| 0 <= m < n ==> in_range(rs, rs.len() as int, #[trigger] f[m]) || cur.0 <= f[m] <= cur.1
}
proof fn lemma_group_begin(f: Seq<usize>)
    requires f.len() > 0,
    ensures grouped(Seq::empty(), (f[0], f[0]), f, 1),
{ reveal(grouped); reveal(ranges_ok); assert(f.contains(f[0])); }
proof fn lemma_group_in(rs: Seq<(usize, usize)>, cur: (usize, usize), f: Seq<usize>, n: int)
    requires grouped(rs, cur, f, n),
    ensures 1 <= n <= f.len(), f.contains(cur.0), f.contains(cur.1), cur.0 <= cur.1,
{ reveal(grouped); }
/// the next offset widens the current range
proof fn lemma_group_widen(rs: Seq<(usize, usize)>, cur: (usize, usize), f: Seq<usize>, n: int)
    requires grouped(rs, cur, f, n), n < f.len(), up(f),
    ensures grouped(rs, (cur.0, f[n]), f, n + 1),
{ reveal(grouped); reveal(up); assert(f.contains(f[n])); }
/// the current range is closed
proof fn lemma_group_close(rs: Seq<(usize, usize)>, cur: (usize, usize), f: Seq<usize>, n: int)
    requires grouped(rs, cur, f, n),
    ensures ranges_ok(rs.push(cur), f), covered(rs.push(cur), rs.len() as int + 1, f, n),
{
    reveal(grouped); reveal(ranges_ok); reveal(covered);
    let t = rs.push(cur);
    assert forall|m: int| 0 <= m < n implies in_range(t, rs.len() as int + 1, #[trigger] f[m]) by {
        if in_range(rs, rs.len() as int, f[m]) { let j = choose|j: int| 0 <= j < rs.len() && (#[trigger] rs[j]).0 <= f[m] <= rs[j].1; assert(t[j] == rs[j]); assert(t[j].0 <= f[m] <= t[j].1); }
        else { assert(t[rs.len() as int].0 <= f[m] <= t[rs.len() as int].1); }
    }
}
proof fn lemma_group_next(rs: Seq<(usize, usize)>, cur: (usize, usize), f: Seq<usize>, n: int)
    requires grouped(rs, cur, f, n), n < f.len(),
    ensures grouped(rs.push(cur), (f[n], f[n]), f, n + 1),
{
    lemma_group_close(rs, cur, f, n); reveal(grouped); reveal(covered); assert(f.contains(f[n]));
}
/// the lists of the first k ranges, and of the current one up to f_, are in
#[verifier::opaque]
spec fn got(d: Seq<u8>, h: Map<usize, PayloadEntry>, f: Seq<usize>, rs: Seq<(usize, usize)>, k: int, n: int) -> bool {
    &&& forall|x: usize| #[trigger] h.contains_key(x) ==> f.contains(x) && h[x].offsets@ == pay(d, x as int)
    &&& forall|m: int| 0 <= m < f.len() && in_range(rs, k, #[trigger] f[m]) ==> h.contains_key(f[m])
    &&& k < rs.len() ==> forall|m: int| 0 <= m < n && rs[k].0 <= #[trigger] f[m] <= rs[k].1 ==> h.contains_key(f[m])
}
proof fn lemma_got_begin(d: Seq<u8>, h: Map<usize, PayloadEntry>, f: Seq<usize>, rs: Seq<(usize, usize)>)
    requires h == Map::<usize, PayloadEntry>::empty(),
    ensures got(d, h, f, rs, 0, 0),
{ reveal(got); }
proof fn lemma_got_skip(d: Seq<u8>, h: Map<usize, PayloadEntry>, f: Seq<usize>, rs: Seq<(usize, usize)>, k: int, n: int)
    requires got(d, h, f, rs, k, n), 0 <= k < rs.len(), !(rs[k].0 <= f[n] <= rs[k].1), 0 <= n < f.len(),
    ensures got(d, h, f, rs, k, n + 1),
{ reveal(got); }
proof fn lemma_got_step(d: Seq<u8>, h: Map<usize, PayloadEntry>, f: Seq<usize>, rs: Seq<(usize, usize)>, k: int, n: int, e: PayloadEntry)
    requires got(d, h, f, rs, k, n), 0 <= k < rs.len(), 0 <= n < f.len(), e.offsets@ == pay(d, f[n] as int),
    ensures got(d, h.insert(f[n], e), f, rs, k, n + 1),
{
    reveal(got); let g = h.insert(f[n], e);
    assert(f.contains(f[n]));
    assert forall|x: usize| #[trigger] g.contains_key(x) implies f.contains(x) && g[x].offsets@ == pay(d, x as int) by { if x != f[n] { assert(h.contains_key(x)); } }
}
proof fn lemma_got_next(d: Seq<u8>, h: Map<usize, PayloadEntry>, f: Seq<usize>, rs: Seq<(usize, usize)>, k: int)
    requires got(d, h, f, rs, k, f.len() as int), 0 <= k < rs.len(),
    ensures got(d, h, f, rs, k + 1, 0),
{
    reveal(got);
    assert forall|m: int| 0 <= m < f.len() && in_range(rs, k + 1, #[trigger] f[m]) implies h.contains_key(f[m]) by {
        let j = choose|j: int| 0 <= j < k + 1 && (#[trigger] rs[j]).0 <= f[m] <= rs[j].1;
        if j < k { assert(rs[j].0 <= f[m] <= rs[j].1); assert(in_range(rs, k, f[m])); }
    }
}
proof fn lemma_got_all(d: Seq<u8>, h: Map<usize, PayloadEntry>, f: Seq<usize>, rs: Seq<(usize, usize)>)
    requires got(d, h, f, rs, rs.len() as int, 0), covered(rs, rs.len() as int, f, f.len() as int),
    ensures forall|m: int| 0 <= m < f.len() ==> h.contains_key(#[trigger] f[m]) && h[f[m]].offsets@ == pay(d, f[m] as int),
{ reveal(got); reveal(covered); }
proof fn lemma_ranges(rs: Seq<(usize, usize)>, f: Seq<usize>, k: int)
    requires ranges_ok(rs, f), 0 <= k < rs.len(),
    ensures rs[k].0 <= rs[k].1, f.contains(rs[k].0), f.contains(rs[k].1),
{ reveal(ranges_ok); }
/// the list that starts at x inside the bytes fetched for a range
proof fn lemma_fetched(d: Seq<u8>, from: int, to: int, x: int)
    requires pay_fits(d, x), pay_fits(d, to), apart(d, x, to), 0 <= from <= x <= to,
    ensures ({ let e = d.subrange(from, to + 4 + 8 * pay_len(d, to)); let w = e.subrange(x - from, e.len() as int); x - from < e.len() && pay_fits(w, 0) && pay(w, 0) == pay(d, x) }),
{
    let e = d.subrange(from, to + 4 + 8 * pay_len(d, to)); let w = e.subrange(x - from, e.len() as int);
    assert(w =~= d.subrange(x, to + 4 + 8 * pay_len(d, to)));
    assert(w.subrange(0, 4) =~= d.subrange(x, x + 4));
    assert forall|i: int| 0 <= i < pay_len(d, x) implies pay_at(w, 0, i) == pay_at(d, x, i) by { assert(w.subrange(4 + 8 * i, 12 + 8 * i) =~= d.subrange(x + 4 + 8 * i, x + 12 + 8 * i)); }
    assert(pay(w, 0) =~= pay(d, x));
}
/// the list that is resolved for offset x
spec fn citing(c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, x: usize) -> int { choose|i: int| cites(c, q, s, s.len() as int, i, x as int) }
/// all lists resolved at once are in, and the first m fetched ones, and n positions of the next
#[verifier::opaque]
spec fn fetch_upto(d: Seq<u8>, c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, f: Seq<usize>, m: int, n: int, src: Seq<(int, int)>) -> bool {
    &&& forall|i: int| 0 <= i < src.len() ==> imm(c, q, s[(#[trigger] src[i]).0]) || exists|k: int| 0 <= k <= m && k < f.len() && src[i].0 == citing(c, q, s, #[trigger] f[k]) && (k == m ==> src[i].1 < n)
    &&& forall|p: (int, int)| #[trigger] slot(d, q, s, p) && imm(c, q, s[p.0]) ==> src.contains(p)
    &&& forall|k: int, j: int| 0 <= k < m && 0 <= j < pay(d, f[k] as int).len() ==> src.contains((citing(c, q, s, #[trigger] f[k]), #[trigger] j_(j)))
    &&& m < f.len() ==> forall|j: int| 0 <= j < n ==> src.contains((citing(c, q, s, f[m]), #[trigger] j_(j)))
}
spec fn j_(j: int) -> int { j }
proof fn lemma_citing(d: Seq<u8>, c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, f: Seq<usize>, k: int)
    requires todo_upto(c, q, s, s.len() as int, f), 0 <= k < f.len(),
    ensures ({ let i = citing(c, q, s, f[k]); cites(c, q, s, s.len() as int, i, f[k] as int) && roffs(d, q, s[i]) == pay(d, f[k] as int) }),
{
    reveal(todo_upto); assert(f.contains(f[k])); }
proof fn lemma_fetch_begin(d: Seq<u8>, c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, f: Seq<usize>, src: Seq<(int, int)>)
    requires done_upto(d, c, q, s, s.len() as int, src),
    ensures fetch_upto(d, c, q, s, f, 0, 0, src),
{
    reveal(done_upto); reveal(fetch_upto); }
proof fn lemma_fetch_step(d: Seq<u8>, c: Option<&PayloadCache>, q: int, fb: int, s: Seq<PayloadRef>, f: Seq<usize>, m: int, n: int, r: Seq<HttpSearchResultItem>, src: Seq<(int, int)>, x: HttpSearchResultItem)
    requires fetch_upto(d, c, q, s, f, m, n, src), from_slots(d, q, fb, s, r, src), todo_upto(c, q, s, s.len() as int, f), strictly_up(f), 0 <= m < f.len(), 0 <= n < pay(d, f[m] as int).len(),
        x.range is RangeFrom, x.range.at() == fb + pay(d, f[m] as int)[n],
    ensures fetch_upto(d, c, q, s, f, m, n + 1, src.push((citing(c, q, s, f[m]), n))), from_slots(d, q, fb, s, r.push(x), src.push((citing(c, q, s, f[m]), n))),
{
    reveal(todo_upto); reveal(from_slots);
    reveal(fetch_upto); reveal(strictly_up);
    let i0 = citing(c, q, s, f[m]); let p = (i0, n); let t = src.push(p);
    lemma_citing(d, c, q, s, f, m);
    assert(!src.contains(p)) by {
        if src.contains(p) {
            let i = choose|i: int| 0 <= i < src.len() && src[i] == p;
            assert(src[i].0 == i0);
            assert(!imm(c, q, s[i0]));
            let k = choose|k: int| 0 <= k <= m && k < f.len() && src[i].0 == citing(c, q, s, #[trigger] f[k]) && (k == m ==> src[i].1 < n);
            lemma_citing(d, c, q, s, f, k);
            assert(f[k] == f[m]);
        }
    }
    assert(slot(d, q, s, p));
    lemma_from_push(d, q, fb, s, r, src, x, p);
    assert forall|i: int| 0 <= i < t.len() implies imm(c, q, s[(#[trigger] t[i]).0]) || exists|k: int| 0 <= k <= m && k < f.len() && t[i].0 == citing(c, q, s, #[trigger] f[k]) && (k == m ==> t[i].1 < n + 1) by {
        if i < src.len() {
            assert(t[i] == src[i]);
            if !imm(c, q, s[src[i].0]) { let k = choose|k: int| 0 <= k <= m && k < f.len() && src[i].0 == citing(c, q, s, #[trigger] f[k]) && (k == m ==> src[i].1 < n); assert(t[i].0 == citing(c, q, s, f[k])); }
        } else { assert(t[i].0 == citing(c, q, s, f[m])); }
    }
    assert forall|j: int| 0 <= j < n + 1 implies t.contains((citing(c, q, s, f[m]), #[trigger] j_(j))) by { if j < n { assert(src.contains((citing(c, q, s, f[m]), j_(j)))); } else { assert(t.contains(p)); } }
}
proof fn lemma_fetch_next(d: Seq<u8>, c: Option<&PayloadCache>, q: int, s: Seq<PayloadRef>, f: Seq<usize>, m: int, src: Seq<(int, int)>)
    requires 0 <= m < f.len(), fetch_upto(d, c, q, s, f, m, pay(d, f[m] as int).len() as int, src),
    ensures fetch_upto(d, c, q, s, f, m + 1, 0, src),
{
    reveal(fetch_upto);
    assert forall|i: int| 0 <= i < src.len() implies imm(c, q, s[(#[trigger] src[i]).0]) || exists|k: int| 0 <= k <= m + 1 && k < f.len() && src[i].0 == citing(c, q, s, #[trigger] f[k]) && (k == m + 1 ==> src[i].1 < 0) by {
        if !imm(c, q, s[src[i].0]) { let k = choose|k: int| 0 <= k <= m && k < f.len() && src[i].0 == citing(c, q, s, #[trigger] f[k]) && (k == m ==> src[i].1 < pay(d, f[m] as int).len()); assert(src[i].0 == citing(c, q, s, f[k])); }
    }
    assert forall|k: int, j: int| 0 <= k < m + 1 && 0 <= j < pay(d, f[k] as int).len() implies src.contains((citing(c, q, s, #[trigger] f[k]), #[trigger] j_(j))) by {}
}
proof fn lemma_fetch_end(d: Seq<u8>, c: Option<&PayloadCache>, q: int, fb: int, s: Seq<PayloadRef>, f: Seq<usize>, r: Seq<HttpSearchResultItem>, src: Seq<(int, int)>)
    requires fetch_upto(d, c, q, s, f, f.len() as int, 0, src), from_slots(d, q, fb, s, r, src), todo_upto(c, q, s, s.len() as int, f), refs_ok(d, q, s), 0 <= q,
    ensures lists(fb, r, flat(d, q, s)),
{
    reveal(todo_upto); reveal(from_slots);
    reveal(fetch_upto);
    assert forall|p: (int, int)| #[trigger] slot(d, q, s, p) implies exists|i: int| 0 <= i < src.len() && slot_val(d, q, s, #[trigger] src[i]) == slot_val(d, q, s, p) by {
        if imm(c, q, s[p.0]) { assert(src.contains(p)); let i = choose|i: int| 0 <= i < src.len() && src[i] == p; assert(slot_val(d, q, s, src[i]) == slot_val(d, q, s, p)); }
        else {
            assert(ref_fits(d, q, s[p.0]));
            let x = (q + s[p.0]->Indirect_0) as usize;
            assert(f.contains(x));
            let k = choose|k: int| 0 <= k < f.len() && f[k] == x;
            lemma_citing(d, c, q, s, f, k);
            let y = (citing(c, q, s, f[k]), j_(p.1));
            assert(src.contains(y));
            let i = choose|i: int| 0 <= i < src.len() && src[i] == y;
            assert(slot_val(d, q, s, src[i]) == slot_val(d, q, s, p));
        }
    }
    lemma_lists(d, q, fb, s, r, src);
}
fn ref_at(v: &Vec<PayloadRef>, i: usize) -> (r: PayloadRef) requires i < v@.len(), ensures r == v@[i as int] { match &v[i] { PayloadRef::Direct(o) => PayloadRef::Direct(*o), PayloadRef::Indirect(x) => PayloadRef::Indirect(*x) } }
%%fn static_btree/stree.rs - batch_resolve_payloads
%%ret r
%%deasync
%%dropmacro debug
%%sub `payload_offsets_to_fetch.sort()` => `sort_up(&mut payload_offsets_to_fetch)`
%%sub `payload_offsets_to_fetch.dedup()` => `dedup_of(&mut payload_offsets_to_fetch)`
%%sub `for &offset in payload_offsets_to_fetch.iter().skip(1) {` => `let mut i_: usize = 1; while i_ < payload_offsets_to_fetch.len() { let offset = payload_offsets_to_fetch[i_]; i_ += 1;`
%%sub `for (start, end) in offset_ranges {` => `let mut k_: usize = 0; while k_ < offset_ranges.len() { let (start, end) = offset_ranges[k_]; k_ += 1;`
%%sub `for &offset in payload_offsets_to_fetch .iter() .filter(|&&o|` => `let mut f_: usize = 0; while f_ < payload_offsets_to_fetch.len() { let offset = payload_offsets_to_fetch[f_]; let o = offset; f_ += 1; if !(`
%%sub `<= end) {` => `<= end) { continue; }`
%%sub `for &offset in &payload_offsets_to_fetch {` => `let mut m_: usize = 0; while m_ < payload_offsets_to_fetch.len() { let offset = payload_offsets_to_fetch[m_]; m_ += 1;`
%%sub `Cursor::new(count).read_u32::<LittleEndian>()` => `Cursor::new(count.all_().as_slice()).read_u32()`
%%sub `&payload_data[relative_offset..]` => `slice_from(payload_data.all_(), relative_offset)`
%%sub `for payload_ref in payload_refs {` => `let mut r_: usize = 0; while r_ < payload_refs.len() { let payload_ref = ref_at(&payload_refs, r_); r_ += 1;`
%%sub `let mut fetched_payloads = HashMap::new();` => `let mut fetched_payloads: HashMap<usize, PayloadEntry> = HashMap::new();`
%%attr #[verifier::rlimit(60)]
%%loops 7
%%spec
    requires refs_ok(old(client).file(), payload_section_start as int, payload_refs@), feature_begin <= old(client).file().len() <= 0x7000_0000_0000_0000, cache is Some ==> cache->0.of(old(client).file()),
    ensures final(client).file() == old(client).file(), r is Ok ==> lists(feature_begin as int, r->Ok_0@, flat(old(client).file(), payload_section_start as int, payload_refs@)),
%%start
    let ghost d = client.file(); let ghost q = payload_section_start as int; let ghost fb = feature_begin as int; let ghost refs = payload_refs@; let ghost nr = refs.len() as int; let ghost cc = cache;
    let ghost mut src = Seq::<(int, int)>::empty();
    proof { lemma_flat(d, q, refs); assert(hoffs(fb, Seq::<HttpSearchResultItem>::empty()) =~= Seq::<u64>::empty()); }
%%loop 0
    invariant
        d == client.file(), d == old(client).file(), q == payload_section_start, fb == feature_begin, refs_ok(d, q, refs), nr == refs.len(), fb <= d.len() <= 0x7000_0000_0000_0000, 0 <= q, 0 <= fb, refs == payload_refs@, cc == cache, cc is Some ==> cc->0.of(d),
        from_slots(d, q, fb, refs, results@, src), done_upto(d, cc, q, refs, r_ as int, src), todo_upto(cc, q, refs, r_ as int, payload_offsets_to_fetch@), 0 <= r_ <= nr,
    decreases nr - r_,
%%after `r_ += 1;`
    let ghost k = r_ - 1; let ghost f0 = payload_offsets_to_fetch@;
    proof { assert(payload_ref == refs[k]); assert(ref_fits(d, q, refs[k])); lemma_part_begin(d, cc, q, refs, k, src); }
%%after `let start = feature_begin + offset as usize;` 0
    let ghost r0 = results@;
    proof { assert(roffs(d, q, refs[k]) == seq![offset]); assert(roffs(d, q, refs[k])[0] == offset); }
%%pre `let start = feature_begin + offset as usize;` 0
    proof { assert(roffs(d, q, refs[k])[0] == offset); }
%%after `results.push(HttpSearchResultItem { range: HttpRange::RangeFrom(start..), });` 0
    proof { lemma_part_step(d, cc, q, fb, refs, k, 0, r0, src, results@.last()); src = src.push((k, 0)); assert(results@ == r0.push(results@.last())); lemma_part_done(d, cc, q, refs, k, src); lemma_todo_skip(cc, q, refs, k, f0); }
%%before 1
    proof { lemma_cached(cache, d, abs_offset as int); assert(entry.offsets@ == roffs(d, q, refs[k])); }
%%iter 1 it1
%%loop 1
    invariant
        d == client.file(), d == old(client).file(), q == payload_section_start, fb == feature_begin, refs_ok(d, q, refs), nr == refs.len(), fb <= d.len() <= 0x7000_0000_0000_0000, 0 <= q, 0 <= fb, 0 <= k < nr, imm(cc, q, refs[k]), entry.offsets@ == roffs(d, q, refs[k]), ref_fits(d, q, refs[k]),
        from_slots(d, q, fb, refs, results@, src), part_upto(d, cc, q, refs, k, it1.index() as int, src),
%%loopstart 1
    let ghost n1 = it1.index() as int; let ghost r1 = results@;
    proof { assert(offset == roffs(d, q, refs[k])[n1]); }
%%after `results.push(HttpSearchResultItem { range: HttpRange::RangeFrom(start..), });` 1
    proof { lemma_part_step(d, cc, q, fb, refs, k, n1, r1, src, results@.last()); src = src.push((k, n1)); assert(results@ == r1.push(results@.last())); }
%%post 1
    proof { lemma_part_done(d, cc, q, refs, k, src); lemma_todo_skip(cc, q, refs, k, f0); }
%%after `payload_offsets_to_fetch.push(abs_offset);` 0
    proof { lemma_todo_push(cc, q, refs, k, f0, abs_offset); lemma_done_skip(d, cc, q, refs, k, src); }
%%after `payload_offsets_to_fetch.push(abs_offset);` 1
    proof { lemma_todo_push(cc, q, refs, k, f0, abs_offset); lemma_done_skip(d, cc, q, refs, k, src); }
%%after `payload_offsets_to_fetch.push(abs_offset);` 2
    proof { lemma_todo_push(cc, q, refs, k, f0, abs_offset); lemma_done_skip(d, cc, q, refs, k, src); }
%%post 0
    let ghost f1 = payload_offsets_to_fetch@;
    proof {
        lemma_fetch_begin(d, cc, q, refs, f1, src);
        if f1.len() == 0 { lemma_fetch_end(d, cc, q, fb, refs, f1, results@, src); }
    }
%%before 0
    proof { lemma_none_done(d, cc, q, fb, refs); assert(src =~= Seq::<(int, int)>::empty()); assert(results@ =~= Seq::<HttpSearchResultItem>::empty()); assert(payload_offsets_to_fetch@ =~= Seq::<usize>::empty()); }
%%after `dedup_of(&mut payload_offsets_to_fetch);`
    let ghost f = payload_offsets_to_fetch@; let ghost nf = f.len() as int;
    proof { lemma_todo_same(cc, q, refs, nr, f1, f); lemma_todo(d, cc, q, refs, f); lemma_fetch_begin(d, cc, q, refs, f, src); assert(f.len() > 0); lemma_ok(d, f, 0); lemma_strict(f); lemma_group_begin(f); }
%%before 2
    proof { assert(offset_ranges@ =~= Seq::<(usize, usize)>::empty()); }
%%loop 2
    invariant
        d == client.file(), d == old(client).file(), q == payload_section_start, fb == feature_begin, refs_ok(d, q, refs), nr == refs.len(), fb <= d.len() <= 0x7000_0000_0000_0000, 0 <= q, 0 <= fb, f == payload_offsets_to_fetch@, nf == f.len(), 1 <= i_ <= nf, up(f), all_ok(d, f), grouped(offset_ranges@, current_range, f, i_ as int),
    decreases nf - i_,
%%after `i_ += 1;`
    let ghost rs0 = offset_ranges@; let ghost cur0 = current_range;
    proof { lemma_ok(d, f, i_ - 1); lemma_group_in(rs0, cur0, f, i_ - 1); lemma_ok_has(d, f, cur0.1); lemma_group_widen(rs0, cur0, f, i_ - 1); lemma_group_next(rs0, cur0, f, i_ - 1); }
%%pre `offset_ranges.push(current_range);` 1
    let ghost rs1 = offset_ranges@; let ghost cur1 = current_range;
%%after `offset_ranges.push(current_range);` 1
    let ghost rs = offset_ranges@;
    proof { lemma_group_close(rs1, cur1, f, nf); assert(rs == rs1.push(cur1)); }
%%before 3
    proof { lemma_got_begin(d, fetched_payloads@, f, rs); }
%%loop 3
    invariant
        d == client.file(), d == old(client).file(), q == payload_section_start, fb == feature_begin, refs_ok(d, q, refs), nr == refs.len(), fb <= d.len() <= 0x7000_0000_0000_0000, 0 <= q, 0 <= fb, f == payload_offsets_to_fetch@, nf == f.len(), rs == offset_ranges@, ranges_ok(rs, f), 0 <= k_ <= rs.len(), vstd::std_specs::hash::obeys_key_model::<usize>(), all_ok(d, f), got(d, fetched_payloads@, f, rs, k_ as int, 0),
    decreases rs.len() - k_,
%%after `k_ += 1;`
    proof { assert(rs[k_ - 1] == (start, end)); lemma_ranges(rs, f, k_ - 1); lemma_ok_has(d, f, start); lemma_ok_has(d, f, end); }
%%after `let count = client.get_range(end, size_of::<u32>())?;`
    proof { assert(count@.subrange(0, 4) =~= d.subrange(end as int, end + 4)); }
%%loop 4
    invariant
        d == client.file(), d == old(client).file(), q == payload_section_start, fb == feature_begin, refs_ok(d, q, refs), nr == refs.len(), fb <= d.len() <= 0x7000_0000_0000_0000, 0 <= q, 0 <= fb, f == payload_offsets_to_fetch@, nf == f.len(), rs == offset_ranges@, 0 < k_ <= rs.len(), vstd::std_specs::hash::obeys_key_model::<usize>(), all_ok(d, f), rs[k_ - 1] == (start, end),
        f.contains(end), pay_fits(d, end as int), payload_data@ == d.subrange(start as int, end + 4 + 8 * pay_len(d, end as int)),
        0 <= f_ <= nf, got(d, fetched_payloads@, f, rs, k_ - 1, f_ as int),
    decreases nf - f_,
%%after `f_ += 1;`
    let ghost h4 = fetched_payloads@;
    proof {
        lemma_ok(d, f, f_ - 1); assert(offset == f[f_ - 1]);
        if start <= offset <= end { lemma_ok_apart(d, f, offset, end); lemma_fetched(d, start as int, end as int, offset as int); } else { lemma_got_skip(d, h4, f, rs, k_ - 1, f_ - 1); }
    }
%%loopend 4
    proof { lemma_got_step(d, h4, f, rs, k_ - 1, f_ - 1, fetched_payloads@[offset]); assert(fetched_payloads@ =~= h4.insert(offset, fetched_payloads@[offset])); }
%%post 4
    proof { lemma_got_next(d, fetched_payloads@, f, rs, k_ - 1); }
%%post 3
    proof { lemma_got_all(d, fetched_payloads@, f, rs); }
    let ghost h = fetched_payloads@;
%%loop 5
    invariant
        d == client.file(), d == old(client).file(), q == payload_section_start, fb == feature_begin, refs_ok(d, q, refs), nr == refs.len(), fb <= d.len() <= 0x7000_0000_0000_0000, 0 <= q, 0 <= fb, f == payload_offsets_to_fetch@, nf == f.len(), vstd::std_specs::hash::obeys_key_model::<usize>(), 0 <= m_ <= nf, todo_upto(cc, q, refs, nr, f), strictly_up(f), all_ok(d, f), h == fetched_payloads@,
        forall|m: int| 0 <= m < f.len() ==> h.contains_key(#[trigger] f[m]) && h[f[m]].offsets@ == pay(d, f[m] as int),
        from_slots(d, q, fb, refs, results@, src), fetch_upto(d, cc, q, refs, f, m_ as int, 0, src),
    decreases nf - m_,
%%after `m_ += 1;`
    let ghost m5 = m_ - 1;
    proof { lemma_ok(d, f, m5); }
%%iter 6 it6
%%loop 6
    invariant
        d == client.file(), d == old(client).file(), q == payload_section_start, fb == feature_begin, refs_ok(d, q, refs), nr == refs.len(), fb <= d.len() <= 0x7000_0000_0000_0000, 0 <= q, 0 <= fb, 0 <= m5 < nf, nf == f.len(), todo_upto(cc, q, refs, nr, f), strictly_up(f), entry.offsets@ == pay(d, f[m5] as int),
        forall|j: int| 0 <= j < pay(d, f[m5] as int).len() ==> #[trigger] pay(d, f[m5] as int)[j] < LIM(),
        from_slots(d, q, fb, refs, results@, src), fetch_upto(d, cc, q, refs, f, m5, it6.index() as int, src),
%%loopstart 6
    let ghost n6 = it6.index() as int; let ghost r6 = results@;
    proof { assert(*offset == pay(d, f[m5] as int)[n6]); }
%%after `results.push(HttpSearchResultItem { range: HttpRange::RangeFrom(start..), });` 2
    proof { lemma_fetch_step(d, cc, q, fb, refs, f, m5, n6, r6, src, results@.last()); src = src.push((citing(cc, q, refs, f[m5]), n6)); assert(results@ == r6.push(results@.last())); }
%%loopend 5
    proof { lemma_fetch_next(d, cc, q, refs, f, m5, src); }
%%post 5
    proof { lemma_fetch_end(d, cc, q, fb, refs, f, results@, src); }
%%done
// ---- the lookups
/// a stored attribute index as it is looked up over range requests: index at p, features at fb
pub closed spec fn http_readable<K: Key>(d: Seq<u8>, p: int, n: int, b: int) -> bool { readable::<K>(d, p, n, b) && tree_ok(dec_tree::<K>(d, p, n, b)) }
pub closed spec fn http_ok<K: Key>(d: Seq<u8>, p: int, fb: int, n: int, b: int) -> bool {
    &&& readable::<K>(d, p, n, b) && tree_ok(dec_tree::<K>(d, p, n, b)) && small_offs(dec_tree::<K>(d, p, n, b))
    &&& p + total(n, b) * es::<K>() <= fb && fb < d.len() < LIM()
}
#[verifier::opaque]
pub closed spec fn small_offs<K: Key>(t: Tree<K>) -> bool { forall|i: int, k: int| 0 <= i < t.num_leaf_nodes && 0 <= k < group(t, i).len() ==> #[trigger] group(t, i)[k] < LIM() }
/// the answer to a lookup: that of the tree
pub closed spec fn exact_http<K: Key>(t: Tree<K>, v: int, fb: int, r: Seq<HttpSearchResultItem>) -> bool { exists|s: Seq<SearchResultItem>| exact_result(t, v, s) && #[trigger] lists(fb, r, offs_of(s)) }
pub closed spec fn range_http<K: Key>(t: Tree<K>, lo: int, hi: int, fb: int, r: Seq<HttpSearchResultItem>) -> bool { exists|s: Seq<SearchResultItem>| range_result(t, lo, hi, s) && #[trigger] lists(fb, r, offs_of(s)) }
spec fn ref_of(off: u64) -> PayloadRef { if tagged(off) { PayloadRef::Indirect(rel(off) as usize) } else { PayloadRef::Direct(off) } }
spec fn leaf_off<K: Key>(t: Tree<K>, i: int) -> u64 { t.node_items[t.level_bounds[0].start + i].offset }
proof fn lemma_ref<K: Key>(d: Seq<u8>, p: int, fb: int, n: int, b: int, i: int)
    requires http_ok::<K>(d, p, fb, n, b), 0 <= i < n,
    ensures ({ let t = dec_tree::<K>(d, p, n, b); let off = leaf_off(t, i); let q = p + total(n, b) * es::<K>();
        &&& (off & PAYLOAD_TAG != 0) == tagged(off) && (off & PAYLOAD_MASK) as int == rel(off)
        &&& roffs(d, q, ref_of(off)) == group(t, i) && ref_fits(d, q, ref_of(off)) }),
{
    let t = dec_tree::<K>(d, p, n, b); let off = leaf_off(t, i);
    lemma_dec_shape::<K>(d, p, n, b); lemma_shape(t); lemma_leaf_off(t, i); lemma_mask(off); reveal(small_offs);
    assert(leaf(t.node_items, t.level_bounds, i).offset == off);
    if tagged(off) { lemma_pay_file::<K>(d, p, n, b, off); } else { assert(group(t, i) =~= seq![off]); }
}
/// refs come from the leaves src, in their order
#[verifier::opaque]
spec fn refs_from<K: Key>(t: Tree<K>, s: Seq<PayloadRef>, src: Seq<int>, upto: int) -> bool {
    &&& s.len() == src.len()
    &&& forall|k: int| 0 <= k < src.len() ==> 0 <= (#[trigger] src[k]) < upto && s[k] == ref_of(leaf_off(t, src[k]))
    &&& forall|j: int, k: int| 0 <= j < k < src.len() ==> #[trigger] src[j] < #[trigger] src[k]
}
proof fn lemma_refs_none<K: Key>(t: Tree<K>, d: Seq<u8>, q: int, s: Seq<PayloadRef>, upto: int)
    requires s.len() == 0,
    ensures refs_from(t, s, Seq::empty(), upto), flat(d, q, s) == Seq::<u64>::empty(),
{ reveal(refs_from); reveal_with_fuel(flat, 1); }
proof fn lemma_refs_skip<K: Key>(t: Tree<K>, s: Seq<PayloadRef>, src: Seq<int>, upto: int)
    requires refs_from(t, s, src, upto),
    ensures refs_from(t, s, src, upto + 1),
{ reveal(refs_from); }
proof fn lemma_span_step<K: Key>(t: Tree<K>, lo: int, hi: int, s: int, j: int)
    requires s <= j,
    ensures offs_of(span_res(t, lo, hi, s, j + 1)) == if lo <= krk(t, j) <= hi { offs_of(span_res(t, lo, hi, s, j)) + group(t, j) } else { offs_of(span_res(t, lo, hi, s, j)) },
{
    lemma_offs(t, j); lemma_offs_add(span_res(t, lo, hi, s, j), item_res(t, j));
    assert(span_res(t, lo, hi, s, j) + Seq::<SearchResultItem>::empty() =~= span_res(t, lo, hi, s, j));
}
/// an empty range, or one of a single key
proof fn lemma_range_trivial<K: Key>(t: Tree<K>, lo: int, hi: int, fb: int)
    ensures lo > hi ==> forall|r: Seq<HttpSearchResultItem>| r.len() == 0 ==> #[trigger] range_http(t, lo, hi, fb, r),
        lo == hi ==> forall|r: Seq<HttpSearchResultItem>| #[trigger] exact_http(t, lo, fb, r) ==> range_http(t, lo, hi, fb, r),
{
    reveal(range_result);
    if lo > hi {
        assert forall|r: Seq<HttpSearchResultItem>| r.len() == 0 implies #[trigger] range_http(t, lo, hi, fb, r) by {
            let s = Seq::<SearchResultItem>::empty(); assert(hoffs(fb, r) =~= Seq::<u64>::empty()); assert(offs_of(s) =~= Seq::<u64>::empty()); assert(lists(fb, r, offs_of(s)));
        }
    }
    if lo == hi {
        assert forall|r: Seq<HttpSearchResultItem>| #[trigger] exact_http(t, lo, fb, r) implies range_http(t, lo, hi, fb, r) by {
            let s = choose|s: Seq<SearchResultItem>| exact_result(t, lo, s) && #[trigger] lists(fb, r, offs_of(s)); assert(range_result(t, lo, hi, s));
        }
    }
}
proof fn lemma_refs_all<K: Key>(t: Tree<K>, s: Seq<PayloadRef>, src: Seq<int>, i: int, n: int)
    requires refs_from(t, s, src, i), i <= n,
    ensures refs_from(t, s, src, n),
{ reveal(refs_from); }
/// the one leaf found
proof fn lemma_refs_one<K: Key>(t: Tree<K>, d: Seq<u8>, q: int, s: Seq<PayloadRef>, i: int)
    requires s == Seq::<PayloadRef>::empty().push(ref_of(leaf_off(t, i))), roffs(d, q, ref_of(leaf_off(t, i))) == group(t, i), 0 <= i < t.num_leaf_nodes,
    ensures refs_from(t, s, seq![i], t.num_leaf_nodes), flat(d, q, s) == offs_of(item_res(t, i)),
{
    let e = Seq::<PayloadRef>::empty();
    lemma_refs_none(t, d, q, e, i); lemma_refs_push(t, d, q, e, Seq::empty(), i, ref_of(leaf_off(t, i)));
    assert(Seq::<int>::empty().push(i) =~= seq![i]); lemma_refs_all(t, s, seq![i], i + 1, t.num_leaf_nodes); lemma_offs(t, i);
    assert(Seq::<u64>::empty() + group(t, i) =~= group(t, i));
}
proof fn lemma_refs_push<K: Key>(t: Tree<K>, d: Seq<u8>, q: int, s: Seq<PayloadRef>, src: Seq<int>, i: int, x: PayloadRef)
    requires refs_from(t, s, src, i), x == ref_of(leaf_off(t, i)), 0 <= i,
    ensures refs_from(t, s.push(x), src.push(i), i + 1), flat(d, q, s.push(x)) == flat(d, q, s) + roffs(d, q, x),
{
    reveal(refs_from); reveal_with_fuel(flat, 2); assert(s.push(x).drop_last() =~= s); assert(s.push(x).last() == x);
    let s2 = s.push(x); let u = src.push(i);
    assert forall|k: int| 0 <= k < u.len() implies 0 <= (#[trigger] u[k]) < i + 1 && s2[k] == ref_of(leaf_off(t, u[k])) by { if k < src.len() { assert(u[k] == src[k]); assert(s2[k] == s[k]); } }
    assert forall|j: int, k: int| 0 <= j < k < u.len() implies #[trigger] u[j] < #[trigger] u[k] by { assert(u[j] == src[j]); if k < src.len() { assert(u[k] == src[k]); } }
}
proof fn lemma_refs_ok<K: Key>(d: Seq<u8>, p: int, fb: int, n: int, b: int, s: Seq<PayloadRef>, src: Seq<int>)
    requires http_ok::<K>(d, p, fb, n, b), refs_from(dec_tree::<K>(d, p, n, b), s, src, n),
    ensures refs_ok(d, p + total(n, b) * es::<K>(), s),
{
    reveal(refs_from);
    let t = dec_tree::<K>(d, p, n, b); let q = p + total(n, b) * es::<K>();
    lemma_dec_shape::<K>(d, p, n, b);
    assert forall|k: int| 0 <= k < s.len() implies ref_fits(d, q, #[trigger] s[k]) by { assert(0 <= src[k] < n); lemma_ref::<K>(d, p, fb, n, b, src[k]); }
    assert forall|i: int, k: int| 0 <= i < s.len() && 0 <= k < s.len() && (#[trigger] s[i]) is Indirect && (#[trigger] s[k]) is Indirect implies apart(d, q + s[i]->Indirect_0, q + s[k]->Indirect_0) by {
        assert(0 <= src[i] < n && 0 <= src[k] < n);
        let x = leaf_off(t, src[i]); let y = leaf_off(t, src[k]);
        reveal(tree_ok);
        assert(leaf(t.node_items, t.level_bounds, src[i]).offset == x && leaf(t.node_items, t.level_bounds, src[k]).offset == y);
        lemma_pay_file::<K>(d, p, n, b, x); lemma_pay_file::<K>(d, p, n, b, y);
        assert(pay(d, q + rel(x)).len() == pay_len(t.payload_data, rel(x)));
        if i < k { assert(pays_apart(t.payload_data, x, y)); }
        if k < i { assert(pays_apart(t.payload_data, y, x)); }
    }
}
proof fn lemma_offs<K: Key>(t: Tree<K>, i: int) ensures offs_of(item_res(t, i)) == group(t, i)
{ assert(offs_of(item_res(t, i)) =~= group(t, i)); }
proof fn lemma_offs_add(a: Seq<SearchResultItem>, b: Seq<SearchResultItem>) ensures offs_of(a + b) == offs_of(a) + offs_of(b)
{ assert(offs_of(a + b) =~= offs_of(a) + offs_of(b)); }
/// the leaves from position a on
proof fn step_leaves<K: Key>(t: Tree<K>, a: int, len: int)
    requires tree_ok(t), t.level_bounds[0].start <= a, a + len <= t.level_bounds[0].end, 0 <= len,
    ensures forall|i: int, j: int| 0 <= i < j < len ==> #[trigger] ik(t, a + i) < #[trigger] ik(t, a + j),
        forall|i: int| 0 <= i < len ==> #[trigger] ik(t, a + i) == krk(t, a + i - t.level_bounds[0].start),
{
    reveal(tree_ok);
    let z = t.level_bounds[0].start as int;
    assert forall|i: int| 0 <= i < len implies #[trigger] ik(t, a + i) == krk(t, a + i - z) by {}
    assert forall|i: int, j: int| 0 <= i < j < len implies #[trigger] ik(t, a + i) < #[trigger] ik(t, a + j) by { assert(lrk(t.node_items, t.level_bounds, a + i - z) < lrk(t.node_items, t.level_bounds, a + j - z)); }
}
// the estimate of the payload size (floats): no assumption about it
impl<K: Key> Stree<K> {
#[verifier::external_body] pub fn compute_payload_prefetch_size(num_items: usize, a: Option<usize>, f: Option<f32>) -> (r: usize) { unimplemented!() }
}
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" tree_size
%%ret r
%%sub `Entry::<K>::SERIALIZED_SIZE` => `Entry::<K>::ser_size()`
%%spec
    requires num_items * es::<K>() <= usize::MAX,
    ensures r == num_items * es::<K>(),
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" http_stream_find_exact
%%ret r
%%deasync
%%hoist NodeRange
%%dropmacro debug
%%loops 1
%%sub `let Range { start: root_start, end: root_end, } = level_bounds` => `let last_ = level_bounds`
%%sub `.expect("RTree has at least one level when node_size >= 2 and num_items > 0");` => `.expect("RTree has at least one level when node_size >= 2 and num_items > 0"); let root_start = last_.start; let root_end = last_.end;`
%%sub `*root_start..*root_end` => `root_start..root_end`
%%sub `let node_items = read_http_node_items(` => `let node_items: Vec<NodeItem<K>> = read_http_node_items(`
%%sub `node_items.binary_search_by(|item: &NodeItem<K>| item.key.cmp(&search_entry.key))` => `bsearch(node_items.as_slice(), |item: &NodeItem<K>| -> (o: Ordering) ensures onum(o) == sgn(item.key.rk(), search_entry.key.rk()) { item.key.cmp(&search_entry.key) })`
%%sub `queue.back_mut()` => `back_mut_of(&mut queue)`
%%sub `Err(_) => continue,` => `Err(_) => { continue; }`
%%sub `debug_assert_eq!(children_range.nodes.start + 1, tail.nodes.end, "we only ever fetch one extra node");` => ``
%%sub `debug_assert_eq!(children_level, 0, "extra node fetching only happens with leaf nodes");` => ``
%%attr #[verifier::rlimit(40)]
%%spec
    requires http_ok::<K>(old(client).file(), index_begin as int, feature_begin as int, num_items as int, branching_factor as int),
    ensures final(client).file() == old(client).file(),
        r is Ok ==> exact_http(dec_tree::<K>(old(client).file(), index_begin as int, num_items as int, branching_factor as int), key.rk(), feature_begin as int, r->Ok_0@),
%%start
    let ghost d = client.file(); let ghost p = index_begin as int; let ghost fb = feature_begin as int; let ghost n = num_items as int; let ghost b = branching_factor as int; let ghost t = dec_tree::<K>(d, p, n, b);
    let ghost v = key.rk(); let ghost q = p + total(n, b) * es::<K>();
    let ghost mut g: int = 0; let ghost mut src = Seq::<int>::empty(); let ghost mut res = Seq::<SearchResultItem>::empty();
    proof { lemma_dec_shape::<K>(d, p, n, b); lemma_shape(t); step_start(t, v, true); reveal(readable); K::size(); }
%%after `let root_end = last_.end;`
    let ghost lb = level_bounds@;
    proof { lemma_bounds_of(lb, n, b); lemma_levels0(lb, n, b); }
%%before 0
    proof { lemma_refs_none(t, d, q, payload_refs@, n); }
%%loop 0
    invariant
        d == client.file(), d == old(client).file(), http_ok::<K>(d, p, fb, n, b), t == dec_tree::<K>(d, p, n, b), index_begin == p, payload_data_start == q, q == p + total(n, b) * es::<K>(), d.len() < LIM(), 0 <= q <= fb < d.len(), feature_begin == fb, payload_cache.of(d),
        tree_ok(t), levels_ok(lb, n, b), b == t.branching_factor, n == t.num_leaf_nodes, 2 <= b <= 65535, node_size == b - 1, lb == t.level_bounds, lb == level_bounds@, t.node_items.len() == lb[0].end, total(n, b) == lb[0].end,
        v == search_entry.key.rk(), queue@.len() <= 1,
        queue@.len() == 1 ==> payload_refs@.len() == 0 && 0 <= queue@[0].level < lb.len() && located(t, queue@[0].level as int, g, v, true) && queue@[0].nodes.start == at(t, queue@[0].level as int, g)
            && queue@[0].nodes.end <= lb[queue@[0].level as int].end
            && (queue@[0].nodes.end == queue@[0].nodes.start + len_at(t, queue@[0].level as int, g) || queue@[0].level == 0 && queue@[0].nodes.end == queue@[0].nodes.start + len_at(t, 0, g) + 1),
        queue@.len() == 0 ==> exact_result(t, v, res) && flat(d, q, payload_refs@) == offs_of(res),
        refs_from(t, payload_refs@, src, n), payload_refs@.len() == 0 ==> src.len() == 0,
    ensures queue@.len() == 0,
    decreases if queue@.len() == 0 { 0int } else { queue@[0].level + 1 },
%%loopstart 0
    let ghost l = node_range.level as int; let ghost a = at(t, l, g); let ghost len = len_at(t, l, g); let ghost k0 = node_range.nodes.end - node_range.nodes.start;
    proof { step_node(t, l, g, v, true); K::bounds(&search_entry.key); lemma_node_items::<K>(d, p, n, b, a, k0); if l == 0 { step_leaves(t, a, k0); } }
%%after `let node_items: Vec<NodeItem<K>> = read_http_node_items(client, index_begin, &node_range.nodes)?;`
    proof {
        assert(node_items@.len() == k0 && k0 > 0);
        assert forall|k: int| 0 <= k < k0 implies (#[trigger] node_items@[k]).key.rk() == ik(t, a + k) && node_items@[k] == t.node_items[a + k] by {}
    }
%%after `let off: u64 = node_items[idx].offset;`
    let ghost li = a - lb[0].start + idx; let ghost refs0 = payload_refs@;
    proof { assert(ik(t, a + idx) == v); lemma_exact(t, v, li); lemma_ref::<K>(d, p, fb, n, b, li); assert(off == leaf_off(t, li)); assert(refs0 =~= Seq::<PayloadRef>::empty()); }
%%after `payload_refs.push(PayloadRef::Indirect(rel));`
    proof { assert(payload_refs@ =~= Seq::<PayloadRef>::empty().push(ref_of(off))); lemma_refs_one(t, d, q, payload_refs@, li); src = seq![li]; res = item_res(t, li); }
%%after `payload_refs.push(PayloadRef::Direct(off));`
    proof { assert(payload_refs@ =~= Seq::<PayloadRef>::empty().push(ref_of(off))); lemma_refs_one(t, d, q, payload_refs@, li); src = seq![li]; res = item_res(t, li); }
%%after `Err(_) => {`
    proof {
        assert forall|i: int| 0 <= i < len implies #[trigger] ik(t, a + i) != v by { assert(node_items@[i].key.rk() != v); }
        step_nowhere(t, g, v); res = Seq::empty(); assert(offs_of(res) =~= Seq::<u64>::empty()); lemma_refs_none(t, d, q, payload_refs@, n);
    }
%%after `_offset = node_items[idx].offset as usize + node_size;`
    proof { assert(node_items@[idx as int].key.rk() == v); step_kid(t, l, g, idx as int, v, true); if _offset < lb[l - 1].end { step_right(t, l, g, idx as int, v); g = kid(b, g, idx + 1); } else { step_own(t, l, g, idx as int, v, true); g = kid(b, g, idx as int); } }
%%pre `_offset = node_items[idx].offset as usize + node_size;`
    proof { step_kid(t, l, g, idx as int, v, true); }
%%pre `_offset = node_items[0].offset as usize;`
    proof { assert(node_items@[0].key.rk() > v); step_kid(t, l, g, 0, v, true); step_between(t, l, g, 0, v, true); g = kid(b, g, 0); }
%%pre `_offset = node_items[node_items.len() - 1].offset as usize + node_size;`
    proof { assert(node_items@[len - 1].key.rk() < v); step_kid(t, l, g, len - 1, v, true); step_below(t, l, g, v, true); g = kid(b, g, len); }
%%pre `_offset = node_items[idx].offset as usize;` 1
    proof { assert(node_items@[idx as int].key.rk() > v); assert(node_items@[idx - 1].key.rk() < v); step_kid(t, l, g, idx as int, v, true); step_between(t, l, g, idx as int, v, true); g = kid(b, g, idx as int); }
%%after `let children_level = node_range.level - 1;`
    proof { assert(_offset == at(t, l - 1, g)); step_node(t, l - 1, g, v, true); }
%%pre `let results = batch_resolve_payloads(`
    proof { lemma_refs_ok::<K>(d, p, fb, n, b, payload_refs@, src); }
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" http_stream_find_partition
%%ret r
%%deasync
%%dropmacro debug
%%loops 1
%%sub `for level in (1..level_bounds.len()).rev() {` => `let mut level: usize = level_bounds.len(); while level > 1 { level -= 1;`
%%sub `node_items.binary_search_by(|item: &NodeItem<K>| item.key.cmp(&key))` => `bsearch(node_items.as_slice(), |item: &NodeItem<K>| -> (o: Ordering) ensures onum(o) == sgn(item.key.rk(), key.rk()) { item.key.cmp(&key) })`
%%sub `let node_items = read_http_node_items(` => `let node_items: Vec<NodeItem<K>> = read_http_node_items(`
%%spec
    requires http_readable::<K>(old(client).file(), index_begin as int, num_items as int, branching_factor as int),
    ensures final(client).file() == old(client).file(),
        r is Ok ==> part_ok(dec_tree::<K>(old(client).file(), index_begin as int, num_items as int, branching_factor as int), key.rk(), r->Ok_0 as int),
%%start
    let ghost d = client.file(); let ghost p = index_begin as int; let ghost n = num_items as int; let ghost b = branching_factor as int; let ghost t = dec_tree::<K>(d, p, n, b);
    let ghost v = key.rk();
    let ghost mut g: int = 0;
    proof { lemma_dec_shape::<K>(d, p, n, b); lemma_shape(t); step_start(t, v, false); reveal(readable); }
%%before 0
    let ghost lb = level_bounds@;
    proof { lemma_bounds_of(lb, n, b); lemma_levels0(lb, n, b); }
%%loop 0
    invariant
        d == client.file(), d == old(client).file(), readable::<K>(d, p, n, b), t == dec_tree::<K>(d, p, n, b), index_begin == p, d.len() <= 0x7000_0000_0000_0000,
        tree_ok(t), levels_ok(lb, n, b), b == t.branching_factor, n == t.num_leaf_nodes, 2 <= b <= 65535, node_size == b - 1, lb == t.level_bounds, lb == level_bounds@, t.node_items.len() == lb[0].end, total(n, b) == lb[0].end,
        v == key.rk(), 1 <= level <= lb.len(), located(t, level - 1, g, v, false), node_index == at(t, level - 1, g),
    decreases level,
%%after `level -= 1;`
    let ghost l = level as int; let ghost a = at(t, l, g); let ghost len = len_at(t, l, g);
    proof { step_node(t, l, g, v, false); K::bounds(&key); lemma_node_items::<K>(d, p, n, b, a, len); }
%%after `let node_items: Vec<NodeItem<K>> = read_http_node_items(client, index_begin, &node_range)?;`
    proof {
        assert(node_items@.len() == len && len > 0);
        assert forall|k: int| 0 <= k < len implies (#[trigger] node_items@[k]).key.rk() == ik(t, a + k) && node_items@[k] == t.node_items[a + k] by {}
    }
%%pre `node_index = node_items[index].offset as usize;` 0
    proof { assert(node_items@[index as int].key.rk() == v); step_kid(t, l, g, index as int, v, false); step_own(t, l, g, index as int, v, false); g = kid(b, g, index as int); }
%%pre `node_index = node_items[0].offset as usize;`
    proof { assert(node_items@[0].key.rk() > v); step_kid(t, l, g, 0, v, false); step_between(t, l, g, 0, v, false); g = kid(b, g, 0); }
%%pre `node_index = node_items[node_items.len() - 1]`
    proof { assert(node_items@[len - 1].key.rk() < v); step_kid(t, l, g, len - 1, v, false); step_below(t, l, g, v, false); g = kid(b, g, len); step_node(t, l - 1, g, v, false); }
%%pre `node_index = node_items[index].offset as usize;` 1
    proof { assert(node_items@[index as int].key.rk() > v); assert(node_items@[index - 1].key.rk() < v); step_kid(t, l, g, index as int, v, false); step_between(t, l, g, index as int, v, false); g = kid(b, g, index as int); }
%%post 0
    ;proof { assert(part_at(t, v, node_index as int, g)); }
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" http_stream_find_range
%%ret r
%%deasync
%%dropmacro debug
%%loops 2
%%sub `let Range { start: leaf_nodes_offset, end: num_nodes, } = level_bounds` => `let first_ = level_bounds`
%%sub `.expect("RTree has at least one level when node_size >= 2 and num_items > 0");` => `.expect("RTree has at least one level when node_size >= 2 and num_items > 0"); let leaf_nodes_offset = first_.start; let num_nodes = first_.end;`
%%sub `lower > upper` => `lower.gt(&upper)`
%%sub `lower == upper` => `lower.eq(&upper)`
%%sub `item.key >= lower && item.key <= upper` => `item.key.ge(&lower) && item.key.le(&upper)`
%%sub `for item in node_items.iter() {` => `let mut _i: usize = 0; while _i < node_items.len() { let item = &node_items[_i];`
%%sub `let node_items = read_http_node_items::<K, T>(` => `let node_items: Vec<NodeItem<K>> = read_http_node_items::<K, T>(`
%%attr #[verifier::rlimit(40)]
%%spec
    requires http_ok::<K>(old(client).file(), index_begin as int, feature_begin as int, num_items as int, branching_factor as int),
    ensures final(client).file() == old(client).file(),
        r is Ok ==> range_http(dec_tree::<K>(old(client).file(), index_begin as int, num_items as int, branching_factor as int), lower.rk(), upper.rk(), feature_begin as int, r->Ok_0@),
%%start
    let ghost d = client.file(); let ghost p = index_begin as int; let ghost fb = feature_begin as int; let ghost n = num_items as int; let ghost b = branching_factor as int; let ghost t = dec_tree::<K>(d, p, n, b);
    let ghost lo = lower.rk(); let ghost hi = upper.rk(); let ghost q = p + total(n, b) * es::<K>();
    let ghost mut src = Seq::<int>::empty();
    proof { lemma_range_trivial(t, lo, hi, fb); lemma_dec_shape::<K>(d, p, n, b); lemma_shape(t); reveal(readable); K::size(); }
%%after `let num_nodes = first_.end;`
    let ghost lb = level_bounds@;
    proof { lemma_bounds_of(lb, n, b); lemma_levels0(lb, n, b); }
%%pre `let num_all_items =`
    proof { lemma_bounds_of(level_bounds@, n, b); lemma_levels0(level_bounds@, n, b); }
%%pre `let start_idx =`
    proof {
        let g = choose|g: int| part_at(t, lo, lower_idx as int, g); let h = choose|h: int| part_at(t, hi, upper_idx as int, h);
        step_node(t, 0, g, lo, false); step_node(t, 0, h, hi, false);
    }
%%before 0
    let ghost s = start_idx - leaf_start; let ghost e = end_idx - leaf_start;
    proof { lemma_refs_none(t, d, q, payload_refs@, s); assert(offs_of(span_res(t, lo, hi, s, s)) =~= Seq::<u64>::empty()); }
%%loop 0
    invariant
        d == client.file(), d == old(client).file(), http_ok::<K>(d, p, fb, n, b), readable::<K>(d, p, n, b), t == dec_tree::<K>(d, p, n, b), index_begin == p, d.len() <= 0x7000_0000_0000_0000, q == p + total(n, b) * es::<K>(),
        tree_ok(t), levels_ok(lb, n, b), b == t.branching_factor, 2 <= b <= 65535, node_size == b - 1, lb == t.level_bounds, t.node_items.len() == lb[0].end, total(n, b) == lb[0].end, n == t.num_leaf_nodes,
        leaf_start == lb[0].start, leaf_end == lb[0].end, lb[0].end - lb[0].start == n,
        lo == lower.rk(), hi == upper.rk(), leaf_start <= start_idx <= current_idx <= leaf_end, end_idx <= leaf_end, current_idx <= end_idx || current_idx == start_idx,
        s == start_idx - leaf_start, lb[0].end <= 3 * BOUND(),
        refs_from(t, payload_refs@, src, current_idx - leaf_start), flat(d, q, payload_refs@) == offs_of(span_res(t, lo, hi, s, current_idx - leaf_start)),
    decreases end_idx - current_idx,
%%after `let node_end = min(current_idx + node_size, end_idx);`
    proof { lemma_node_items::<K>(d, p, n, b, current_idx as int, node_end - current_idx); }
%%before 1
    proof { assert forall|k: int| 0 <= k < node_end - current_idx implies node_items@[k] == t.node_items[current_idx + k] by {} assert(node_items@ =~= t.node_items.subrange(current_idx as int, node_end as int)); }
%%loop 1
    invariant
        d == client.file(), d == old(client).file(), http_ok::<K>(d, p, fb, n, b), t == dec_tree::<K>(d, p, n, b), q == p + total(n, b) * es::<K>(),
        tree_ok(t), lb == t.level_bounds, t.node_items.len() == lb[0].end, lb[0].end - lb[0].start == n, n == t.num_leaf_nodes,
        leaf_start == lb[0].start, leaf_end == lb[0].end,
        lo == lower.rk(), hi == upper.rk(), leaf_start <= start_idx <= current_idx <= node_end <= leaf_end, lb[0].end <= 3 * BOUND(),
        node_items@ == t.node_items.subrange(current_idx as int, node_end as int), _i <= node_items@.len(), s == start_idx - leaf_start,
        refs_from(t, payload_refs@, src, current_idx + _i - leaf_start), flat(d, q, payload_refs@) == offs_of(span_res(t, lo, hi, s, current_idx + _i - leaf_start)),
    decreases node_items@.len() - _i,
%%loopstart 1
    let ghost li = current_idx + _i - leaf_start; let ghost refs0 = payload_refs@; let ghost src0 = src;
    proof { lemma_scan(t, li); lemma_ref::<K>(d, p, fb, n, b, li); lemma_refs_skip(t, refs0, src0, li); lemma_span_step(t, lo, hi, s, li); if krk(t, li) >= lo && krk(t, li) <= hi { src = src.push(li); } }
%%loopend 1
    _i += 1;
%%after `payload_refs.push(PayloadRef::Indirect(rel));`
    proof { lemma_refs_push(t, d, q, refs0, src0, li, payload_refs@.last()); assert(payload_refs@ =~= refs0.push(payload_refs@.last())); }
%%after `payload_refs.push(PayloadRef::Direct(off));`
    proof { lemma_refs_push(t, d, q, refs0, src0, li, payload_refs@.last()); assert(payload_refs@ =~= refs0.push(payload_refs@.last())); }
%%post 0
    ;proof {
        let r0 = span_res(t, lo, hi, s, current_idx - leaf_start);
        lemma_range(t, lo, hi, lower_idx as int, upper_idx as int, s, e, r0);
        lemma_refs_all(t, payload_refs@, src, current_idx - leaf_start, n); lemma_refs_ok::<K>(d, p, fb, n, b, payload_refs@, src);
    }
%%done

// ---- the answers over range requests as sets of offsets (the contract assumed in unit query)
proof fn lemma_lists_set(fb: int, r: Seq<HttpSearchResultItem>, s: Seq<u64>, e: Seq<(int, u64)>, lo: int, hi: int)
    requires lists(fb, r, s),
    ensures exact_set(e, lo, s) ==> exact_set(e, lo, hoffs(fb, r)), range_set(e, lo, hi, s) ==> range_set(e, lo, hi, hoffs(fb, r)),
{}
/// P04, P05, P06: an index is stored at p, the features begin at fb; the answers over range requests are those of the entries
pub proof fn p06_http<K: Key>(t: Tree<K>, s: Seq<NodeItem<K>>, d: Seq<u8>, p: int, fb: int, v: int, w: int, a: Seq<HttpSearchResultItem>, b: Seq<HttpSearchResultItem>)
    requires tree_ok(t), holds_entries(t, s), stored(d, p, t),
        exact_http(dec_tree::<K>(d, p, t.num_leaf_nodes, t.branching_factor), v, fb, a), range_http(dec_tree::<K>(d, p, t.num_leaf_nodes, t.branching_factor), v, w, fb, b),
    ensures exact_set(ents(s), v, hoffs(fb, a)), range_set(ents(s), v, w, hoffs(fb, b)), all_from(fb, a), all_from(fb, b),
{
    let u = dec_tree::<K>(d, p, t.num_leaf_nodes, t.branching_factor);
    let x = choose|x: Seq<SearchResultItem>| exact_result(u, v, x) && #[trigger] lists(fb, a, offs_of(x));
    let y = choose|y: Seq<SearchResultItem>| range_result(u, v, w, y) && #[trigger] lists(fb, b, offs_of(y));
    lemma_stored(d, p, t); lemma_same_answers(t, u, v, w, x);
    lemma_exact_set(t, s, v, x);
    p05_streamed(t, s, d, p, v, w, y); lemma_range_set(t, s, v, w, y);
    lemma_lists_set(fb, a, offs_of(x), ents(s), v, w); lemma_lists_set(fb, b, offs_of(y), ents(s), v, w);
}
/// the premise of the lookups holds of every index that is stored this way
pub proof fn p06_http_ready<K: Key>(t: Tree<K>, s: Seq<NodeItem<K>>, d: Seq<u8>, p: int, fb: int)
    requires tree_ok(t), holds_entries(t, s), stored(d, p, t), forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).offset < LIM(), 
        p + total(t.num_leaf_nodes, t.branching_factor) * es::<K>() <= fb < d.len() < LIM(),
    ensures http_ok::<K>(d, p, fb, t.num_leaf_nodes, t.branching_factor),
{
    lemma_stored(d, p, t);
    let u = dec_tree::<K>(d, p, t.num_leaf_nodes, t.branching_factor);
    assert forall|i: int, k: int| 0 <= i < u.num_leaf_nodes && 0 <= k < group(u, i).len() implies #[trigger] group(u, i)[k] < LIM() by {
        assert(group(u, i) == group(t, i)); assert(group(t, i) == offs(s, krk(t, i)));
        lemma_offs_lim(s, krk(t, i)); 
    }
    reveal(small_offs);
}
proof fn lemma_offs_lim<K: Key>(s: Seq<NodeItem<K>>, v: int)
    requires forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).offset < LIM(),
    ensures forall|k: int| 0 <= k < offs(s, v).len() ==> #[trigger] offs(s, v)[k] < LIM(),
    decreases s.len(),
{ if s.len() > 0 { let z = s.drop_last(); assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).offset < LIM() by { assert(z[k] == s[k]); } lemma_offs_lim(z, v); assert(s.last() == s[s.len() - 1]); assert(s.last().offset < LIM());
    assert forall|k: int| 0 <= k < offs(s, v).len() implies #[trigger] offs(s, v)[k] < LIM() by { if k < offs(z, v).len() { assert(offs(s, v)[k] == offs(z, v)[k]); } } } }
fn main() {}
} // verus!
