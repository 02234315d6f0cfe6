// unit query: operators and combination of conditions (P06), from static_btree/query
use vstd::prelude::*;
use std::collections::HashMap;
use std::ops::Range;
use std::marker::PhantomData;
verus! {
global size_of usize == 8;
pub enum Error { Other }
pub type Result<T> = std::result::Result<T, Error>;
%%include bytes.vx
broadcast use {bytes::group_bytes};
%%include io.vx
%%include qspec.vx

// ---- the contract of trait Key (as in unit stree; P08 checks it for every key type)
pub trait Key: Sized {
    spec fn rk(&self) -> int;
    spec fn top() -> int;
    spec fn bottom() -> int;
    proof fn bounds(k: &Self) ensures Self::bottom() <= k.rk() <= Self::top();
    fn clone(&self) -> (r: Self) ensures r == *self;
    fn max_value() -> (r: Self) ensures r.rk() == Self::top();
    fn min_value() -> (r: Self) ensures r.rk() == Self::bottom();
}

// ---- assumed here, proved in unit stree (lemmas p06_memory, p06_streamed): what the tree's lookups return
%%pubitem static_btree/stree.rs pub struct SearchResultItem
pub open spec fn offs_of(r: Seq<SearchResultItem>) -> Seq<u64> { Seq::new(r.len(), |i: int| r[i].offset as u64) }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
pub struct Stree<K: Key> { k: PhantomData<K> }
impl<K: Key> Stree<K> {
    pub uninterp spec fn entries(&self) -> Seq<(int, u64)>;
    pub uninterp spec fn ok(&self) -> bool;
    /// the tree stored at position p of d, and its entries
    pub uninterp spec fn stored_ok(d: Seq<u8>, p: int, n: int, b: int) -> bool;
    pub uninterp spec fn stored_entries(d: Seq<u8>, p: int, n: int, b: int) -> Seq<(int, u64)>;
    #[verifier::external_body]
    pub fn find_exact(&self, key: K) -> (r: Result<Vec<SearchResultItem>>)
        requires self.ok(),
        ensures r is Ok, exact_set(self.entries(), key.rk(), offs_of(r->Ok_0@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find_range(&self, lower: K, upper: K) -> (r: Result<Vec<SearchResultItem>>)
        requires self.ok(),
        ensures r is Ok, range_set(self.entries(), lower.rk(), upper.rk(), offs_of(r->Ok_0@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn stream_find_exact<R: Read + Seek>(data: &mut R, num_items: usize, branching_factor: u16, key: K) -> (r: Result<Vec<SearchResultItem>>)
        requires Self::stored_ok(old(data).data(), old(data).pos(), num_items as int, branching_factor as int),
        ensures r is Ok, final(data).data() == old(data).data(),
            exact_set(Self::stored_entries(old(data).data(), old(data).pos(), num_items as int, branching_factor as int), key.rk(), offs_of(r->Ok_0@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn stream_find_range<R: Read + Seek>(data: &mut R, num_items: usize, branching_factor: u16, lower: K, upper: K) -> (r: Result<Vec<SearchResultItem>>)
        requires Self::stored_ok(old(data).data(), old(data).pos(), num_items as int, branching_factor as int),
        ensures r is Ok, final(data).data() == old(data).data(),
            range_set(Self::stored_entries(old(data).data(), old(data).pos(), num_items as int, branching_factor as int), lower.rk(), upper.rk(), offs_of(r->Ok_0@)),
    { unimplemented!() }
}

// ---- std iterator chains of the query code, each replaced by one of these functions (the rewrites are listed in the report)
pub fn offsets_of(v: Vec<SearchResultItem>) -> (r: Vec<u64>)
    ensures r@ == offs_of(v@),
{
    let mut r: Vec<u64> = Vec::new(); let mut i: usize = 0;
    while i < v.len()
        invariant i <= v.len(), r@ == offs_of(v@.subrange(0, i as int)),
        decreases v.len() - i,
    {
        proof { assert(v@.subrange(0, i + 1) =~= v@.subrange(0, i as int).push(v@[i as int])); }
        r.push(v[i].offset as u64); i += 1;
        proof { assert(r@ =~= offs_of(v@.subrange(0, i as int))); }
    }
    proof { assert(v@.subrange(0, i as int) =~= v@); }
    r
}
/// PartialEq and Clone of the items of an answer
pub trait Same: Sized {
    fn same(&self, o: &Self) -> (r: bool) ensures r == (*self == *o);
    fn dup(&self) -> (r: Self) ensures r == *self;
}
impl Same for u64 { fn same(&self, o: &u64) -> (r: bool) { *self == *o } fn dup(&self) -> (r: u64) { *self } }
pub fn member<X: Same>(v: &Vec<X>, x: &X) -> (r: bool)
    ensures r == v@.contains(*x),
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v.len(), forall|k: int| 0 <= k < i ==> v@[k] != *x,
        decreases v.len() - i,
    { if v[i].same(x) { return true; } i += 1; }
    false
}
/// keep the items of v that are (not) in w, in order
pub open spec fn kept<X>(v: Seq<X>, w: Seq<X>, inside: bool) -> Seq<X>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else {
        let h = kept(v.drop_last(), w, inside);
        if w.contains(v.last()) == inside { h.push(v.last()) } else { h }
    }
}
pub proof fn lemma_kept<X>(v: Seq<X>, w: Seq<X>, inside: bool)
    ensures forall|o: X| #[trigger] kept(v, w, inside).contains(o) <==> v.contains(o) && (w.contains(o) == inside),
        v.no_duplicates() ==> kept(v, w, inside).no_duplicates(),
    decreases v.len(),
{
    if v.len() > 0 {
        let d = v.drop_last(); let h = kept(d, w, inside); let k = kept(v, w, inside); let x = v.last();
        lemma_kept(d, w, inside);
        assert(v == d.push(x));
        assert forall|o: X| v.contains(o) <==> d.contains(o) || o == x by {
            if v.contains(o) { let i = choose|i: int| 0 <= i < v.len() && v[i] == o; if i < d.len() { assert(d[i] == o); } }
            if d.contains(o) { let i = choose|i: int| 0 <= i < d.len() && d[i] == o; assert(v[i] == o); }
            if o == x { assert(v[v.len() - 1] == o); }
        }
        if w.contains(x) == inside {
            assert forall|o: X| k.contains(o) <==> h.contains(o) || o == x by {
                if k.contains(o) { let i = choose|i: int| 0 <= i < k.len() && k[i] == o; if i < h.len() { assert(h[i] == o); } }
                if h.contains(o) { let i = choose|i: int| 0 <= i < h.len() && h[i] == o; assert(k[i] == o); }
                if o == x { assert(k[k.len() - 1] == o); }
            }
        }
        if v.no_duplicates() {
            assert(d.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by { assert(v[i] != v[j]); } }
            assert(!d.contains(x)) by { if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(v[i] == v[v.len() - 1]); } }
            assert(!h.contains(x));
        }
    } else { assert(kept(v, w, inside) =~= Seq::<X>::empty()); }
}
pub fn keep_if<X: Same>(v: &Vec<X>, w: &Vec<X>, inside: bool) -> (r: Vec<X>)
    ensures r@ == kept(v@, w@, inside), forall|o: X| #[trigger] r@.contains(o) <==> v@.contains(o) && (w@.contains(o) == inside),
        v@.no_duplicates() ==> r@.no_duplicates(),
{
    let mut r: Vec<X> = Vec::new(); let mut i: usize = 0;
    while i < v.len()
        invariant i <= v.len(), r@ == kept(v@.subrange(0, i as int), w@, inside),
        decreases v.len() - i,
    {
        proof { let s = v@.subrange(0, i + 1); assert(s.drop_last() =~= v@.subrange(0, i as int)); assert(s.last() == v@[i as int]); }
        if member(w, &v[i]) == inside { r.push(v[i].dup()); }
        i += 1;
    }
    proof { assert(v@.subrange(0, i as int) =~= v@); lemma_kept(v@, w@, inside); }
    r
}
/// Iterator::filter(|x| !w.contains(x))
pub fn filter_not_in<X: Same>(v: Vec<X>, w: &Vec<X>) -> (r: Vec<X>)
    ensures r@ == kept(v@, w@, false), forall|o: X| #[trigger] r@.contains(o) <==> v@.contains(o) && !w@.contains(o), v@.no_duplicates() ==> r@.no_duplicates(),
{ keep_if(&v, w, false) }
/// Vec::retain(|x| !w.contains(x))
pub fn retain_not_in<X: Same>(v: &mut Vec<X>, w: &Vec<X>)
    ensures final(v)@ == kept(old(v)@, w@, false), forall|o: X| #[trigger] final(v)@.contains(o) <==> old(v)@.contains(o) && !w@.contains(o), old(v)@.no_duplicates() ==> final(v)@.no_duplicates(),
{ let r = keep_if(v, w, false); *v = r; }
/// Vec::retain(|x| w.contains(x))
pub fn retain_in<X: Same>(v: &mut Vec<X>, w: &Vec<X>)
    ensures final(v)@ == kept(old(v)@, w@, true), forall|o: X| #[trigger] final(v)@.contains(o) <==> old(v)@.contains(o) && w@.contains(o), old(v)@.no_duplicates() ==> final(v)@.no_duplicates(),
{ let r = keep_if(v, w, true); *v = r; }

%%fn static_btree/query/types.rs "-" include_bound
%%loops 1
%%sig `<T: PartialEq>` => `<T: Same>`
%%sub `for item in bound {` => `let mut _i: usize = 0; while _i < bound.len() { let item = bound[_i].dup();`
%%sub `items.contains(&item)` => `member(items, &item)`
%%spec
    ensures forall|o: T| #[trigger] final(items)@.contains(o) <==> old(items)@.contains(o) || bound@.contains(o),
        old(items)@.no_duplicates() ==> final(items)@.no_duplicates(),
%%start
    let ghost was = items@;
%%loop 0
    invariant
        0 <= _i <= bound.len(), was == old(items)@,
        forall|o: T| #[trigger] items@.contains(o) <==> was.contains(o) || bound@.subrange(0, _i as int).contains(o),
        was.no_duplicates() ==> items@.no_duplicates(),
    decreases bound.len() - _i
%%loopstart 0
    let ghost pre = items@;
%%loopend 0
    proof {
        let a = bound@.subrange(0, _i as int); let b = bound@.subrange(0, _i + 1);
        assert(b =~= a.push(item));
        lemma_push(a, item);
        if !pre.contains(item) { assert(items@ == pre.push(item)); lemma_push(pre, item); } else { assert(items@ == pre); }
    }
    _i += 1;
%%post 0
    proof { assert(bound@.subrange(0, _i as int) =~= bound@); }
%%done
pub proof fn lemma_push<T>(s: Seq<T>, x: T)
    ensures forall|o: T| #[trigger] s.push(x).contains(o) <==> s.contains(o) || o == x, s.no_duplicates() && !s.contains(x) ==> s.push(x).no_duplicates(),
{
    let t = s.push(x);
    assert forall|o: T| #[trigger] t.contains(o) <==> s.contains(o) || o == x by {
        if t.contains(o) { let i = choose|i: int| 0 <= i < t.len() && t[i] == o; if i < s.len() { assert(s[i] == o); } }
        if s.contains(o) { let i = choose|i: int| 0 <= i < s.len() && s[i] == o; assert(t[i] == o); }
        if o == x { assert(t[t.len() - 1] == o); }
    }
}

// ---- one condition on one index
%%item static_btree/query/types.rs pub enum Operator
/// the value compares with the key as the operator says
pub open spec fn compares(op: Operator, a: int, v: int) -> bool {
    match op { Operator::Eq => a == v, Operator::Ne => a != v, Operator::Gt => a > v, Operator::Lt => a < v, Operator::Ge => a >= v, Operator::Le => a <= v }
}
pub open spec fn satisfies(e: Seq<(int, u64)>, op: Operator, v: int, o: u64) -> bool {
    exists|k: int| 0 <= k < e.len() && (#[trigger] e[k]).1 == o && compares(op, e[k].0, v)
}
/// the answer the code gives: with several values per offset, the operators !=, >, < leave out the offsets that also have the
/// key itself (known finding multi-value-complement)
pub open spec fn answer(e: Seq<(int, u64)>, op: Operator, v: int, o: u64) -> bool {
    satisfies(e, op, v, o) && (op is Ne || op is Gt || op is Lt ==> !hit(e, v, v, o))
}
/// with one value per offset the answer is exactly the condition
pub proof fn p06_condition(e: Seq<(int, u64)>, op: Operator, v: int, o: u64)
    requires distinct(e),
    ensures answer(e, op, v, o) <==> satisfies(e, op, v, o),
{
    if satisfies(e, op, v, o) && hit(e, v, v, o) {
        let i = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).1 == o && compares(op, e[k].0, v);
        let j = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).1 == o && v <= e[k].0 <= v;
        assert(i == j);
    }
}
/// all ranks lie between bottom and top
pub open spec fn ranked<K: Key>(e: Seq<(int, u64)>) -> bool { forall|k: int| 0 <= k < e.len() ==> K::bottom() <= (#[trigger] e[k]).0 <= K::top() }
/// [lo, top]: a range lookup up to the greatest key and an exact lookup of it
pub open spec fn from_set(e: Seq<(int, u64)>, lo: int, top: int, r: Seq<u64>) -> bool {
    &&& forall|o: u64| #[trigger] r.contains(o) <==> hit(e, lo, top, o)
    &&& distinct(e) ==> r.no_duplicates()
}
pub proof fn lemma_from(e: Seq<(int, u64)>, lo: int, top: int, a: Seq<u64>, b: Seq<u64>, r: Seq<u64>)
    requires range_set(e, lo, top, a), exact_set(e, top, b), lo <= top, forall|o: u64| #[trigger] r.contains(o) <==> a.contains(o) || b.contains(o),
        a.no_duplicates() ==> r.no_duplicates(),
    ensures from_set(e, lo, top, r),
{
    assert forall|o: u64| #[trigger] r.contains(o) <==> hit(e, lo, top, o) by {
        if hit(e, lo, top, o) {
            let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).1 == o && lo <= e[k].0 <= top;
            if e[k].0 <= top - 1 { assert(hit(e, lo, top - 1, o)); assert(a.contains(o)); } else { assert(hit(e, top, top, o)); assert(b.contains(o)); }
        }
        if b.contains(o) {
            assert(hit(e, top, top, o));
            let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).1 == o && top <= e[k].0 <= top;
            assert(hit(e, lo, top, o));
        }
        if a.contains(o) { assert(hit(e, lo, top, o)); }
    }
}

%%pubitem static_btree/query/memory.rs pub struct MemoryIndex
impl<K: Key> MemoryIndex<K> {
    pub open spec fn ents(&self) -> Seq<(int, u64)> { self.stree.entries() }
    pub open spec fn ok(&self) -> bool { self.stree.ok() && ranked::<K>(self.stree.entries()) }
}
%%fn static_btree/query/memory.rs "impl<K: Key> SearchIndex<K> for MemoryIndex<K>" find_exact
%%impl impl<K: Key> MemoryIndex<K>
%%ret r
%%sub `results.into_iter().map(|item| item.offset as u64).collect()` => `offsets_of(results)`
%%spec
    requires self.ok(),
    ensures r is Ok, exact_set(self.ents(), key.rk(), r->Ok_0@),
%%done
%%fn static_btree/query/memory.rs "impl<K: Key> SearchIndex<K> for MemoryIndex<K>" find_range
%%impl impl<K: Key> MemoryIndex<K>
%%ret r
%%sub `results.into_iter().map(|item| item.offset as u64).collect()` => `offsets_of(results)`
%%sub `Error::QueryError( "find_range requires at least one bound".to_string(), )` => `Error::Other`
%%spec
    requires self.ok(),
    ensures
        start is Some && end is Some ==> r is Ok && range_set(self.ents(), start->0.rk(), end->0.rk(), r->Ok_0@),
        start is Some && end is None ==> r is Ok && from_set(self.ents(), start->0.rk(), K::top(), r->Ok_0@),
        start is None && end is Some ==> r is Ok && range_set(self.ents(), K::bottom(), end->0.rk(), r->Ok_0@),
        start is None && end is None ==> r is Err,
%%sub `include_bound(&mut results, self.find_exact(K::max_value())?);` => `let ghost part = results@; let bound_ = self.find_exact(K::max_value())?; let ghost exact = bound_@; proof { K::bounds(&start->0); } include_bound(&mut results, bound_); proof { lemma_from(self.ents(), start->0.rk(), K::top(), part, exact, results@); }`
%%done

/// keys of a condition: which key type it is of is decided by its enum variant, one variant per key type (rustc checks that each
/// use of the macro pairs a type with its variant)
#[verifier::external_body]
pub struct KeyType { k: u8 }
pub uninterp spec fn key_of<K>(k: KeyType) -> Option<K>;
#[verifier::external_body]
pub fn as_key<K>(k: &KeyType) -> (r: Option<&K>)
    ensures r is Some <==> key_of::<K>(*k) is Some, r is Some ==> *r->0 == key_of::<K>(*k)->0,
{ unimplemented!() }
%%pubitem static_btree/query/types.rs pub struct QueryCondition
/// least key of the type; the trait has it as Min::min_value
%%fn static_btree/query/memory.rs "impl TypedSearchIndex for MemoryIndex<$key_type>" execute_query_condition
%%impl impl<K: Key> MemoryIndex<K>
%%ret r
%%sub `&condition.key {` => `as_key::<K>(&condition.key) {`
%%sub `$enum_variant(val)` => `Some(val)`
%%sub `Error::QueryError(format!( "key type mismatch: expected {}, got {:?}", stringify!($key_type), condition.key ))` => `Error::Other`
%%sub `<$key_type>` => `<K>`
%%sub `Ok(all_items .into_iter() .filter(|item| !matching_items.contains(item)) .collect())` => `Ok(filter_not_in(all_items, &matching_items))`
%%sub `results.retain(|item| !exact_matches.contains(item))` => `retain_not_in(&mut results, &exact_matches)`
%%sub `include_bound(&mut results, self.find_exact(key)?);` => `let bound_ = self.find_exact(key)?; include_bound(&mut results, bound_);`
%%spec
    requires self.ok(),
    ensures
        r is Ok <==> key_of::<K>(condition.key) is Some,
        r is Ok ==> (forall|o: u64| #[trigger] r->Ok_0@.contains(o) <==> answer(self.ents(), condition.operator, key_of::<K>(condition.key)->0.rk(), o)),
        r is Ok && distinct(self.ents()) ==> r->Ok_0@.no_duplicates(),
%%after `return Err(Error::Other) } };`
    proof {
        let v = key.rk(); let e = self.ents(); let (lo, hi) = (K::bottom(), K::top());
        K::bounds(&key);
        assert forall|o: u64| #![trigger answer(e, condition.operator, v, o)] true implies ({
            &&& satisfies(e, Operator::Eq, v, o) <==> hit(e, v, v, o)
            &&& satisfies(e, Operator::Ge, v, o) <==> hit(e, v, hi, o)
            &&& satisfies(e, Operator::Le, v, o) <==> hit(e, lo, v - 1, o) || hit(e, v, v, o)
            &&& answer(e, Operator::Ne, v, o) <==> hit(e, lo, hi, o) && !hit(e, v, v, o)
            &&& answer(e, Operator::Gt, v, o) <==> hit(e, v, hi, o) && !hit(e, v, v, o)
            &&& answer(e, Operator::Lt, v, o) <==> hit(e, lo, v - 1, o) && !hit(e, v, v, o)
            &&& hit(e, lo, v, o) <==> hit(e, lo, v - 1, o) || hit(e, v, v, o)
        }) by { lemma_ops(e, v, lo, hi, o); }
    }
%%done
pub proof fn lemma_ops(e: Seq<(int, u64)>, v: int, lo: int, hi: int, o: u64)
    requires forall|k: int| 0 <= k < e.len() ==> lo <= (#[trigger] e[k]).0 <= hi, lo <= v <= hi,
    ensures
        satisfies(e, Operator::Eq, v, o) <==> hit(e, v, v, o),
        satisfies(e, Operator::Ge, v, o) <==> hit(e, v, hi, o),
        satisfies(e, Operator::Le, v, o) <==> hit(e, lo, v - 1, o) || hit(e, v, v, o),
        answer(e, Operator::Ne, v, o) <==> hit(e, lo, hi, o) && !hit(e, v, v, o),
        answer(e, Operator::Gt, v, o) <==> hit(e, v, hi, o) && !hit(e, v, v, o),
        answer(e, Operator::Lt, v, o) <==> hit(e, lo, v - 1, o) && !hit(e, v, v, o),
        hit(e, lo, v, o) <==> hit(e, lo, v - 1, o) || hit(e, v, v, o),
{
    assert forall|a: int, b: int| hit(e, a, b, o) implies exists|k: int| 0 <= k < e.len() && (#[trigger] e[k]).1 == o && a <= e[k].0 <= b by {}
    assert forall|k: int| 0 <= k < e.len() && (#[trigger] e[k]).1 == o implies lo <= e[k].0 <= hi by {}
}

// ---- conjunction of conditions
/// what the multi-index needs to know of the index of a field (dyn TypedSearchIndex)
pub trait TypedSearchIndex {
    spec fn ready(&self) -> bool;
    spec fn takes(&self, c: &QueryCondition) -> bool;
    spec fn answers(&self, c: &QueryCondition, o: u64) -> bool;
    spec fn single(&self) -> bool;
    fn execute_query_condition(&self, condition: &QueryCondition) -> (r: Result<Vec<u64>>)
        requires self.ready(),
        ensures r is Ok <==> self.takes(condition),
            r is Ok ==> forall|o: u64| #[trigger] r->Ok_0@.contains(o) <==> self.answers(condition, o),
            r is Ok && self.single() ==> r->Ok_0@.no_duplicates();
}
impl<K: Key> TypedSearchIndex for MemoryIndex<K> {
    open spec fn ready(&self) -> bool { self.ok() }
    open spec fn takes(&self, c: &QueryCondition) -> bool { key_of::<K>(c.key) is Some }
    open spec fn answers(&self, c: &QueryCondition, o: u64) -> bool { answer(self.ents(), c.operator, key_of::<K>(c.key)->0.rk(), o) }
    open spec fn single(&self) -> bool { distinct(self.ents()) }
    fn execute_query_condition(&self, condition: &QueryCondition) -> (r: Result<Vec<u64>>) { MemoryIndex::<K>::execute_query_condition(self, condition) }
}
/// HashMap::get
#[verifier::external_body]
pub fn lookup<'a, V>(m: &'a HashMap<String, V>, k: &String) -> (r: Option<&'a V>)
    ensures r is Some <==> m@.contains_key(*k), r is Some ==> *r->0 == m@[*k],
{ unimplemented!() }
#[verifier::external_body]
pub fn or_err<T>(x: Option<T>) -> (r: Result<T>)
    ensures x is Some ==> r is Ok && r->Ok_0 == x->0, x is None ==> r is Err,
{ unimplemented!() }
%%pubitem static_btree/query/memory.rs pub struct MemoryMultiIndex
%%isub `pub struct MemoryMultiIndex` => `pub struct MemoryMultiIndex<T: TypedSearchIndex>`
%%isub `dyn TypedSearchIndex` => `T`
impl<T: TypedSearchIndex> MemoryMultiIndex<T> {
    pub open spec fn idx(&self, c: QueryCondition) -> T { *self.indices@[c.field] }
    pub open spec fn known(&self, c: QueryCondition) -> bool { self.indices@.contains_key(c.field) && self.idx(c).takes(&c) }
    pub open spec fn holds(&self, c: QueryCondition, o: u64) -> bool { self.known(c) && self.idx(c).answers(&c, o) }
    pub open spec fn all_hold(&self, cs: Seq<QueryCondition>, n: int, o: u64) -> bool { forall|i: int| 0 <= i < n ==> self.holds(#[trigger] cs[i], o) }
    /// nothing satisfies the first n conditions, so nothing satisfies more of them
    pub proof fn lemma_none(&self, cs: Seq<QueryCondition>, n: int, r: Seq<u64>)
        requires r.len() == 0, forall|o: u64| #[trigger] r.contains(o) <==> self.all_hold(cs, n, o),
        ensures forall|o: u64, m: int| m >= n ==> !#[trigger] self.all_hold(cs, m, o),
    {
        assert forall|o: u64, m: int| m >= n implies !#[trigger] self.all_hold(cs, m, o) by {
            assert(!r.contains(o));
            assert(!self.all_hold(cs, n, o));
            let i = choose|i: int| 0 <= i < n && !self.holds(#[trigger] cs[i], o);
            assert(!self.holds(cs[i], o));
        }
    }
    pub open spec fn ready(&self) -> bool { forall|f: String| self.indices@.contains_key(f) ==> (#[trigger] self.indices@[f]).ready() }
}
%%fn static_btree/query/memory.rs "impl MultiIndex for MemoryMultiIndex" query
%%impl impl<T: TypedSearchIndex> MemoryMultiIndex<T>
%%ret r
%%loops 1
%%sub `Error::QueryError("query cannot be empty".to_string())` => `Error::Other`
%%sub `self.indices.get(&first_condition.field).ok_or_else(|| { Error::QueryError(format!( "no index found for field '{}'", first_condition.field )) })?` => `or_err(lookup(&self.indices, &first_condition.field))?`
%%sub `self.indices.get(&condition.field).ok_or_else(|| { Error::QueryError(format!("no index found for field '{}'", condition.field)) })?` => `or_err(lookup(&self.indices, &condition.field))?`
%%sub `conditions.is_empty()` => `conditions.len() == 0`
%%sub `for condition in &conditions[1..] {` => `let mut _i: usize = 1; while _i < conditions.len() { let condition = &conditions[_i];`
%%sub `result_set.retain(|offset| condition_results.contains(offset))` => `retain_in(&mut result_set, &condition_results)`
%%spec
    requires self.ready(),
    ensures
        // no condition is no answer, and a condition without an index of its key type is an error unless the conditions before it leave nothing
        conditions@.len() == 0 ==> r is Err,
        r is Err ==> conditions@.len() == 0 || exists|i: int| 0 <= i < conditions@.len() && !self.known(#[trigger] conditions@[i]),
        r is Ok ==> forall|i: int| 0 <= i < conditions@.len() && !self.known(#[trigger] conditions@[i]) ==> i > 0 && forall|o: u64| !self.all_hold(conditions@, i, o),
        // an answer is exactly the offsets for which every condition holds
        r is Ok ==> forall|o: u64| #[trigger] r->Ok_0@.contains(o) <==> self.all_hold(conditions@, conditions@.len() as int, o),
        r is Ok && self.idx(conditions@[0]).single() ==> r->Ok_0@.no_duplicates(),
%%loop 0
    invariant
        1 <= _i <= conditions@.len(), self.ready(),
        forall|i: int| 0 <= i < _i ==> self.known(#[trigger] conditions@[i]),
        forall|o: u64| #[trigger] result_set@.contains(o) <==> self.all_hold(conditions@, _i as int, o),
        self.idx(conditions@[0]).single() ==> result_set@.no_duplicates(),
    decreases conditions.len() - _i
%%pre `return Ok(vec![])` 0
    proof { self.lemma_none(conditions@, 1, result_set@); }
%%pre `return Ok(vec![])` 1
    proof { self.lemma_none(conditions@, _i + 1, result_set@); }
%%loopend 0
    _i += 1;
%%done

// ---- streamed: the indexes lie one behind the other from the reader's position on
%%pubitem static_btree/query/stream.rs pub struct StreamIndex
impl<K: Key> StreamIndex<K> {
    pub open spec fn ents(&self, d: Seq<u8>, p: int) -> Seq<(int, u64)> { Stree::<K>::stored_entries(d, p, self.num_items as int, self.branching_factor as int) }
    pub open spec fn ok(&self, d: Seq<u8>, p: int) -> bool {
        Stree::<K>::stored_ok(d, p, self.num_items as int, self.branching_factor as int) && ranked::<K>(self.ents(d, p)) && p >= 0
    }
}
%%fn static_btree/query/stream.rs "impl<K: Key> StreamIndex<K>" find_exact_with_reader
%%ret r
%%sig `R: Read + Seek + ?Sized` => `R: Read + Seek`
%%sub `Stree::stream_find_exact(` => `Stree::<K>::stream_find_exact(`
%%sub `results.into_iter().map(|item| item.offset as u64).collect()` => `offsets_of(results)`
%%spec
    requires self.ok(old(reader).data(), old(reader).pos()),
    ensures r is Ok, final(reader).data() == old(reader).data(),
        exact_set(self.ents(old(reader).data(), old(reader).pos()), key.rk(), r->Ok_0@),
%%done
%%fn static_btree/query/stream.rs "impl<K: Key> StreamIndex<K>" find_range_with_reader
%%ret r
%%sig `R: Read + Seek + ?Sized` => `R: Read + Seek`
%%sub `Stree::stream_find_range(` => `Stree::<K>::stream_find_range(`
%%sub `results.into_iter().map(|item| item.offset as u64).collect()` => `offsets_of(results)`
%%sub `Error::QueryError( "find_range requires at least one bound".to_string(), )` => `Error::Other`
%%sub `let results = match (start, end)` => `let results: Result<Vec<u64>> = match (start, end)`
%%sub `include_bound( &mut results, self.find_exact_with_reader(reader, K::max_value())?, );` => `let ghost part = results@; let bound_ = self.find_exact_with_reader(reader, K::max_value())?; let ghost exact = bound_@; proof { K::bounds(&start->0); } include_bound(&mut results, bound_); proof { lemma_from(self.ents(old(reader).data(), old(reader).pos()), start->0.rk(), K::top(), part, exact, results@); }`
%%spec
    requires self.ok(old(reader).data(), old(reader).pos()),
    ensures final(reader).data() == old(reader).data(),
        r is Ok ==> final(reader).pos() == old(reader).pos(),
        ({
            let e = self.ents(old(reader).data(), old(reader).pos());
            &&& start is Some && end is Some ==> r is Ok && range_set(e, start->0.rk(), end->0.rk(), r->Ok_0@)
            &&& start is Some && end is None ==> r is Ok && from_set(e, start->0.rk(), K::top(), r->Ok_0@)
            &&& start is None && end is Some ==> r is Ok && range_set(e, K::bottom(), end->0.rk(), r->Ok_0@)
            &&& start is None && end is None ==> r is Err
        }),
%%done
%%fn static_btree/query/stream.rs "impl TypedStreamSearchIndex for StreamIndex<$key_type>" execute_query_condition
%%impl impl<K: Key> StreamIndex<K>
%%ret r
%%sig `execute_query_condition(` => `execute_query_condition<R: Read + Seek>(`
%%sig `dyn ReadSeek` => `R`
%%sub `&condition.key {` => `as_key::<K>(&condition.key) {`
%%sub `$enum_variant(val)` => `Some(val)`
%%sub `Error::QueryError(format!( "key type mismatch: expected {}, got {:?}", stringify!($key_type), condition.key ))` => `Error::Other`
%%sub `<$key_type>` => `<K>`
%%sub `all_items .into_iter() .filter(|item| !matching_items.contains(item)) .collect()` => `filter_not_in(all_items, &matching_items)`
%%sub `results.retain(|item| !exact_matches.contains(item))` => `retain_not_in(&mut results, &exact_matches)`
%%sub `include_bound(&mut results, self.find_exact_with_reader(reader, key)?);` => `let bound_ = self.find_exact_with_reader(reader, key)?; include_bound(&mut results, bound_);`
%%spec
    requires self.ok(old(reader).data(), old(reader).pos()),
    ensures final(reader).data() == old(reader).data(),
        r is Ok <==> key_of::<K>(condition.key) is Some,
        ({
            let e = self.ents(old(reader).data(), old(reader).pos());
            &&& r is Ok ==> (forall|o: u64| #[trigger] r->Ok_0@.contains(o) <==> answer(e, condition.operator, key_of::<K>(condition.key)->0.rk(), o))
            &&& r is Ok && distinct(e) ==> r->Ok_0@.no_duplicates()
        }),
%%after `return Err(Error::Other) } };`
    proof {
        let v = key.rk(); let e = self.ents(old(reader).data(), old(reader).pos()); let (lo, hi) = (K::bottom(), K::top());
        K::bounds(&key);
        assert forall|o: u64| #![trigger answer(e, condition.operator, v, o)] true implies ({
            &&& satisfies(e, Operator::Eq, v, o) <==> hit(e, v, v, o)
            &&& satisfies(e, Operator::Ge, v, o) <==> hit(e, v, hi, o)
            &&& satisfies(e, Operator::Le, v, o) <==> hit(e, lo, v - 1, o) || hit(e, v, v, o)
            &&& answer(e, Operator::Ne, v, o) <==> hit(e, lo, hi, o) && !hit(e, v, v, o)
            &&& answer(e, Operator::Gt, v, o) <==> hit(e, v, hi, o) && !hit(e, v, v, o)
            &&& answer(e, Operator::Lt, v, o) <==> hit(e, lo, v - 1, o) && !hit(e, v, v, o)
            &&& hit(e, lo, v, o) <==> hit(e, lo, v - 1, o) || hit(e, v, v, o)
        }) by { lemma_ops(e, v, lo, hi, o); }
    }
%%done

pub trait TypedStreamSearchIndex {
    spec fn ready(&self, d: Seq<u8>, p: int) -> bool;
    spec fn takes(&self, c: &QueryCondition) -> bool;
    spec fn answers(&self, d: Seq<u8>, p: int, c: &QueryCondition, o: u64) -> bool;
    spec fn single(&self, d: Seq<u8>, p: int) -> bool;
    fn execute_query_condition<R: Read + Seek>(&self, reader: &mut R, condition: &QueryCondition) -> (r: Result<Vec<u64>>)
        requires self.ready(old(reader).data(), old(reader).pos()),
        ensures final(reader).data() == old(reader).data(), r is Ok <==> self.takes(condition),
            r is Ok ==> forall|o: u64| #[trigger] r->Ok_0@.contains(o) <==> self.answers(old(reader).data(), old(reader).pos(), condition, o),
            r is Ok && self.single(old(reader).data(), old(reader).pos()) ==> r->Ok_0@.no_duplicates();
}
impl<K: Key> TypedStreamSearchIndex for StreamIndex<K> {
    open spec fn ready(&self, d: Seq<u8>, p: int) -> bool { self.ok(d, p) }
    open spec fn takes(&self, c: &QueryCondition) -> bool { key_of::<K>(c.key) is Some }
    open spec fn answers(&self, d: Seq<u8>, p: int, c: &QueryCondition, o: u64) -> bool { answer(self.ents(d, p), c.operator, key_of::<K>(c.key)->0.rk(), o) }
    open spec fn single(&self, d: Seq<u8>, p: int) -> bool { distinct(self.ents(d, p)) }
    fn execute_query_condition<R: Read + Seek>(&self, reader: &mut R, condition: &QueryCondition) -> (r: Result<Vec<u64>>) { StreamIndex::<K>::execute_query_condition(self, reader, condition) }
}
%%pubitem static_btree/query/stream.rs pub struct StreamMultiIndex
%%isub `pub struct StreamMultiIndex` => `pub struct StreamMultiIndex<T: TypedStreamSearchIndex>`
%%isub `dyn TypedStreamSearchIndex` => `T`
impl<T: TypedStreamSearchIndex> StreamMultiIndex<T> {
    pub open spec fn idx(&self, c: QueryCondition) -> T { *self.indices@[c.field] }
    pub open spec fn at(&self, p: int, c: QueryCondition) -> int { p + self.index_offsets@[c.field].start }
    pub open spec fn known(&self, c: QueryCondition) -> bool { self.indices@.contains_key(c.field) && self.index_offsets@.contains_key(c.field) && self.idx(c).takes(&c) }
    pub open spec fn holds(&self, d: Seq<u8>, p: int, c: QueryCondition, o: u64) -> bool { self.known(c) && self.idx(c).answers(d, self.at(p, c), &c, o) }
    pub open spec fn all_hold(&self, d: Seq<u8>, p: int, cs: Seq<QueryCondition>, n: int, o: u64) -> bool { forall|i: int| 0 <= i < n ==> self.holds(d, p, #[trigger] cs[i], o) }
    pub proof fn lemma_none(&self, d: Seq<u8>, p: int, cs: Seq<QueryCondition>, n: int, r: Seq<u64>)
        requires r.len() == 0, forall|o: u64| #[trigger] r.contains(o) <==> self.all_hold(d, p, cs, n, o),
        ensures forall|o: u64, m: int| m >= n ==> !#[trigger] self.all_hold(d, p, cs, m, o),
    {
        assert forall|o: u64, m: int| m >= n implies !#[trigger] self.all_hold(d, p, cs, m, o) by {
            assert(!r.contains(o));
            assert(!self.all_hold(d, p, cs, n, o));
            let i = choose|i: int| 0 <= i < n && !self.holds(d, p, #[trigger] cs[i], o);
            assert(!self.holds(d, p, cs[i], o));
        }
    }
    pub open spec fn ready(&self, d: Seq<u8>, p: int) -> bool {
        &&& 0 <= p <= 0x4000_0000_0000_0000
        &&& forall|f: String| self.indices@.contains_key(f) && self.index_offsets@.contains_key(f) ==>
            (#[trigger] self.indices@[f]).ready(d, p + self.index_offsets@[f].start) && self.index_offsets@[f].start <= 0x3FFF_FFFF_FFFF_FFFF
    }
}
%%fn static_btree/query/stream.rs "impl StreamMultiIndex" query
%%impl impl<T: TypedStreamSearchIndex> StreamMultiIndex<T>
%%ret r
%%loops 1
%%sig `query(` => `query<R: Read + Seek>(`
%%sig `dyn ReadSeek` => `R`
%%sub `Error::QueryError("query cannot be empty".to_string())` => `Error::Other`
%%sub `self.indices.get(&first.field).ok_or_else(|| { Error::QueryError(format!("no index found for field '{}'", first.field)) })?` => `or_err(lookup(&self.indices, &first.field))?`
%%sub `self.index_offsets.get(&first.field).ok_or_else(|| { Error::QueryError(format!("no index range found for field '{}'", first.field)) })?` => `or_err(lookup(&self.index_offsets, &first.field))?`
%%sub `self.indices.get(&cond.field).ok_or_else(|| { Error::QueryError(format!("no index found for field '{}'", cond.field)) })?` => `or_err(lookup(&self.indices, &cond.field))?`
%%sub `self.index_offsets.get(&cond.field).ok_or_else(|| { Error::QueryError(format!("no index range found for field '{}'", cond.field)) })?` => `or_err(lookup(&self.index_offsets, &cond.field))?`
%%sub `conditions.is_empty()` => `conditions.len() == 0`
%%sub `for cond in &conditions[1..] {` => `let mut _i: usize = 1; while _i < conditions.len() { let cond = &conditions[_i];`
%%sub `result_set.retain(|offset| condition_results.contains(offset))` => `retain_in(&mut result_set, &condition_results)`
%%spec
    requires self.ready(old(reader).data(), old(reader).pos()),
    ensures
        final(reader).data() == old(reader).data(),
        // the next query may start where this one started
        r is Ok ==> final(reader).pos() == old(reader).pos(),
        conditions@.len() == 0 ==> r is Err,
        r is Err ==> conditions@.len() == 0 || exists|i: int| 0 <= i < conditions@.len() && !self.known(#[trigger] conditions@[i]),
        r is Ok ==> forall|i: int| 0 <= i < conditions@.len() && !self.known(#[trigger] conditions@[i]) ==> i > 0 && forall|o: u64| !self.all_hold(old(reader).data(), old(reader).pos(), conditions@, i, o),
        r is Ok ==> forall|o: u64| #[trigger] r->Ok_0@.contains(o) <==> self.all_hold(old(reader).data(), old(reader).pos(), conditions@, conditions@.len() as int, o),
        r is Ok && self.idx(conditions@[0]).single(old(reader).data(), self.at(old(reader).pos(), conditions@[0])) ==> r->Ok_0@.no_duplicates(),
%%start
    let ghost d = reader.data(); let ghost p = reader.pos();
%%loop 0
    invariant
        1 <= _i <= conditions@.len(), self.ready(d, p), reader.data() == d, reader.pos() == p, d == old(reader).data(), p == old(reader).pos(),
        forall|i: int| 0 <= i < _i ==> self.known(#[trigger] conditions@[i]),
        forall|o: u64| #[trigger] result_set@.contains(o) <==> self.all_hold(d, p, conditions@, _i as int, o),
        self.idx(conditions@[0]).single(d, self.at(p, conditions@[0])) ==> result_set@.no_duplicates(),
    decreases conditions.len() - _i
%%pre `return Ok(vec![])` 0
    proof { self.lemma_none(d, p, conditions@, 1, result_set@); }
%%pre `return Ok(vec![])` 1
    proof { self.lemma_none(d, p, conditions@, _i + 1, result_set@); }
%%loopend 0
    _i += 1;
%%done

// ---- over range requests
pub use std::ops::RangeFrom;
%%item static_btree/stree.rs pub enum HttpRange
%%item static_btree/stree.rs pub struct HttpSearchResultItem
%%include hoffs.vx
// assumed: crate http_range_client; the derived PartialEq and Clone of the items
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct AsyncBufferedHttpRangeClient<T> { x: core::marker::PhantomData<T> }
pub trait AsyncHttpRangeClient {}
impl<T> AsyncBufferedHttpRangeClient<T> { pub uninterp spec fn file(&self) -> Seq<u8>; }
impl Same for HttpSearchResultItem {
    #[verifier::external_body] fn same(&self, o: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() }
}
// assumed here, proved in unit shttp (lemmas p06_http, p06_http_ready)
impl<K: Key> Stree<K> {
    pub uninterp spec fn http_ok(d: Seq<u8>, p: int, fb: int, n: int, b: int) -> bool;
    #[verifier::external_body]
    pub fn http_stream_find_exact<T: AsyncHttpRangeClient>(client: &mut AsyncBufferedHttpRangeClient<T>, index_begin: usize, feature_begin: usize, num_items: usize, branching_factor: u16, key: K, combine_request_threshold: usize) -> (r: Result<Vec<HttpSearchResultItem>>)
        requires Self::http_ok(old(client).file(), index_begin as int, feature_begin as int, num_items as int, branching_factor as int),
        ensures final(client).file() == old(client).file(),
            r is Ok ==> all_from(feature_begin as int, r->Ok_0@) && exact_set(Self::stored_entries(old(client).file(), index_begin as int, num_items as int, branching_factor as int), key.rk(), hoffs(feature_begin as int, r->Ok_0@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn http_stream_find_range<T: AsyncHttpRangeClient>(client: &mut AsyncBufferedHttpRangeClient<T>, index_begin: usize, feature_begin: usize, num_items: usize, branching_factor: u16, lower: K, upper: K, combine_request_threshold: usize) -> (r: Result<Vec<HttpSearchResultItem>>)
        requires Self::http_ok(old(client).file(), index_begin as int, feature_begin as int, num_items as int, branching_factor as int),
        ensures final(client).file() == old(client).file(),
            r is Ok ==> all_from(feature_begin as int, r->Ok_0@) && range_set(Self::stored_entries(old(client).file(), index_begin as int, num_items as int, branching_factor as int), lower.rk(), upper.rk(), hoffs(feature_begin as int, r->Ok_0@)),
    { unimplemented!() }
}
/// an item is answered iff its offset is
pub proof fn lemma_mem(fb: int, r: Seq<HttpSearchResultItem>, x: HttpSearchResultItem)
    requires all_from(fb, r), x.range is RangeFrom, x.range.at() >= fb, 0 <= fb,
    ensures r.contains(x) <==> hoffs(fb, r).contains((x.range.at() - fb) as u64),
{
    let o = (x.range.at() - fb) as u64; let h = hoffs(fb, r);
    if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(h[i] == o); }
    if h.contains(o) { let i = choose|i: int| 0 <= i < h.len() && h[i] == o; assert(r[i].range is RangeFrom); assert(r[i].range.at() == x.range.at()); assert(r[i] == x); }
}
pub proof fn lemma_dup(fb: int, r: Seq<HttpSearchResultItem>)
    requires all_from(fb, r), 0 <= fb,
    ensures r.no_duplicates() <==> hoffs(fb, r).no_duplicates(),
{
    let h = hoffs(fb, r);
    if r.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < h.len() && 0 <= j < h.len() && i != j implies h[i] != h[j] by { assert(r[i].range is RangeFrom && r[j].range is RangeFrom); assert(r[i] != r[j]); assert(r[i].range.at() != r[j].range.at()); }
    }
    if h.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { assert(h[i] != h[j]); }
    }
}
/// the item at an offset that is answered
pub proof fn lemma_at(fb: int, r: Seq<HttpSearchResultItem>, o: u64) -> (x: HttpSearchResultItem)
    requires all_from(fb, r), hoffs(fb, r).contains(o), 0 <= fb,
    ensures r.contains(x), x.range is RangeFrom, x.range.at() >= fb, (x.range.at() - fb) as u64 == o,
{ let h = hoffs(fb, r); let i = choose|i: int| 0 <= i < h.len() && h[i] == o; assert(r[i].range is RangeFrom); assert(r.contains(r[i])); r[i] }
pub proof fn lemma_union(fb: int, a: Seq<HttpSearchResultItem>, b: Seq<HttpSearchResultItem>, r: Seq<HttpSearchResultItem>)
    requires all_from(fb, a), all_from(fb, b), 0 <= fb, forall|x: HttpSearchResultItem| #[trigger] r.contains(x) <==> a.contains(x) || b.contains(x), a.no_duplicates() ==> r.no_duplicates(),
    ensures all_from(fb, r), forall|o: u64| #[trigger] hoffs(fb, r).contains(o) <==> hoffs(fb, a).contains(o) || hoffs(fb, b).contains(o), hoffs(fb, a).no_duplicates() ==> hoffs(fb, r).no_duplicates(),
{
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).range is RangeFrom && r[i].range.at() >= fb by {
        assert(r.contains(r[i]));
        if a.contains(r[i]) { let k = choose|k: int| 0 <= k < a.len() && a[k] == r[i]; assert(a[k].range is RangeFrom); } else { let k = choose|k: int| 0 <= k < b.len() && b[k] == r[i]; assert(b[k].range is RangeFrom); }
    }
    assert forall|o: u64| #[trigger] hoffs(fb, r).contains(o) <==> hoffs(fb, a).contains(o) || hoffs(fb, b).contains(o) by {
        if hoffs(fb, r).contains(o) { let x = lemma_at(fb, r, o); lemma_mem(fb, a, x); lemma_mem(fb, b, x); }
        if hoffs(fb, a).contains(o) { let x = lemma_at(fb, a, o); lemma_mem(fb, r, x); }
        if hoffs(fb, b).contains(o) { let x = lemma_at(fb, b, o); lemma_mem(fb, r, x); }
    }
    lemma_dup(fb, a); lemma_dup(fb, r);
}
pub proof fn lemma_sub(fb: int, a: Seq<HttpSearchResultItem>, b: Seq<HttpSearchResultItem>, r: Seq<HttpSearchResultItem>, inside: bool)
    requires all_from(fb, a), all_from(fb, b), 0 <= fb, forall|x: HttpSearchResultItem| #[trigger] r.contains(x) <==> a.contains(x) && b.contains(x) == inside, a.no_duplicates() ==> r.no_duplicates(),
    ensures all_from(fb, r), forall|o: u64| #[trigger] hoffs(fb, r).contains(o) <==> hoffs(fb, a).contains(o) && hoffs(fb, b).contains(o) == inside, hoffs(fb, a).no_duplicates() ==> hoffs(fb, r).no_duplicates(),
{
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).range is RangeFrom && r[i].range.at() >= fb by {
        assert(r.contains(r[i])); let k = choose|k: int| 0 <= k < a.len() && a[k] == r[i]; assert(a[k].range is RangeFrom);
    }
    assert forall|o: u64| #[trigger] hoffs(fb, r).contains(o) <==> hoffs(fb, a).contains(o) && hoffs(fb, b).contains(o) == inside by {
        if hoffs(fb, r).contains(o) { let x = lemma_at(fb, r, o); lemma_mem(fb, a, x); lemma_mem(fb, b, x); }
        if hoffs(fb, a).contains(o) { let x = lemma_at(fb, a, o); lemma_mem(fb, r, x); lemma_mem(fb, b, x); }
    }
    lemma_dup(fb, a); lemma_dup(fb, r);
}
pub proof fn lemma_minus(fb: int, a: Seq<HttpSearchResultItem>, b: Seq<HttpSearchResultItem>, r: Seq<HttpSearchResultItem>)
    requires all_from(fb, a), all_from(fb, b), 0 <= fb, forall|x: HttpSearchResultItem| #[trigger] r.contains(x) <==> a.contains(x) && !b.contains(x), a.no_duplicates() ==> r.no_duplicates(),
    ensures all_from(fb, r), forall|o: u64| #[trigger] hoffs(fb, r).contains(o) <==> hoffs(fb, a).contains(o) && !hoffs(fb, b).contains(o), hoffs(fb, a).no_duplicates() ==> hoffs(fb, r).no_duplicates(),
{ lemma_sub(fb, a, b, r, false); }
pub proof fn lemma_meet(fb: int, a: Seq<HttpSearchResultItem>, b: Seq<HttpSearchResultItem>, r: Seq<HttpSearchResultItem>)
    requires all_from(fb, a), all_from(fb, b), 0 <= fb, forall|x: HttpSearchResultItem| #[trigger] r.contains(x) <==> a.contains(x) && b.contains(x), a.no_duplicates() ==> r.no_duplicates(),
    ensures all_from(fb, r), forall|o: u64| #[trigger] hoffs(fb, r).contains(o) <==> hoffs(fb, a).contains(o) && hoffs(fb, b).contains(o), hoffs(fb, a).no_duplicates() ==> hoffs(fb, r).no_duplicates(),
{ lemma_sub(fb, a, b, r, true); }

%%pubitem static_btree/query/http.rs pub struct HttpIndex
impl<K: Key> HttpIndex<K> {
    pub open spec fn fb(&self) -> int { self.feature_begin as int }
    pub open spec fn ents(&self, d: Seq<u8>) -> Seq<(int, u64)> { Stree::<K>::stored_entries(d, self.index_begin as int, self.num_items as int, self.branching_factor as int) }
    pub open spec fn ok(&self, d: Seq<u8>) -> bool { Stree::<K>::http_ok(d, self.index_begin as int, self.feature_begin as int, self.num_items as int, self.branching_factor as int) && ranked::<K>(self.ents(d)) }
}
%%fn static_btree/query/http.rs "impl<K: Key> HttpIndex<K>" find_exact
%%ret r
%%deasync
%%sub `Stree::http_stream_find_exact(` => `Stree::<K>::http_stream_find_exact(`
%%spec
    requires self.ok(old(client).file()),
    ensures final(client).file() == old(client).file(),
        r is Ok ==> all_from(self.fb(), r->Ok_0@) && exact_set(self.ents(old(client).file()), key.rk(), hoffs(self.fb(), r->Ok_0@)),
%%done
%%fn static_btree/query/http.rs "impl<K: Key> HttpIndex<K>" find_range
%%ret r
%%deasync
%%sub `Stree::http_stream_find_range(` => `Stree::<K>::http_stream_find_range(`
%%sub `Error::QueryError( "find_range requires at least one bound".to_string(), )` => `Error::Other`
%%sub `include_bound(&mut items, self.find_exact(client, K::max_value())?);` => `let ghost part = items@; let bound_ = self.find_exact(client, K::max_value())?; let ghost exact = bound_@; proof { K::bounds(&start->0); } include_bound(&mut items, bound_); proof { lemma_union(self.fb(), part, exact, items@); lemma_from(self.ents(client.file()), start->0.rk(), K::top(), hoffs(self.fb(), part), hoffs(self.fb(), exact), hoffs(self.fb(), items@)); }`
%%spec
    requires self.ok(old(client).file()),
    ensures final(client).file() == old(client).file(),
        ({
            let e = self.ents(old(client).file()); let fb = self.fb();
            &&& r is Ok ==> all_from(fb, r->Ok_0@)
            &&& start is Some && end is Some && r is Ok ==> range_set(e, start->0.rk(), end->0.rk(), hoffs(fb, r->Ok_0@))
            &&& start is Some && end is None && r is Ok ==> from_set(e, start->0.rk(), K::top(), hoffs(fb, r->Ok_0@))
            &&& start is None && end is Some && r is Ok ==> range_set(e, K::bottom(), end->0.rk(), hoffs(fb, r->Ok_0@))
            &&& start is None && end is None ==> r is Err
        }),
%%done
%%fn static_btree/query/http.rs "impl<T: AsyncHttpRangeClient + Send + Sync> TypedHttpSearchIndex<T> for HttpIndex<$key_type>" execute_query_condition
%%impl impl<K: Key> HttpIndex<K>
%%ret r
%%deasync
%%rename execute_query_condition
%%sig `execute_query_condition(` => `execute_query_condition<T: AsyncHttpRangeClient>(`
%%sub `&condition.key {` => `as_key::<K>(&condition.key) {`
%%sub `let key: $key_type =` => `let key: K =`
%%sub `$enum_variant(val)` => `Some(val)`
%%sub `Error::QueryError(format!( "key type mismatch: expected {}, got {:?}", stringify!($key_type), condition.key ))` => `Error::Other`
%%sub `<$key_type>` => `<K>`
%%sub `all.into_iter().filter(|x| !eq.contains(x)).collect()` => `({ let r_ = filter_not_in(all, &eq); proof { lemma_minus(fb, all_, eq@, r_@); } r_ })`
%%sub `let all = self` => `let all: Vec<HttpSearchResultItem> = self`
%%sub `Some(<K>::min_value())` => `Some(K::min_value())`
%%sub `v.retain(|x| !eq.contains(x));` => `let ghost v_ = v@; retain_not_in(&mut v, &eq); proof { lemma_minus(fb, v_, eq@, v@); }`
%%sub `let eq = self.find_exact(client, key.clone())?; ({` => `let ghost all_ = all@; let eq = self.find_exact(client, key.clone())?; ({`
%%sub `include_bound(&mut v, self.find_exact(client, key.clone())?);` => `let ghost v_ = v@; let bound_ = self.find_exact(client, key.clone())?; let ghost b_ = bound_@; include_bound(&mut v, bound_); proof { lemma_union(fb, v_, b_, v@); }`
%%spec
    requires self.ok(old(client).file()),
    ensures final(client).file() == old(client).file(),
        r is Ok ==> key_of::<K>(condition.key) is Some,
        ({
            let e = self.ents(old(client).file()); let fb = self.fb();
            &&& r is Ok ==> all_from(fb, r->Ok_0@) && (forall|o: u64| #[trigger] hoffs(fb, r->Ok_0@).contains(o) <==> answer(e, condition.operator, key_of::<K>(condition.key)->0.rk(), o))
            &&& r is Ok && distinct(e) ==> hoffs(fb, r->Ok_0@).no_duplicates()
        }),
%%after `return Err(Error::Other) } };`
    let ghost fb = self.fb();
    proof {
        let v = key.rk(); let e = self.ents(old(client).file()); let (lo, hi) = (K::bottom(), K::top());
        K::bounds(&key);
        assert forall|o: u64| #![trigger answer(e, condition.operator, v, o)] true implies ({
            &&& satisfies(e, Operator::Eq, v, o) <==> hit(e, v, v, o)
            &&& satisfies(e, Operator::Ge, v, o) <==> hit(e, v, hi, o)
            &&& satisfies(e, Operator::Le, v, o) <==> hit(e, lo, v - 1, o) || hit(e, v, v, o)
            &&& answer(e, Operator::Ne, v, o) <==> hit(e, lo, hi, o) && !hit(e, v, v, o)
            &&& answer(e, Operator::Gt, v, o) <==> hit(e, v, hi, o) && !hit(e, v, v, o)
            &&& answer(e, Operator::Lt, v, o) <==> hit(e, lo, v - 1, o) && !hit(e, v, v, o)
            &&& hit(e, lo, v, o) <==> hit(e, lo, v - 1, o) || hit(e, v, v, o)
        }) by { lemma_ops(e, v, lo, hi, o); }
    }
%%done
%%fn static_btree/query/http.rs "impl<T: AsyncHttpRangeClient> TypedHttpSearchIndex<T> for HttpIndex<$key_type>" execute_query_condition
%%impl impl<K: Key> HttpIndex<K>
%%ret r
%%deasync
%%rename execute_query_condition_wasm
%%sig `execute_query_condition(` => `execute_query_condition<T: AsyncHttpRangeClient>(`
%%sub `&condition.key {` => `as_key::<K>(&condition.key) {`
%%sub `let key: $key_type =` => `let key: K =`
%%sub `$enum_variant(val)` => `Some(val)`
%%sub `Error::QueryError(format!( "key type mismatch: expected {}, got {:?}", stringify!($key_type), condition.key ))` => `Error::Other`
%%sub `<$key_type>` => `<K>`
%%sub `all.into_iter().filter(|x| !eq.contains(x)).collect()` => `({ let r_ = filter_not_in(all, &eq); proof { lemma_minus(fb, all_, eq@, r_@); } r_ })`
%%sub `let all = self` => `let all: Vec<HttpSearchResultItem> = self`
%%sub `Some(<K>::min_value())` => `Some(K::min_value())`
%%sub `v.retain(|x| !eq.contains(x));` => `let ghost v_ = v@; retain_not_in(&mut v, &eq); proof { lemma_minus(fb, v_, eq@, v@); }`
%%sub `let eq = self.find_exact(client, key.clone())?; ({` => `let ghost all_ = all@; let eq = self.find_exact(client, key.clone())?; ({`
%%sub `include_bound(&mut v, self.find_exact(client, key.clone())?);` => `let ghost v_ = v@; let bound_ = self.find_exact(client, key.clone())?; let ghost b_ = bound_@; include_bound(&mut v, bound_); proof { lemma_union(fb, v_, b_, v@); }`
%%spec
    requires self.ok(old(client).file()),
    ensures final(client).file() == old(client).file(),
        r is Ok ==> key_of::<K>(condition.key) is Some,
        ({
            let e = self.ents(old(client).file()); let fb = self.fb();
            &&& r is Ok ==> all_from(fb, r->Ok_0@) && (forall|o: u64| #[trigger] hoffs(fb, r->Ok_0@).contains(o) <==> answer(e, condition.operator, key_of::<K>(condition.key)->0.rk(), o))
            &&& r is Ok && distinct(e) ==> hoffs(fb, r->Ok_0@).no_duplicates()
        }),
%%after `return Err(Error::Other) } };`
    let ghost fb = self.fb();
    proof {
        let v = key.rk(); let e = self.ents(old(client).file()); let (lo, hi) = (K::bottom(), K::top());
        K::bounds(&key);
        assert forall|o: u64| #![trigger answer(e, condition.operator, v, o)] true implies ({
            &&& satisfies(e, Operator::Eq, v, o) <==> hit(e, v, v, o)
            &&& satisfies(e, Operator::Ge, v, o) <==> hit(e, v, hi, o)
            &&& satisfies(e, Operator::Le, v, o) <==> hit(e, lo, v - 1, o) || hit(e, v, v, o)
            &&& answer(e, Operator::Ne, v, o) <==> hit(e, lo, hi, o) && !hit(e, v, v, o)
            &&& answer(e, Operator::Gt, v, o) <==> hit(e, v, hi, o) && !hit(e, v, v, o)
            &&& answer(e, Operator::Lt, v, o) <==> hit(e, lo, v - 1, o) && !hit(e, v, v, o)
            &&& hit(e, lo, v, o) <==> hit(e, lo, v - 1, o) || hit(e, v, v, o)
        }) by { lemma_ops(e, v, lo, hi, o); }
    }
%%done

/// what the multi-index needs to know of the index of a field (dyn TypedHttpSearchIndex)
pub trait TypedHttpSearchIndex {
    spec fn ready(&self, d: Seq<u8>, fb: int) -> bool;
    spec fn takes(&self, c: &QueryCondition) -> bool;
    spec fn answers(&self, d: Seq<u8>, c: &QueryCondition, o: u64) -> bool;
    spec fn single(&self, d: Seq<u8>) -> bool;
    spec fn begin(&self) -> int;
    fn execute_query_condition<T: AsyncHttpRangeClient>(&self, client: &mut AsyncBufferedHttpRangeClient<T>, condition: &QueryCondition) -> (r: Result<Vec<HttpSearchResultItem>>)
        requires self.ready(old(client).file(), self.begin()),
        ensures final(client).file() == old(client).file(), r is Ok ==> self.takes(condition) && all_from(self.begin(), r->Ok_0@),
            r is Ok ==> forall|o: u64| #[trigger] hoffs(self.begin(), r->Ok_0@).contains(o) <==> self.answers(old(client).file(), condition, o),
            r is Ok && self.single(old(client).file()) ==> hoffs(self.begin(), r->Ok_0@).no_duplicates();
}
impl<K: Key> TypedHttpSearchIndex for HttpIndex<K> {
    open spec fn ready(&self, d: Seq<u8>, fb: int) -> bool { self.ok(d) && fb == self.fb() }
    open spec fn takes(&self, c: &QueryCondition) -> bool { key_of::<K>(c.key) is Some }
    open spec fn answers(&self, d: Seq<u8>, c: &QueryCondition, o: u64) -> bool { answer(self.ents(d), c.operator, key_of::<K>(c.key)->0.rk(), o) }
    open spec fn single(&self, d: Seq<u8>) -> bool { distinct(self.ents(d)) }
    open spec fn begin(&self) -> int { self.fb() }
    fn execute_query_condition<T: AsyncHttpRangeClient>(&self, client: &mut AsyncBufferedHttpRangeClient<T>, condition: &QueryCondition) -> (r: Result<Vec<HttpSearchResultItem>>) { HttpIndex::<K>::execute_query_condition(self, client, condition) }
}
%%pubitem static_btree/query/http.rs pub struct HttpMultiIndex
%%isub `pub struct HttpMultiIndex<T: AsyncHttpRangeClient + Send + Sync>` => `#[verifier::reject_recursive_types(T)] pub struct HttpMultiIndex<T: AsyncHttpRangeClient, I: TypedHttpSearchIndex>`
%%isub `dyn TypedHttpSearchIndex<T>` => `I`
%%isub `indices:` => `pub t_: PhantomData<T>, pub indices:`
/// where the features begin, the same for every index of the file
pub open spec fn fb_of<T: AsyncHttpRangeClient, I: TypedHttpSearchIndex>(m: &HttpMultiIndex<T, I>) -> int { choose|fb: int| #[trigger] m.begins(fb) }
impl<T: AsyncHttpRangeClient, I: TypedHttpSearchIndex> HttpMultiIndex<T, I> {
    pub open spec fn idx(&self, c: QueryCondition) -> I { *self.indices@[c.field] }
    pub open spec fn known(&self, c: QueryCondition) -> bool { self.indices@.contains_key(c.field) && self.idx(c).takes(&c) }
    pub open spec fn holds(&self, d: Seq<u8>, c: QueryCondition, o: u64) -> bool { self.known(c) && self.idx(c).answers(d, &c, o) }
    pub open spec fn all_hold(&self, d: Seq<u8>, cs: Seq<QueryCondition>, n: int, o: u64) -> bool { forall|i: int| 0 <= i < n ==> self.holds(d, #[trigger] cs[i], o) }
    pub open spec fn begins(&self, fb: int) -> bool { forall|f: String| self.indices@.contains_key(f) ==> (#[trigger] self.indices@[f]).begin() == fb }
    pub open spec fn is_answer(&self, d: Seq<u8>, fb: int, c: QueryCondition, r: Seq<HttpSearchResultItem>) -> bool {
        &&& all_from(fb, r) && forall|o: u64| #[trigger] hoffs(fb, r).contains(o) <==> self.idx(c).answers(d, &c, o)
        &&& self.idx(c).single(d) ==> hoffs(fb, r).no_duplicates()
    }
    pub open spec fn ready(&self, d: Seq<u8>, fb: int) -> bool { 0 <= fb && forall|f: String| self.indices@.contains_key(f) ==> (#[trigger] self.indices@[f]).ready(d, fb) && self.indices@[f].begin() == fb }
}
/// Iterator::next().unwrap_or_default() on the sets
#[verifier::external_body] pub fn first_or_none(v: &Vec<Vec<HttpSearchResultItem>>) -> (r: Vec<HttpSearchResultItem>) ensures v@.len() > 0 ==> r@ == v@[0]@, v@.len() == 0 ==> r@.len() == 0 { unimplemented!() }
%%fn static_btree/query/http.rs "impl<T: AsyncHttpRangeClient + Send + Sync> HttpMultiIndex<T>" query
%%impl impl<T: AsyncHttpRangeClient, I: TypedHttpSearchIndex> HttpMultiIndex<T, I>
%%ret r
%%deasync
%%rename query
%%loops 2
%%sub `Error::QueryError("query cannot be empty".to_string())` => `Error::Other`
%%sub `self.indices.get(&cond.field).ok_or_else(|| { Error::QueryError(format!("no index found for field '{}'", cond.field)) })?` => `or_err(lookup(&self.indices, &cond.field))?`
%%sub `conditions.is_empty()` => `conditions.len() == 0`
%%sub `for cond in conditions {` => `let mut _i: usize = 0; while _i < conditions.len() { let cond = &conditions[_i];`
%%sub `let mut result_sets = Vec::with_capacity(conditions.len());` => `let mut result_sets: Vec<Vec<HttpSearchResultItem>> = Vec::with_capacity(conditions.len());`
%%sub `let mut iter = result_sets.into_iter();` => ``
%%sub `iter.next().unwrap_or_default()` => `first_or_none(&result_sets)`
%%sub `for set in iter {` => `let mut _j: usize = 1; while _j < result_sets.len() { let set = &result_sets[_j];`
%%sub `intersection.retain(|x| set.contains(x));` => `let ghost was = intersection@; retain_in(&mut intersection, set); proof { lemma_meet(fb, was, set@, intersection@); }`
%%spec
    requires self.ready(old(client).file(), fb_of(self)),
    ensures
        final(client).file() == old(client).file(),
        conditions@.len() == 0 ==> r is Err,
        r is Ok ==> forall|i: int| 0 <= i < conditions@.len() ==> self.known(#[trigger] conditions@[i]),
        r is Ok ==> all_from(fb_of(self), r->Ok_0@) && forall|o: u64| #[trigger] hoffs(fb_of(self), r->Ok_0@).contains(o) <==> self.all_hold(old(client).file(), conditions@, conditions@.len() as int, o),
        r is Ok && self.idx(conditions@[0]).single(old(client).file()) ==> hoffs(fb_of(self), r->Ok_0@).no_duplicates(),
%%start
    let ghost d = client.file(); let ghost fb = fb_of(self);
%%loop 0
    invariant
        0 <= _i <= conditions@.len(), self.ready(d, fb), client.file() == d, d == old(client).file(), result_sets@.len() == _i, conditions@.len() > 0,
        forall|i: int| 0 <= i < _i ==> self.known(#[trigger] conditions@[i]),
        forall|i: int| 0 <= i < _i ==> self.is_answer(d, fb, conditions@[i], #[trigger] result_sets@[i]@),
    decreases conditions.len() - _i
%%loopend 0
    _i += 1;
%%loop 1
    invariant
        0 <= fb, 1 <= _j <= result_sets@.len(), result_sets@.len() == conditions@.len(), conditions@.len() > 0, client.file() == d, d == old(client).file(),
        forall|i: int| 0 <= i < conditions@.len() ==> self.is_answer(d, fb, conditions@[i], #[trigger] result_sets@[i]@),
        forall|i: int| 0 <= i < conditions@.len() ==> self.known(#[trigger] conditions@[i]),
        all_from(fb, intersection@), forall|o: u64| #[trigger] hoffs(fb, intersection@).contains(o) <==> self.all_hold(d, conditions@, _j as int, o),
        self.idx(conditions@[0]).single(d) ==> hoffs(fb, intersection@).no_duplicates(),
    decreases result_sets.len() - _j
%%before 1
    proof { assert(self.is_answer(d, fb, conditions@[0], result_sets@[0]@)); }
%%loopstart 1
    proof { assert(self.is_answer(d, fb, conditions@[_j as int], result_sets@[_j as int]@)); }
%%loopend 1
    _j += 1;
%%done
%%fn static_btree/query/http.rs "impl<T: AsyncHttpRangeClient> HttpMultiIndex<T>" query
%%impl impl<T: AsyncHttpRangeClient, I: TypedHttpSearchIndex> HttpMultiIndex<T, I>
%%ret r
%%deasync
%%rename query_wasm
%%loops 2
%%sub `Error::QueryError("query cannot be empty".to_string())` => `Error::Other`
%%sub `self.indices.get(&cond.field).ok_or_else(|| { Error::QueryError(format!("no index found for field '{}'", cond.field)) })?` => `or_err(lookup(&self.indices, &cond.field))?`
%%sub `conditions.is_empty()` => `conditions.len() == 0`
%%sub `for cond in conditions {` => `let mut _i: usize = 0; while _i < conditions.len() { let cond = &conditions[_i];`
%%sub `let mut result_sets = Vec::with_capacity(conditions.len());` => `let mut result_sets: Vec<Vec<HttpSearchResultItem>> = Vec::with_capacity(conditions.len());`
%%sub `let mut iter = result_sets.into_iter();` => ``
%%sub `iter.next().unwrap_or_default()` => `first_or_none(&result_sets)`
%%sub `for set in iter {` => `let mut _j: usize = 1; while _j < result_sets.len() { let set = &result_sets[_j];`
%%sub `intersection.retain(|x| set.contains(x));` => `let ghost was = intersection@; retain_in(&mut intersection, set); proof { lemma_meet(fb, was, set@, intersection@); }`
%%spec
    requires self.ready(old(client).file(), fb_of(self)),
    ensures
        final(client).file() == old(client).file(),
        conditions@.len() == 0 ==> r is Err,
        r is Ok ==> forall|i: int| 0 <= i < conditions@.len() ==> self.known(#[trigger] conditions@[i]),
        r is Ok ==> all_from(fb_of(self), r->Ok_0@) && forall|o: u64| #[trigger] hoffs(fb_of(self), r->Ok_0@).contains(o) <==> self.all_hold(old(client).file(), conditions@, conditions@.len() as int, o),
        r is Ok && self.idx(conditions@[0]).single(old(client).file()) ==> hoffs(fb_of(self), r->Ok_0@).no_duplicates(),
%%start
    let ghost d = client.file(); let ghost fb = fb_of(self);
%%loop 0
    invariant
        0 <= _i <= conditions@.len(), self.ready(d, fb), client.file() == d, d == old(client).file(), result_sets@.len() == _i, conditions@.len() > 0,
        forall|i: int| 0 <= i < _i ==> self.known(#[trigger] conditions@[i]),
        forall|i: int| 0 <= i < _i ==> self.is_answer(d, fb, conditions@[i], #[trigger] result_sets@[i]@),
    decreases conditions.len() - _i
%%loopend 0
    _i += 1;
%%loop 1
    invariant
        0 <= fb, 1 <= _j <= result_sets@.len(), result_sets@.len() == conditions@.len(), conditions@.len() > 0, client.file() == d, d == old(client).file(),
        forall|i: int| 0 <= i < conditions@.len() ==> self.is_answer(d, fb, conditions@[i], #[trigger] result_sets@[i]@),
        forall|i: int| 0 <= i < conditions@.len() ==> self.known(#[trigger] conditions@[i]),
        all_from(fb, intersection@), forall|o: u64| #[trigger] hoffs(fb, intersection@).contains(o) <==> self.all_hold(d, conditions@, _j as int, o),
        self.idx(conditions@[0]).single(d) ==> hoffs(fb, intersection@).no_duplicates(),
    decreases result_sets.len() - _j
%%before 1
    proof { assert(self.is_answer(d, fb, conditions@[0], result_sets@[0]@)); }
%%loopstart 1
    proof { assert(self.is_answer(d, fb, conditions@[_j as int], result_sets@[_j as int]@)); }
%%loopend 1
    _j += 1;
%%done
} // verus!
fn main() {}
