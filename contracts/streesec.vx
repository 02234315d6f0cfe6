// attribute index trees: shape, searching, bytes (units stree and shttp)
%%include common.vx
%%include levels.vx
%%include bytes.vx
broadcast use {common::group_std, vstd::std_specs::hash::group_hash_axioms, bytes::group_bytes};

pub enum Error { Other, PayloadOffsetNotInCache }
pub type Result<T> = std::result::Result<T, Error>;
pub type Offset = u64;

// ---- the contract of trait Key: a total order (rank rk) with least and greatest value
pub trait Key: Sized {
    spec fn rk(&self) -> int;
    spec fn top() -> int;
    spec fn bottom() -> int;
    proof fn bounds(k: &Self) ensures Self::bottom() <= k.rk() <= Self::top();
    fn cmp(&self, other: &Self) -> (r: Ordering)
        ensures (r is Less) == (self.rk() < other.rk()), (r is Equal) == (self.rk() == other.rk()), (r is Greater) == (self.rk() > other.rk());
    fn eq(&self, other: &Self) -> (r: bool) ensures r == (self.rk() == other.rk());
    fn gt(&self, other: &Self) -> (r: bool) ensures r == (self.rk() > other.rk());
    fn le(&self, other: &Self) -> (r: bool) ensures r == (self.rk() <= other.rk());
    fn ge(&self, other: &Self) -> (r: bool) ensures r == (self.rk() >= other.rk());
    fn clone(&self) -> (r: Self) ensures r == *self;
    fn default() -> (r: Self);
    fn max_value() -> (r: Self) ensures r.rk() == Self::top();
    fn min_value() -> (r: Self) ensures r.rk() == Self::bottom();
    /// std::cmp::min
    fn min_of(a: Self, b: Self) -> (r: Self) ensures r == if a.rk() <= b.rk() { a } else { b };
    // the byte encoding (what P08 says of every key type)
    spec fn sz() -> int;
    spec fn enc(&self) -> Seq<u8>;
    spec fn dec_ok(b: Seq<u8>) -> bool;
    spec fn dec(b: Seq<u8>) -> Self;
    proof fn coding(k: &Self) ensures k.enc().len() == Self::sz(), Self::dec_ok(k.enc()), Self::dec(k.enc()) == *k;
    proof fn size() ensures 0 < Self::sz() <= 0x1000;
    /// K::SERIALIZED_SIZE
    fn ser_size() -> (r: usize) ensures r == Self::sz(), r <= 0x1000;
    fn read_from<R: Read>(data: &mut R) -> (r: Result<Self>)
        ensures final(data).data() == old(data).data(),
            r is Ok <==> old(data).pos() + Self::sz() <= old(data).data().len() && Self::dec_ok(old(data).data().subrange(old(data).pos(), old(data).pos() + Self::sz())),
            r is Ok ==> final(data).pos() == old(data).pos() + Self::sz() && r->Ok_0 == Self::dec(old(data).data().subrange(old(data).pos(), old(data).pos() + Self::sz()));
    fn write_to<W: Write>(&self, out: &mut W) -> (r: Result<usize>)
        ensures r is Ok ==> final(out).out() == old(out).out() + self.enc() && r->Ok_0 == Self::sz();
}

%%item static_btree/entry.rs pub struct Entry
pub type NodeItem<K> = Entry<K>;
%%pubitem static_btree/stree.rs pub struct Stree
%%item static_btree/stree.rs pub struct SearchResultItem
%%item static_btree/payload.rs pub struct PayloadEntry

// ---- shape of the levels: level 0 holds the distinct keys, each level a B-th of the one below, the top one fewer than B items
pub open spec fn BOUND() -> int { 0x0100_0000_0000_0000 }
pub open spec fn upper_total(n: int, b: int) -> int
    decreases n,
{
    if n < 1 || b < 2 { 0 } else {
        let m = cdiv(n, b);
        if m < b || m >= n { m } else { m + upper_total(m, b) }
    }
}
pub open spec fn total(n: int, b: int) -> int { n + upper_total(n, b) }
pub proof fn lemma_upper(n: int, b: int)
    requires n >= 1, b >= 2,
    ensures 1 <= upper_total(n, b) <= 2 * n,
        n >= 2 ==> upper_total(n, b) <= 2 * n - 2,
        cdiv(n, b) < b ==> upper_total(n, b) == cdiv(n, b),
        cdiv(n, b) >= b ==> upper_total(n, b) == cdiv(n, b) + upper_total(cdiv(n, b), b),
    decreases n,
{
    lemma_cdiv(n, b);
    let m = cdiv(n, b);
    if m >= b { assert(m < n); lemma_upper(m, b); }
}
pub open spec fn levels_ok(lb: Seq<Range<usize>>, n: int, b: int) -> bool {
    &&& lb.len() >= 2 && b >= 2 && n >= 1
    &&& cnt(lb, 0) == n
    &&& lb[0].end == total(n, b) && lb[0].end <= 3 * BOUND()
    &&& forall|l: int| 0 <= l < lb.len() ==> (#[trigger] lb[l]).start < lb[l].end
    &&& forall|l: int| 0 <= l < lb.len() - 1 ==> lb[l + 1].end == (#[trigger] lb[l]).start && cnt(lb, l + 1) == cdiv(cnt(lb, l), b)
    &&& lb[lb.len() - 1].start == 0 && lb[lb.len() - 1].end < b
}

%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" generate_level_bounds
%%ret r
%%loops 3
%%spec
    requires branching_factor >= 2, 1 <= num_items <= BOUND(),
    ensures levels_ok(r@, num_items as int, branching_factor as int),
%%pre `assert!(num_items <= usize::MAX - ((num_items / branching_factor as usize) * 2)`
    proof {
        assert(0 <= num_items as int / branching_factor as int <= num_items as int) by (nonlinear_arith) requires branching_factor >= 1, num_items >= 0;
    }
%%before 0
    proof { lemma_upper(num_items as int, branching_factor as int); lemma_cdiv(num_items as int, branching_factor as int); }
    let ghost bb = branching_factor as int;
    proof { assert(sum_from(level_num_nodes@, 1) == 0); assert(sum_from(level_num_nodes@, 0) == n + sum_from(level_num_nodes@, 1)); }
%%loop 0
    invariant_except_break
        level_num_nodes.len() == 1 ==> n == num_items,
        level_num_nodes.len() > 1 ==> n >= bb,
        num_nodes + upper_total(n as int, bb) == total(num_items as int, bb),
    invariant
        bb == branching_factor as int, bb >= 2, 1 <= num_items <= BOUND(), 1 <= n <= num_items,
        level_num_nodes.len() >= 1, level_num_nodes@[0] == num_items,
        level_num_nodes@[level_num_nodes.len() - 1] == n,
        forall|k: int| 0 <= k < level_num_nodes.len() ==> 1 <= #[trigger] level_num_nodes@[k],
        forall|k: int| 0 <= k < level_num_nodes.len() - 1 ==> level_num_nodes@[k + 1] == cdiv(#[trigger] level_num_nodes@[k] as int, bb),
        num_nodes == sum_from(level_num_nodes@, 0),
        total(num_items as int, bb) <= 3 * BOUND(),
    ensures n < bb, level_num_nodes.len() >= 2, num_nodes == total(num_items as int, bb),
    decreases n + (if level_num_nodes.len() == 1 { 1int } else { 0 })
%%loopstart 0
    proof { lemma_cdiv(n as int, bb); lemma_upper(n as int, bb); lemma_upper(cdiv(n as int, bb), bb); }
    let ghost pre = level_num_nodes@;
%%loopend 0
%%after `level_num_nodes.push(n)` 1
    ; proof { lemma_sum_push(pre, n, 0); assert(level_num_nodes@ == pre.push(n)); }
%%before 1
    let ghost sizes = level_num_nodes@;
%%sub? `n -= size;` => `n -= *size;`
%%iter 1 it
%%loop 1
    invariant
        sizes == level_num_nodes@,
        num_nodes == sum_from(sizes, 0),
        n == sum_from(sizes, it.index()),
        it.index() <= sizes.len(),
        level_offsets.len() == it.index(),
        forall|k: int| 0 <= k < it.index() ==> #[trigger] level_offsets@[k] == sum_from(sizes, k + 1),
%%loopstart 1
    proof { lemma_sum_nonneg(sizes, it.index() + 1); assert(*size == sizes[it.index() as int]); assert(sum_from(sizes, it.index()) == sizes[it.index() as int] + sum_from(sizes, it.index() + 1)); }
%%loop 2
    invariant
        sizes == level_num_nodes@, level_offsets.len() == sizes.len(),
        forall|k: int| 0 <= k < sizes.len() ==> #[trigger] level_offsets@[k] == sum_from(sizes, k + 1),
        sum_from(sizes, 0) <= 3 * BOUND(),
        bounds_upto(level_bounds, sizes, i as int),
%%loopstart 2
    proof { lemma_sum_mono(sizes, 0, i as int); assert(sum_from(sizes, i as int) == sizes[i as int] + sum_from(sizes, i + 1)); }
%%end
    proof {
        let L = sizes.len() as int;
        assert(sum_from(sizes, L) == 0);
        assert(sum_from(sizes, L - 1) == sizes[L - 1] + sum_from(sizes, L));
        assert forall|l: int| 0 <= l < L implies (#[trigger] level_bounds@[l]).start < level_bounds@[l].end by {}
        assert forall|l: int| 0 <= l < L - 1 implies level_bounds@[l + 1].end == (#[trigger] level_bounds@[l]).start
            && cnt(level_bounds@, l + 1) == cdiv(cnt(level_bounds@, l), bb) by {
            assert(sizes[l + 1] == cdiv(sizes[l] as int, bb));
        }
    }
%%done

// ---- what an inner item says: chunk c of the level below starts at its offset, and its key is the least key of the leaves
// below chunk c+1 (the greatest key of the type when there is none)
pub open spec fn pw(b: int, l: int) -> int
    decreases l,
{ if l <= 0 { 1 } else { b * pw(b, l - 1) } }
pub open spec fn span(b: int, l: int) -> int { (b - 1) * pw(b, l) }
pub open spec fn chunk_of(r: int, b: int) -> int { (r / (b - 1)) * b + r % (b - 1) }
pub open spec fn leaf<K: Key>(items: Seq<NodeItem<K>>, lb: Seq<Range<usize>>, i: int) -> NodeItem<K> { items[lb[0].start + i] }
pub open spec fn lrk<K: Key>(items: Seq<NodeItem<K>>, lb: Seq<Range<usize>>, i: int) -> int { leaf(items, lb, i).key.rk() }
pub open spec fn sep<K: Key>(items: Seq<NodeItem<K>>, lb: Seq<Range<usize>>, i: int) -> int {
    if i < cnt(lb, 0) { lrk(items, lb, i) } else { K::top() }
}
pub open spec fn item_ok<K: Key>(items: Seq<NodeItem<K>>, lb: Seq<Range<usize>>, b: int, l: int, r: int) -> bool {
    let c = chunk_of(r, b);
    let it = items[lb[l].start + r];
    it.offset == lb[l - 1].start + c * (b - 1) && it.key.rk() == sep(items, lb, (c + 1) * span(b, l - 1))
}
pub open spec fn ascending<K: Key>(items: Seq<NodeItem<K>>, lb: Seq<Range<usize>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < cnt(lb, 0) ==> #[trigger] lrk(items, lb, i) < #[trigger] lrk(items, lb, j)
}
#[verifier::opaque]
pub open spec fn inner_ok<K: Key>(items: Seq<NodeItem<K>>, lb: Seq<Range<usize>>, b: int, upto: int) -> bool {
    forall|l: int, r: int| 1 <= l <= upto && 0 <= r < cnt(lb, l) ==> #[trigger] item_ok(items, lb, b, l, r)
}

pub proof fn lemma_pw(b: int, l: int)
    requires b >= 2, l >= 0,
    ensures pw(b, l) >= 1, l > 0 ==> pw(b, l) == b * pw(b, l - 1), span(b, l) >= 1, span(b, 0) == b - 1,
    decreases l,
{
    if l > 0 { lemma_pw(b, l - 1); assert(b * pw(b, l - 1) >= 1) by (nonlinear_arith) requires b >= 2, pw(b, l - 1) >= 1; }
    assert(span(b, l) >= 1) by (nonlinear_arith) requires span(b, l) == (b - 1) * pw(b, l), b >= 2, pw(b, l) >= 1;
    assert(pw(b, 0) == 1);
    assert(span(b, 0) == b - 1) by (nonlinear_arith) requires span(b, 0) == (b - 1) * pw(b, 0), pw(b, 0) == 1;
}
pub proof fn lemma_span(b: int, l: int)
    requires b >= 2, l >= 1,
    ensures span(b, l) == b * span(b, l - 1),
{
    lemma_pw(b, l);
    assert(span(b, l) == b * span(b, l - 1)) by (nonlinear_arith)
        requires span(b, l) == (b - 1) * pw(b, l), pw(b, l) == b * pw(b, l - 1), span(b, l - 1) == (b - 1) * pw(b, l - 1);
}
/// x < ceil(n / b^l)  <=>  x * b^l < n
pub proof fn lemma_lt(lb: Seq<Range<usize>>, b: int, n: int, l: int, x: int)
    requires levels_ok(lb, n, b), 0 <= l < lb.len(), 0 <= x,
    ensures x < cnt(lb, l) <==> x * pw(b, l) < n,
    decreases l,
{
    lemma_pw(b, l);
    if l == 0 { assert(x * pw(b, 0) == x) by (nonlinear_arith) requires pw(b, 0) == 1; }
    else {
        let m = cnt(lb, l - 1);
        assert(lb[l - 1].start < lb[l - 1].end);
        assert(cnt(lb, l - 1 + 1) == cdiv(m, b));
        lemma_cdiv(m, b);
        assert(0 <= x * b) by (nonlinear_arith) requires x >= 0, b >= 2;
        lemma_lt(lb, b, n, l - 1, x * b);
        assert(x * b * pw(b, l - 1) == x * pw(b, l)) by (nonlinear_arith) requires pw(b, l) == b * pw(b, l - 1);
        let q = cdiv(m, b);
        if x < q { assert(x * b <= (q - 1) * b) by (nonlinear_arith) requires x <= q - 1, b >= 2; }
        else { assert(x * b >= q * b) by (nonlinear_arith) requires x >= q, b >= 2; }
    }
}
/// chunk c of level l exists exactly when its first leaf does
pub proof fn lemma_chunk(lb: Seq<Range<usize>>, b: int, n: int, l: int, c: int)
    requires levels_ok(lb, n, b), 0 <= l < lb.len(), 0 <= c,
    ensures c * (b - 1) < cnt(lb, l) <==> c * span(b, l) < n, 0 <= c * (b - 1), 0 <= c * span(b, l), c == 0 ==> c * span(b, l) == 0 && c * (b - 1) == 0,
{
    lemma_pw(b, l);
    assert(0 <= c * (b - 1)) by (nonlinear_arith) requires c >= 0, b >= 2;
    assert(0 <= c * span(b, l)) by (nonlinear_arith) requires c >= 0, span(b, l) >= 1;
    lemma_lt(lb, b, n, l, c * (b - 1));
    assert(c * (b - 1) * pw(b, l) == c * span(b, l)) by (nonlinear_arith) requires span(b, l) == (b - 1) * pw(b, l);
    if c == 0 { assert(c * (b - 1) == 0) by (nonlinear_arith) requires c == 0; assert(c * span(b, l) == 0) by (nonlinear_arith) requires c == 0; }
}
/// the parent of chunk c, when it has one, is item c - c/b
pub proof fn lemma_parent(b: int, c: int, m: int)
    requires b >= 2, c >= 0, m >= 1,
    ensures
        0 <= c / b <= c,
        c % b < b - 1 ==> chunk_of(c - c / b, b) == c && (c + 1) / b == c / b,
        c % b == b - 1 ==> (c + 1) / b == c / b + 1,
        0 <= c % b < b,
        c * (b - 1) >= m ==> c - c / b >= cdiv(m, b),
{
    let q = c / b; let k = c % b; let s = b - 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, b);
    assert(c == b * q + k && 0 <= k < b);
    assert(q >= 0) by (nonlinear_arith) requires c >= 0, c == b * q + k, k < b, b >= 2;
    assert(q <= c) by (nonlinear_arith) requires c == b * q + k, k >= 0, b >= 2, q >= 0;
    assert(b * q == q * s + q) by (nonlinear_arith) requires s == b - 1;
    assert(c - q == q * s + k);
    if k < s {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c - q, s, q, k);
        assert(q * b == b * q) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c + 1, b, q, k + 1);
    } else {
        assert(b * (q + 1) == b * q + b) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c + 1, b, q + 1, 0);
    }
    if c * s >= m {
        lemma_cdiv(m, b);
        let d = cdiv(m, b);
        // (d-1) b < m <= c s = c b - c
        if d > c - q {
            assert((d - 1) * b >= (c - q) * b) by (nonlinear_arith) requires d - 1 >= c - q, b >= 2;
            assert((c - q) * b == c * b - q * b) by (nonlinear_arith);
            assert(c * s == c * b - c) by (nonlinear_arith) requires s == b - 1;
            assert(q * b == b * q) by (nonlinear_arith);
        }
    }
}
/// the chunk below item r exists, is not the last of its group, and the next one is the last or below item r+1
pub proof fn lemma_child(lb: Seq<Range<usize>>, b: int, n: int, l: int, r: int)
    requires levels_ok(lb, n, b), 1 <= l < lb.len(), 0 <= r < cnt(lb, l),
    ensures ({ let c = chunk_of(r, b);
        &&& 0 <= c && c % b < b - 1 && r == c - c / b && c / b == r / (b - 1) && c % b == r % (b - 1)
        &&& c * (b - 1) < cnt(lb, l - 1)
        &&& 0 <= lb[l - 1].start + c * (b - 1) < lb[l - 1].end
    }),
{
    let s = b - 1; let g = r / s; let k = r % s; let c = g * b + k;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(r, s);
    assert(r == s * g + k && 0 <= k < s);
    assert(g >= 0) by (nonlinear_arith) requires r >= 0, r == s * g + k, k < s, s >= 1;
    assert(g * b >= 0) by (nonlinear_arith) requires g >= 0, b >= 2;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c, b, g, k);
    assert(g * b == s * g + g) by (nonlinear_arith) requires s == b - 1;
    let m = cnt(lb, l - 1);
    assert(lb[l - 1].start < lb[l - 1].end);
    assert(cnt(lb, l - 1 + 1) == cdiv(m, b));
    lemma_cdiv(m, b);
    assert(r * b <= (cdiv(m, b) - 1) * b) by (nonlinear_arith) requires r <= cdiv(m, b) - 1, b >= 2;
    assert(c * s <= r * b) by (nonlinear_arith) requires c == r + g, s == b - 1, r == s * g + k, k >= 0, g >= 0, s >= 1;
    assert(0 <= c * s) by (nonlinear_arith) requires c >= 0, s >= 1;
}

%%fn static_btree/entry.rs "impl<K: Key> Entry<K>" new
%%ret r
%%spec
    ensures r.key == key, r.offset == offset,
%%done

%%fn static_btree/stree.rs "impl<K: Key> NodeItem<K>" new_with_key
%%ret r
%%spec
    ensures r.key == key, r.offset == 0,
%%done




/// vec![x; n]
#[verifier::external_body]
pub fn vec_of<K: Key>(x: NodeItem<K>, n: usize) -> (r: Vec<NodeItem<K>>) ensures r@.len() == n { unimplemented!() }


pub fn clamp16(a: u16, lo: u16, hi: u16) -> (r: u16)
    requires lo <= hi,
    ensures r == if a < lo { lo } else if a > hi { hi } else { a },
{ if a < lo { lo } else if a > hi { hi } else { a } }

/// least leaf key below item r of level l is in the map
pub open spec fn map_ok<K: Key>(m: Map<usize, K>, items: Seq<NodeItem<K>>, lb: Seq<Range<usize>>, b: int, l: int, r: int) -> bool {
    let p = (lb[l].start + r) as usize;
    m.contains_key(p) && chunk_of(r, b) * span(b, l - 1) < cnt(lb, 0) && m[p].rk() == lrk(items, lb, chunk_of(r, b) * span(b, l - 1))
}
#[verifier::opaque]
pub open spec fn level_ok<K: Key>(m: Map<usize, K>, items: Seq<NodeItem<K>>, lb: Seq<Range<usize>>, b: int, k: int, upto: int) -> bool {
    forall|r: int| 0 <= r < upto ==> #[trigger] item_ok(items, lb, b, k, r) && map_ok(m, items, lb, b, k, r)
}
/// state of generate_nodes in front of level l -> l+1 with the first `done` items of level l+1 written
#[verifier::opaque]
pub open spec fn gen_ok<K: Key>(m: Map<usize, K>, items: Seq<NodeItem<K>>, lb: Seq<Range<usize>>, b: int, l: int, done: int) -> bool {
    &&& items.len() == lb[0].end && ascending(items, lb)
    &&& forall|k: int| 1 <= k <= l ==> #[trigger] level_ok(m, items, lb, b, k, cnt(lb, k))
    &&& level_ok(m, items, lb, b, l + 1, done)
    &&& forall|p: usize| #[trigger] m.contains_key(p) ==> p < lb[0].start
}
pub proof fn lemma_levels(lb: Seq<Range<usize>>, n: int, b: int, i: int, j: int)
    requires levels_ok(lb, n, b), 0 <= i < j < lb.len(),
    ensures lb[j].end <= lb[i].start,
    decreases j - i,
{
    assert(lb[i].start < lb[i].end);
    if i + 1 < j { lemma_levels(lb, n, b, i + 1, j); assert(lb[i + 1].start < lb[i + 1].end); }
    else { assert(lb[i + 1].end == lb[i].start); }
}
/// writing item `done` of level l+1 keeps everything else
pub proof fn lemma_step<K: Key>(m: Map<usize, K>, m2: Map<usize, K>, items: Seq<NodeItem<K>>, items2: Seq<NodeItem<K>>, lb: Seq<Range<usize>>, n: int, b: int, l: int, done: int, it: NodeItem<K>, v: K)
    requires levels_ok(lb, n, b), 0 <= l < lb.len() - 1, 0 <= done < cnt(lb, l + 1), gen_ok(m, items, lb, b, l, done),
        items2 == items.update(lb[l + 1].start + done, it),
        m2 == m.insert((lb[l + 1].start + done) as usize, v),
        ({ let c = chunk_of(done, b);
           &&& it.offset == lb[l].start + c * (b - 1) && it.key.rk() == sep(items, lb, (c + 1) * span(b, l))
           &&& c * span(b, l) < n && v.rk() == lrk(items, lb, c * span(b, l)) }),
    ensures gen_ok(m2, items2, lb, b, l, done + 1),
{
    reveal(gen_ok);
    let p = lb[l + 1].start + done;
    lemma_levels(lb, n, b, 0, l + 1);
    assert(lb[l].start < lb[l].end);
    assert(lb[l + 1].end == lb[l].start);
    assert(lb[0].start < lb[0].end);
    assert forall|i: int| 0 <= i < cnt(lb, 0) implies #[trigger] lrk(items2, lb, i) == lrk(items, lb, i) by {}
    assert forall|k: int| 1 <= k <= l implies #[trigger] level_ok(m2, items2, lb, b, k, cnt(lb, k)) by {
        assert(level_ok(m, items, lb, b, k, cnt(lb, k)));
        reveal(level_ok);
        assert forall|r: int| 0 <= r < cnt(lb, k) implies #[trigger] item_ok(items2, lb, b, k, r) && map_ok(m2, items2, lb, b, k, r) by {
            assert(item_ok(items, lb, b, k, r)); assert(map_ok(m, items, lb, b, k, r));
            lemma_levels(lb, n, b, k, l + 1);
            lemma_child(lb, b, n, k, r); lemma_pw(b, k - 1);
            let c = chunk_of(r, b);
            assert((c + 1) * span(b, k - 1) >= 0) by (nonlinear_arith) requires c >= 0, span(b, k - 1) >= 1;
            assert(c * span(b, k - 1) >= 0) by (nonlinear_arith) requires c >= 0, span(b, k - 1) >= 1;
        }
    }
    reveal(level_ok);
    assert forall|r: int| 0 <= r < done + 1 implies #[trigger] item_ok(items2, lb, b, l + 1, r) && map_ok(m2, items2, lb, b, l + 1, r) by {
        lemma_child(lb, b, n, l + 1, r); lemma_pw(b, l);
        let c = chunk_of(r, b);
        assert((c + 1) * span(b, l) >= 0) by (nonlinear_arith) requires c >= 0, span(b, l) >= 1;
        assert(c * span(b, l) >= 0) by (nonlinear_arith) requires c >= 0, span(b, l) >= 1;
        if r < done { assert(level_ok(m, items, lb, b, l + 1, done)); assert(item_ok(items, lb, b, l + 1, r)); assert(map_ok(m, items, lb, b, l + 1, r)); }
    }
}
/// the least leaf keys of the two neighbouring chunks of level l, as the map or the leaves have them
pub proof fn lemma_least<K: Key>(m: Map<usize, K>, items: Seq<NodeItem<K>>, lb: Seq<Range<usize>>, n: int, b: int, l: int, done: int, c: int)
    requires levels_ok(lb, n, b), 0 <= l < lb.len() - 1, gen_ok(m, items, lb, b, l, done), 0 <= c, c * (b - 1) < cnt(lb, l),
    ensures
        0 <= c * span(b, l) < n,
        l == 0 ==> c * span(b, 0) == c * (b - 1) && !m.contains_key((lb[0].start + c * (b - 1)) as usize),
        l > 0 ==> m.contains_key((lb[l].start + c * (b - 1)) as usize) && m[(lb[l].start + c * (b - 1)) as usize].rk() == lrk(items, lb, c * span(b, l))
            && lrk(items, lb, c * span(b, l)) <= items[lb[l].start + c * (b - 1)].key.rk(),
{
    reveal(gen_ok);
    lemma_chunk(lb, b, n, l, c);
    lemma_pw(b, l);
    assert(lb[l].start < lb[l].end);
    if l > 0 {
        let r = c * (b - 1);
        assert(level_ok(m, items, lb, b, l, cnt(lb, l)));
        reveal(level_ok);
        assert(item_ok(items, lb, b, l, r)); assert(map_ok(m, items, lb, b, l, r));
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r, b - 1, c, 0);
        assert(chunk_of(r, b) == c * b);
        lemma_span(b, l);
        assert((c * b) * span(b, l - 1) == c * span(b, l)) by (nonlinear_arith) requires span(b, l) == b * span(b, l - 1);
        assert((c * b + 1) * span(b, l - 1) == c * span(b, l) + span(b, l - 1)) by (nonlinear_arith) requires (c * b) * span(b, l - 1) == c * span(b, l);
        lemma_pw(b, l - 1);
        K::bounds(&leaf(items, lb, c * span(b, l)).key);
        let i = c * span(b, l); let j = (c * b + 1) * span(b, l - 1);
        if j < n { assert(lrk(items, lb, i) < lrk(items, lb, j)); }
    }
}

pub proof fn lemma_next_level<K: Key>(m: Map<usize, K>, items: Seq<NodeItem<K>>, lb: Seq<Range<usize>>, n: int, b: int, l: int)
    requires levels_ok(lb, n, b), 0 <= l < lb.len() - 1, gen_ok(m, items, lb, b, l, cnt(lb, l + 1)),
    ensures gen_ok(m, items, lb, b, l + 1, 0),
{
    reveal(gen_ok); reveal(level_ok);
    if l + 2 < lb.len() { assert(lb[l + 2].end == lb[l + 1].start); assert(lb[l + 2].start < lb[l + 2].end); }
}
/// c is the last chunk of its group
pub proof fn lemma_right_most(b: int, c: int)
    requires b >= 2, c >= 0,
    ensures ((b - 1) * (b - 1) <= (c * (b - 1)) % (b * (b - 1)) && (c * (b - 1)) % (b * (b - 1)) < b * b) <==> c % b == b - 1,
        0 < b * (b - 1),
{
    let s = b - 1; let q = c / b; let k = c % b;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, b);
    assert(c * s == q * (b * s) + k * s) by (nonlinear_arith) requires c == b * q + k;
    assert(0 <= k * s < b * s) by (nonlinear_arith) requires 0 <= k < b, s >= 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c * s, b * s, q, k * s);
    assert(b * s < b * b) by (nonlinear_arith) requires s == b - 1, b >= 2;
    if k == s { } else { assert(k * s < s * s) by (nonlinear_arith) requires k < s, s >= 1; }
}

#[verifier::external_body]
pub fn put_u32(buf: &mut Vec<u8>, v: u32) ensures final(buf)@ == old(buf)@ + enc32(v) { unimplemented!() }
#[verifier::external_body]
pub fn put_u64(buf: &mut Vec<u8>, v: u64) ensures final(buf)@ == old(buf)@ + enc64(v) { unimplemented!() }
%%include io.vx
%%include qspec.vx

// ---- payload entries
pub open spec fn pay_len(d: Seq<u8>, p: int) -> int { dec32(d.subrange(p, p + 4)) as int }
pub open spec fn pay_fits(d: Seq<u8>, p: int) -> bool { 0 <= p && p + 4 <= d.len() && p + 4 + 8 * pay_len(d, p) <= d.len() }
pub open spec fn pay_at(d: Seq<u8>, p: int, i: int) -> u64 { dec64(d.subrange(p + 4 + 8 * i, p + 12 + 8 * i)) }
pub open spec fn pay(d: Seq<u8>, p: int) -> Seq<u64> { Seq::new(pay_len(d, p) as nat, |i: int| pay_at(d, p, i)) }
/// bytes of a list of offsets
pub open spec fn enc_all(s: Seq<u64>) -> Seq<u8>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { enc_all(s.drop_last()) + enc64(s.last()) } }
pub proof fn lemma_enc_all(s: Seq<u64>, i: int)
    requires 0 <= i < s.len(),
    ensures enc_all(s).len() == 8 * s.len(), enc_all(s).subrange(8 * i, 8 * i + 8) == enc64(s[i]),
    decreases s.len(),
{
    lemma_enc_len(s.drop_last());
    let e = enc_all(s.drop_last());
    if i < s.len() - 1 { lemma_enc_all(s.drop_last(), i); assert(enc_all(s).subrange(8 * i, 8 * i + 8) =~= e.subrange(8 * i, 8 * i + 8)); }
    else { assert(enc_all(s).subrange(8 * i, 8 * i + 8) =~= enc64(s.last())); }
}
pub proof fn lemma_enc_len(s: Seq<u64>)
    ensures enc_all(s).len() == 8 * s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_enc_len(s.drop_last()); } }

%%fn static_btree/payload.rs "impl PayloadEntry" deserialize
%%ret r
%%loops 1
%%sig `R: Read + Seek + ?Sized` => `R: Read`
%%sub `data.read_u32::<LittleEndian>()` => `data.read_u32()`
%%sub `data.read_u64::<LittleEndian>()` => `data.read_u64()`
%%spec
    requires 0 <= old(data).pos(),
    ensures final(data).data() == old(data).data(),
        r is Ok <==> pay_fits(old(data).data(), old(data).pos()),
        r is Ok ==> r->Ok_0.0.offsets@ == pay(old(data).data(), old(data).pos()) && r->Ok_0.0.count == r->Ok_0.0.offsets@.len()
            && final(data).pos() == old(data).pos() + 4 + 8 * r->Ok_0.0.count && r->Ok_0.1 == 8 * r->Ok_0.0.count,
%%before 0
    let ghost d = data.data(); let ghost p = data.pos() - 4;
%%iter 0 it
%%loop 0
    invariant
        p == old(data).pos(), 0 <= p, d == old(data).data(), data.data() == d, data.pos() == p + 4 + 8 * it.index(), offsets@.len() == it.index(), it.index() <= count,
        count == pay_len(d, p), p + 4 <= d.len(), p + 4 + 8 * it.index() <= d.len(),
        forall|i: int| 0 <= i < it.index() ==> #[trigger] offsets@[i] == pay_at(d, p, i),
%%end
    proof { assert(offsets@ =~= pay(d, p)); }
%%done
/// a serialized entry is found again at its place, whatever follows
#[verifier::spinoff_prover]
pub proof fn lemma_pay_read(d: Seq<u8>, p: int, cnt: u32, offs: Seq<u64>)
    requires 0 <= p, cnt == offs.len(), p + 4 + 8 * cnt <= d.len(), d.subrange(p, p + 4 + 8 * cnt) == enc32(cnt) + enc_all(offs),
    ensures pay_fits(d, p), pay(d, p) == offs,
{
    let e = enc32(cnt) + enc_all(offs);
    lemma_enc_len(offs);
    assert(d.subrange(p, p + 4) =~= e.subrange(0, 4)); assert(e.subrange(0, 4) =~= enc32(cnt));
    assert forall|i: int| 0 <= i < cnt implies pay_at(d, p, i) == offs[i] by {
        lemma_enc_all(offs, i);
        assert(d.subrange(p + 4 + 8 * i, p + 12 + 8 * i) =~= e.subrange(4 + 8 * i, 12 + 8 * i));
        assert(e.subrange(4 + 8 * i, 12 + 8 * i) =~= enc_all(offs).subrange(8 * i, 8 * i + 8));
    }
    assert(pay(d, p) =~= offs);
}
pub proof fn lemma_pay_grow(d: Seq<u8>, d2: Seq<u8>, p: int)
    requires pay_fits(d, p), d.len() <= d2.len(), d2.take(d.len() as int) == d,
    ensures pay_fits(d2, p), pay(d2, p) == pay(d, p),
{
    assert(d2.subrange(p, p + 4) =~= d.subrange(p, p + 4)) by { assert forall|i: int| p <= i < p + 4 implies d2[i] == d[i] by { assert(d2.take(d.len() as int)[i] == d2[i]); } }
    assert forall|i: int| 0 <= i < pay_len(d, p) implies pay_at(d2, p, i) == pay_at(d, p, i) by {
        assert(d2.subrange(p + 4 + 8 * i, p + 12 + 8 * i) =~= d.subrange(p + 4 + 8 * i, p + 12 + 8 * i)) by { assert forall|k: int| 0 <= k < d.len() implies d2[k] == d[k] by { assert(d2.take(d.len() as int)[k] == d2[k]); } }
    }
    assert(pay(d2, p) =~= pay(d, p));
}


// ---- offsets of the entries of one key, in order
pub open spec fn offs<K: Key>(s: Seq<NodeItem<K>>, v: int) -> Seq<u64>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        let t = offs(s.drop_last(), v);
        if s.last().key.rk() == v { t.push(s.last().offset) } else { t }
    }
}
pub proof fn lemma_offs_none<K: Key>(s: Seq<NodeItem<K>>, v: int)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).key.rk() != v,
    ensures offs(s, v) == Seq::<u64>::empty(),
    decreases s.len(),
{ if s.len() > 0 { assert(s.last().key.rk() != v); assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).key.rk() != v by { assert(s.drop_last()[i] == s[i]); } lemma_offs_none(s.drop_last(), v); } }
/// one more entry
pub proof fn lemma_offs_step<K: Key>(s: Seq<NodeItem<K>>, i: int, v: int)
    requires 0 <= i < s.len(),
    ensures offs(s.take(i + 1), v) == if s[i].key.rk() == v { offs(s.take(i), v).push(s[i].offset) } else { offs(s.take(i), v) },
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
pub proof fn lemma_offs_skip<K: Key>(s: Seq<NodeItem<K>>, i: int, j: int, v: int)
    requires 0 <= i <= j <= s.len(), forall|k: int| i <= k < j ==> (#[trigger] s[k]).key.rk() != v,
    ensures offs(s.take(j), v) == offs(s.take(i), v),
    decreases j - i,
{ if i < j { lemma_offs_skip(s, i, j - 1, v); lemma_offs_step(s, j - 1, v); assert(s[j - 1].key.rk() != v); } }
/// <[T]>::sort_by_key with the key itself: stable
#[verifier::external_body]
pub fn sort_entries<K: Key, F: Fn(&NodeItem<K>) -> K>(v: &mut Vec<NodeItem<K>>, f: F)
    requires forall|x: &NodeItem<K>| f.requires((x,)), forall|x: &NodeItem<K>, k: K| f.ensures((x,), k) ==> k.rk() == x.key.rk(),
    ensures final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> #[trigger] final(v)@[i].key.rk() <= #[trigger] final(v)@[j].key.rk(),
        forall|w: int| #[trigger] offs(final(v)@, w) == offs(old(v)@, w),
{ unimplemented!() }
#[verifier::external_body]
pub fn to_vec<K: Key>(s: &[NodeItem<K>]) -> (r: Vec<NodeItem<K>>) ensures r@ == s@ { unimplemented!() }
impl<K: Key> Entry<K> {
    /// derived Clone
    #[verifier::external_body]
    pub fn copy_of(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

%%item static_btree/stree.rs const PAYLOAD_TAG
%%item static_btree/stree.rs const PAYLOAD_MASK

pub open spec fn tagged(off: u64) -> bool { off & (1u64 << 63) != 0 }
pub open spec fn rel(off: u64) -> int { (off & !(1u64 << 63)) as int }
/// what a leaf offset stands for
pub open spec fn resolve(payload: Seq<u8>, off: u64) -> Seq<u64> { if tagged(off) { pay(payload, rel(off)) } else { seq![off] } }
pub open spec fn off_ok(payload: Seq<u8>, off: u64) -> bool { tagged(off) ==> pay_fits(payload, rel(off)) }
/// lists of offsets are stored one after the other
pub open spec fn pays_apart(payload: Seq<u8>, x: u64, y: u64) -> bool { tagged(x) && tagged(y) ==> rel(x) + 4 + 8 * pay_len(payload, rel(x)) <= rel(y) }

#[verifier::opaque]
pub open spec fn leaves_ok<K: Key>(leaves: Seq<NodeItem<K>>, payload: Seq<u8>, s: Seq<NodeItem<K>>) -> bool {
    &&& forall|a: int, c: int| 0 <= a < c < leaves.len() ==> (#[trigger] leaves[a]).key.rk() < (#[trigger] leaves[c]).key.rk()
    &&& forall|a: int| 0 <= a < leaves.len() ==> off_ok(payload, (#[trigger] leaves[a]).offset) && resolve(payload, leaves[a].offset) == offs(s, leaves[a].key.rk())
    &&& forall|k: int| 0 <= k < s.len() ==> has_key(leaves, (#[trigger] s[k]).key.rk())
    &&& forall|a: int, c: int| 0 <= a < c < leaves.len() ==> pays_apart(payload, (#[trigger] leaves[a]).offset, (#[trigger] leaves[c]).offset)
    &&& s.len() == 0 ==> leaves.len() == 0
    &&& s.len() > 0 ==> forall|a: int| 0 <= a < leaves.len() ==> (#[trigger] leaves[a]).key.rk() <= s.last().key.rk()
}
pub open spec fn has_key<K: Key>(leaves: Seq<NodeItem<K>>, v: int) -> bool { exists|a: int| 0 <= a < leaves.len() && (#[trigger] leaves[a]).key.rk() == v }
pub proof fn lemma_bits(x: u64)
    requires x < 0x8000_0000_0000_0000,
    ensures !tagged(x), tagged((1u64 << 63) | x), rel((1u64 << 63) | x) == x,
{
    assert(x & (1u64 << 63) == 0) by (bit_vector) requires x < 0x8000_0000_0000_0000;
    assert(((1u64 << 63) | x) & (1u64 << 63) != 0) by (bit_vector);
    assert(((1u64 << 63) | x) & !(1u64 << 63) == x) by (bit_vector) requires x < 0x8000_0000_0000_0000;
}
/// one more key: its run of entries is s[i..j]
pub proof fn lemma_leaf_step<K: Key>(leaves: Seq<NodeItem<K>>, payload: Seq<u8>, payload2: Seq<u8>, s: Seq<NodeItem<K>>, i: int, j: int, nl: NodeItem<K>)
    requires 0 <= i < j <= s.len(), leaves_ok(leaves, payload, s.take(i)), payload.len() <= payload2.len(), payload2.take(payload.len() as int) == payload,
        forall|a: int, c: int| 0 <= a < c < s.len() ==> #[trigger] s[a].key.rk() <= #[trigger] s[c].key.rk(),
        i > 0 ==> s[i - 1].key.rk() < s[i].key.rk(),
        forall|k: int| i <= k < j ==> (#[trigger] s[k]).key.rk() == nl.key.rk(),
        off_ok(payload2, nl.offset), resolve(payload2, nl.offset) == offs(s.take(j), nl.key.rk()), tagged(nl.offset) ==> rel(nl.offset) >= payload.len(),
    ensures leaves_ok(leaves.push(nl), payload2, s.take(j)),
{
    reveal(leaves_ok);
    let l2 = leaves.push(nl);
    assert(s[i].key.rk() == nl.key.rk());
    if i > 0 { assert(s.take(i).last() == s[i - 1]); }
    assert forall|a: int| 0 <= a < leaves.len() implies (#[trigger] leaves[a]).key.rk() < nl.key.rk() by {}
    assert forall|a: int| 0 <= a < l2.len() implies off_ok(payload2, (#[trigger] l2[a]).offset) && resolve(payload2, l2[a].offset) == offs(s.take(j), l2[a].key.rk()) by {
        if a < leaves.len() {
            assert(l2[a] == leaves[a]);
            if tagged(leaves[a].offset) { lemma_pay_grow(payload, payload2, rel(leaves[a].offset)); }
            lemma_offs_skip(s, i, j, leaves[a].key.rk());
        }
    }
    assert forall|a: int, c: int| 0 <= a < c < l2.len() implies pays_apart(payload2, (#[trigger] l2[a]).offset, (#[trigger] l2[c]).offset) by {
        assert(l2[a] == leaves[a]);
        if tagged(leaves[a].offset) {
            lemma_pay_grow(payload, payload2, rel(leaves[a].offset));
            assert(pay(payload2, rel(leaves[a].offset)).len() == pay(payload, rel(leaves[a].offset)).len());
            if c < leaves.len() { assert(l2[c] == leaves[c]); assert(pays_apart(payload, leaves[a].offset, leaves[c].offset)); }
        }
    }
    assert forall|k: int| 0 <= k < s.take(j).len() implies has_key(l2, (#[trigger] s.take(j)[k]).key.rk()) by {
        if k < i {
            assert(s.take(i)[k] == s[k]); assert(s.take(j)[k] == s[k]);
            assert(has_key(leaves, s.take(i)[k].key.rk()));
            let a = choose|a: int| 0 <= a < leaves.len() && (#[trigger] leaves[a]).key.rk() == s.take(i)[k].key.rk();
            assert(l2[a] == leaves[a]);
        } else { assert(s.take(j)[k] == s[k]); assert(l2[leaves.len() as int].key.rk() == s[k].key.rk()); }
    }
    assert(s.take(j).last() == s[j - 1]);
}

/// an index: nodes, levels and payload section
pub ghost struct Tree<K: Key> { pub node_items: Seq<Entry<K>>, pub level_bounds: Seq<Range<usize>>, pub num_leaf_nodes: int, pub branching_factor: int, pub payload_data: Seq<u8>, pub init: bool }
impl<K: Key> Stree<K> {
    pub open spec fn tree(&self) -> Tree<K> {
        Tree { node_items: self.node_items@, level_bounds: self.level_bounds@, num_leaf_nodes: self.num_leaf_nodes as int, branching_factor: self.branching_factor as int, payload_data: self.payload_data@, init: self.payload_initialized }
    }
}
/// a finished tree
#[verifier::opaque]
pub open spec fn tree_ok<K: Key>(t: Tree<K>) -> bool {
    let lb = t.level_bounds; let items = t.node_items;
    &&& levels_ok(lb, t.num_leaf_nodes, t.branching_factor)
    &&& items.len() == lb[0].end && ascending(items, lb)
    &&& inner_ok(items, lb, t.branching_factor, lb.len() - 1)
    &&& t.init || t.payload_data.len() == 0
    &&& forall|i: int| 0 <= i < t.num_leaf_nodes ==> off_ok(t.payload_data, (#[trigger] leaf(items, lb, i)).offset)
    &&& forall|i: int, j: int| 0 <= i < j < t.num_leaf_nodes ==> pays_apart(t.payload_data, (#[trigger] leaf(items, lb, i)).offset, (#[trigger] leaf(items, lb, j)).offset)
}
/// entries of the i-th distinct key
pub open spec fn group<K: Key>(t: Tree<K>, i: int) -> Seq<u64> { resolve(t.payload_data, leaf(t.node_items, t.level_bounds, i).offset) }
pub open spec fn krk<K: Key>(t: Tree<K>, i: int) -> int { lrk(t.node_items, t.level_bounds, i) }
pub open spec fn has_rank<K: Key>(t: Tree<K>, v: int) -> bool { exists|i: int| 0 <= i < t.num_leaf_nodes && #[trigger] krk(t, i) == v }
/// the distinct keys of the tree are those of the entries, each with the offsets of its entries in their order
pub open spec fn holds_entries<K: Key>(t: Tree<K>, s: Seq<NodeItem<K>>) -> bool {
    &&& forall|i: int| 0 <= i < t.num_leaf_nodes ==> #[trigger] group(t, i) == offs(s, krk(t, i))
    &&& forall|k: int| 0 <= k < s.len() ==> has_rank(t, (#[trigger] s[k]).key.rk())
}

pub proof fn lemma_holds<K: Key>(t: Tree<K>, leaves: Seq<NodeItem<K>>, pd: Seq<u8>, s: Seq<NodeItem<K>>, orig: Seq<NodeItem<K>>)
    requires leaves_ok(leaves, pd, s), t.payload_data == pd, t.num_leaf_nodes == leaves.len(), s.to_multiset() == orig.to_multiset(),
        forall|w: int| #[trigger] offs(s, w) == offs(orig, w),
        forall|a: int| 0 <= a < leaves.len() ==> #[trigger] leaf(t.node_items, t.level_bounds, a) == leaves[a],
        levels_ok(t.level_bounds, t.num_leaf_nodes, t.branching_factor), t.node_items.len() == t.level_bounds[0].end, ascending(t.node_items, t.level_bounds),
        inner_ok(t.node_items, t.level_bounds, t.branching_factor, t.level_bounds.len() - 1), t.init,
    ensures holds_entries(t, orig), tree_ok(t),
{
    reveal(leaves_ok); reveal(tree_ok);
    s.to_multiset_ensures(); orig.to_multiset_ensures();
    assert forall|k: int| 0 <= k < orig.len() implies has_rank(t, (#[trigger] orig[k]).key.rk()) by {
        assert(orig.to_multiset().count(orig[k]) > 0); assert(s.contains(orig[k]));
        let m = choose|m: int| 0 <= m < s.len() && s[m] == orig[k];
        assert(has_key(leaves, s[m].key.rk()));
        let a = choose|a: int| 0 <= a < leaves.len() && (#[trigger] leaves[a]).key.rk() == s[m].key.rk();
        assert(leaf(t.node_items, t.level_bounds, a) == leaves[a]);
        assert(krk(t, a) == orig[k].key.rk());
    }
}
pub proof fn lemma_levels0(lb: Seq<Range<usize>>, n: int, b: int)
    requires levels_ok(lb, n, b),
    ensures lb[0].end - lb[0].start == n,
{ assert(lb[0].start < lb[0].end); }

// ---- searching
pub open spec fn onum(o: Ordering) -> int { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }
/// <[T]>::binary_search_by
#[verifier::external_body]
pub fn bsearch<T, F: Fn(&T) -> Ordering>(s: &[T], f: F) -> (r: std::result::Result<usize, usize>)
    requires forall|x: &T| f.requires((x,)),
        forall|i: int, j: int, oi: Ordering, oj: Ordering| 0 <= i < j < s@.len() && #[trigger] f.ensures((&s@[i],), oi) && #[trigger] f.ensures((&s@[j],), oj) ==> onum(oi) <= onum(oj),
    ensures match r {
        Ok(k) => k < s@.len() && f.ensures((&s@[k as int],), Ordering::Equal),
        Err(k) => k <= s@.len() && (forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] s@[i],), Ordering::Less)) && (forall|i: int| k <= i < s@.len() ==> f.ensures((&#[trigger] s@[i],), Ordering::Greater)),
    },
{ unimplemented!() }

/// every leaf left of the chunk g of level l is below rank v, every one right of it above (not below, unless strict)
#[verifier::opaque]
pub open spec fn located<K: Key>(t: Tree<K>, l: int, g: int, v: int, strict: bool) -> bool {
    let b = t.branching_factor;
    &&& 0 <= g && g * (b - 1) < cnt(t.level_bounds, l) && 0 <= l < t.level_bounds.len()
    &&& forall|i: int| 0 <= i < g * span(b, l) && i < t.num_leaf_nodes ==> #[trigger] krk(t, i) < v
    &&& forall|i: int| (g + 1) * span(b, l) <= i < t.num_leaf_nodes && 0 <= i ==> if strict { #[trigger] krk(t, i) > v } else { #[trigger] krk(t, i) >= v }
}
pub open spec fn node_at<K: Key>(t: Tree<K>, l: int, g: int) -> int { t.level_bounds[l].start + g * (t.branching_factor - 1) }
pub open spec fn node_len<K: Key>(t: Tree<K>, l: int, g: int) -> int {
    if node_at(t, l, g) + (t.branching_factor - 1) <= t.level_bounds[l].end { t.branching_factor - 1 } else { t.level_bounds[l].end - node_at(t, l, g) }
}
/// item k of node g of level l
pub proof fn lemma_entry<K: Key>(t: Tree<K>, l: int, g: int, k: int)
    requires tree_ok(t), 1 <= l < t.level_bounds.len(), 0 <= g, 0 <= k < t.branching_factor - 1, g * (t.branching_factor - 1) + k < cnt(t.level_bounds, l),
    ensures ({ let b = t.branching_factor; let it = t.node_items[node_at(t, l, g) + k]; let c = g * b + k;
        &&& it.offset == node_at(t, l - 1, c) && 0 <= c && c * (b - 1) < cnt(t.level_bounds, l - 1)
        &&& it.key.rk() == sep(t.node_items, t.level_bounds, (c + 1) * span(b, l - 1))
        &&& (c + 1) * (b - 1) < cnt(t.level_bounds, l - 1) <==> (c + 1) * span(b, l - 1) < t.num_leaf_nodes
        &&& c * span(b, l - 1) < t.num_leaf_nodes && 0 <= c * span(b, l - 1)
        &&& (c + 1) * span(b, l - 1) == c * span(b, l - 1) + span(b, l - 1) && (c + 1) * (b - 1) == c * (b - 1) + (b - 1)
        &&& it.key.rk() <= K::top()
    }),
{
    reveal(tree_ok); reveal(inner_ok);
    let b = t.branching_factor; let lb = t.level_bounds; let n = t.num_leaf_nodes;
    let r = g * (b - 1) + k;
    assert(g * (b - 1) >= 0) by (nonlinear_arith) requires g >= 0, b >= 2;
    assert(item_ok(t.node_items, lb, b, l, r));
    assert(r == (b - 1) * g + k) by (nonlinear_arith) requires r == g * (b - 1) + k;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r, b - 1, g, k);
    let c = g * b + k;
    lemma_child(lb, b, n, l, r);
    lemma_chunk(lb, b, n, l - 1, c); lemma_chunk(lb, b, n, l - 1, c + 1);
    assert((c + 1) * span(b, l - 1) == c * span(b, l - 1) + span(b, l - 1)) by (nonlinear_arith);
    assert((c + 1) * (b - 1) == c * (b - 1) + (b - 1)) by (nonlinear_arith);
    K::bounds(&t.node_items[node_at(t, l, g) + k].key);
}
/// keys of a node ascend, strictly but for the greatest key
pub proof fn lemma_node_sorted<K: Key>(t: Tree<K>, l: int, g: int, i: int, j: int)
    requires tree_ok(t), 0 <= l < t.level_bounds.len(), 0 <= g, 0 <= i < j < node_len(t, l, g),
    ensures t.node_items[node_at(t, l, g) + i].key.rk() <= t.node_items[node_at(t, l, g) + j].key.rk(),
{
    reveal(tree_ok);
    let b = t.branching_factor;
    assert(g * (b - 1) >= 0) by (nonlinear_arith) requires g >= 0, b >= 2;
    assert(t.level_bounds[l].start < t.level_bounds[l].end);
    if l == 0 {
        let x = g * (b - 1);
        assert(lrk(t.node_items, t.level_bounds, x + i) < lrk(t.node_items, t.level_bounds, x + j));
    } else {
        lemma_entry(t, l, g, i); lemma_entry(t, l, g, j);
        let sp = span(b, l - 1);
        lemma_pw(b, l - 1);
        assert((g * b + i + 1) * sp < (g * b + j + 1) * sp) by (nonlinear_arith) requires i < j, sp >= 1;
        assert((g * b + i + 1) * sp >= 0) by (nonlinear_arith) requires i >= 0, sp >= 1, g >= 0, b >= 2;
        let x = (g * b + i + 1) * sp; let y = (g * b + j + 1) * sp;
        if x < t.num_leaf_nodes { K::bounds(&leaf(t.node_items, t.level_bounds, x).key); }
        if y < t.num_leaf_nodes { assert(lrk(t.node_items, t.level_bounds, x) < lrk(t.node_items, t.level_bounds, y)); }
    }
}
/// from node g of level l to child j (0..=len) of it
pub proof fn lemma_descend<K: Key>(t: Tree<K>, l: int, g: int, j: int, v: int, strict: bool)
    requires tree_ok(t), 1 <= l < t.level_bounds.len(), located(t, l, g, v, strict), 0 <= j <= node_len(t, l, g),
        ({ let b = t.branching_factor; let c = g * b + j; let at = node_at(t, l, g);
        &&& j > 0 ==> c * (b - 1) < cnt(t.level_bounds, l - 1) && t.node_items[at + j - 1].key.rk() <= v
        &&& j < node_len(t, l, g) ==> (c + 1) * (b - 1) >= cnt(t.level_bounds, l - 1) || t.node_items[at + j].key.rk() > v || !strict && t.node_items[at + j].key.rk() == v
        }),
    ensures located(t, l - 1, g * t.branching_factor + j, v, strict),
{
    reveal(tree_ok); reveal(located); reveal(exact_result);
    let b = t.branching_factor; let lb = t.level_bounds; let n = t.num_leaf_nodes; let c = g * b + j; let sp = span(b, l - 1); let len = node_len(t, l, g);
    assert(g * b >= 0) by (nonlinear_arith) requires g >= 0, b >= 2;
    assert(g * (b - 1) >= 0) by (nonlinear_arith) requires g >= 0, b >= 2;
    lemma_pw(b, l - 1); lemma_span(b, l);
    lemma_chunk(lb, b, n, l - 1, c); lemma_chunk(lb, b, n, l - 1, c + 1);
    assert(lb[l].start < lb[l].end);
    assert((c + 1) * sp == c * sp + sp) by (nonlinear_arith);
    assert(g * span(b, l) == (g * b) * sp) by (nonlinear_arith) requires span(b, l) == b * sp;
    assert((g + 1) * span(b, l) == (g * b) * sp + b * sp) by (nonlinear_arith) requires span(b, l) == b * sp;
    // left
    if j == 0 {
        lemma_entry(t, l, g, 0);
        assert(c * sp == g * span(b, l));
    } else {
        lemma_entry(t, l, g, j - 1);
        assert(lrk(t.node_items, lb, c * sp) <= v);
        assert forall|i: int| 0 <= i < c * sp && i < n implies #[trigger] krk(t, i) < v by { assert(lrk(t.node_items, lb, i) < lrk(t.node_items, lb, c * sp)); }
    }
    // right
    if j < len {
        lemma_entry(t, l, g, j);
        let x = (c + 1) * sp;
        assert forall|i: int| x <= i < n && 0 <= i implies if strict { #[trigger] krk(t, i) > v } else { #[trigger] krk(t, i) >= v } by {
            assert((c + 1) * (b - 1) < cnt(lb, l - 1));
            if i > x { assert(lrk(t.node_items, lb, x) < lrk(t.node_items, lb, i)); }
        }
    } else if len == b - 1 {
        assert((c + 1) * sp == (g * b) * sp + b * sp) by (nonlinear_arith) requires c + 1 == g * b + b;
    } else {
        // the last node of the level: no further chunk
        let m = cnt(lb, l - 1);
        assert(lb[l - 1].start < lb[l - 1].end);
        assert(cnt(lb, l - 1 + 1) == cdiv(m, b));
        lemma_cdiv(m, b);
        assert(cdiv(m, b) == g * (b - 1) + len);
        assert((g * (b - 1) + len) * b <= (c + 1) * (b - 1)) by (nonlinear_arith) requires c == g * b + len, len <= b - 1, b >= 2, g >= 0;
        assert((c + 1) * sp >= n);
    }
}
pub open spec fn item_res<K: Key>(t: Tree<K>, i: int) -> Seq<SearchResultItem> { Seq::new(group(t, i).len(), |k: int| SearchResultItem { offset: group(t, i)[k] as usize, index: i as usize }) }
#[verifier::opaque]
pub open spec fn exact_result<K: Key>(t: Tree<K>, v: int, r: Seq<SearchResultItem>) -> bool {
    &&& forall|i: int| 0 <= i < t.num_leaf_nodes && #[trigger] krk(t, i) == v ==> r == item_res(t, i)
    &&& !has_rank(t, v) ==> r == Seq::<SearchResultItem>::empty()
}
#[verifier::external_body]
pub fn slice_from<'a>(v: &'a Vec<u8>, from: usize) -> (r: &'a [u8])
    requires from <= v@.len(),
    ensures r@ == v@.subrange(from as int, v@.len() as int),
{ &v[from..] }
#[verifier::external_body]
pub fn slice_of<'a, T>(v: &'a Vec<T>, from: usize, to: usize) -> (r: &'a [T])
    requires from <= to <= v@.len(),
    ensures r@ == v@.subrange(from as int, to as int),
{ &v[from..to] }
pub proof fn lemma_pay_shift(d: Seq<u8>, p: int)
    requires pay_fits(d, p),
    ensures pay_fits(d.subrange(p, d.len() as int), 0), pay(d.subrange(p, d.len() as int), 0) == pay(d, p),
{
    let e = d.subrange(p, d.len() as int);
    assert(e.subrange(0, 4) =~= d.subrange(p, p + 4));
    assert forall|i: int| 0 <= i < pay_len(d, p) implies pay_at(e, 0, i) == pay_at(d, p, i) by { assert(e.subrange(4 + 8 * i, 12 + 8 * i) =~= d.subrange(p + 4 + 8 * i, p + 12 + 8 * i)); }
    assert(pay(e, 0) =~= pay(d, p));
}
proof fn lemma_mask(off: u64)
    ensures (off & PAYLOAD_TAG != 0) == tagged(off), (off & PAYLOAD_MASK) as int == rel(off),
{
    assert(PAYLOAD_TAG == 1u64 << 63);
    assert(PAYLOAD_MASK == !(1u64 << 63));
}

pub proof fn lemma_top<K: Key>(t: Tree<K>, v: int, strict: bool)
    requires tree_ok(t),
    ensures located(t, t.level_bounds.len() - 1, 0, v, strict), node_at(t, t.level_bounds.len() - 1, 0) == 0,
{
    reveal(tree_ok); reveal(located); reveal(exact_result);
    let b = t.branching_factor; let lb = t.level_bounds; let n = t.num_leaf_nodes; let l = lb.len() - 1;
    assert(lb[l].start < lb[l].end);
    lemma_pw(b, l); lemma_chunk(lb, b, n, l, 0); lemma_chunk(lb, b, n, l, 1);
    assert(0 * (b - 1) == 0 && 0 * span(b, l) == 0 && 1 * span(b, l) == span(b, l) && 1 * (b - 1) == b - 1) by (nonlinear_arith);
}
pub proof fn lemma_node<K: Key>(t: Tree<K>, l: int, g: int)
    requires tree_ok(t), 0 <= l < t.level_bounds.len(), 0 <= g, g * (t.branching_factor - 1) < cnt(t.level_bounds, l),
    ensures t.level_bounds[l].start <= node_at(t, l, g) < t.level_bounds[l].end, t.level_bounds[l].end <= t.node_items.len(), 0 < node_len(t, l, g) < t.branching_factor,
{
    reveal(tree_ok);
    let b = t.branching_factor; let lb = t.level_bounds;
    assert(g * (b - 1) >= 0) by (nonlinear_arith) requires g >= 0, b >= 2;
    assert(lb[l].start < lb[l].end);
    if l > 0 { lemma_levels(lb, t.num_leaf_nodes, b, 0, l); assert(lb[0].start < lb[0].end); }
}
pub proof fn lemma_sib(c: int, b: int)
    ensures (c + 1) * (b - 1) == c * (b - 1) + (b - 1),
{ assert((c + 1) * (b - 1) == c * (b - 1) + (b - 1)) by (nonlinear_arith); }
/// the key of item j equals the searched one and its chunk has no right neighbour
pub proof fn lemma_own<K: Key>(t: Tree<K>, l: int, g: int, j: int, v: int, strict: bool)
    requires tree_ok(t), 1 <= l < t.level_bounds.len(), located(t, l, g, v, strict), 0 <= j < node_len(t, l, g), t.node_items[node_at(t, l, g) + j].key.rk() == v,
        strict ==> (g * t.branching_factor + j + 1) * (t.branching_factor - 1) >= cnt(t.level_bounds, l - 1),
    ensures located(t, l - 1, g * t.branching_factor + j, v, strict),
{
    lemma_loc(t, l, g, v, strict);
    lemma_entry(t, l, g, j);
    if j > 0 { lemma_entry(t, l, g, j - 1); lemma_node_sorted(t, l, g, j - 1, j); }
    lemma_descend(t, l, g, j, v, strict);
}
/// the searched key is above every key of the node
pub proof fn lemma_last<K: Key>(t: Tree<K>, l: int, g: int, v: int)
    requires tree_ok(t), 1 <= l < t.level_bounds.len(), 0 <= g, g * (t.branching_factor - 1) < cnt(t.level_bounds, l), v <= K::top(),
        t.node_items[node_at(t, l, g) + node_len(t, l, g) - 1].key.rk() < v,
    ensures (g * t.branching_factor + node_len(t, l, g)) * (t.branching_factor - 1) < cnt(t.level_bounds, l - 1),
{
    lemma_node(t, l, g);
    let len = node_len(t, l, g); let b = t.branching_factor;
    lemma_entry(t, l, g, len - 1); lemma_shape(t);
    let c = g * b + (len - 1);
    assert(t.node_items[node_at(t, l, g) + (len - 1)].key.rk() < v);
    assert((c + 1) * span(b, l - 1) < t.num_leaf_nodes);
    assert((c + 1) * (b - 1) < cnt(t.level_bounds, l - 1));
    assert((g * b + (len - 1) + 1) * (b - 1) == (g * b + len) * (b - 1)) by (nonlinear_arith);
    assert((g * b + (len - 1) + 1) * span(b, l - 1) == (g * b + len) * span(b, l - 1)) by (nonlinear_arith);
}
/// the key of item j equals the searched one and its chunk has a right neighbour
pub proof fn lemma_right<K: Key>(t: Tree<K>, l: int, g: int, j: int, v: int)
    requires tree_ok(t), 1 <= l < t.level_bounds.len(), located(t, l, g, v, true), 0 <= j < node_len(t, l, g), t.node_items[node_at(t, l, g) + j].key.rk() == v,
        (g * t.branching_factor + j + 1) * (t.branching_factor - 1) < cnt(t.level_bounds, l - 1),
    ensures located(t, l - 1, g * t.branching_factor + j + 1, v, true),
{
    reveal(tree_ok);
    lemma_loc(t, l, g, v, true);
    let b = t.branching_factor; let len = node_len(t, l, g); let c = g * b + j; let sp = span(b, l - 1);
    lemma_entry(t, l, g, j);
    if j + 1 < len {
        lemma_entry(t, l, g, j + 1);
        lemma_pw(b, l - 1);
        assert((g * b + (j + 1) + 1) * sp == (c + 1) * sp + sp) by (nonlinear_arith) requires c == g * b + j;
        let x = (c + 1) * sp; let y = (g * b + (j + 1) + 1) * sp;
        if y < t.num_leaf_nodes { assert(lrk(t.node_items, t.level_bounds, x) < lrk(t.node_items, t.level_bounds, y)); }
        else { assert((c + 1 + 1) * (b - 1) >= cnt(t.level_bounds, l - 1)) by { assert(g * b + (j + 1) + 1 == c + 1 + 1); } }
    }
    assert(g * b + (j + 1) == c + 1);
    lemma_descend(t, l, g, j + 1, v, true);
}
pub proof fn lemma_loc<K: Key>(t: Tree<K>, l: int, g: int, v: int, strict: bool)
    requires tree_ok(t), located(t, l, g, v, strict),
    ensures 0 <= g, g * (t.branching_factor - 1) < cnt(t.level_bounds, l), 0 <= l < t.level_bounds.len(),
        t.level_bounds[l].start <= node_at(t, l, g) < t.level_bounds[l].end, t.level_bounds[l].end <= t.node_items.len(), 0 < node_len(t, l, g) < t.branching_factor,
        l == 0 ==> t.level_bounds[0].start == node_at(t, 0, 0),
{ reveal(located); lemma_node(t, l, g); assert(0 * (t.branching_factor - 1) == 0); }
pub proof fn lemma_shape<K: Key>(t: Tree<K>)
    requires tree_ok(t),
    ensures levels_ok(t.level_bounds, t.num_leaf_nodes, t.branching_factor), t.node_items.len() == t.level_bounds[0].end,
        t.branching_factor >= 2, t.level_bounds.len() >= 2,
{ reveal(tree_ok); }
/// what a leaf offset needs to be resolved
pub proof fn lemma_leaf_off<K: Key>(t: Tree<K>, i: int)
    requires tree_ok(t), 0 <= i < t.num_leaf_nodes,
    ensures ({ let off = leaf(t.node_items, t.level_bounds, i).offset; let d = t.payload_data;
        &&& off_ok(d, off) && group(t, i) == resolve(d, off)
        &&& tagged(off) ==> t.init && rel(off) <= d.len() && pay_fits(d.subrange(rel(off), d.len() as int), 0) && group(t, i) == pay(d.subrange(rel(off), d.len() as int), 0) }),
{ reveal(tree_ok); let off = leaf(t.node_items, t.level_bounds, i).offset; if tagged(off) { lemma_pay_shift(t.payload_data, rel(off)); } }
pub proof fn lemma_exact<K: Key>(t: Tree<K>, v: int, li: int)
    requires tree_ok(t), 0 <= li < t.num_leaf_nodes, krk(t, li) == v,
    ensures exact_result(t, v, item_res(t, li)),
{
    reveal(exact_result);
    reveal(tree_ok);
    assert(has_rank(t, v));
    assert forall|i: int| 0 <= i < t.num_leaf_nodes && #[trigger] krk(t, i) == v implies i == li by {
        if i < li { assert(lrk(t.node_items, t.level_bounds, i) < lrk(t.node_items, t.level_bounds, li)); }
        if li < i { assert(lrk(t.node_items, t.level_bounds, li) < lrk(t.node_items, t.level_bounds, i)); }
    }
}
pub proof fn lemma_nowhere<K: Key>(t: Tree<K>, g: int, v: int, items: Seq<NodeItem<K>>)
    requires tree_ok(t), located(t, 0, g, v, true), items == t.node_items.subrange(node_at(t, 0, g), node_at(t, 0, g) + node_len(t, 0, g)),
        forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).key.rk() != v,
    ensures exact_result(t, v, Seq::empty()), !has_rank(t, v),
{
    reveal(tree_ok); reveal(located); reveal(exact_result);
    lemma_node(t, 0, g);
    let b = t.branching_factor;
    lemma_pw(b, 0);
    assert(g * (b - 1) >= 0) by (nonlinear_arith) requires g >= 0, b >= 2;
    lemma_sib(g, b);
    assert forall|i: int| 0 <= i < t.num_leaf_nodes implies #[trigger] krk(t, i) != v by {
        if g * (b - 1) <= i < (g + 1) * (b - 1) { assert(items[i - g * (b - 1)].key.rk() != v); }
    }
}

// ---- the steps of a descent
#[verifier::opaque]
pub open spec fn kid(b: int, g: int, j: int) -> int { g * b + j }
#[verifier::opaque]
pub open spec fn at<K: Key>(t: Tree<K>, l: int, g: int) -> int { node_at(t, l, g) }
pub open spec fn len_at<K: Key>(t: Tree<K>, l: int, g: int) -> int {
    if at(t, l, g) + (t.branching_factor - 1) <= t.level_bounds[l].end { t.branching_factor - 1 } else { t.level_bounds[l].end - at(t, l, g) }
}
pub open spec fn ik<K: Key>(t: Tree<K>, i: int) -> int { t.node_items[i].key.rk() }
pub proof fn step_start<K: Key>(t: Tree<K>, v: int, strict: bool)
    requires tree_ok(t),
    ensures located(t, t.level_bounds.len() - 1, 0, v, strict), at(t, t.level_bounds.len() - 1, 0) == 0,
{ reveal(at); lemma_top(t, v, strict); }
pub proof fn step_node<K: Key>(t: Tree<K>, l: int, g: int, v: int, strict: bool)
    requires tree_ok(t), located(t, l, g, v, strict),
    ensures 0 <= l < t.level_bounds.len(), t.level_bounds[l].start <= at(t, l, g) < t.level_bounds[l].end, t.level_bounds[l].end <= t.node_items.len(), 0 < len_at(t, l, g) < t.branching_factor,
        forall|i: int, j: int| 0 <= i < j < len_at(t, l, g) ==> #[trigger] ik(t, at(t, l, g) + i) <= #[trigger] ik(t, at(t, l, g) + j),
{
    reveal(at); lemma_loc(t, l, g, v, strict);
    assert forall|i: int, j: int| 0 <= i < j < len_at(t, l, g) implies #[trigger] ik(t, at(t, l, g) + i) <= #[trigger] ik(t, at(t, l, g) + j) by { lemma_node_sorted(t, l, g, i, j); }
}
pub proof fn step_kid<K: Key>(t: Tree<K>, l: int, g: int, j: int, v: int, strict: bool)
    requires tree_ok(t), located(t, l, g, v, strict), 1 <= l, 0 <= j < len_at(t, l, g),
    ensures t.node_items[at(t, l, g) + j].offset == at(t, l - 1, kid(t.branching_factor, g, j)),
        at(t, l - 1, kid(t.branching_factor, g, j + 1)) == at(t, l - 1, kid(t.branching_factor, g, j)) + (t.branching_factor - 1),
        t.level_bounds[l - 1].start <= at(t, l - 1, kid(t.branching_factor, g, j)) < t.level_bounds[l - 1].end <= t.node_items.len(),
{
    reveal(at); reveal(kid); lemma_loc(t, l, g, v, strict); lemma_entry(t, l, g, j); lemma_sib(g * t.branching_factor + j, t.branching_factor);
    assert(g * t.branching_factor + j + 1 == g * t.branching_factor + (j + 1));
    lemma_node(t, l - 1, g * t.branching_factor + j);
}
pub proof fn step_right<K: Key>(t: Tree<K>, l: int, g: int, j: int, v: int)
    requires tree_ok(t), located(t, l, g, v, true), 1 <= l, 0 <= j < len_at(t, l, g), ik(t, at(t, l, g) + j) == v,
        at(t, l - 1, kid(t.branching_factor, g, j + 1)) < t.level_bounds[l - 1].end,
    ensures located(t, l - 1, kid(t.branching_factor, g, j + 1), v, true),
{
    reveal(at); reveal(kid); lemma_loc(t, l, g, v, true);
    assert(g * t.branching_factor + j + 1 == g * t.branching_factor + (j + 1));
    lemma_right(t, l, g, j, v);
}
pub proof fn step_own<K: Key>(t: Tree<K>, l: int, g: int, j: int, v: int, strict: bool)
    requires tree_ok(t), located(t, l, g, v, strict), 1 <= l, 0 <= j < len_at(t, l, g), ik(t, at(t, l, g) + j) == v,
        strict ==> at(t, l - 1, kid(t.branching_factor, g, j + 1)) >= t.level_bounds[l - 1].end,
    ensures located(t, l - 1, kid(t.branching_factor, g, j), v, strict),
{
    reveal(at); reveal(kid); lemma_loc(t, l, g, v, strict);
    assert(g * t.branching_factor + j + 1 == g * t.branching_factor + (j + 1));
    lemma_own(t, l, g, j, v, strict);
}
pub proof fn step_between<K: Key>(t: Tree<K>, l: int, g: int, j: int, v: int, strict: bool)
    requires tree_ok(t), located(t, l, g, v, strict), 1 <= l, 0 <= j < len_at(t, l, g), ik(t, at(t, l, g) + j) > v, j > 0 ==> ik(t, at(t, l, g) + (j - 1)) < v,
    ensures located(t, l - 1, kid(t.branching_factor, g, j), v, strict),
{
    reveal(at); reveal(kid); lemma_loc(t, l, g, v, strict); lemma_entry(t, l, g, j);
    if j > 0 { lemma_entry(t, l, g, j - 1); }
    lemma_descend(t, l, g, j, v, strict);
}
pub proof fn step_below<K: Key>(t: Tree<K>, l: int, g: int, v: int, strict: bool)
    requires tree_ok(t), located(t, l, g, v, strict), 1 <= l, v <= K::top(), ik(t, at(t, l, g) + (len_at(t, l, g) - 1)) < v,
    ensures located(t, l - 1, kid(t.branching_factor, g, len_at(t, l, g)), v, strict),
{
    reveal(at); reveal(kid); lemma_loc(t, l, g, v, strict); lemma_entry(t, l, g, len_at(t, l, g) - 1); lemma_last(t, l, g, v);
    lemma_descend(t, l, g, len_at(t, l, g), v, strict);
}
pub proof fn step_leaf<K: Key>(t: Tree<K>, g: int, k: int, v: int)
    requires tree_ok(t), located(t, 0, g, v, true), 0 <= k < len_at(t, 0, g), ik(t, at(t, 0, g) + k) == v,
    ensures ({ let li = at(t, 0, g) - t.level_bounds[0].start + k; let off = t.node_items[at(t, 0, g) + k].offset; let d = t.payload_data;
        &&& 0 <= li < t.num_leaf_nodes && exact_result(t, v, item_res(t, li))
        &&& group(t, li) == resolve(d, off)
        &&& off_ok(d, off)
        &&& tagged(off) ==> t.init && 0 <= rel(off) <= d.len() && pay_fits(d.subrange(rel(off), d.len() as int), 0) && group(t, li) == pay(d.subrange(rel(off), d.len() as int), 0) }),
{
    reveal(at); lemma_loc(t, 0, g, v, true); lemma_shape(t);
    let li = at(t, 0, g) - t.level_bounds[0].start + k;
    assert(leaf(t.node_items, t.level_bounds, li) == t.node_items[at(t, 0, g) + k]);
    lemma_leaf_off(t, li); lemma_exact(t, v, li);
}
pub proof fn step_nowhere<K: Key>(t: Tree<K>, g: int, v: int)
    requires tree_ok(t), located(t, 0, g, v, true), forall|i: int| 0 <= i < len_at(t, 0, g) ==> #[trigger] ik(t, at(t, 0, g) + i) != v,
    ensures exact_result(t, v, Seq::empty()),
{
    reveal(at); lemma_loc(t, 0, g, v, true);
    let items = t.node_items.subrange(node_at(t, 0, g), node_at(t, 0, g) + node_len(t, 0, g));
    assert forall|i: int| 0 <= i < items.len() implies (#[trigger] items[i]).key.rk() != v by { assert(ik(t, at(t, 0, g) + i) != v); }
    lemma_nowhere(t, g, v, items);
}
pub open spec fn sgn(a: int, c: int) -> int { if a < c { -1 } else if a == c { 0 } else { 1 } }

// ---- ranges
/// p is a leaf chunk at or before which every key below v lies, and after which no key below v lies
pub open spec fn part_ok<K: Key>(t: Tree<K>, v: int, p: int) -> bool { exists|g: int| part_at(t, v, p, g) }
pub open spec fn part_at<K: Key>(t: Tree<K>, v: int, p: int, g: int) -> bool { #[trigger] located(t, 0, g, v, false) && p == at(t, 0, g) }
/// the items with keys lo..=hi among the leaves i..j, in key order
pub open spec fn span_res<K: Key>(t: Tree<K>, lo: int, hi: int, i: int, j: int) -> Seq<SearchResultItem>
    decreases j - i,
{ if j <= i { Seq::empty() } else { span_res(t, lo, hi, i, j - 1) + if lo <= krk(t, j - 1) <= hi { item_res(t, j - 1) } else { Seq::empty() } } }
/// the answer to a range query: every item with lo <= key <= hi, in key order; only the key hi itself may be left out, and only
/// if it starts a leaf node other than the first (the recorded finding range-upper-separator)
#[verifier::opaque]
pub open spec fn range_result<K: Key>(t: Tree<K>, lo: int, hi: int, r: Seq<SearchResultItem>) -> bool {
    if lo > hi { r == Seq::<SearchResultItem>::empty() } else if lo == hi { exact_result(t, lo, r) } else { exists|e: int| range_upto(t, lo, hi, r, e) }
}
pub open spec fn range_upto<K: Key>(t: Tree<K>, lo: int, hi: int, r: Seq<SearchResultItem>, e: int) -> bool {
    &&& 0 <= e <= t.num_leaf_nodes && r == #[trigger] span_res(t, lo, hi, 0, e)
    &&& forall|i: int| e <= i < t.num_leaf_nodes ==> #[trigger] krk(t, i) > hi || krk(t, i) == hi && i == e && separator(t, i)
}
/// leaf i is the first of a leaf node other than the first
pub open spec fn separator<K: Key>(t: Tree<K>, i: int) -> bool { i > 0 && exists|g: int| i == #[trigger] (g * (t.branching_factor - 1)) }
pub proof fn lemma_span_skip<K: Key>(t: Tree<K>, lo: int, hi: int, s: int, e: int)
    requires 0 <= s <= t.num_leaf_nodes, 0 <= e, forall|i: int| 0 <= i < s ==> #[trigger] krk(t, i) < lo,
    ensures span_res(t, lo, hi, s, e) == span_res(t, lo, hi, 0, e),
    decreases e,
{
    if e <= s { lemma_span_none(t, lo, hi, e); }
    else { lemma_span_skip(t, lo, hi, s, e - 1); }
}
pub proof fn lemma_span_none<K: Key>(t: Tree<K>, lo: int, hi: int, e: int)
    requires forall|i: int| 0 <= i < e ==> #[trigger] krk(t, i) < lo,
    ensures span_res(t, lo, hi, 0, e) == Seq::<SearchResultItem>::empty(),
    decreases e,
{ if e > 0 { lemma_span_none(t, lo, hi, e - 1); assert(krk(t, e - 1) < lo); assert(Seq::<SearchResultItem>::empty() + Seq::<SearchResultItem>::empty() =~= Seq::<SearchResultItem>::empty()); } }
/// once nothing below lo is left of s and only hi itself, as a separator, may follow e
pub proof fn lemma_range<K: Key>(t: Tree<K>, lo: int, hi: int, pl: int, pu: int, s: int, e: int, r: Seq<SearchResultItem>)
    requires tree_ok(t), lo < hi, part_ok(t, lo, pl), part_ok(t, hi, pu), s == pl - t.level_bounds[0].start,
        e == spec_min_int(pu + t.branching_factor - 1, t.level_bounds[0].end as int) - t.level_bounds[0].start,
        r == span_res(t, lo, hi, s, if e >= s { e } else { s }),
    ensures range_result(t, lo, hi, r),
{
    reveal(range_result); reveal(at); lemma_shape(t);
    let lb = t.level_bounds; let b = t.branching_factor; let n = t.num_leaf_nodes;
    let g = choose|g: int| part_at(t, lo, pl, g);
    let h = choose|h: int| part_at(t, hi, pu, h);
    lemma_loc(t, 0, g, lo, false); lemma_loc(t, 0, h, hi, false);
    reveal(located); lemma_pw(b, 0); lemma_sib(g, b); lemma_sib(h, b);
    assert(g * (b - 1) >= 0) by (nonlinear_arith) requires g >= 0, b >= 2;
    assert(h * (b - 1) >= 0) by (nonlinear_arith) requires h >= 0, b >= 2;
    assert(s == g * (b - 1));
    assert forall|i: int| 0 <= i < s implies #[trigger] krk(t, i) < lo by {}
    let e2 = if e >= s { e } else { s };
    lemma_span_skip(t, lo, hi, s, e2);
    reveal(tree_ok);
    assert forall|i: int| e2 <= i < n implies #[trigger] krk(t, i) > hi || krk(t, i) == hi && i == e2 && separator(t, i) by {
        assert(e == (h + 1) * (b - 1));
        assert(krk(t, i) >= hi);
        if krk(t, i) == hi {
            if e < i { assert(lrk(t.node_items, lb, e) < lrk(t.node_items, lb, i)); assert(krk(t, e) >= hi); }
            assert(i == (h + 1) * (b - 1));
            assert((h + 1) * (b - 1) > 0) by (nonlinear_arith) requires h >= 0, b >= 2;
        }
    }
    assert(range_upto(t, lo, hi, r, e2));
}
pub open spec fn spec_min_int(a: int, b: int) -> int { if a <= b { a } else { b } }
/// what the scan does at leaf i
proof fn lemma_scan<K: Key>(t: Tree<K>, i: int)
    requires tree_ok(t), 0 <= i < t.num_leaf_nodes,
    ensures ({ let a = t.level_bounds[0].start + i; let off = t.node_items[a].offset; let d = t.payload_data;
        &&& krk(t, i) == t.node_items[a].key.rk() && t.level_bounds[0].start <= a < t.node_items.len()
        &&& (off & PAYLOAD_TAG != 0) == tagged(off) && (off & PAYLOAD_MASK) as int == rel(off)
        &&& group(t, i) == resolve(d, off)
        &&& off_ok(d, off)
        &&& tagged(off) ==> t.init && 0 <= rel(off) <= d.len() && pay_fits(d.subrange(rel(off), d.len() as int), 0) && group(t, i) == pay(d.subrange(rel(off), d.len() as int), 0) }),
{ lemma_shape(t); lemma_leaf_off(t, i); lemma_mask(leaf(t.node_items, t.level_bounds, i).offset); }

// ---- bytes of an index
/// Entry::<K>::SERIALIZED_SIZE
pub open spec fn es<K: Key>() -> int { K::sz() + 8 }
%%constfn static_btree/entry.rs "impl<K: Key> Entry<K>" OFFSET_SIZE as offset_size
%%sub `mem::size_of::<Offset>()` => `std::mem::size_of::<Offset>()`
    ensures r == 8,
%%done
%%constfn static_btree/entry.rs "impl<K: Key> Entry<K>" SERIALIZED_SIZE as ser_size
%%sub `K::SERIALIZED_SIZE` => `K::ser_size()`
%%sub `Self::OFFSET_SIZE` => `Self::offset_size()`
    ensures r == es::<K>(),
%%done
pub open spec fn enc_item<K: Key>(e: Entry<K>) -> Seq<u8> { e.key.enc() + enc64(e.offset) }
pub open spec fn enc_items<K: Key>(s: Seq<Entry<K>>) -> Seq<u8>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { enc_items(s.drop_last()) + enc_item(s.last()) } }
pub open spec fn enc_tree<K: Key>(t: Tree<K>) -> Seq<u8> { enc_items(t.node_items) + if t.init { t.payload_data } else { Seq::empty() } }
/// the item stored at position p
pub open spec fn dec_item<K: Key>(d: Seq<u8>, p: int) -> Entry<K> { Entry { key: K::dec(d.subrange(p, p + K::sz())), offset: dec64(d.subrange(p + K::sz(), p + es::<K>())) } }
pub open spec fn bounds_of(n: int, b: int) -> Seq<Range<usize>> { choose|lb: Seq<Range<usize>>| levels_ok(lb, n, b) }
/// the index stored at position p
#[verifier::opaque]
pub open spec fn dec_tree<K: Key>(d: Seq<u8>, p: int, n: int, b: int) -> Tree<K> {
    Tree { node_items: Seq::new(total(n, b) as nat, |i: int| dec_item(d, p + i * es::<K>())), level_bounds: bounds_of(n, b), num_leaf_nodes: n, branching_factor: b,
        payload_data: d.subrange(p + total(n, b) * es::<K>(), d.len() as int), init: true }
}
#[verifier::opaque]
pub open spec fn readable<K: Key>(d: Seq<u8>, p: int, n: int, b: int) -> bool {
    &&& 0 <= p && p + total(n, b) * es::<K>() <= d.len() <= 0x7000_0000_0000_0000 && 1 <= n <= BOUND() && 2 <= b
    &&& forall|i: int| 0 <= i < total(n, b) ==> #[trigger] key_ok::<K>(d, p + i * es::<K>())
}
pub open spec fn key_ok<K: Key>(d: Seq<u8>, p: int) -> bool { K::dec_ok(d.subrange(p, p + K::sz())) }
pub proof fn lemma_bounds_unique(x: Seq<Range<usize>>, y: Seq<Range<usize>>, n: int, b: int)
    requires levels_ok(x, n, b), levels_ok(y, n, b),
    ensures x =~= y,
{
    let m = if x.len() < y.len() { x.len() as int } else { y.len() as int };
    lemma_bounds_prefix(x, y, n, b, m - 1);
    if x.len() < y.len() { assert(y[m - 1].start == 0); assert(y[m - 1 + 1].end == y[m - 1].start); assert(y[m].start < y[m].end); }
    if y.len() < x.len() { assert(x[m - 1].start == 0); assert(x[m - 1 + 1].end == x[m - 1].start); assert(x[m].start < x[m].end); }
    assert forall|l: int| 0 <= l < m implies x[l] == y[l] by { lemma_bounds_prefix(x, y, n, b, l); }
}
pub proof fn lemma_bounds_prefix(x: Seq<Range<usize>>, y: Seq<Range<usize>>, n: int, b: int, l: int)
    requires levels_ok(x, n, b), levels_ok(y, n, b), 0 <= l < x.len(), l < y.len(),
    ensures x[l].start == y[l].start, x[l].end == y[l].end,
    decreases l,
{
    assert(x[l].start < x[l].end); assert(y[l].start < y[l].end);
    if l > 0 { lemma_bounds_prefix(x, y, n, b, l - 1); assert(x[l - 1].start == y[l - 1].start); assert(cnt(x, l - 1 + 1) == cdiv(cnt(x, l - 1), b)); assert(cnt(y, l - 1 + 1) == cdiv(cnt(y, l - 1), b)); assert(x[l - 1 + 1].end == x[l - 1].start); assert(y[l - 1 + 1].end == y[l - 1].start); }
}
pub proof fn lemma_bounds_of(lb: Seq<Range<usize>>, n: int, b: int)
    requires levels_ok(lb, n, b),
    ensures bounds_of(n, b) == lb,
{ lemma_bounds_unique(lb, bounds_of(n, b), n, b); }
pub proof fn lemma_items<K: Key>(s: Seq<Entry<K>>, i: int)
    requires 0 <= i < s.len(),
    ensures enc_items(s).len() == s.len() * es::<K>(), i * es::<K>() + es::<K>() <= enc_items(s).len(), 0 <= i * es::<K>(),
        enc_items(s).subrange(i * es::<K>(), i * es::<K>() + es::<K>()) == enc_item(s[i]), enc_item(s[i]).len() == es::<K>(),
    decreases s.len(),
{
    lemma_items_len(s); lemma_items_len(s.drop_last()); K::coding(&s[i].key); K::coding(&s.last().key); K::size();
    let z = es::<K>(); let e = enc_items(s.drop_last());
    assert((i + 1) * z == i * z + z) by (nonlinear_arith);
    assert(i * z >= 0) by (nonlinear_arith) requires i >= 0, z >= 0;
    assert((i + 1) * z <= s.len() * z) by (nonlinear_arith) requires i + 1 <= s.len(), z >= 0;
    if i < s.len() - 1 {
        lemma_items(s.drop_last(), i);
        assert(enc_items(s).subrange(i * z, i * z + z) =~= e.subrange(i * z, i * z + z));
    } else { assert(enc_items(s).subrange(i * z, i * z + z) =~= enc_item(s.last())); }
}
pub proof fn lemma_items_len<K: Key>(s: Seq<Entry<K>>)
    ensures enc_items(s).len() == s.len() * es::<K>(),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_items_len(s.drop_last()); K::coding(&s.last().key);
        let z = es::<K>(); let k = s.len() as int;
        assert(k * z == (k - 1) * z + z) by (nonlinear_arith);
    } else { assert(0 * es::<K>() == 0) by (nonlinear_arith); }
}
/// an item written inside d is read there again
pub proof fn lemma_dec_item<K: Key>(d: Seq<u8>, p: int, s: Seq<Entry<K>>, i: int)
    requires 0 <= i < s.len(), 0 <= p, p + enc_items(s).len() <= d.len(), d.subrange(p, p + enc_items(s).len()) == enc_items(s),
    ensures key_ok::<K>(d, p + i * es::<K>()), dec_item::<K>(d, p + i * es::<K>()) == s[i],
{
    let z = es::<K>(); let e = enc_items(s); let q = p + i * z; let c = enc_item(s[i]);
    lemma_items(s, i); K::coding(&s[i].key); K::size();
    assert(e.subrange(i * z, i * z + z) =~= d.subrange(q, q + z));
    assert(c.subrange(0, K::sz()) =~= s[i].key.enc());
    assert(d.subrange(q, q + K::sz()) =~= c.subrange(0, K::sz()));
    assert(c.subrange(K::sz(), z) =~= enc64(s[i].offset));
    assert(d.subrange(q + K::sz(), q + z) =~= c.subrange(K::sz(), z));
}
pub proof fn lemma_transfer<K: Key>(t: Tree<K>, u: Tree<K>)
    requires tree_ok(t), u.node_items == t.node_items, u.level_bounds == t.level_bounds, u.num_leaf_nodes == t.num_leaf_nodes, u.branching_factor == t.branching_factor, u.init,
        t.payload_data.len() <= u.payload_data.len(), u.payload_data.take(t.payload_data.len() as int) == t.payload_data,
    ensures tree_ok(u), forall|i: int| 0 <= i < t.num_leaf_nodes ==> #[trigger] group(u, i) == group(t, i),
{
    reveal(tree_ok);
    let pd = t.payload_data;
    assert forall|i: int| 0 <= i < t.num_leaf_nodes implies #[trigger] group(u, i) == group(t, i) by { lemma_transfer1(t, u, i); }
    assert forall|i: int| 0 <= i < u.num_leaf_nodes implies off_ok(u.payload_data, (#[trigger] leaf(u.node_items, u.level_bounds, i)).offset) by { lemma_transfer1(t, u, i); }
    assert forall|i: int, j: int| 0 <= i < j < u.num_leaf_nodes implies pays_apart(u.payload_data, (#[trigger] leaf(u.node_items, u.level_bounds, i)).offset, (#[trigger] leaf(u.node_items, u.level_bounds, j)).offset) by {
        let x = leaf(u.node_items, u.level_bounds, i).offset; let y = leaf(u.node_items, u.level_bounds, j).offset;
        assert(pays_apart(pd, leaf(t.node_items, t.level_bounds, i).offset, leaf(t.node_items, t.level_bounds, j).offset));
        assert(off_ok(pd, leaf(t.node_items, t.level_bounds, i).offset));
        if tagged(x) { lemma_pay_grow(pd, u.payload_data, rel(x)); assert(pay(u.payload_data, rel(x)).len() == pay(pd, rel(x)).len()); }
    }
}
proof fn lemma_transfer1<K: Key>(t: Tree<K>, u: Tree<K>, i: int)
    requires tree_ok(t), u.node_items == t.node_items, u.level_bounds == t.level_bounds,
        t.payload_data.len() <= u.payload_data.len(), u.payload_data.take(t.payload_data.len() as int) == t.payload_data, 0 <= i < t.num_leaf_nodes,
    ensures group(u, i) == group(t, i), off_ok(u.payload_data, leaf(u.node_items, u.level_bounds, i).offset),
{
    lemma_leaf_off(t, i);
    let off = leaf(t.node_items, t.level_bounds, i).offset;
    if tagged(off) { lemma_pay_grow(t.payload_data, u.payload_data, rel(off)); }
}
/// an index written at p is the index stored there, whatever follows it
pub proof fn lemma_stored<K: Key>(d: Seq<u8>, p: int, t: Tree<K>)
    requires tree_ok(t), 0 <= p, p + enc_tree(t).len() <= d.len() <= 0x7000_0000_0000_0000, d.subrange(p, p + enc_tree(t).len()) == enc_tree(t), t.num_leaf_nodes <= BOUND(),
    ensures ({ let u = dec_tree::<K>(d, p, t.num_leaf_nodes, t.branching_factor);
        &&& readable::<K>(d, p, t.num_leaf_nodes, t.branching_factor) && tree_ok(u)
        &&& u.node_items == t.node_items && u.level_bounds == t.level_bounds && u.num_leaf_nodes == t.num_leaf_nodes && u.branching_factor == t.branching_factor
        &&& forall|i: int| 0 <= i < t.num_leaf_nodes ==> #[trigger] group(u, i) == group(t, i)
        &&& p + enc_tree(t).len() == d.len() && t.init ==> u.payload_data == t.payload_data
    }),
{
    reveal(dec_tree); reveal(readable);
    let n = t.num_leaf_nodes; let b = t.branching_factor; let z = es::<K>(); let s = t.node_items; let e = enc_items(s); let u = dec_tree::<K>(d, p, n, b);
    lemma_shape(t); lemma_items_len(s); lemma_bounds_of(t.level_bounds, n, b); lemma_upper(n, b);
    assert(s.len() == total(n, b));
    assert(d.subrange(p, p + e.len()) =~= e) by { assert forall|k: int| 0 <= k < e.len() implies d[p + k] == e[k] by { assert(d.subrange(p, p + enc_tree(t).len())[k] == enc_tree(t)[k]); } }
    assert forall|i: int| 0 <= i < total(n, b) implies #[trigger] key_ok::<K>(d, p + i * z) by { lemma_dec_item(d, p, s, i); }
    assert forall|i: int| 0 <= i < total(n, b) implies u.node_items[i] == s[i] by { lemma_dec_item(d, p, s, i); }
    assert(u.node_items =~= s);
    let pd = t.payload_data;
    assert(u.payload_data == d.subrange(p + e.len(), d.len() as int));
    lemma_init(t);
    assert(u.payload_data.take(pd.len() as int) =~= pd) by {
        assert forall|k: int| 0 <= k < pd.len() implies u.payload_data[k] == pd[k] by { assert(d.subrange(p, p + enc_tree(t).len())[e.len() + k] == enc_tree(t)[e.len() + k]); }
    }
    lemma_transfer(t, u);
    if p + enc_tree(t).len() == d.len() && t.init { assert(u.payload_data =~= pd); }
}
proof fn lemma_init<K: Key>(t: Tree<K>) requires tree_ok(t), ensures t.init || t.payload_data.len() == 0 { reveal(tree_ok); }
/// answers depend on the keys and on what they resolve to
pub proof fn lemma_same_answers<K: Key>(t: Tree<K>, u: Tree<K>, v: int, w: int, r: Seq<SearchResultItem>)
    requires u.node_items == t.node_items, u.level_bounds == t.level_bounds, u.num_leaf_nodes == t.num_leaf_nodes, u.branching_factor == t.branching_factor,
        forall|i: int| 0 <= i < t.num_leaf_nodes ==> #[trigger] group(u, i) == group(t, i),
    ensures exact_result(u, v, r) ==> exact_result(t, v, r), range_result(u, v, w, r) ==> range_result(t, v, w, r),
{
    reveal(exact_result); reveal(range_result);
    assert forall|i: int| 0 <= i < t.num_leaf_nodes implies #[trigger] item_res(u, i) == item_res(t, i) && krk(u, i) == krk(t, i) by { assert(group(u, i) == group(t, i)); assert(item_res(u, i) =~= item_res(t, i)); }
    assert forall|x: int| has_rank(u, x) implies has_rank(t, x) by { let i = choose|i: int| 0 <= i < u.num_leaf_nodes && #[trigger] krk(u, i) == x; assert(krk(t, i) == x); }
    assert forall|x: int| has_rank(t, x) implies has_rank(u, x) by { let i = choose|i: int| 0 <= i < t.num_leaf_nodes && #[trigger] krk(t, i) == x; assert(krk(u, i) == x); }
    if exact_result(u, v, r) {
        assert forall|i: int| 0 <= i < t.num_leaf_nodes && #[trigger] krk(t, i) == v implies r == item_res(t, i) by { assert(krk(u, i) == v); assert(item_res(u, i) == item_res(t, i)); }
    }
    if v < w && range_result(u, v, w, r) {
        let e = choose|e: int| range_upto(u, v, w, r, e);
        lemma_same_span(t, u, v, w, 0, e);
        assert forall|i: int| e <= i < t.num_leaf_nodes implies #[trigger] krk(t, i) > w || krk(t, i) == w && i == e && separator(t, i) by { assert(krk(u, i) == krk(t, i)); }
        assert(range_upto(t, v, w, r, e));
    }
}
pub proof fn lemma_same_span<K: Key>(t: Tree<K>, u: Tree<K>, v: int, w: int, i: int, j: int)
    requires u.node_items == t.node_items, u.level_bounds == t.level_bounds, 0 <= i, j <= t.num_leaf_nodes,
        forall|i: int| 0 <= i < t.num_leaf_nodes ==> #[trigger] item_res(u, i) == item_res(t, i),
    ensures span_res(u, v, w, i, j) == span_res(t, v, w, i, j),
    decreases j - i,
{ if i < j { lemma_same_span(t, u, v, w, i, j - 1); assert(item_res(u, j - 1) == item_res(t, j - 1)); assert(krk(u, j - 1) == krk(t, j - 1)); } }

// ---- writing and reading
%%fn static_btree/entry.rs "impl<K: Key> Entry<K>" from_reader
%%ret r
%%sub `reader.read_u64::<LittleEndian>()` => `reader.read_u64()`
%%spec
    requires 0 <= old(reader).pos(),
    ensures final(reader).data() == old(reader).data(),
        r is Ok <==> old(reader).pos() + es::<K>() <= old(reader).data().len() && key_ok::<K>(old(reader).data(), old(reader).pos()),
        r is Ok ==> r->Ok_0 == dec_item::<K>(old(reader).data(), old(reader).pos()) && final(reader).pos() == old(reader).pos() + es::<K>(),
%%done
/// length items from position p on
pub open spec fn items_at<K: Key>(d: Seq<u8>, p: int, k: int) -> bool {
    0 <= p && p + k * es::<K>() <= d.len() && forall|i: int| 0 <= i < k ==> #[trigger] key_ok::<K>(d, p + i * es::<K>())
}
/// what is read at a node of a stored index are its items
pub proof fn lemma_node_items<K: Key>(d: Seq<u8>, p: int, n: int, b: int, from: int, len: int)
    requires readable::<K>(d, p, n, b), 0 <= from, 0 <= len, from + len <= total(n, b),
    ensures items_at::<K>(d, p + from * es::<K>(), len), d.len() <= 0x7000_0000_0000_0000,
        forall|i: int| #![trigger dec_item::<K>(d, p + from * es::<K>() + i * es::<K>())] 0 <= i < len ==> dec_item::<K>(d, p + from * es::<K>() + i * es::<K>()) == dec_tree::<K>(d, p, n, b).node_items[from + i],
{
    reveal(readable); reveal(dec_tree); K::size();
    let z = es::<K>();
    assert(from * z >= 0) by (nonlinear_arith) requires from >= 0, z >= 0;
    assert((from + len) * z == from * z + len * z) by (nonlinear_arith);
    assert((from + len) * z <= total(n, b) * z) by (nonlinear_arith) requires from + len <= total(n, b), z >= 0;
    assert forall|i: int| 0 <= i < len implies #[trigger] key_ok::<K>(d, p + from * z + i * z) by { assert((from + i) * z == from * z + i * z) by (nonlinear_arith); assert(key_ok::<K>(d, p + (from + i) * z)); }
    assert forall|i: int| 0 <= i < len implies #[trigger] dec_item::<K>(d, p + from * z + i * z) == dec_tree::<K>(d, p, n, b).node_items[from + i] by { assert((from + i) * z == from * z + i * z) by (nonlinear_arith); }
}
/// payload lists of a stored index lie at their place in the file
pub proof fn lemma_pay_file<K: Key>(d: Seq<u8>, p: int, n: int, b: int, off: u64)
    requires readable::<K>(d, p, n, b), off_ok(dec_tree::<K>(d, p, n, b).payload_data, off), tagged(off),
    ensures ({ let q = p + total(n, b) * es::<K>(); &&& 0 <= q && pay_fits(d, q + rel(off)) && pay(d, q + rel(off)) == resolve(dec_tree::<K>(d, p, n, b).payload_data, off) && 0 <= rel(off) && q + rel(off) <= d.len() <= 0x7000_0000_0000_0000 }),
{
    reveal(readable); reveal(dec_tree); K::size();
    let q = p + total(n, b) * es::<K>(); let e = d.subrange(q, d.len() as int); let o = rel(off);
    lemma_upper(n, b);
    let tt = total(n, b); let z = es::<K>();
    assert(tt * z >= 0) by (nonlinear_arith) requires tt >= 0, z >= 0;
    assert(e.subrange(o, o + 4) =~= d.subrange(q + o, q + o + 4));
    assert forall|i: int| 0 <= i < pay_len(e, o) implies pay_at(e, o, i) == pay_at(d, q + o, i) by { assert(e.subrange(o + 4 + 8 * i, o + 12 + 8 * i) =~= d.subrange(q + o + 4 + 8 * i, q + o + 12 + 8 * i)); }
    assert(pay(e, o) =~= pay(d, q + o));
}

pub proof fn lemma_dec_shape<K: Key>(d: Seq<u8>, p: int, n: int, b: int)
    requires readable::<K>(d, p, n, b),
    ensures ({ let t = dec_tree::<K>(d, p, n, b); &&& t.num_leaf_nodes == n && t.branching_factor == b && t.init && t.level_bounds == bounds_of(n, b) && t.node_items.len() == total(n, b) }),
        0 <= p && 0 <= total(n, b) * es::<K>() && p + total(n, b) * es::<K>() <= d.len() <= 0x7000_0000_0000_0000, 1 <= n <= BOUND(), 2 <= b, 1 <= total(n, b) <= 3 * BOUND(),
{ reveal(readable); reveal(dec_tree); lemma_upper(n, b); let x = total(n, b); let z = es::<K>(); K::size(); assert(x * z >= 0) by (nonlinear_arith) requires x >= 0, z >= 0; }
pub proof fn lemma_exact_empty<K: Key>(t: Tree<K>, li: int, off: u64, r: Seq<SearchResultItem>, offs: Seq<u64>)
    requires group(t, li) == offs, r.len() == offs.len(), forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]) == (SearchResultItem { offset: offs[k] as usize, index: li as usize }),
    ensures r == item_res(t, li),
{ assert(r =~= item_res(t, li)); }
/// the offsets found are exactly those of the entries with the key, in their order
pub open spec fn answers_key<K: Key>(s: Seq<NodeItem<K>>, v: int, r: Seq<SearchResultItem>) -> bool {
    r.len() == offs(s, v).len() && forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).offset == offs(s, v)[k]
}
pub proof fn lemma_answers<K: Key>(t: Tree<K>, s: Seq<NodeItem<K>>, v: int, r: Seq<SearchResultItem>)
    requires tree_ok(t), holds_entries(t, s), exact_result(t, v, r),
    ensures answers_key(s, v, r),
{
    reveal(exact_result);
    if has_rank(t, v) {
        let i = choose|i: int| 0 <= i < t.num_leaf_nodes && #[trigger] krk(t, i) == v;
        assert(r == item_res(t, i)); assert(group(t, i) == offs(s, krk(t, i)));
    } else {
        assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).key.rk() != v by { assert(has_rank(t, s[k].key.rk())); }
        lemma_offs_none(s, v);
    }
}
/// P04, P05: an index is written, anything may follow; the answers streamed from there are those of the entries
pub proof fn p04_streamed<K: Key>(t: Tree<K>, s: Seq<NodeItem<K>>, d: Seq<u8>, p: int, v: int, r: Seq<SearchResultItem>)
    requires tree_ok(t), holds_entries(t, s), stored(d, p, t), exact_result(dec_tree::<K>(d, p, t.num_leaf_nodes, t.branching_factor), v, r),
    ensures answers_key(s, v, r),
{ lemma_stored(d, p, t); lemma_same_answers(t, dec_tree::<K>(d, p, t.num_leaf_nodes, t.branching_factor), v, v, r); lemma_answers(t, s, v, r); }
pub open spec fn stored<K: Key>(d: Seq<u8>, p: int, t: Tree<K>) -> bool {
    0 <= p && p + enc_tree(t).len() <= d.len() <= 0x7000_0000_0000_0000 && d.subrange(p, p + enc_tree(t).len()) == enc_tree(t) && t.num_leaf_nodes <= BOUND()
}
pub proof fn p05_streamed<K: Key>(t: Tree<K>, s: Seq<NodeItem<K>>, d: Seq<u8>, p: int, v: int, w: int, r: Seq<SearchResultItem>)
    requires tree_ok(t), holds_entries(t, s), stored(d, p, t), range_result(dec_tree::<K>(d, p, t.num_leaf_nodes, t.branching_factor), v, w, r),
    ensures range_result(t, v, w, r),
{ lemma_stored(d, p, t); lemma_same_answers(t, dec_tree::<K>(d, p, t.num_leaf_nodes, t.branching_factor), v, w, r); }
/// P05: in memory, stated on the entries: an entry's offset is in the answer (at the place of its key) iff its key is in range, but for the recorded finding
pub proof fn p05_entries<K: Key>(t: Tree<K>, s: Seq<NodeItem<K>>, lo: int, hi: int, r: Seq<SearchResultItem>)
    requires tree_ok(t), holds_entries(t, s), range_result(t, lo, hi, r), lo < hi,
    ensures exists|e: int| range_upto(t, lo, hi, r, e) && covers(t, s, lo, hi, e),
{
    reveal(range_result);
    let e = choose|e: int| range_upto(t, lo, hi, r, e);
    assert forall|k: int| 0 <= k < s.len() && lo <= (#[trigger] s[k]).key.rk() <= hi implies (exists|i: int| 0 <= i < t.num_leaf_nodes && #[trigger] krk(t, i) == s[k].key.rk() && group(t, i) == offs(s, s[k].key.rk()) && (i < e || i == e && krk(t, i) == hi && separator(t, i))) by {
        assert(has_rank(t, s[k].key.rk()));
        let i = choose|i: int| 0 <= i < t.num_leaf_nodes && #[trigger] krk(t, i) == s[k].key.rk();
        assert(group(t, i) == offs(s, krk(t, i)));
    }
    assert(covers(t, s, lo, hi, e));
}
/// every entry in range belongs to a leaf before e (whose group is listed by span_res), or to the separator leaf e of key hi
pub open spec fn covers<K: Key>(t: Tree<K>, s: Seq<NodeItem<K>>, lo: int, hi: int, e: int) -> bool {
    forall|k: int| 0 <= k < s.len() && lo <= (#[trigger] s[k]).key.rk() <= hi ==> exists|i: int| 0 <= i < t.num_leaf_nodes && #[trigger] krk(t, i) == s[k].key.rk() && group(t, i) == offs(s, s[k].key.rk()) && (i < e || i == e && krk(t, i) == hi && separator(t, i))
}
// ---- P06: the lookups as sets of offsets (the contract assumed in unit query)
pub open spec fn ents<K: Key>(s: Seq<NodeItem<K>>) -> Seq<(int, u64)> { Seq::new(s.len(), |k: int| (s[k].key.rk(), s[k].offset)) }
pub open spec fn offs_of(r: Seq<SearchResultItem>) -> Seq<u64> { Seq::new(r.len(), |i: int| r[i].offset as u64) }
pub proof fn lemma_push_has(q: Seq<u64>, x: u64)
    ensures forall|o: u64| #[trigger] q.push(x).contains(o) <==> q.contains(o) || o == x, q.no_duplicates() && !q.contains(x) ==> q.push(x).no_duplicates(),
{
    let t = q.push(x);
    assert forall|o: u64| #[trigger] t.contains(o) <==> q.contains(o) || o == x by {
        if t.contains(o) { let i = choose|i: int| 0 <= i < t.len() && t[i] == o; if i < q.len() { assert(q[i] == o); } }
        if q.contains(o) { let i = choose|i: int| 0 <= i < q.len() && q[i] == o; assert(t[i] == o); }
        if o == x { assert(t[t.len() - 1] == o); }
    }
}
pub proof fn lemma_offs_set<K: Key>(s: Seq<NodeItem<K>>, v: int)
    ensures exact_set(ents(s), v, offs(s, v)),
    decreases s.len(),
{
    let e = ents(s); let r = offs(s, v);
    if s.len() == 0 { assert(r =~= Seq::<u64>::empty()); }
    else {
        let d = s.drop_last(); let f = ents(d); let q = offs(d, v); let x = s.last();
        lemma_offs_set(d, v);
        assert forall|k: int| 0 <= k < f.len() implies f[k] == e[k] by {}
        let m = s.len() - 1;
        assert forall|o: u64| hit(e, v, v, o) <==> hit(f, v, v, o) || x.key.rk() == v && x.offset == o by {
            if hit(e, v, v, o) { let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).1 == o && v <= e[k].0 <= v; if k < m { assert(f[k].1 == o); } }
            if hit(f, v, v, o) { let k = choose|k: int| 0 <= k < f.len() && (#[trigger] f[k]).1 == o && v <= f[k].0 <= v; assert(e[k].1 == o); }
            if x.key.rk() == v && x.offset == o { assert(e[m].1 == o); }
        }
        lemma_push_has(q, x.offset);
        if distinct(e) {
            assert(distinct(f)) by { assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies (#[trigger] f[i]).1 != (#[trigger] f[j]).1 by { assert(e[i].1 != e[j].1); } }
            if q.contains(x.offset) {
                assert(hit(f, v, v, x.offset));
                let k = choose|k: int| 0 <= k < f.len() && (#[trigger] f[k]).1 == x.offset && v <= f[k].0 <= v;
                assert(e[k].1 == e[m].1);
            }
        }
    }
}
pub proof fn lemma_exact_set<K: Key>(t: Tree<K>, s: Seq<NodeItem<K>>, v: int, r: Seq<SearchResultItem>)
    requires tree_ok(t), holds_entries(t, s), exact_result(t, v, r),
    ensures exact_set(ents(s), v, offs_of(r)),
{
    lemma_answers(t, s, v, r); lemma_offs_set(s, v);
    assert(offs_of(r) =~= offs(s, v));
}
/// some listed leaf has the offset
pub open spec fn listed<K: Key>(t: Tree<K>, s: Seq<NodeItem<K>>, lo: int, hi: int, e: int, o: u64) -> bool {
    exists|i: int| 0 <= i < e && lo <= #[trigger] krk(t, i) <= hi && offs(s, krk(t, i)).contains(o)
}
pub proof fn lemma_span_set<K: Key>(t: Tree<K>, s: Seq<NodeItem<K>>, lo: int, hi: int, e: int)
    requires tree_ok(t), holds_entries(t, s), 0 <= e <= t.num_leaf_nodes,
    ensures
        forall|o: u64| #[trigger] offs_of(span_res(t, lo, hi, 0, e)).contains(o) <==> listed(t, s, lo, hi, e, o),
        distinct(ents(s)) ==> offs_of(span_res(t, lo, hi, 0, e)).no_duplicates(),
    decreases e,
{
    if e == 0 { assert(offs_of(span_res(t, lo, hi, 0, e)) =~= Seq::<u64>::empty()); }
    else {
        let j = e - 1; let v = krk(t, j);
        lemma_span_set(t, s, lo, hi, j);
        lemma_offs_set(s, v);
        let a = offs_of(span_res(t, lo, hi, 0, j)); let b = if lo <= v <= hi { offs(s, v) } else { Seq::<u64>::empty() };
        let c = offs_of(span_res(t, lo, hi, 0, e));
        assert(group(t, j) == offs(s, krk(t, j)));
        assert(c =~= a + b);
        assert forall|o: u64| #[trigger] c.contains(o) <==> a.contains(o) || b.contains(o) by {
            if c.contains(o) { let i = choose|i: int| 0 <= i < c.len() && c[i] == o; if i < a.len() { assert(a[i] == o); } else { assert(b[i - a.len()] == o); } }
            if a.contains(o) { let i = choose|i: int| 0 <= i < a.len() && a[i] == o; assert(c[i] == o); }
            if b.contains(o) { let i = choose|i: int| 0 <= i < b.len() && b[i] == o; assert(c[i + a.len()] == o); }
        }
        assert forall|o: u64| listed(t, s, lo, hi, e, o) <==> listed(t, s, lo, hi, j, o) || b.contains(o) by {
            if b.contains(o) { assert(lo <= krk(t, j) <= hi && offs(s, krk(t, j)).contains(o)); }
        }
        if distinct(ents(s)) {
            assert forall|o: u64| a.contains(o) && b.contains(o) implies false by {
                assert(listed(t, s, lo, hi, j, o));
                let i = choose|i: int| 0 <= i < j && lo <= #[trigger] krk(t, i) <= hi && offs(s, krk(t, i)).contains(o);
                let u = krk(t, i);
                lemma_offs_set(s, u);
                assert(hit(ents(s), u, u, o)); assert(hit(ents(s), v, v, o));
                let k = choose|k: int| 0 <= k < ents(s).len() && (#[trigger] ents(s)[k]).1 == o && u <= ents(s)[k].0 <= u;
                let l = choose|k: int| 0 <= k < ents(s).len() && (#[trigger] ents(s)[k]).1 == o && v <= ents(s)[k].0 <= v;
                assert(k == l);
                lemma_krk_less(t, i, j);
            }
            assert forall|x: int, y: int| 0 <= x < c.len() && 0 <= y < c.len() && x != y implies c[x] != c[y] by {
                if x < a.len() { assert(a.contains(c[x])); } else { assert(b[x - a.len()] == c[x]); assert(b.contains(c[x])); }
                if y < a.len() { assert(a.contains(c[y])); } else { assert(b[y - a.len()] == c[y]); assert(b.contains(c[y])); }
            }
        }
    }
}
pub proof fn lemma_krk_less<K: Key>(t: Tree<K>, i: int, j: int)
    requires tree_ok(t), 0 <= i < j < t.num_leaf_nodes,
    ensures krk(t, i) < krk(t, j),
{ reveal(tree_ok); }
pub proof fn lemma_range_set<K: Key>(t: Tree<K>, s: Seq<NodeItem<K>>, lo: int, hi: int, r: Seq<SearchResultItem>)
    requires tree_ok(t), holds_entries(t, s), range_result(t, lo, hi, r),
    ensures range_set(ents(s), lo, hi, offs_of(r)),
{
    reveal(range_result);
    if lo > hi { assert(offs_of(r) =~= Seq::<u64>::empty()); }
    else if lo == hi { lemma_exact_set(t, s, lo, r); }
    else {
        let e = choose|e: int| range_upto(t, lo, hi, r, e);
        lemma_span_set(t, s, lo, hi, e);
        assert forall|o: u64| #[trigger] offs_of(r).contains(o) implies hit(ents(s), lo, hi, o) by {
            assert(listed(t, s, lo, hi, e, o));
            let i = choose|i: int| 0 <= i < e && lo <= #[trigger] krk(t, i) <= hi && offs(s, krk(t, i)).contains(o);
            let v = krk(t, i);
            lemma_offs_set(s, v);
            assert(hit(ents(s), v, v, o));
            let k = choose|k: int| 0 <= k < ents(s).len() && (#[trigger] ents(s)[k]).1 == o && v <= ents(s)[k].0 <= v;
            assert(ents(s)[k].1 == o);
        }
        assert forall|o: u64| hit(ents(s), lo, hi - 1, o) implies #[trigger] offs_of(r).contains(o) by {
            let k = choose|k: int| 0 <= k < ents(s).len() && (#[trigger] ents(s)[k]).1 == o && lo <= ents(s)[k].0 <= hi - 1;
            let v = s[k].key.rk();
            assert(has_rank(t, s[k].key.rk()));
            let i = choose|i: int| 0 <= i < t.num_leaf_nodes && #[trigger] krk(t, i) == v;
            assert(i < e);
            lemma_offs_set(s, v);
            assert(ents(s)[k].1 == o && v <= ents(s)[k].0 <= v);
            assert(hit(ents(s), v, v, o));
            assert(offs(s, v).contains(o));
            assert(listed(t, s, lo, hi, e, o));
        }
    }
}
