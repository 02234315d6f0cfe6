%%include common.vx
%%include floats.vx
%%include heap.vx
%%include levels.vx
broadcast use {common::group_std, floats::group_floats};

// total number of nodes: n leaves plus every level above them, at least one
pub open spec fn upper_total(n: int, b: int) -> int
    decreases n,
{
    if n < 1 || b < 2 { 0 } else {
        let m = cdiv(n, b);
        if m <= 1 || m >= n { m } else { m + upper_total(m, b) }
    }
}
pub open spec fn total(n: int, b: int) -> int { n + upper_total(n, b) }

pub proof fn lemma_upper(n: int, b: int)
    requires n >= 1, b >= 2,
    ensures 1 <= upper_total(n, b) <= 2 * n,
        n >= 2 ==> upper_total(n, b) <= 2 * n - 2,
        cdiv(n, b) == 1 ==> upper_total(n, b) == 1,
        cdiv(n, b) > 1 ==> upper_total(n, b) == cdiv(n, b) + upper_total(cdiv(n, b), b),
    decreases n,
{
    lemma_cdiv(n, b);
    let m = cdiv(n, b);
    if m > 1 { assert(m < n); lemma_upper(m, b); }
}

pub open spec fn levels_ok(lb: Seq<Range<usize>>, n: int, b: int) -> bool {
    &&& lb.len() >= 2 && b >= 2 && n >= 1
    &&& cnt(lb, 0) == n
    &&& lb[0].end == total(n, b) && lb[0].end <= 3 * BOUND()
    &&& forall|l: int| 0 <= l < lb.len() ==> (#[trigger] lb[l]).start < lb[l].end
    &&& forall|l: int| 0 <= l < lb.len() - 1 ==> lb[l + 1].end == (#[trigger] lb[l]).start && cnt(lb, l + 1) == cdiv(cnt(lb, l), b)
    &&& lb[lb.len() - 1].start == 0 && lb[lb.len() - 1].end == 1
}

%%item packed_rtree/mod.rs pub struct NodeItem
%%item packed_rtree/mod.rs pub enum Query
%%item packed_rtree/mod.rs pub struct SearchResultItem
%%item packed_rtree/mod.rs pub struct PackedRTree
pub struct Error {}
global size_of NodeItem == 40;
global size_of usize == 8;

pub open spec fn BOUND() -> int { 0x0100_0000_0000_0000 }

%%fn packed_rtree/mod.rs "impl PackedRTree" generate_level_bounds
%%ret r
%%loops 3
%%spec
    requires node_size >= 2, 1 <= num_items <= BOUND(),
    ensures levels_ok(r@, num_items as int, node_size as int),
%%pre `assert!(num_items <= usize::MAX - ((num_items / node_size as usize) * 2)`
    proof {
        assert(0 <= num_items as int / node_size as int <= num_items as int) by (nonlinear_arith) requires node_size >= 1, num_items >= 0;
    }
%%before 0
    proof { lemma_upper(num_items as int, node_size as int); lemma_cdiv(num_items as int, node_size as int); }
    let ghost bb = node_size as int;
    proof { assert(sum_from(level_num_nodes@, 1) == 0); assert(sum_from(level_num_nodes@, 0) == n + sum_from(level_num_nodes@, 1)); }
%%loop 0
    invariant_except_break
        level_num_nodes.len() == 1 ==> n == num_items,
        level_num_nodes.len() > 1 ==> n > 1,
        num_nodes + upper_total(n as int, bb) == total(num_items as int, bb),
    invariant
        bb == node_size as int, bb >= 2, 1 <= num_items <= BOUND(), 1 <= n <= num_items,
        level_num_nodes.len() >= 1, level_num_nodes@[0] == num_items,
        level_num_nodes@[level_num_nodes.len() - 1] == n,
        forall|k: int| 0 <= k < level_num_nodes.len() ==> 1 <= #[trigger] level_num_nodes@[k],
        forall|k: int| 0 <= k < level_num_nodes.len() - 1 ==> level_num_nodes@[k + 1] == cdiv(#[trigger] level_num_nodes@[k] as int, bb),
        num_nodes == sum_from(level_num_nodes@, 0),
        total(num_items as int, bb) <= 3 * BOUND(),
    ensures n == 1, level_num_nodes.len() >= 2, num_nodes == total(num_items as int, bb),
    decreases n + (if level_num_nodes.len() == 1 { 1int } else { 0 })
%%loopstart 0
    proof { lemma_cdiv(n as int, bb); lemma_upper(n as int, bb); lemma_upper(cdiv(n as int, bb), bb); }
    let ghost pre = level_num_nodes@;
%%loopend 0
%%after `level_num_nodes.push(n)` 1
    ; proof { lemma_sum_push(pre, n, 0); assert(level_num_nodes@ == pre.push(n)); }
%%before 1
    let ghost sizes = level_num_nodes@;
%%sub? `n -= size;` => `n -= *size;`
%%iter 1 it
%%loop 1
    invariant
        sizes == level_num_nodes@,
        num_nodes == sum_from(sizes, 0),
        n == sum_from(sizes, it.index()),
        it.index() <= sizes.len(),
        level_offsets.len() == it.index(),
        forall|k: int| 0 <= k < it.index() ==> #[trigger] level_offsets@[k] == sum_from(sizes, k + 1),
%%loopstart 1
    proof { lemma_sum_nonneg(sizes, it.index() + 1); assert(*size == sizes[it.index() as int]); assert(sum_from(sizes, it.index()) == sizes[it.index() as int] + sum_from(sizes, it.index() + 1)); }
%%loop 2
    invariant
        sizes == level_num_nodes@, level_offsets.len() == sizes.len(),
        forall|k: int| 0 <= k < sizes.len() ==> #[trigger] level_offsets@[k] == sum_from(sizes, k + 1),
        sum_from(sizes, 0) <= 3 * BOUND(),
        bounds_upto(level_bounds, sizes, i as int),
%%loopstart 2
    proof { lemma_sum_mono(sizes, 0, i as int); assert(sum_from(sizes, i as int) == sizes[i as int] + sum_from(sizes, i + 1)); }
%%end
    proof {
        let L = sizes.len() as int;
        assert(sum_from(sizes, L) == 0);
        assert(sum_from(sizes, L - 1) == sizes[L - 1] + sum_from(sizes, L));
        assert forall|l: int| 0 <= l < L implies (#[trigger] level_bounds@[l]).start < level_bounds@[l].end by {}
        assert forall|l: int| 0 <= l < L - 1 implies level_bounds@[l + 1].end == (#[trigger] level_bounds@[l]).start
            && cnt(level_bounds@, l + 1) == cdiv(cnt(level_bounds@, l), bb) by {
            assert(sizes[l + 1] == cdiv(sizes[l] as int, bb));
        }
    }
%%done

%%fn packed_rtree/mod.rs "impl PackedRTree" index_size
%%ret r
%%loops 1
%%spec
    requires node_size >= 2, 1 <= num_items <= BOUND(),
    ensures r == total(num_items as int, node_size as int) * 40,
%%before 0
    proof { lemma_upper(num_items as int, node_size as int); lemma_cdiv(num_items as int, node_size as int); }
%%loop 0
    invariant_except_break
        num_nodes == num_items ==> n == num_items, num_nodes != num_items ==> n > 1,
        num_nodes + upper_total(n as int, node_size as int) == total(num_items as int, node_size as int),
    invariant
        num_nodes >= num_items,
        node_size_min == node_size as usize, node_size >= 2, 1 <= num_items <= BOUND(), 1 <= n <= num_items,
        total(num_items as int, node_size as int) <= 3 * BOUND(),
    ensures num_nodes == total(num_items as int, node_size as int),
    decreases n + (if num_nodes == num_items { 1int } else { 0 })
%%loopstart 0
    proof { lemma_cdiv(n as int, node_size as int); lemma_upper(n as int, node_size as int); lemma_upper(cdiv(n as int, node_size as int), node_size as int); }
%%done


// ---- boxes
pub open spec fn ok(n: NodeItem) -> bool { fle(n.min_x, n.min_x) && fle(n.min_y, n.min_y) && fle(n.max_x, n.max_x) && fle(n.max_y, n.max_y) }
pub open spec fn covers(a: NodeItem, b: NodeItem) -> bool {
    fle(a.min_x, b.min_x) && fle(a.min_y, b.min_y) && fle(b.max_x, a.max_x) && fle(b.max_y, a.max_y)
}
pub open spec fn isect(q: NodeItem, n: NodeItem) -> bool {
    !flt(q.max_x, n.min_x) && !flt(q.max_y, n.min_y) && !flt(n.max_x, q.min_x) && !flt(n.max_y, q.min_y)
}
pub open spec fn has_point(n: NodeItem, x: f64, y: f64) -> bool {
    fle(n.min_x, x) && fle(x, n.max_x) && fle(n.min_y, y) && fle(y, n.max_y)
}
pub proof fn lemma_isect_mono(q: NodeItem, a: NodeItem, b: NodeItem)
    requires covers(a, b), isect(q, b),
    ensures isect(q, a),
{
    axiom_flt_fle(q.max_x, a.min_x, b.min_x); axiom_flt_fle(q.max_y, a.min_y, b.min_y);
    axiom_flt_fle(b.max_x, a.max_x, q.min_x); axiom_flt_fle(b.max_y, a.max_y, q.min_y);
}
pub proof fn lemma_point_mono(a: NodeItem, b: NodeItem, x: f64, y: f64)
    requires covers(a, b), has_point(b, x, y),
    ensures has_point(a, x, y),
{
    broadcast use axiom_fle_trans;
}

%%fn packed_rtree/mod.rs "impl NodeItem" create
%%external
%%ret r
%%spec
    ensures ok(r), r.offset == offset, r.min_x == top(), r.min_y == top(), r.max_x == bot(), r.max_y == bot(),
%%done
%%fn packed_rtree/mod.rs "impl NodeItem" bounds
%%ret r
%%spec
    ensures r.min_x == min_x, r.min_y == min_y, r.max_x == max_x, r.max_y == max_y, r.offset == 0,
%%done
%%fn packed_rtree/mod.rs "impl NodeItem" expand
%%spec
    requires ok(*old(self)), ok(*r),
    ensures ok(*final(self)), final(self).offset == old(self).offset, covers(*final(self), *old(self)), covers(*final(self), *r),
        final(self).min_x == old(self).min_x || final(self).min_x == r.min_x, final(self).min_y == old(self).min_y || final(self).min_y == r.min_y,
        final(self).max_x == old(self).max_x || final(self).max_x == r.max_x, final(self).max_y == old(self).max_y || final(self).max_y == r.max_y,
%%start
    broadcast use axiom_fle_trans;
%%done
%%fn packed_rtree/mod.rs "impl NodeItem" intersects
%%ret b
%%spec
    ensures b == isect(*self, *r),
%%done
%%fn packed_rtree/mod.rs "impl NodeItem" contains_point
%%ret b
%%spec
    ensures b == has_point(*self, x, y),
%%done

// ---- every node lists its first child and covers all of its children
pub open spec fn level_built(items: Seq<NodeItem>, lb: Seq<Range<usize>>, b: int, l: int) -> bool {
    &&& forall|r: int| 0 <= r < cnt(lb, l + 1) ==> (#[trigger] items[lb[l + 1].start + r]).offset == lb[l].start + r * b
    &&& forall|c: int| 0 <= c < cnt(lb, l) ==> covers(items[lb[l + 1].start + c / b], #[trigger] items[lb[l].start + c])
}
/// p is no larger than the nodes from..to need
pub open spec fn has_x0(s: Seq<NodeItem>, from: int, to: int, v: f64) -> bool { exists|k: int| from <= k < to && (#[trigger] s[k]).min_x == v }
pub open spec fn has_y0(s: Seq<NodeItem>, from: int, to: int, v: f64) -> bool { exists|k: int| from <= k < to && (#[trigger] s[k]).min_y == v }
pub open spec fn has_x1(s: Seq<NodeItem>, from: int, to: int, v: f64) -> bool { exists|k: int| from <= k < to && (#[trigger] s[k]).max_x == v }
pub open spec fn has_y1(s: Seq<NodeItem>, from: int, to: int, v: f64) -> bool { exists|k: int| from <= k < to && (#[trigger] s[k]).max_y == v }
pub open spec fn tight(p: NodeItem, s: Seq<NodeItem>, from: int, to: int) -> bool {
    has_x0(s, from, to, p.min_x) && has_y0(s, from, to, p.min_y) && has_x1(s, from, to, p.max_x) && has_y1(s, from, to, p.max_y)
}
/// while children are added: each side is a child's or still that of the empty box
pub open spec fn tight_upto(p: NodeItem, s: Seq<NodeItem>, from: int, to: int) -> bool {
    (p.min_x == top() || has_x0(s, from, to, p.min_x)) && (p.min_y == top() || has_y0(s, from, to, p.min_y)) && (p.max_x == bot() || has_x1(s, from, to, p.max_x)) && (p.max_y == bot() || has_y1(s, from, to, p.max_y))
}
/// the largest and least number: nothing else lies beyond them (checked over all f64 by Kani)
pub uninterp spec fn top() -> f64;
pub uninterp spec fn bot() -> f64;
pub axiom fn axiom_top(x: f64) ensures fle(top(), x) ==> x == top(), fle(x, bot()) ==> x == bot();
pub proof fn lemma_tight_step(p: NodeItem, q: NodeItem, s: Seq<NodeItem>, from: int, to: int)
    requires tight_upto(p, s, from, to), from <= to < s.len(), q.min_x == p.min_x || q.min_x == s[to].min_x, q.min_y == p.min_y || q.min_y == s[to].min_y, q.max_x == p.max_x || q.max_x == s[to].max_x, q.max_y == p.max_y || q.max_y == s[to].max_y,
    ensures tight_upto(q, s, from, to + 1),
{
    if has_x0(s, from, to, p.min_x) { let k = choose|k: int| from <= k < to && (#[trigger] s[k]).min_x == p.min_x; assert(has_x0(s, from, to + 1, s[k].min_x)); }
    if has_y0(s, from, to, p.min_y) { let k = choose|k: int| from <= k < to && (#[trigger] s[k]).min_y == p.min_y; assert(has_y0(s, from, to + 1, s[k].min_y)); }
    if has_x1(s, from, to, p.max_x) { let k = choose|k: int| from <= k < to && (#[trigger] s[k]).max_x == p.max_x; assert(has_x1(s, from, to + 1, s[k].max_x)); }
    if has_y1(s, from, to, p.max_y) { let k = choose|k: int| from <= k < to && (#[trigger] s[k]).max_y == p.max_y; assert(has_y1(s, from, to + 1, s[k].max_y)); }
    let k = to;
    assert(has_x0(s, from, to + 1, s[k].min_x)); assert(has_y0(s, from, to + 1, s[k].min_y)); assert(has_x1(s, from, to + 1, s[k].max_x)); assert(has_y1(s, from, to + 1, s[k].max_y));
}
pub proof fn lemma_tight_end(p: NodeItem, s: Seq<NodeItem>, from: int, to: int)
    requires tight_upto(p, s, from, to), from < to <= s.len(), forall|k: int| from <= k < to ==> covers(p, #[trigger] s[k]),
    ensures tight(p, s, from, to),
{
    let c = s[from];
    assert(covers(p, c));
    axiom_top(c.min_x); axiom_top(c.min_y); axiom_top(c.max_x); axiom_top(c.max_y);
    assert(has_x0(s, from, to, c.min_x)); assert(has_y0(s, from, to, c.min_y)); assert(has_x1(s, from, to, c.max_x)); assert(has_y1(s, from, to, c.max_y));
}
pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
#[verifier::opaque]
pub open spec fn level_tight(items: Seq<NodeItem>, lb: Seq<Range<usize>>, b: int, l: int) -> bool {
    forall|r: int| 0 <= r < cnt(lb, l + 1) ==> tight(#[trigger] items[lb[l + 1].start + r], items, lb[l].start + r * b, least(lb[l].start + (r + 1) * b, lb[l].end as int))
}
proof fn lemma_tight_same(p: NodeItem, x: Seq<NodeItem>, y: Seq<NodeItem>, from: int, to: int)
    requires tight(p, x, from, to), forall|k: int| from <= k < to ==> #[trigger] x[k] == y[k],
    ensures tight(p, y, from, to),
{
    let a = choose|k: int| from <= k < to && (#[trigger] x[k]).min_x == p.min_x; assert(y[a] == x[a]);
    let c = choose|k: int| from <= k < to && (#[trigger] x[k]).min_y == p.min_y; assert(y[c] == x[c]);
    let e = choose|k: int| from <= k < to && (#[trigger] x[k]).max_x == p.max_x; assert(y[e] == x[e]);
    let f = choose|k: int| from <= k < to && (#[trigger] x[k]).max_y == p.max_y; assert(y[f] == x[f]);
}
proof fn lemma_tight_frame(x: Seq<NodeItem>, y: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, l: int, lim: int)
    requires levels_ok(lb, n, b), 0 <= l < lb.len() - 1, level_tight(x, lb, b, l), lim <= lb[l + 1].start, x.len() == y.len(), x.len() == lb[0].end, forall|k: int| lim <= k < x.len() ==> #[trigger] y[k] == x[k],
    ensures level_tight(y, lb, b, l),
{
    reveal(level_tight);
    lemma_levels_mono(lb, n, b, 0, l); lemma_levels_mono(lb, n, b, 0, l + 1); assert(lb[l + 1].end == lb[l].start);
    assert forall|r: int| 0 <= r < cnt(lb, l + 1) implies tight(#[trigger] y[lb[l + 1].start + r], y, lb[l].start + r * b, least(lb[l].start + (r + 1) * b, lb[l].end as int)) by {
        assert(y[lb[l + 1].start + r] == x[lb[l + 1].start + r]);
        assert(r * b >= 0) by (nonlinear_arith) requires r >= 0, b >= 2;
        assert forall|k: int| lb[l].start + r * b <= k < least(lb[l].start + (r + 1) * b, lb[l].end as int) implies #[trigger] x[k] == y[k] by {}
        lemma_tight_same(x[lb[l + 1].start + r], x, y, lb[l].start + r * b, least(lb[l].start + (r + 1) * b, lb[l].end as int));
    }
}
pub open spec fn tree_ok(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int) -> bool {
    &&& levels_ok(lb, n, b)
    &&& items.len() == lb[0].end
    &&& forall|k: int| 0 <= k < items.len() ==> ok(#[trigger] items[k])
    &&& forall|l: int| 0 <= l < lb.len() - 1 ==> #[trigger] level_built(items, lb, b, l)
}
pub proof fn lemma_levels_mono(lb: Seq<Range<usize>>, n: int, b: int, i: int, j: int)
    requires levels_ok(lb, n, b), 0 <= i <= j < lb.len(),
    ensures lb[j].start <= lb[i].start, lb[j].end <= lb[i].end, i < j ==> lb[j].end <= lb[i].start,
    decreases j - i,
{ if i < j { lemma_levels_mono(lb, n, b, i + 1, j); assert(lb[i + 1].end == lb[i].start); } }

pub proof fn lemma_div_of(r: int, j: int, b: int)
    requires b >= 1, 0 <= j < b, r >= 0,
    ensures (r * b + j) / b == r,
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r * b + j, b, r, j); }

%%fn packed_rtree/mod.rs "impl PackedRTree" generate_nodes
%%loops 3
%%spec
    requires
        levels_ok(old(self).level_bounds@, old(self).num_leaf_nodes as int, old(self).branching_factor as int),
        old(self).node_items.len() == old(self).level_bounds@[0].end,
        forall|k: int| old(self).level_bounds@[0].start <= k < old(self).node_items.len() ==> ok(#[trigger] old(self).node_items@[k]),
    ensures
        final(self).level_bounds == old(self).level_bounds, final(self).num_leaf_nodes == old(self).num_leaf_nodes,
        final(self).branching_factor == old(self).branching_factor, final(self).extent == old(self).extent,
        tree_ok(final(self).node_items@, final(self).level_bounds@, final(self).num_leaf_nodes as int, final(self).branching_factor as int),
        forall|k: int| old(self).level_bounds@[0].start <= k < old(self).node_items.len() ==> final(self).node_items@[k] == #[trigger] old(self).node_items@[k],
        forall|l: int| 0 <= l < final(self).level_bounds@.len() - 1 ==> #[trigger] level_tight(final(self).node_items@, final(self).level_bounds@, final(self).branching_factor as int, l),
%%start
    let ghost lb = self.level_bounds@;
    let ghost b = self.branching_factor as int;
    let ghost n = self.num_leaf_nodes as int;
    let ghost first = self.node_items@;
    let ghost all0 = *self;
%%loop 0
    invariant
        self.level_bounds@ == lb, self.branching_factor as int == b, self.num_leaf_nodes as int == n, self.extent == all0.extent,
        self.level_bounds == all0.level_bounds,
        levels_ok(lb, n, b), self.node_items.len() == lb[0].end, first.len() == self.node_items.len(),
        0 <= level <= lb.len() - 1,
        forall|k: int| lb[0].start <= k < first.len() ==> #[trigger] self.node_items@[k] == first[k],
        forall|k: int| lb[level as int].start <= k < first.len() ==> ok(#[trigger] self.node_items@[k]),
        forall|l: int| 0 <= l < level ==> #[trigger] level_built(self.node_items@, lb, b, l),
        forall|l: int| 0 <= l < level ==> #[trigger] level_tight(self.node_items@, lb, b, l),
%%loopstart 0
    let ghost lv = level as int;
    let ghost before = self.node_items@;
    let ghost cs = lb[lv].start as int;
    let ghost ce = lb[lv].end as int;
    let ghost ps = lb[lv + 1].start as int;
    let ghost mut r = 0int;
    proof {
        lemma_levels_mono(lb, n, b, 0, lv); lemma_levels_mono(lb, n, b, 0, lv + 1);
        lemma_cdiv(cnt(lb, lv), b);
        assert(lb[lv + 1].end == lb[lv].start);
        assert(lb[lv].start < lb[lv].end);
    }
%%loop 1
    invariant
        lv == level, 0 <= lv < lb.len() - 1,
        self.level_bounds@ == lb, self.branching_factor as int == b, self.num_leaf_nodes as int == n, self.extent == all0.extent,
        self.level_bounds == all0.level_bounds, children_level == lb[lv], parent_level == lb[lv + 1],
        levels_ok(lb, n, b), self.node_items.len() == lb[0].end,
        cs == lb[lv].start, ce == lb[lv].end, ps == lb[lv + 1].start, lb[lv + 1].end == cs, ce <= lb[0].end, cs < ce,
        0 <= r <= cnt(lb, lv + 1), cnt(lb, lv + 1) == cdiv(ce - cs, b), b >= 2,
        parent_idx == ps + r,
        child_idx as int == if cs + r * b < ce { cs + r * b } else { ce },
        child_idx < ce ==> r < cdiv(ce - cs, b),
        child_idx >= ce ==> r == cdiv(ce - cs, b),
        before.len() == self.node_items.len(),
        forall|k: int| 0 <= k < before.len() && !(ps <= k < ps + r) ==> #[trigger] self.node_items@[k] == before[k],
        forall|k: int| cs <= k < before.len() ==> ok(#[trigger] before[k]),
        forall|q: int| 0 <= q < r ==> (#[trigger] self.node_items@[ps + q]).offset == cs + q * b && ok(self.node_items@[ps + q]),
        forall|c: int| 0 <= c < child_idx - cs ==> covers(self.node_items@[ps + c / b], #[trigger] self.node_items@[cs + c]) && c / b < r,
        forall|q: int| 0 <= q < r ==> tight(#[trigger] self.node_items@[ps + q], before, cs + q * b, least(cs + (q + 1) * b, ce)),
    decreases ce - child_idx
%%loopstart 1
    let ghost c0 = child_idx as int;
    let ghost old_items = self.node_items@;
    proof { lemma_cdiv(ce - cs, b); assert((r + 1) * b == r * b + b) by (nonlinear_arith); assert(c0 == cs + r * b); }
%%loop 2
    invariant
        self.level_bounds@ == lb, self.branching_factor as int == b, children_level == lb[lv], 0 <= lv < lb.len(), ce == lb[lv].end,
        self.node_items@ == old_items, old_items.len() == lb[0].end, ce <= lb[0].end, 0 <= cs <= c0,
        self.num_leaf_nodes as int == n, self.extent == all0.extent, self.level_bounds == all0.level_bounds,
        child_idx as int == if c0 + _j < ce { c0 + _j } else { ce }, c0 < ce,
        parent_node.offset == c0, ok(parent_node),
        forall|k: int| cs <= k < old_items.len() ==> ok(#[trigger] old_items[k]),
        forall|k: int| c0 <= k < child_idx ==> covers(parent_node, #[trigger] old_items[k]),
        tight_upto(parent_node, old_items, c0, child_idx as int), child_idx >= c0,
    ensures child_idx as int == if c0 + b < ce { c0 + b } else { ce }
%%loopstart 2
    broadcast use axiom_fle_trans;
    let ghost p0 = parent_node; let ghost k0 = child_idx as int;
%%loopend 2
    proof { lemma_tight_step(p0, parent_node, old_items, c0, k0); }
%%loopend 1
    proof {
        lemma_tight_end(parent_node, old_items, c0, child_idx as int);
        assert(least(cs + (r + 1) * b, ce) == child_idx);
        assert forall|k: int| c0 <= k < child_idx implies #[trigger] old_items[k] == before[k] by {}
        lemma_tight_same(parent_node, old_items, before, c0, child_idx as int);
        assert(r * b >= 0) by (nonlinear_arith) requires r >= 0, b >= 2;
        r = r + 1;
        if child_idx < ce && r >= cdiv(ce - cs, b) {
            assert(r * b >= cdiv(ce - cs, b) * b) by (nonlinear_arith) requires r >= cdiv(ce - cs, b), b >= 2;
        }
        if child_idx >= ce && r < cdiv(ce - cs, b) {
            assert(r * b <= (cdiv(ce - cs, b) - 1) * b) by (nonlinear_arith) requires r <= cdiv(ce - cs, b) - 1, b >= 2;
        }
        assert forall|c: int| 0 <= c < child_idx - cs implies covers(self.node_items@[ps + c / b], #[trigger] self.node_items@[cs + c]) && c / b < r by {
            if c < c0 - cs {
                assert(old_items[cs + c] == self.node_items@[cs + c]);
                assert(c / b < r - 1);
                assert(0 <= c / b) by (nonlinear_arith) requires c >= 0, b >= 2;
                assert(old_items[ps + c / b] == self.node_items@[ps + c / b]);
            } else {
                lemma_div_of(r - 1, c - (r - 1) * b, b);
                assert(c / b == r - 1);
                assert(old_items[cs + c] == self.node_items@[cs + c]);
            }
        }
    }
%%post 1
    proof {
        let now = self.node_items@;
        assert(level_tight(now, lb, b, lv)) by {
            reveal(level_tight);
            assert forall|q: int| 0 <= q < cnt(lb, lv + 1) implies tight(#[trigger] now[lb[lv + 1].start + q], now, lb[lv].start + q * b, least(lb[lv].start + (q + 1) * b, lb[lv].end as int)) by {
                assert(now[ps + q] == self.node_items@[ps + q]);
                assert(q * b >= 0) by (nonlinear_arith) requires q >= 0, b >= 2;
                lemma_tight_same(now[ps + q], before, now, cs + q * b, least(cs + (q + 1) * b, ce));
            }
        }
        assert forall|l: int| 0 <= l < lv implies #[trigger] level_tight(now, lb, b, l) by {
            assert(level_tight(before, lb, b, l));
            lemma_levels_mono(lb, n, b, l + 1, lv);
            lemma_tight_frame(before, now, lb, n, b, l, cs);
        }
        assert forall|l: int| 0 <= l < lv + 1 implies #[trigger] level_built(self.node_items@, lb, b, l) by {
            if l < lv {
                assert(level_built(before, lb, b, l));
                lemma_levels_mono(lb, n, b, l + 1, lv);
                lemma_levels_mono(lb, n, b, l, lv);
                lemma_levels_mono(lb, n, b, 0, l);
                lemma_levels_mono(lb, n, b, 0, l + 1);
                lemma_cdiv(cnt(lb, l), b);
                assert(cnt(lb, l + 1) == cdiv(cnt(lb, l), b));
                assert forall|q: int| 0 <= q < cnt(lb, l + 1) implies (#[trigger] self.node_items@[lb[l + 1].start + q]).offset == lb[l].start + q * b by {
                    assert(before[lb[l + 1].start + q] == self.node_items@[lb[l + 1].start + q]);
                }
                assert forall|c: int| 0 <= c < cnt(lb, l) implies covers(self.node_items@[lb[l + 1].start + c / b], #[trigger] self.node_items@[lb[l].start + c]) by {
                    assert(before[lb[l].start + c] == self.node_items@[lb[l].start + c]);
                    assert(before[lb[l + 1].start + c / b] == self.node_items@[lb[l + 1].start + c / b]);
                }
            }
        }
        assert forall|k: int| lb[lv + 1].start <= k < first.len() implies ok(#[trigger] self.node_items@[k]) by {
            if k < cs { assert(k == ps + (k - ps)); }
        }
    }
%%end
    
%%done


// ---- breadth-first search: abstract state and its steps -------------------------------------
pub open spec fn anc(i: int, l: int, b: int) -> int
    decreases l,
{ if l <= 0 { i } else { anc(i, l - 1, b) / b } }

pub proof fn lemma_anc(lb: Seq<Range<usize>>, n: int, b: int, i: int, l: int)
    requires levels_ok(lb, n, b), 0 <= i < n, 0 <= l < lb.len(),
    ensures 0 <= anc(i, l, b) < cnt(lb, l),
    decreases l,
{
    if l > 0 {
        lemma_anc(lb, n, b, i, l - 1);
        assert(lb[l - 1].start < lb[l - 1].end);
        lemma_cdiv(cnt(lb, l - 1), b);
        assert(cnt(lb, l - 1 + 1) == cdiv(cnt(lb, l - 1), b));
    }
}
pub proof fn lemma_anc_covers(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, i: int, l: int)
    requires tree_ok(items, lb, n, b), 0 <= i < n, 0 <= l < lb.len(),
    ensures covers(items[lb[l].start + anc(i, l, b)], items[lb[0].start + i]),
        0 <= anc(i, l, b) < cnt(lb, l),
    decreases l,
{
    broadcast use axiom_fle_trans;
    lemma_anc(lb, n, b, i, l);
    if l > 0 {
        lemma_anc_covers(items, lb, n, b, i, l - 1);
        assert(level_built(items, lb, b, l - 1));
        let c = anc(i, l - 1, b);
        assert(covers(items[lb[l - 1 + 1].start + c / b], items[lb[l - 1].start + c]));
    } else { assert(ok(items[lb[0].start + i])); }
}

pub open spec fn child(lb: Seq<Range<usize>>, b: int, p: int, l: int) -> int { lb[l - 1].start + (p - lb[l].start) * b }
pub open spec fn entry_ok(lb: Seq<Range<usize>>, b: int, e: (usize, usize)) -> bool {
    e.1 < lb.len() && lb[e.1 as int].start <= e.0 < lb[e.1 as int].end && (e.0 - lb[e.1 as int].start) % b == 0
}
pub open spec fn under(lb: Seq<Range<usize>>, b: int, e: (usize, usize), i: int) -> bool {
    e.0 == lb[e.1 as int].start + (anc(i, e.1 as int, b) / b) * b
}
pub open spec fn in_q(lb: Seq<Range<usize>>, b: int, q: Seq<(usize, usize)>, i: int) -> bool {
    exists|k: int| 0 <= k < q.len() && under(lb, b, #[trigger] q[k], i)
}
pub open spec fn found(res: Seq<SearchResultItem>, i: int) -> bool {
    exists|k: int| 0 <= k < res.len() && (#[trigger] res[k]).index == i
}
pub open spec fn pair_ok(lb: Seq<Range<usize>>, b: int, x: (usize, usize), y: (usize, usize)) -> bool {
    x.0 < y.0 && y.1 <= x.1 <= y.1 + 1 && (x.1 == y.1 + 1 ==> y.0 < child(lb, b, x.0 as int, x.1 as int))
}
pub open spec fn q_ok(lb: Seq<Range<usize>>, b: int, q: Seq<(usize, usize)>) -> bool {
    &&& forall|k: int| 0 <= k < q.len() ==> entry_ok(lb, b, #[trigger] q[k])
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> pair_ok(lb, b, #[trigger] q[i], #[trigger] q[j])
}
pub open spec fn res_ok(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, res: Seq<SearchResultItem>, hits: spec_fn(NodeItem) -> bool) -> bool {
    &&& forall|k: int| 0 <= k < res.len() ==> (#[trigger] res[k]).index < n && hits(items[lb[0].start + res[k].index])
            && res[k].offset == items[lb[0].start + res[k].index].offset
    &&& forall|i: int, j: int| 0 <= i < j < res.len() ==> (#[trigger] res[i]).index < (#[trigger] res[j]).index
}
/// the results are exactly the hit leaves: each once, in file order, with its stored offset
pub open spec fn exact(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, res: Seq<SearchResultItem>, hits: spec_fn(NodeItem) -> bool) -> bool {
    &&& res_ok(items, lb, n, res, hits)
    &&& forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) ==> found(res, i)
}
pub open spec fn mono(hits: spec_fn(NodeItem) -> bool) -> bool {
    forall|a: NodeItem, c: NodeItem| covers(a, c) && #[trigger] hits(c) ==> #[trigger] hits(a)
}
#[verifier::opaque]
pub open spec fn outer_inv(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<(usize, usize)>, res: Seq<SearchResultItem>, hits: spec_fn(NodeItem) -> bool) -> bool {
    &&& tree_ok(items, lb, n, b) && mono(hits)
    &&& q_ok(lb, b, q) && res_ok(items, lb, n, res, hits)
    &&& forall|k: int| 0 <= k < q.len() && res.len() > 0 ==> (#[trigger] q[k]).1 == 0
    &&& forall|k: int, m: int| 0 <= k < q.len() && 0 <= m < res.len() ==> (#[trigger] res[m]).index + lb[0].start < (#[trigger] q[k]).0
    &&& forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) ==> found(res, i) || in_q(lb, b, q, i)
}
#[verifier::opaque]
pub open spec fn inner_inv(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<(usize, usize)>, res: Seq<SearchResultItem>, hits: spec_fn(NodeItem) -> bool,
    ni: int, l: int, pos: int) -> bool {
    &&& tree_ok(items, lb, n, b) && mono(hits)
    &&& q_ok(lb, b, q) && res_ok(items, lb, n, res, hits)
    &&& 0 <= l < lb.len() && lb[l].start <= ni <= pos <= lb[l].end && ni < lb[l].end && pos <= ni + b && (ni - lb[l].start) % b == 0
    &&& l > 0 ==> res.len() == 0
    &&& forall|k: int| 0 <= k < q.len() ==> ni < (#[trigger] q[k]).0 && q[k].1 <= l <= q[k].1 + 1 && (q[k].1 == l ==> q[k].0 >= ni + b)
            && (q[k].1 == l - 1 ==> q[k].0 < child(lb, b, pos, l))
    &&& forall|m: int| 0 <= m < res.len() ==> (#[trigger] res[m]).index + lb[0].start < pos
    &&& forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) ==> found(res, i) || in_q(lb, b, q, i)
            || (pos <= lb[l].start + anc(i, l, b) < ni + b)
}

pub proof fn lemma_aligned(x: int, y: int, b: int)
    requires b >= 1, 0 <= x < y, x % b == 0, y % b == 0,
    ensures x + b <= y,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, b);
    if x / b >= y / b { assert(b * (x / b) >= b * (y / b)) by (nonlinear_arith) requires x / b >= y / b, b >= 1; }
    assert(b * (x / b) + b <= b * (y / b)) by (nonlinear_arith) requires x / b + 1 <= y / b, b >= 1;
}

pub proof fn lemma_begin(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, hits: spec_fn(NodeItem) -> bool)
    requires tree_ok(items, lb, n, b), mono(hits),
    ensures outer_inv(items, lb, n, b, seq![(0usize, (lb.len() - 1) as usize)], Seq::<SearchResultItem>::empty(), hits),
{
    reveal(outer_inv);
    let top = (lb.len() - 1) as int;
    let q = seq![(0usize, (lb.len() - 1) as usize)];
    assert(lb.len() <= lb[0].end) by { lemma_len_levels(lb, n, b, 0); }
    assert forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n implies in_q(lb, b, q, i) by {
        lemma_anc(lb, n, b, i, top);
        assert(anc(i, top, b) == 0);
        assert(0int / b == 0) by (nonlinear_arith) requires b >= 2;
        assert(under(lb, b, q[0], i));
    }
    assert(0int % b == 0) by (nonlinear_arith) requires b >= 2;
    assert(entry_ok(lb, b, q[0]));
}
pub proof fn lemma_len_levels(lb: Seq<Range<usize>>, n: int, b: int, l: int)
    requires levels_ok(lb, n, b), 0 <= l < lb.len(),
    ensures lb.len() - l <= lb[l].end,
    decreases lb.len() - l,
{ if l < lb.len() - 1 { lemma_len_levels(lb, n, b, l + 1); assert(lb[l + 1].end == lb[l].start); assert(lb[l].start < lb[l].end); } }

pub proof fn lemma_pop(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q0: Seq<(usize, usize)>, q: Seq<(usize, usize)>, res: Seq<SearchResultItem>, hits: spec_fn(NodeItem) -> bool)
    requires outer_inv(items, lb, n, b, q0, res, hits), q0.len() > 0, q == q0.subrange(1, q0.len() as int),
    ensures inner_inv(items, lb, n, b, q, res, hits, q0[0].0 as int, q0[0].1 as int, q0[0].0 as int),
{
    reveal(outer_inv); reveal(inner_inv);
    let ni = q0[0].0 as int; let l = q0[0].1 as int;
    assert(entry_ok(lb, b, q0[0]));
    assert forall|k: int| 0 <= k < q.len() implies ni < (#[trigger] q[k]).0 && q[k].1 <= l <= q[k].1 + 1 && (q[k].1 == l ==> q[k].0 >= ni + b)
            && (q[k].1 == l - 1 ==> q[k].0 < child(lb, b, ni, l)) by {
        assert(q[k] == q0[k + 1]);
        assert(pair_ok(lb, b, q0[0], q0[k + 1]));
        assert(entry_ok(lb, b, q0[k + 1]));
        if q[k].1 == l { lemma_aligned(ni - lb[l].start, q[k].0 - lb[l].start, b); }
    }
    assert forall|k: int| 0 <= k < q.len() implies entry_ok(lb, b, #[trigger] q[k]) by { assert(q[k] == q0[k + 1]); }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies pair_ok(lb, b, #[trigger] q[i], #[trigger] q[j]) by {
        assert(q[i] == q0[i + 1] && q[j] == q0[j + 1]);
    }
    assert forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) implies found(res, i) || in_q(lb, b, q, i)
            || (ni <= lb[l].start + anc(i, l, b) < ni + b) by {
        if !found(res, i) {
            let k = choose|k: int| 0 <= k < q0.len() && under(lb, b, #[trigger] q0[k], i);
            if k == 0 {
                let a = anc(i, l, b);
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
                assert((a / b) * b == b * (a / b)) by (nonlinear_arith);
            } else { assert(q[k - 1] == q0[k]); assert(in_q(lb, b, q, i)); }
        }
    }
    if res.len() > 0 { assert(q0[0].1 == 0); }
}

pub proof fn lemma_child_mono(lb: Seq<Range<usize>>, b: int, x: int, y: int, l: int)
    requires b >= 1, x < y,
    ensures child(lb, b, x, l) + b <= child(lb, b, y, l),
{ assert((x - lb[l].start) * b + b <= (y - lb[l].start) * b) by (nonlinear_arith) requires x < y, b >= 1; }

pub proof fn lemma_outer_facts(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<(usize, usize)>, res: Seq<SearchResultItem>, hits: spec_fn(NodeItem) -> bool)
    requires outer_inv(items, lb, n, b, q, res, hits),
    ensures items.len() == lb[0].end, lb[0].end - lb[0].start == n, lb.len() >= 2, lb[0].end <= 3 * BOUND(), q.len() == 0 ==> exact(items, lb, n, res, hits), q.len() > 0 ==> entry_ok(lb, b, q[0]) && q[0].0 < items.len(),
{
    reveal(outer_inv);
    if q.len() > 0 { assert(entry_ok(lb, b, q[0])); lemma_levels_mono(lb, n, b, 0, q[0].1 as int); }
    if q.len() == 0 {
        assert forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) implies found(res, i) by {}
    }
}
pub proof fn lemma_inner_facts(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<(usize, usize)>, res: Seq<SearchResultItem>, hits: spec_fn(NodeItem) -> bool, ni: int, l: int, pos: int)
    requires inner_inv(items, lb, n, b, q, res, hits, ni, l, pos),
    ensures items.len() == lb[0].end, lb[0].end - lb[0].start == n, lb.len() >= 2, lb[0].end <= 3 * BOUND(), 0 <= l < lb.len(), lb[l].start <= ni <= pos <= lb[l].end <= lb[0].end, ni < lb[l].end,
        l == 0 <==> ni >= lb[0].start, l > 0 ==> res.len() == 0,
{
    reveal(inner_inv);
    lemma_levels_mono(lb, n, b, 0, l);
}
pub proof fn lemma_skip(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<(usize, usize)>, res: Seq<SearchResultItem>, hits: spec_fn(NodeItem) -> bool, ni: int, l: int, pos: int)
    requires inner_inv(items, lb, n, b, q, res, hits, ni, l, pos), pos < lb[l].end, pos < ni + b, !hits(items[pos]),
    ensures inner_inv(items, lb, n, b, q, res, hits, ni, l, pos + 1),
{
    reveal(inner_inv);
    lemma_child_mono(lb, b, pos, pos + 1, l);
    assert forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) implies found(res, i) || in_q(lb, b, q, i)
            || (pos + 1 <= lb[l].start + anc(i, l, b) < ni + b) by {
        lemma_anc_covers(items, lb, n, b, i, l);
    }
}
pub proof fn lemma_leaf(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<(usize, usize)>, res: Seq<SearchResultItem>, x: SearchResultItem, hits: spec_fn(NodeItem) -> bool, ni: int, pos: int)
    requires inner_inv(items, lb, n, b, q, res, hits, ni, 0, pos), pos < lb[0].end, pos < ni + b, hits(items[pos]),
        x.offset == items[pos].offset, x.index == pos - lb[0].start,
    ensures inner_inv(items, lb, n, b, q, res.push(x), hits, ni, 0, pos + 1),
{
    reveal(inner_inv);
    let r2 = res.push(x);
    assert forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) implies found(r2, i) || in_q(lb, b, q, i)
            || (pos + 1 <= lb[0].start + anc(i, 0, b) < ni + b) by {
        assert(anc(i, 0, b) == i);
        if found(res, i) { let k = choose|k: int| 0 <= k < res.len() && (#[trigger] res[k]).index == i; assert(r2[k].index == i); }
        if i == pos - lb[0].start { assert(r2[res.len() as int].index == i); }
    }
}
pub proof fn lemma_push(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<(usize, usize)>, res: Seq<SearchResultItem>, e: (usize, usize), hits: spec_fn(NodeItem) -> bool, ni: int, l: int, pos: int)
    requires inner_inv(items, lb, n, b, q, res, hits, ni, l, pos), pos < lb[l].end, pos < ni + b, l > 0,
        e.0 == items[pos].offset, e.1 == l - 1,
    ensures inner_inv(items, lb, n, b, q.push(e), res, hits, ni, l, pos + 1),
{
    reveal(inner_inv);
    let q2 = q.push(e);
    let r = pos - lb[l].start;
    assert(level_built(items, lb, b, l - 1));
    assert(items[lb[l - 1 + 1].start + r].offset == lb[l - 1].start + r * b);
    assert(e.0 == child(lb, b, pos, l));
    lemma_child_mono(lb, b, pos, pos + 1, l);
    lemma_cdiv(cnt(lb, l - 1), b);
    assert(lb[l - 1].start < lb[l - 1].end);
    assert(cnt(lb, l - 1 + 1) == cdiv(cnt(lb, l - 1), b));
    assert(r * b <= (cdiv(cnt(lb, l - 1), b) - 1) * b) by (nonlinear_arith) requires r <= cdiv(cnt(lb, l - 1), b) - 1, b >= 1;
    assert((r * b) % b == 0) by { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(r, b); }
    assert(r * b >= 0) by (nonlinear_arith) requires r >= 0, b >= 1;
    assert(entry_ok(lb, b, e));
    assert(lb[l - 1 + 1].end == lb[l - 1].start);
    assert forall|k: int| 0 <= k < q2.len() implies entry_ok(lb, b, #[trigger] q2[k]) by { if k < q.len() { assert(q2[k] == q[k]); } }
    assert forall|i: int, j: int| 0 <= i < j < q2.len() implies pair_ok(lb, b, #[trigger] q2[i], #[trigger] q2[j]) by {
        assert(q2[i] == q[i]);
        assert(entry_ok(lb, b, q[i]));
        if j < q.len() { assert(q2[j] == q[j]); } else if q[i].1 == l {
            lemma_child_mono(lb, b, pos, q[i].0 as int, l);
        }
    }
    assert forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) implies found(res, i) || in_q(lb, b, q2, i)
            || (pos + 1 <= lb[l].start + anc(i, l, b) < ni + b) by {
        if in_q(lb, b, q, i) {
            let k = choose|k: int| 0 <= k < q.len() && under(lb, b, #[trigger] q[k], i);
            assert(q2[k] == q[k]);
        }
        if lb[l].start + anc(i, l, b) == pos {
            assert(anc(i, l, b) == anc(i, l - 1, b) / b);
            assert(q2[q.len() as int] == e && under(lb, b, e, i));
        }
    }
    assert forall|k: int| 0 <= k < q2.len() implies ni < (#[trigger] q2[k]).0 && q2[k].1 <= l <= q2[k].1 + 1 && (q2[k].1 == l ==> q2[k].0 >= ni + b)
            && (q2[k].1 == l - 1 ==> q2[k].0 < child(lb, b, pos + 1, l)) by {
        if k < q.len() { assert(q2[k] == q[k]); }
    }
}
pub proof fn lemma_done(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<(usize, usize)>, res: Seq<SearchResultItem>, hits: spec_fn(NodeItem) -> bool, ni: int, l: int, pos: int)
    requires inner_inv(items, lb, n, b, q, res, hits, ni, l, pos), pos == ni + b || pos == lb[l].end,
    ensures outer_inv(items, lb, n, b, q, res, hits), forall|k: int| 0 <= k < q.len() ==> (#[trigger] q[k]).0 > ni,
{
    reveal(inner_inv); reveal(outer_inv);
    assert forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) implies found(res, i) || in_q(lb, b, q, i) by {
        lemma_anc(lb, n, b, i, l);
    }
}

%%fn packed_rtree/mod.rs "impl PackedRTree" num_nodes
%%ret r
%%spec
    ensures r == self.node_items.len(),
%%done

#[verifier::external_body]
pub fn clamp16(v: u16, lo: u16, hi: u16) -> (r: u16) requires lo <= hi, ensures r == if v < lo { lo } else if v > hi { hi } else { v } { unimplemented!() }
/// vec![x; n]
#[verifier::external_body]
pub fn vec_of(x: NodeItem, n: usize) -> (r: Vec<NodeItem>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
#[verifier::external_body]
pub fn clone_node(x: &NodeItem) -> (r: NodeItem) ensures r == *x { unimplemented!() }
pub fn upto(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
%%fn packed_rtree/mod.rs "impl PackedRTree" init
%%ret r
%%sub `node_size.clamp(2u16, 65535u16)` => `clamp16(node_size, 2u16, 65535u16)`
%%sub `vec![NodeItem::create(0); num_nodes]` => `vec_of(NodeItem::create(0), num_nodes)`
%%spec
    requires node_size >= 2, 1 <= old(self).num_leaf_nodes <= BOUND(),
    ensures r is Ok, final(self).num_leaf_nodes == old(self).num_leaf_nodes, final(self).extent == old(self).extent, final(self).branching_factor == node_size,
        levels_ok(final(self).level_bounds@, old(self).num_leaf_nodes as int, node_size as int), final(self).node_items.len() == final(self).level_bounds@[0].end,
        forall|k: int| 0 <= k < final(self).node_items.len() ==> ok(#[trigger] final(self).node_items@[k]),
%%done
%%fn packed_rtree/mod.rs "impl PackedRTree" build
%%ret r
%%sub `extent.clone()` => `clone_node(extent)`
%%sub `for (i, node) in nodes.iter().take(tree.num_leaf_nodes).cloned().enumerate() {` => `for i in 0..upto(nodes.len(), tree.num_leaf_nodes) { let node = clone_node(&nodes[i]);`
%%loops 1
%%spec
    requires node_size >= 2, 1 <= nodes@.len() <= BOUND(), forall|i: int| 0 <= i < nodes@.len() ==> ok(#[trigger] nodes@[i]),
    ensures r is Ok, built_of(&r->Ok_0, nodes@, node_size as int),
%%before 0
    let ghost lb = tree.level_bounds@;
%%loop 0
    invariant
        num_nodes == tree.node_items.len(), tree.num_leaf_nodes == nodes@.len(), tree.level_bounds@ == lb, tree.branching_factor == node_size, levels_ok(lb, nodes@.len() as int, node_size as int), num_nodes == lb[0].end,
        forall|k: int| 0 <= k < nodes@.len() ==> ok(#[trigger] nodes@[k]),
        forall|k: int| 0 <= k < num_nodes ==> ok(#[trigger] tree.node_items@[k]),
        forall|k: int| #![trigger nodes@[k]] 0 <= k < i ==> tree.node_items@[lb[0].start + k] == nodes@[k],
%%done
/// t is a tree over exactly these items, in this order
pub closed spec fn built_of(t: &PackedRTree, s: Seq<NodeItem>, b: int) -> bool {
    &&& rt_ok(t) && t.num_leaf_nodes == s.len() && t.branching_factor == b
    &&& forall|l: int| 0 <= l < t.level_bounds@.len() - 1 ==> #[trigger] level_tight(t.node_items@, t.level_bounds@, b, l)
    &&& forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> t.node_items@[t.level_bounds@[0].start + k] == s[k]
}

pub closed spec fn rt_pre(t: &PackedRTree, query: Query) -> bool { query_pre(t.node_items@, t.level_bounds@, query) }
pub closed spec fn rt_answer(t: &PackedRTree, query: Query, res: Seq<SearchResultItem>) -> bool {
    answer(t.node_items@, t.level_bounds@, t.num_leaf_nodes as int, query, res)
}
pub closed spec fn rt_ok(t: &PackedRTree) -> bool {
    tree_ok(t.node_items@, t.level_bounds@, t.num_leaf_nodes as int, t.branching_factor as int)
}
pub open spec fn bbox_hits(x0: f64, y0: f64, x1: f64, y1: f64) -> spec_fn(NodeItem) -> bool {
    |c: NodeItem| !flt(x1, c.min_x) && !flt(y1, c.min_y) && !flt(c.max_x, x0) && !flt(c.max_y, y0)
}
pub open spec fn point_hits(x: f64, y: f64) -> spec_fn(NodeItem) -> bool { |c: NodeItem| has_point(c, x, y) }
pub proof fn lemma_bbox_mono(x0: f64, y0: f64, x1: f64, y1: f64)
    ensures mono(bbox_hits(x0, y0, x1, y1)),
{
    let h = bbox_hits(x0, y0, x1, y1);
    assert forall|a: NodeItem, c: NodeItem| covers(a, c) && #[trigger] h(c) implies #[trigger] h(a) by {
        let q = NodeItem { min_x: x0, min_y: y0, max_x: x1, max_y: y1, offset: 0 };
        assert(isect(q, c)); lemma_isect_mono(q, a, c);
    }
}
pub proof fn lemma_point_hits_mono(x: f64, y: f64)
    ensures mono(point_hits(x, y)),
{
    let h = point_hits(x, y);
    assert forall|a: NodeItem, c: NodeItem| covers(a, c) && #[trigger] h(c) implies #[trigger] h(a) by { lemma_point_mono(a, c, x, y); }
}

// ---- nearest neighbour ----------------------------------------------------------------------
pub uninterp spec fn mdist(n: NodeItem, x: f64, y: f64) -> f64;
pub uninterp spec fn cdist(n: NodeItem, x: f64, y: f64) -> f64;
pub uninterp spec fn fin(x: f64) -> bool;
pub open spec fn proper(n: NodeItem) -> bool { fle(n.min_x, n.max_x) && fle(n.min_y, n.max_y) }
pub open spec fn finbox(n: NodeItem) -> bool { proper(n) && fin(n.min_x) && fin(n.min_y) && fin(n.max_x) && fin(n.max_y) }
/// trusted: monotone IEEE rounding gives min_distance(box) <= centroid_distance(box inside it), never NaN
pub axiom fn axiom_mdist(a: NodeItem, c: NodeItem, x: f64, y: f64)
    requires proper(a), finbox(c), fin(x), fin(y), covers(a, c),
    ensures fle(mdist(a, x, y), cdist(c, x, y));
pub axiom fn axiom_mdist_num(a: NodeItem, x: f64, y: f64)
    requires proper(a), fin(x), fin(y),
    ensures fle(mdist(a, x, y), mdist(a, x, y));
pub axiom fn axiom_zero(a: NodeItem, x: f64, y: f64)
    requires finbox(a), fin(x), fin(y),
    ensures fle(0.0f64, cdist(a, x, y));

%%fn packed_rtree/mod.rs "impl NodeItem" min_distance_squared
%%external
%%ret r
%%spec
    requires proper(*self), fin(x), fin(y),
    ensures r == mdist(*self, x, y),
%%done
%%fn packed_rtree/mod.rs "impl NodeItem" centroid_distance_squared
%%external
%%ret r
%%spec
    requires proper(*self), fin(x), fin(y),
    ensures r == cdist(*self, x, y),
%%done

impl PartialEqSpecImpl for QueueItem {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, other: &Self) -> bool { arbitrary() }
}
impl PartialOrdSpecImpl for QueueItem {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    closed spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { fcmp(self.distance, other.distance) }
}
impl OrdSpecImpl for QueueItem {
    open spec fn obeys_cmp_spec() -> bool { true }
    closed spec fn cmp_spec(&self, other: &Self) -> Ordering { match fcmp(self.distance, other.distance) { Some(o) => o, None => Ordering::Equal } }
}
/// trusted: Reverse turns the order around
axiom fn axiom_reverse(x: QueueItem, y: QueueItem)
    ensures heap_ge(Reverse(x), Reverse(y)) ==> OrdSpec::cmp_spec(&x, &y) != Ordering::Greater;

spec fn ent(e: Reverse<QueueItem>) -> (usize, usize) { (qnode(e.0), e.0.level) }
spec fn below(lb: Seq<Range<usize>>, b: int, h: Multiset<Reverse<QueueItem>>, j: int, d: f64) -> bool {
    exists|e: Reverse<QueueItem>| #[trigger] h.contains(e) && under(lb, b, ent(e), j) && fle(e.0.distance, d)
}
pub open spec fn beaten(nearest: Option<(f64, SearchResultItem)>, d: f64) -> bool { nearest is Some && fle((nearest->0).0, d) }
pub open spec fn best_ok(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, nearest: Option<(f64, SearchResultItem)>, x: f64, y: f64) -> bool {
    nearest is Some ==> (nearest->0).1.index < n && (nearest->0).0 == cdist(items[lb[0].start + (nearest->0).1.index], x, y)
        && (nearest->0).1.offset == items[lb[0].start + (nearest->0).1.index].offset && fle((nearest->0).0, (nearest->0).0)
}
pub open spec fn near_pre(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, x: f64, y: f64) -> bool {
    tree_ok(items, lb, n, b) && fin(x) && fin(y) && (forall|i: int| lb[0].start <= i < lb[0].end ==> finbox(#[trigger] items[i]))
        && (forall|i: int| 0 <= i < items.len() ==> proper(#[trigger] items[i]))
}
#[verifier::opaque]
spec fn near_inv(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, h: Multiset<Reverse<QueueItem>>, nearest: Option<(f64, SearchResultItem)>, x: f64, y: f64) -> bool {
    &&& near_pre(items, lb, n, b, x, y)
    &&& best_ok(items, lb, n, nearest, x, y)
    &&& forall|e: Reverse<QueueItem>| #[trigger] h.contains(e) ==> entry_ok(lb, b, ent(e)) && fle(e.0.distance, e.0.distance)
    &&& forall|j: int| #![trigger items[lb[0].start + j]] 0 <= j < n ==> beaten(nearest, cdist(items[lb[0].start + j], x, y)) || below(lb, b, h, j, cdist(items[lb[0].start + j], x, y))
}
#[verifier::opaque]
spec fn near_in(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, h: Multiset<Reverse<QueueItem>>, nearest: Option<(f64, SearchResultItem)>, x: f64, y: f64, ni: int, l: int, pos: int) -> bool {
    &&& near_pre(items, lb, n, b, x, y)
    &&& best_ok(items, lb, n, nearest, x, y)
    &&& 0 <= l < lb.len() && lb[l].start <= ni <= pos <= lb[l].end && (ni - lb[l].start) % b == 0
    &&& forall|e: Reverse<QueueItem>| #[trigger] h.contains(e) ==> entry_ok(lb, b, ent(e)) && fle(e.0.distance, e.0.distance)
    &&& forall|j: int| #![trigger items[lb[0].start + j]] 0 <= j < n ==> beaten(nearest, cdist(items[lb[0].start + j], x, y)) || below(lb, b, h, j, cdist(items[lb[0].start + j], x, y))
            || pos <= lb[l].start + anc(j, l, b) < ni + b
}
/// no leaf's centre is nearer than that of the returned one
pub open spec fn near_exact(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, res: Seq<SearchResultItem>, x: f64, y: f64) -> bool {
    &&& res.len() == 1 && res[0].index < n && res[0].offset == items[lb[0].start + res[0].index].offset
    &&& forall|j: int| #![trigger items[lb[0].start + j]] 0 <= j < n ==> fle(cdist(items[lb[0].start + res[0].index], x, y), cdist(items[lb[0].start + j], x, y))
}
pub proof fn lemma_all_proper(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, l: int)
    requires tree_ok(items, lb, n, b), forall|i: int| lb[0].start <= i < lb[0].end ==> finbox(#[trigger] items[i]), 0 <= l < lb.len(),
    ensures forall|i: int| lb[l].start <= i < lb[0].end ==> proper(#[trigger] items[i]),
    decreases l,
{
    if l > 0 {
        lemma_all_proper(items, lb, n, b, l - 1);
        assert(level_built(items, lb, b, l - 1));
        assert(lb[l - 1 + 1].end == lb[l - 1].start);
        assert(lb[l - 1].start < lb[l - 1].end);
        lemma_cdiv(cnt(lb, l - 1), b);
        lemma_levels_mono(lb, n, b, 0, l - 1);
        assert forall|i: int| lb[l].start <= i < lb[0].end implies proper(#[trigger] items[i]) by {
            if i < lb[l].end {
                let r = i - lb[l].start;
                assert(cnt(lb, l - 1 + 1) == cdiv(cnt(lb, l - 1), b));
                assert(r * b <= (cdiv(cnt(lb, l - 1), b) - 1) * b) by (nonlinear_arith) requires r <= cdiv(cnt(lb, l - 1), b) - 1, b >= 1;
                assert(r * b >= 0) by (nonlinear_arith) requires r >= 0, b >= 1;
                lemma_div_of(r, 0, b);
                let c = r * b;
                assert(covers(items[lb[l - 1 + 1].start + c / b], items[lb[l - 1].start + c]));
                assert(proper(items[lb[l - 1].start + c]));
                broadcast use axiom_fle_trans;
                let p = items[i]; let ch = items[lb[l - 1].start + c];
                assert(fle(p.min_x, ch.min_x) && fle(ch.min_x, ch.max_x) && fle(ch.max_x, p.max_x));
                assert(fle(p.min_y, ch.min_y) && fle(ch.min_y, ch.max_y) && fle(ch.max_y, p.max_y));
                assert(fle(p.min_x, ch.max_x) && fle(p.min_y, ch.max_y));
            }
        }
    }
}
proof fn lemma_near_begin(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, h: Multiset<Reverse<QueueItem>>, e: Reverse<QueueItem>, x: f64, y: f64)
    requires near_pre(items, lb, n, b, x, y), h == Multiset::<Reverse<QueueItem>>::empty().insert(e), e.0.distance == 0.0f64, qnode(e.0) == 0, e.0.level == lb.len() - 1,
    ensures near_inv(items, lb, n, b, h, None, x, y),
{
    reveal(near_inv);
    let top = (lb.len() - 1) as int;
    assert(h.contains(e));
    lemma_len_levels(lb, n, b, 0);
    axiom_zero(items[lb[0].start as int], x, y);
    assert forall|j: int| #![trigger items[lb[0].start + j]] 0 <= j < n implies below(lb, b, h, j, cdist(items[lb[0].start + j], x, y)) by {
        lemma_anc(lb, n, b, j, top);
        assert(0int / b == 0) by (nonlinear_arith) requires b >= 2;
        axiom_zero(items[lb[0].start + j], x, y);
        assert(anc(j, top, b) == 0);
        assert((0int / b) * b == 0) by (nonlinear_arith) requires 0int / b == 0;
        assert(under(lb, b, ent(e), j));
    }
    assert(0int % b == 0) by (nonlinear_arith) requires b >= 2;
    assert forall|f: Reverse<QueueItem>| #[trigger] h.contains(f) implies entry_ok(lb, b, ent(f)) && fle(f.0.distance, f.0.distance) by { assert(f == e); assert(fle(0.0f64, 0.0f64)); }
}
proof fn lemma_near_facts(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, h: Multiset<Reverse<QueueItem>>, nearest: Option<(f64, SearchResultItem)>, x: f64, y: f64)
    requires near_inv(items, lb, n, b, h, nearest, x, y),
    ensures items.len() == lb[0].end, lb[0].end - lb[0].start == n, lb.len() >= 2, lb[0].end <= 3 * BOUND(), fin(x), fin(y),
        forall|e: Reverse<QueueItem>| #[trigger] h.contains(e) ==> entry_ok(lb, b, ent(e)) && fle(e.0.distance, e.0.distance),
{ reveal(near_inv); lemma_levels_mono(lb, n, b, 0, 0); }
proof fn lemma_near_in_facts(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, h: Multiset<Reverse<QueueItem>>, nearest: Option<(f64, SearchResultItem)>, x: f64, y: f64, ni: int, l: int, pos: int)
    requires near_in(items, lb, n, b, h, nearest, x, y, ni, l, pos),
    ensures items.len() == lb[0].end, lb[0].end - lb[0].start == n, lb.len() >= 2, lb[0].end <= 3 * BOUND(), fin(x), fin(y), pos < lb[l].end ==> proper(items[pos]), 0 <= l < lb.len(), lb[l].start <= ni <= pos <= lb[l].end <= lb[0].end,
        ni < lb[l].end ==> (l == 0 <==> ni >= lb[0].start),
{
    reveal(near_in);
    lemma_levels_mono(lb, n, b, 0, l);
}
proof fn lemma_near_pop(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, h0: Multiset<Reverse<QueueItem>>, h: Multiset<Reverse<QueueItem>>, e: Reverse<QueueItem>, nearest: Option<(f64, SearchResultItem)>, x: f64, y: f64)
    requires near_inv(items, lb, n, b, h0, nearest, x, y), h0.contains(e), h == h0.remove(e),
    ensures near_in(items, lb, n, b, h, nearest, x, y, qnode(e.0) as int, e.0.level as int, qnode(e.0) as int),
{
    reveal(near_inv); reveal(near_in);
    let ni = qnode(e.0) as int; let l = e.0.level as int;
    assert(entry_ok(lb, b, ent(e)));
    assert forall|f: Reverse<QueueItem>| #[trigger] h.contains(f) implies entry_ok(lb, b, ent(f)) && fle(f.0.distance, f.0.distance) by { assert(h0.contains(f)); }
    assert forall|j: int| #![trigger items[lb[0].start + j]] 0 <= j < n implies beaten(nearest, cdist(items[lb[0].start + j], x, y)) || below(lb, b, h, j, cdist(items[lb[0].start + j], x, y))
            || ni <= lb[l].start + anc(j, l, b) < ni + b by {
        let d = cdist(items[lb[0].start + j], x, y);
        if below(lb, b, h0, j, d) {
            let f = choose|f: Reverse<QueueItem>| #[trigger] h0.contains(f) && under(lb, b, ent(f), j) && fle(f.0.distance, d);
            if f != e { assert(h.contains(f)); } else {
                let a = anc(j, l, b);
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
                assert((a / b) * b == b * (a / b)) by (nonlinear_arith);
            }
        }
    }
}
/// the popped entry is at least as near as any other: once it is beaten, all of them are
proof fn lemma_near_stop(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, h0: Multiset<Reverse<QueueItem>>, e: Reverse<QueueItem>, nearest: Option<(f64, SearchResultItem)>, x: f64, y: f64)
    requires near_inv(items, lb, n, b, h0, nearest, x, y), h0.contains(e), nearest is Some, flt((nearest->0).0, e.0.distance),
        forall|f: Reverse<QueueItem>| h0.contains(f) ==> #[trigger] heap_ge(e, f),
    ensures near_inv(items, lb, n, b, Multiset::<Reverse<QueueItem>>::empty(), nearest, x, y),
{
    reveal(near_inv);
    let none = Multiset::<Reverse<QueueItem>>::empty();
    assert forall|j: int| #![trigger items[lb[0].start + j]] 0 <= j < n implies beaten(nearest, cdist(items[lb[0].start + j], x, y)) by {
        let d = cdist(items[lb[0].start + j], x, y);
        if below(lb, b, h0, j, d) {
            let f = choose|f: Reverse<QueueItem>| #[trigger] h0.contains(f) && under(lb, b, ent(f), j) && fle(f.0.distance, d);
            assert(heap_ge(e, f));
            axiom_reverse(e.0, f.0);
            assert(OrdSpec::cmp_spec(&e.0, &f.0) != Ordering::Greater);
            assert(!flt(f.0.distance, e.0.distance)) ;
            assert(fle(e.0.distance, f.0.distance));
            broadcast use axiom_fle_trans;
            assert(fle((nearest->0).0, e.0.distance));
            assert(fle((nearest->0).0, f.0.distance));
        }
    }
}
proof fn lemma_near_prune(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, h: Multiset<Reverse<QueueItem>>, nearest: Option<(f64, SearchResultItem)>, x: f64, y: f64, ni: int, l: int, pos: int)
    requires near_in(items, lb, n, b, h, nearest, x, y, ni, l, pos), pos < lb[l].end, pos < ni + b, nearest is Some, fle((nearest->0).0, mdist(items[pos], x, y)),
    ensures near_in(items, lb, n, b, h, nearest, x, y, ni, l, pos + 1),
{
    reveal(near_in);
    assert forall|j: int| #![trigger items[lb[0].start + j]] 0 <= j < n implies beaten(nearest, cdist(items[lb[0].start + j], x, y)) || below(lb, b, h, j, cdist(items[lb[0].start + j], x, y))
            || pos + 1 <= lb[l].start + anc(j, l, b) < ni + b by {
        if lb[l].start + anc(j, l, b) == pos {
            lemma_anc_covers(items, lb, n, b, j, l);
            lemma_levels_mono(lb, n, b, 0, l);
            axiom_mdist(items[pos], items[lb[0].start + j], x, y);
            broadcast use axiom_fle_trans;
        }
    }
}
pub open spec fn better(nearest: Option<(f64, SearchResultItem)>, d: f64, x: SearchResultItem) -> Option<(f64, SearchResultItem)> {
    match nearest { None => Some((d, x)), Some(p) => if flt(d, p.0) { Some((d, x)) } else { nearest } }
}
proof fn lemma_near_leaf(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, h: Multiset<Reverse<QueueItem>>, nearest: Option<(f64, SearchResultItem)>, r: SearchResultItem, x: f64, y: f64, ni: int, pos: int)
    requires near_in(items, lb, n, b, h, nearest, x, y, ni, 0, pos), pos < lb[0].end, pos < ni + b, r.index == pos - lb[0].start, r.offset == items[pos].offset,
    ensures near_in(items, lb, n, b, h, better(nearest, cdist(items[pos], x, y), r), x, y, ni, 0, pos + 1),
{
    reveal(near_in);
    let d = cdist(items[pos], x, y);
    let nn = better(nearest, d, r);
    assert(ok(items[pos]));
    axiom_mdist(items[pos], items[pos], x, y);
    broadcast use axiom_fle_trans;
    assert(fle(d, d));
    if nearest is Some && flt(d, (nearest->0).0) { assert(fle(d, (nearest->0).0)); }
    if nearest is Some && !flt(d, (nearest->0).0) { assert(fle((nearest->0).0, d)); }
    assert forall|j: int| #![trigger items[lb[0].start + j]] 0 <= j < n implies beaten(nn, cdist(items[lb[0].start + j], x, y)) || below(lb, b, h, j, cdist(items[lb[0].start + j], x, y))
            || pos + 1 <= lb[0].start + anc(j, 0, b) < ni + b by {
    }
}
proof fn lemma_near_push(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, h: Multiset<Reverse<QueueItem>>, nearest: Option<(f64, SearchResultItem)>, e: Reverse<QueueItem>, x: f64, y: f64, ni: int, l: int, pos: int)
    requires near_in(items, lb, n, b, h, nearest, x, y, ni, l, pos), pos < lb[l].end, pos < ni + b, l > 0,
        qnode(e.0) == items[pos].offset, e.0.level == l - 1, e.0.distance == mdist(items[pos], x, y),
    ensures near_in(items, lb, n, b, h.insert(e), nearest, x, y, ni, l, pos + 1),
{
    reveal(near_in);
    let h2 = h.insert(e);
    let r = pos - lb[l].start;
    assert(level_built(items, lb, b, l - 1));
    assert(items[lb[l - 1 + 1].start + r].offset == lb[l - 1].start + r * b);
    lemma_cdiv(cnt(lb, l - 1), b);
    assert(lb[l - 1].start < lb[l - 1].end);
    assert(cnt(lb, l - 1 + 1) == cdiv(cnt(lb, l - 1), b));
    assert(r * b <= (cdiv(cnt(lb, l - 1), b) - 1) * b) by (nonlinear_arith) requires r <= cdiv(cnt(lb, l - 1), b) - 1, b >= 1;
    assert((r * b) % b == 0) by { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(r, b); }
    assert(r * b >= 0) by (nonlinear_arith) requires r >= 0, b >= 1;
    assert(entry_ok(lb, b, ent(e)));
    lemma_levels_mono(lb, n, b, 0, l);
    axiom_mdist_num(items[pos], x, y);
    assert forall|f: Reverse<QueueItem>| #[trigger] h2.contains(f) implies entry_ok(lb, b, ent(f)) && fle(f.0.distance, f.0.distance) by { if f != e { assert(h.contains(f)); } }
    assert forall|j: int| #![trigger items[lb[0].start + j]] 0 <= j < n implies beaten(nearest, cdist(items[lb[0].start + j], x, y)) || below(lb, b, h2, j, cdist(items[lb[0].start + j], x, y))
            || pos + 1 <= lb[l].start + anc(j, l, b) < ni + b by {
        let d = cdist(items[lb[0].start + j], x, y);
        if below(lb, b, h, j, d) {
            let f = choose|f: Reverse<QueueItem>| #[trigger] h.contains(f) && under(lb, b, ent(f), j) && fle(f.0.distance, d);
            assert(h2.contains(f));
        }
        if lb[l].start + anc(j, l, b) == pos {
            lemma_anc_covers(items, lb, n, b, j, l);
            axiom_mdist(items[pos], items[lb[0].start + j], x, y);
            assert(anc(j, l, b) == anc(j, l - 1, b) / b);
            assert(h2.contains(e) && under(lb, b, ent(e), j));
        }
    }
}
proof fn lemma_near_done(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, h: Multiset<Reverse<QueueItem>>, nearest: Option<(f64, SearchResultItem)>, x: f64, y: f64, ni: int, l: int, pos: int)
    requires near_in(items, lb, n, b, h, nearest, x, y, ni, l, pos), pos == ni + b || pos == lb[l].end,
    ensures near_inv(items, lb, n, b, h, nearest, x, y),
{
    reveal(near_in); reveal(near_inv);
    assert forall|j: int| #![trigger items[lb[0].start + j]] 0 <= j < n implies beaten(nearest, cdist(items[lb[0].start + j], x, y)) || below(lb, b, h, j, cdist(items[lb[0].start + j], x, y)) by {
        lemma_anc(lb, n, b, j, l);
    }
}
proof fn lemma_near_end(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, nearest: Option<(f64, SearchResultItem)>, x: f64, y: f64)
    requires near_inv(items, lb, n, b, Multiset::<Reverse<QueueItem>>::empty(), nearest, x, y),
    ensures nearest is Some, near_exact(items, lb, n, seq![(nearest->0).1], x, y),
{
    reveal(near_inv);
    assert forall|j: int| #![trigger items[lb[0].start + j]] 0 <= j < n implies beaten(nearest, cdist(items[lb[0].start + j], x, y)) by {
        let d = cdist(items[lb[0].start + j], x, y);
        if below(lb, b, Multiset::<Reverse<QueueItem>>::empty(), j, d) {
            let f = choose|f: Reverse<QueueItem>| #[trigger] Multiset::<Reverse<QueueItem>>::empty().contains(f) && under(lb, b, ent(f), j) && fle(f.0.distance, d);
            assert(false);
        }
    }
    assert(cnt(lb, 0) == n);
    let j0 = items[lb[0].start + 0];
}

pub open spec fn answer(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, query: Query, res: Seq<SearchResultItem>) -> bool {
    match query {
        Query::BBox(x0, y0, x1, y1) => exact(items, lb, n, res, bbox_hits(x0, y0, x1, y1)),
        Query::PointIntersects(x, y) => exact(items, lb, n, res, point_hits(x, y)),
        Query::PointNearest(x, y) => near_exact(items, lb, n, res, x, y),
    }
}
pub open spec fn query_pre(items: Seq<NodeItem>, lb: Seq<Range<usize>>, query: Query) -> bool {
    match query {
        Query::PointNearest(x, y) => fin(x) && fin(y) && forall|i: int| lb[0].start <= i < lb[0].end ==> finbox(#[trigger] items[i]),
        _ => true,
    }
}

