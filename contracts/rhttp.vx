#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
use std::collections::BinaryHeap;
use std::cmp::Reverse;
use std::ops::Range;
use std::collections::VecDeque;
use std::cmp::min;
use std::mem::size_of;
use std::ops::RangeFrom;
verus! {
pub type Result<T, E = Error> = core::result::Result<T, E>;
%%include bytes.vx
%%include io.vx
/// where the children of a queued node start
spec fn qnode(q: QueueItem) -> usize { q.nodes.start }
%%include rtsec.vx
%%include rtbytes.vx
%%item packed_rtree/mod.rs pub enum HttpRange
%%item packed_rtree/mod.rs pub struct HttpSearchResultItem

// ---- box and point queries over range requests: queued are ranges of nodes of one level
/// the nodes of a queued range that it answers for; the extra leaf at the end of a range of leaves only tells where its predecessor ends
spec fn own(lb: Seq<Range<usize>>, q: NodeRange) -> int { if q.level == 0 && q.nodes.end < lb[0].end { q.nodes.end - 1 } else { q.nodes.end as int } }
spec fn more(l: int) -> int { if l == 0 { 1 } else { 0 } }
spec fn elem_ok(lb: Seq<Range<usize>>, q: NodeRange) -> bool {
    q.level < lb.len() && lb[q.level as int].start <= q.nodes.start < q.nodes.end <= lb[q.level as int].end
}
spec fn order_ok(lb: Seq<Range<usize>>, b: int, x: NodeRange, y: NodeRange) -> bool {
    &&& y.level <= x.level <= y.level + 1
    &&& x.level == y.level ==> x.nodes.end <= y.nodes.start
    &&& x.level == y.level + 1 ==> y.nodes.end <= child(lb, b, x.nodes.start as int, x.level as int) + more(y.level as int)
}
spec fn hq_ok(lb: Seq<Range<usize>>, b: int, q: Seq<NodeRange>) -> bool {
    &&& forall|k: int| 0 <= k < q.len() ==> elem_ok(lb, #[trigger] q[k])
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> order_ok(lb, b, #[trigger] q[i], #[trigger] q[j])
}
spec fn holds(lb: Seq<Range<usize>>, b: int, q: NodeRange, i: int) -> bool { q.nodes.start <= lb[q.level as int].start + anc(i, q.level as int, b) < own(lb, q) }
spec fn in_hq(lb: Seq<Range<usize>>, b: int, q: Seq<NodeRange>, i: int) -> bool { exists|k: int| 0 <= k < q.len() && holds(lb, b, #[trigger] q[k], i) }
pub open spec fn ks_ok(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, ks: Seq<int>, hits: spec_fn(NodeItem) -> bool) -> bool {
    &&& forall|m: int| 0 <= m < ks.len() ==> 0 <= #[trigger] ks[m] < n && hits(items[lb[0].start + ks[m]])
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] < #[trigger] ks[j]
}
/// ks are the leaves that are hit, each once, in order
pub open spec fn exact_ks(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, ks: Seq<int>, hits: spec_fn(NodeItem) -> bool) -> bool {
    &&& ks_ok(items, lb, n, ks, hits)
    &&& forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) ==> ks.contains(i)
}
#[verifier::opaque]
spec fn houter(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<NodeRange>, ks: Seq<int>, hits: spec_fn(NodeItem) -> bool) -> bool {
    &&& tree_ok(items, lb, n, b) && mono(hits) && hq_ok(lb, b, q) && ks_ok(items, lb, n, ks, hits)
    &&& forall|k: int| 0 <= k < q.len() && ks.len() > 0 ==> (#[trigger] q[k]).level == 0
    &&& forall|k: int, m: int| 0 <= k < q.len() && 0 <= m < ks.len() ==> #[trigger] ks[m] + lb[0].start < (#[trigger] q[k]).nodes.start
    &&& forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) ==> ks.contains(i) || in_hq(lb, b, q, i)
}
/// c is being looked at, its nodes before pos are done
#[verifier::opaque]
spec fn hinner(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<NodeRange>, ks: Seq<int>, hits: spec_fn(NodeItem) -> bool, c: NodeRange, pos: int) -> bool {
    let l = c.level as int;
    &&& tree_ok(items, lb, n, b) && mono(hits) && hq_ok(lb, b, q) && ks_ok(items, lb, n, ks, hits)
    &&& elem_ok(lb, c) && c.nodes.start <= pos <= c.nodes.end
    &&& l > 0 ==> ks.len() == 0
    &&& forall|k: int| 0 <= k < q.len() ==> (#[trigger] q[k]).level <= l <= q[k].level + 1 && (q[k].level == l ==> q[k].nodes.start >= c.nodes.end)
            && (q[k].level == l - 1 ==> q[k].nodes.end <= child(lb, b, pos, l) + more(l - 1))
    &&& forall|m: int| 0 <= m < ks.len() ==> #[trigger] ks[m] + lb[0].start < pos
    &&& l == 0 && c.nodes.end < lb[0].end ==> !hits(items[c.nodes.end - 1])
    &&& forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) ==> ks.contains(i) || in_hq(lb, b, q, i) || (pos <= lb[l].start + anc(i, l, b) < own(lb, c))
}
proof fn lemma_hbegin(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<NodeRange>, hits: spec_fn(NodeItem) -> bool)
    requires tree_ok(items, lb, n, b), mono(hits), q.len() == 1, q[0].level == lb.len() - 1, q[0].nodes.start == 0, q[0].nodes.end == 1,
    ensures houter(items, lb, n, b, q, Seq::<int>::empty(), hits),
{
    reveal(houter);
    let top = (lb.len() - 1) as int;
    assert forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n implies in_hq(lb, b, q, i) by {
        lemma_anc(lb, n, b, i, top);
        assert(holds(lb, b, q[0], i));
    }
}
proof fn lemma_hpop(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q0: Seq<NodeRange>, q: Seq<NodeRange>, ks: Seq<int>, hits: spec_fn(NodeItem) -> bool)
    requires houter(items, lb, n, b, q0, ks, hits), q0.len() > 0, q == q0.subrange(1, q0.len() as int),
    ensures hinner(items, lb, n, b, q, ks, hits, q0[0], q0[0].nodes.start as int),
{
    reveal(houter); reveal(hinner);
    let c = q0[0]; let l = c.level as int; let ni = c.nodes.start as int;
    assert(elem_ok(lb, q0[0]));
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]).level <= l <= q[k].level + 1 && (q[k].level == l ==> q[k].nodes.start >= c.nodes.end)
            && (q[k].level == l - 1 ==> q[k].nodes.end <= child(lb, b, ni, l) + more(l - 1)) by { assert(q[k] == q0[k + 1]); assert(order_ok(lb, b, q0[0], q0[k + 1])); }
    assert forall|k: int| 0 <= k < q.len() implies elem_ok(lb, #[trigger] q[k]) by { assert(q[k] == q0[k + 1]); }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies order_ok(lb, b, #[trigger] q[i], #[trigger] q[j]) by { assert(q[i] == q0[i + 1] && q[j] == q0[j + 1]); }
    assert forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) implies ks.contains(i) || in_hq(lb, b, q, i) || (ni <= lb[l].start + anc(i, l, b) < own(lb, c)) by {
        if !ks.contains(i) {
            let k = choose|k: int| 0 <= k < q0.len() && holds(lb, b, #[trigger] q0[k], i);
            if k > 0 { assert(q[k - 1] == q0[k]); assert(in_hq(lb, b, q, i)); }
        }
    }
    assert forall|m: int| 0 <= m < ks.len() implies #[trigger] ks[m] + lb[0].start < ni by {}
    if ks.len() > 0 { assert(q0[0].level == 0); }
    if l == 0 && c.nodes.end < lb[0].end && hits(items[c.nodes.end - 1]) {
        let i = c.nodes.end - 1 - lb[0].start;
        lemma_anc(lb, n, b, i, 0);
        assert(items[lb[0].start + i] == items[c.nodes.end - 1]);
        if ks.contains(i) { let m = choose|m: int| 0 <= m < ks.len() && ks[m] == i; assert(ks[m] + lb[0].start < q0[0].nodes.start); }
        assert(in_hq(lb, b, q0, i));
        let k = choose|k: int| 0 <= k < q0.len() && holds(lb, b, #[trigger] q0[k], i);
        assert(anc(i, 0, b) == i);
        if k > 0 { assert(order_ok(lb, b, q0[0], q0[k])); assert(q0[k].level == 0); }
        assert(false);
    }
}
proof fn lemma_hfacts(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<NodeRange>, ks: Seq<int>, hits: spec_fn(NodeItem) -> bool, c: NodeRange, pos: int)
    requires hinner(items, lb, n, b, q, ks, hits, c, pos),
    ensures items.len() == lb[0].end, lb.len() >= 2, elem_ok(lb, c), c.nodes.end <= items.len(), lb[0].end - lb[0].start == n, c.nodes.start <= pos <= c.nodes.end, b >= 2, lb[0].end <= 3 * BOUND(),
        c.level > 0 ==> ks.len() == 0, pos < c.nodes.end && c.level == 0 && hits(items[pos]) && pos + 1 == c.nodes.end ==> c.nodes.end == lb[0].end,
        forall|k: int| 0 <= k < q.len() ==> elem_ok(lb, #[trigger] q[k]) && q[k].level <= c.level <= q[k].level + 1 && (q[k].level == c.level - 1 ==> q[k].nodes.end <= child(lb, b, pos, c.level as int) + more(c.level - 1)),
        c.level > 0 && pos < c.nodes.end ==> items[pos].offset == child(lb, b, pos, c.level as int) && child(lb, b, pos, c.level as int) < lb[c.level - 1].end && lb[c.level - 1].start <= child(lb, b, pos, c.level as int),
        c.level > 0 ==> lb[c.level - 1].end <= lb[0].end,
{
    reveal(hinner);
    let l = c.level as int;
    lemma_levels_mono(lb, n, b, 0, l);
    if l > 0 {
        lemma_levels_mono(lb, n, b, 0, l - 1);
        if pos < c.nodes.end {
            let r = pos - lb[l].start;
            assert(level_built(items, lb, b, l - 1));
            assert(items[lb[l - 1 + 1].start + r].offset == lb[l - 1].start + r * b);
            assert(lb[l - 1].start < lb[l - 1].end);
            lemma_cdiv(cnt(lb, l - 1), b);
            assert(cnt(lb, l - 1 + 1) == cdiv(cnt(lb, l - 1), b));
            assert(r * b <= (cdiv(cnt(lb, l - 1), b) - 1) * b) by (nonlinear_arith) requires r <= cdiv(cnt(lb, l - 1), b) - 1, b >= 1;
            assert(r * b >= 0) by (nonlinear_arith) requires r >= 0, b >= 1;
        }
    }
}
proof fn lemma_hskip(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<NodeRange>, ks: Seq<int>, hits: spec_fn(NodeItem) -> bool, c: NodeRange, pos: int)
    requires hinner(items, lb, n, b, q, ks, hits, c, pos), pos < c.nodes.end, !hits(items[pos]),
    ensures hinner(items, lb, n, b, q, ks, hits, c, pos + 1),
{
    reveal(hinner);
    let l = c.level as int;
    lemma_child_mono(lb, b, pos, pos + 1, l);
    assert forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) implies ks.contains(i) || in_hq(lb, b, q, i) || (pos + 1 <= lb[l].start + anc(i, l, b) < own(lb, c)) by {
        if lb[l].start + anc(i, l, b) == pos { lemma_anc_covers(items, lb, n, b, i, l); }
    }
}
proof fn lemma_hleaf(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<NodeRange>, ks: Seq<int>, hits: spec_fn(NodeItem) -> bool, c: NodeRange, pos: int)
    requires hinner(items, lb, n, b, q, ks, hits, c, pos), pos < c.nodes.end, hits(items[pos]), c.level == 0,
    ensures hinner(items, lb, n, b, q, ks.push(pos - lb[0].start), hits, c, pos + 1),
{
    reveal(hinner);
    let k2 = ks.push(pos - lb[0].start);
    assert forall|i: int, j: int| 0 <= i < j < k2.len() implies #[trigger] k2[i] < #[trigger] k2[j] by { assert(k2[i] == ks[i]); assert(ks[i] + lb[0].start < pos); if j < ks.len() { assert(k2[j] == ks[j]); } }
    assert forall|m: int| 0 <= m < k2.len() implies 0 <= #[trigger] k2[m] < n && hits(items[lb[0].start + k2[m]]) && k2[m] + lb[0].start < pos + 1 by { if m < ks.len() { assert(k2[m] == ks[m]); } }
    assert forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) implies k2.contains(i) || in_hq(lb, b, q, i) || (pos + 1 <= lb[0].start + anc(i, 0, b) < own(lb, c)) by {
        assert(anc(i, 0, b) == i);
        if ks.contains(i) { let m = choose|m: int| 0 <= m < ks.len() && ks[m] == i; assert(k2[m] == i); }
        if lb[0].start + i == pos { assert(k2[ks.len() as int] == i); }
    }
}
/// the leaves under node pos lie under its children
proof fn lemma_under(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, i: int, l: int, pos: int)
    requires tree_ok(items, lb, n, b), 0 <= i < n, 0 < l < lb.len(), lb[l].start + anc(i, l, b) == pos,
    ensures child(lb, b, pos, l) <= lb[l - 1].start + anc(i, l - 1, b) < child(lb, b, pos, l) + b, anc(i, l - 1, b) < cnt(lb, l - 1),
{
    lemma_anc(lb, n, b, i, l - 1);
    let a = anc(i, l - 1, b);
    assert(anc(i, l, b) == a / b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
    assert((a / b) * b == b * (a / b)) by (nonlinear_arith);
    assert(pos - lb[l].start == a / b);
    assert((pos - lb[l].start) * b == (a / b) * b);
}
/// the children of node pos as a range to fetch
spec fn child_range(lb: Seq<Range<usize>>, b: int, l: int, pos: int) -> NodeRange {
    NodeRange { level: (l - 1) as usize, nodes: Range { start: child(lb, b, pos, l) as usize, end: least(child(lb, b, pos, l) + b + more(l - 1), lb[l - 1].end as int) as usize } }
}
proof fn lemma_hpush(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<NodeRange>, ks: Seq<int>, hits: spec_fn(NodeItem) -> bool, c: NodeRange, pos: int)
    requires hinner(items, lb, n, b, q, ks, hits, c, pos), pos < c.nodes.end, hits(items[pos]), c.level > 0,
        q.len() == 0 || q.last().level != c.level - 1 || q.last().nodes.end <= child(lb, b, pos, c.level as int),
    ensures hinner(items, lb, n, b, q.push(child_range(lb, b, c.level as int, pos)), ks, hits, c, pos + 1),
{
    lemma_hfacts(items, lb, n, b, q, ks, hits, c, pos);
    reveal(hinner);
    let l = c.level as int; let e = child_range(lb, b, l, pos); let q2 = q.push(e);
    lemma_child_mono(lb, b, pos, pos + 1, l);
    assert(elem_ok(lb, e));
    assert forall|k: int| 0 <= k < q.len() implies order_ok(lb, b, #[trigger] q[k], e) by {
        assert(elem_ok(lb, q[k]));
        let z = q.last();
        if k < q.len() - 1 { assert(order_ok(lb, b, q[k], q[q.len() - 1])); }
        if q[k].level == l { if pos + 1 < q[k].nodes.start { lemma_child_mono(lb, b, pos + 1, q[k].nodes.start as int, l); } }
        else {
            assert(q[k].level == l - 1 && z.level == l - 1);
            assert(elem_ok(lb, q[q.len() - 1]));
            if k < q.len() - 1 { assert(q[k].nodes.end <= z.nodes.start); }
        }
    }
    assert forall|k: int| 0 <= k < q2.len() implies elem_ok(lb, #[trigger] q2[k]) && q2[k].level <= l <= q2[k].level + 1 && (q2[k].level == l ==> q2[k].nodes.start >= c.nodes.end)
            && (q2[k].level == l - 1 ==> q2[k].nodes.end <= child(lb, b, pos + 1, l) + more(l - 1)) by { if k < q.len() { assert(q2[k] == q[k]); } }
    assert forall|i: int, j: int| 0 <= i < j < q2.len() implies order_ok(lb, b, #[trigger] q2[i], #[trigger] q2[j]) by { assert(q2[i] == q[i]); if j < q.len() { assert(q2[j] == q[j]); } }
    assert forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) implies ks.contains(i) || in_hq(lb, b, q2, i) || (pos + 1 <= lb[l].start + anc(i, l, b) < own(lb, c)) by {
        if in_hq(lb, b, q, i) { let k = choose|k: int| 0 <= k < q.len() && holds(lb, b, #[trigger] q[k], i); assert(q2[k] == q[k]); }
        if lb[l].start + anc(i, l, b) == pos { lemma_under(items, lb, n, b, i, l, pos); assert(holds(lb, b, q2[q.len() as int], i)); }
    }
}
spec fn merged(t: NodeRange, end: usize) -> NodeRange { NodeRange { level: t.level, nodes: Range { start: t.nodes.start, end } } }
proof fn lemma_hmerge(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<NodeRange>, ks: Seq<int>, hits: spec_fn(NodeItem) -> bool, c: NodeRange, pos: int)
    requires hinner(items, lb, n, b, q, ks, hits, c, pos), pos < c.nodes.end, hits(items[pos]), c.level > 0, q.len() > 0, q.last().level == c.level - 1,
    ensures hinner(items, lb, n, b, q.drop_last().push(merged(q.last(), child_range(lb, b, c.level as int, pos).nodes.end)), ks, hits, c, pos + 1),
{
    lemma_hfacts(items, lb, n, b, q, ks, hits, c, pos);
    reveal(hinner);
    let l = c.level as int; let e = child_range(lb, b, l, pos); let z = q.last(); let m = merged(z, e.nodes.end); let q2 = q.drop_last().push(m); let w = q.len() - 1;
    lemma_child_mono(lb, b, pos, pos + 1, l);
    assert(elem_ok(lb, q[w])); assert(elem_ok(lb, m)); assert(q[w] == z);
    assert(z.nodes.end <= e.nodes.end && own(lb, z) <= own(lb, m));
    assert forall|k: int| 0 <= k < w implies order_ok(lb, b, #[trigger] q[k], m) by {
        assert(order_ok(lb, b, q[k], q[w])); assert(elem_ok(lb, q[k]));
        if q[k].level == l { if pos + 1 < q[k].nodes.start { lemma_child_mono(lb, b, pos + 1, q[k].nodes.start as int, l); } }
    }
    assert forall|k: int| 0 <= k < q2.len() implies elem_ok(lb, #[trigger] q2[k]) && q2[k].level <= l <= q2[k].level + 1 && (q2[k].level == l ==> q2[k].nodes.start >= c.nodes.end)
            && (q2[k].level == l - 1 ==> q2[k].nodes.end <= child(lb, b, pos + 1, l) + more(l - 1)) by { if k < w { assert(q2[k] == q[k]); } }
    assert forall|i: int, j: int| 0 <= i < j < q2.len() implies order_ok(lb, b, #[trigger] q2[i], #[trigger] q2[j]) by { assert(q2[i] == q[i]); if j < w { assert(q2[j] == q[j]); } }
    assert forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) implies ks.contains(i) || in_hq(lb, b, q2, i) || (pos + 1 <= lb[l].start + anc(i, l, b) < own(lb, c)) by {
        if in_hq(lb, b, q, i) { let k = choose|k: int| 0 <= k < q.len() && holds(lb, b, #[trigger] q[k], i); if k < w { assert(q2[k] == q[k]); } else { assert(holds(lb, b, q2[w], i)); } }
        if lb[l].start + anc(i, l, b) == pos {
            lemma_under(items, lb, n, b, i, l, pos);
            assert(z.nodes.start <= e.nodes.start);
            assert(holds(lb, b, q2[w], i));
        }
    }
}
proof fn lemma_hdone(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<NodeRange>, ks: Seq<int>, hits: spec_fn(NodeItem) -> bool, c: NodeRange, pos: int)
    requires hinner(items, lb, n, b, q, ks, hits, c, pos), pos == c.nodes.end,
    ensures houter(items, lb, n, b, q, ks, hits),
{
    reveal(hinner); reveal(houter);
    assert forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) implies ks.contains(i) || in_hq(lb, b, q, i) by {}
    assert forall|k: int, m: int| 0 <= k < q.len() && 0 <= m < ks.len() implies #[trigger] ks[m] + lb[0].start < (#[trigger] q[k]).nodes.start by {}
}
proof fn lemma_hexit(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, q: Seq<NodeRange>, ks: Seq<int>, hits: spec_fn(NodeItem) -> bool)
    requires houter(items, lb, n, b, q, ks, hits),
    ensures q.len() == 0 ==> exact_ks(items, lb, n, ks, hits),
{
    reveal(houter);
    if q.len() == 0 { assert forall|i: int| #![trigger items[lb[0].start + i]] 0 <= i < n && hits(items[lb[0].start + i]) implies ks.contains(i) by {} }
}
// ---- what is returned: where each feature lies
impl HttpRange {
    pub open spec fn at(self) -> int { match self { HttpRange::Range(r) => r.start as int, HttpRange::RangeFrom(r) => r.start as int } }
    pub open spec fn until(self) -> int { match self { HttpRange::Range(r) => r.end as int, HttpRange::RangeFrom(r) => -1 } }
}
/// the range of leaf k: to the start of the next one, open for the last
pub open spec fn rng_ok(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, fb: int, r: HttpSearchResultItem, k: int) -> bool {
    &&& r.range.at() == fb + items[lb[0].start + k].offset && (r.range is Range <==> k < n - 1)
    &&& k < n - 1 ==> r.range.until() == fb + items[lb[0].start + k + 1].offset
}
pub open spec fn rngs_ok(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, fb: int, res: Seq<HttpSearchResultItem>, ks: Seq<int>) -> bool {
    res.len() == ks.len() && forall|j: int| 0 <= j < res.len() ==> rng_ok(items, lb, n, fb, #[trigger] res[j], ks[j])
}
pub open spec fn best_rel(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, fb: int, a: Option<(f64, HttpSearchResultItem)>, g: Option<(f64, SearchResultItem)>) -> bool {
    (a is Some <==> g is Some) && (a is Some ==> (a->0).0 == (g->0).0 && rng_ok(items, lb, n, fb, (a->0).1, (g->0).1.index as int))
}
/// every queued entry of the nearest search is a node's children, with the extra leaf
spec fn near_ranges(lb: Seq<Range<usize>>, b: int, h: Multiset<Reverse<QueueItem>>) -> bool {
    forall|e: Reverse<QueueItem>| #[trigger] h.contains(e) ==> e.0.level < lb.len() && e.0.nodes.end == least(e.0.nodes.start + b + more(e.0.level as int), lb[e.0.level as int].end as int)
}
pub open spec fn http_answer(d: Seq<u8>, p: int, n: int, b: int, fb: int, q: Query, res: Seq<HttpSearchResultItem>) -> bool {
    exists|lb: Seq<Range<usize>>, ks: Seq<int>| #[trigger] levels_ok(lb, n, b) && #[trigger] rngs_ok(nodes_of(d, p, total(n, b)), lb, n, fb, res, ks) && answer_ks(nodes_of(d, p, total(n, b)), lb, n, q, ks)
}
pub open spec fn answer_ks(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, query: Query, ks: Seq<int>) -> bool {
    match query {
        Query::BBox(x0, y0, x1, y1) => exact_ks(items, lb, n, ks, bbox_hits(x0, y0, x1, y1)),
        Query::PointIntersects(x, y) => exact_ks(items, lb, n, ks, point_hits(x, y)),
        Query::PointNearest(x, y) => ks.len() == 1 && 0 <= ks[0] < n && forall|j: int| #![trigger items[lb[0].start + j]] 0 <= j < n ==> fle(cdist(items[lb[0].start + ks[0]], x, y), cdist(items[lb[0].start + j], x, y)),
    }
}
pub open spec fn offsets_fit(items: Seq<NodeItem>) -> bool { forall|k: int| 0 <= k < items.len() ==> (#[trigger] items[k]).offset <= 0x1000_0000_0000_0000 }
proof fn lemma_near_child(items: Seq<NodeItem>, lb: Seq<Range<usize>>, n: int, b: int, h: Multiset<Reverse<QueueItem>>, g: Option<(f64, SearchResultItem)>, x: f64, y: f64, ni: int, l: int, pos: int)
    requires near_in(items, lb, n, b, h, g, x, y, ni, l, pos), 0 < l, pos < lb[l].end,
    ensures items[pos].offset == child(lb, b, pos, l), lb[l - 1].start <= child(lb, b, pos, l) < lb[l - 1].end, lb[l - 1].end <= lb[0].end, lb[0].end <= 3 * BOUND(),
{
    reveal(near_in);
    let r = pos - lb[l].start;
    lemma_levels_mono(lb, n, b, 0, l - 1);
    assert(level_built(items, lb, b, l - 1));
    assert(items[lb[l - 1 + 1].start + r].offset == lb[l - 1].start + r * b);
    assert(lb[l - 1].start < lb[l - 1].end);
    lemma_cdiv(cnt(lb, l - 1), b);
    assert(cnt(lb, l - 1 + 1) == cdiv(cnt(lb, l - 1), b));
    assert(r * b <= (cdiv(cnt(lb, l - 1), b) - 1) * b) by (nonlinear_arith) requires r <= cdiv(cnt(lb, l - 1), b) - 1, b >= 1;
    assert(r * b >= 0) by (nonlinear_arith) requires r >= 0, b >= 1;
}

// ---- range requests (crate http_range_client, assumed): the server holds the file; a range that is asked for lies in the file
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct AsyncBufferedHttpRangeClient<T> { x: core::marker::PhantomData<T> }
pub trait AsyncHttpRangeClient {}
#[verifier::external_body] pub struct Bytes { x: u8 }
impl Bytes { pub uninterp spec fn view(&self) -> Seq<u8>; }
impl<T> AsyncBufferedHttpRangeClient<T> {
    pub uninterp spec fn file(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn min_req_size(&mut self, n: usize) -> (r: &mut Self) ensures r.file() == old(self).file(), final(self).file() == final(r).file() { unimplemented!() }
    #[verifier::external_body] pub fn get_range(&mut self, begin: usize, length: usize) -> (r: Result<Bytes>)
        requires 0 < length, begin + length <= old(self).file().len(),
        ensures final(self).file() == old(self).file(), r is Ok ==> r->Ok_0@ == old(self).file().subrange(begin as int, begin + length) { unimplemented!() }
}
/// bytes.chunks(k), for a whole number of chunks
#[verifier::external_body] pub fn chunks_of(b: &Bytes, k: usize) -> (r: Vec<&[u8]>)
    requires k > 0, b@.len() as int % k as int == 0,
    ensures r@.len() == b@.len() as int / k as int, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i]@ == b@.subrange(i * k, i * k + k) { unimplemented!() }
#[verifier::external_body] pub fn back_mut_of<X>(v: &mut VecDeque<X>) -> (r: Option<&mut X>)
    ensures match r { Some(x) => old(v)@.len() > 0 && *x == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(x)), None => old(v)@.len() == 0 && final(v)@ == old(v)@ } { unimplemented!() }
pub fn node_at(v: &Vec<NodeItem>, i: usize) -> (r: Option<&NodeItem>) ensures r == (if i < v@.len() { Some(&v@[i as int]) } else { None }) { if i < v.len() { Some(&v[i]) } else { None } }
/// o.map(|(_, item)| vec![item]).unwrap_or_default()
pub fn one_of<X>(o: Option<(f64, X)>) -> (r: Vec<X>) ensures r@ == (if o is Some { seq![(o->0).1] } else { Seq::<X>::empty() }) { match o { Some((_, item)) => { let mut v = Vec::new(); v.push(item); v } None => Vec::new() } }
pub fn req_eq(a: usize, b: usize) requires a == b {}
%%fn packed_rtree/mod.rs - read_http_node_items
%%ret r
%%deasync
%%sub `node_ids.len()` => `(node_ids.end - node_ids.start)`
%%dropmacro debug_assert_eq
%%sub `for node_item_bytes in bytes.chunks(size_of::<NodeItem>()) {` => `let parts_ = chunks_of(&bytes, size_of::<NodeItem>()); for i_ in 0..parts_.len() { let node_item_bytes = parts_[i_];`
%%loops 1
%%spec
    requires node_ids.start < node_ids.end, base + 40 * node_ids.end <= old(client).file().len() <= 0x7000_0000_0000_0000,
    ensures final(client).file() == old(client).file(), r is Ok ==> r->Ok_0@ == nodes_of(old(client).file(), base + 40 * node_ids.start, node_ids.end - node_ids.start),
%%before 0
    let ghost d = client.file(); let ghost p = base + 40 * node_ids.start; let ghost k = node_ids.end - node_ids.start;
    proof { assert((k * 40) / 40 == k && (k * 40) % 40 == 0) by (nonlinear_arith); }
%%loop 0
    invariant
        client.file() == d, d == old(client).file(), parts_@.len() == k, node_items@.len() == i_, 0 <= p, p + 40 * k <= d.len(),
        forall|i: int| 0 <= i < k ==> #[trigger] parts_@[i]@ == d.subrange(p, p + 40 * k).subrange(i * 40, i * 40 + 40),
        forall|i: int| 0 <= i < i_ ==> #[trigger] node_items@[i] == dec_node(d, p + 40 * i),
%%loopstart 0
    proof { let w = d.subrange(p, p + 40 * k).subrange(i_ * 40, i_ * 40 + 40); assert(w =~= d.subrange(p + 40 * i_, p + 40 * i_ + 40)); lemma_dec_part(d, w, p + 40 * i_); }
%%end
    proof { assert(node_items@ =~= nodes_of(d, p, k)); }
%%done
proof fn lemma_dec_part(d: Seq<u8>, w: Seq<u8>, p: int)
    requires 0 <= p, p + 40 <= d.len(), w == d.subrange(p, p + 40),
    ensures w.len() == 40, dec_node(w, 0) == dec_node(d, p),
{
    assert(w.subrange(0, 8) =~= d.subrange(p, p + 8)); assert(w.subrange(8, 16) =~= d.subrange(p + 8, p + 16)); assert(w.subrange(16, 24) =~= d.subrange(p + 16, p + 24));
    assert(w.subrange(24, 32) =~= d.subrange(p + 24, p + 32)); assert(w.subrange(32, 40) =~= d.subrange(p + 32, p + 40));
}
%%fn packed_rtree/mod.rs "impl PackedRTree" http_stream_search
%%deasync
%%hoist
%%dropmacro debug
%%sub `nearest.map(|(_, item)| vec![item]).unwrap_or_default()` => `one_of(nearest)`
%%sub `for (node_pos, node_item) in node_items.iter().enumerate() {` => `for node_pos in 0..node_items.len() { let node_item = &node_items[node_pos];`
%%sub `&node_items.get(node_pos + 1)` => `node_at(&node_items, node_pos + 1)`
%%sub `queue.back_mut()` => `back_mut_of(&mut queue)`
%%sub `debug_assert_eq!( node_range.nodes.start + node_pos, level_bounds[0].end - 1 );` => `req_eq(node_range.nodes.start + node_pos, level_bounds[0].end - 1);`
%%sub `debug_assert_eq!( next.nodes.start + node_pos, level_bounds[0].end - 1 );` => `req_eq(next.nodes.start + node_pos, level_bounds[0].end - 1);`
%%sub `debug_assert_eq!( children_range.nodes.start + 1, tail.nodes.end, "we only ever fetch one extra node" );` => `req_eq(children_range.nodes.start + 1, tail.nodes.end);`
%%sub `debug_assert_eq!( children_level, 0, "extra node fetching only happens with leaf nodes" );` => `req_eq(children_level, 0);`
%%attr #[verifier::exec_allows_no_decreases_clause]
%%attr #[verifier::rlimit(60)]
%%ret r
%%loops 6
%%while 1 np0
%%while 3 np1
%%while 5 np2
%%spec
    requires num_items > 0 ==> branching_factor >= 2 && stored_tree(old(client).file(), index_begin as int, num_items as int, branching_factor as int)
            && stored_pre(old(client).file(), index_begin as int, num_items as int, branching_factor as int, query)
            && offsets_fit(nodes_of(old(client).file(), index_begin as int, total(num_items as int, branching_factor as int))) && attr_index_size <= 0x1000_0000_0000_0000,
    ensures final(client).file() == old(client).file(), num_items == 0 ==> r is Ok && r->Ok_0@.len() == 0,
        num_items > 0 && r is Ok ==> http_answer(old(client).file(), index_begin as int, num_items as int, branching_factor as int,
            index_begin + attr_index_size + 40 * total(num_items as int, branching_factor as int), query, r->Ok_0@),
%%after `let level_bounds = PackedRTree::generate_level_bounds(num_items, branching_factor);`
    let ghost d = client.file(); let ghost base = index_begin as int; let ghost n = num_items as int; let ghost b = branching_factor as int;
    let ghost items = nodes_of(d, base, total(n, b)); let ghost lb = level_bounds@; let ghost fb = base + attr_index_size + 40 * total(n, b);
    proof { lemma_stored_at(d, base, lb, n, b); lemma_stored(d, base, n, b); }
%%pre `let level_bounds = PackedRTree::generate_level_bounds(num_items, branching_factor);`
    proof { lemma_stored(client.file(), index_begin as int, num_items as int, branching_factor as int); }
%%before 0
    let ghost h = bbox_hits(min_x, min_y, max_x, max_y);
    let ghost mut gq = queue@;
    let ghost mut ks = Seq::<int>::empty();
    proof {
        lemma_bbox_mono(min_x, min_y, max_x, max_y);
        lemma_hbegin(items, lb, n, b, queue@, h);
    }
%%loop 0
    invariant
        d == client.file(), d == old(client).file(), base == index_begin, n == num_items, b == branching_factor, items == nodes_of(d, base, total(n, b)), lb == level_bounds@, fb == base + attr_index_size + 40 * total(n, b), feature_begin == fb,
        0 <= base, base + 40 * total(n, b) <= d.len() <= 0x7000_0000_0000_0000, attr_index_size <= 0x1000_0000_0000_0000, offsets_fit(items), items.len() == total(n, b), levels_ok(lb, n, b), tree_ok(items, lb, n, b),
        gq == queue@, h == bbox_hits(min_x, min_y, max_x, max_y), bounds.min_x == min_x, bounds.min_y == min_y, bounds.max_x == max_x, bounds.max_y == max_y, query == Query::BBox(min_x, min_y, max_x, max_y),
        rngs_ok(items, lb, n, fb, results@, ks), houter(items, lb, n, b, queue@, ks, h),
    ensures queue@.len() == 0,
%%loopstart 0
    let ghost c = node_range;
    proof {
        lemma_hpop(items, lb, n, b, gq, queue@, ks, h);
        lemma_hfacts(items, lb, n, b, queue@, ks, h, c, c.nodes.start as int);
        lemma_part(d, base, total(n, b), c.nodes.start as int, c.nodes.end as int);
    }
%%loop 1
    invariant
        d == client.file(), d == old(client).file(), base == index_begin, n == num_items, b == branching_factor, items == nodes_of(d, base, total(n, b)), lb == level_bounds@, fb == base + attr_index_size + 40 * total(n, b), feature_begin == fb,
        0 <= base, base + 40 * total(n, b) <= d.len() <= 0x7000_0000_0000_0000, attr_index_size <= 0x1000_0000_0000_0000, offsets_fit(items), items.len() == total(n, b), levels_ok(lb, n, b), tree_ok(items, lb, n, b),
        h == bbox_hits(min_x, min_y, max_x, max_y), bounds.min_x == min_x, bounds.min_y == min_y, bounds.max_x == max_x, bounds.max_y == max_y, query == Query::BBox(min_x, min_y, max_x, max_y),
        rngs_ok(items, lb, n, fb, results@, ks), c == node_range, elem_ok(lb, c), c.nodes.end <= items.len(), node_items@ == items.subrange(c.nodes.start as int, c.nodes.end as int),
        np0_end == c.nodes.end - c.nodes.start, np0 <= np0_end,
        hinner(items, lb, n, b, queue@, ks, h, c, c.nodes.start + np0),
    decreases np0_end - np0
%%loopstart 1
    let ghost pos = c.nodes.start + np0; let ghost l = c.level as int; let ghost q0 = queue@; let ghost ks0 = ks;
    proof {
        lemma_hfacts(items, lb, n, b, q0, ks0, h, c, pos);
        assert(node_items@[np0 as int] == items[pos]);
        if !h(items[pos]) { lemma_hskip(items, lb, n, b, q0, ks0, h, c, pos); }
        else if l == 0 { lemma_hleaf(items, lb, n, b, q0, ks0, h, c, pos); ks = ks0.push(pos - lb[0].start); }
        else {
            if q0.len() == 0 || q0.last().level != l - 1 || q0.last().nodes.end <= child(lb, b, pos, l) { lemma_hpush(items, lb, n, b, q0, ks0, h, c, pos); }
            if q0.len() > 0 && q0.last().level == l - 1 { assert(elem_ok(lb, q0[q0.len() - 1])); lemma_hmerge(items, lb, n, b, q0, ks0, h, c, pos); }
        }
    }
%%pre `queue.push_back(children_range);` 0
    proof { assert(children_range == child_range(lb, b, l, pos)); assert(queue@ =~= q0); assert(q0.len() == 0); assert(q0.push(children_range) == q0.push(child_range(lb, b, l, pos))); }
%%pre `queue.push_back(children_range);` 1
    proof { assert(children_range == child_range(lb, b, l, pos)); assert(queue@ =~= q0); assert(q0.last().level != l - 1); }
%%pre `queue.push_back(children_range);` 2
    proof { assert(children_range == child_range(lb, b, l, pos)); assert(queue@ =~= q0); assert(q0.last().nodes.end <= child(lb, b, pos, l)); }
%%after `tail.nodes.end = children_range.nodes.end;` 0
    proof { assert(queue@ =~= q0.drop_last().push(merged(q0.last(), child_range(lb, b, l, pos).nodes.end))); }
%%post 1
    proof { lemma_hdone(items, lb, n, b, queue@, ks, h, c, c.nodes.end as int); gq = queue@; }
%%post 0
    proof { lemma_hexit(items, lb, n, b, queue@, ks, h); assert(answer_ks(items, lb, n, query, ks)); assert(http_answer(d, base, n, b, fb, query, results@)); }
%%before 2
    let ghost h = point_hits(x, y);
    let ghost mut gq = queue@;
    let ghost mut ks = Seq::<int>::empty();
    proof {
        lemma_point_hits_mono(x, y);
        lemma_hbegin(items, lb, n, b, queue@, h);
    }
%%loop 2
    invariant
        d == client.file(), d == old(client).file(), base == index_begin, n == num_items, b == branching_factor, items == nodes_of(d, base, total(n, b)), lb == level_bounds@, fb == base + attr_index_size + 40 * total(n, b), feature_begin == fb,
        0 <= base, base + 40 * total(n, b) <= d.len() <= 0x7000_0000_0000_0000, attr_index_size <= 0x1000_0000_0000_0000, offsets_fit(items), items.len() == total(n, b), levels_ok(lb, n, b), tree_ok(items, lb, n, b),
        gq == queue@, h == point_hits(x, y), query == Query::PointIntersects(x, y),
        rngs_ok(items, lb, n, fb, results@, ks), houter(items, lb, n, b, queue@, ks, h),
    ensures queue@.len() == 0,
%%loopstart 2
    let ghost c = node_range;
    proof {
        lemma_hpop(items, lb, n, b, gq, queue@, ks, h);
        lemma_hfacts(items, lb, n, b, queue@, ks, h, c, c.nodes.start as int);
        lemma_part(d, base, total(n, b), c.nodes.start as int, c.nodes.end as int);
    }
%%loop 3
    invariant
        d == client.file(), d == old(client).file(), base == index_begin, n == num_items, b == branching_factor, items == nodes_of(d, base, total(n, b)), lb == level_bounds@, fb == base + attr_index_size + 40 * total(n, b), feature_begin == fb,
        0 <= base, base + 40 * total(n, b) <= d.len() <= 0x7000_0000_0000_0000, attr_index_size <= 0x1000_0000_0000_0000, offsets_fit(items), items.len() == total(n, b), levels_ok(lb, n, b), tree_ok(items, lb, n, b),
        h == point_hits(x, y), query == Query::PointIntersects(x, y),
        rngs_ok(items, lb, n, fb, results@, ks), c == node_range, elem_ok(lb, c), c.nodes.end <= items.len(), node_items@ == items.subrange(c.nodes.start as int, c.nodes.end as int),
        np1_end == c.nodes.end - c.nodes.start, np1 <= np1_end,
        hinner(items, lb, n, b, queue@, ks, h, c, c.nodes.start + np1),
    decreases np1_end - np1
%%loopstart 3
    let ghost pos = c.nodes.start + np1; let ghost l = c.level as int; let ghost q0 = queue@; let ghost ks0 = ks;
    proof {
        lemma_hfacts(items, lb, n, b, q0, ks0, h, c, pos);
        assert(node_items@[np1 as int] == items[pos]);
        if !h(items[pos]) { lemma_hskip(items, lb, n, b, q0, ks0, h, c, pos); }
        else if l == 0 { lemma_hleaf(items, lb, n, b, q0, ks0, h, c, pos); ks = ks0.push(pos - lb[0].start); }
        else {
            if q0.len() == 0 || q0.last().level != l - 1 || q0.last().nodes.end <= child(lb, b, pos, l) { lemma_hpush(items, lb, n, b, q0, ks0, h, c, pos); }
            if q0.len() > 0 && q0.last().level == l - 1 { assert(elem_ok(lb, q0[q0.len() - 1])); lemma_hmerge(items, lb, n, b, q0, ks0, h, c, pos); }
        }
    }
%%pre `queue.push_back(children_range);` 3
    proof { assert(children_range == child_range(lb, b, l, pos)); assert(queue@ =~= q0); assert(q0.len() == 0); assert(q0.push(children_range) == q0.push(child_range(lb, b, l, pos))); }
%%pre `queue.push_back(children_range);` 4
    proof { assert(children_range == child_range(lb, b, l, pos)); assert(queue@ =~= q0); assert(q0.last().level != l - 1); }
%%pre `queue.push_back(children_range);` 5
    proof { assert(children_range == child_range(lb, b, l, pos)); assert(queue@ =~= q0); assert(q0.last().nodes.end <= child(lb, b, pos, l)); }
%%after `tail.nodes.end = children_range.nodes.end;` 1
    proof { assert(queue@ =~= q0.drop_last().push(merged(q0.last(), child_range(lb, b, l, pos).nodes.end))); }
%%post 3
    proof { lemma_hdone(items, lb, n, b, queue@, ks, h, c, c.nodes.end as int); gq = queue@; }
%%post 2
    proof { lemma_hexit(items, lb, n, b, queue@, ks, h); assert(answer_ks(items, lb, n, query, ks)); assert(http_answer(d, base, n, b, fb, query, results@)); }
%%before 4
    let ghost mut gh = heap_view(queue);
    let ghost mut gn: Option<(f64, SearchResultItem)> = None;
    proof {
        lemma_all_proper(items, lb, n, b, (lb.len() - 1) as int);
        lemma_near_begin(items, lb, n, b, heap_view(queue), Reverse(QueueItem { distance: 0.0, nodes: Range { start: 0, end: 1 }, level: (lb.len() - 1) as usize }), x, y);
    }
%%loop 4
    invariant_except_break
        gh == heap_view(queue), near_inv(items, lb, n, b, heap_view(queue), gn, x, y), near_ranges(lb, b, gh),
    invariant
        d == client.file(), d == old(client).file(), base == index_begin, n == num_items, b == branching_factor, items == nodes_of(d, base, total(n, b)), lb == level_bounds@, fb == base + attr_index_size + 40 * total(n, b), feature_begin == fb,
        0 <= base, base + 40 * total(n, b) <= d.len() <= 0x7000_0000_0000_0000, attr_index_size <= 0x1000_0000_0000_0000, offsets_fit(items), items.len() == total(n, b), levels_ok(lb, n, b), tree_ok(items, lb, n, b),
        query == Query::PointNearest(x, y), best_rel(items, lb, n, fb, nearest, gn),
    ensures gh.len() == 0 && near_inv(items, lb, n, b, gh, gn, x, y) || near_inv(items, lb, n, b, Multiset::<Reverse<QueueItem>>::empty(), gn, x, y),
%%loopstart 4
    let ghost ns = next.nodes.start as int; let ghost l = next.level as int; let ghost nend = least(ns + b, lb[l].end as int);
    proof {
        lemma_near_facts(items, lb, n, b, gh, gn, x, y);
        assert(gh.contains(Reverse(next)));
        assert(entry_ok(lb, b, ent(Reverse(next))));
        if gn is Some && flt((gn->0).0, next.distance) { lemma_near_stop(items, lb, n, b, gh, Reverse(next), gn, x, y); }
        lemma_near_pop(items, lb, n, b, gh, heap_view(queue), Reverse(next), gn, x, y);
        lemma_near_in_facts(items, lb, n, b, heap_view(queue), gn, x, y, ns, l, ns);
        lemma_levels_mono(lb, n, b, 0, l);
        assert(near_ranges(lb, b, heap_view(queue))) by { assert forall|e: Reverse<QueueItem>| #[trigger] heap_view(queue).contains(e) implies gh.contains(e) by {} }
        lemma_part(d, base, total(n, b), ns, next.nodes.end as int);
    }
%%loop 5
    invariant
        d == client.file(), d == old(client).file(), base == index_begin, n == num_items, b == branching_factor, items == nodes_of(d, base, total(n, b)), lb == level_bounds@, fb == base + attr_index_size + 40 * total(n, b), feature_begin == fb,
        0 <= base, base + 40 * total(n, b) <= d.len() <= 0x7000_0000_0000_0000, attr_index_size <= 0x1000_0000_0000_0000, offsets_fit(items), items.len() == total(n, b), levels_ok(lb, n, b), tree_ok(items, lb, n, b),
        query == Query::PointNearest(x, y), best_rel(items, lb, n, fb, nearest, gn), near_ranges(lb, b, heap_view(queue)),
        ns == next.nodes.start, l == next.level, l < lb.len(), nend == least(ns + b, lb[l].end as int), ns < nend, lb[l].start <= ns, next.nodes.end == least(ns + b + more(l), lb[l].end as int), next.nodes.end <= items.len(),
        node_items@ == items.subrange(ns, next.nodes.end as int), np2_end == next.nodes.end - ns, np2 <= np2_end,
        near_in(items, lb, n, b, heap_view(queue), gn, x, y, ns, l, least(ns + np2, nend)),
    decreases np2_end - np2
%%loopstart 5
    let ghost pos = ns + np2; let ghost gn0 = gn;
    proof {
        assert(node_items@[np2 as int] == items[pos]);
        if np2 < b {
            lemma_near_in_facts(items, lb, n, b, heap_view(queue), gn, x, y, ns, l, pos);
            let it = items[pos];
            if gn is Some && fle((gn->0).0, mdist(it, x, y)) { lemma_near_prune(items, lb, n, b, heap_view(queue), gn, x, y, ns, l, pos); }
            else if l == 0 {
                let r = SearchResultItem { offset: it.offset as usize, index: (pos - lb[0].start) as usize };
                lemma_near_leaf(items, lb, n, b, heap_view(queue), gn, r, x, y, ns, pos);
                if gn0 is None || flt(cdist(it, x, y), (gn0->0).0) { gn = Some((cdist(it, x, y), r)); }
            } else {
                let e = Reverse(QueueItem { distance: mdist(it, x, y), nodes: child_range(lb, b, l, pos).nodes, level: (l - 1) as usize });
                lemma_levels_mono(lb, n, b, 0, l - 1);
                lemma_near_child(items, lb, n, b, heap_view(queue), gn, x, y, ns, l, pos);
                lemma_near_push(items, lb, n, b, heap_view(queue), gn, e, x, y, ns, l, pos);
                assert(near_ranges(lb, b, heap_view(queue).insert(e))) by { assert forall|f: Reverse<QueueItem>| #[trigger] heap_view(queue).insert(e).contains(f) && f != e implies heap_view(queue).contains(f) by {} }
            }
        }
    }
%%post 5
    proof {
        lemma_near_done(items, lb, n, b, heap_view(queue), gn, x, y, ns, l, nend);
        gh = heap_view(queue);
    }
%%post 4
    proof { if gh.len() == 0 { assert(gh =~= Multiset::<Reverse<QueueItem>>::empty()); } lemma_near_end(items, lb, n, b, gn, x, y);
        let ks = seq![(gn->0).1.index as int]; assert(answer_ks(items, lb, n, query, ks));
        assert(rngs_ok(items, lb, n, fb, seq![(nearest->0).1], ks)); assert(http_answer(d, base, n, b, fb, query, seq![(nearest->0).1])); }
%%done
} // verus!
fn main() {}
