#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
use std::collections::BinaryHeap;
use std::cmp::Reverse;
use std::ops::Range;
use std::collections::VecDeque;
use std::cmp::min;
use std::mem::size_of;
verus! {
/// where the children of a queued node start
spec fn qnode(q: QueueItem) -> usize { q.node_index }
%%include rtsec.vx
%%fn packed_rtree/mod.rs "impl PackedRTree" search
%%hoist
%%sub `nearest.map(|(_, item)| vec![item]).unwrap_or_default()` => `match nearest { Some((_, item)) => vec![item], None => Vec::new() }`
%%attr #[verifier::exec_allows_no_decreases_clause]
%%ret r
%%loops 6
%%while 1 np
%%while 3 np
%%while 5 np
%%spec
    requires rt_ok(self), rt_pre(self, query),
    ensures r is Ok, rt_answer(self, query, r->Ok_0@),
%%start
    let ghost lb = self.level_bounds@;
    let ghost items = self.node_items@;
    let ghost n = self.num_leaf_nodes as int;
    let ghost b = self.branching_factor as int;
%%before 0
    let ghost h = bbox_hits(min_x, min_y, max_x, max_y);
    let ghost mut gq = queue@;
    proof {
        lemma_bbox_mono(min_x, min_y, max_x, max_y);
        lemma_begin(items, lb, n, b, h);
        assert(queue@ =~= seq![(0usize, (lb.len() - 1) as usize)]);
        assert(results@ =~= Seq::<SearchResultItem>::empty());
    }
%%loop 0
    invariant
        lb == self.level_bounds@, items == self.node_items@, n == self.num_leaf_nodes, b == self.branching_factor, leaf_nodes_offset == lb[0].start,
        gq == queue@, h == bbox_hits(min_x, min_y, max_x, max_y), bounds.min_x == min_x, bounds.min_y == min_y, bounds.max_x == max_x, bounds.max_y == max_y,
        outer_inv(items, lb, n, b, queue@, results@, h),
    ensures queue@.len() == 0,
    decreases items.len() - (if queue@.len() == 0 { items.len() as int } else { queue@[0].0 as int })
%%loopstart 0
    proof {
        lemma_outer_facts(items, lb, n, b, gq, results@, h);
        lemma_pop(items, lb, n, b, gq, queue@, results@, h);
        lemma_inner_facts(items, lb, n, b, queue@, results@, h, next.0 as int, next.1 as int, next.0 as int);
    }
%%loop 1
    invariant
        lb == self.level_bounds@, items == self.node_items@, n == self.num_leaf_nodes, b == self.branching_factor, leaf_nodes_offset == lb[0].start,
        h == bbox_hits(min_x, min_y, max_x, max_y), bounds.min_x == min_x, bounds.min_y == min_y, bounds.max_x == max_x, bounds.max_y == max_y,
        inner_inv(items, lb, n, b, queue@, results@, h, node_index as int, level as int, np as int),
        end <= lb[level as int].end, end <= node_index + b, end <= items.len(), is_leaf_node == (level == 0),
        np_end == end, np <= end,
    decreases end - np
%%loopstart 1
    proof {
        lemma_inner_facts(items, lb, n, b, queue@, results@, h, node_index as int, level as int, np as int);
        if !h(items[np as int]) { lemma_skip(items, lb, n, b, queue@, results@, h, node_index as int, level as int, np as int); }
        else if level == 0 { lemma_leaf(items, lb, n, b, queue@, results@, SearchResultItem { offset: items[np as int].offset as usize, index: (np - lb[0].start) as usize }, h, node_index as int, np as int); }
        else { lemma_push(items, lb, n, b, queue@, results@, (items[np as int].offset as usize, (level - 1) as usize), h, node_index as int, level as int, np as int); }
    }
%%post 1
    proof {
        lemma_done(items, lb, n, b, queue@, results@, h, node_index as int, level as int, end as int);
        lemma_outer_facts(items, lb, n, b, queue@, results@, h);
        gq = queue@;
    }
%%post 0
    proof { lemma_outer_facts(items, lb, n, b, queue@, results@, h); }
%%before 2
    let ghost h = point_hits(x, y);
    let ghost mut gq = queue@;
    proof {
        lemma_point_hits_mono(x, y);
        lemma_begin(items, lb, n, b, h);
        assert(queue@ =~= seq![(0usize, (lb.len() - 1) as usize)]);
        assert(results@ =~= Seq::<SearchResultItem>::empty());
    }
%%loop 2
    invariant
        lb == self.level_bounds@, items == self.node_items@, n == self.num_leaf_nodes, b == self.branching_factor, leaf_nodes_offset == lb[0].start,
        gq == queue@, h == point_hits(x, y),
        outer_inv(items, lb, n, b, queue@, results@, h),
    ensures queue@.len() == 0,
    decreases items.len() - (if queue@.len() == 0 { items.len() as int } else { queue@[0].0 as int })
%%loopstart 2
    proof {
        lemma_outer_facts(items, lb, n, b, gq, results@, h);
        lemma_pop(items, lb, n, b, gq, queue@, results@, h);
        lemma_inner_facts(items, lb, n, b, queue@, results@, h, next.0 as int, next.1 as int, next.0 as int);
    }
%%loop 3
    invariant
        lb == self.level_bounds@, items == self.node_items@, n == self.num_leaf_nodes, b == self.branching_factor, leaf_nodes_offset == lb[0].start,
        h == point_hits(x, y),
        inner_inv(items, lb, n, b, queue@, results@, h, node_index as int, level as int, np as int),
        end <= lb[level as int].end, end <= node_index + b, end <= items.len(), is_leaf_node == (level == 0),
        np_end == end, np <= end,
    decreases end - np
%%loopstart 3
    proof {
        lemma_inner_facts(items, lb, n, b, queue@, results@, h, node_index as int, level as int, np as int);
        if !h(items[np as int]) { lemma_skip(items, lb, n, b, queue@, results@, h, node_index as int, level as int, np as int); }
        else if level == 0 { lemma_leaf(items, lb, n, b, queue@, results@, SearchResultItem { offset: items[np as int].offset as usize, index: (np - lb[0].start) as usize }, h, node_index as int, np as int); }
        else { lemma_push(items, lb, n, b, queue@, results@, (items[np as int].offset as usize, (level - 1) as usize), h, node_index as int, level as int, np as int); }
    }
%%post 3
    proof {
        lemma_done(items, lb, n, b, queue@, results@, h, node_index as int, level as int, end as int);
        lemma_outer_facts(items, lb, n, b, queue@, results@, h);
        gq = queue@;
    }
%%post 2
    proof { lemma_outer_facts(items, lb, n, b, queue@, results@, h); }
%%before 4
    let ghost mut gh = heap_view(queue);
    proof {
        lemma_all_proper(items, lb, n, b, (lb.len() - 1) as int);
        lemma_near_begin(items, lb, n, b, heap_view(queue), Reverse(QueueItem { distance: 0.0, node_index: 0, level: (lb.len() - 1) as usize }), x, y);
    }
%%loop 4
    invariant_except_break
        gh == heap_view(queue), near_inv(items, lb, n, b, heap_view(queue), nearest, x, y),
    invariant
        lb == self.level_bounds@, items == self.node_items@, n == self.num_leaf_nodes, b == self.branching_factor, leaf_nodes_offset == lb[0].start,
    ensures gh.len() == 0 && near_inv(items, lb, n, b, gh, nearest, x, y) || near_inv(items, lb, n, b, Multiset::<Reverse<QueueItem>>::empty(), nearest, x, y),
%%loopstart 4
    proof {
        lemma_near_facts(items, lb, n, b, gh, nearest, x, y);
        assert(entry_ok(lb, b, ent(Reverse(next))));
        if nearest is Some && flt((nearest->0).0, next.distance) { lemma_near_stop(items, lb, n, b, gh, Reverse(next), nearest, x, y); }
        lemma_near_pop(items, lb, n, b, gh, heap_view(queue), Reverse(next), nearest, x, y);
        lemma_near_in_facts(items, lb, n, b, heap_view(queue), nearest, x, y, next.node_index as int, next.level as int, next.node_index as int);
    }
%%loop 5
    invariant
        lb == self.level_bounds@, items == self.node_items@, n == self.num_leaf_nodes, b == self.branching_factor, leaf_nodes_offset == lb[0].start,
        near_in(items, lb, n, b, heap_view(queue), nearest, x, y, node_index as int, level as int, np as int),
        end <= lb[level as int].end, end <= node_index + b, end <= items.len(), is_leaf_node == (level == 0),
        np_end == end, np <= end,
    decreases end - np
%%loopstart 5
    proof {
        lemma_near_in_facts(items, lb, n, b, heap_view(queue), nearest, x, y, node_index as int, level as int, np as int);
        let it = items[np as int];
        if nearest is Some && fle((nearest->0).0, mdist(it, x, y)) { lemma_near_prune(items, lb, n, b, heap_view(queue), nearest, x, y, node_index as int, level as int, np as int); }
        if level == 0 { lemma_near_leaf(items, lb, n, b, heap_view(queue), nearest, SearchResultItem { offset: it.offset as usize, index: (np - lb[0].start) as usize }, x, y, node_index as int, np as int); }
        else { lemma_near_push(items, lb, n, b, heap_view(queue), nearest, Reverse(QueueItem { distance: mdist(it, x, y), node_index: it.offset as usize, level: (level - 1) as usize }), x, y, node_index as int, level as int, np as int); }
    }
%%post 5
    proof {
        lemma_near_done(items, lb, n, b, heap_view(queue), nearest, x, y, node_index as int, level as int, end as int);
        gh = heap_view(queue);
    }
%%post 4
    proof { if gh.len() == 0 { assert(gh =~= Multiset::<Reverse<QueueItem>>::empty()); } lemma_near_end(items, lb, n, b, nearest, x, y); }
%%done
// ---- the properties, over the list of items the index is built from
/// res lists exactly the items that are hit, each once, in order, with its offset
pub open spec fn hits_of(s: Seq<NodeItem>, hits: spec_fn(NodeItem) -> bool, res: Seq<SearchResultItem>) -> bool {
    &&& forall|k: int| 0 <= k < res.len() ==> (#[trigger] res[k]).index < s.len() && hits(s[res[k].index as int]) && res[k].offset == s[res[k].index as int].offset
    &&& forall|i: int, j: int| 0 <= i < j < res.len() ==> (#[trigger] res[i]).index < (#[trigger] res[j]).index
    &&& forall|i: int| 0 <= i < s.len() && hits(#[trigger] s[i]) ==> exists|k: int| 0 <= k < res.len() && (#[trigger] res[k]).index == i
}
/// res is one item, and no item's centre is nearer
pub open spec fn nearest_of(s: Seq<NodeItem>, x: f64, y: f64, res: Seq<SearchResultItem>) -> bool {
    &&& res.len() == 1 && res[0].index < s.len() && res[0].offset == s[res[0].index as int].offset
    &&& forall|j: int| 0 <= j < s.len() ==> fle(cdist(s[res[0].index as int], x, y), cdist(#[trigger] s[j], x, y))
}
pub fn p01_box(nodes: &[NodeItem], extent: &NodeItem, node_size: u16, x0: f64, y0: f64, x1: f64, y1: f64) -> (r: Result<Vec<SearchResultItem>, Error>)
    requires node_size >= 2, 1 <= nodes@.len() <= BOUND(), forall|i: int| 0 <= i < nodes@.len() ==> ok(#[trigger] nodes@[i]),
    ensures r is Ok, hits_of(nodes@, bbox_hits(x0, y0, x1, y1), r->Ok_0@),
{
    let t = PackedRTree::build(nodes, extent, node_size)?;
    let r = t.search(Query::BBox(x0, y0, x1, y1))?;
    proof { lemma_hits_of(&t, nodes@, node_size as int, bbox_hits(x0, y0, x1, y1), r@); }
    Ok(r)
}
pub fn p01_point(nodes: &[NodeItem], extent: &NodeItem, node_size: u16, x: f64, y: f64) -> (r: Result<Vec<SearchResultItem>, Error>)
    requires node_size >= 2, 1 <= nodes@.len() <= BOUND(), forall|i: int| 0 <= i < nodes@.len() ==> ok(#[trigger] nodes@[i]),
    ensures r is Ok, hits_of(nodes@, point_hits(x, y), r->Ok_0@),
{
    let t = PackedRTree::build(nodes, extent, node_size)?;
    let r = t.search(Query::PointIntersects(x, y))?;
    proof { lemma_hits_of(&t, nodes@, node_size as int, point_hits(x, y), r@); }
    Ok(r)
}
pub fn p02_nearest(nodes: &[NodeItem], extent: &NodeItem, node_size: u16, x: f64, y: f64) -> (r: Result<Vec<SearchResultItem>, Error>)
    requires node_size >= 2, 1 <= nodes@.len() <= BOUND(), fin(x), fin(y), forall|i: int| 0 <= i < nodes@.len() ==> ok(#[trigger] nodes@[i]) && finbox(nodes@[i]),
    ensures r is Ok, nearest_of(nodes@, x, y, r->Ok_0@),
{
    let t = PackedRTree::build(nodes, extent, node_size)?;
    proof {
        let lb = t.level_bounds@; let it = t.node_items@;
        assert forall|i: int| lb[0].start <= i < lb[0].end implies finbox(#[trigger] it[i]) by { let k = i - lb[0].start; assert(nodes@[k] == it[lb[0].start + k]); }
    }
    let r = t.search(Query::PointNearest(x, y))?;
    proof {
        let s = nodes@; let lb = t.level_bounds@; let it = t.node_items@; let z = r@[0].index as int;
        assert(it[lb[0].start + z] == s[z]);
        assert forall|j: int| 0 <= j < s.len() implies fle(cdist(s[z], x, y), cdist(#[trigger] s[j], x, y)) by { assert(it[lb[0].start + j] == s[j]); }
    }
    Ok(r)
}
proof fn lemma_hits_of(t: &PackedRTree, s: Seq<NodeItem>, b: int, h: spec_fn(NodeItem) -> bool, res: Seq<SearchResultItem>)
    requires built_of(t, s, b), exact(t.node_items@, t.level_bounds@, s.len() as int, res, h),
    ensures hits_of(s, h, res),
{
    let lb = t.level_bounds@; let it = t.node_items@;
    assert forall|k: int| 0 <= k < res.len() implies (#[trigger] res[k]).index < s.len() && h(s[res[k].index as int]) && res[k].offset == s[res[k].index as int].offset by { let z = s[res[k].index as int]; assert(it[lb[0].start + res[k].index] == z); }
    assert forall|i: int| 0 <= i < s.len() && h(#[trigger] s[i]) implies exists|k: int| 0 <= k < res.len() && (#[trigger] res[k]).index == i by { assert(it[lb[0].start + i] == s[i]); assert(found(res, i)); }
}
} // verus!
fn main() {}
