#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
use std::collections::BinaryHeap;
use std::cmp::Reverse;
use std::ops::Range;
use std::collections::VecDeque;
use std::cmp::min;
use std::mem::size_of;
verus! {
pub type Result<T, E = Error> = core::result::Result<T, E>;
%%include bytes.vx
%%include io.vx
/// where the children of a queued node start
spec fn qnode(q: QueueItem) -> usize { q.node_index }
%%include rtsec.vx
%%include rtbytes.vx
%%fn packed_rtree/mod.rs "impl NodeItem" write
%%ret r
%%sub `write_f64::<LittleEndian>` => `write_f64`
%%sub `write_u64::<LittleEndian>` => `write_u64`
%%sig `std::io::Result<()>` => `Result<()>`
%%spec
    ensures r is Ok ==> final(wtr).out() == old(wtr).out() + enc_node(*self),
%%end
    proof { assert(wtr.out() =~= old(wtr).out() + enc_node(*self)); }
%%done
%%fn packed_rtree/mod.rs "impl PackedRTree" stream_write
%%ret r
%%sig `std::io::Result<()>` => `Result<()>`
%%iter 0 it
%%loops 1
%%spec
    ensures r is Ok ==> final(out).out() == old(out).out() + enc_nodes(tree_nodes(self)),
%%loop 0
    invariant
        out.out() == old(out).out() + enc_nodes(self.node_items@.take(it.index() as int)), 0 <= it.index() <= self.node_items@.len(),
%%loopstart 0
    let ghost pre = out.out();
    proof { let s = self.node_items@.take(it.index() + 1); assert(s.drop_last() =~= self.node_items@.take(it.index() as int)); assert(*item == s.last()); }
%%loopend 0
    proof { assert(out.out() =~= old(out).out() + enc_nodes(self.node_items@.take(it.index() + 1))); }
%%end
    proof { assert(self.node_items@.take(self.node_items@.len() as int) =~= self.node_items@); }
%%done
pub closed spec fn tree_nodes(t: &PackedRTree) -> Seq<NodeItem> { t.node_items@ }
%%fn packed_rtree/mod.rs - read_node_vec
%%ret r
%%sig `read_node_vec(node_items: &mut Vec<NodeItem>, mut data: impl Read)` => `read_node_vec<R: Read>(node_items: &mut Vec<NodeItem>, data: &mut R)`
%%sub `node_items.clear()` => `clear_vec(node_items)`
%%sub `node_items.capacity()` => `cap_of(node_items)`
%%sub `from_reader(&mut data)` => `from_reader(data)`
%%sub `node_items.push(` => `push_within(node_items,`
%%while 0 n_
%%loops 1
%%spec
    requires 0 <= old(data).pos(), old(data).pos() + 40 * vcap(*old(node_items)) <= old(data).data().len(),
    ensures final(data).data() == old(data).data(), r is Ok, final(data).pos() == old(data).pos() + 40 * vcap(*old(node_items)),
        final(node_items)@ == nodes_of(old(data).data(), old(data).pos(), vcap(*old(node_items))), vcap(*final(node_items)) == vcap(*old(node_items)),
%%start
    let ghost d = data.data(); let ghost p = data.pos(); let ghost k = vcap(*node_items);
%%loop 0
    invariant
        d == data.data(), d == old(data).data(), p == old(data).pos(), 0 <= p, p + 40 * k <= d.len(), n__end == k, k == vcap(*old(node_items)), 0 <= n_ <= n__end, n_ == node_items@.len(), data.pos() == p + n_ * 40, vcap(*node_items) == k,
        forall|i: int| 0 <= i < n_ ==> #[trigger] node_items@[i] == dec_node(d, p + 40 * i),
    decreases n__end - n_,
%%end
    proof { assert(node_items@ =~= nodes_of(d, p, k)); }
%%done
%%fn packed_rtree/mod.rs - read_node_items
%%ret r
%%sub `Vec::with_capacity(length)` => `with_cap(length)`
%%spec
    requires base + 40 * node_index + 40 * length <= old(data).data().len() <= 0x7000_0000_0000_0000,
    ensures final(data).data() == old(data).data(), r is Ok, r->Ok_0@ == nodes_of(old(data).data(), base + 40 * node_index, length as int),
%%done
%%fn packed_rtree/mod.rs "impl PackedRTree" read_data
%%ret r
%%sig `read_data(&mut self, data: impl Read)` => `read_data<R: Read>(&mut self, data: &mut R)`
%%loops 1
%%spec
    requires 0 <= vcap(old(self).node_items), 0 <= old(data).pos(), old(data).pos() + 40 * vcap(old(self).node_items) <= old(data).data().len(), ok(old(self).extent),
        forall|j: int| 0 <= j < vcap(old(self).node_items) ==> ok(#[trigger] dec_node(old(data).data(), old(data).pos() + 40 * j)),
    ensures final(data).data() == old(data).data(), r is Ok, final(data).pos() == old(data).pos() + 40 * vcap(old(self).node_items),
        final(self).node_items@ == nodes_of(old(data).data(), old(data).pos(), vcap(old(self).node_items)),
        final(self).level_bounds == old(self).level_bounds, final(self).num_leaf_nodes == old(self).num_leaf_nodes, final(self).branching_factor == old(self).branching_factor,
%%after `read_node_vec(&mut self.node_items, data)?;`
    proof {
        let s = self.node_items@;
        assert forall|j: int| 0 <= j < s.len() implies ok(#[trigger] s[j]) by { assert(s[j] == dec_node(old(data).data(), old(data).pos() + 40 * j)); }
    }
%%iter 0 it
%%loop 0
    invariant
        forall|j: int| 0 <= j < self.node_items@.len() ==> ok(#[trigger] self.node_items@[j]), ok(self.extent),
        self.node_items@ == nodes_of(old(data).data(), old(data).pos(), vcap(old(self).node_items)),
        self.level_bounds == old(self).level_bounds, self.num_leaf_nodes == old(self).num_leaf_nodes, self.branching_factor == old(self).branching_factor,
%%done
%%fn packed_rtree/mod.rs "impl PackedRTree" from_buf
%%ret r
%%sig `from_buf( data: impl Read,` => `from_buf<R: Read>( data: &mut R,`
%%sub `node_size.clamp(2u16, 65535u16)` => `clamp16(node_size, 2u16, 65535u16)`
%%sub `Vec::with_capacity(num_nodes)` => `with_cap(num_nodes)`
%%spec
    requires stored_tree(old(data).data(), old(data).pos(), num_items as int, node_size as int),
    ensures r is Ok, final(data).data() == old(data).data(), final(data).pos() == old(data).pos() + 40 * total(num_items as int, node_size as int),
        rt_ok(&r->Ok_0), rt_holds(&r->Ok_0, old(data).data(), old(data).pos(), num_items as int, node_size as int),
%%start
    let ghost d = data.data(); let ghost base = data.pos(); let ghost n = num_items as int; let ghost b = node_size as int;
    proof { lemma_stored(d, base, n, b); }
%%after `let level_bounds = PackedRTree::generate_level_bounds(num_items, node_size);`
    let ghost lb = level_bounds@;
    proof { lemma_stored_at(d, base, lb, n, b);
        let s = nodes_of(d, base, total(n, b));
        assert forall|j: int| 0 <= j < total(n, b) implies ok(#[trigger] dec_node(d, base + 40 * j)) by { assert(s[j] == dec_node(d, base + 40 * j)); } }
%%done
/// t is the tree stored at p
pub closed spec fn rt_holds(t: &PackedRTree, d: Seq<u8>, p: int, n: int, b: int) -> bool {
    levels_ok(t.level_bounds@, n, b) && t.node_items@ == nodes_of(d, p, total(n, b)) && t.num_leaf_nodes == n && t.branching_factor == b
}
/// the level structure is determined by the number of items and the node size
proof fn lemma_levels_unique(x: Seq<Range<usize>>, y: Seq<Range<usize>>, n: int, b: int, i: int)
    requires levels_ok(x, n, b), levels_ok(y, n, b), 0 <= i < x.len(), i < y.len(),
    ensures x[i] == y[i], cnt(x, i) == cnt(y, i), i < x.len() - 1 <==> i < y.len() - 1,
    decreases i,
{
    if i > 0 { lemma_levels_unique(x, y, n, b, i - 1); assert(x[i - 1 + 1].end == x[i - 1].start); assert(y[i - 1 + 1].end == y[i - 1].start); assert(cnt(x, i - 1 + 1) == cdiv(cnt(x, i - 1), b)); assert(cnt(y, i - 1 + 1) == cdiv(cnt(y, i - 1), b)); }
    if i < x.len() - 1 { assert(x[i + 1].end == x[i].start); assert(x[i + 1].start < x[i + 1].end); }
    if i < y.len() - 1 { assert(y[i + 1].end == y[i].start); assert(y[i + 1].start < y[i + 1].end); }
}
proof fn lemma_levels_len(x: Seq<Range<usize>>, y: Seq<Range<usize>>, n: int, b: int)
    requires levels_ok(x, n, b), levels_ok(y, n, b),
    ensures x.len() <= y.len(),
{ if x.len() > y.len() { lemma_levels_unique(x, y, n, b, y.len() - 1); } }
/// P03, P15: what stream_write puts into a file is a stored tree with the same nodes, wherever it lies in the file
pub proof fn p03_stored(t: &PackedRTree, a: Seq<u8>, z: Seq<u8>)
    requires rt_ok(t), rt_n(t) <= BOUND(), a.len() + 40 * total(rt_n(t), rt_b(t)) + z.len() <= 0x7000_0000_0000_0000,
    ensures stored_tree(a + enc_nodes(tree_nodes(t)) + z, a.len() as int, rt_n(t), rt_b(t)),
        nodes_of(a + enc_nodes(tree_nodes(t)) + z, a.len() as int, total(rt_n(t), rt_b(t))) == tree_nodes(t),
        enc_nodes(tree_nodes(t)).len() == 40 * total(rt_n(t), rt_b(t)),
{
    reveal(stored_tree);
    let n = rt_n(t); let b = rt_b(t); let s = t.node_items@; let lb0 = t.level_bounds@;
    lemma_enc_nodes(s, a, z); lemma_upper(n, b);
    assert forall|lb: Seq<Range<usize>>| #[trigger] levels_ok(lb, n, b) implies tree_ok(s, lb, n, b) by {
        lemma_levels_len(lb, lb0, n, b); lemma_levels_len(lb0, lb, n, b);
        assert forall|i: int| 0 <= i < lb.len() implies lb[i] == lb0[i] by { lemma_levels_unique(lb, lb0, n, b, i); }
        assert(lb =~= lb0);
    }
}
pub closed spec fn rt_n(t: &PackedRTree) -> int { t.num_leaf_nodes as int }
pub closed spec fn rt_b(t: &PackedRTree) -> int { t.branching_factor as int }
/// P01, P02, P15: a query answered over the stored bytes is one answered over the tree they hold
pub proof fn p15_same(t: &PackedRTree, d: Seq<u8>, p: int, n: int, b: int, q: Query, res: Seq<SearchResultItem>)
    requires rt_holds(t, d, p, n, b), stored_pre(d, p, n, b, q),
    ensures rt_pre(t, q), rt_answer(t, q, res) ==> stored_answer(d, p, n, b, q, res),
{ assert(levels_ok(t.level_bounds@, n, b)); }
%%fn packed_rtree/mod.rs "impl PackedRTree" stream_search
%%hoist
%%sub `nearest.map(|(_, item)| vec![item]).unwrap_or_default()` => `match nearest { Some((_, item)) => vec![item], None => Vec::new() }`
%%sub `let Range { start: leaf_nodes_offset, end: num_nodes, } = level_bounds` => `let first_ = level_bounds`
%%sub `.expect("RTree has at least one level when node_size >= 2 and num_items > 0");` => `.expect("RTree has at least one level when node_size >= 2 and num_items > 0"); let leaf_nodes_offset = first_.start; let num_nodes = first_.end;`
%%attr #[verifier::exec_allows_no_decreases_clause]
%%ret r
%%loops 6
%%while 1 np
%%while 3 np
%%while 5 np
%%spec
    requires stored_tree(old(data).data(), old(data).pos(), num_items as int, node_size as int),
        stored_pre(old(data).data(), old(data).pos(), num_items as int, node_size as int, query),
    ensures r is Ok, final(data).data() == old(data).data(),
        final(data).pos() == old(data).pos() + 40 * total(num_items as int, node_size as int),
        stored_answer(old(data).data(), old(data).pos(), num_items as int, node_size as int, query, r->Ok_0@),
%%start
    let ghost d = data.data(); let ghost base = data.pos();
    let ghost n = num_items as int;
    let ghost b = node_size as int;
    let ghost items = nodes_of(d, base, total(n, b));
    proof { lemma_stored(d, base, n, b); }
%%after `let level_bounds = PackedRTree::generate_level_bounds(num_items, node_size);`
    let ghost lb = level_bounds@;
    proof { lemma_stored_at(d, base, lb, n, b); }
%%after `let length = end - node_index;` 0
    proof { lemma_stored(d, base, n, b); lemma_levels_mono(lb, n, b, 0, level as int); lemma_part(d, base, total(n, b), node_index as int, end as int); }
%%before 0
    let ghost h = bbox_hits(min_x, min_y, max_x, max_y);
    let ghost mut gq = queue@;
    proof {
        lemma_bbox_mono(min_x, min_y, max_x, max_y);
        lemma_begin(items, lb, n, b, h);
        assert(queue@ =~= seq![(0usize, (lb.len() - 1) as usize)]);
        assert(results@ =~= Seq::<SearchResultItem>::empty());
    }
%%loop 0
    invariant
        lb == level_bounds@, items == nodes_of(d, base, total(n, b)), n == num_items, b == node_size, leaf_nodes_offset == lb[0].start, num_nodes == lb[0].end, d == data.data(), d == old(data).data(), base == index_base, base == old(data).pos(), stored_tree(d, base, n, b), levels_ok(lb, n, b),
        gq == queue@, h == bbox_hits(min_x, min_y, max_x, max_y), bounds.min_x == min_x, bounds.min_y == min_y, bounds.max_x == max_x, bounds.max_y == max_y,
        outer_inv(items, lb, n, b, queue@, results@, h),
    ensures queue@.len() == 0,
    decreases items.len() - (if queue@.len() == 0 { items.len() as int } else { queue@[0].0 as int })
%%loopstart 0
    proof {
        lemma_outer_facts(items, lb, n, b, gq, results@, h);
        lemma_pop(items, lb, n, b, gq, queue@, results@, h);
        lemma_inner_facts(items, lb, n, b, queue@, results@, h, next.0 as int, next.1 as int, next.0 as int);
    }
%%loop 1
    invariant
        lb == level_bounds@, items == nodes_of(d, base, total(n, b)), n == num_items, b == node_size, leaf_nodes_offset == lb[0].start, num_nodes == lb[0].end, d == data.data(), d == old(data).data(), base == index_base, base == old(data).pos(), stored_tree(d, base, n, b), levels_ok(lb, n, b),
        h == bbox_hits(min_x, min_y, max_x, max_y), bounds.min_x == min_x, bounds.min_y == min_y, bounds.max_x == max_x, bounds.max_y == max_y,
        inner_inv(items, lb, n, b, queue@, results@, h, node_index as int, level as int, np as int),
        end <= lb[level as int].end, end <= node_index + b, end <= items.len(), is_leaf_node == (level == 0),
        np_end == end, np <= end, node_items@ == items.subrange(node_index as int, end as int),
    decreases end - np
%%loopstart 1
    proof {
        lemma_inner_facts(items, lb, n, b, queue@, results@, h, node_index as int, level as int, np as int);
        if !h(items[np as int]) { lemma_skip(items, lb, n, b, queue@, results@, h, node_index as int, level as int, np as int); }
        else if level == 0 { lemma_leaf(items, lb, n, b, queue@, results@, SearchResultItem { offset: items[np as int].offset as usize, index: (np - lb[0].start) as usize }, h, node_index as int, np as int); }
        else { lemma_push(items, lb, n, b, queue@, results@, (items[np as int].offset as usize, (level - 1) as usize), h, node_index as int, level as int, np as int); }
    }
%%post 1
    proof {
        lemma_done(items, lb, n, b, queue@, results@, h, node_index as int, level as int, end as int);
        lemma_outer_facts(items, lb, n, b, queue@, results@, h);
        gq = queue@;
    }
%%post 0
    proof { lemma_outer_facts(items, lb, n, b, queue@, results@, h); }
%%after `let length = end - node_index;` 1
    proof { lemma_stored(d, base, n, b); lemma_levels_mono(lb, n, b, 0, level as int); lemma_part(d, base, total(n, b), node_index as int, end as int); }
%%before 2
    let ghost h = point_hits(x, y);
    let ghost mut gq = queue@;
    proof {
        lemma_point_hits_mono(x, y);
        lemma_begin(items, lb, n, b, h);
        assert(queue@ =~= seq![(0usize, (lb.len() - 1) as usize)]);
        assert(results@ =~= Seq::<SearchResultItem>::empty());
    }
%%loop 2
    invariant
        lb == level_bounds@, items == nodes_of(d, base, total(n, b)), n == num_items, b == node_size, leaf_nodes_offset == lb[0].start, num_nodes == lb[0].end, d == data.data(), d == old(data).data(), base == index_base, base == old(data).pos(), stored_tree(d, base, n, b), levels_ok(lb, n, b),
        gq == queue@, h == point_hits(x, y),
        outer_inv(items, lb, n, b, queue@, results@, h),
    ensures queue@.len() == 0,
    decreases items.len() - (if queue@.len() == 0 { items.len() as int } else { queue@[0].0 as int })
%%loopstart 2
    proof {
        lemma_outer_facts(items, lb, n, b, gq, results@, h);
        lemma_pop(items, lb, n, b, gq, queue@, results@, h);
        lemma_inner_facts(items, lb, n, b, queue@, results@, h, next.0 as int, next.1 as int, next.0 as int);
    }
%%loop 3
    invariant
        lb == level_bounds@, items == nodes_of(d, base, total(n, b)), n == num_items, b == node_size, leaf_nodes_offset == lb[0].start, num_nodes == lb[0].end, d == data.data(), d == old(data).data(), base == index_base, base == old(data).pos(), stored_tree(d, base, n, b), levels_ok(lb, n, b),
        h == point_hits(x, y),
        inner_inv(items, lb, n, b, queue@, results@, h, node_index as int, level as int, np as int),
        end <= lb[level as int].end, end <= node_index + b, end <= items.len(), is_leaf_node == (level == 0),
        np_end == end, np <= end, node_items@ == items.subrange(node_index as int, end as int),
    decreases end - np
%%loopstart 3
    proof {
        lemma_inner_facts(items, lb, n, b, queue@, results@, h, node_index as int, level as int, np as int);
        if !h(items[np as int]) { lemma_skip(items, lb, n, b, queue@, results@, h, node_index as int, level as int, np as int); }
        else if level == 0 { lemma_leaf(items, lb, n, b, queue@, results@, SearchResultItem { offset: items[np as int].offset as usize, index: (np - lb[0].start) as usize }, h, node_index as int, np as int); }
        else { lemma_push(items, lb, n, b, queue@, results@, (items[np as int].offset as usize, (level - 1) as usize), h, node_index as int, level as int, np as int); }
    }
%%post 3
    proof {
        lemma_done(items, lb, n, b, queue@, results@, h, node_index as int, level as int, end as int);
        lemma_outer_facts(items, lb, n, b, queue@, results@, h);
        gq = queue@;
    }
%%post 2
    proof { lemma_outer_facts(items, lb, n, b, queue@, results@, h); }
%%after `let length = end - node_index;` 2
    proof { lemma_stored(d, base, n, b); lemma_levels_mono(lb, n, b, 0, level as int); lemma_part(d, base, total(n, b), node_index as int, end as int); }
%%before 4
    let ghost mut gh = heap_view(queue);
    proof {
        lemma_all_proper(items, lb, n, b, (lb.len() - 1) as int);
        lemma_near_begin(items, lb, n, b, heap_view(queue), Reverse(QueueItem { distance: 0.0, node_index: 0, level: (lb.len() - 1) as usize }), x, y);
    }
%%loop 4
    invariant_except_break
        gh == heap_view(queue), near_inv(items, lb, n, b, heap_view(queue), nearest, x, y),
    invariant
        lb == level_bounds@, items == nodes_of(d, base, total(n, b)), n == num_items, b == node_size, leaf_nodes_offset == lb[0].start, num_nodes == lb[0].end, d == data.data(), d == old(data).data(), base == index_base, base == old(data).pos(), stored_tree(d, base, n, b), levels_ok(lb, n, b),
    ensures gh.len() == 0 && near_inv(items, lb, n, b, gh, nearest, x, y) || near_inv(items, lb, n, b, Multiset::<Reverse<QueueItem>>::empty(), nearest, x, y),
%%loopstart 4
    proof {
        lemma_near_facts(items, lb, n, b, gh, nearest, x, y);
        assert(entry_ok(lb, b, ent(Reverse(next))));
        if nearest is Some && flt((nearest->0).0, next.distance) { lemma_near_stop(items, lb, n, b, gh, Reverse(next), nearest, x, y); }
        lemma_near_pop(items, lb, n, b, gh, heap_view(queue), Reverse(next), nearest, x, y);
        lemma_near_in_facts(items, lb, n, b, heap_view(queue), nearest, x, y, next.node_index as int, next.level as int, next.node_index as int);
    }
%%loop 5
    invariant
        lb == level_bounds@, items == nodes_of(d, base, total(n, b)), n == num_items, b == node_size, leaf_nodes_offset == lb[0].start, num_nodes == lb[0].end, d == data.data(), d == old(data).data(), base == index_base, base == old(data).pos(), stored_tree(d, base, n, b), levels_ok(lb, n, b),
        near_in(items, lb, n, b, heap_view(queue), nearest, x, y, node_index as int, level as int, np as int),
        end <= lb[level as int].end, end <= node_index + b, end <= items.len(), is_leaf_node == (level == 0),
        np_end == end, np <= end, node_items@ == items.subrange(node_index as int, end as int),
    decreases end - np
%%loopstart 5
    proof {
        lemma_near_in_facts(items, lb, n, b, heap_view(queue), nearest, x, y, node_index as int, level as int, np as int);
        let it = items[np as int];
        if nearest is Some && fle((nearest->0).0, mdist(it, x, y)) { lemma_near_prune(items, lb, n, b, heap_view(queue), nearest, x, y, node_index as int, level as int, np as int); }
        if level == 0 { lemma_near_leaf(items, lb, n, b, heap_view(queue), nearest, SearchResultItem { offset: it.offset as usize, index: (np - lb[0].start) as usize }, x, y, node_index as int, np as int); }
        else { lemma_near_push(items, lb, n, b, heap_view(queue), nearest, Reverse(QueueItem { distance: mdist(it, x, y), node_index: it.offset as usize, level: (level - 1) as usize }), x, y, node_index as int, level as int, np as int); }
    }
%%post 5
    proof {
        lemma_near_done(items, lb, n, b, heap_view(queue), nearest, x, y, node_index as int, level as int, end as int);
        gh = heap_view(queue);
    }
%%post 4
    proof { if gh.len() == 0 { assert(gh =~= Multiset::<Reverse<QueueItem>>::empty()); } lemma_near_end(items, lb, n, b, nearest, x, y); }
%%done
} // verus!
fn main() {}
