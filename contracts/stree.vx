use vstd::prelude::*;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::collections::VecDeque;
use std::ops::Range;
use std::cmp::{min, max};
verus! {
global size_of usize == 8;
%%include streesec.vx
%%fn static_btree/stree.rs "impl<K: Key> NodeItem<K>" create
%%ret r
%%spec
    ensures r.offset == offset,
%%done
%%fn static_btree/stree.rs "impl<K: Key> NodeItem<K>" set_offset
%%spec
    ensures final(self).key == old(self).key, final(self).offset == offset,
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" num_nodes
%%ret r
%%spec
    ensures r == self.node_items@.len(),
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" init
%%ret r
%%sub `branching_factor.clamp(2u16, 65535u16)` => `clamp16(branching_factor, 2u16, 65535u16)`
%%sub `vec![NodeItem::create(0); num_nodes]` => `vec_of(NodeItem::create(0), num_nodes)`
%%spec
    requires branching_factor >= 2, 1 <= old(self).num_leaf_nodes <= BOUND(),
    ensures r is Ok, levels_ok(final(self).level_bounds@, old(self).num_leaf_nodes as int, branching_factor as int),
        final(self).node_items@.len() == final(self).level_bounds@[0].end, final(self).branching_factor == branching_factor,
        final(self).num_leaf_nodes == old(self).num_leaf_nodes, final(self).payload_data == old(self).payload_data, final(self).payload_initialized == old(self).payload_initialized,
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" generate_nodes
%%ret r
%%loops 2
%%sub `NodeItem::<K>::new(` => `NodeItem::new(`
%%sub `min(` => `K::min_of(`
%%spec
    requires old(self).branching_factor >= 2, levels_ok(old(self).level_bounds@, old(self).num_leaf_nodes as int, old(self).branching_factor as int),
        old(self).node_items@.len() == old(self).level_bounds@[0].end, ascending(old(self).node_items@, old(self).level_bounds@),
    ensures r is Ok,
        final(self).level_bounds == old(self).level_bounds, final(self).branching_factor == old(self).branching_factor, final(self).num_leaf_nodes == old(self).num_leaf_nodes,
        final(self).payload_data == old(self).payload_data, final(self).payload_initialized == old(self).payload_initialized,
        final(self).node_items@.len() == old(self).node_items@.len(), ascending(final(self).node_items@, final(self).level_bounds@),
        forall|i: int| 0 <= i < old(self).num_leaf_nodes ==> leaf(final(self).node_items@, old(self).level_bounds@, i) == leaf(old(self).node_items@, old(self).level_bounds@, i),
        inner_ok(final(self).node_items@, final(self).level_bounds@, old(self).branching_factor as int, old(self).level_bounds@.len() - 1),
%%before 0
    let ghost lb = self.level_bounds@; let ghost b = self.branching_factor as int; let ghost n = self.num_leaf_nodes as int; let ghost s0 = *self;
    proof { reveal(gen_ok); reveal(level_ok); }
%%loop 0
    invariant
        b >= 2, b <= 65535, b == self.branching_factor, node_size == b - 1, lb == self.level_bounds@, n == self.num_leaf_nodes, levels_ok(lb, n, b),
        s0.level_bounds@ == lb, s0.node_items@.len() == lb[0].end, s0.level_bounds == self.level_bounds, s0.branching_factor == self.branching_factor, s0.num_leaf_nodes == n,
        s0.payload_data == self.payload_data, s0.payload_initialized == self.payload_initialized,
        forall|i: int| 0 <= i < n ==> leaf(self.node_items@, lb, i) == leaf(s0.node_items@, lb, i),
        gen_ok(parent_min_key@, self.node_items@, lb, b, level as int, 0),
%%loopstart 0
    let ghost l = level as int; let ghost mut c: int = 0;
    proof {
        reveal(gen_ok);
        assert(lb[l].start < lb[l].end); assert(lb[l + 1].start < lb[l + 1].end); assert(lb[l + 1].end == lb[l].start);
        lemma_chunk(lb, b, n, l, 0); lemma_parent(b, 0, cnt(lb, l));
        if l > 0 { lemma_levels(lb, n, b, 0, l); lemma_levels(lb, n, b, 0, l + 1); }
    }
%%loop 1
    invariant_except_break
        0 <= c, child_idx == lb[l].start + c * (b - 1), parent_idx == lb[l + 1].start + (c - c / b), c - c / b <= cnt(lb, l + 1), child_idx >= lb[l].end ==> c - c / b == cnt(lb, l + 1),
        gen_ok(parent_min_key@, self.node_items@, lb, b, l, c - c / b),
    invariant
        b >= 2, b <= 65535, b == self.branching_factor, node_size == b - 1, lb == self.level_bounds@, n == self.num_leaf_nodes, levels_ok(lb, n, b),
        s0.level_bounds@ == lb, s0.node_items@.len() == lb[0].end, s0.level_bounds == self.level_bounds, s0.branching_factor == self.branching_factor, s0.num_leaf_nodes == n,
        s0.payload_data == self.payload_data, s0.payload_initialized == self.payload_initialized,
        forall|i: int| 0 <= i < n ==> leaf(self.node_items@, lb, i) == leaf(s0.node_items@, lb, i),
        0 <= l < lb.len() - 1, l == level, children_level == lb[l], parent_level == lb[l + 1],
        lb[l].end <= lb[0].end, lb[l + 1].end == lb[l].start, lb[l].start < lb[l].end, l > 0 ==> lb[l].end <= lb[0].start, self.node_items@.len() == lb[0].end,
    ensures gen_ok(parent_min_key@, self.node_items@, lb, b, l, cnt(lb, l + 1)),
    decreases cnt(lb, l) - c,
%%loopstart 1
    let ghost items1 = self.node_items@; let ghost map1 = parent_min_key@; let ghost done = c - c / b; let ghost c1 = c;
    proof {
        lemma_parent(b, c, cnt(lb, l)); lemma_parent(b, c + 1, cnt(lb, l));
        assert((c + 1) * (b - 1) == c * (b - 1) + (b - 1)) by (nonlinear_arith);
        assert(c * (b - 1) >= c) by (nonlinear_arith) requires c >= 0, b >= 2;
        assert(parent_idx >= parent_level.end ==> done == cnt(lb, l + 1));
        assert(child_idx < lb[l].end && node_size >= 1);
        c = c + 1;
    }
%%after `if parent_idx >= parent_level.end { break; }`
    proof {
        reveal(gen_ok);
        lemma_least(map1, items1, lb, n, b, l, done, c1);
        lemma_chunk(lb, b, n, l, c1 + 1); lemma_pw(b, l);
        assert(b * (b - 1) > 0 && b * (b - 1) <= 65535 * 65535 && b * b <= 65535 * 65535 && (b - 1) * (b - 1) <= 65535 * 65535) by (nonlinear_arith) requires 2 <= b <= 65535;
        lemma_right_most(b, c1);
        if (c1 + 1) * (b - 1) < cnt(lb, l) { lemma_least(map1, items1, lb, n, b, l, done, c1 + 1); }
        K::bounds(&leaf(items1, lb, c1 * span(b, l)).key);
        if l == 0 { lemma_pw(b, 0); }
    }
%%after `parent_min_key.insert(parent_idx, own_min);`
    proof { lemma_step(map1, parent_min_key@, items1, self.node_items@, lb, n, b, l, done, parent_node, own_min); }
%%after `parent_min_key.insert(parent_idx, self.node_items[child_idx].key.clone());`
    proof { lemma_step(map1, parent_min_key@, items1, self.node_items@, lb, n, b, l, done, parent_node, parent_min_key@[parent_idx]); }
%%after `self.node_items[parent_idx] = parent_node;` 2
    let ghost pn = self.node_items@[parent_idx as int];
    proof { assert(child_idx as int == lb[l].start + c1 * (b - 1)); }
%%pre `parent_idx += 1; child_idx += node_size; continue; } } }` 
    proof { lemma_step(map1, parent_min_key@, items1, self.node_items@, lb, n, b, l, done, pn, parent_min_key@[parent_idx]); }
%%post 1
    ;proof { assert(cnt(lb, l + 1) == cnt(lb, level + 1)); lemma_next_level(parent_min_key@, self.node_items@, lb, n, b, l); }
%%end
    proof { reveal(gen_ok); reveal(inner_ok); reveal(level_ok);
        assert forall|k: int, r: int| 1 <= k <= lb.len() - 1 && 0 <= r < cnt(lb, k) implies #[trigger] item_ok(self.node_items@, lb, b, k, r) by {
            assert(level_ok(parent_min_key@, self.node_items@, lb, b, k, cnt(lb, k)));
        }
    }
%%done
%%fn static_btree/payload.rs "impl PayloadEntry" new
%%ret r
%%spec
    ensures r.count == 0, r.offsets@.len() == 0,
%%done
%%fn static_btree/payload.rs "impl PayloadEntry" add_offset
%%spec
    requires old(self).count < u32::MAX,
    ensures final(self).count == old(self).count + 1, final(self).offsets@ == old(self).offsets@.push(offset),
%%done
%%fn static_btree/payload.rs "impl PayloadEntry" serialized_size
%%ret r
%%spec
    ensures r == 4 + 8 * self.count,
%%done
%%fn static_btree/payload.rs "impl PayloadEntry" serialize
%%ret r
%%loops 1
%%sub `buf.write_u32::<LittleEndian>(self.count).unwrap()` => `put_u32(&mut buf, self.count)`
%%sub `buf.write_u64::<LittleEndian>(off).unwrap()` => `put_u64(&mut buf, off)`
%%sub `for &off in &self.offsets {` => `for off in &self.offsets { let off = *off;`
%%spec
    requires self.count == self.offsets@.len(),
    ensures r@.len() == 4 + 8 * self.count, r@ == enc32(self.count) + enc_all(self.offsets@),
%%iter 0 it
%%loop 0
    invariant
        buf@ == enc32(self.count) + enc_all(self.offsets@.take(it.index() as int)),
%%loopstart 0
    let ghost k = it.index() as int;
%%after `let off = *off;`
    proof { assert(self.offsets@.take(k + 1).drop_last() == self.offsets@.take(k)); assert(self.offsets@.take(k + 1).last() == off); }
%%after `put_u64(&mut buf, off);`
    proof { assert(buf@ =~= enc32(self.count) + enc_all(self.offsets@.take(k + 1))); }
%%before 0
    proof { assert(self.offsets@.take(0) == Seq::<u64>::empty()); assert(enc_all(Seq::<u64>::empty()) =~= Seq::<u8>::empty()); assert(buf@ =~= enc32(self.count) + enc_all(self.offsets@.take(0))); }
%%end
    proof { assert(self.offsets@.take(self.offsets@.len() as int) == self.offsets@); lemma_enc_len(self.offsets@); }
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" build
%%ret r
%%loops 3
%%hoist
%%sub `branching_factor.clamp(2u16, 65535u16)` => `clamp16(branching_factor, 2u16, 65535u16)`
%%sub `nodes.to_vec()` => `to_vec(nodes)`
%%sub `nodes.sort_by_key(|item| item.key.clone())` => `sort_entries(&mut nodes, |item: &NodeItem<K>| -> (o: K) ensures o.rk() == item.key.rk() { item.key.clone() })`
%%sub `nodes[j].key == key` => `nodes[j].key.eq(&key)`
%%sub `for (k, node) in unique_leaves.into_iter().enumerate() {` => `let mut k: usize = 0; while k < unique_leaves.len() { let node = unique_leaves[k].copy_of();`
%%spec
    requires 1 <= nodes@.len() <= 0x4000_0000, branching_factor >= 2, forall|i: int| 0 <= i < nodes@.len() ==> (#[trigger] nodes@[i]).offset < 0x8000_0000_0000_0000,
    ensures r is Ok, tree_ok(r->Ok_0.tree()), holds_entries(r->Ok_0.tree(), nodes@), r->Ok_0.branching_factor == branching_factor,
%%start
    let ghost orig = nodes@;
%%before 0
    let ghost s = nodes@;
    proof {
        reveal(leaves_ok);
        assert(s.take(0) =~= Seq::<NodeItem<K>>::empty());
        s.to_multiset_ensures(); orig.to_multiset_ensures();
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).offset < 0x8000_0000_0000_0000 by { assert(s.to_multiset().count(s[i]) > 0); assert(orig.contains(s[i])); }
    }
%%loop 0
    invariant
        nodes@ == s, s.len() == orig.len(), 1 <= s.len() <= 0x4000_0000, i <= s.len(), TAG_MASK == 1u64 << 63,
        forall|a: int, c: int| 0 <= a < c < s.len() ==> #[trigger] s[a].key.rk() <= #[trigger] s[c].key.rk(),
        forall|a: int| 0 <= a < s.len() ==> (#[trigger] s[a]).offset < 0x8000_0000_0000_0000,
        0 < i < s.len() ==> s[i - 1].key.rk() < s[i as int].key.rk(),
        leaves_ok(unique_leaves@, payload_data@, s.take(i as int)), unique_leaves@.len() <= i, i > 0 ==> unique_leaves@.len() > 0,
        payload_data@.len() <= 12 * i,
    decreases s.len() - i,
%%loopstart 0
    let ghost i0 = i as int; let ghost leaves0 = unique_leaves@; let ghost pd0 = payload_data@; let ghost v = s[i as int].key.rk();
    proof {
        assert forall|k: int| 0 <= k < s.take(i0).len() implies (#[trigger] s.take(i0)[k]).key.rk() != v by { assert(s.take(i0)[k] == s[k]); if k < i0 - 1 { assert(s[k].key.rk() <= s[i0 - 1].key.rk()); } }
        lemma_offs_none(s.take(i0), v); lemma_offs_step(s, i0, v);
    }
%%before 1
    proof { assert(payload_entry.offsets@ =~= offs(s.take(j as int), v)); }
%%loop 1
    invariant
        nodes@ == s, 1 <= s.len() <= 0x4000_0000, i0 == i, i < j <= s.len(), key.rk() == v,
        forall|a: int, c: int| 0 <= a < c < s.len() ==> #[trigger] s[a].key.rk() <= #[trigger] s[c].key.rk(),
        forall|k: int| i <= k < j ==> (#[trigger] s[k]).key.rk() == v,
        payload_entry.offsets@ == offs(s.take(j as int), v), payload_entry.count == payload_entry.offsets@.len(), payload_entry.count == j - i,
    ensures j < s.len() ==> s[j as int].key.rk() > v,
    decreases s.len() - j,
%%loopstart 1
    proof { lemma_offs_step(s, j as int, v); }
%%post 1
    ;proof { assert(j < s.len() ==> s[j - 1].key.rk() < s[j as int].key.rk()) by { assert(s[j - 1].key.rk() == v); } }
%%pre `unique_leaves.push(n);` 0
    let ghost nl = n;
    proof {
        assert(s[i0].offset < 0x8000_0000_0000_0000); lemma_bits(s[i0].offset);
        assert(payload_entry.offsets@ =~= seq![s[i0].offset]) by { assert(j == i + 1); lemma_offs_step(s, i0, v); }
        assert(pd0.take(pd0.len() as int) =~= pd0);
        lemma_leaf_step(leaves0, pd0, payload_data@, s, i0, j as int, nl);
    }
%%pre `unique_leaves.push(n);` 1
    proof {
        lemma_bits(rel);
        assert(payload_data@.take(pd0.len() as int) =~= pd0);
        assert(payload_data@.subrange(rel as int, payload_data@.len() as int) =~= enc32(payload_entry.count) + enc_all(payload_entry.offsets@));
        lemma_pay_read(payload_data@, rel as int, payload_entry.count, payload_entry.offsets@);
        lemma_leaf_step(leaves0, pd0, payload_data@, s, i0, j as int, n);
    }
%%post 0
    ;let ghost leaves = unique_leaves@; let ghost pd = payload_data@;
    proof { assert(s.take(s.len() as int) =~= s); }
%%after `tree.init(branching_factor)?;`
    let ghost lb = tree.level_bounds@; let ghost t0 = tree;
    proof { lemma_levels0(lb, leaves.len() as int, branching_factor as int); }
%%loop 2
    invariant
        unique_leaves@ == leaves, k <= leaves.len(), num_nodes == tree.node_items@.len(), tree.num_leaf_nodes == leaves.len(), tree.node_items@.len() == t0.node_items@.len(),
        tree.level_bounds@ == lb, levels_ok(lb, leaves.len() as int, branching_factor as int), tree.node_items@.len() == lb[0].end, lb[0].end - lb[0].start == leaves.len(),
        tree.branching_factor == branching_factor, tree.payload_data@ == pd, tree.payload_initialized,
        forall|a: int| 0 <= a < k ==> #[trigger] leaf(tree.node_items@, lb, a) == leaves[a],
    decreases leaves.len() - k,
%%loopstart 2
    let ghost items1 = tree.node_items@;
%%loopend 2
    proof { assert forall|a: int| 0 <= a < k + 1 implies #[trigger] leaf(tree.node_items@, lb, a) == leaves[a] by { if a < k { assert(leaf(items1, lb, a) == leaves[a]); } } }
    k = k + 1;
%%post 2
    ;proof { reveal(leaves_ok); assert forall|a: int, c: int| 0 <= a < c < cnt(lb, 0) implies #[trigger] lrk(tree.node_items@, lb, a) < #[trigger] lrk(tree.node_items@, lb, c) by { assert(leaf(tree.node_items@, lb, a) == leaves[a]); assert(leaf(tree.node_items@, lb, c) == leaves[c]); } }
    let ghost t1 = tree;
%%end
    proof {
        assert forall|a: int| 0 <= a < leaves.len() implies #[trigger] leaf(tree.node_items@, lb, a) == leaves[a] by { assert(leaf(t1.node_items@, lb, a) == leaves[a]); }
        lemma_holds(tree.tree(), leaves, pd, s, orig);
    }
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" find_exact
%%ret r
%%loops 2
%%sub `&self.node_items[node_index..end]` => `slice_of(&self.node_items, node_index, end)`
%%sub `&self.payload_data[rel..]` => `slice_from(&self.payload_data, rel)`
%%sub `node_items.binary_search_by(|item| item.key.cmp(&search_entry.key))` => `bsearch(node_items, |item: &NodeItem<K>| -> (o: Ordering) ensures onum(o) == sgn(item.key.rk(), search_entry.key.rk()) { item.key.cmp(&search_entry.key) })`
%%sub `Err(_) => continue,` => `Err(_) => { continue; }`
%%spec
    requires tree_ok(self.tree()),
    ensures r is Ok, exact_result(self.tree(), key.rk(), r->Ok_0@),
%%start
    let ghost v = key.rk(); let ghost b = self.branching_factor as int; let ghost lb = self.level_bounds@;
    let ghost mut g: int = 0;
    proof { lemma_shape(self.tree()); step_start(self.tree(), v, true); }
%%loop 0
    invariant
        tree_ok(self.tree()), levels_ok(lb, self.num_leaf_nodes as int, b), b == self.branching_factor, 2 <= b <= 65535, node_size == b - 1, lb == self.level_bounds@, self.node_items@.len() == lb[0].end, leaf_nodes_offset == lb[0].start,
        v == search_entry.key.rk(), queue@.len() <= 1,
        queue@.len() == 1 ==> results@.len() == 0 && 0 <= queue@[0].1 < lb.len() && located(self.tree(), queue@[0].1 as int, g, v, true) && queue@[0].0 == at(self.tree(), queue@[0].1 as int, g),
        queue@.len() == 0 ==> exact_result(self.tree(), v, results@),
    ensures queue@.len() == 0,
    decreases if queue@.len() == 0 { 0int } else { queue@[0].1 + 1 },
%%loopstart 0
    let ghost l = next.1 as int; let ghost a = at(self.tree(), l, g); let ghost len = len_at(self.tree(), l, g);
    proof { step_node(self.tree(), l, g, v, true); K::bounds(&search_entry.key); }
%%after `let node_items = slice_of(&self.node_items, node_index, end);`
    proof {
        assert(node_items@.len() == len && len > 0);
        assert forall|k: int| 0 <= k < len implies (#[trigger] node_items@[k]).key.rk() == ik(self.tree(), a + k) && node_items@[k] == self.node_items@[a + k] by {}
    }
%%after `let child = node_items[index].offset as usize;`
    proof { assert(node_items@[index as int].key.rk() == v); step_kid(self.tree(), l, g, index as int, v, true); }
%%pre `queue.push_back((right, level - 1));`
    proof { step_right(self.tree(), l, g, index as int, v); g = kid(b, g, index + 1); }
%%pre `queue.push_back((child, level - 1));`
    proof { step_own(self.tree(), l, g, index as int, v, true); g = kid(b, g, index as int); }
%%pre `queue.push_back((node_items[0].offset as usize, level - 1));`
    proof { assert(node_items@[0].key.rk() > v); step_kid(self.tree(), l, g, 0, v, true); step_between(self.tree(), l, g, 0, v, true); g = kid(b, g, 0); }
%%pre `queue.push_back((node_items[node_items.len() - 1]`
    proof { assert(node_items@[len - 1].key.rk() < v); step_kid(self.tree(), l, g, len - 1, v, true); step_below(self.tree(), l, g, v, true); g = kid(b, g, len); step_node(self.tree(), l - 1, g, v, true); }
%%pre `queue.push_back((node_items[index].offset as usize, level - 1));`
    proof { assert(node_items@[index as int].key.rk() > v); assert(node_items@[index - 1].key.rk() < v); step_kid(self.tree(), l, g, index as int, v, true); step_between(self.tree(), l, g, index as int, v, true); g = kid(b, g, index as int); }
%%after `let off = node_items[idx].offset;`
    let ghost li = a - lb[0].start + idx;
    proof { assert(node_items@[idx as int].key.rk() == v); step_leaf(self.tree(), g, idx as int, v); lemma_mask(off); }
%%iter 1 it
%%loop 1
    invariant
        results@.len() == it.index(), forall|k: int| 0 <= k < it.index() ==> (#[trigger] results@[k]) == (SearchResultItem { offset: entry.offsets@[k] as usize, index: base_index }),
%%post 1
    proof { assert(results@ =~= item_res(self.tree(), li)); }
%%after `results.push(SearchResultItem { offset: off as usize, index: base_index, });`
    proof { assert(results@ =~= item_res(self.tree(), li)); }
%%after `Err(_) => {`
    proof {
        assert forall|i: int| 0 <= i < len implies #[trigger] ik(self.tree(), a + i) != v by { assert(node_items@[i].key.rk() != v); }
        step_nowhere(self.tree(), g, v); assert(results@ =~= Seq::<SearchResultItem>::empty());
    }
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" find_partition
%%ret r
%%loops 1
%%sub `for level in (1..self.level_bounds.len()).rev() {` => `let mut level: usize = self.level_bounds.len(); while level > 1 { level -= 1;`
%%sub `&self.node_items[node_index..end]` => `slice_of(&self.node_items, node_index, end)`
%%sub `node_items.binary_search_by(|item| item.key.cmp(&key))` => `bsearch(node_items, |item: &NodeItem<K>| -> (o: Ordering) ensures onum(o) == sgn(item.key.rk(), key.rk()) { item.key.cmp(&key) })`
%%spec
    requires tree_ok(self.tree()),
    ensures r is Ok, part_ok(self.tree(), key.rk(), r->Ok_0 as int),
%%start
    let ghost v = key.rk(); let ghost b = self.branching_factor as int; let ghost lb = self.level_bounds@;
    let ghost mut g: int = 0;
    proof { lemma_shape(self.tree()); step_start(self.tree(), v, false); }
%%loop 0
    invariant
        tree_ok(self.tree()), levels_ok(lb, self.num_leaf_nodes as int, b), b == self.branching_factor, 2 <= b <= 65535, node_size == b - 1, lb == self.level_bounds@, self.node_items@.len() == lb[0].end,
        v == key.rk(), 1 <= level <= lb.len(), located(self.tree(), level - 1, g, v, false), node_index == at(self.tree(), level - 1, g),
    decreases level,
%%after `level -= 1;`
    let ghost l = level as int; let ghost a = at(self.tree(), l, g); let ghost len = len_at(self.tree(), l, g);
    proof { step_node(self.tree(), l, g, v, false); K::bounds(&key); }
%%after `let node_items = slice_of(&self.node_items, node_index, end);`
    proof {
        assert(node_items@.len() == len && len > 0);
        assert forall|k: int| 0 <= k < len implies (#[trigger] node_items@[k]).key.rk() == ik(self.tree(), a + k) && node_items@[k] == self.node_items@[a + k] by {}
    }
%%pre `node_index = node_items[index].offset as usize;` 0
    proof { assert(node_items@[index as int].key.rk() == v); step_kid(self.tree(), l, g, index as int, v, false); step_own(self.tree(), l, g, index as int, v, false); g = kid(b, g, index as int); }
%%pre `node_index = node_items[0].offset as usize;`
    proof { assert(node_items@[0].key.rk() > v); step_kid(self.tree(), l, g, 0, v, false); step_between(self.tree(), l, g, 0, v, false); g = kid(b, g, 0); }
%%pre `node_index = node_items[node_items.len() - 1]`
    proof { assert(node_items@[len - 1].key.rk() < v); step_kid(self.tree(), l, g, len - 1, v, false); step_below(self.tree(), l, g, v, false); g = kid(b, g, len); step_node(self.tree(), l - 1, g, v, false); }
%%pre `node_index = node_items[index].offset as usize;` 1
    proof { assert(node_items@[index as int].key.rk() > v); assert(node_items@[index - 1].key.rk() < v); step_kid(self.tree(), l, g, index as int, v, false); step_between(self.tree(), l, g, index as int, v, false); g = kid(b, g, index as int); }
%%post 0
    ;proof { assert(part_at(self.tree(), v, node_index as int, g)); }
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" find_range
%%ret r
%%loops 3
%%sub `lower > upper` => `lower.gt(&upper)`
%%sub `lower == upper` => `lower.eq(&upper)`
%%sub `item.key >= lower && item.key <= upper` => `item.key.ge(&lower) && item.key.le(&upper)`
%%sub `&self.node_items[current_idx..node_end]` => `slice_of(&self.node_items, current_idx, node_end)`
%%sub `&self.payload_data[rel..]` => `slice_from(&self.payload_data, rel)`
%%sub `for (_i, item) in node_items.iter().enumerate() {` => `let mut _i: usize = 0; while _i < node_items.len() { let item = &node_items[_i];`
%%spec
    requires tree_ok(self.tree()),
    ensures r is Ok, range_result(self.tree(), lower.rk(), upper.rk(), r->Ok_0@),
%%start
    let ghost lo = lower.rk(); let ghost hi = upper.rk(); let ghost b = self.branching_factor as int; let ghost lb = self.level_bounds@;
    proof { reveal(range_result); lemma_shape(self.tree()); lemma_levels0(lb, self.num_leaf_nodes as int, b); }
%%pre `let start_idx =`
    proof {
        let g = choose|g: int| part_at(self.tree(), lo, lower_idx as int, g); let h = choose|h: int| part_at(self.tree(), hi, upper_idx as int, h);
        step_node(self.tree(), 0, g, lo, false); step_node(self.tree(), 0, h, hi, false);
    }
%%before 0
    let ghost s = start_idx - leaf_start; let ghost e = end_idx - leaf_start;
%%loop 0
    invariant
        tree_ok(self.tree()), levels_ok(lb, self.num_leaf_nodes as int, b), b == self.branching_factor, 2 <= b <= 65535, node_size == b - 1, lb == self.level_bounds@, self.node_items@.len() == lb[0].end,
        leaf_start == lb[0].start, leaf_end == lb[0].end, leaf_nodes_offset == leaf_start, lb[0].end - lb[0].start == self.num_leaf_nodes,
        lo == lower.rk(), hi == upper.rk(), leaf_start <= start_idx <= current_idx <= leaf_end, end_idx <= leaf_end, current_idx <= end_idx || current_idx == start_idx,
        s == start_idx - leaf_start, results@ == span_res(self.tree(), lo, hi, s, current_idx - leaf_start), lb[0].end <= 3 * BOUND(),
    decreases end_idx - current_idx,
%%loop 1
    invariant
        tree_ok(self.tree()), lb == self.level_bounds@, self.node_items@.len() == lb[0].end, lb[0].end - lb[0].start == self.num_leaf_nodes,
        leaf_start == lb[0].start, leaf_end == lb[0].end, leaf_nodes_offset == leaf_start,
        lo == lower.rk(), hi == upper.rk(), leaf_start <= start_idx <= current_idx <= node_end <= leaf_end, lb[0].end <= 3 * BOUND(),
        node_items@ == self.node_items@.subrange(current_idx as int, node_end as int), _i <= node_items@.len(), s == start_idx - leaf_start,
        results@ == span_res(self.tree(), lo, hi, s, current_idx + _i - leaf_start),
    decreases node_items@.len() - _i,
%%loopstart 1
    let ghost li = current_idx + _i - leaf_start; let ghost r0 = results@;
    proof { lemma_scan(self.tree(), li); assert(r0 + Seq::<SearchResultItem>::empty() =~= r0); }
%%loopend 1
    _i += 1;
%%iter 2 it
%%loop 2
    invariant
        r0.len() + it.index() == results@.len(), forall|k: int| 0 <= k < r0.len() ==> results@[k] == r0[k], idx == li,
        forall|k: int| r0.len() <= k < results@.len() ==> (#[trigger] results@[k]) == (SearchResultItem { offset: entry.offsets@[k - r0.len()] as usize, index: idx }),
%%post 2
    proof { assert(results@ =~= r0 + item_res(self.tree(), li)); }
%%after `results.push(SearchResultItem { offset: off as usize, index: idx, });`
    proof { assert(results@ =~= r0 + item_res(self.tree(), li)); }
%%post 0
    ;proof { lemma_range(self.tree(), lo, hi, lower_idx as int, upper_idx as int, s, e, results@); }
%%done
%%fn static_btree/entry.rs "impl<K: Key> Entry<K>" write_to
%%ret r
%%sub `writer.write_u64::<LittleEndian>(self.offset)` => `writer.write_u64(self.offset)`
%%sub `Self::OFFSET_SIZE` => `Self::offset_size()`
%%spec
    ensures r is Ok ==> final(writer).out() == old(writer).out() + enc_item(*self) && r->Ok_0 == es::<K>(),
%%start
    proof { K::size(); }
    let ghost o = writer.out();
%%end
    proof { assert(writer.out() =~= o + enc_item(*self)); }
%%done
%%fn static_btree/stree.rs - read_node_vec
%%ret r
%%sig `read_node_vec<K: Key>` => `read_node_vec<K: Key, R: Read>`
%%sig `mut data: impl Read` => `data: &mut R`
%%sub `node_items.clear()` => `clear_vec(node_items)`
%%sub `node_items.capacity()` => `cap_of(node_items)`
%%sub `from_reader(&mut data)` => `from_reader(data)`
%%sub `node_items.push(` => `push_within(node_items,`
%%while 0 n_
%%loops 1
%%spec
    requires items_at::<K>(old(data).data(), old(data).pos(), vcap(*old(node_items))),
    ensures final(data).data() == old(data).data(), r is Ok,
        final(node_items)@.len() == vcap(*old(node_items)), final(data).pos() == old(data).pos() + vcap(*old(node_items)) * es::<K>(),
        forall|i: int| 0 <= i < final(node_items)@.len() ==> #[trigger] final(node_items)@[i] == dec_item::<K>(old(data).data(), old(data).pos() + i * es::<K>()),
%%start
    let ghost d = data.data(); let ghost p = data.pos(); let ghost k = vcap(*node_items);
    proof { assert(0 * es::<K>() == 0) by (nonlinear_arith); K::size(); }
%%loop 0
    invariant
        d == data.data(), d == old(data).data(), p == old(data).pos(), items_at::<K>(d, p, k), n__end == k, k == vcap(*old(node_items)), 0 <= n_ <= n__end, n_ == node_items@.len(), data.pos() == p + n_ * es::<K>(), vcap(*node_items) == k,
        forall|i: int| 0 <= i < n_ ==> #[trigger] node_items@[i] == dec_item::<K>(d, p + i * es::<K>()), 0 < es::<K>(),
    decreases n__end - n_,
%%loopstart 0
    proof {
        let z = es::<K>();
        assert(key_ok::<K>(d, p + n_ * z));
        assert((n_ + 1) * z == n_ * z + z) by (nonlinear_arith);
        assert((n_ + 1) * z <= k * z) by (nonlinear_arith) requires n_ + 1 <= k, z >= 0;
        assert(n_ * z >= 0) by (nonlinear_arith) requires n_ >= 0, z >= 0;
    }
%%done
%%fn static_btree/stree.rs - read_node_items
%%ret r
%%sig `R: Read + Seek + ?Sized` => `R: Read + Seek`
%%sub `Vec::with_capacity(length)` => `with_cap(length)`
%%sub `NodeItem::<K>::SERIALIZED_SIZE` => `Entry::<K>::ser_size()`
%%spec
    requires items_at::<K>(old(data).data(), base + node_index * es::<K>(), length as int), old(data).data().len() <= u64::MAX,
    ensures final(data).data() == old(data).data(), r is Ok, r->Ok_0@.len() == length,
        forall|i: int| 0 <= i < length ==> #[trigger] r->Ok_0@[i] == dec_item::<K>(old(data).data(), base + node_index * es::<K>() + i * es::<K>()),
%%start
    proof {
        let z = es::<K>(); K::size();
        assert(0 <= node_index * z) by (nonlinear_arith) requires node_index >= 0, z >= 0;
        assert(0 <= length * z) by (nonlinear_arith) requires length >= 0, z >= 0;
    }
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" stream_find_exact
%%ret r
%%loops 2
%%sig `R: Read + Seek + ?Sized` => `R: Read + Seek`
%%sub `let Range { start: leaf_nodes_offset, end: num_nodes, } = level_bounds` => `let first_ = level_bounds`
%%sub `.expect("RTree has at least one level when node_size >= 2 and num_items > 0");` => `.expect("RTree has at least one level when node_size >= 2 and num_items > 0"); let leaf_nodes_offset = first_.start; let num_nodes = first_.end;`
%%sub `*num_nodes as u64` => `num_nodes as u64`
%%sub `Entry::<K>::SERIALIZED_SIZE` => `Entry::<K>::ser_size()`
%%sub `node_items.binary_search_by(|item: &Entry<K>| item.key.cmp(&search_entry.key))` => `bsearch(node_items.as_slice(), |item: &NodeItem<K>| -> (o: Ordering) ensures onum(o) == sgn(item.key.rk(), search_entry.key.rk()) { item.key.cmp(&search_entry.key) })`
%%sub `node_items.binary_search_by(|item| item.key.cmp(&search_entry.key))` => `bsearch(node_items.as_slice(), |item: &NodeItem<K>| -> (o: Ordering) ensures onum(o) == sgn(item.key.rk(), search_entry.key.rk()) { item.key.cmp(&search_entry.key) })`
%%sub `Err(_) => continue,` => `Err(_) => { continue; }`
%%sub `let node_items = read_node_items(` => `let node_items: Vec<NodeItem<K>> = read_node_items(`
%%spec
    requires readable::<K>(old(data).data(), old(data).pos(), num_items as int, branching_factor as int), tree_ok(dec_tree::<K>(old(data).data(), old(data).pos(), num_items as int, branching_factor as int)),
    ensures r is Ok, final(data).data() == old(data).data(),
        exact_result(dec_tree::<K>(old(data).data(), old(data).pos(), num_items as int, branching_factor as int), key.rk(), r->Ok_0@),
%%start
    let ghost d = data.data(); let ghost p = data.pos(); let ghost t = dec_tree::<K>(d, p, num_items as int, branching_factor as int); let ghost n = num_items as int;
    let ghost v = key.rk(); let ghost b = branching_factor as int;
    let ghost mut g: int = 0;
    proof { lemma_dec_shape::<K>(d, p, n, b); lemma_shape(t); step_start(t, v, true); }
%%after `let num_nodes = first_.end;`
    let ghost lb = level_bounds@;
    proof { lemma_bounds_of(lb, n, b); lemma_levels0(lb, n, b); let x = total(n, b); let z = es::<K>(); assert(x * z == z * x) by (nonlinear_arith); }
%%loop 0
    invariant
        d == data.data(), readable::<K>(d, p, n, b), t == dec_tree::<K>(d, p, n, b), index_base == p, payload_data_start == p + total(n, b) * es::<K>(), d.len() <= 0x7000_0000_0000_0000,
        tree_ok(t), levels_ok(lb, n, b), b == t.branching_factor, n == t.num_leaf_nodes, 2 <= b <= 65535, node_size == b - 1, lb == t.level_bounds, lb == level_bounds@, t.node_items.len() == lb[0].end, leaf_nodes_offset == lb[0].start, total(n, b) == lb[0].end,
        v == search_entry.key.rk(), queue@.len() <= 1,
        queue@.len() == 1 ==> results@.len() == 0 && 0 <= queue@[0].1 < lb.len() && located(t, queue@[0].1 as int, g, v, true) && queue@[0].0 == at(t, queue@[0].1 as int, g),
        queue@.len() == 0 ==> exact_result(t, v, results@),
    ensures queue@.len() == 0,
    decreases if queue@.len() == 0 { 0int } else { queue@[0].1 + 1 },
%%loopstart 0
    let ghost l = next.1 as int; let ghost a = at(t, l, g); let ghost len = len_at(t, l, g);
    proof { step_node(t, l, g, v, true); K::bounds(&search_entry.key); lemma_node_items::<K>(d, p, n, b, a, len); }
%%after `let node_items: Vec<NodeItem<K>> = read_node_items(data, index_base, node_index, end - node_index)?;`
    proof {
        assert(node_items@.len() == len && len > 0);
        assert forall|k: int| 0 <= k < len implies (#[trigger] node_items@[k]).key.rk() == ik(t, a + k) && node_items@[k] == t.node_items[a + k] by {}
    }
%%after `let child = node_items[index].offset as usize;`
    proof { assert(node_items@[index as int].key.rk() == v); step_kid(t, l, g, index as int, v, true); }
%%pre `queue.push_back((right, level - 1));`
    proof { step_right(t, l, g, index as int, v); g = kid(b, g, index + 1); }
%%pre `queue.push_back((child, level - 1));`
    proof { step_own(t, l, g, index as int, v, true); g = kid(b, g, index as int); }
%%pre `queue.push_back((node_items[0].offset as usize, level - 1));`
    proof { assert(node_items@[0].key.rk() > v); step_kid(t, l, g, 0, v, true); step_between(t, l, g, 0, v, true); g = kid(b, g, 0); }
%%pre `queue.push_back(( node_items[node_items.len() - 1]`
    proof { assert(node_items@[len - 1].key.rk() < v); step_kid(t, l, g, len - 1, v, true); step_below(t, l, g, v, true); g = kid(b, g, len); step_node(t, l - 1, g, v, true); }
%%pre `queue.push_back((node_items[index].offset as usize, level - 1));`
    proof { assert(node_items@[index as int].key.rk() > v); assert(node_items@[index - 1].key.rk() < v); step_kid(t, l, g, index as int, v, true); step_between(t, l, g, index as int, v, true); g = kid(b, g, index as int); }
%%after `let off = node_items[idx].offset;`
    let ghost li = a - lb[0].start + idx;
    proof { assert(node_items@[idx as int].key.rk() == v); step_leaf(t, g, idx as int, v); lemma_mask(off); if tagged(off) { lemma_pay_file::<K>(d, p, n, b, off); } }
%%iter 1 it
%%loop 1
    invariant
        results@.len() == it.index(), forall|k: int| 0 <= k < it.index() ==> (#[trigger] results@[k]) == (SearchResultItem { offset: entry.offsets@[k] as usize, index: base_index }),
%%post 1
    proof { assert(results@ =~= item_res(t, li)); }
%%after `results.push(SearchResultItem { offset: off as usize, index: base_index, });`
    proof { assert(results@ =~= item_res(t, li)); }
%%after `Err(_) => {`
    proof {
        assert forall|i: int| 0 <= i < len implies #[trigger] ik(t, a + i) != v by { assert(node_items@[i].key.rk() != v); }
        step_nowhere(t, g, v); assert(results@ =~= Seq::<SearchResultItem>::empty());
    }
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" stream_find_partition
%%ret r
%%loops 1
%%sig `R: Read + Seek + ?Sized` => `R: Read + Seek`
%%sub `for level in (1..level_bounds.len()).rev() {` => `let mut level: usize = level_bounds.len(); while level > 1 { level -= 1;`
%%sub `node_items.binary_search_by(|item: &Entry<K>| item.key.cmp(&key))` => `bsearch(node_items.as_slice(), |item: &NodeItem<K>| -> (o: Ordering) ensures onum(o) == sgn(item.key.rk(), key.rk()) { item.key.cmp(&key) })`
%%sub `let node_items = read_node_items(` => `let node_items: Vec<NodeItem<K>> = read_node_items(`
%%spec
    requires readable::<K>(old(data).data(), old(data).pos(), num_items as int, branching_factor as int), tree_ok(dec_tree::<K>(old(data).data(), old(data).pos(), num_items as int, branching_factor as int)),
    ensures r is Ok, final(data).data() == old(data).data(), final(data).pos() == old(data).pos(),
        part_ok(dec_tree::<K>(old(data).data(), old(data).pos(), num_items as int, branching_factor as int), key.rk(), r->Ok_0 as int),
%%start
    let ghost d = data.data(); let ghost p = data.pos(); let ghost t = dec_tree::<K>(d, p, num_items as int, branching_factor as int); let ghost n = num_items as int;
    let ghost v = key.rk(); let ghost b = branching_factor as int;
    let ghost mut g: int = 0;
    proof { lemma_dec_shape::<K>(d, p, n, b); lemma_shape(t); step_start(t, v, false); }
%%before 0
    let ghost lb = level_bounds@;
    proof { lemma_bounds_of(lb, n, b); lemma_levels0(lb, n, b); }
%%loop 0
    invariant
        d == data.data(), readable::<K>(d, p, n, b), t == dec_tree::<K>(d, p, n, b), index_base == p, d.len() <= 0x7000_0000_0000_0000, start_position == p,
        tree_ok(t), levels_ok(lb, n, b), b == t.branching_factor, n == t.num_leaf_nodes, 2 <= b <= 65535, node_size == b - 1, lb == t.level_bounds, lb == level_bounds@, t.node_items.len() == lb[0].end, total(n, b) == lb[0].end,
        v == key.rk(), 1 <= level <= lb.len(), located(t, level - 1, g, v, false), node_index == at(t, level - 1, g),
    decreases level,
%%after `level -= 1;`
    let ghost l = level as int; let ghost a = at(t, l, g); let ghost len = len_at(t, l, g);
    proof { step_node(t, l, g, v, false); K::bounds(&key); lemma_node_items::<K>(d, p, n, b, a, len); }
%%after `let node_items: Vec<NodeItem<K>> = read_node_items(data, index_base, node_index, end - node_index)?;`
    proof {
        assert(node_items@.len() == len && len > 0);
        assert forall|k: int| 0 <= k < len implies (#[trigger] node_items@[k]).key.rk() == ik(t, a + k) && node_items@[k] == t.node_items[a + k] by {}
    }
%%pre `node_index = node_items[index].offset as usize;` 0
    proof { assert(node_items@[index as int].key.rk() == v); step_kid(t, l, g, index as int, v, false); step_own(t, l, g, index as int, v, false); g = kid(b, g, index as int); }
%%pre `node_index = node_items[0].offset as usize;`
    proof { assert(node_items@[0].key.rk() > v); step_kid(t, l, g, 0, v, false); step_between(t, l, g, 0, v, false); g = kid(b, g, 0); }
%%pre `node_index = node_items[node_items.len() - 1]`
    proof { assert(node_items@[len - 1].key.rk() < v); step_kid(t, l, g, len - 1, v, false); step_below(t, l, g, v, false); g = kid(b, g, len); step_node(t, l - 1, g, v, false); }
%%pre `node_index = node_items[index].offset as usize;` 1
    proof { assert(node_items@[index as int].key.rk() > v); assert(node_items@[index - 1].key.rk() < v); step_kid(t, l, g, index as int, v, false); step_between(t, l, g, index as int, v, false); g = kid(b, g, index as int); }
%%post 0
    ;proof { assert(part_at(t, v, node_index as int, g)); }
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" stream_find_range
%%ret r
%%loops 3
%%sig `R: Read + Seek + ?Sized` => `R: Read + Seek`
%%sub `let Range { start: leaf_nodes_offset, end: num_nodes, } = level_bounds` => `let first_ = level_bounds`
%%sub `.expect("RTree has at least one level when node_size >= 2 and num_items > 0");` => `.expect("RTree has at least one level when node_size >= 2 and num_items > 0"); let leaf_nodes_offset = first_.start; let num_nodes = first_.end;`
%%sub `*num_nodes as u64` => `num_nodes as u64`
%%sub `Entry::<K>::SERIALIZED_SIZE` => `Entry::<K>::ser_size()`
%%sub `lower > upper` => `lower.gt(&upper)`
%%sub `lower == upper` => `lower.eq(&upper)`
%%sub `item.key >= lower && item.key <= upper` => `item.key.ge(&lower) && item.key.le(&upper)`
%%sub `for (_i, item) in node_items.iter().enumerate() {` => `let mut _i: usize = 0; while _i < node_items.len() { let item = &node_items[_i];`
%%spec
    requires readable::<K>(old(data).data(), old(data).pos(), num_items as int, branching_factor as int), tree_ok(dec_tree::<K>(old(data).data(), old(data).pos(), num_items as int, branching_factor as int)),
    ensures r is Ok, final(data).data() == old(data).data(),
        range_result(dec_tree::<K>(old(data).data(), old(data).pos(), num_items as int, branching_factor as int), lower.rk(), upper.rk(), r->Ok_0@),
%%start
    let ghost d = data.data(); let ghost p = data.pos(); let ghost t = dec_tree::<K>(d, p, num_items as int, branching_factor as int); let ghost n = num_items as int;
    let ghost lo = lower.rk(); let ghost hi = upper.rk(); let ghost b = branching_factor as int;
    proof { reveal(range_result); lemma_dec_shape::<K>(d, p, n, b); lemma_shape(t); lemma_levels0(t.level_bounds, n, b); let x = total(n, b); let z = es::<K>(); assert(x * z == z * x) by (nonlinear_arith); }
%%after `let num_nodes = first_.end;`
    let ghost lb = level_bounds@;
    proof { lemma_bounds_of(lb, n, b); lemma_levels0(lb, n, b); }
%%pre `let start_idx =`
    proof {
        let g = choose|g: int| part_at(t, lo, lower_idx as int, g); let h = choose|h: int| part_at(t, hi, upper_idx as int, h);
        step_node(t, 0, g, lo, false); step_node(t, 0, h, hi, false);
    }
%%before 0
    let ghost s = start_idx - leaf_start; let ghost e = end_idx - leaf_start;
%%loop 0
    invariant
        d == data.data(), readable::<K>(d, p, n, b), t == dec_tree::<K>(d, p, n, b), index_base == p, payload_data_start == p + total(n, b) * es::<K>(), d.len() <= 0x7000_0000_0000_0000,
        tree_ok(t), levels_ok(lb, n, b), b == t.branching_factor, 2 <= b <= 65535, node_size == b - 1, lb == t.level_bounds, t.node_items.len() == lb[0].end, total(n, b) == lb[0].end, n == t.num_leaf_nodes,
        leaf_start == lb[0].start, leaf_end == lb[0].end, leaf_nodes_offset == leaf_start, lb[0].end - lb[0].start == n,
        lo == lower.rk(), hi == upper.rk(), leaf_start <= start_idx <= current_idx <= leaf_end, end_idx <= leaf_end, current_idx <= end_idx || current_idx == start_idx,
        s == start_idx - leaf_start, results@ == span_res(t, lo, hi, s, current_idx - leaf_start), lb[0].end <= 3 * BOUND(),
    decreases end_idx - current_idx,
%%after `let node_end = min(current_idx + node_size, end_idx);`
    proof { lemma_node_items::<K>(d, p, n, b, current_idx as int, node_end - current_idx); }
%%before 1
    proof { assert forall|k: int| 0 <= k < node_end - current_idx implies node_items@[k] == t.node_items[current_idx + k] by {} assert(node_items@ =~= t.node_items.subrange(current_idx as int, node_end as int)); }
%%loop 1
    invariant
        d == data.data(), readable::<K>(d, p, n, b), t == dec_tree::<K>(d, p, n, b), payload_data_start == p + total(n, b) * es::<K>(), d.len() <= 0x7000_0000_0000_0000,
        tree_ok(t), lb == t.level_bounds, t.node_items.len() == lb[0].end, lb[0].end - lb[0].start == n, n == t.num_leaf_nodes,
        leaf_start == lb[0].start, leaf_end == lb[0].end, leaf_nodes_offset == leaf_start,
        lo == lower.rk(), hi == upper.rk(), leaf_start <= start_idx <= current_idx <= node_end <= leaf_end, lb[0].end <= 3 * BOUND(),
        node_items@ == t.node_items.subrange(current_idx as int, node_end as int), _i <= node_items@.len(), s == start_idx - leaf_start,
        results@ == span_res(t, lo, hi, s, current_idx + _i - leaf_start),
    decreases node_items@.len() - _i,
%%loopstart 1
    let ghost li = current_idx + _i - leaf_start; let ghost r0 = results@;
    proof { lemma_scan(t, li); assert(r0 + Seq::<SearchResultItem>::empty() =~= r0); let off = t.node_items[leaf_start + li].offset; if tagged(off) { lemma_pay_file::<K>(d, p, n, b, off); } }
%%loopend 1
    _i += 1;
%%iter 2 it
%%loop 2
    invariant
        r0.len() + it.index() == results@.len(), forall|k: int| 0 <= k < r0.len() ==> results@[k] == r0[k], idx == li,
        forall|k: int| r0.len() <= k < results@.len() ==> (#[trigger] results@[k]) == (SearchResultItem { offset: entry.offsets@[k - r0.len()] as usize, index: idx }),
%%post 2
    proof { assert(results@ =~= r0 + item_res(t, li)); }
%%after `results.push(SearchResultItem { offset: off as usize, index: idx, });`
    proof { assert(results@ =~= r0 + item_res(t, li)); }
%%post 0
    ;proof { lemma_range(t, lo, hi, lower_idx as int, upper_idx as int, s, e, results@); }
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" stream_write
%%ret r
%%loops 1
%%spec
    // sizes that fit a machine word
    requires enc_tree(self.tree()).len() <= 0x7000_0000_0000_0000, self.payload_data@.len() <= 0x7000_0000_0000_0000,
    ensures r is Ok ==> final(out).out() == old(out).out() + enc_tree(self.tree()) && r->Ok_0 == enc_tree(self.tree()).len(),
%%start
    let ghost o = out.out(); let ghost s = self.node_items@; let ghost z = es::<K>();
    proof { lemma_items_len(s); K::size(); assert(s.take(0) =~= Seq::<Entry<K>>::empty()); assert(o + enc_items(s.take(0)) =~= o); assert(0 * z == 0) by (nonlinear_arith); }
%%iter 0 it
%%loop 0
    invariant
        s == self.node_items@, z == es::<K>(), z > 0, s.len() * z <= 0x7000_0000_0000_0000, out.out() == o + enc_items(s.take(it.index() as int)), written_bytes == it.index() * z, o == old(out).out(), it.index() <= s.len(),
%%loopstart 0
    let ghost k = it.index() as int;
    proof {
        assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]);
        assert((k + 1) * z == k * z + z) by (nonlinear_arith);
        assert((k + 1) * z <= s.len() * z) by (nonlinear_arith) requires k + 1 <= s.len(), z > 0;
        assert(o + enc_items(s.take(k)) + enc_item(s[k]) =~= o + enc_items(s.take(k + 1)));
    }
%%post 0
    ;proof { assert(s.take(s.len() as int) =~= s); assert(out.out() + self.payload_data@ =~= o + (enc_items(s) + self.payload_data@)); assert(o + enc_items(s) =~= o + (enc_items(s) + Seq::<u8>::empty())); assert(self.payload_data@.len() == 0 ==> self.payload_data@ =~= Seq::<u8>::empty()); }
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" index_size
%%ret r
%%loops 1
%%sub `branching_factor.clamp(2, 65535)` => `clamp16(branching_factor, 2, 65535)`
%%sub `NodeItem::<K>::SERIALIZED_SIZE` => `Entry::<K>::ser_size()`
%%spec
    requires branching_factor >= 2, 1 <= num_items <= BOUND(), total(num_items as int, branching_factor as int) * es::<K>() + payload_size <= 0x7000_0000_0000_0000,
    ensures r == total(num_items as int, branching_factor as int) * es::<K>() + payload_size,
%%start
    let ghost b = branching_factor as int; let ghost n0 = num_items as int;
    proof { lemma_upper(n0, b); lemma_cdiv(n0, b); }
%%loop 0
    invariant_except_break
        num_nodes + upper_total(n as int, b) == total(n0, b), n == n0 || n >= b,
    invariant
        b == branching_factor_min, 2 <= b <= 65535, 1 <= n <= n0 <= BOUND(), total(n0, b) <= 3 * BOUND(),
    ensures num_nodes == total(n0, b),
    decreases n,
%%loopstart 0
    proof { lemma_upper(n as int, b); lemma_cdiv(n as int, b); }
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" payload_size
%%ret r
%%spec
    ensures r == self.payload_data@.len(),
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" num_leaf_items
%%ret r
%%spec
    ensures r == self.num_leaf_nodes,
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" read_data
%%ret r
%%sig `fn read_data(` => `fn read_data<R: Read>(`
%%sig `data: impl Read` => `data: &mut R`
%%spec
    requires items_at::<K>(old(data).data(), old(data).pos(), vcap(old(self).node_items)),
    ensures final(data).data() == old(data).data(), r is Ok, final(data).pos() == old(data).pos() + vcap(old(self).node_items) * es::<K>(),
        final(self).node_items@.len() == vcap(old(self).node_items),
        forall|i: int| 0 <= i < final(self).node_items@.len() ==> #[trigger] final(self).node_items@[i] == dec_item::<K>(old(data).data(), old(data).pos() + i * es::<K>()),
        final(self).num_leaf_nodes == old(self).num_leaf_nodes, final(self).branching_factor == old(self).branching_factor, final(self).level_bounds == old(self).level_bounds,
        final(self).payload_data == old(self).payload_data, final(self).payload_initialized == old(self).payload_initialized,
%%done
%%fn static_btree/stree.rs "impl<K: Key> Stree<K>" from_buf
%%ret r
%%sig `from_buf(` => `from_buf<R: Read>(`
%%sig `mut data: impl Read` => `data: &mut R`
%%sub `branching_factor.clamp(2u16, 65535u16)` => `clamp16(branching_factor, 2u16, 65535u16)`
%%sub `Vec::with_capacity(num_nodes)` => `with_cap(num_nodes)`
%%sub `tree.read_data(&mut data)` => `tree.read_data(data)`
%%spec
    requires readable::<K>(old(data).data(), old(data).pos(), num_items as int, branching_factor as int),
    ensures r is Ok, same_tree(r->Ok_0.tree(), dec_tree::<K>(old(data).data(), old(data).pos(), num_items as int, branching_factor as int)),
%%start
    let ghost d = data.data(); let ghost p = data.pos(); let ghost n = num_items as int; let ghost b = branching_factor as int; let ghost t = dec_tree::<K>(d, p, n, b);
    proof { lemma_dec_shape::<K>(d, p, n, b); reveal(readable); reveal(dec_tree); }
%%after `let level_bounds = Stree::<K>::generate_level_bounds(num_items, branching_factor);`
    proof { lemma_bounds_of(level_bounds@, n, b); }
%%after `let mut payload = Vec::new();`
    let ghost tr = tree;
    proof { assert(data.pos() == p + total(n, b) * es::<K>()); assert(tr.node_items@ =~= t.node_items); }
%%end
    proof { assert(Seq::<u8>::empty() + t.payload_data =~= t.payload_data); assert(tree.payload_data@ =~= t.payload_data); }
%%done
// ---- a whole index
/// equal but for the flag of an empty payload section
pub open spec fn same_tree<K: Key>(t: Tree<K>, u: Tree<K>) -> bool {
    t.node_items == u.node_items && t.level_bounds == u.level_bounds && t.num_leaf_nodes == u.num_leaf_nodes && t.branching_factor == u.branching_factor && t.payload_data == u.payload_data && (t.init || t.payload_data.len() == 0)
}

// ---- the properties
/// P04: in memory
pub fn p04_memory<K: Key>(nodes: &[NodeItem<K>], branching_factor: u16, key: K) -> (r: Result<Vec<SearchResultItem>>)
    requires 1 <= nodes@.len() <= 0x4000_0000, branching_factor >= 3, forall|i: int| 0 <= i < nodes@.len() ==> (#[trigger] nodes@[i]).offset < 0x8000_0000_0000_0000,
    ensures r is Ok, answers_key(nodes@, key.rk(), r->Ok_0@),
{
    let ghost v = key.rk();
    let t = Stree::build(nodes, branching_factor)?;
    let r = t.find_exact(key)?;
    proof { lemma_answers(t.tree(), nodes@, v, r@); }
    Ok(r)
}
/// P07: what from_buf reads at the end of a file writes the same bytes again
pub proof fn p07_rewrite<K: Key>(t: Tree<K>, u: Tree<K>, d: Seq<u8>, p: int)
    requires tree_ok(t), stored(d, p, t), p + enc_tree(t).len() == d.len(), same_tree(u, dec_tree::<K>(d, p, t.num_leaf_nodes, t.branching_factor)),
    ensures enc_tree(u) == enc_tree(t), tree_ok(u),
{
    lemma_stored(d, p, t); lemma_items_len(t.node_items); lemma_shape(t); reveal(dec_tree);
    let q = dec_tree::<K>(d, p, t.num_leaf_nodes, t.branching_factor);
    lemma_init(t);
    assert(q.payload_data =~= if t.init { t.payload_data } else { Seq::<u8>::empty() });
    assert(enc_tree(u) =~= enc_tree(t));
    reveal(tree_ok);
}

/// the contract of Stree::find_exact / find_range that unit query assumes
pub fn p06_memory<K: Key>(nodes: &[NodeItem<K>], branching_factor: u16, lower: K, upper: K, exact: K) -> (r: (Result<Vec<SearchResultItem>>, Result<Vec<SearchResultItem>>))
    requires 1 <= nodes@.len() <= 0x4000_0000, branching_factor >= 3, forall|i: int| 0 <= i < nodes@.len() ==> (#[trigger] nodes@[i]).offset < 0x8000_0000_0000_0000,
    ensures r.0 is Ok && exact_set(ents(nodes@), exact.rk(), offs_of(r.0->Ok_0@)), r.1 is Ok && range_set(ents(nodes@), lower.rk(), upper.rk(), offs_of(r.1->Ok_0@)),
{
    let ghost (v, lo, hi) = (exact.rk(), lower.rk(), upper.rk());
    let t = match Stree::build(nodes, branching_factor) { Ok(t) => t, Err(e) => { assert(false); return (Err(e), Ok(Vec::new())); } };
    let a = t.find_exact(exact);
    let b = t.find_range(lower, upper);
    proof { lemma_exact_set(t.tree(), nodes@, v, a->Ok_0@); lemma_range_set(t.tree(), nodes@, lo, hi, b->Ok_0@); }
    (a, b)
}
/// the contract of Stree::stream_find_exact / stream_find_range that unit query assumes
pub proof fn p06_streamed<K: Key>(t: Tree<K>, s: Seq<NodeItem<K>>, d: Seq<u8>, p: int, v: int, w: int, a: Seq<SearchResultItem>, b: Seq<SearchResultItem>)
    requires tree_ok(t), holds_entries(t, s), stored(d, p, t),
        exact_result(dec_tree::<K>(d, p, t.num_leaf_nodes, t.branching_factor), v, a), range_result(dec_tree::<K>(d, p, t.num_leaf_nodes, t.branching_factor), v, w, b),
    ensures exact_set(ents(s), v, offs_of(a)), range_set(ents(s), v, w, offs_of(b)),
{
    lemma_stored(d, p, t); lemma_same_answers(t, dec_tree::<K>(d, p, t.num_leaf_nodes, t.branching_factor), v, w, a);
    lemma_exact_set(t, s, v, a);
    p05_streamed(t, s, d, p, v, w, b); lemma_range_set(t, s, v, w, b);
}
fn main() {}
} // verus!
