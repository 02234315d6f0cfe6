// unit geom: flattening and rebuilding of boundaries and semantic values (P10)
use vstd::prelude::*;
verus! {
global size_of usize == 8;
%%include trees.vx
%%include flat.vx
%%include fb.vx
%%include strs.vx
%%include typenames.vx
%%include gtypes.vx

pub type CjBoundaries = NestedArray<u32>;
// ---- std iterator chains, each replaced by one of these functions (the rewrites are listed in the report)
/// v[from..to].iter().map(|x| *x as usize).collect()
pub fn widen(v: &[u32], from: usize, to: usize) -> (r: Vec<usize>)
    requires from <= to <= v@.len(),
    ensures r@.len() == to - from, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == v@[from + i] as usize,
{
    let mut r: Vec<usize> = Vec::new(); let mut i = from;
    while i < to
        invariant from <= i <= to <= v@.len(), r@.len() == i - from, forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == v@[from + k] as usize,
        decreases to - i,
    { r.push(v[i] as usize); i += 1; }
    r
}
/// v.into_iter().map(|x| x as u32).collect()
pub fn narrow(v: Vec<usize>) -> (r: Vec<u32>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == v@[i] as u32,
{
    let mut r: Vec<u32> = Vec::new(); let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == v@[k] as u32,
        decreases v.len() - i,
    { r.push(v[i] as u32); i += 1; }
    r
}
/// v.into_iter().next().unwrap()
pub fn first<T>(v: Vec<T>) -> (r: T)
    requires v@.len() > 0,
    ensures r == v@[0],
{ let mut v = v; v.remove(0) }
/// s.to_vec()
#[verifier::external_body]
pub fn copied(s: &[u32]) -> (r: Vec<u32>) ensures r@ == s@ { s.to_vec() }

%%fn reader/geom_decoder.rs "-" decode
%%ret r
%%loops 10
%%sub `for &shell_count in solids.iter() {` => `let mut _i: usize = 0; while _i < solids.len() { let shell_count = solids[_i];`
%%sub `for &surface_count in shells.iter() {` => `let mut _i: usize = 0; while _i < shells.len() { let surface_count = shells[_i];`
%%sub `for &rings_count in surfaces.iter() {` => `let mut _i: usize = 0; while _i < surfaces.len() { let rings_count = surfaces[_i];`
%%sub `for &ring_size in strings.iter() {` => `let mut _i: usize = 0; while _i < strings.len() { let ring_size = strings[_i];`
%%sub `for _ in 0..shell_count` => `for _j in 0..shell_count`
%%sub `for _ in 0..surfaces_in_shell` => `for _k in 0..surfaces_in_shell`
%%sub `for _ in 0..surface_count` => `for _k in 0..surface_count`
%%sub `for _ in 0..rings_in_surface` => `for _l in 0..rings_in_surface`
%%sub `for _ in 0..rings_count` => `for _l in 0..rings_count`
%%sub `indices[index_cursor..index_cursor + ring_size] .iter() .map(|x| *x as usize) .collect::<Vec<_>>()` => `widen(indices, index_cursor, index_cursor + ring_size)`
%%sub `indices[index_cursor..index_cursor + ring_size as usize] .iter() .map(|x| *x as usize) .collect::<Vec<_>>()` => `widen(indices, index_cursor, index_cursor + ring_size as usize)`
%%sub `ring_indices .into_iter() .map(|x| x as u32) .collect::<Vec<_>>()` => `narrow(ring_indices)`
%%sub `ring_indices.into_iter().map(|x| x as u32).collect()` => `narrow(ring_indices)`
%%sub `solids_vec.into_iter().next().unwrap()` => `first(solids_vec)`
%%sub `shell_vec.into_iter().next().unwrap()` => `first(shell_vec)`
%%sub `surface_vec.into_iter().next().unwrap()` => `first(surface_vec)`
%%sub `ring_vec.into_iter().next().unwrap()` => `first(ring_vec)`
%%sub `CjBoundaries::Indices(indices.to_vec())` => `{ proof { assert forall|t: Tree, d: int| #[trigger] encodes(t, d, a) implies false by { lemma_encodes(t, d, a); if d < 5 { assert(a[d].len() == 1); } } } CjBoundaries::Indices(copied(indices)) }`
%%sub `!solids.is_empty()` => `solids.len() > 0`
%%sub `!shells.is_empty()` => `shells.len() > 0`
%%sub `!surfaces.is_empty()` => `surfaces.len() > 0`
%%sub `!strings.is_empty()` => `strings.len() > 0`
%%spec
    requires
        fits(arrs(solids@, shells@, surfaces@, strings@, indices@), top_a(arrs(solids@, shells@, surfaces@, strings@, indices@))),
    ensures
        forall|t: Tree, d: int| #[trigger] encodes(t, d, arrs(solids@, shells@, surfaces@, strings@, indices@)) ==> tv(r) == if d == 5 && solids@.len() == 1 { t->Nest_0[0] } else { t },
%%start
    let ghost a = arrs(solids@, shells@, surfaces@, strings@, indices@); let ghost z = cur(0, 0, 0, 0, 0); let ghost top = top_a(a);
    let ghost n_ = vstd::slice::spec_slice_len(indices);
    proof { assert(n_ == indices@.len()); }
%%before 0
    proof { assert(tvs(solids_vec@) =~= Seq::<Tree>::empty()); lemma_start(4, a, z, cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, 0)); }
%%loop 0
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, indices@), top == 4, top == top_a(a), fits(a, top), indices@.len() <= usize::MAX,
        z == cur(0, 0, 0, 0, 0), 0 <= _i <= solids@.len(), solids_vec@.len() == _i, part(tvs(solids_vec@), 4, a, z, cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, _i)),
    decreases solids@.len() - _i
%%loopstart 0
    let ghost o4 = solids_vec@; let ghost m4 = cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, _i);
    proof { lemma_top(tvs(o4), 4, a, z, m4);  }
%%loopend 0
    proof {
        let now = cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, (_i + 1) as usize); let b = solids_vec@.last();
        assert(solids_vec@ == o4.push(b)); lemma_tvs_push(o4, b);
        lemma_close(tvs(shell_vec@), tvs(o4), 4, a, z, m4, now);
    }
    _i += 1;
%%post 0
    proof { lemma_done(tvs(solids_vec@), 4, a, z, cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, _i)); if solids_vec@.len() == 1 { assert(tvs(solids_vec@)[0] == tv(solids_vec@[0])); } }
%%before 1
    proof { assert(tvs(shell_vec@) =~= Seq::<Tree>::empty()); lemma_start(3, a, m4, cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, (_i + 1) as usize)); }
%%loop 1
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, indices@), top == 4, top == top_a(a), fits(a, top), indices@.len() <= usize::MAX,
        aligned(a, m4, 4), 0 <= m4[4] < a[4].len(), a[4][m4[4]] == shell_count, shell_vec@.len() == _j, part(tvs(shell_vec@), 3, a, m4, cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, (_i + 1) as usize)),
%%loopstart 1
    let ghost o3 = shell_vec@; let ghost m3 = cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, (_i + 1) as usize);
    proof { lemma_room(tvs(o3), 4, top, a, m4, m3);  }
%%loopend 1
    proof {
        let now = cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, (_i + 1) as usize); let b = shell_vec@.last();
        assert(shell_vec@ == o3.push(b)); lemma_tvs_push(o3, b);
        lemma_close(tvs(surface_vec@), tvs(o3), 3, a, m4, m3, now);
    }
%%before 2
    proof { assert(tvs(surface_vec@) =~= Seq::<Tree>::empty()); lemma_start(2, a, m3, cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, (_i + 1) as usize)); }
%%loop 2
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, indices@), top == 4, top == top_a(a), fits(a, top), indices@.len() <= usize::MAX,
        aligned(a, m3, 3), 0 <= m3[3] < a[3].len(), a[3][m3[3]] == surfaces_in_shell, surface_vec@.len() == _k, part(tvs(surface_vec@), 2, a, m3, cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, (_i + 1) as usize)),
%%loopstart 2
    let ghost o2 = surface_vec@; let ghost m2 = cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, (_i + 1) as usize);
    proof { lemma_room(tvs(o2), 3, top, a, m3, m2);  }
%%loopend 2
    proof {
        let now = cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, (_i + 1) as usize); let b = surface_vec@.last();
        assert(surface_vec@ == o2.push(b)); lemma_tvs_push(o2, b);
        lemma_close(tvs(ring_vec@), tvs(o2), 2, a, m3, m2, now);
    }
%%before 3
    proof { assert(tvs(ring_vec@) =~= Seq::<Tree>::empty()); lemma_start(1, a, m2, cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, (_i + 1) as usize)); }
%%loop 3
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, indices@), top == 4, top == top_a(a), fits(a, top), indices@.len() <= usize::MAX,
        aligned(a, m2, 2), 0 <= m2[2] < a[2].len(), a[2][m2[2]] == rings_in_surface, ring_vec@.len() == _l, part(tvs(ring_vec@), 1, a, m2, cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, (_i + 1) as usize)),
%%loopstart 3
    let ghost o1 = ring_vec@; let ghost m1 = cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, (_i + 1) as usize);
    proof { lemma_room(tvs(o1), 2, top, a, m2, m1); lemma_room0(top, a, m1); }
%%loopend 3
    proof {
        let now = cur(index_cursor, ring_cursor, surface_cursor, shell_cursor, (_i + 1) as usize); let b = ring_vec@.last(); let w = codes(b->Indices_0@);
        assert(ring_vec@ == o1.push(b)); lemma_tvs_push(o1, b);
        assert(w =~= a[0].subrange(m1[0], now[0]));
        lemma_ring(w, tvs(o1), a, m2, m1, now);
    }
%%before 4
    proof { assert(tvs(shell_vec@) =~= Seq::<Tree>::empty()); lemma_start(3, a, z, cur(index_cursor, ring_cursor, surface_cursor, 0, 0)); }
%%loop 4
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, indices@), top == 3, top == top_a(a), fits(a, top), indices@.len() <= usize::MAX,
        z == cur(0, 0, 0, 0, 0), 0 <= _i <= shells@.len(), shell_vec@.len() == _i, part(tvs(shell_vec@), 3, a, z, cur(index_cursor, ring_cursor, surface_cursor, _i, 0)),
    decreases shells@.len() - _i
%%loopstart 4
    let ghost o3 = shell_vec@; let ghost m3 = cur(index_cursor, ring_cursor, surface_cursor, _i, 0);
    proof { lemma_top(tvs(o3), 3, a, z, m3);  }
%%loopend 4
    proof {
        let now = cur(index_cursor, ring_cursor, surface_cursor, (_i + 1) as usize, 0); let b = shell_vec@.last();
        assert(shell_vec@ == o3.push(b)); lemma_tvs_push(o3, b);
        lemma_close(tvs(surface_vec@), tvs(o3), 3, a, z, m3, now);
    }
    _i += 1;
%%post 4
    proof { lemma_done(tvs(shell_vec@), 3, a, z, cur(index_cursor, ring_cursor, surface_cursor, _i, 0)); if shell_vec@.len() == 1 { assert(tvs(shell_vec@)[0] == tv(shell_vec@[0])); } }
%%before 5
    proof { assert(tvs(surface_vec@) =~= Seq::<Tree>::empty()); lemma_start(2, a, m3, cur(index_cursor, ring_cursor, surface_cursor, (_i + 1) as usize, 0)); }
%%loop 5
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, indices@), top == 3, top == top_a(a), fits(a, top), indices@.len() <= usize::MAX,
        aligned(a, m3, 3), 0 <= m3[3] < a[3].len(), a[3][m3[3]] == surface_count, surface_vec@.len() == _k, part(tvs(surface_vec@), 2, a, m3, cur(index_cursor, ring_cursor, surface_cursor, (_i + 1) as usize, 0)),
%%loopstart 5
    let ghost o2 = surface_vec@; let ghost m2 = cur(index_cursor, ring_cursor, surface_cursor, (_i + 1) as usize, 0);
    proof { lemma_room(tvs(o2), 3, top, a, m3, m2);  }
%%loopend 5
    proof {
        let now = cur(index_cursor, ring_cursor, surface_cursor, (_i + 1) as usize, 0); let b = surface_vec@.last();
        assert(surface_vec@ == o2.push(b)); lemma_tvs_push(o2, b);
        lemma_close(tvs(ring_vec@), tvs(o2), 2, a, m3, m2, now);
    }
%%before 6
    proof { assert(tvs(ring_vec@) =~= Seq::<Tree>::empty()); lemma_start(1, a, m2, cur(index_cursor, ring_cursor, surface_cursor, (_i + 1) as usize, 0)); }
%%loop 6
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, indices@), top == 3, top == top_a(a), fits(a, top), indices@.len() <= usize::MAX,
        aligned(a, m2, 2), 0 <= m2[2] < a[2].len(), a[2][m2[2]] == rings_in_surface, ring_vec@.len() == _l, part(tvs(ring_vec@), 1, a, m2, cur(index_cursor, ring_cursor, surface_cursor, (_i + 1) as usize, 0)),
%%loopstart 6
    let ghost o1 = ring_vec@; let ghost m1 = cur(index_cursor, ring_cursor, surface_cursor, (_i + 1) as usize, 0);
    proof { lemma_room(tvs(o1), 2, top, a, m2, m1); lemma_room0(top, a, m1); }
%%loopend 6
    proof {
        let now = cur(index_cursor, ring_cursor, surface_cursor, (_i + 1) as usize, 0); let b = ring_vec@.last(); let w = codes(b->Indices_0@);
        assert(ring_vec@ == o1.push(b)); lemma_tvs_push(o1, b);
        assert(w =~= a[0].subrange(m1[0], now[0]));
        lemma_ring(w, tvs(o1), a, m2, m1, now);
    }
%%before 7
    proof { assert(tvs(surface_vec@) =~= Seq::<Tree>::empty()); lemma_start(2, a, z, cur(index_cursor, ring_cursor, 0, 0, 0)); }
%%loop 7
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, indices@), top == 2, top == top_a(a), fits(a, top), indices@.len() <= usize::MAX,
        z == cur(0, 0, 0, 0, 0), 0 <= _i <= surfaces@.len(), surface_vec@.len() == _i, part(tvs(surface_vec@), 2, a, z, cur(index_cursor, ring_cursor, _i, 0, 0)),
    decreases surfaces@.len() - _i
%%loopstart 7
    let ghost o2 = surface_vec@; let ghost m2 = cur(index_cursor, ring_cursor, _i, 0, 0);
    proof { lemma_top(tvs(o2), 2, a, z, m2);  }
%%loopend 7
    proof {
        let now = cur(index_cursor, ring_cursor, (_i + 1) as usize, 0, 0); let b = surface_vec@.last();
        assert(surface_vec@ == o2.push(b)); lemma_tvs_push(o2, b);
        lemma_close(tvs(ring_vec@), tvs(o2), 2, a, z, m2, now);
    }
    _i += 1;
%%post 7
    proof { lemma_done(tvs(surface_vec@), 2, a, z, cur(index_cursor, ring_cursor, _i, 0, 0)); if surface_vec@.len() == 1 { assert(tvs(surface_vec@)[0] == tv(surface_vec@[0])); } }
%%before 8
    proof { assert(tvs(ring_vec@) =~= Seq::<Tree>::empty()); lemma_start(1, a, m2, cur(index_cursor, ring_cursor, (_i + 1) as usize, 0, 0)); }
%%loop 8
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, indices@), top == 2, top == top_a(a), fits(a, top), indices@.len() <= usize::MAX,
        aligned(a, m2, 2), 0 <= m2[2] < a[2].len(), a[2][m2[2]] == rings_count, ring_vec@.len() == _l, part(tvs(ring_vec@), 1, a, m2, cur(index_cursor, ring_cursor, (_i + 1) as usize, 0, 0)),
%%loopstart 8
    let ghost o1 = ring_vec@; let ghost m1 = cur(index_cursor, ring_cursor, (_i + 1) as usize, 0, 0);
    proof { lemma_room(tvs(o1), 2, top, a, m2, m1); lemma_room0(top, a, m1); }
%%loopend 8
    proof {
        let now = cur(index_cursor, ring_cursor, (_i + 1) as usize, 0, 0); let b = ring_vec@.last(); let w = codes(b->Indices_0@);
        assert(ring_vec@ == o1.push(b)); lemma_tvs_push(o1, b);
        assert(w =~= a[0].subrange(m1[0], now[0]));
        lemma_ring(w, tvs(o1), a, m2, m1, now);
    }
%%before 9
    proof { assert(tvs(ring_vec@) =~= Seq::<Tree>::empty()); lemma_start(1, a, z, cur(index_cursor, 0, 0, 0, 0)); }
%%loop 9
    invariant
        a == arrs(solids@, shells@, surfaces@, strings@, indices@), top == 1, top == top_a(a), fits(a, top), indices@.len() <= usize::MAX,
        z == cur(0, 0, 0, 0, 0), 0 <= _i <= strings@.len(), ring_vec@.len() == _i, part(tvs(ring_vec@), 1, a, z, cur(index_cursor, _i, 0, 0, 0)),
    decreases strings@.len() - _i
%%loopstart 9
    let ghost o1 = ring_vec@; let ghost m1 = cur(index_cursor, _i, 0, 0, 0);
    proof { lemma_top(tvs(o1), 1, a, z, m1); lemma_room0(top, a, m1); }
%%loopend 9
    proof {
        let now = cur(index_cursor, (_i + 1) as usize, 0, 0, 0); let b = ring_vec@.last(); let w = codes(b->Indices_0@);
        assert(ring_vec@ == o1.push(b)); lemma_tvs_push(o1, b);
        assert(w =~= a[0].subrange(m1[0], now[0]));
        lemma_ring(w, tvs(o1), a, z, m1, now);
    }
    _i += 1;
%%post 9
    proof { lemma_done(tvs(ring_vec@), 1, a, z, cur(index_cursor, _i, 0, 0, 0)); if ring_vec@.len() == 1 { assert(tvs(ring_vec@)[0] == tv(ring_vec@[0])); } }
%%done

// ---- flattening
%%pubitem writer/geom_encoder.rs struct GMBoundaries
impl GMBoundaries {
    pub open spec fn lv(self) -> Arr { arrs(self.solids@, self.shells@, self.surfaces@, self.strings@, self.indices@) }
}
%%fn writer/geom_encoder.rs "-" encode_boundaries
%%ret r
%%loops 1
%%sub `wip_boundaries.indices.extend_from_slice(indices)` => `extend_u32(&mut wip_boundaries.indices, indices)`
%%sub `for sub in sub_boundaries {` => `let mut _i: usize = 0; while _i < sub_boundaries.len() { let sub = &sub_boundaries[_i];`
%%sub `max_depth = max_depth.max(d);` => `max_depth = maxu(max_depth, d);`
%%sub `let mut max_depth = 0;` => `let mut max_depth: usize = 0;`
%%spec
    requires
        depth_ok(tv(*boundaries), dep(tv(*boundaries))), dep(tv(*boundaries)) <= 5,
    ensures
        r == dep(tv(*boundaries)), adds(old(wip_boundaries).lv(), final(wip_boundaries).lv(), tv(*boundaries), r as int),
    decreases boundaries
%%start
    broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
    let ghost t = tv(*boundaries); let ghost a = wip_boundaries.lv();
%%after `wip_boundaries.strings.push(indices.len() as u32);`
    proof { let b = wip_boundaries.lv(); assert(codes(indices@) =~= indices@); lemma_adds_leaf(a, b, indices@); }
%%pre `let mut max_depth`
    let ghost k = tvs(sub_boundaries@); let ghost d1 = dep(t) - 1;
    proof { assert(k.len() == sub_boundaries@.len()); assert(0 < k.len()); lemma_dep_kids(k, 0); assert(d1 >= 1); lemma_adds_nil(a, d1); assert(k.take(0) =~= Seq::empty()); }
%%loop 0
    invariant
        0 <= _i <= sub_boundaries@.len(), t == Tree::Nest(k), k == tvs(sub_boundaries@), k.len() == sub_boundaries@.len(), k.len() > 0, depth_ok(t, dep(t)), d1 == dep(t) - 1, 1 <= d1 <= 4,
        boundaries is Nested, *sub_boundaries == boundaries->Nested_0,
        max_depth == if _i == 0 { 0 } else { d1 }, adds_all(a, wip_boundaries.lv(), k.take(_i as int), d1),
    decreases sub_boundaries@.len() - _i
%%loopstart 0
    let ghost b = wip_boundaries.lv();
    proof { lemma_dep_kids(k, _i as int); assert(tv(sub_boundaries@[_i as int]) == k[_i as int]); assert(decreases_to!(sub_boundaries@ => sub_boundaries@[_i as int])); }
%%loopend 0
    proof { lemma_adds_push(a, b, wip_boundaries.lv(), k.take(_i as int), k[_i as int], d1); assert(k.take(_i as int).push(k[_i as int]) =~= k.take(_i + 1)); }
    _i += 1;
%%post 0
    let ghost b = wip_boundaries.lv();
    proof { assert(k.take(_i as int) =~= k); }
%%pre `max_depth + 1`
    proof {
        assert forall|i: int| 0 <= i < k.len() implies depth_ok(#[trigger] k[i], d1) by { lemma_dep_kids(k, i); }
        lemma_adds_close(a, b, wip_boundaries.lv(), k, d1 + 1);
    }
%%done

// ---- semantic values
pub type SemanticsValues = NestedArray<Option<u32>>;
pub type CjSemanticsValues = NestedArray<Option<u32>>;
/// all numbers of a tree of depth d, in order
pub open spec fn flat(t: Tree, d: int) -> Seq<u32> { cnt(t, d, 0) }
%%fn writer/geom_encoder.rs "-" encode_semantics_values
%%ret r
%%loops 1
%%sub `flattened.extend_from_slice( &indices .iter() .map(|i|` => `let _m = map_vec(indices, |i: &Option<u32>| -> (o: u32) ensures o == (*i).code() {`
%%sub `) .collect::<Vec<_>>(), );` => `}); extend_u32(flattened, &_m);`
%%sub `for sub in nested {` => `let mut _i: usize = 0; while _i < nested.len() { let sub = &nested[_i];`
%%spec
    requires
        depth_ok(tv(*semantics_values), dep(tv(*semantics_values))),
    ensures
        final(flattened)@ == old(flattened)@ + flat(tv(*semantics_values), dep(tv(*semantics_values))),
    decreases semantics_values
%%start
    broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
    let ghost t = tv(*semantics_values); let ghost a = flattened@;
%%after `extend_u32(flattened, &_m);`
    proof { assert(_m@ =~= codes(indices@)); }
%%pre `let mut _i: usize = 0;`
    let ghost k = tvs(nested@); let ghost d1 = dep(t) - 1;
    proof { assert(k.len() == nested@.len()); assert(0 < k.len()); lemma_dep_kids(k, 0); assert(d1 >= 1); assert(k.take(0) =~= Seq::empty()); assert(a + Seq::<u32>::empty() =~= a); }
%%loop 0
    invariant
        0 <= _i <= nested@.len(), t == Tree::Nest(k), k == tvs(nested@), k.len() == nested@.len(), k.len() > 0, depth_ok(t, dep(t)), d1 == dep(t) - 1, 1 <= d1,
        semantics_values is Nested, *nested == semantics_values->Nested_0,
        flattened@ == a + cat(k.take(_i as int), d1, 0),
    decreases nested@.len() - _i
%%loopstart 0
    proof { lemma_dep_kids(k, _i as int); assert(tv(nested@[_i as int]) == k[_i as int]); assert(decreases_to!(nested@ => nested@[_i as int])); }
%%loopend 0
    proof {
        lemma_cat_push(k.take(_i as int), k[_i as int], d1, 0); assert(k.take(_i as int).push(k[_i as int]) =~= k.take(_i + 1));
        assert((a + cat(k.take(_i as int), d1, 0)) + cnt(k[_i as int], d1, 0) =~= a + (cat(k.take(_i as int), d1, 0) + cnt(k[_i as int], d1, 0)));
    }
    _i += 1;
%%post 0
    proof { assert(k.take(_i as int) =~= k); }
%%done

%%pubitem reader/geom_decoder.rs struct PartLists
/// v[from..to]
#[verifier::external_body]
pub fn sub_slice(v: &[u32], from: usize, to: usize) -> (r: &[u32]) requires from <= to <= v@.len() ensures r@ == v@.subrange(from as int, to as int) { &v[from..to] }
/// the values of the surfaces, the surfaces per shell and the shells per solid
pub open spec fn sarr(values: Seq<u32>, shells: Seq<u32>, solids: Seq<u32>) -> Arr { seq![values, shells, solids] }
pub open spec fn scur(v: usize, s: usize, o: usize) -> Cur { seq![v as int, s as int, o as int] }
impl PartLists<'_> {
    pub open spec fn sa(self, values: Seq<u32>) -> Arr { sarr(values, self.shells@, self.solids@) }
}
/// lemma_close for the shells of a solid, whose cursor moves on after them
pub proof fn lemma_close_at(k: Seq<Tree>, o: Seq<Tree>, a: Arr, z: Cur, m: Cur, e: Cur)
    requires part(k, 1, a, scur(m[0] as usize, m[1] as usize, 0), scur(e[0] as usize, (m[1] + k.len()) as usize, 0)), part(o, 2, a, z, m), 0 < k.len(), 0 <= m[2] < a[2].len(), e[2] == m[2] + 1, a[2][m[2]] as int == k.len(),
        e[1] == m[1] + k.len(), 0 <= m[0] <= usize::MAX, 0 <= m[1], m[1] + k.len() <= usize::MAX, 0 <= e[0] <= usize::MAX,
    ensures part(o.push(Tree::Nest(k)), 2, a, z, e),
{
    let c = scur(m[0] as usize, m[1] as usize, 0); let f = scur(e[0] as usize, (m[1] + k.len()) as usize, 0);
    assert(part(k, 1, a, m, e)) by { reveal(segs); assert forall|l: int| 0 <= l <= 1 implies 0 <= #[trigger] m[l] <= e[l] <= a[l].len() && a[l].subrange(m[l], e[l]) == cat(k, 1, l) by { assert(0 <= c[l] <= f[l]); } }
    lemma_close(k, o, 2, a, z, m, e);
}
%%fn reader/geom_decoder.rs "-" decode_semantics_
%%ret r
%%loops 4
%%sub `4 => &part_lists.solids` => `4 => part_lists.solids`
%%sub `3 => &part_lists.shells` => `3 => part_lists.shells`
%%sub `for &gn in *arr {` => `let mut _i: usize = 0; while _i < arr.len() { let gn = arr[_i];`
%%sub `for &gn in &arr[s..(s + length)] {` => `let mut _i: usize = s; while _i < s + length { let gn = arr[_i];`
%%sub `for &val in semantic_indices {` => `let mut _i: usize = 0; while _i < semantic_indices.len() { let val = semantic_indices[_i];`
%%sub `for &val in slice {` => `let mut _i: usize = 0; while _i < slice.len() { let val = slice[_i];`
%%sub `&semantic_indices[s..s + length]` => `sub_slice(semantic_indices, s, s + length)`
%%spec
    requires
        start is Some <==> n is Some,
        start is None ==> (d > 2 ==> d <= 4 && fits(old(part_lists).sa(semantic_indices@), d - 2) && forall|i: int| 0 <= i < 5 ==> old(part_lists).starts[i] == 0),
        start is Some ==> 2 <= d <= 3,
        start is Some && d == 2 ==> start->0 + n->0 <= semantic_indices@.len(),
        start is Some && d == 3 ==> start->0 + n->0 <= old(part_lists).shells@.len() && fits(old(part_lists).sa(semantic_indices@), 1)
            && aligned(old(part_lists).sa(semantic_indices@), scur(old(part_lists).starts[3], start->0, 0), 1),
    ensures
        final(part_lists).solids == old(part_lists).solids, final(part_lists).shells == old(part_lists).shells,
        start is None && d <= 2 ==> tv(r) == Tree::Leaf(semantic_indices@),
        start is None && d > 2 ==> r is Nested && forall|m: Seq<Tree>| #[trigger] listed_as(m, d - 2, old(part_lists).sa(semantic_indices@)) && smalls(m, d - 2) ==> tv(r) == Tree::Nest(m),
        start is Some && d == 2 ==> tv(r) == Tree::Leaf(semantic_indices@.subrange(start->0 as int, start->0 + n->0)) && final(part_lists).starts == old(part_lists).starts,
        start is Some && d == 3 ==> tv(r) is Nest && tv(r)->Nest_0.len() == n->0 && final(part_lists).starts[4] == old(part_lists).starts[4]
            && part(tv(r)->Nest_0, 1, old(part_lists).sa(semantic_indices@), scur(old(part_lists).starts[3], start->0, 0), scur(final(part_lists).starts[3], (start->0 + n->0) as usize, 0)),
    decreases d
%%start
    let ghost sa = part_lists.sa(semantic_indices@); let ghost z = scur(0, 0, 0); let ghost st0 = part_lists.starts;
    let ghost n_ = vstd::slice::spec_slice_len(semantic_indices);
    let ghost n2_ = vstd::slice::spec_slice_len(part_lists.shells);
    proof { assert(n_ == semantic_indices@.len()); assert(n2_ == part_lists.shells@.len()); }
%%before 0
    proof { assert(tvs(results@) =~= Seq::<Tree>::empty()); lemma_start(d - 2, sa, z, z); }
%%loop 0
    invariant
        sa == part_lists.sa(semantic_indices@), 3 <= d <= 4, z == scur(0, 0, 0), fits(sa, d - 2), semantic_indices@.len() <= usize::MAX, part_lists.shells@.len() <= usize::MAX,
        part_lists.solids == old(part_lists).solids, part_lists.shells == old(part_lists).shells, arr@ == sa[d - 2],
        0 <= _i <= arr@.len(), results@.len() == _i,
        d == 3 ==> part(tvs(results@), 1, sa, z, scur(part_lists.starts[3], _i, 0)),
        d == 4 ==> part(tvs(results@), 2, sa, z, scur(part_lists.starts[3], part_lists.starts[4], _i)),
    decreases arr@.len() - _i
%%loopstart 0
    let ghost o = results@; let ghost m = if d == 3 { scur(part_lists.starts[3], _i, 0) } else { scur(part_lists.starts[3], part_lists.starts[4], _i) };
    proof {
        lemma_top(tvs(o), d - 2, sa, z, m);
        if d == 3 { lemma_room0(1, sa, m); }
        else { lemma_sum_take(sa[2], m[2]); reveal(aligned); assert(sa[2].take(m[2]) == sa[2].take(m[2])); }
    }
%%loopend 0
    proof {
        let b = results@.last(); assert(results@ == o.push(b)); lemma_tvs_push(o, b);
        let e = if d == 3 { scur(part_lists.starts[3], (_i + 1) as usize, 0) } else { scur(part_lists.starts[3], part_lists.starts[4], (_i + 1) as usize) };
        if d == 3 { lemma_ring(tv(b)->Leaf_0, tvs(o), sa, z, m, e); }
        else { lemma_close_at(tv(b)->Nest_0, tvs(o), sa, z, m, e); }
    }
    _i += 1;
%%post 0
    proof { lemma_list_done(tvs(results@), d - 2, sa, z, if d == 3 { scur(part_lists.starts[3], _i, 0) } else { scur(part_lists.starts[3], part_lists.starts[4], _i) }); }
%%loop 1
    invariant
        0 <= _i <= semantic_indices@.len(), codes(leaf@) == semantic_indices@.take(_i as int), leaf@.len() == _i,
        part_lists.solids == old(part_lists).solids, part_lists.shells == old(part_lists).shells,
    decreases semantic_indices@.len() - _i
%%loopend 1
    _i += 1;
    proof { assert(codes(leaf@) =~= semantic_indices@.take(_i as int)); }
%%post 1
    proof { assert(semantic_indices@.take(_i as int) =~= semantic_indices@); }
%%loop 2
    invariant
        0 <= _i <= slice@.len(), codes(leaf@) == slice@.take(_i as int), leaf@.len() == _i,
        part_lists.solids == old(part_lists).solids, part_lists.shells == old(part_lists).shells, part_lists.starts == old(part_lists).starts,
    decreases slice@.len() - _i
%%loopend 2
    _i += 1;
    proof { assert(codes(leaf@) =~= slice@.take(_i as int)); }
%%post 2
    proof { assert(slice@.take(_i as int) =~= slice@); }
%%before 3
    let ghost c = scur(part_lists.starts[3], s, 0);
    proof { assert(tvs(results@) =~= Seq::<Tree>::empty()); reveal(aligned); assert(c[0] == sum(sa[1].take(c[1]))); if c[1] < sa[1].len() { lemma_room0(1, sa, c); } else { assert(sa[1].take(c[1]) =~= sa[1]); } lemma_start(1, sa, c, c); }
%%loop 3
    invariant
        sa == part_lists.sa(semantic_indices@), d == 3, c == scur(st0[3], s, 0), fits(sa, 1), semantic_indices@.len() <= usize::MAX, aligned(sa, c, 1), part_lists.shells@.len() <= usize::MAX,
        part_lists.solids == old(part_lists).solids, part_lists.shells == old(part_lists).shells, arr@ == sa[1], part_lists.starts[4] == st0[4],
        s <= _i <= s + length <= arr@.len(), results@.len() == _i - s,
        part(tvs(results@), 1, sa, c, scur(part_lists.starts[3], _i, 0)),
    decreases s + length - _i
%%loopstart 3
    let ghost o = results@; let ghost m = scur(part_lists.starts[3], _i, 0);
    proof { lemma_segs_aligned(tvs(o), 1, sa, c, m); lemma_room0(1, sa, m); }
%%loopend 3
    proof {
        let b = results@.last(); assert(results@ == o.push(b)); lemma_tvs_push(o, b);
        lemma_ring(tv(b)->Leaf_0, tvs(o), sa, c, m, scur(part_lists.starts[3], (_i + 1) as usize, 0));
    }
    _i += 1;
%%done

// ---- CityJSON values (cjseq)
pub struct SemanticsSurface { pub thetype: String, pub parent: Option<u32>, pub children: Option<Vec<u32>>, pub other: Option<Json> }
pub type CjSemanticsSurface = SemanticsSurface;
pub struct Semantics { pub values: SemanticsValues, pub surfaces: Vec<SemanticsSurface> }
pub type CjSemantics = Semantics;
#[verifier::external_body] pub struct Json { x: u8 }
#[verifier::external_body] pub struct CjMaterials { x: u8 }
#[verifier::external_body] pub struct CjTextures { x: u8 }
pub struct CjGeometry { pub thetype: CjGeometryType, pub lod: Option<String>, pub boundaries: CjBoundaries, pub semantics: Option<CjSemantics>, pub material: Option<CjMaterials>, pub texture: Option<CjTextures>, pub template: Option<usize>, pub transformation_matrix: Option<[f64; 16]> }
// ---- FlatBuffers: a table is what it was created with, and its accessors return it (assumed)
pub ghost struct SemTable { pub type_: SemanticSurfaceType, pub extension_type: Option<Seq<char>>, pub attributes: Option<Seq<u8>>, pub children: Option<Seq<u32>>, pub parent: Option<u32> }
pub ghost struct GeomTable { pub type_: GeometryType, pub lod: Option<Seq<char>>, pub solids: Option<Seq<u32>>, pub shells: Option<Seq<u32>>, pub surfaces: Option<Seq<u32>>, pub strings: Option<Seq<u32>>, pub boundaries: Option<Seq<u32>>, pub semantics: Option<Seq<u32>>, pub semantics_objects: Option<Seq<SemTable>> }
#[verifier::external_body] pub struct FbMaterials { x: u8 }
#[verifier::external_body] pub struct FbTextures { x: u8 }
#[verifier::external_body] pub struct Geometry { x: u8 }
#[verifier::external_body] pub struct SemanticObject { x: u8 }
impl WIPOffset<SemanticObject> { pub uninterp spec fn view(&self) -> SemTable; }
impl WIPOffset<Geometry> { pub uninterp spec fn view(&self) -> GeomTable; }
pub open spec fn wo(o: Option<WIPOffset<Vector<WIPOffset<SemanticObject>>>>) -> Option<Seq<SemTable>> { match o { Some(v) => Some(tables(v@)), None => None } }
pub open spec fn tables(v: Seq<WIPOffset<SemanticObject>>) -> Seq<SemTable> { v.map_values(|o: WIPOffset<SemanticObject>| o@) }
pub struct SemanticObjectArgs { pub type_: SemanticSurfaceType, pub extension_type: Option<WIPOffset<FbStr>>, pub attributes: Option<WIPOffset<Vector<u8>>>, pub children: Option<WIPOffset<Vector<u32>>>, pub parent: Option<u32> }
pub struct GeometryArgs { pub type_: GeometryType, pub lod: Option<WIPOffset<FbStr>>, pub solids: Option<WIPOffset<Vector<u32>>>, pub shells: Option<WIPOffset<Vector<u32>>>, pub surfaces: Option<WIPOffset<Vector<u32>>>, pub strings: Option<WIPOffset<Vector<u32>>>, pub boundaries: Option<WIPOffset<Vector<u32>>>, pub semantics: Option<WIPOffset<Vector<u32>>>, pub semantics_objects: Option<WIPOffset<Vector<WIPOffset<SemanticObject>>>>, pub material: Option<WIPOffset<FbMaterials>>, pub texture: Option<WIPOffset<FbTextures>> }
impl SemanticObject {
    pub uninterp spec fn view(&self) -> SemTable;
    #[verifier::external_body] pub fn create(fbb: &mut FlatBufferBuilder, a: &SemanticObjectArgs) -> (r: WIPOffset<SemanticObject>)
        ensures r@ == (SemTable { type_: a.type_, extension_type: ws(a.extension_type), attributes: wv(a.attributes), children: wv(a.children), parent: a.parent }) { unimplemented!() }
    #[verifier::external_body] pub fn type_(&self) -> (r: SemanticSurfaceType) ensures r == self@.type_ { unimplemented!() }
    #[verifier::external_body] pub fn extension_type(&self) -> (r: Option<&str>) ensures ostr(r) == self@.extension_type { unimplemented!() }
    #[verifier::external_body] pub fn attributes(&self) -> (r: Option<Vector<u8>>) ensures ov(r) == self@.attributes { unimplemented!() }
    #[verifier::external_body] pub fn children(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.children { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<u32>) ensures r == self@.parent { unimplemented!() }
}
impl Geometry {
    pub uninterp spec fn view(&self) -> GeomTable;
    #[verifier::external_body] pub fn create(fbb: &mut FlatBufferBuilder, a: &GeometryArgs) -> (r: WIPOffset<Geometry>)
        ensures r@ == (GeomTable { type_: a.type_, lod: ws(a.lod), solids: wv(a.solids), shells: wv(a.shells), surfaces: wv(a.surfaces), strings: wv(a.strings), boundaries: wv(a.boundaries), semantics: wv(a.semantics), semantics_objects: wo(a.semantics_objects) }) { unimplemented!() }
    #[verifier::external_body] pub fn type_(&self) -> (r: GeometryType) ensures r == self@.type_ { unimplemented!() }
    #[verifier::external_body] pub fn lod(&self) -> (r: Option<FbStr>) ensures fs(r) == self@.lod { unimplemented!() }
    #[verifier::external_body] pub fn solids(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.solids { unimplemented!() }
    #[verifier::external_body] pub fn shells(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.shells { unimplemented!() }
    #[verifier::external_body] pub fn surfaces(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.surfaces { unimplemented!() }
    #[verifier::external_body] pub fn strings(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.strings { unimplemented!() }
    #[verifier::external_body] pub fn boundaries(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.boundaries { unimplemented!() }
    #[verifier::external_body] pub fn semantics(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.semantics { unimplemented!() }
    #[verifier::external_body] pub fn semantics_objects(&self) -> (r: Option<Vector<SemanticObject>>) ensures (r is Some) == (self@.semantics_objects is Some), r is Some ==> objs(r->0@) == self@.semantics_objects->0 { unimplemented!() }
    #[verifier::external_body] pub fn material(&self) -> (r: Option<FbMaterials>) { unimplemented!() }
    #[verifier::external_body] pub fn texture(&self) -> (r: Option<FbTextures>) { unimplemented!() }
}
pub open spec fn objs(v: Seq<SemanticObject>) -> Seq<SemTable> { v.map_values(|o: SemanticObject| o@) }
#[verifier::external_body] pub fn materials_of(v: FbMaterials) -> Option<CjMaterials> { unimplemented!() }
#[verifier::external_body] pub fn textures_of(v: FbTextures) -> Option<CjTextures> { unimplemented!() }
#[verifier::external_body] pub fn encode_texture(v: &CjTextures) -> Vec<TextureMapping> { unimplemented!() }
#[verifier::external_body] pub fn encode_material(v: &CjMaterials) -> Vec<GMMaterialMapping> { unimplemented!() }
#[verifier::external_body] pub fn texture_mappings_of(m: Option<Vec<TextureMapping>>) -> Option<WIPOffset<FbTextures>> { unimplemented!() }
#[verifier::external_body] pub fn material_mappings_of(m: Option<Vec<GMMaterialMapping>>) -> Option<WIPOffset<FbMaterials>> { unimplemented!() }
#[verifier::external_body] pub struct TextureMapping { x: u8 }
#[verifier::external_body] pub struct GMMaterialMapping { x: u8 }
pub type MaterialMapping = GMMaterialMapping;
/// surfaces.to_vec()
#[verifier::external_body] pub fn same_surfaces(v: &Vec<SemanticsSurface>) -> (r: Vec<SemanticsSurface>) ensures r@ == v@ { unimplemented!() }
// ---- attributes of semantic surfaces (the subject of P09): an encoding and its decoding, uninterpreted here
#[verifier::external_body] pub struct AttributeSchema { x: u8 }
#[verifier::external_body] pub struct Schema { x: u8 }
pub uninterp spec fn enc(v: Json, s: AttributeSchema) -> Seq<u8>;
pub uninterp spec fn dec(s: Schema, b: Seq<u8>) -> Json;
#[verifier::external_body] pub fn encode_attributes_with_schema(v: &Json, s: &AttributeSchema) -> (r: Vec<u8>) ensures r@ == enc(*v, *s) { unimplemented!() }
#[verifier::external_body] pub fn decode_attributes(s: &Schema, b: Vector<u8>) -> (r: Json) ensures r == dec(*s, b@) { unimplemented!() }
/// the table that a semantic surface is stored as
pub open spec fn sem_table(s: SemanticsSurface, schema: Option<AttributeSchema>, t: SemTable) -> bool {
    &&& ss_code(s.thetype@, t.type_, t.extension_type) && t.parent == s.parent && t.children == vs(s.children)
    &&& t.attributes == match (s.other, schema) { (Some(o), Some(c)) => Some(enc(o, c)), _ => None }
}
/// the semantic surface that a table is read as
pub open spec fn sem_value(t: SemTable, schema: Option<Schema>, s: SemanticsSurface) -> bool {
    &&& forall|n: Seq<char>| (plus(n) || ss_vocab(n)) && #[trigger] ss_code(n, t.type_, t.extension_type) ==> s.thetype@ == n
    &&& s.parent == t.parent && vs(s.children) == t.children
    &&& s.other == match (t.attributes, schema) { (Some(b), Some(c)) => Some(dec(c, b)), _ => None }
}
%%fn reader/geom_decoder.rs "-" decode_semantics_surfaces
%%ret r
%%sig `semantics_objects: &[SemanticObject]` => `semantics_objects: &Vec<SemanticObject>`
%%sig `semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>` => `semantic_attr_schema: Option<Schema>`
%%sub `let surfaces = semantics_objects.iter().map(|s| {` => `let mut surfaces: Vec<SemanticsSurface> = Vec::new(); let mut _i: usize = 0; while _i < semantics_objects.len() { let s = &semantics_objects[_i]; let _o = {`
%%sub `}); surfaces.collect()` => `}; surfaces.push(_o); _i += 1; } surfaces`
%%sub `s.extension_type().unwrap_or("GenericSurface").to_string()` => `(match s.extension_type() { Some(x) => x, None => "GenericSurface" }).to_string()`
%%sub `s.children().map(|c| c.iter().collect::<Vec<_>>())` => `match s.children() { Some(c) => Some(all(c)), None => None }`
%%sub `s.attributes().map(|a| decode_attributes(schema, a))` => `match s.attributes() { Some(a) => Some(decode_attributes(schema, a)), None => None }`
%%spec
    ensures
        r@.len() == semantics_objects@.len(), forall|i: int| 0 <= i < r@.len() ==> sem_value(objs(semantics_objects@)[i], semantic_attr_schema, #[trigger] r@[i]),
%%loop 0
    invariant
        0 <= _i <= semantics_objects@.len(), surfaces@.len() == _i, forall|i: int| 0 <= i < surfaces@.len() ==> sem_value(objs(semantics_objects@)[i], semantic_attr_schema, #[trigger] surfaces@[i]),
    decreases semantics_objects@.len() - _i
%%done

%%pubitem writer/geom_encoder.rs struct GMSemantics
%%fn writer/geom_encoder.rs "-" encode_semantics
%%ret r
%%sub `semantics.surfaces.to_vec()` => `same_surfaces(&semantics.surfaces)`
%%sub `let mut values = Vec::new();` => `let mut values: Vec<u32> = Vec::new();`
%%spec
    requires
        depth_ok(tv(semantics.values), dep(tv(semantics.values))),
    ensures
        r.values@ == flat(tv(semantics.values), dep(tv(semantics.values))), r.surfaces@ == semantics.surfaces@,
%%pre `GMSemantics {`
    proof { let f = flat(tv(semantics.values), dep(tv(semantics.values))); assert(Seq::<u32>::empty() + f =~= f); }
%%done

%%fn reader/geom_decoder.rs "-" decode_semantics
%%ret r
%%loops 1
%%sig `semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>` => `semantic_attr_schema: Option<Schema>`
%%sub `for &val in &semantics_values {` => `let mut _i: usize = 0; while _i < semantics_values.len() { let val = semantics_values[_i];`
%%spec
    requires
        geometry_type == GeometryType::Solid ==> fits(sarr(semantics_values@, shells@, solids@), 1),
        is_multi(geometry_type) ==> fits(sarr(semantics_values@, shells@, solids@), 2),
    ensures
        r.surfaces@.len() == semantics_objects@.len(), forall|i: int| 0 <= i < r.surfaces@.len() ==> sem_value(objs(semantics_objects@)[i], semantic_attr_schema, #[trigger] r.surfaces@[i]),
        geometry_type == GeometryType::Solid ==> forall|m: Seq<Tree>| #[trigger] listed_as(m, 1, sarr(semantics_values@, shells@, solids@)) && smalls(m, 1) ==> tv(r.values) == Tree::Nest(m),
        is_multi(geometry_type) ==> forall|m: Seq<Tree>| #[trigger] listed_as(m, 2, sarr(semantics_values@, shells@, solids@)) && smalls(m, 2) ==> tv(r.values) == Tree::Nest(m),
        geometry_type != GeometryType::Solid && !is_multi(geometry_type) ==> tv(r.values) == Tree::Leaf(semantics_values@),
%%loop 0
    invariant
        0 <= _i <= semantics_values@.len(), codes(leaf@) == semantics_values@.take(_i as int), leaf@.len() == _i,
    decreases semantics_values@.len() - _i
%%loopend 0
    _i += 1;
    proof { assert(codes(leaf@) =~= semantics_values@.take(_i as int)); }
%%post 0
    proof { assert(semantics_values@.take(_i as int) =~= semantics_values@); }
%%pre `let result = decode_semantics_`
    proof { assert(part_lists.sa(semantics_values@) == sarr(semantics_values@, shells@, solids@)); }
%%done

pub open spec fn or_none(o: Option<Seq<u32>>) -> Seq<u32> { match o { Some(v) => v, None => Seq::empty() } }
impl GeomTable {
    pub open spec fn lv(self) -> Arr { arrs(or_none(self.solids), or_none(self.shells), or_none(self.surfaces), or_none(self.strings), or_none(self.boundaries)) }
    pub open spec fn sv(self) -> Arr { sarr(or_none(self.semantics), or_none(self.shells), or_none(self.solids)) }
    pub open spec fn has_semantics(self) -> bool { self.semantics is Some && self.semantics_objects is Some }
}
#[derive(Debug)] pub enum Error { Other }
%%fn reader/deserializer.rs "-" decode_geometry
%%ret r
%%sig `semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>` => `semantic_attr_schema: Option<Schema>`
%%sub `g .solids() .map(|v| v.iter().collect::<Vec<_>>()) .unwrap_or_default()` => `ints(g.solids())`
%%sub `g .shells() .map(|v| v.iter().collect::<Vec<_>>()) .unwrap_or_default()` => `ints(g.shells())`
%%sub `g .surfaces() .map(|v| v.iter().collect::<Vec<_>>()) .unwrap_or_default()` => `ints(g.surfaces())`
%%sub `g .strings() .map(|v| v.iter().collect::<Vec<_>>()) .unwrap_or_default()` => `ints(g.strings())`
%%sub `g .boundaries() .map(|v| v.iter().collect::<Vec<_>>()) .unwrap_or_default()` => `ints(g.boundaries())`
%%sub `semantics_objects.iter().collect::<Vec<_>>()` => `all(semantics_objects)`
%%sub `semantics.iter().collect::<Vec<_>>()` => `all(semantics)`
%%sub `decode_materials(&material_mappings.iter().collect::<Vec<_>>())` => `materials_of(material_mappings)`
%%sub `decode_textures(&texture_mappings.iter().collect::<Vec<_>>())` => `textures_of(texture_mappings)`
%%dropstmt `for values in material`
%%dropstmt `if let (true, Some(texture_mappings), Some(texture)) =`
%%sub `g.lod().map(|v| v.to_string())` => `opt_string(g.lod())`
%%spec
    requires
        fits(g@.lv(), top_a(g@.lv())),
        g@.has_semantics() && g@.type_ == GeometryType::Solid ==> fits(g@.sv(), 1),
        g@.has_semantics() && is_multi(g@.type_) ==> fits(g@.sv(), 2),
    ensures
        r is Ok,
        forall|t: CjGeometryType| g@.type_ == #[trigger] type_of(t) && !(t is GeometryInstance) ==> r->Ok_0.thetype == t,
        os(r->Ok_0.lod) == g@.lod,
        forall|t: Tree, d: int| #[trigger] encodes(t, d, g@.lv()) && d == depth_of(g@.type_) ==> tv(r->Ok_0.boundaries) == t,
        (r->Ok_0.semantics is Some) == g@.has_semantics(),
        g@.has_semantics() ==> r->Ok_0.semantics->0.surfaces@.len() == g@.semantics_objects->0.len() && forall|i: int| 0 <= i < g@.semantics_objects->0.len() ==> sem_value(g@.semantics_objects->0[i], semantic_attr_schema, #[trigger] r->Ok_0.semantics->0.surfaces@[i]),
        g@.has_semantics() && g@.type_ == GeometryType::Solid ==> forall|m: Seq<Tree>| #[trigger] listed_as(m, 1, g@.sv()) && smalls(m, 1) ==> tv(r->Ok_0.semantics->0.values) == Tree::Nest(m),
        g@.has_semantics() && is_multi(g@.type_) ==> forall|m: Seq<Tree>| #[trigger] listed_as(m, 2, g@.sv()) && smalls(m, 2) ==> tv(r->Ok_0.semantics->0.values) == Tree::Nest(m),
        g@.has_semantics() && g@.type_ != GeometryType::Solid && !is_multi(g@.type_) ==> tv(r->Ok_0.semantics->0.values) == Tree::Leaf(g@.semantics->0),
        r->Ok_0.template is None, r->Ok_0.transformation_matrix is None,
%%after `let boundaries = decode(&solids, &shells, &surfaces, &strings, &indices);`
    let ghost b0 = boundaries; let ghost a = g@.lv();
    proof { assert(arrs(solids@, shells@, surfaces@, strings@, indices@) == a); }
%%pre `let semantics: Option<CjSemantics> =`
    proof {
        assert forall|t: Tree, d: int| #[trigger] encodes(t, d, a) && d == depth_of(g@.type_) implies tv(boundaries) == t by {
            lemma_encodes(t, d, a);
            if is_multi(g@.type_) && solids@.len() == 1 {
                let k = t->Nest_0; assert(k.len() == 1); assert(tv(b0) == k[0]);
                assert(boundaries->Nested_0@.len() == 1 && boundaries->Nested_0@[0] == b0);
                assert(tvs(boundaries->Nested_0@) =~= k);
            }
        }
    }
%%done

// ---- the writer's side
%%pubitem writer/geom_encoder.rs struct EncodedGeometry
%%fn writer/geom_encoder.rs "-" encode
%%ret r
%%sig `textures: Option<&HashMap<String, CjTextureReference>>` => `textures: Option<&CjTextures>`
%%sig `materials: Option<&HashMap<String, CjMaterialReference>>` => `materials: Option<&CjMaterials>`
%%sub `semantics.map(encode_semantics)` => `match semantics { Some(x) => Some(encode_semantics(x)), None => None }`
%%sub `textures.map(encode_texture)` => `match textures { Some(x) => Some(encode_texture(x)), None => None }`
%%sub `materials.map(encode_material)` => `match materials { Some(x) => Some(encode_material(x)), None => None }`
%%spec
    requires
        depth_ok(tv(*cj_boundaries), dep(tv(*cj_boundaries))), dep(tv(*cj_boundaries)) <= 5,
        semantics is Some ==> depth_ok(tv(semantics->0.values), dep(tv(semantics->0.values))),
    ensures
        flattened(tv(*cj_boundaries), r.boundaries.lv()),
        (r.semantics is Some) == (semantics is Some),
        semantics is Some ==> r.semantics->0.values@ == flat(tv(semantics->0.values), dep(tv(semantics->0.values))) && r.semantics->0.surfaces@ == semantics->0.surfaces@,
%%start
    let ghost t = tv(*cj_boundaries);
    proof { assert forall|a: Arr, b: Arr| #[trigger] adds(a, b, t, dep(t)) && a == arrs(Seq::empty(), Seq::empty(), Seq::empty(), Seq::empty(), Seq::empty()) && b.len() == 5 implies flattened(t, b) by { assert forall|l: int| 0 <= l <= 4 implies #[trigger] b[l] == cnt(t, dep(t), l) by { assert(b[l] == a[l] + cnt(t, dep(t), l)); assert(a[l] == Seq::<u32>::empty()); assert(Seq::<u32>::empty() + cnt(t, dep(t), l) =~= cnt(t, dep(t), l)); } } }
%%done
%%fn writer/serializer.rs "-" to_geometry
%%ret r
%%sig `to_geometry<'a>` => `to_geometry`
%%sig `&mut flatbuffers::FlatBufferBuilder<'a>` => `&mut FlatBufferBuilder`
%%sig `flatbuffers::WIPOffset<Geometry<'a>>` => `WIPOffset<Geometry>`
%%sub `geometry.lod.as_ref().map(|lod| fbb.create_string(lod))` => `match geometry.lod.as_ref() { Some(lod) => Some(fbb.create_string(lod)), None => None }`
%%sub `encoded .semantics .map(|GMSemantics { surfaces, values }| (surfaces, values))` => `match encoded.semantics { Some(GMSemantics { surfaces, values }) => Some((surfaces, values)), None => None }`
%%sub `semantics.map_or((None, None), |(surface, values)| {` => `match semantics { None => (None, None), Some((surface, values)) => {`
%%sub `let semantics_objects = surface .iter() .map(|s| {` => `let mut semantics_objects: Vec<WIPOffset<SemanticObject>> = Vec::new(); let mut _i: usize = 0; while _i < surface.len() { let s = &surface[_i]; let _o = {`
%%sub `parent: s.parent, }, ) }) .collect::<Vec<_>>();` => `parent: s.parent, }, ) }; semantics_objects.push(_o); _i += 1; }`
%%sub `Some(fbb.create_vector(&values)), ) });` => `Some(fbb.create_vector(&values)), ) } };`
%%sub `s.children.as_ref().map(|c| fbb.create_vector(c))` => `match s.children.as_ref() { Some(c) => Some(fbb.create_vector(c)), None => None }`
%%sub `extension_type.map(|s| fbb.create_string(&s))` => `match extension_type { Some(s) => Some(fbb.create_string(&s)), None => None }`
%%sub `semantic_attr_schema.as_ref().map(|schema| { fbb.create_vector(&encode_attributes_with_schema(other, schema)) })` => `match semantic_attr_schema { Some(schema) => { Some(fbb.create_vector(&encode_attributes_with_schema(other, schema))) } None => None }`
%%replstmt `let material_mappings` => `let material_mappings = material_mappings_of(encoded.materials);`
%%replstmt `let texture_mappings` => `let texture_mappings = texture_mappings_of(encoded.textures);`
%%spec
    requires
        depth_ok(tv(geometry.boundaries), dep(tv(geometry.boundaries))), dep(tv(geometry.boundaries)) <= 5,
        geometry.semantics is Some ==> depth_ok(tv(geometry.semantics->0.values), dep(tv(geometry.semantics->0.values))),
    ensures
        geom_table(*geometry, semantic_attr_schema, r@),
%%loop 0
    invariant
        0 <= _i <= surface@.len(), geometry.semantics is Some, surface@ == geometry.semantics->0.surfaces@, semantics_objects@.len() == _i,
        forall|i: int| 0 <= i < _i ==> sem_table(surface@[i], deref_opt(semantic_attr_schema), #[trigger] semantics_objects@[i]@),
    decreases surface@.len() - _i
%%done
pub open spec fn deref_opt(o: Option<&AttributeSchema>) -> Option<AttributeSchema> { match o { Some(x) => Some(*x), None => None } }
/// the table that a geometry is stored as
pub open spec fn geom_table(g: CjGeometry, schema: Option<&AttributeSchema>, t: GeomTable) -> bool {
    &&& !(g.thetype is GeometryInstance) ==> t.type_ == type_of(g.thetype)
    &&& t.lod == os(g.lod)
    &&& t.solids is Some && t.shells is Some && t.surfaces is Some && t.strings is Some && t.boundaries is Some && flattened(tv(g.boundaries), t.lv())
    &&& (t.semantics is Some) == (g.semantics is Some) && (t.semantics_objects is Some) == (g.semantics is Some)
    &&& g.semantics is Some ==> t.semantics->0 == flat(tv(g.semantics->0.values), dep(tv(g.semantics->0.values))) && t.semantics_objects->0.len() == g.semantics->0.surfaces@.len()
        && forall|i: int| 0 <= i < g.semantics->0.surfaces@.len() ==> sem_table(#[trigger] g.semantics->0.surfaces@[i], deref_opt(schema), t.semantics_objects->0[i])
}

// ---- the property: a geometry written and read back is the same geometry
/// semantic values with one value per surface of the boundaries, nested like them
pub open spec fn like(s: Tree, b: Tree, d: int) -> bool decreases d
{
    match (s, b) {
        (Tree::Leaf(v), Tree::Nest(k)) => d == 1 && v.len() == k.len(),
        (Tree::Nest(m), Tree::Nest(k)) => d >= 2 && m.len() == k.len() && forall|i: int| 0 <= i < m.len() ==> like(#[trigger] m[i], k[i], d - 1),
        _ => false,
    }
}
pub proof fn lemma_like(s: Tree, b: Tree, d: int)
    requires like(s, b, d), depth_ok(b, d + 2), small(b, d + 2), d >= 1,
    ensures depth_ok(s, d), small(s, d), forall|l: int| 1 <= l <= d ==> #[trigger] cnt(s, d, l) == cnt(b, d + 2, l + 2),
    decreases d, 0int,
{
    let k = b->Nest_0;
    if d >= 2 {
        let m = s->Nest_0;
        assert forall|i: int| 0 <= i < m.len() implies depth_ok(#[trigger] m[i], d - 1) && small(m[i], d - 1) by { assert(like(m[i], k[i], d - 1)); assert(depth_ok(k[i], d + 1) && small(k[i], d + 1)); lemma_like(m[i], k[i], d - 1); }
        lemma_likes(m, k, d - 1);
    }
    assert forall|l: int| 1 <= l <= d implies #[trigger] cnt(s, d, l) == cnt(b, d + 2, l + 2) by { if l < d { assert(cat(s->Nest_0, d - 1, l) == cat(k, d + 1, l + 2)); } }
}
pub proof fn lemma_likes(m: Seq<Tree>, k: Seq<Tree>, d: int)
    requires m.len() == k.len(), d >= 1, forall|i: int| 0 <= i < m.len() ==> like(#[trigger] m[i], k[i], d), forall|i: int| 0 <= i < k.len() ==> depth_ok(#[trigger] k[i], d + 2) && small(k[i], d + 2),
    ensures forall|l: int| 1 <= l <= d ==> #[trigger] cat(m, d, l) == cat(k, d + 2, l + 2),
    decreases d, m.len() + 1,
{
    if m.len() > 0 {
        let a = m.drop_last(); let b = k.drop_last();
        assert forall|i: int| 0 <= i < a.len() implies like(#[trigger] a[i], b[i], d) by { assert(like(m[i], k[i], d)); }
        assert forall|i: int| 0 <= i < b.len() implies depth_ok(#[trigger] b[i], d + 2) && small(b[i], d + 2) by { assert(depth_ok(k[i], d + 2)); }
        lemma_likes(a, b, d);
        assert(like(m[m.len() - 1], k[m.len() - 1], d)); assert(depth_ok(k[m.len() - 1], d + 2));
        lemma_like(m.last(), k.last(), d);
        assert forall|l: int| 1 <= l <= d implies #[trigger] cat(m, d, l) == cat(k, d + 2, l + 2) by { assert(cat(a, d, l) == cat(b, d + 2, l + 2)); assert(cnt(m.last(), d, l) == cnt(k.last(), d + 2, l + 2)); }
    }
}
/// the boundaries are nested as the type prescribes, the counts fit, the semantic values go with the surfaces
pub open spec fn geometry_ok(g: CjGeometry) -> bool {
    let b = tv(g.boundaries); let d = depth_of(type_of(g.thetype));
    &&& !(g.thetype is GeometryInstance) && depth_ok(b, d) && small(b, d)
    &&& g.semantics is Some ==> if d <= 3 { tv(g.semantics->0.values) is Leaf } else { like(tv(g.semantics->0.values), b, d - 2) }
}
pub open spec fn same_surface(s: SemanticsSurface, r: SemanticsSurface, schema: Option<AttributeSchema>, cols: Option<Schema>) -> bool {
    &&& plus(s.thetype@) || ss_vocab(s.thetype@) ==> r.thetype@ == s.thetype@
    &&& r.parent == s.parent && vs(r.children) == vs(s.children)
    &&& r.other == match (s.other, schema, cols) { (Some(o), Some(c), Some(k)) => Some(dec(k, enc(o, c))), _ => None }
}
pub open spec fn same_geometry(g: CjGeometry, r: CjGeometry, schema: Option<AttributeSchema>, cols: Option<Schema>) -> bool {
    &&& r.thetype == g.thetype && os(r.lod) == os(g.lod) && tv(r.boundaries) == tv(g.boundaries)
    &&& (r.semantics is Some) == (g.semantics is Some)
    &&& g.semantics is Some ==> tv(r.semantics->0.values) == tv(g.semantics->0.values) && r.semantics->0.surfaces@.len() == g.semantics->0.surfaces@.len()
        && forall|i: int| 0 <= i < g.semantics->0.surfaces@.len() ==> same_surface(#[trigger] g.semantics->0.surfaces@[i], r.semantics->0.surfaces@[i], schema, cols)
}
/// equal as values of the flattening means equal
pub proof fn lemma_tv_boundaries(a: CjBoundaries, b: CjBoundaries)
    requires tv(a) == tv(b),
    ensures a is Indices == b is Indices, a is Indices ==> a->Indices_0@ == b->Indices_0@, a is Nested ==> a->Nested_0@.len() == b->Nested_0@.len() && forall|i: int| 0 <= i < a->Nested_0@.len() ==> tv(#[trigger] a->Nested_0@[i]) == tv(b->Nested_0@[i]),
{
    if a is Indices { let x = a->Indices_0@; let y = b->Indices_0@; assert(codes(x) == codes(y)); assert(x =~= y) by { assert(codes(x).len() == x.len() && codes(y).len() == y.len()); assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(codes(x)[i] == x[i] && codes(y)[i] == y[i]); } } }
    else { let x = a->Nested_0@; let y = b->Nested_0@; assert(tvs(x) == tvs(y)); assert(tvs(x).len() == x.len() && tvs(y).len() == y.len()); assert forall|i: int| 0 <= i < x.len() implies tv(#[trigger] x[i]) == tv(y[i]) by { assert(tvs(x)[i] == tv(x[i]) && tvs(y)[i] == tv(y[i])); } }
}
/// FlatBuffers gives back the table that was created
#[verifier::external_body] pub fn stored(o: WIPOffset<Geometry>) -> (g: Geometry) ensures g@ == o@ { unimplemented!() }
pub proof fn lemma_semantics(g: CjGeometry, t: GeomTable, schema: Option<&AttributeSchema>)
    requires geometry_ok(g), geom_table(g, schema, t), g.semantics is Some, depth_of(t.type_) >= 4, depth_of(t.type_) == dep(tv(g.boundaries)),
    ensures ({ let d = depth_of(t.type_); let s = tv(g.semantics->0.values); fits(t.sv(), d - 3) && s is Nest && listed_as(s->Nest_0, d - 3, t.sv()) && smalls(s->Nest_0, d - 3) && depth_ok(s, dep(s)) }),
{
    let d = depth_of(t.type_); let b = tv(g.boundaries); let s = tv(g.semantics->0.values); let ds = d - 2; let k = s->Nest_0; let a = t.sv();
    lemma_like(s, b, ds); lemma_dep(s, ds);
    assert(t.lv()[3] == cnt(b, d, 3) && t.lv()[4] == cnt(b, d, 4));
    assert(cnt(s, ds, 1) == cnt(b, d, 3)); assert(cnt(s, ds, 2) == cnt(b, d, 4));
    assert forall|l: int| 0 <= l <= ds - 1 implies #[trigger] a[l] == cat(k, ds - 1, l) by { assert(l == 0 || l == 1 || l == 2); assert(cnt(s, ds, l) == cat(k, ds - 1, l)); }
    assert forall|i: int| 0 <= i < k.len() implies depth_ok(#[trigger] k[i], ds - 1) && small(k[i], ds - 1) by {}
    assert forall|l: int| 1 <= l <= ds - 1 implies sum(#[trigger] a[l]) == a[l - 1].len() by { lemma_cat_sum(k, ds - 1, l); assert(a[l - 1] == cat(k, ds - 1, l - 1)); }
    assert forall|l: int, i: int| 2 <= l <= ds - 1 && 0 <= i < a[l].len() implies (#[trigger] a[l][i]) > 0 by { lemma_cat_pos(k, ds - 1, l); }
}
fn p10_round_trip(fbb: &mut FlatBufferBuilder, g: &CjGeometry, schema: Option<&AttributeSchema>, cols: Option<Schema>) -> (r: Result<CjGeometry, Error>)
    requires geometry_ok(*g),
    ensures r is Ok, same_geometry(*g, r->Ok_0, deref_opt(schema), cols),
{
    let ghost b = tv(g.boundaries); let ghost d = depth_of(type_of(g.thetype));
    proof {
        lemma_dep(b, d);
        if g.semantics is Some { let s = tv(g.semantics->0.values); if d >= 4 { lemma_like(s, b, d - 2); lemma_dep(s, d - 2); } }
    }
    let o = to_geometry(fbb, g, schema);
    let t = stored(o);
    proof {
        lemma_flattened(b, t@.lv()); lemma_encodes(b, d, t@.lv());
        if d == 5 { assert(b->Nest_0.len() > 0); }
        assert(top_a(t@.lv()) == top_of(d));
        if g.semantics is Some && d >= 4 { lemma_semantics(*g, t@, schema); }
    }
    let r = decode_geometry(t, cols);
    r
}

// ---- geometry instances
#[verifier::external_body] pub struct TransformationMatrix { x: u8 }
impl TransformationMatrix {
    pub uninterp spec fn view(&self) -> Seq<f64>;
    #[verifier::external_body] pub fn new(m00: f64, m01: f64, m02: f64, m03: f64, m10: f64, m11: f64, m12: f64, m13: f64, m20: f64, m21: f64, m22: f64, m23: f64, m30: f64, m31: f64, m32: f64, m33: f64) -> (r: TransformationMatrix) ensures r@ == seq![m00, m01, m02, m03, m10, m11, m12, m13, m20, m21, m22, m23, m30, m31, m32, m33] { unimplemented!() }
    #[verifier::external_body] pub fn m00(&self) -> (r: f64) ensures r == self@[0] { unimplemented!() }
    #[verifier::external_body] pub fn m01(&self) -> (r: f64) ensures r == self@[1] { unimplemented!() }
    #[verifier::external_body] pub fn m02(&self) -> (r: f64) ensures r == self@[2] { unimplemented!() }
    #[verifier::external_body] pub fn m03(&self) -> (r: f64) ensures r == self@[3] { unimplemented!() }
    #[verifier::external_body] pub fn m10(&self) -> (r: f64) ensures r == self@[4] { unimplemented!() }
    #[verifier::external_body] pub fn m11(&self) -> (r: f64) ensures r == self@[5] { unimplemented!() }
    #[verifier::external_body] pub fn m12(&self) -> (r: f64) ensures r == self@[6] { unimplemented!() }
    #[verifier::external_body] pub fn m13(&self) -> (r: f64) ensures r == self@[7] { unimplemented!() }
    #[verifier::external_body] pub fn m20(&self) -> (r: f64) ensures r == self@[8] { unimplemented!() }
    #[verifier::external_body] pub fn m21(&self) -> (r: f64) ensures r == self@[9] { unimplemented!() }
    #[verifier::external_body] pub fn m22(&self) -> (r: f64) ensures r == self@[10] { unimplemented!() }
    #[verifier::external_body] pub fn m23(&self) -> (r: f64) ensures r == self@[11] { unimplemented!() }
    #[verifier::external_body] pub fn m30(&self) -> (r: f64) ensures r == self@[12] { unimplemented!() }
    #[verifier::external_body] pub fn m31(&self) -> (r: f64) ensures r == self@[13] { unimplemented!() }
    #[verifier::external_body] pub fn m32(&self) -> (r: f64) ensures r == self@[14] { unimplemented!() }
    #[verifier::external_body] pub fn m33(&self) -> (r: f64) ensures r == self@[15] { unimplemented!() }
}
pub ghost struct InstTable { pub template: u32, pub boundaries: Option<Seq<u32>>, pub transformation: Option<Seq<f64>> }
#[verifier::external_body] pub struct GeometryInstance { x: u8 }
impl WIPOffset<GeometryInstance> { pub uninterp spec fn view(&self) -> InstTable; }
pub struct GeometryInstanceArgs<'a> { pub template: u32, pub transformation: Option<&'a TransformationMatrix>, pub boundaries: Option<WIPOffset<Vector<u32>>> }
pub open spec fn mv(o: Option<&TransformationMatrix>) -> Option<Seq<f64>> { match o { Some(m) => Some(m@), None => None } }
impl GeometryInstance {
    pub uninterp spec fn view(&self) -> InstTable;
    #[verifier::external_body] pub fn create(fbb: &mut FlatBufferBuilder, a: &GeometryInstanceArgs) -> (r: WIPOffset<GeometryInstance>) ensures r@ == (InstTable { template: a.template, boundaries: wv(a.boundaries), transformation: mv(a.transformation) }) { unimplemented!() }
    #[verifier::external_body] pub fn template(&self) -> (r: u32) ensures r == self@.template { unimplemented!() }
    #[verifier::external_body] pub fn boundaries(&self) -> (r: Option<Vector<u32>>) ensures ov(r) == self@.boundaries { unimplemented!() }
    #[verifier::external_body] pub fn transformation(&self) -> (r: Option<&TransformationMatrix>) ensures mv(r) == self@.transformation { unimplemented!() }
}
%%fn writer/serializer.rs "-" to_geometry_instance
%%ret r
%%sig `to_geometry_instance<'a>` => `to_geometry_instance`
%%sig `&mut FlatBufferBuilder<'a>` => `&mut FlatBufferBuilder`
%%sig `flatbuffers::WIPOffset<GeometryInstance<'a>>` => `WIPOffset<GeometryInstance>`
%%sub `panic!("Geometry instance must have a template and transformation matrix.")` => `unreachable!()`
%%sub `panic!("Nested boundaries are not valid for geometry instances. ")` => `unreachable!()`
%%spec
    requires
        geometry.template is Some, geometry.transformation_matrix is Some, geometry.boundaries is Indices,
    ensures
        r@.template == geometry.template->0 as u32, r@.boundaries == Some(geometry.boundaries->Indices_0@), r@.transformation is Some, r@.transformation->0 =~= geometry.transformation_matrix->0@,
%%done
%%fn reader/deserializer.rs "-" decode_geometry_instance
%%ret r
%%sub `Error::InvalidAttributeValue { msg: format!("geometryinstance boundaries should contain exactly one vertex index, found {}", fb_boundaries.len()) }` => `Error::Other`
%%sub `Error::MissingRequiredField( "geometryinstance boundaries".to_string(), )` => `Error::Other`
%%sub `instance.transformation().ok_or_else(|| { Error::MissingRequiredField("geometryinstance transformation field".to_string()) })?` => `(match instance.transformation() { Some(x) => x, None => { return Err(Error::Other); } })`
%%spec
    ensures
        r is Ok <==> instance@.boundaries is Some && instance@.boundaries->0.len() == 1 && instance@.transformation is Some,
        r is Ok && instance@.transformation->0.len() == 16 ==> r->Ok_0.thetype is GeometryInstance && r->Ok_0.lod is None && r->Ok_0.semantics is None && r->Ok_0.material is None && r->Ok_0.texture is None
            && r->Ok_0.template == Some(instance@.template as usize) && r->Ok_0.boundaries is Indices && r->Ok_0.boundaries->Indices_0@ =~= instance@.boundaries->0
            && r->Ok_0.transformation_matrix is Some && r->Ok_0.transformation_matrix->0@ =~= instance@.transformation->0,
%%done
#[verifier::external_body] pub fn stored_instance(o: WIPOffset<GeometryInstance>) -> (g: GeometryInstance) ensures g@ == o@ { unimplemented!() }
fn p10_instance_round_trip(fbb: &mut FlatBufferBuilder, g: &CjGeometry) -> (r: Result<CjGeometry, Error>)
    requires g.thetype is GeometryInstance, g.template is Some, g.template->0 <= u32::MAX, g.transformation_matrix is Some, g.boundaries is Indices, g.boundaries->Indices_0@.len() == 1,
    ensures r is Ok, r->Ok_0.thetype == g.thetype, r->Ok_0.template == g.template, r->Ok_0.boundaries is Indices, r->Ok_0.boundaries->Indices_0@ == g.boundaries->Indices_0@, r->Ok_0.transformation_matrix is Some, r->Ok_0.transformation_matrix->0@ == g.transformation_matrix->0@,
{ let o = to_geometry_instance(fbb, g); decode_geometry_instance(&stored_instance(o)) }
fn main() {}
} // verus!
