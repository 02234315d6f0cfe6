// ---- writing a nested array in its flattened form
/// cursors into indices, strings, surfaces, shells, solids
pub open spec fn cur(i: usize, r: usize, f: usize, h: usize, s: usize) -> Cur { seq![i as int, r as int, f as int, h as int, s as int, 0] }
pub open spec fn arrs(solids: Seq<u32>, shells: Seq<u32>, surfaces: Seq<u32>, strings: Seq<u32>, indices: Seq<u32>) -> Arr { seq![indices, strings, surfaces, shells, solids] }

/// nesting depth of the first branch
pub open spec fn dep(t: Tree) -> int decreases t
{ match t { Tree::Leaf(_) => 1, Tree::Nest(k) => if k.len() > 0 { 1 + dep(k[0]) } else { 1 } } }
pub proof fn lemma_dep(t: Tree, d: int)
    requires depth_ok(t, d),
    ensures dep(t) == d,
    decreases d,
{ match t { Tree::Leaf(_) => {}, Tree::Nest(k) => { assert(depth_ok(k[0], d - 1)); lemma_dep(k[0], d - 1); } } }
pub proof fn lemma_dep_kids(k: Seq<Tree>, i: int)
    requires depth_ok(Tree::Nest(k), dep(Tree::Nest(k))), 0 <= i < k.len(),
    ensures depth_ok(k[i], dep(k[i])), dep(k[i]) + 1 == dep(Tree::Nest(k)),
{ lemma_dep(k[i], dep(Tree::Nest(k)) - 1); }
pub fn maxu(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
/// v.extend_from_slice(s)
#[verifier::external_body]
pub fn extend_u32(v: &mut Vec<u32>, s: &[u32]) ensures final(v)@ == old(v)@ + s@ { v.extend_from_slice(s) }
/// every level of b is that of a followed by the flattened form of a tree t of depth d / of the trees k of depth d
pub open spec fn adds(a: Arr, b: Arr, t: Tree, d: int) -> bool { forall|l: int| 0 <= l <= 4 ==> #[trigger] b[l] == a[l] + cnt(t, d, l) }
pub open spec fn adds_all(a: Arr, b: Arr, k: Seq<Tree>, d: int) -> bool { forall|l: int| 0 <= l <= 4 ==> #[trigger] b[l] == a[l] + cat(k, d, l) }
pub proof fn lemma_adds_nil(a: Arr, d: int) requires d >= 1 ensures adds_all(a, a, Seq::empty(), d)
{ assert forall|l: int| 0 <= l <= 4 implies #[trigger] a[l] == a[l] + cat(Seq::empty(), d, l) by { assert(a[l] + Seq::<u32>::empty() =~= a[l]); } }
pub proof fn lemma_adds_push(a: Arr, b: Arr, c: Arr, k: Seq<Tree>, t: Tree, d: int)
    requires adds_all(a, b, k, d), adds(b, c, t, d), d >= 1,
    ensures adds_all(a, c, k.push(t), d),
{
    assert forall|l: int| 0 <= l <= 4 implies #[trigger] c[l] == a[l] + cat(k.push(t), d, l) by { lemma_cat_push(k, t, d, l); assert(b[l] == a[l] + cat(k, d, l)); assert((a[l] + cat(k, d, l)) + cnt(t, d, l) =~= a[l] + (cat(k, d, l) + cnt(t, d, l))); }
}
pub proof fn lemma_adds_close(a: Arr, b: Arr, c: Arr, k: Seq<Tree>, d: int)
    requires adds_all(a, b, k, d - 1), 2 <= d <= 5, forall|l: int| 0 <= l <= 4 ==> #[trigger] c[l] == if l == d { b[l].push(k.len() as u32) } else { b[l] },
        forall|i: int| 0 <= i < k.len() ==> depth_ok(#[trigger] k[i], d - 1),
    ensures adds(a, c, Tree::Nest(k), d),
{
    assert forall|l: int| 0 <= l <= 4 implies #[trigger] c[l] == a[l] + cnt(Tree::Nest(k), d, l) by {
        assert(b[l] == a[l] + cat(k, d - 1, l));
        if l >= d { lemma_cat_above(k, d - 1, l); }
        if l == d { assert(b[l].push(k.len() as u32) =~= a[l] + seq![k.len() as u32]); }
        if l > d { assert(a[l] + Seq::<u32>::empty() =~= a[l]); }
    }
}
pub proof fn lemma_adds_leaf(a: Arr, b: Arr, v: Seq<u32>)
    requires b[0] == a[0] + v, b[1] == a[1].push(v.len() as u32), b[2] == a[2], b[3] == a[3], b[4] == a[4],
    ensures adds(a, b, Tree::Leaf(v), 1),
{
    assert forall|l: int| 0 <= l <= 4 implies #[trigger] b[l] == a[l] + cnt(Tree::Leaf(v), 1, l) by {
        if l == 1 { assert(a[1].push(v.len() as u32) =~= a[1] + seq![v.len() as u32]); }
        if l > 1 { assert(a[l] + Seq::<u32>::empty() =~= a[l]); assert(l == 2 || l == 3 || l == 4); }
    }
}
pub proof fn lemma_cat_above(k: Seq<Tree>, d: int, l: int)
    requires 1 <= d < l, forall|i: int| 0 <= i < k.len() ==> depth_ok(#[trigger] k[i], d),
    ensures cat(k, d, l) == Seq::<u32>::empty(),
    decreases k.len(),
{
    if k.len() > 0 { assert forall|i: int| 0 <= i < k.drop_last().len() implies depth_ok(#[trigger] k.drop_last()[i], d) by { assert(k.drop_last()[i] == k[i]); } lemma_cat_above(k.drop_last(), d, l); assert(depth_ok(k.last(), d)); assert(cnt(k.last(), d, l) =~= Seq::<u32>::empty()); assert(Seq::<u32>::empty() + Seq::<u32>::empty() =~= Seq::<u32>::empty()); }
}
/// indices.iter().map(|i| ..).collect::<Vec<_>>()
pub fn map_vec<T, U, F: Fn(&T) -> U>(v: &Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|x: &T| #[trigger] f.requires((x,)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&v@[i],), #[trigger] r@[i]),
{
    let mut r: Vec<U> = Vec::new(); let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|x: &T| #[trigger] f.requires((x,)), forall|k: int| 0 <= k < r@.len() ==> f.ensures((&v@[k],), #[trigger] r@[k]),
        decreases v.len() - i,
    { let o = f(&v[i]); r.push(o); i += 1; }
    r
}
/// every level of a is that of the flattened form of t
pub open spec fn flattened(t: Tree, a: Arr) -> bool { a.len() == 5 && forall|l: int| 0 <= l <= 4 ==> #[trigger] a[l] == cnt(t, dep(t), l) }
pub proof fn lemma_flattened(t: Tree, a: Arr)
    requires flattened(t, a), depth_ok(t, dep(t)), small(t, dep(t)), 1 <= dep(t) <= 5,
    ensures encodes(t, dep(t), a),
{ let d = dep(t); assert forall|l: int| 0 <= l <= 4 implies #[trigger] a[l] == if l <= d { cnt(t, d, l) } else { Seq::<u32>::empty() } by { if l > d { lemma_cnt_above(t, d, l); } } }
pub proof fn lemma_cnt_above(t: Tree, d: int, l: int)
    requires depth_ok(t, d), 1 <= d < l,
    ensures cnt(t, d, l) == Seq::<u32>::empty(),
{ assert(cnt(t, d, l) =~= Seq::<u32>::empty()); }
/// reading every value of the list k of trees of depth top from the start leaves nothing over, so it is the list that was written
pub proof fn lemma_list_done(k: Seq<Tree>, top: int, a: Arr, z: Cur, e: Cur)
    requires fits(a, top), 1 <= top, part(k, top, a, z, e), forall|l: int| 0 <= l <= top ==> #[trigger] z[l] == 0, k.len() == a[top].len(),
    ensures forall|m: Seq<Tree>| #[trigger] listed_as(m, top, a) && smalls(m, top) ==> m == k,
{
    lemma_top(k, top, a, z, e); lemma_all(k, top, a, z, e);
    assert(listed_as(k, top, a)) by { reveal(segs); }
    assert forall|m: Seq<Tree>| #[trigger] listed_as(m, top, a) && smalls(m, top) implies m == k by {
        lemma_cat_sum(m, top, top);
        let ll = Seq::new((top + 1) as nat, |l: int| a[l].len() as int); let zz = Seq::new((top + 1) as nat, |l: int| 0int);
        assert(segs(m, top, a, zz, ll)) by { reveal(segs); assert forall|l: int| 0 <= l <= top implies 0 <= #[trigger] zz[l] <= ll[l] <= a[l].len() && a[l].subrange(zz[l], ll[l]) == cat(m, top, l) by { assert(a[l].subrange(0, a[l].len() as int) =~= a[l]); } }
        assert(segs(k, top, a, zz, ll)) by { reveal(segs); assert forall|l: int| 0 <= l <= top implies 0 <= #[trigger] zz[l] <= ll[l] <= a[l].len() && a[l].subrange(zz[l], ll[l]) == cat(k, top, l) by { assert(a[l].subrange(0, a[l].len() as int) =~= a[l]); } }
        lemma_uniques(k, m, top, a, zz, ll, ll);
    }
}
pub proof fn lemma_sum_ge(s: Seq<u32>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) > 0,
    ensures sum(s) >= s.len(),
    decreases s.len(),
{ if s.len() > 0 { let r = s.drop_last(); assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) > 0 by { assert(s[i] > 0); } lemma_sum_ge(r); assert(s[s.len() - 1] > 0); } }
