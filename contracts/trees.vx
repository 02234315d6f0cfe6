// ---- nested arrays and their flattened form: counts per level and, at level 0, the numbers
/// what a number (or null) is stored as
pub trait Code: Sized { spec fn code(self) -> u32; }
impl Code for u32 { open spec fn code(self) -> u32 { self } }
impl Code for Option<u32> { open spec fn code(self) -> u32 { match self { Some(v) => v, None => 0xFFFF_FFFF } } }
impl Code for Option<usize> { open spec fn code(self) -> u32 { match self { Some(v) => v as u32, None => 0xFFFF_FFFF } } }
/// null and the numbers below 2^32 - 1 are told apart
pub proof fn lemma_code(a: Option<usize>, b: Option<usize>, c: Option<u32>, d: Option<u32>)
    requires a is Some ==> a->0 < 0xFFFF_FFFF, b is Some ==> b->0 < 0xFFFF_FFFF, c is Some ==> c->0 < 0xFFFF_FFFF, d is Some ==> d->0 < 0xFFFF_FFFF,
    ensures a.code() == b.code() ==> a == b, c.code() == d.code() ==> c == d,
{}
/// cjseq::NestedArray (its derives are left out)
pub enum NestedArray<T> { Indices(Vec<T>), Nested(Vec<NestedArray<T>>) }
pub ghost enum Tree { Leaf(Seq<u32>), Nest(Seq<Tree>) }
pub open spec fn codes<T: Code>(v: Seq<T>) -> Seq<u32> { Seq::new(v.len(), |i: int| v[i].code()) }
/// a nested array as a value
pub open spec fn tv<T: Code>(b: NestedArray<T>) -> Tree decreases b
{ match b { NestedArray::Indices(v) => Tree::Leaf(codes(v@)), NestedArray::Nested(k) => Tree::Nest(tvs(k@)) } }
pub open spec fn tvs<T: Code>(k: Seq<NestedArray<T>>) -> Seq<Tree> decreases k
{ Seq::new(k.len(), |i: int| if 0 <= i < k.len() { tv(k[i]) } else { arbitrary() }) }
pub proof fn lemma_tvs_push<T: Code>(k: Seq<NestedArray<T>>, b: NestedArray<T>)
    ensures tvs(k.push(b)) == tvs(k).push(tv(b)),
{ assert(tvs(k.push(b)) =~= tvs(k).push(tv(b))); }
/// nested to depth d everywhere, no empty level above the numbers
pub open spec fn depth_ok(t: Tree, d: int) -> bool decreases d
{ match t { Tree::Leaf(_) => d == 1, Tree::Nest(k) => d >= 2 && k.len() > 0 && forall|i: int| 0 <= i < k.len() ==> depth_ok(#[trigger] k[i], d - 1) } }
/// every count fits 32 bits
pub open spec fn small(t: Tree, d: int) -> bool decreases d
{ match t { Tree::Leaf(v) => v.len() <= 0xFFFF_FFFF, Tree::Nest(k) => k.len() <= 0xFFFF_FFFF && (d >= 1 ==> forall|i: int| 0 <= i < k.len() ==> small(#[trigger] k[i], d - 1)) } }
/// the level l of the flattened form of a tree of depth d, of a list of such trees
pub open spec fn cnt(t: Tree, d: int, l: int) -> Seq<u32> decreases d, 0int when d >= 1
{
    match t {
        Tree::Leaf(v) => if l == 0 { v } else if l == 1 { seq![v.len() as u32] } else { Seq::empty() },
        Tree::Nest(k) => if l == d { seq![k.len() as u32] } else if l < d && d >= 2 { cat(k, d - 1, l) } else { Seq::empty() },
    }
}
pub open spec fn cat(k: Seq<Tree>, d: int, l: int) -> Seq<u32> decreases d, k.len() + 1 when d >= 1
{ if k.len() == 0 { Seq::empty() } else { cat(k.drop_last(), d, l) + cnt(k.last(), d, l) } }
pub proof fn lemma_cat_push(k: Seq<Tree>, t: Tree, d: int, l: int)
    requires d >= 1,
    ensures cat(k.push(t), d, l) == cat(k, d, l) + cnt(t, d, l),
{ assert(k.push(t).drop_last() =~= k); }

// ---- pieces of the flattened arrays a (by level) between the cursors c and e
pub type Arr = Seq<Seq<u32>>;
pub type Cur = Seq<int>;
#[verifier::opaque]
pub open spec fn seg(t: Tree, d: int, a: Arr, c: Cur, e: Cur) -> bool {
    &&& depth_ok(t, d)
    &&& forall|l: int| 0 <= l <= d ==> 0 <= #[trigger] c[l] <= e[l] <= a[l].len() && a[l].subrange(c[l], e[l]) == cnt(t, d, l)
}
#[verifier::opaque]
pub open spec fn segs(k: Seq<Tree>, d: int, a: Arr, c: Cur, e: Cur) -> bool {
    &&& forall|i: int| 0 <= i < k.len() ==> depth_ok(#[trigger] k[i], d)
    &&& forall|l: int| 0 <= l <= d ==> 0 <= #[trigger] c[l] <= e[l] <= a[l].len() && a[l].subrange(c[l], e[l]) == cat(k, d, l)
}
pub proof fn lemma_segs_nil(d: int, a: Arr, c: Cur)
    requires d >= 1, forall|l: int| 0 <= l <= d ==> 0 <= #[trigger] c[l] <= a[l].len(),
    ensures segs(Seq::empty(), d, a, c, c),
{ reveal(segs); assert forall|l: int| 0 <= l <= d implies a[l].subrange(c[l], #[trigger] c[l]) == cat(Seq::empty(), d, l) by { assert(a[l].subrange(c[l], c[l]) =~= Seq::<u32>::empty()); } }
pub proof fn lemma_segs_push(k: Seq<Tree>, t: Tree, d: int, a: Arr, c: Cur, m: Cur, e: Cur)
    requires d >= 1, segs(k, d, a, c, m), seg(t, d, a, m, e),
    ensures segs(k.push(t), d, a, c, e),
{
    reveal(segs); reveal(seg);
    assert forall|i: int| 0 <= i < k.push(t).len() implies depth_ok(#[trigger] k.push(t)[i], d) by { if i < k.len() { assert(depth_ok(k[i], d)); } }
    assert forall|l: int| 0 <= l <= d implies 0 <= #[trigger] c[l] <= e[l] <= a[l].len() && a[l].subrange(c[l], e[l]) == cat(k.push(t), d, l) by {
        assert(0 <= c[l] <= m[l]); assert(m[l] <= e[l] <= a[l].len());
        lemma_cat_push(k, t, d, l);
        assert(a[l].subrange(c[l], e[l]) =~= a[l].subrange(c[l], m[l]) + a[l].subrange(m[l], e[l]));
    }
}
pub proof fn lemma_nest(k: Seq<Tree>, d: int, a: Arr, c: Cur, e: Cur)
    requires d >= 2, segs(k, d - 1, a, c, e), 0 < k.len(), 0 <= c[d] < a[d].len(), e[d] == c[d] + 1, a[d][c[d]] as int == k.len(),
    ensures seg(Tree::Nest(k), d, a, c, e),
{
    reveal(segs); reveal(seg);
    assert forall|l: int| 0 <= l <= d implies 0 <= #[trigger] c[l] <= e[l] <= a[l].len() && a[l].subrange(c[l], e[l]) == cnt(Tree::Nest(k), d, l) by {
        if l == d { assert(a[d].subrange(c[d], e[d]) =~= seq![k.len() as u32]); }
    }
}
pub proof fn lemma_leaf(v: Seq<u32>, a: Arr, c: Cur, e: Cur)
    requires 0 <= c[0] <= e[0] <= a[0].len(), a[0].subrange(c[0], e[0]) == v, 0 <= c[1] < a[1].len(), e[1] == c[1] + 1, a[1][c[1]] as int == v.len(),
    ensures seg(Tree::Leaf(v), 1, a, c, e),
{
    reveal(seg);
    assert forall|l: int| 0 <= l <= 1 implies 0 <= #[trigger] c[l] <= e[l] <= a[l].len() && a[l].subrange(c[l], e[l]) == cnt(Tree::Leaf(v), 1, l) by {
        if l == 1 { assert(a[1].subrange(c[1], e[1]) =~= seq![v.len() as u32]); }
    }
}
// ---- the counts of a level add up to the length of the level below
pub open spec fn sum(s: Seq<u32>) -> int decreases s.len()
{ if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() as int } }
pub proof fn lemma_sum_add(s: Seq<u32>, t: Seq<u32>)
    ensures sum(s + t) == sum(s) + sum(t), sum(s) >= 0,
    decreases t.len(),
{
    lemma_sum_pos(s);
    if t.len() == 0 { assert(s + t =~= s); } else { assert((s + t).drop_last() =~= s + t.drop_last()); lemma_sum_add(s, t.drop_last()); }
}
pub proof fn lemma_sum_pos(s: Seq<u32>)
    ensures sum(s) >= 0,
    decreases s.len(),
{ if s.len() > 0 { lemma_sum_pos(s.drop_last()); } }
pub proof fn lemma_sum_take(s: Seq<u32>, k: int)
    requires 0 <= k < s.len(),
    ensures sum(s.take(k + 1)) == sum(s.take(k)) + s[k], sum(s.take(k + 1)) <= sum(s), sum(s.take(k)) >= 0,
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s =~= s.take(k + 1) + s.skip(k + 1)); lemma_sum_add(s.take(k + 1), s.skip(k + 1)); lemma_sum_pos(s.skip(k + 1)); lemma_sum_pos(s.take(k));
}
pub proof fn lemma_cnt_sum(t: Tree, d: int, l: int)
    requires depth_ok(t, d), small(t, d), 1 <= l <= d,
    ensures sum(cnt(t, d, l)) == cnt(t, d, l - 1).len(), l == d ==> cnt(t, d, l).len() == 1,
    decreases d, 0int,
{
    match t {
        Tree::Leaf(v) => { let s = seq![v.len() as u32]; assert(s.drop_last() =~= Seq::empty()); assert(s.last() as int == v.len()); assert(sum(s.drop_last()) == 0); },
        Tree::Nest(k) => {
            if l == d { let s = seq![k.len() as u32]; assert(s.drop_last() =~= Seq::empty()); assert(s.last() as int == k.len()); assert(sum(s.drop_last()) == 0); lemma_cat_sum(k, d - 1, d - 1); }
            else { lemma_cat_sum(k, d - 1, l); }
        },
    }
}
pub proof fn lemma_cat_sum(k: Seq<Tree>, d: int, l: int)
    requires forall|i: int| 0 <= i < k.len() ==> depth_ok(#[trigger] k[i], d) && small(k[i], d), 1 <= l <= d,
    ensures sum(cat(k, d, l)) == cat(k, d, l - 1).len(), l == d ==> cat(k, d, l).len() == k.len(),
    decreases d, k.len() + 1,
{
    if k.len() > 0 {
        assert forall|i: int| 0 <= i < k.drop_last().len() implies depth_ok(#[trigger] k.drop_last()[i], d) && small(k.drop_last()[i], d) by { assert(k.drop_last()[i] == k[i]); }
        lemma_cat_sum(k.drop_last(), d, l); lemma_cnt_sum(k.last(), d, l);
        lemma_sum_add(cat(k.drop_last(), d, l), cnt(k.last(), d, l));
    }
}
/// the counts above the numbers add up, and none of levels 2 and up is zero
pub open spec fn fits(a: Arr, top: int) -> bool {
    &&& forall|l: int| 1 <= l <= top ==> sum(#[trigger] a[l]) == a[l - 1].len()
    &&& forall|l: int, i: int| 2 <= l <= top && 0 <= i < a[l].len() ==> (#[trigger] a[l][i]) > 0
}
/// the cursors below level d stand where the counts before cursor d end
#[verifier::opaque]
pub open spec fn aligned(a: Arr, c: Cur, d: int) -> bool { forall|l: int| 1 <= l <= d ==> c[l - 1] == sum(a[l].take(#[trigger] c[l])) && 0 <= c[l] <= a[l].len() }
pub proof fn lemma_aligned0(a: Arr, c: Cur, d: int)
    requires forall|l: int| 0 <= l <= d ==> #[trigger] c[l] == 0,
    ensures aligned(a, c, d),
{ reveal(aligned); assert forall|l: int| 1 <= l <= d implies c[l - 1] == sum(a[l].take(#[trigger] c[l])) && 0 <= c[l] <= a[l].len() by { assert(c[l - 1] == 0); assert(a[l].take(0) =~= Seq::<u32>::empty()); } }
/// what was read is small, because each count was one
pub proof fn lemma_seg_sum(t: Tree, d: int, a: Arr, c: Cur, e: Cur)
    requires seg(t, d, a, c, e), small(t, d), d >= 1,
    ensures forall|l: int| 1 <= l <= d ==> e[l - 1] - c[l - 1] == sum(a[l].subrange(c[l], #[trigger] e[l])), e[d] == c[d] + 1,
{
    reveal(seg);
    assert forall|l: int| 1 <= l <= d implies e[l - 1] - c[l - 1] == sum(a[l].subrange(c[l], #[trigger] e[l])) by { assert(c[l] <= e[l]); assert(c[l - 1] <= e[l - 1]); lemma_cnt_sum(t, d, l); }
    assert(c[d] <= e[d]); lemma_cnt_sum(t, d, d); assert(a[d].subrange(c[d], e[d]).len() == 1);
}
pub proof fn lemma_segs_aligned(k: Seq<Tree>, d: int, a: Arr, c: Cur, e: Cur)
    requires segs(k, d, a, c, e), smalls(k, d), d >= 1, aligned(a, c, d),
    ensures aligned(a, e, d), e[d] == c[d] + k.len(), forall|l: int| 0 <= l <= d ==> 0 <= #[trigger] e[l] <= a[l].len(),
{
    reveal(segs); reveal(aligned);
    assert forall|l: int| 1 <= l <= d implies e[l - 1] == sum(a[l].take(#[trigger] e[l])) && 0 <= e[l] <= a[l].len() by {
        assert(0 <= c[l] <= e[l]); assert(0 <= c[l - 1] <= e[l - 1]); lemma_cat_sum(k, d, l);
        assert(a[l].take(e[l]) =~= a[l].take(c[l]) + a[l].subrange(c[l], e[l])); lemma_sum_add(a[l].take(c[l]), a[l].subrange(c[l], e[l]));
    }
    assert(c[d] <= e[d]); lemma_cat_sum(k, d, d);
    assert forall|l: int| 0 <= l <= d implies 0 <= #[trigger] e[l] <= a[l].len() by { assert(0 <= c[l] <= e[l]); }
}
pub open spec fn smalls(k: Seq<Tree>, d: int) -> bool { forall|i: int| 0 <= i < k.len() ==> small(#[trigger] k[i], d) }
/// count number c[d] is being read: fewer children than it says so far, so there is room for one more
pub proof fn lemma_room(k: Seq<Tree>, d: int, top: int, a: Arr, c: Cur, e: Cur)
    requires fits(a, top), 2 <= d <= top, aligned(a, c, d), segs(k, d - 1, a, c, e), smalls(k, d - 1), c[d] < a[d].len(), k.len() <= a[d][c[d]],
    ensures k.len() < a[d][c[d]] ==> e[d - 1] < a[d - 1].len(), aligned(a, e, d - 1), forall|l: int| 0 <= l <= d - 1 ==> 0 <= #[trigger] e[l] <= a[l].len(), e[d - 1] == c[d - 1] + k.len(),
{
    lemma_segs_aligned_part(k, d, a, c, e);
    reveal(aligned);
    assert(0 <= c[d]);
    lemma_sum_take(a[d], c[d]);
    assert(a[d].take(c[d]) == a[d].take(c[d]));
}
pub proof fn lemma_segs_aligned_part(k: Seq<Tree>, d: int, a: Arr, c: Cur, e: Cur)
    requires 2 <= d, aligned(a, c, d), segs(k, d - 1, a, c, e), smalls(k, d - 1),
    ensures aligned(a, e, d - 1), e[d - 1] == c[d - 1] + k.len(), forall|l: int| 0 <= l <= d - 1 ==> 0 <= #[trigger] e[l] <= a[l].len(),
{ assert(aligned(a, c, d - 1)) by { reveal(aligned); } lemma_segs_aligned(k, d - 1, a, c, e); }
/// the numbers of a ring are there
pub proof fn lemma_room0(top: int, a: Arr, c: Cur)
    requires fits(a, top), 1 <= top, aligned(a, c, 1), 0 <= c[1] < a[1].len(),
    ensures 0 <= c[0], c[0] + a[1][c[1]] <= a[0].len(),
{ reveal(aligned); lemma_sum_take(a[1], c[1]); assert(a[1].take(c[1]) == a[1].take(c[1])); }
/// everything at level top was read, so everything below was
pub proof fn lemma_all(k: Seq<Tree>, top: int, a: Arr, z: Cur, e: Cur)
    requires fits(a, top), 1 <= top, segs(k, top, a, z, e), smalls(k, top), forall|l: int| 0 <= l <= top ==> #[trigger] z[l] == 0, e[top] == a[top].len(),
    ensures forall|l: int| 0 <= l <= top ==> #[trigger] a[l] == cat(k, top, l), k.len() == a[top].len(),
{
    lemma_aligned0(a, z, top); lemma_segs_aligned(k, top, a, z, e);
    assert(z[top] == 0);
    lemma_all_at(top, top, a, e, 0);
    reveal(segs);
    assert forall|l: int| 0 <= l <= top implies #[trigger] a[l] == cat(k, top, l) by { assert(z[l] == 0); lemma_all_at(top, top, a, e, l); assert(a[l].subrange(0, a[l].len() as int) =~= a[l]); }
}
pub proof fn lemma_all_at(top: int, d: int, a: Arr, e: Cur, l: int)
    requires fits(a, top), aligned(a, e, top), e[top] == a[top].len(), 0 <= l <= d <= top, top >= 1,
    ensures e[l] == a[l].len(),
    decreases top - l,
{
    reveal(aligned);
    if l < top { lemma_all_at(top, top, a, e, l + 1); assert(a[l + 1].take(e[l + 1]) =~= a[l + 1]); assert(sum(a[l + 1]) == a[l].len()); assert(e[l] == sum(a[l + 1].take(e[l + 1]))); }
}
// ---- the flattened form determines the value
pub proof fn lemma_unique(s: Tree, t: Tree, d: int, a: Arr, c: Cur, e: Cur, f: Cur)
    requires seg(s, d, a, c, e), seg(t, d, a, c, f), small(s, d), small(t, d), d >= 1,
    ensures s == t, forall|l: int| 0 <= l <= d ==> e[l] == #[trigger] f[l],
    decreases d, 0int,
{
    assert(depth_ok(s, d) && depth_ok(t, d)) by { reveal(seg); }
    lemma_seg_sum(s, d, a, c, e); lemma_seg_sum(t, d, a, c, f);
    assert(a[d].subrange(c[d], e[d]) == cnt(s, d, d) && a[d].subrange(c[d], f[d]) == cnt(t, d, d)) by { reveal(seg); assert(c[d] <= e[d] && c[d] <= f[d]); }
    assert(cnt(s, d, d)[0] == cnt(t, d, d)[0]);
    if d == 1 {
        assert(e[0] - c[0] == f[0] - c[0]);
        reveal(seg); assert(c[0] <= e[0]);
        assert(s->Leaf_0 == t->Leaf_0);
    } else {
        let k = s->Nest_0; let m = t->Nest_0;
        assert(k.len() == m.len());
        assert(segs(k, d - 1, a, c, e)) by { reveal(seg); reveal(segs); }
        assert(segs(m, d - 1, a, c, f)) by { reveal(seg); reveal(segs); }
        lemma_uniques(k, m, d - 1, a, c, e, f);
    }
}
pub proof fn lemma_uniques(k: Seq<Tree>, m: Seq<Tree>, d: int, a: Arr, c: Cur, e: Cur, f: Cur)
    requires segs(k, d, a, c, e), segs(m, d, a, c, f), smalls(k, d), smalls(m, d), k.len() == m.len(), d >= 1,
    ensures k == m, forall|l: int| 0 <= l <= d ==> e[l] == #[trigger] f[l],
    decreases d, k.len() + 1,
{
    if k.len() == 0 {
        reveal(segs);
        assert(k =~= m);
        assert forall|l: int| 0 <= l <= d implies e[l] == #[trigger] f[l] by { assert(c[l] <= e[l]); assert(a[l].subrange(c[l], e[l]).len() == 0 && a[l].subrange(c[l], f[l]).len() == 0); }
    } else {
        let e1 = mid(k, d, c); let f1 = mid(m, d, c);
        lemma_split(k, d, a, c, e); lemma_split(m, d, a, c, f);
        assert(k.drop_last().len() == m.drop_last().len());
        lemma_uniques(k.drop_last(), m.drop_last(), d, a, c, e1, f1);
        assert(seg(m.last(), d, a, e1, f)) by { reveal(seg); assert forall|l: int| 0 <= l <= d implies 0 <= #[trigger] e1[l] <= f[l] <= a[l].len() && a[l].subrange(e1[l], f[l]) == cnt(m.last(), d, l) by { assert(0 <= f1[l] <= f[l]); } }
        lemma_unique(k.last(), m.last(), d, a, e1, e, f);
        assert(k =~= k.drop_last().push(k.last())); assert(m =~= m.drop_last().push(m.last()));
    }
}
/// cursors before the last tree of the list
pub open spec fn mid(k: Seq<Tree>, d: int, c: Cur) -> Cur { Seq::new((d + 1) as nat, |l: int| c[l] + cat(k.drop_last(), d, l).len()) }
pub proof fn lemma_split(k: Seq<Tree>, d: int, a: Arr, c: Cur, e: Cur)
    requires segs(k, d, a, c, e), k.len() > 0, smalls(k, d), d >= 1,
    ensures segs(k.drop_last(), d, a, c, mid(k, d, c)), seg(k.last(), d, a, mid(k, d, c), e), smalls(k.drop_last(), d), small(k.last(), d),
{
    reveal(segs); reveal(seg);
    let m = mid(k, d, c);
    assert(depth_ok(k.last(), d)); assert(small(k[k.len() - 1], d));
    assert forall|i: int| 0 <= i < k.drop_last().len() implies depth_ok(#[trigger] k.drop_last()[i], d) && small(k.drop_last()[i], d) by { assert(k.drop_last()[i] == k[i]); }
    assert forall|l: int| 0 <= l <= d implies 0 <= #[trigger] c[l] <= m[l] <= a[l].len() && a[l].subrange(c[l], m[l]) == cat(k.drop_last(), d, l) && m[l] <= e[l] && a[l].subrange(m[l], e[l]) == cnt(k.last(), d, l) by {
        assert(0 <= c[l] <= e[l]);
        let x = cat(k.drop_last(), d, l); let y = cnt(k.last(), d, l); let w = a[l].subrange(c[l], e[l]);
        assert(w == x + y);
        assert(a[l].subrange(c[l], m[l]) =~= x) by { assert forall|i: int| 0 <= i < x.len() implies a[l].subrange(c[l], m[l])[i] == x[i] by { assert(w[i] == (x + y)[i]); } }
        assert(a[l].subrange(m[l], e[l]) =~= y) by { assert forall|i: int| 0 <= i < y.len() implies a[l].subrange(m[l], e[l])[i] == y[i] by { assert(w[x.len() + i] == (x + y)[x.len() + i]); } }
    }
    assert forall|l: int| 0 <= l <= d implies 0 <= #[trigger] m[l] <= e[l] <= a[l].len() && a[l].subrange(m[l], e[l]) == cnt(k.last(), d, l) by { assert(0 <= c[l]); }
}
// ---- a whole value
/// the arrays a (levels 0 to 4) are the flattened form of t, a value of depth d
pub open spec fn encodes(t: Tree, d: int, a: Arr) -> bool {
    &&& 1 <= d <= 5 && depth_ok(t, d) && small(t, d) && a.len() == 5
    &&& forall|l: int| 0 <= l <= 4 ==> #[trigger] a[l] == if l <= d { cnt(t, d, l) } else { Seq::<u32>::empty() }
}
pub open spec fn zero() -> Cur { seq![0int, 0, 0, 0, 0, 0] }
pub open spec fn lens(a: Arr) -> Cur { Seq::new(6, |l: int| a[l].len() as int) }
pub open spec fn top_of(d: int) -> int { if d == 5 { 4 } else { d } }
pub proof fn lemma_encodes(t: Tree, d: int, a: Arr)
    requires encodes(t, d, a),
    ensures fits(a, top_of(d)), d <= 4 ==> a[d].len() == 1, d == 5 ==> a[4].len() == t->Nest_0.len(), forall|l: int| d < l <= 4 ==> (#[trigger] a[l]).len() == 0,
{
    assert forall|l: int| 1 <= l <= top_of(d) implies sum(#[trigger] a[l]) == a[l - 1].len() by { lemma_cnt_sum(t, d, l); assert(a[l - 1] == cnt(t, d, l - 1)); }
    assert forall|l: int, i: int| 2 <= l <= top_of(d) && 0 <= i < a[l].len() implies (#[trigger] a[l][i]) > 0 by { lemma_cnt_pos(t, d, l); }
    if d <= 4 { lemma_cnt_sum(t, d, d); } else { lemma_cat_sum(t->Nest_0, 4, 4); assert(a[4] == cnt(t, 5, 4)); }
}
pub proof fn lemma_cnt_pos(t: Tree, d: int, l: int)
    requires depth_ok(t, d), small(t, d), 2 <= l <= d,
    ensures forall|i: int| 0 <= i < cnt(t, d, l).len() ==> (#[trigger] cnt(t, d, l)[i]) > 0,
    decreases d, 0int,
{
    let q = cnt(t, d, l); let k = t->Nest_0;
    if l < d { lemma_cat_pos(k, d - 1, l); assert(q == cat(k, d - 1, l)); assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) > 0 by { assert(cat(k, d - 1, l)[i] > 0); } }
    else { let n = k.len(); assert((n as u32) as int == n); assert(q == seq![n as u32]); assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) > 0 by { assert(q[i] == n as u32); } }
}
pub proof fn lemma_cat_pos(k: Seq<Tree>, d: int, l: int)
    requires forall|i: int| 0 <= i < k.len() ==> depth_ok(#[trigger] k[i], d) && small(k[i], d), 2 <= l <= d,
    ensures forall|i: int| 0 <= i < cat(k, d, l).len() ==> (#[trigger] cat(k, d, l)[i]) > 0,
    decreases d, k.len() + 1,
{
    if k.len() > 0 {
        assert forall|i: int| 0 <= i < k.drop_last().len() implies depth_ok(#[trigger] k.drop_last()[i], d) && small(k.drop_last()[i], d) by { assert(k.drop_last()[i] == k[i]); }
        lemma_cat_pos(k.drop_last(), d, l); lemma_cnt_pos(k.last(), d, l);
        let x = cat(k.drop_last(), d, l); let y = cnt(k.last(), d, l);
        assert forall|i: int| 0 <= i < cat(k, d, l).len() implies (#[trigger] cat(k, d, l)[i]) > 0 by { if i < x.len() { assert(x[i] > 0); } else { assert(y[i - x.len()] > 0); } }
    }
}
/// the list k of trees of depth top whose flattened form a is
pub open spec fn listed_as(k: Seq<Tree>, top: int, a: Arr) -> bool {
    &&& forall|i: int| 0 <= i < k.len() ==> depth_ok(#[trigger] k[i], top)
    &&& forall|l: int| 0 <= l <= top ==> #[trigger] a[l] == cat(k, top, l)
}
pub proof fn lemma_listed(k: Seq<Tree>, top: int, a: Arr)
    requires listed_as(k, top, a), 1 <= top <= 4,
    ensures segs(k, top, a, zero(), lens(a)),
{
    reveal(segs); let z = zero(); let e = lens(a);
    assert forall|l: int| 0 <= l <= top implies 0 <= #[trigger] z[l] <= e[l] <= a[l].len() && a[l].subrange(z[l], e[l]) == cat(k, top, l) by { assert(a[l].subrange(0, a[l].len() as int) =~= a[l]); }
}
pub proof fn lemma_single(t: Tree, d: int, l: int)
    requires d >= 1,
    ensures cat(seq![t], d, l) == cnt(t, d, l),
{
    let m = seq![t];
    assert(m.drop_last() =~= Seq::<Tree>::empty()); assert(cat(m.drop_last(), d, l) == Seq::<u32>::empty());
    assert(Seq::<u32>::empty() + cnt(t, d, l) =~= cnt(t, d, l)); assert(m.last() == t);
}
/// the value is the list's only tree, or (depth 5) the list itself
pub proof fn lemma_whole(k: Seq<Tree>, t: Tree, d: int, a: Arr)
    requires encodes(t, d, a), smalls(k, top_of(d)), listed_as(k, top_of(d), a), k.len() == a[top_of(d)].len(),
    ensures d <= 4 ==> k == seq![t], d == 5 ==> t == Tree::Nest(k),
{
    let top = top_of(d); let z = zero(); let e = lens(a);
    lemma_encodes(t, d, a);
    lemma_listed(k, top, a);
    let m = if d <= 4 { seq![t] } else { t->Nest_0 };
    assert(listed_as(m, top, a)) by {
        if d <= 4 { assert forall|l: int| 0 <= l <= top implies #[trigger] a[l] == cat(m, top, l) by { lemma_single(t, d, l); } }
    }
    lemma_listed(m, top, a);
    assert(smalls(m, top));
    lemma_uniques(k, m, top, a, z, e, e);
}

// ---- the same facts in the form the decoding loops use them
pub open spec fn part(k: Seq<Tree>, d: int, a: Arr, c: Cur, e: Cur) -> bool { segs(k, d, a, c, e) && smalls(k, d) }
/// deepest level that has counts
pub open spec fn top_a(a: Arr) -> int { if a[4].len() > 0 { 4 } else if a[3].len() > 0 { 3 } else if a[2].len() > 0 { 2 } else if a[1].len() > 0 { 1 } else { 0 } }
pub proof fn lemma_start(d: int, a: Arr, c: Cur, e: Cur)
    requires d >= 1, forall|l: int| 0 <= l <= d ==> #[trigger] c[l] == e[l], forall|l: int| 0 <= l <= d ==> 0 <= #[trigger] c[l] <= a[l].len(),
    ensures part(Seq::empty(), d, a, c, e),
{ lemma_segs_nil(d, a, c); reveal(segs); assert forall|l: int| 0 <= l <= d implies 0 <= #[trigger] c[l] <= e[l] <= a[l].len() && a[l].subrange(c[l], e[l]) == cat(Seq::empty(), d, l) by { assert(a[l].subrange(c[l], c[l]) == cat(Seq::empty(), d, l)); } }
/// one more ring
pub proof fn lemma_ring(v: Seq<u32>, k: Seq<Tree>, a: Arr, c: Cur, m: Cur, e: Cur)
    requires part(k, 1, a, c, m), 0 <= m[0] <= e[0] <= a[0].len(), a[0].subrange(m[0], e[0]) == v, 0 <= m[1] < a[1].len(), e[1] == m[1] + 1, a[1][m[1]] as int == v.len(),
    ensures part(k.push(Tree::Leaf(v)), 1, a, c, e),
{
    lemma_leaf(v, a, m, e); lemma_segs_push(k, Tree::Leaf(v), 1, a, c, m, e);
    assert forall|i: int| 0 <= i < k.push(Tree::Leaf(v)).len() implies small(#[trigger] k.push(Tree::Leaf(v))[i], 1) by { if i < k.len() { assert(small(k[i], 1)); } }
}
/// the children k of one more tree are complete
pub proof fn lemma_close(k: Seq<Tree>, o: Seq<Tree>, d: int, a: Arr, c: Cur, m: Cur, e: Cur)
    requires d >= 2, part(k, d - 1, a, m, e), part(o, d, a, c, m), 0 < k.len(), 0 <= m[d] < a[d].len(), e[d] == m[d] + 1, a[d][m[d]] as int == k.len(),
    ensures part(o.push(Tree::Nest(k)), d, a, c, e),
{
    let t = Tree::Nest(k);
    lemma_nest(k, d, a, m, e); lemma_segs_push(o, t, d, a, c, m, e);
    assert forall|i: int| 0 <= i < o.push(t).len() implies small(#[trigger] o.push(t)[i], d) by { if i < o.len() { assert(small(o[i], d)); } }
}
pub proof fn lemma_top(k: Seq<Tree>, top: int, a: Arr, z: Cur, e: Cur)
    requires 1 <= top, part(k, top, a, z, e), forall|l: int| 0 <= l <= top ==> #[trigger] z[l] == 0,
    ensures aligned(a, e, top), e[top] == k.len(), forall|l: int| 0 <= l <= top ==> 0 <= #[trigger] e[l] <= a[l].len(),
{ lemma_aligned0(a, z, top); lemma_segs_aligned(k, top, a, z, e); assert(z[top] == 0); }
/// all trees of the top level are complete: they are the value, or its children
pub proof fn lemma_done(k: Seq<Tree>, top: int, a: Arr, z: Cur, e: Cur)
    requires fits(a, top), 1 <= top <= 4, part(k, top, a, z, e), forall|l: int| 0 <= l <= top ==> #[trigger] z[l] == 0, k.len() == a[top].len(), top_a(a) == top, a.len() == 5,
    ensures forall|t: Tree, d: int| #[trigger] encodes(t, d, a) ==> top_of(d) == top && (d <= 4 ==> k == seq![t] && k.len() == 1 && k[0] == t) && (d == 5 ==> t == Tree::Nest(k)),
{
    lemma_top(k, top, a, z, e); lemma_all(k, top, a, z, e);
    assert(listed_as(k, top, a)) by { reveal(segs); }
    assert forall|t: Tree, d: int| #[trigger] encodes(t, d, a) implies top_of(d) == top && (d <= 4 ==> k == seq![t] && k.len() == 1 && k[0] == t) && (d == 5 ==> t == Tree::Nest(k)) by {
        lemma_encodes(t, d, a);
        if d == 5 { assert(depth_ok(t, 5)); assert(a[4].len() > 0); } else { assert(a[d].len() == 1); }
        assert(top_of(d) == top);
        lemma_whole(k, t, d, a);
    }
}
