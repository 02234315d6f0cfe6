// sizes of the levels of a tree, counted from the leaves up
pub open spec fn bounds_upto(lb: Vec<Range<usize>>, sizes: Seq<usize>, i: int) -> bool {
    lb.len() == i && forall|k: int| 0 <= k < i ==> (#[trigger] lb@[k]).start == sum_from(sizes, k + 1) && lb@[k].end == sum_from(sizes, k)
}
pub open spec fn sum_from(s: Seq<usize>, k: int) -> int
    decreases s.len() - k,
{
    if k < 0 || k >= s.len() { 0 } else { s[k] + sum_from(s, k + 1) }
}
pub proof fn lemma_sum_push(s: Seq<usize>, x: usize, k: int)
    requires 0 <= k <= s.len(),
    ensures sum_from(s.push(x), k) == sum_from(s, k) + x,
    decreases s.len() - k,
{
    if k < s.len() { lemma_sum_push(s, x, k + 1); } else { assert(sum_from(s.push(x), k + 1) == 0); }
}
pub proof fn lemma_sum_nonneg(s: Seq<usize>, k: int)
    ensures sum_from(s, k) >= 0,
    decreases s.len() - k,
{ if 0 <= k < s.len() { lemma_sum_nonneg(s, k + 1); } }
pub proof fn lemma_sum_mono(s: Seq<usize>, i: int, j: int)
    requires 0 <= i <= j,
    ensures sum_from(s, j) <= sum_from(s, i),
    decreases j - i,
{ if i < j { lemma_sum_mono(s, i + 1, j); } lemma_sum_nonneg(s, i + 1); lemma_sum_nonneg(s, i); lemma_sum_nonneg(s, j); }
