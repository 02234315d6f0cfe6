// ---- the bytes of a stored tree
pub open spec fn dec_node(d: Seq<u8>, p: int) -> NodeItem {
    NodeItem { min_x: decf(d.subrange(p, p + 8)), min_y: decf(d.subrange(p + 8, p + 16)), max_x: decf(d.subrange(p + 16, p + 24)), max_y: decf(d.subrange(p + 24, p + 32)), offset: dec64(d.subrange(p + 32, p + 40)) }
}
pub open spec fn nodes_of(d: Seq<u8>, p: int, k: int) -> Seq<NodeItem> { Seq::new(k as nat, |j: int| dec_node(d, p + 40 * j)) }
pub open spec fn enc_node(n: NodeItem) -> Seq<u8> { encf(n.min_x) + encf(n.min_y) + encf(n.max_x) + encf(n.max_y) + enc64(n.offset) }
pub open spec fn enc_nodes(s: Seq<NodeItem>) -> Seq<u8>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { enc_nodes(s.drop_last()) + enc_node(s.last()) } }
pub proof fn lemma_enc_node(n: NodeItem, a: Seq<u8>, z: Seq<u8>)
    ensures enc_node(n).len() == 40, dec_node(a + enc_node(n) + z, a.len() as int) == n,
{
    broadcast use bytes::group_bytes;
    let d = a + enc_node(n) + z; let p = a.len() as int;
    assert(d.subrange(p, p + 8) =~= encf(n.min_x));
    assert(d.subrange(p + 8, p + 16) =~= encf(n.min_y));
    assert(d.subrange(p + 16, p + 24) =~= encf(n.max_x));
    assert(d.subrange(p + 24, p + 32) =~= encf(n.max_y));
    assert(d.subrange(p + 32, p + 40) =~= enc64(n.offset));
}
/// P03: the bytes of a list of nodes read back as that list
pub proof fn lemma_enc_nodes(s: Seq<NodeItem>, a: Seq<u8>, z: Seq<u8>)
    ensures enc_nodes(s).len() == 40 * s.len(), nodes_of(a + enc_nodes(s) + z, a.len() as int, s.len() as int) == s,
    decreases s.len(),
{
    let d = a + enc_nodes(s) + z;
    if s.len() > 0 {
        let f = s.drop_last(); let x = s.last(); let z2 = enc_node(x) + z; let a2 = a + enc_nodes(f);
        lemma_enc_nodes(f, a, z2); lemma_enc_node(x, a2, z);
        assert(d =~= a + enc_nodes(f) + z2);
        assert(d =~= a2 + enc_node(x) + z);
        let r = nodes_of(d, a.len() as int, s.len() as int); let r0 = nodes_of(d, a.len() as int, f.len() as int);
        assert forall|j: int| 0 <= j < s.len() implies r[j] == s[j] by { if j < f.len() { assert(r0[j] == f[j]); } }
        assert(r =~= s);
    } else { assert(nodes_of(d, a.len() as int, 0) =~= s); }
}
/// the bytes of d from p on hold the nodes of a tree over n items
#[verifier::opaque]
pub open spec fn stored_tree(d: Seq<u8>, p: int, n: int, b: int) -> bool {
    &&& 2 <= b <= 65535 && 1 <= n <= BOUND() && 0 <= p && p + 40 * total(n, b) <= d.len() && d.len() <= 0x7000_0000_0000_0000
    &&& forall|lb: Seq<Range<usize>>| #[trigger] levels_ok(lb, n, b) ==> tree_ok(nodes_of(d, p, total(n, b)), lb, n, b)
}
pub open spec fn stored_pre(d: Seq<u8>, p: int, n: int, b: int, q: Query) -> bool {
    forall|lb: Seq<Range<usize>>| #[trigger] levels_ok(lb, n, b) ==> query_pre(nodes_of(d, p, total(n, b)), lb, q)
}
/// the answer to a query over the nodes stored at p
pub open spec fn stored_answer(d: Seq<u8>, p: int, n: int, b: int, q: Query, res: Seq<SearchResultItem>) -> bool {
    exists|lb: Seq<Range<usize>>| #[trigger] levels_ok(lb, n, b) && answer(nodes_of(d, p, total(n, b)), lb, n, q, res)
}
proof fn lemma_stored(d: Seq<u8>, p: int, n: int, b: int)
    requires stored_tree(d, p, n, b),
    ensures 2 <= b <= 65535, 1 <= n <= BOUND(), 0 <= p, p + 40 * total(n, b) <= d.len() <= 0x7000_0000_0000_0000, total(n, b) >= 1, nodes_of(d, p, total(n, b)).len() == total(n, b),
{ reveal(stored_tree); lemma_upper(n, b); }
proof fn lemma_stored_at(d: Seq<u8>, p: int, lb: Seq<Range<usize>>, n: int, b: int)
    requires stored_tree(d, p, n, b), levels_ok(lb, n, b),
    ensures tree_ok(nodes_of(d, p, total(n, b)), lb, n, b),
{ reveal(stored_tree); }

%%fn packed_rtree/mod.rs "impl NodeItem" from_reader
%%ret r
%%sig `from_reader(mut rdr: impl Read)` => `from_reader<R: Read>(rdr: &mut R)`
%%sub `read_f64::<LittleEndian>` => `read_f64`
%%sub `read_u64::<LittleEndian>` => `read_u64`
%%spec
    ensures final(rdr).data() == old(rdr).data(), 0 <= old(rdr).pos() && old(rdr).pos() + 40 <= old(rdr).data().len() ==> r is Ok,
        r is Ok ==> r->Ok_0 == dec_node(old(rdr).data(), old(rdr).pos()) && final(rdr).pos() == old(rdr).pos() + 40,
%%done
%%fn packed_rtree/mod.rs "impl NodeItem" from_bytes
%%ret r
%%spec
    requires raw@.len() >= 40,
    ensures r is Ok, r->Ok_0 == dec_node(raw@, 0),
%%done
proof fn lemma_part(d: Seq<u8>, p: int, k: int, from: int, to: int)
    requires 0 <= from <= to <= k,
    ensures nodes_of(d, p + 40 * from, to - from) == nodes_of(d, p, k).subrange(from, to),
{ assert(nodes_of(d, p + 40 * from, to - from) =~= nodes_of(d, p, k).subrange(from, to)); }
