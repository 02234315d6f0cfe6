// ---- the file: header, indexes, features one after the other
pub open spec fn le32(b: Seq<u8>) -> int { b[0] + 256 * b[1] + 65536 * b[2] + 16777216 * b[3] }
// ---- FlatBuffers accessors (generated code, assumed): what the verifier accepts and the fields read here
pub uninterp spec fn feature_valid(b: Seq<u8>) -> bool;
pub uninterp spec fn header_valid(b: Seq<u8>) -> bool;
pub uninterp spec fn hdr_count(b: Seq<u8>) -> u64;
pub struct CityFeature {}
#[verifier::external_body]
pub fn size_prefixed_root_as_city_feature(b: &Vec<u8>) -> (r: Result<CityFeature, Error>)
    ensures r is Ok <==> feature_valid(b@),
{ unimplemented!() }
pub struct Header { pub src: Ghost<Seq<u8>> }
#[verifier::external_body]
pub fn size_prefixed_root_as_header(b: &Vec<u8>) -> (r: Result<Header, Error>)
    ensures r is Ok <==> header_valid(b@), r is Ok ==> r->Ok_0.src@ == b@,
{ unimplemented!() }
impl Header {
    #[verifier::external_body]
    pub fn features_count(&self) -> (r: u64) ensures r == hdr_count(self.src@) { unimplemented!() }
}
%%item reader/city_buffer.rs pub struct FcbBuffer
impl FcbBuffer {
    #[verifier::external_body]
    pub fn header(&self) -> (r: Header) ensures r.src@ == self.header_buf@ { unimplemented!() }
}
// ---- the feature section: size-prefixed features one after the other
pub open spec fn start(d: Seq<u8>, base: int, i: int) -> int
    decreases i,
{
    if i <= 0 { base } else { let p = start(d, base, i - 1); p + 4 + le32(d.subrange(p, p + 4)) }
}
pub open spec fn feat(d: Seq<u8>, base: int, i: int) -> Seq<u8> { d.subrange(start(d, base, i), start(d, base, i + 1)) }
#[verifier::opaque]
pub open spec fn features_ok(d: Seq<u8>, base: int, n: int) -> bool {
    &&& 0 <= base && 0 <= n && d.len() < 0x1000_0000_0000_0000
    &&& start(d, base, n) == d.len()
    &&& forall|i: int| 0 <= i < n ==> base <= #[trigger] start(d, base, i) && start(d, base, i) + 4 < start(d, base, i + 1) <= d.len() && feature_valid(feat(d, base, i))
}
pub proof fn lemma_start_mono(d: Seq<u8>, base: int, n: int, i: int, j: int)
    requires features_ok(d, base, n), 0 <= i < j <= n,
    ensures start(d, base, i) + 4 < start(d, base, j),
    decreases j - i,
{
    reveal(features_ok);
    assert(start(d, base, i) + 4 < start(d, base, i + 1));
    if i + 1 < j { lemma_start_mono(d, base, n, i + 1, j); }
}
pub proof fn lemma_start_ge(d: Seq<u8>, base: int, n: int, i: int)
    requires features_ok(d, base, n), 0 <= i <= n,
    ensures base + i <= start(d, base, i) <= d.len(),
    decreases i,
{
    reveal(features_ok);
    if i > 0 { lemma_start_ge(d, base, n, i - 1); assert(start(d, base, i - 1) + 4 < start(d, base, i - 1 + 1)); }
}
pub proof fn lemma_start_lt(d: Seq<u8>, base: int, n: int, i: int, j: int)
    requires features_ok(d, base, n), 0 <= i <= n, 0 <= j <= n, start(d, base, i) < start(d, base, j),
    ensures i < j,
{
    if i > j { lemma_start_mono(d, base, n, j, i); }
}

pub uninterp spec fn rtree_size(n: int, node_size: int) -> int;
pub uninterp spec fn hdr_node_size(b: Seq<u8>) -> u16;
// ---- the attribute indexes listed in the header
#[derive(Clone, Copy)] pub struct AttributeIndex { pub i: u16, pub l: u32, pub b: u16, pub n: u32 }
impl AttributeIndex {
    pub fn index(&self) -> (r: u16) ensures r == self.i { self.i }
    pub fn length(&self) -> (r: u32) ensures r == self.l { self.l }
    pub fn branching_factor(&self) -> (r: u16) ensures r == self.b { self.b }
    pub fn num_unique_items(&self) -> (r: u32) ensures r == self.n { self.n }
}
#[verifier::external_body] pub struct AttrVec { x: u8 }
impl AttrVec {
    pub uninterp spec fn view(&self) -> Seq<AttributeIndex>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: &AttributeIndex) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
}
pub uninterp spec fn hdr_attrs(b: Seq<u8>) -> Option<Seq<AttributeIndex>>;
/// length of the first k attribute indexes
pub open spec fn lens(a: Seq<AttributeIndex>, k: int) -> int decreases k { if k <= 0 { 0 } else { lens(a, k - 1) + a[k - 1].l } }
pub proof fn lemma_lens(a: Seq<AttributeIndex>, i: int, j: int)
    requires 0 <= i <= j <= a.len(),
    ensures 0 <= lens(a, i) <= lens(a, j) <= 0x1_0000_0000 * j,
    decreases j
{ if i < j { lemma_lens(a, i, j - 1); } else if j > 0 { lemma_lens(a, j - 1, j - 1); } }
pub open spec fn hdr_attr_size(b: Seq<u8>) -> int { match hdr_attrs(b) { Some(a) => lens(a, a.len() as int), None => 0 } }
impl Header { #[verifier::external_body] pub fn attribute_index(&self) -> (r: Option<AttrVec>) ensures (match r { Some(v) => Some(v@), None => None }) == hdr_attrs(self.src@) { unimplemented!() } }
impl Header {
    #[verifier::external_body]
    pub fn index_node_size(&self) -> (r: u16) ensures r == hdr_node_size(self.src@) { unimplemented!() }
}
pub struct PackedRTree {}
pub struct Query {}
impl PackedRTree {
    /// proved in the unit rtree: the announced size is total(n, node_size) * 40
    #[verifier::external_body]
    pub fn index_size(n: usize, node_size: u16) -> (r: usize) ensures r == rtree_size(n as int, node_size as int) { unimplemented!() }
}
pub open spec fn rtree_len(h: Seq<u8>) -> int { if hdr_node_size(h) > 0 && hdr_count(h) > 0 { rtree_size(hdr_count(h) as int, hdr_node_size(h) as int) } else { 0 } }
/// where the features of a file with this header start
pub open spec fn feat_base(h: Seq<u8>) -> int { 8 + h.len() + rtree_len(h) + hdr_attr_size(h) }
/// a whole file: header read, features behind the indexes
pub open spec fn file_ok(d: Seq<u8>, h: Seq<u8>) -> bool {
    &&& features_ok(d, feat_base(h), hdr_count(h) as int) && feat_base(h) <= d.len() < 0x1000_0000_0000_0000
    &&& rtree_len(h) >= 0 && h.len() < 0x1_0000_0000 && hdr_attr_size(h) <= u32::MAX
}
/// offset stored in leaf i of the index that starts behind the header, and whether its box answers the query
pub uninterp spec fn leaf_offset(d: Seq<u8>, at: int, n: int, ns: int, i: int) -> int;
pub uninterp spec fn leaf_matches(d: Seq<u8>, at: int, n: int, ns: int, i: int, q: Query) -> bool;
/// the index lists the features in file order with their offsets (what the writer does)
pub open spec fn index_ok(d: Seq<u8>, h: Seq<u8>) -> bool {
    let n = hdr_count(h) as int; let ns = hdr_node_size(h) as int; let at = 8 + h.len() as int;
    forall|i: int| 0 <= i < n ==> #[trigger] leaf_offset(d, at, n, ns, i) == start(d, feat_base(h), i) - feat_base(h)
}
pub proof fn lemma_file(d: Seq<u8>, h: Seq<u8>)
    requires file_ok(d, h),
    ensures rtree_len(h) + hdr_attr_size(h) < 0x1000_0000_0000_0000, rtree_len(h) >= 0, 0 <= hdr_attr_size(h) <= u32::MAX,
        8 + h.len() + rtree_len(h) + hdr_attr_size(h) <= d.len(),
{ if hdr_attrs(h) is Some { lemma_lens(hdr_attrs(h)->0, 0, hdr_attrs(h)->0.len() as int); } }
%%item const_vars.rs pub const VERSION
%%item const_vars.rs pub const HEADER_MAX_BUFFER_SIZE
pub open spec fn magic_ok(b: Seq<u8>) -> bool {
    &&& b.len() >= 7 && b[0] == 0x66 && b[1] == 0x63 && b[2] == 0x62 && b[4] == 0x66 && b[5] == 0x63 && b[6] == 0x62
    &&& b[3] <= VERSION
}
%%fn lib.rs - check_magic_bytes
%%ret r
%%sub `bytes[0..3] == MAGIC_BYTES[0..3]` => `eq_range(bytes, 0, 3)`
%%sub `bytes[4..7] == MAGIC_BYTES[4..7]` => `eq_range(bytes, 4, 7)`
%%spec
    ensures r == magic_ok(bytes@),
%%start
    proof {
        let b = bytes@; let m = magic_seq();
        assert(m.len() == 8 && m[0] == 0x66 && m[1] == 0x63 && m[2] == 0x62 && m[4] == 0x66 && m[5] == 0x63 && m[6] == 0x62);
        if b.len() >= 7 {
            assert(b.subrange(0, 3) == m.subrange(0, 3) <==> b[0] == m[0] && b[1] == m[1] && b[2] == m[2]) by {
                if b.subrange(0, 3) == m.subrange(0, 3) { assert(b.subrange(0, 3)[0] == b[0] && b.subrange(0, 3)[1] == b[1] && b.subrange(0, 3)[2] == b[2]); assert(m.subrange(0, 3)[0] == m[0] && m.subrange(0, 3)[1] == m[1] && m.subrange(0, 3)[2] == m[2]); }
                if b[0] == m[0] && b[1] == m[1] && b[2] == m[2] { assert(b.subrange(0, 3) =~= m.subrange(0, 3)); }
            }
            assert(b.subrange(4, 7) == m.subrange(4, 7) <==> b[4] == m[4] && b[5] == m[5] && b[6] == m[6]) by {
                if b.subrange(4, 7) == m.subrange(4, 7) { assert(b.subrange(4, 7)[0] == b[4] && b.subrange(4, 7)[1] == b[5] && b.subrange(4, 7)[2] == b[6]); assert(m.subrange(4, 7)[0] == m[4] && m.subrange(4, 7)[1] == m[5] && m.subrange(4, 7)[2] == m[6]); }
                if b[4] == m[4] && b[5] == m[5] && b[6] == m[6] { assert(b.subrange(4, 7) =~= m.subrange(4, 7)); }
            }
        }
    }
%%done
/// bytes[a..b] == MAGIC_BYTES[a..b]
#[verifier::external_body]
pub fn eq_range(bytes: &[u8], a: usize, b: usize) -> (r: bool)
    requires a <= b <= bytes@.len(), b <= 8,
    ensures r == (bytes@.subrange(a as int, b as int) == magic_seq().subrange(a as int, b as int)),
{ unimplemented!() }
%%item const_vars.rs pub const MAGIC_BYTES
pub open spec fn magic_seq() -> Seq<u8> { MAGIC_BYTES@ }
