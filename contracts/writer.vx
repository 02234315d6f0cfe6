// unit writer: from features to the bytes of a file (P14, P15, P16)
use vstd::prelude::*;
%%include omap.vx
verus! {
global size_of usize == 8;
%%include fops.vx
%%include fb.vx
%%include strs.vx
%%include hmap.vx
%%include json.vx
%%include schema.vx
pub enum Error { AttributeIndexNotFound, UnsupportedColumnType(String), Other }
%%include windex.vx
%%include featsec.vx
// ---- tables and their bytes (FlatBuffers, assumed)
pub ghost struct FeatR { pub x: int }
#[verifier::external_body] pub struct CityFeature_ { x: u8 }
impl WIPOffset<CityFeature_> { pub uninterp spec fn view(&self) -> FeatR; }
/// the table holds the feature (unit feat)
pub uninterp spec fn feat_in(f: CityJSONFeature, s: SM, sem: Option<SM>, t: FeatR) -> bool;
/// the box around the feature's vertices, in their stored integers (unit feat)
pub uninterp spec fn box_of(v: Seq<Vec<i64>>, n: NodeItem) -> bool;
/// the bytes of a finished size-prefixed buffer with this root
pub uninterp spec fn bytes_of<T>(root: WIPOffset<T>) -> Seq<u8>;
/// the table a feature's bytes hold
pub uninterp spec fn feat_at(b: Seq<u8>) -> FeatR;
pub open spec fn sized(b: Seq<u8>) -> bool { 4 < b.len() < 0x1_0000_0004 && le32(b.subrange(0, 4)) + 4 == b.len() }
pub broadcast axiom fn axiom_sized<T>(root: WIPOffset<T>) ensures sized(#[trigger] bytes_of(root));
pub broadcast axiom fn axiom_feature(root: WIPOffset<CityFeature_>) ensures feature_valid(#[trigger] bytes_of(root)), feat_at(bytes_of(root)) == root@;
pub ghost enum BState { Clean, Done(Seq<u8>) }
#[verifier::external_body] pub struct Builder { x: u8 }
impl Builder {
    pub uninterp spec fn st(&self) -> BState;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.st() == BState::Clean { unimplemented!() }
    #[verifier::external_body] pub fn finish_size_prefixed<T>(&mut self, root: WIPOffset<T>, id: Option<&str>) requires old(self).st() == BState::Clean ensures final(self).st() == BState::Done(bytes_of(root)) { unimplemented!() }
    /// finished_data().to_vec()
    #[verifier::external_body] pub fn finished_vec(&self) -> (r: Vec<u8>) requires self.st() is Done ensures r@ == self.st()->Done_0 { unimplemented!() }
    #[verifier::external_body] pub fn reset(&mut self) ensures final(self).st() == BState::Clean { unimplemented!() }
}
pub open spec fn osm(o: Option<&AttributeSchema>) -> Option<SM> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn ossm(o: Option<AttributeSchema>) -> Option<SM> { match o { Some(s) => Some(s@), None => None } }
#[verifier::external_body] pub fn to_fcb_city_feature(fbb: &mut Builder, id: &str, city_feature: &CityJSONFeature, attr_schema: &AttributeSchema, semantic_attr_schema: Option<&AttributeSchema>) -> (r: (WIPOffset<CityFeature_>, NodeItem))
    requires id@ == city_feature.id@, old(fbb).st() == BState::Clean,
    ensures final(fbb).st() == BState::Clean, feat_in(*city_feature, attr_schema@, osm(semantic_attr_schema), r.0@), box_of(city_feature.vertices@, r.1),
{ unimplemented!() }
#[verifier::external_body] pub fn clone_schema(s: &AttributeSchema) -> (r: AttributeSchema) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn clone_semantic(s: &Option<AttributeSchema>) -> (r: Option<AttributeSchema>) ensures ossm(r) == ossm(*s) { unimplemented!() }
%%pubitem packed_rtree/mod.rs pub struct NodeItem
%%fn packed_rtree/mod.rs "impl NodeItem" bounds
%%ret r
%%spec
    ensures r == (NodeItem { min_x, min_y, max_x, max_y, offset: 0 }),
%%done
%%fn packed_rtree/mod.rs "impl NodeItem" new
%%ret r
%%spec
    ensures r == (NodeItem { min_x, min_y, max_x, max_y, offset: 0 }),
%%done
impl NodeItem { #[verifier::external_body] pub fn create(offset: u64) -> (r: NodeItem) { unimplemented!() } }
// ---- one feature
%%pubitem writer/feature_writer.rs pub struct FeatureWriter
%%isub `pub(super)` => `pub`
%%isub `flatbuffers::FlatBufferBuilder<'a>` => `Builder`
pub open spec fn onames(o: Option<Vec<String>>) -> Option<Seq<Seq<char>>> { match o { Some(v) => Some(names_view(v@)), None => None } }
/// what is kept of a feature: its bytes, its index entries, its box
pub ghost struct FeatG { pub bytes: Seq<u8>, pub ents: Seq<EntG>, pub node: NodeItem }
pub open spec fn ents_in(f: CityJSONFeature, s: SM, names: Option<Seq<Seq<char>>>, es: Seq<EntG>) -> bool { match names { Some(n) => feature_entries(f, s, n, es), None => es.len() == 0 } }
pub open spec fn holds_feature(b: Seq<u8>, f: CityJSONFeature, s: SM, sem: Option<SM>) -> bool { sized(b) && feature_valid(b) && feat_in(f, s, sem, feat_at(b)) }
impl<'a> FeatureWriter<'a> {
    pub open spec fn same_setup(self, o: Self) -> bool { self.attr_schema == o.attr_schema && self.semantic_attr_schema == o.semantic_attr_schema && self.attr_indices == o.attr_indices }
    pub open spec fn clean(self) -> bool { self.fbb.st() == BState::Clean }
}
%%fn writer/feature_writer.rs "impl<'a> FeatureWriter<'a>" new
%%ret r
%%sub `flatbuffers::FlatBufferBuilder::new()` => `Builder::new()`
%%spec
    ensures r.clean(), r.city_feature == city_feature, r.attr_schema == attr_schema, r.semantic_attr_schema == semantic_attr_schema, r.attr_indices == attr_indices,
%%done
%%fn writer/feature_writer.rs "impl<'a> FeatureWriter<'a>" add_feature
%%spec
    ensures final(self).city_feature == feature, final(self).same_setup(*old(self)), old(self).clean() ==> final(self).clean(),
%%done
%%fn writer/feature_writer.rs "impl<'a> FeatureWriter<'a>" extract_indexable_attributes
%%spec
    ensures final(self).city_feature == old(self).city_feature, final(self).same_setup(*old(self)), final(self).fbb == old(self).fbb, final(self).bbox == old(self).bbox,
        if old(self).attr_indices is Some { feature_entries(*old(self).city_feature, old(self).attr_schema@, names_view(old(self).attr_indices->0@), egs(final(self).attribute_feature_offsets.index_entries@)) } else { final(self).attribute_feature_offsets == old(self).attribute_feature_offsets },
%%done
%%fn writer/feature_writer.rs "impl<'a> FeatureWriter<'a>" reset_bbox
%%spec
    ensures final(self).city_feature == old(self).city_feature, final(self).same_setup(*old(self)), final(self).fbb == old(self).fbb, final(self).attribute_feature_offsets == old(self).attribute_feature_offsets,
%%done
%%fn writer/feature_writer.rs "impl<'a> FeatureWriter<'a>" reset_attribute_feature_offsets
%%spec
    ensures final(self).city_feature == old(self).city_feature, final(self).same_setup(*old(self)), final(self).fbb == old(self).fbb, final(self).bbox == old(self).bbox,
        final(self).attribute_feature_offsets.index_entries@.len() == 0,
%%done
%%fn writer/feature_writer.rs "impl<'a> FeatureWriter<'a>" finish_to_feature
%%ret r
%%sub `self.fbb.finished_data().to_vec()` => `self.fbb.finished_vec()`
%%spec
    requires old(self).clean(),
    ensures final(self).city_feature == old(self).city_feature, final(self).same_setup(*old(self)), final(self).clean(),
        holds_feature(r@, *old(self).city_feature, old(self).attr_schema@, ossm(old(self).semantic_attr_schema)),
        box_of(old(self).city_feature.vertices@, final(self).bbox),
        ents_in(*old(self).city_feature, old(self).attr_schema@, onames(old(self).attr_indices), egs(final(self).attribute_feature_offsets.index_entries@)),
%%start
    proof { broadcast use axiom_sized, axiom_feature; }
%%done
// ---- the header
pub struct CjTransform { pub scale: Vec<f64>, pub translate: Vec<f64> }
#[verifier::external_body] pub struct CityJSONRest { x: u8 }
pub struct CityJSON { pub transform: CjTransform, pub rest: CityJSONRest }
#[verifier::external_body] pub fn clone_transform(t: &CjTransform) -> (r: CjTransform) ensures r.scale@ == t.scale@, r.translate@ == t.translate@ { unimplemented!() }
%%pubitem writer/header_writer.rs pub struct HeaderWriterOptions
%%pubitem writer/header_writer.rs pub struct HeaderWriter
%%isub `pub(super)` => `pub`
%%isub `FlatBufferBuilder<'a>` => `Builder`
%%isub `HeaderWriter<'a>` => `HeaderWriter`
#[verifier::external_body] pub struct HeaderT { x: u8 }
pub ghost struct HdrG { pub count: u64, pub node_size: u16, pub attrs: Option<Seq<AttributeIndex>>, pub rest: int }
impl WIPOffset<HeaderT> { pub uninterp spec fn view(&self) -> HdrG; }
pub broadcast axiom fn axiom_header(root: WIPOffset<HeaderT>) ensures header_valid(#[trigger] bytes_of(root)), hdr_count(bytes_of(root)) == root@.count, hdr_node_size(bytes_of(root)) == root@.node_size, hdr_attrs(bytes_of(root)) == root@.attrs;
pub open spec fn info(i: AttributeIndexInfo) -> AttributeIndex { AttributeIndex { i: i.index, l: i.length, b: i.branching_factor, n: i.num_unique_items } }
pub open spec fn infos(s: Seq<AttributeIndexInfo>) -> Seq<AttributeIndex> { s.map_values(|i: AttributeIndexInfo| info(i)) }
/// what unit header proves of to_fcb_header: the count, the node size and the list of indexes are taken over (extensions need the network)
#[verifier::external_body] pub fn to_fcb_header(fbb: &mut Builder, cj: &CityJSON, header_options: HeaderWriterOptions, attr_schema: &AttributeSchema, semantic_attr_schema: Option<&AttributeSchema>, attribute_indices_info: Option<&Vec<AttributeIndexInfo>>) -> (r: Result<WIPOffset<HeaderT>, Error>)
    requires old(fbb).st() == BState::Clean,
    ensures final(fbb).st() == BState::Clean, r is Ok ==> (r->Ok_0)@.count == header_options.feature_count && (r->Ok_0)@.node_size == header_options.index_node_size
        && (r->Ok_0)@.attrs == (match attribute_indices_info { Some(v) => Some(infos(v@)), None => None }),
{ unimplemented!() }
/// as_ref().filter(|info| !info.is_empty()).map(|info| info.as_slice())
pub trait Filled<T> { spec fn some(&self) -> Option<Seq<T>>; fn filled(&self) -> (r: Option<&Vec<T>>) ensures match r { Some(v) => self.some() == Some(v@) && v@.len() > 0, None => self.some() is None || self.some()->0.len() == 0 }; }
impl<T> Filled<T> for Option<Vec<T>> {
    open spec fn some(&self) -> Option<Seq<T>> { match self { Some(v) => Some(v@), None => None } }
    fn filled(&self) -> (r: Option<&Vec<T>>) { match self { Some(v) => if v.len() > 0 { Some(v) } else { None }, None => None } }
}
impl PackedRTree { pub const DEFAULT_NODE_SIZE: u16 = 16; }
impl HeaderWriter { pub open spec fn clean(self) -> bool { self.fbb.st() == BState::Clean } }
%%fn writer/header_writer.rs "impl<'a> HeaderWriter<'a>" new_with_options
%%ret r
%%impl impl HeaderWriter
%%sig `HeaderWriter<'a>` => `HeaderWriter`
%%mutparam options
%%sub `FlatBufferBuilder::new()` => `Builder::new()`
%%spec
    ensures r.clean(), r.cj == cj, r.attr_schema == attr_schema, r.semantic_attr_schema == semantic_attr_schema, r.attribute_indices_info is None,
        r.header_options == (HeaderWriterOptions { index_node_size: r.header_options.index_node_size, ..options }), r.header_options.index_node_size == 0 || r.header_options.index_node_size >= 2,
        options.write_index <==> r.header_options.index_node_size > 0,
%%done
/// the header's bytes say how many features there are, how the spatial index is built, and list the attribute indexes
pub open spec fn header_ok(h: Seq<u8>, o: HeaderWriterOptions, a: Option<Seq<AttributeIndexInfo>>) -> bool {
    sized(h) && header_valid(h) && hdr_count(h) == o.feature_count && hdr_node_size(h) == o.index_node_size && hdr_attrs(h) == (if a is Some && a->0.len() > 0 { Some(infos(a->0)) } else { None })
}
%%fn writer/header_writer.rs "impl<'a> HeaderWriter<'a>" finish_to_header
%%ret r
%%impl impl HeaderWriter
%%mutparam self
%%sig `Result<Vec<u8>>` => `Result<Vec<u8>, Error>`
%%sub `.as_ref() .filter(|info| !info.is_empty()) .map(|info| info.as_slice())` => `.filled()`
%%sub `self.fbb.finished_data().to_vec()` => `self.fbb.finished_vec()`
%%spec
    requires self.clean(),
    ensures r is Ok ==> header_ok((r->Ok_0)@, self.header_options, self.attribute_indices_info.some()),
%%start
    proof { broadcast use axiom_sized, axiom_header; }
%%done
// ---- the writer's state: features kept in a temporary file until the end
%%pubitem writer/mod.rs struct FeatureOffset
%%fn writer/header_writer.rs "impl<'a> HeaderWriter<'a>" new
%%ret r
%%impl impl HeaderWriter
%%sig `HeaderWriter<'a>` => `HeaderWriter`
%%sub `header_options.unwrap_or_default()` => `options_or_default(header_options)`
%%spec
    ensures r.clean(), r.cj == cj, r.attr_schema == attr_schema, r.semantic_attr_schema == semantic_attr_schema, r.attribute_indices_info is None,
        r.header_options.attribute_indices == (match header_options { Some(o) => o.attribute_indices, None => None }), r.header_options.geographical_extent == (match header_options { Some(o) => o.geographical_extent, None => None }),
        r.header_options.index_node_size == 0 || r.header_options.index_node_size >= 2, (match header_options { Some(o) => o.write_index, None => true }) <==> r.header_options.index_node_size > 0,
%%done
/// what HeaderWriterOptions::default() says, when no options are given
%%fn writer/header_writer.rs "impl Default for HeaderWriterOptions" default
%%ret r
%%impl impl HeaderWriterOptions
%%spec
    ensures r.write_index, r.attribute_indices is None, r.geographical_extent is None,
%%done
pub fn options_or_default(o: Option<HeaderWriterOptions>) -> (r: HeaderWriterOptions)
    ensures match o { Some(x) => r == x, None => r.write_index && r.attribute_indices is None && r.geographical_extent is None }
{ match o { Some(x) => x, None => HeaderWriterOptions::default() } }
#[verifier::external_body] pub struct Tmp { x: u8 }
impl Tmp {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn create() -> (r: Result<Tmp, Error>) ensures r is Ok ==> (r->Ok_0)@.len() == 0 { unimplemented!() }
    /// appends (nothing else has moved the position)
    #[verifier::external_body] pub fn write_all(&mut self, b: &Vec<u8>) -> (r: Result<(), Error>) ensures r is Ok ==> final(self)@ == old(self)@ + b@ { unimplemented!() }
}
impl Tmp {
    #[verifier::external_body] pub fn rewind(&mut self) -> (r: Result<(), Error>) ensures final(self)@ == old(self)@ { unimplemented!() }
    /// into_inner().map_err(..): the file behind it, everything written
    #[verifier::external_body] pub fn into_inner(self) -> (r: Result<TmpFile, Error>) ensures r is Ok ==> (r->Ok_0)@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub struct TmpFile { x: u8 }
impl TmpFile { pub uninterp spec fn view(&self) -> Seq<u8>; }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
#[verifier::external_body] pub struct TmpReader { x: u8 }
impl TmpReader {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body] pub fn new(f: TmpFile) -> (r: TmpReader) ensures r.data() == f@ { unimplemented!() }
    #[verifier::external_body] pub fn seek(&mut self, p: SeekFrom) -> (r: Result<u64, Error>) ensures final(self).data() == old(self).data(), r is Ok && p is Start ==> final(self).pos() == p->Start_0 { unimplemented!() }
    /// read_exact(&mut v[from..])
    #[verifier::external_body] pub fn read_exact_from(&mut self, v: &mut Vec<u8>, from: usize) -> (r: Result<(), Error>)
        requires from <= old(v)@.len(),
        ensures final(self).data() == old(self).data(), final(v)@.len() == old(v)@.len(), r is Ok ==> old(self).pos() + old(v)@.len() - from <= old(self).data().len() && final(v)@ == old(v)@.take(from as int) + old(self).data().subrange(old(self).pos(), old(self).pos() + old(v)@.len() - from) { unimplemented!() }
}
/// where the file goes
#[verifier::external_body] pub struct Out { x: u8 }
impl Out {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), Error>) ensures r is Ok ==> final(self)@ == old(self)@ + b@ { unimplemented!() }
}
%%pubitem writer/mod.rs pub struct FcbWriter
%%isub `BufWriter<File>` => `Tmp`
%%isub `HeaderWriter<'a>` => `HeaderWriter`
%%isub `HashMap<usize, AttributeFeatureOffset>` => `UMap<AttributeFeatureOffset>`
pub type Indices = Seq<(String, Option<u16>)>;
pub open spec fn index_names(o: Option<Vec<(String, Option<u16>)>>) -> Option<Seq<Seq<char>>> { match o { Some(v) => Some(v@.map_values(|x: (String, Option<u16>)| x.0@)), None => None } }
pub trait Names { spec fn nv(&self) -> Option<Seq<Seq<char>>>; fn names_(&self) -> (r: Option<Vec<String>>) ensures onames(r) == self.nv(); }
impl Names for Option<Vec<(String, Option<u16>)>> {
    open spec fn nv(&self) -> Option<Seq<Seq<char>>> { index_names(*self) }
    /// as_ref().map(|a| a.iter().map(|(name, _)| name.clone()).collect())
    #[verifier::external_body] fn names_(&self) -> (r: Option<Vec<String>>) { unimplemented!() }
}
pub open spec fn no_off(n: NodeItem) -> NodeItem { NodeItem { offset: 0, ..n } }
impl<'a> FcbWriter<'a> {
    pub open spec fn n(self) -> int { self.feat_offsets@.len() as int }
    pub open spec fn feat_g(self, i: int) -> FeatG {
        let o = self.feat_offsets@[i];
        FeatG { bytes: self.tmpout@.subrange(o.offset as int, o.offset + o.size), ents: egs(self.attribute_index_entries@[i as usize].index_entries@), node: no_off(self.feat_nodes@[i]) }
    }
    /// the features added so far
    pub open spec fn feats(self) -> Seq<FeatG> { Seq::new(self.n() as nat, |i: int| self.feat_g(i)) }
    pub open spec fn end_of(self, i: int) -> int { if i <= 0 { 0 } else { self.feat_offsets@[i - 1].offset + self.feat_offsets@[i - 1].size } }
    pub open spec fn slot_ok(self, i: int) -> bool {
        let o = self.feat_offsets@[i];
        &&& o.temp_feature_id == i && self.feat_nodes@[i].offset == i && o.offset == self.end_of(i) && o.offset + o.size <= self.tmpout@.len() && sized(self.feat_g(i).bytes)
        &&& self.attribute_index_entries@.contains_key(i as usize)
    }
    pub open spec fn w_ok(self) -> bool {
        &&& self.feat_nodes@.len() == self.n() && self.end_of(self.n()) == self.tmpout@.len()
        &&& forall|i: int| 0 <= i < self.n() ==> #[trigger] self.slot_ok(i)
        &&& forall|k: usize| #[trigger] self.attribute_index_entries@.contains_key(k) ==> k < self.n()
        &&& self.transform.scale@.len() == 3 && self.transform.translate@.len() == 3
        &&& self.header_writer.clean()
        &&& self.feat_writer is Some ==> self.feat_writer->0.clean() && self.fw_same()
    }
    /// the feature writer works with the writer's own schemas and names
    pub open spec fn fw_same(self) -> bool { let f = self.feat_writer->0; f.attr_schema@ == self.attr_schema@ && ossm(f.semantic_attr_schema) == ossm(self.semantic_attr_schema) && onames(f.attr_indices) == self.names() }
    pub open spec fn names(self) -> Option<Seq<Seq<char>>> { index_names(self.header_writer.header_options.attribute_indices) }
    pub open spec fn same_setup(self, o: Self) -> bool { self.header_writer == o.header_writer && self.transform == o.transform && self.attr_schema == o.attr_schema && self.semantic_attr_schema == o.semantic_attr_schema }
    /// what is kept of a feature holds its contents, its index entries and its box
    pub open spec fn kept(self, g: FeatG, f: CityJSONFeature) -> bool {
        &&& holds_feature(g.bytes, f, self.attr_schema@, ossm(self.semantic_attr_schema))
        &&& ents_in(f, self.attr_schema@, self.names(), g.ents)
        &&& exists|b: NodeItem| #[trigger] box_of(f.vertices@, b) && g.node == placed(self.transform, b)
    }
}
/// the box in the coordinates of the data: stored integers scaled and moved
pub open spec fn placed(t: CjTransform, b: NodeItem) -> NodeItem {
    NodeItem { min_x: fadd(fmul(b.min_x, t.scale@[0]), t.translate@[0]), min_y: fadd(fmul(b.min_y, t.scale@[1]), t.translate@[1]), max_x: fadd(fmul(b.max_x, t.scale@[0]), t.translate@[0]), max_y: fadd(fmul(b.max_y, t.scale@[1]), t.translate@[1]), offset: 0 }
}
#[verifier::external_body] pub fn clone_offsets(s: &AttributeFeatureOffset) -> (r: AttributeFeatureOffset) ensures r.offset == s.offset, r.size == s.size, egs(r.index_entries@) == egs(s.index_entries@) { unimplemented!() }
/// a change of the feature writer alone keeps the features
proof fn lemma_same<'a>(a: FcbWriter<'a>, b: FcbWriter<'a>)
    requires a.w_ok(), b == (FcbWriter { feat_writer: b.feat_writer, ..a }), b.feat_writer is Some ==> b.feat_writer->0.clean() && b.fw_same(),
    ensures b.w_ok(), b.feats() == a.feats(),
{
    assert forall|i: int| 0 <= i < b.n() implies #[trigger] b.slot_ok(i) by { assert(a.slot_ok(i)); }
    assert(b.feats() =~= a.feats());
}
/// one more feature
proof fn lemma_added<'a>(a: FcbWriter<'a>, b: FcbWriter<'a>, x: Seq<u8>, e: AttributeFeatureOffset, nd: NodeItem)
    requires a.w_ok(), a.n() < 0x0400_0000_0000_0000, sized(x), b.same_setup(a), b.tmpout@ == a.tmpout@ + x, b.feat_nodes@ == a.feat_nodes@.push(nd), nd.offset == a.n(), b.attribute_index_entries@ == a.attribute_index_entries@.insert(a.n() as usize, e),
        b.feat_offsets@ == a.feat_offsets@.push(FeatureOffset { temp_feature_id: a.n() as usize, offset: a.tmpout@.len() as usize, size: x.len() as usize }), a.tmpout@.len() < 0x0400_0000_0000_0000, b.feat_writer is Some ==> b.feat_writer->0.clean() && b.fw_same(),
    ensures b.w_ok(), b.feats().len() == a.n() + 1, b.feats().drop_last() == a.feats(), b.feats().last() == (FeatG { bytes: x, ents: egs(e.index_entries@), node: no_off(nd) }),
{
    let n = a.n();
    assert(x =~= b.tmpout@.subrange(a.tmpout@.len() as int, b.tmpout@.len() as int));
    assert(x.len() < 0x1_0000_0004);
    assert forall|i: int| 0 <= i < b.n() implies #[trigger] b.slot_ok(i) by {
        if i < n { assert(a.slot_ok(i)); assert(b.feat_g(i).bytes =~= a.feat_g(i).bytes); }
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] b.feat_g(i) == a.feat_g(i) by { assert(a.slot_ok(i)); assert(b.feat_g(i).bytes =~= a.feat_g(i).bytes); }
    assert(b.feats().drop_last() =~= a.feats());
    assert(b.feats().last() == b.feat_g(n));
    assert(b.feat_g(n).bytes =~= x);
}
%%fn writer/mod.rs "impl<'a> FcbWriter<'a>" new
%%ret r
%%sig `Result<Self>` => `Result<Self, Error>`
%%sub `attr_schema.unwrap_or_default()` => `schema_or_empty(attr_schema)`
%%sub `cj.transform.clone()` => `clone_transform(&cj.transform)`
%%sub `semantic_attr_schema.clone(),` => `clone_semantic(&semantic_attr_schema),`
%%sub `attr_schema.clone(),`=> `clone_schema(&attr_schema),`
%%sub `BufWriter::new(tempfile::tempfile()?)` => `Tmp::create()?`
%%sub `HashMap::new()` => `UMap::new()`
%%spec
    requires cj.transform.scale@.len() == 3, cj.transform.translate@.len() == 3,
    ensures r is Ok ==> (r->Ok_0).w_ok() && (r->Ok_0).feats() == Seq::<FeatG>::empty() && (r->Ok_0).transform.scale@ == cj.transform.scale@ && (r->Ok_0).transform.translate@ == cj.transform.translate@
        && (r->Ok_0).attr_schema@ == (match attr_schema { Some(s) => s@, None => Map::empty() }) && ossm((r->Ok_0).semantic_attr_schema) == ossm(semantic_attr_schema)
        && (r->Ok_0).header_writer.cj == cj && (r->Ok_0).header_writer.header_options.attribute_indices == (match header_option { Some(o) => o.attribute_indices, None => None })
        && ((match header_option { Some(o) => o.write_index, None => true }) <==> (r->Ok_0).header_writer.header_options.index_node_size > 0) && ((r->Ok_0).header_writer.header_options.index_node_size == 0 || (r->Ok_0).header_writer.header_options.index_node_size >= 2),
%%done
#[verifier::external_body] pub fn schema_or_empty(o: Option<AttributeSchema>) -> (r: AttributeSchema) ensures r@ == (match o { Some(s) => s@, None => Map::empty() }) { unimplemented!() }
%%fn writer/mod.rs "impl<'a> FcbWriter<'a>" actual_bbox
%%ret r
%%spec
    requires transform.scale@.len() == 3, transform.translate@.len() == 3,
    ensures r == placed(*transform, *bbox),
%%start
    broadcast use fops::group_fops;
%%done
%%fn writer/mod.rs "impl<'a> FcbWriter<'a>" write_feature
%%ret r
%%sig `Result<()>` => `Result<(), Error>`
%%sub `feat_writer.attribute_feature_offsets.clone()` => `clone_offsets(&feat_writer.attribute_feature_offsets)`
%%sub `self .feat_offsets .last() .map(|it|` => `match self.feat_offsets.last() { Some(it) =>`
%%sub `) .unwrap_or(0);` => `, None => 0 };`
%%spec
    requires old(self).w_ok(), old(self).feat_writer is Some, old(self).tmpout@.len() < 0x0400_0000_0000_0000, old(self).n() < 0x0400_0000_0000_0000,
    ensures r is Ok ==> final(self).w_ok() && final(self).same_setup(*old(self)) && final(self).feat_writer is Some && final(self).feats().len() == old(self).n() + 1 && final(self).feats().drop_last() == old(self).feats() && final(self).kept(final(self).feats().last(), *old(self).feat_writer->0.city_feature),
%%start
    let ghost w0 = *self; let ghost n0 = self.n(); let ghost f0 = *self.feat_writer->0.city_feature; let ghost fw0 = self.feat_writer->0;
%%after `self.tmpout.write_all(&feat_buf)?;`
    proof { let k = n0 as usize; assert(self.attribute_index_entries@ =~= w0.attribute_index_entries@.insert(k, self.attribute_index_entries@[k])); lemma_added(w0, *self, feat_buf@, self.attribute_index_entries@[k], self.feat_nodes@[n0]); assert(no_off(self.feat_nodes@[n0]) == placed(self.transform, self.feat_writer->0.bbox)); }
%%done
%%fn writer/mod.rs "impl<'a> FcbWriter<'a>" add_feature
%%ret r
%%sig `Result<()>` => `Result<(), Error>`
%%sub `self.attr_schema.clone()` => `clone_schema(&self.attr_schema)`
%%sub `self.semantic_attr_schema.clone()` => `clone_semantic(&self.semantic_attr_schema)`
%%sub `.as_ref() .map(|a| a.iter().map(|(name, _)| name.clone()).collect())` => `.names_()`
%%spec
    requires old(self).w_ok(), old(self).tmpout@.len() < 0x0400_0000_0000_0000, old(self).n() < 0x0400_0000_0000_0000,
    ensures r is Ok ==> final(self).w_ok() && final(self).same_setup(*old(self)) && final(self).feats().len() == old(self).n() + 1 && final(self).feats().drop_last() == old(self).feats() && final(self).kept(final(self).feats().last(), *feature),
%%start
    let ghost w0 = *self;
%%pre `if let Some(feat_writer) = &mut self.feat_writer` 0
    let ghost w1 = *self;
    proof { lemma_same(w0, w1); }
%%pre `self.write_feature()?` 0
    proof { lemma_same(w1, *self); }
%%done
// ---- writing the file
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool { p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j] }
/// n in all, in the order p: the first k features one after the other
pub open spec fn body(fs: Seq<FeatG>, p: Seq<int>, k: int) -> Seq<u8>
    decreases k
{ if k <= 0 { Seq::empty() } else { body(fs, p, k - 1) + fs[p[k - 1]].bytes } }
/// the leaves of the spatial index: the boxes in file order, each with where its feature is
pub open spec fn leaf(fs: Seq<FeatG>, p: Seq<int>, k: int) -> NodeItem { NodeItem { offset: body(fs, p, k).len() as u64, ..fs[p[k]].node } }
pub open spec fn leaves(fs: Seq<FeatG>, p: Seq<int>) -> Seq<NodeItem> { Seq::new(p.len(), |k: int| leaf(fs, p, k)) }
/// no coordinate is a NaN (a matter of the box alone)
pub uninterp spec fn fine_box(a: f64, b: f64, c: f64, d: f64) -> bool;
pub open spec fn fine(n: NodeItem) -> bool { fine_box(n.min_x, n.min_y, n.max_x, n.max_y) }
/// the bytes of a packed R-tree over these leaves (units rtree, rstream)
pub uninterp spec fn rt_bytes(x: Seq<NodeItem>, ns: int) -> Seq<u8>;
#[verifier::external_body] pub struct RTree { x: u8 }
impl RTree {
    pub uninterp spec fn over(&self) -> Seq<NodeItem>;
    pub uninterp spec fn ns(&self) -> int;
    #[verifier::external_body] pub fn build(nodes: &Vec<NodeItem>, extent: &NodeItem, node_size: u16) -> (r: Result<RTree, Error>)
        requires node_size >= 2, 1 <= nodes@.len() <= 0x0100_0000_0000_0000, forall|i: int| 0 <= i < nodes@.len() ==> fine(#[trigger] nodes@[i])
        ensures r is Ok, (r->Ok_0).over() == nodes@, (r->Ok_0).ns() == node_size { unimplemented!() }
    #[verifier::external_body] pub fn stream_write(&self, out: &mut Vec<u8>) -> (r: Result<(), Error>) ensures r is Ok ==> final(out)@ == old(out)@ + rt_bytes(self.over(), self.ns()) { unimplemented!() }
}
#[verifier::external_body] pub fn calc_extent(nodes: &Vec<NodeItem>) -> (r: NodeItem) { unimplemented!() }
pub open spec fn permuted<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool { is_perm(p, a.len() as int) && b.len() == a.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]] }
/// a sort: the items, in another order
#[verifier::external_body] pub fn hilbert_sort(items: &mut Vec<NodeItem>, extent: &NodeItem) ensures exists|p: Seq<int>| #[trigger] permuted(old(items)@, final(items)@, p) { unimplemented!() }
#[verifier::external_body] pub fn clone_node(n: &NodeItem) -> (r: NodeItem) ensures r == *n { unimplemented!() }
pub trait CloneIndices: Sized { fn clone_(&self) -> (r: Self) ensures r.iv() == self.iv(); spec fn iv(&self) -> Option<Seq<ReqG>>; }
/// a requested index: column and branching factor
pub ghost struct ReqG { pub name: Seq<char>, pub b: Option<u16> }
pub open spec fn req(x: (String, Option<u16>)) -> ReqG { ReqG { name: x.0@, b: x.1 } }
pub open spec fn reqs(v: Seq<(String, Option<u16>)>) -> Seq<ReqG> { v.map_values(|x: (String, Option<u16>)| req(x)) }
impl CloneIndices for Option<Vec<(String, Option<u16>)>> {
    open spec fn iv(&self) -> Option<Seq<ReqG>> { match self { Some(v) => Some(reqs(v@)), None => None } }
    #[verifier::external_body] fn clone_(&self) -> (r: Self) { unimplemented!() }
}
pub open spec fn sort_key(s: SM, name: Seq<char>) -> u16 { if s.contains_key(name) { s[name].0 } else { u16::MAX } }
/// sort_by_key with a closure that computes g
#[verifier::external_body] pub fn sort_by_key_<F: Fn(&(String, Option<u16>)) -> u16>(v: &mut Vec<(String, Option<u16>)>, g: Ghost<spec_fn((String, Option<u16>)) -> u16>, f: F)
    requires forall|x: &(String, Option<u16>)| #[trigger] f.requires((x,)), forall|x: &(String, Option<u16>), k: u16| #[trigger] f.ensures((x,), k) ==> k == g@(*x),
    ensures exists|p: Seq<int>| #[trigger] permuted(old(v)@, final(v)@, p), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> g@(#[trigger] final(v)@[i]) <= g@(#[trigger] final(v)@[j]),
{ unimplemented!() }
#[verifier::external_body] pub fn extend_bytes(v: &mut Vec<u8>, b: &Vec<u8>) ensures final(v)@ == old(v)@ + b@ { unimplemented!() }
%%item static_btree/mod.rs pub const DEFAULT_BRANCHING_FACTOR
/// an index in the file
pub ghost struct IdxG { pub index: u16, pub b: u16, pub es: Seq<(KeyG, u64)> }
pub open spec fn idx_of(x: IdxG) -> Seq<u8> { idx_bytes(x.es, x.b as int) }
pub open spec fn attr_bytes(xs: Seq<IdxG>, k: int) -> Seq<u8>
    decreases k
{ if k <= 0 { Seq::empty() } else { attr_bytes(xs, k - 1) + idx_of(xs[k - 1]) } }
pub open spec fn described(x: IdxG, i: AttributeIndexInfo) -> bool { i.index == x.index && i.branching_factor == x.b && i.length == idx_of(x).len() as u32 && i.num_unique_items == idx_keys(x.es) as u32 }
pub open spec fn all_described(xs: Seq<IdxG>, i: Seq<AttributeIndexInfo>) -> bool { i.len() == xs.len() && forall|k: int| 0 <= k < xs.len() ==> described(#[trigger] xs[k], i[k]) }
/// x is the index that r asks for
pub open spec fn index_for(x: IdxG, m: EMap, s: SM, r: ReqG) -> bool {
    s.contains_key(r.name) && x.index == s[r.name].0 && x.b == (match r.b { Some(b) => b, None => DEFAULT_BRANCHING_FACTOR }) && x.es.len() > 0 && index_pairs(m, s[r.name].0, s[r.name].1, x.es)
}
pub open spec fn asked(rq: Seq<ReqG>, i: int, x: IdxG, m: EMap, s: SM) -> bool { exists|r: int| 0 <= r < i && index_for(x, m, s, #[trigger] rq[r]) }
pub open spec fn answered(xs: Seq<IdxG>, r: ReqG, m: EMap, s: SM) -> bool { s.contains_key(r.name) ==> index_pairs(m, s[r.name].0, s[r.name].1, Seq::empty()) || exists|k: int| 0 <= k < xs.len() && index_for(#[trigger] xs[k], m, s, r) }
/// the first i requests have been dealt with: an index for each, unless it would be empty; in the order of the columns
pub open spec fn attr_done(xs: Seq<IdxG>, m: EMap, s: SM, rq: Seq<ReqG>, i: int) -> bool {
    &&& forall|k: int| 0 <= k < xs.len() ==> asked(rq, i, #[trigger] xs[k], m, s)
    &&& forall|r: int| 0 <= r < i ==> answered(xs, #[trigger] rq[r], m, s)
    &&& forall|k: int, l: int| 0 <= k < l < xs.len() ==> (#[trigger] xs[k]).index < (#[trigger] xs[l]).index
}
pub open spec fn distinct_names(rq: Seq<ReqG>) -> bool { forall|i: int, j: int| 0 <= i < j < rq.len() ==> (#[trigger] rq[i]).name != (#[trigger] rq[j]).name }
pub open spec fn in_order(rq: Seq<ReqG>, s: SM) -> bool { forall|i: int, j: int| 0 <= i < j < rq.len() ==> sort_key(s, (#[trigger] rq[i]).name) <= sort_key(s, (#[trigger] rq[j]).name) }
pub open spec fn injective(s: SM) -> bool { forall|k: Seq<char>, l: Seq<char>| #[trigger] s.contains_key(k) && #[trigger] s.contains_key(l) && k != l ==> s[k].0 != s[l].0 }
proof fn lemma_attr_skip(xs: Seq<IdxG>, m: EMap, s: SM, rq: Seq<ReqG>, i: int)
    requires attr_done(xs, m, s, rq, i), 0 <= i < rq.len(), answered(xs, rq[i], m, s),
    ensures attr_done(xs, m, s, rq, i + 1),
{
    assert forall|k: int| 0 <= k < xs.len() implies asked(rq, i + 1, #[trigger] xs[k], m, s) by { assert(asked(rq, i, xs[k], m, s)); }
}
proof fn lemma_attr_push(xs: Seq<IdxG>, x: IdxG, m: EMap, s: SM, rq: Seq<ReqG>, i: int)
    requires attr_done(xs, m, s, rq, i), 0 <= i < rq.len(), index_for(x, m, s, rq[i]), in_order(rq, s), distinct_names(rq), injective(s),
    ensures attr_done(xs.push(x), m, s, rq, i + 1),
{
    let ys = xs.push(x);
    assert forall|k: int| 0 <= k < ys.len() implies asked(rq, i + 1, #[trigger] ys[k], m, s) by {
        if k < xs.len() { assert(ys[k] == xs[k]); assert(asked(rq, i, xs[k], m, s)); } else { assert(index_for(x, m, s, rq[i])); }
    }
    assert forall|r: int| 0 <= r < i + 1 implies answered(ys, #[trigger] rq[r], m, s) by {
        if r < i {
            assert(answered(xs, rq[r], m, s));
            if s.contains_key(rq[r].name) && !index_pairs(m, s[rq[r].name].0, s[rq[r].name].1, Seq::empty()) { let k = choose|k: int| 0 <= k < xs.len() && index_for(#[trigger] xs[k], m, s, rq[r]); assert(ys[k] == xs[k]); }
        } else { assert(ys[xs.len() as int] == x); }
    }
    assert forall|k: int, l: int| 0 <= k < l < ys.len() implies (#[trigger] ys[k]).index < (#[trigger] ys[l]).index by {
        if l == xs.len() {
            assert(ys[k] == xs[k]); assert(asked(rq, i, xs[k], m, s));
            let r = choose|r: int| 0 <= r < i && index_for(xs[k], m, s, #[trigger] rq[r]);
            assert(rq[r].name != rq[i].name && sort_key(s, rq[r].name) <= sort_key(s, rq[i].name));
        } else { assert(ys[k] == xs[k] && ys[l] == xs[l]); }
    }
}
proof fn lemma_attr_bytes(xs: Seq<IdxG>, x: IdxG, k: int)
    requires 0 <= k <= xs.len(),
    ensures attr_bytes(xs.push(x), k) == attr_bytes(xs, k),
    decreases k
{ if k > 0 { lemma_attr_bytes(xs, x, k - 1); assert(xs.push(x)[k - 1] == xs[k - 1]); } }
/// the entries of the features, with the offsets they have in the file
pub open spec fn moved(m: EMap, fs: Seq<FeatG>, p: Seq<int>, k: int) -> bool {
    &&& forall|u: usize| #[trigger] m.contains_key(u) <==> u < fs.len()
    &&& forall|u: usize| u < fs.len() ==> egs((#[trigger] m[u]).index_entries@) == fs[u as int].ents
    &&& forall|j: int| 0 <= j < k ==> m[(#[trigger] p[j]) as usize].offset == body(fs, p, j).len()
}
pub ghost struct PartsG { pub h: Seq<u8>, pub p: Seq<int>, pub m: EMap, pub xs: Seq<IdxG>, pub rq: Seq<ReqG>, pub infos: Seq<AttributeIndexInfo> }
/// a file: magic bytes, header, spatial index, attribute indexes, features
pub open spec fn written(x: Seq<u8>, fs: Seq<FeatG>, ns: u16, s: SM, g: PartsG) -> bool {
    let n = fs.len() as int;
    &&& is_perm(g.p, n) && moved(g.m, fs, g.p, n) && attr_done(g.xs, g.m, s, g.rq, g.rq.len() as int) && all_described(g.xs, g.infos)
    &&& sized(g.h) && header_valid(g.h) && hdr_count(g.h) == n && hdr_node_size(g.h) == ns && hdr_attrs(g.h) == (if g.infos.len() > 0 { Some(infos(g.infos)) } else { None })
    &&& x == magic_seq() + g.h + (if ns > 0 && n > 0 { rt_bytes(leaves(fs, g.p), ns as int) } else { Seq::empty() }) + attr_bytes(g.xs, g.xs.len() as int) + body(fs, g.p, n)
}
/// the same requests, in another order
pub open spec fn same_reqs(o: Option<Seq<ReqG>>, rq: Seq<ReqG>) -> bool { match o { Some(r) => exists|q: Seq<int>| #[trigger] permuted(r, rq, q), None => rq.len() == 0 } }
proof fn lemma_reqs_sorted(a: Seq<(String, Option<u16>)>, b: Seq<(String, Option<u16>)>, q: Seq<int>)
    requires permuted(a, b, q), distinct_names(reqs(a)),
    ensures permuted(reqs(a), reqs(b), q), distinct_names(reqs(b)),
{
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] reqs(b)[i]).name != (#[trigger] reqs(b)[j]).name by { assert(q[i] != q[j]); assert(b[i] == a[q[i]] && b[j] == a[q[j]]); if q[i] < q[j] { assert(reqs(a)[q[i]].name != reqs(a)[q[j]].name); } else { assert(reqs(a)[q[j]].name != reqs(a)[q[i]].name); } }
}
pub open spec fn total_size(fs: Seq<FeatG>, k: int) -> int decreases k { if k <= 0 { 0 } else { total_size(fs, k - 1) + fs[k - 1].bytes.len() } }
pub open spec fn psum(f: Seq<int>, p: Seq<int>) -> int
    decreases p.len()
{ if p.len() == 0 { 0 } else { psum(f, p.drop_last()) + f[p.last()] } }
proof fn lemma_psum_remove(f: Seq<int>, p: Seq<int>, j: int)
    requires 0 <= j < p.len(),
    ensures psum(f, p) == psum(f, p.remove(j)) + f[p[j]],
    decreases p.len()
{
    if j < p.len() - 1 {
        lemma_psum_remove(f, p.drop_last(), j);
        assert(p.remove(j).drop_last() =~= p.drop_last().remove(j));
        assert(p.remove(j).last() == p.last());
    } else { assert(p.remove(j) =~= p.drop_last()); }
}
pub open spec fn sum(f: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { sum(f, n - 1) + f[n - 1] } }
/// distinct indices add up to no more than all of them
proof fn lemma_psum(f: Seq<int>, p: Seq<int>, n: int)
    requires 0 <= n <= f.len(), forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < n, forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j], forall|i: int| 0 <= i < n ==> 0 <= #[trigger] f[i],
    ensures 0 <= psum(f, p) <= sum(f, n),
    decreases n
{
    if n == 0 { if p.len() > 0 { assert(0 <= p[0] < 0); } }
    else if exists|j: int| 0 <= j < p.len() && #[trigger] p[j] == n - 1 {
        let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == n - 1;
        lemma_psum_remove(f, p, j);
        let q = p.remove(j);
        assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < n - 1 by { if i < j { assert(q[i] == p[i]); } else { assert(q[i] == p[i + 1]); } }
        assert forall|a: int, b: int| 0 <= a < b < q.len() implies #[trigger] q[a] != #[trigger] q[b] by { let x = if a < j { a } else { a + 1 }; let y = if b < j { b } else { b + 1 }; assert(q[a] == p[x] && q[b] == p[y]); }
        lemma_psum(f, q, n - 1);
    } else { lemma_psum(f, p, n - 1); }
}
pub open spec fn sizes(fs: Seq<FeatG>) -> Seq<int> { fs.map_values(|g: FeatG| g.bytes.len() as int) }
proof fn lemma_body_len(fs: Seq<FeatG>, p: Seq<int>, k: int)
    requires is_perm(p, fs.len() as int), 0 <= k <= p.len(),
    ensures body(fs, p, k).len() == psum(sizes(fs), p.take(k)),
    decreases k
{ if k > 0 { lemma_body_len(fs, p, k - 1); assert(p.take(k).drop_last() =~= p.take(k - 1)); assert(p.take(k).last() == p[k - 1]); } else { assert(p.take(k) =~= Seq::<int>::empty()); } }
proof fn lemma_sum_end<'a>(w: FcbWriter<'a>, k: int)
    requires w.w_ok(), 0 <= k <= w.n(),
    ensures sum(sizes(w.feats()), k) == w.end_of(k),
    decreases k
{ if k > 0 { lemma_sum_end(w, k - 1); assert(w.slot_ok(k - 1)); assert(w.feats()[k - 1] == w.feat_g(k - 1)); assert(sizes(w.feats())[k - 1] == w.feat_offsets@[k - 1].size); } }
/// whatever has been written of the features fits in what was kept of them
proof fn lemma_body_fits<'a>(w: FcbWriter<'a>, p: Seq<int>, k: int)
    requires w.w_ok(), is_perm(p, w.n()), 0 <= k <= w.n(),
    ensures body(w.feats(), p, k).len() <= w.tmpout@.len(),
{
    let f = sizes(w.feats()); let q = p.take(k);
    lemma_body_len(w.feats(), p, k); lemma_sum_end(w, w.n());
    assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < w.n() by { assert(q[i] == p[i]); }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] q[i] != #[trigger] q[j] by { assert(q[i] == p[i] && q[j] == p[j]); }
    lemma_psum(f, q, w.n());
}
/// what write starts from, and the order it has chosen
pub open spec fn sorted_from<'a>(w: FcbWriter<'a>, nodes: Seq<NodeItem>, p: Seq<int>) -> bool { w.w_ok() && permuted(w.feat_nodes@, nodes, p) }
proof fn lemma_leaf<'a>(w: FcbWriter<'a>, nodes: Seq<NodeItem>, p: Seq<int>, k: int)
    requires sorted_from(w, nodes, p), 0 <= k < w.n(),
    ensures 0 <= p[k] < w.n(), nodes[k].offset == p[k], w.slot_ok(p[k]), w.feats()[p[k]] == w.feat_g(p[k]), no_off(nodes[k]) == w.feats()[p[k]].node,
        body(w.feats(), p, k).len() + w.feat_offsets@[p[k]].size == body(w.feats(), p, k + 1).len() <= w.tmpout@.len(), body(w.feats(), p, k + 1) == body(w.feats(), p, k) + w.feats()[p[k]].bytes,
        w.feats()[p[k]].bytes.len() == w.feat_offsets@[p[k]].size,
{
    assert(nodes[k] == w.feat_nodes@[p[k]]); assert(w.slot_ok(p[k])); lemma_body_fits(w, p, k + 1);
}
proof fn lemma_moved_start<'a>(w: FcbWriter<'a>, p: Seq<int>)
    requires w.w_ok(), w.n() <= 0x0100_0000_0000_0000,
    ensures moved(w.attribute_index_entries@, w.feats(), p, 0),
{
    let m = w.attribute_index_entries@;
    assert forall|u: usize| u < w.n() implies egs((#[trigger] m[u]).index_entries@) == w.feats()[u as int].ents by { assert(w.slot_ok(u as int)); }
    assert forall|u: usize| #[trigger] m.contains_key(u) <==> u < w.n() by { if u < w.n() { assert(w.slot_ok(u as int)); } }
}
proof fn lemma_moved_step(m: EMap, m2: EMap, fs: Seq<FeatG>, p: Seq<int>, k: int, e: AttributeFeatureOffset)
    requires moved(m, fs, p, k), is_perm(p, fs.len() as int), 0 <= k < fs.len() <= u64::MAX, m2 == m.insert(p[k] as usize, e), e.index_entries == m[p[k] as usize].index_entries, e.offset == body(fs, p, k).len(),
    ensures moved(m2, fs, p, k + 1),
{
    assert(0 <= p[k] < fs.len());
    assert forall|u: usize| u < fs.len() implies egs((#[trigger] m2[u]).index_entries@) == fs[u as int].ents by { if u != p[k] { assert(m2[u] == m[u]); } else { assert(m.contains_key(u)); } }
    assert forall|j: int| 0 <= j < k + 1 implies m2[(#[trigger] p[j]) as usize].offset == body(fs, p, j).len() by { if j < k { assert(p[j] != p[k]); assert(0 <= p[j] < fs.len()); assert(p[j] as usize != p[k] as usize); } }
}
%%fn writer/mod.rs "impl<'a> FcbWriter<'a>" write
%%attr #[verifier::rlimit(60)]
%%mutparam self
%%sig `mut out: impl Write` => `out: &mut Out`
%%sig `Result<()>` => `Result<(), Error>`
%%ret r
%%loops 3
%%sub `.attribute_indices.clone()` => `.attribute_indices.clone_()`
%%sub `if let Some(ref mut indices) = attr_indices {` => `if let Some(indices) = &mut attr_indices {`
%%sub `indices.sort_by_key(|(name, _)| {` => `sort_by_key_(indices, Ghost(|x: (String, Option<u16>)| sort_key(self.attr_schema@, x.0@)), |x_: &(String, Option<u16>)| -> (k: u16) ensures k == sort_key(self.attr_schema@, x_.0@) { let name = &x_.0;`
%%sub `self .attr_schema .get(name) .map(|(idx, _)|` => `match self.attr_schema.get(name.as_str()) { Some((idx, _)) =>`
%%sub `) .unwrap_or(u16::MAX)` => `, None => u16::MAX }`
%%sub `let index_nodes = self .feat_nodes .iter() .map(|temp_node| {` => `let mut index_nodes: Vec<NodeItem> = Vec::new(); let mut _k: usize = 0; while _k < self.feat_nodes.len() { let temp_node = &self.feat_nodes[_k]; _k += 1;`
%%sub `node }) .collect::<Vec<_>>();` => `index_nodes.push(node); }`
%%sub `temp_node.clone()` => `clone_node(temp_node)`
%%sub `PackedRTree::build(` => `RTree::build(`
%%sub `.into_inner().map_err(|e| e.into_error())?` => `.into_inner()?`
%%sub `BufReader::new(` => `TmpReader::new(`
%%sub `Vec::with_capacity(2048)` => `Vec::<u8>::new()`
%%sub `for node in &self.feat_nodes {` => `let mut _f: usize = 0; while _f < self.feat_nodes.len() { let node = &self.feat_nodes[_f]; _f += 1;`
%%sub `if let Ok((buf, info)) = build_attribute_index_for_attr(` => `let r_ = build_attribute_index_for_attr(`
%%sub `bf, ) {` => `bf, ); let ghost rg_ = r_; if let Ok((buf, info)) = r_ {`
%%sub `.read_exact(&mut sorted_feature_buf[cur_len..])` => `.read_exact_from(&mut sorted_feature_buf, cur_len)`
%%sub `for (name, bf_opt) in sorted_indices {` => `let mut _a: usize = 0; while _a < sorted_indices.len() { let name = &sorted_indices[_a].0; let bf_opt = &sorted_indices[_a].1; _a += 1;`
%%sub `crate::static_btree::DEFAULT_BRANCHING_FACTOR` => `DEFAULT_BRANCHING_FACTOR`
%%sub `attr_index_buf.extend(&buf)` => `extend_bytes(&mut attr_index_buf, &buf)`
%%spec
    requires self.w_ok(), self.n() <= 0x0100_0000_0000_0000, self.tmpout@.len() < 0x0400_0000_0000_0000, forall|i: int| 0 <= i < self.n() ==> fine((#[trigger] self.feats()[i]).node), injective(self.attr_schema@),
        self.header_writer.header_options.index_node_size == 0 || self.header_writer.header_options.index_node_size >= 2,
        match self.header_writer.header_options.attribute_indices.iv() { Some(q) => distinct_names(q) && forall|i: int| 0 <= i < q.len() ==> (match (#[trigger] q[i]).b { Some(b) => b >= 2, None => true }), None => true },
    ensures r is Ok ==> exists|g: PartsG, x: Seq<u8>| final(out)@ == old(out)@ + x && #[trigger] written(x, self.feats(), self.header_writer.header_options.index_node_size, self.attr_schema@, g) && same_reqs(self.header_writer.header_options.attribute_indices.iv(), g.rq),
%%start
    let ghost w0 = self; let ghost fs = self.feats(); let ghost n = self.n(); let ghost o0 = out@; let ghost ns = self.header_writer.header_options.index_node_size; let ghost s = self.attr_schema@;
    let ghost mut p: Seq<int> = Seq::new(n as nat, |i: int| i); let ghost mut xs: Seq<IdxG> = Seq::empty();
    proof { assert(permuted(w0.feat_nodes@, w0.feat_nodes@, p)); }
%%pre `if let Some(indices) = &mut attr_indices` 0
    let ghost ai0 = attr_indices;
%%after `out.write_all(&MAGIC_BYTES)?;`
    let ghost rq = if attr_indices is Some { reqs(attr_indices->0@) } else { Seq::empty() };
    proof { assert(out@ =~= o0 + magic_seq()); 
        if attr_indices is Some {
            let a = ai0->0@; let b = attr_indices->0@;
            let q = choose|q: Seq<int>| #[trigger] permuted(a, b, q);
            lemma_reqs_sorted(a, b, q);
            assert(in_order(rq, s));
            assert forall|i: int| 0 <= i < rq.len() implies (match (#[trigger] rq[i]).b { Some(b) => b >= 2, None => true }) by { assert(rq[i] == reqs(a)[q[i]]); }
        }
    }
%%after `hilbert_sort(&mut this.feat_nodes, &extent);`
    proof { p = choose|q: Seq<int>| #[trigger] permuted(w0.feat_nodes@, this.feat_nodes@, q); assert(permuted(w0.feat_nodes@, this.feat_nodes@, p)); }
%%loop 0
    invariant 0 <= _k <= n, this.feat_nodes@.len() == n, n == w0.n(), fs == w0.feats(), this.feat_offsets == w0.feat_offsets, sorted_from(w0, this.feat_nodes@, p), index_nodes@.len() == _k, forall|j: int| 0 <= j < _k ==> #[trigger] index_nodes@[j] == leaf(fs, p, j), offset == body(fs, p, _k as int).len(), w0.tmpout@.len() < 0x0400_0000_0000_0000,
    decreases n - _k
%%loopstart 0
    proof { lemma_leaf(w0, this.feat_nodes@, p, _k as int); }
%%after `tree.stream_write(&mut rtree_buf)?;`
    proof { assert(index_nodes@ =~= leaves(fs, p)); assert(Seq::<u8>::empty() + rt_bytes(leaves(fs, p), ns as int) =~= rt_bytes(leaves(fs, p), ns as int)); }
%%before 1
    proof { lemma_moved_start(w0, p); }
%%loop 1
    invariant 0 <= _f <= n, this.feat_nodes@.len() == n, n == w0.n(), fs == w0.feats(), this.feat_offsets == w0.feat_offsets, sorted_from(w0, this.feat_nodes@, p), unsorted_feature_reader.data() == w0.tmpout@, w0.tmpout@.len() < 0x0400_0000_0000_0000,
        sorted_feature_buf@ == body(fs, p, _f as int), moved(this.attribute_index_entries@, fs, p, _f as int),
    decreases n - _f
%%loopstart 1
    proof { lemma_leaf(w0, this.feat_nodes@, p, _f as int); }
    let ghost m0 = this.attribute_index_entries@; let ghost b0 = sorted_feature_buf@;
%%loopend 1
    proof {
        let q = p[_f - 1];
        lemma_moved_step(m0, this.attribute_index_entries@, fs, p, _f - 1, this.attribute_index_entries@[q as usize]);
        assert(sorted_feature_buf@ =~= b0 + fs[q].bytes);
    }
%%loop 2
    invariant 0 <= _a <= sorted_indices@.len(), rq == reqs(sorted_indices@), m == this.attribute_index_entries@, s == this.attr_schema@, attr_done(xs, m, s, rq, _a as int), all_described(xs, attr_index_info@), attr_index_buf@ == attr_bytes(xs, xs.len() as int),
        in_order(rq, s), distinct_names(rq), injective(s), forall|i: int| 0 <= i < rq.len() ==> (match (#[trigger] rq[i]).b { Some(b) => b >= 2, None => true }),
    decreases sorted_indices@.len() - _a
%%loopstart 2
    proof { assert(rq[_a as int] == req(sorted_indices@[_a as int])); }
    let ghost xs0 = xs;
%%loopend 2
    proof {
        let r = rq[_a - 1];
        if rg_ is Err { assert(answered(xs, r, m, s)); lemma_attr_skip(xs, m, s, rq, _a - 1); }
        else {
            let es = choose|es: Seq<(KeyG, u64)>| es.len() > 0 && #[trigger] index_pairs(m, s[r.name].0, s[r.name].1, es) && built(rg_->Ok_0, s[r.name].0, es, bf);
            let x = IdxG { index: s[r.name].0, b: bf, es };
            assert(index_for(x, m, s, r));
            lemma_attr_push(xs0, x, m, s, rq, _a - 1); lemma_attr_bytes(xs0, x, xs0.len() as int);
            xs = xs0.push(x);
        }
    }
%%before 2
    let ghost m = this.attribute_index_entries@;
    proof { assert(attr_bytes(xs, 0) =~= attr_index_buf@); }
%%after `out.write_all(&sorted_feature_buf)?;`
    proof {
        let g = PartsG { h: header_buf@, p, m: this.attribute_index_entries@, xs, rq, infos: this.header_writer.attribute_indices_info->0@ };
        let x = magic_seq() + g.h + rtree_buf@ + attr_index_buf@ + sorted_feature_buf@;
        assert(out@ =~= o0 + x);
        if ns > 0 && n > 0 { assert(rtree_buf@ =~= rt_bytes(leaves(fs, p), ns as int)); }
        assert(written(x, fs, ns, s, g));
        assert(same_reqs(w0.header_writer.header_options.attribute_indices.iv(), g.rq));
    }
%%done
// ---- what a reader finds in a file that was written
/// proved in unit rstream (p03_stored): the bytes of the tree are those its announced size says, and its leaves read back wherever it lies
pub axiom fn axiom_rt(xs: Seq<NodeItem>, ns: int, a: Seq<u8>, z: Seq<u8>)
    requires 1 <= xs.len() <= 0x0100_0000_0000_0000, ns >= 2,
    ensures rt_bytes(xs, ns).len() == rtree_size(xs.len() as int, ns), forall|i: int| 0 <= i < xs.len() ==> #[trigger] leaf_offset(a + rt_bytes(xs, ns) + z, a.len() as int, xs.len() as int, ns, i) == xs[i].offset;
proof fn lemma_body_mono(fs: Seq<FeatG>, p: Seq<int>, i: int, j: int)
    requires 0 <= i <= j,
    ensures body(fs, p, i).len() <= body(fs, p, j).len(), body(fs, p, j).take(body(fs, p, i).len() as int) == body(fs, p, i),
    decreases j - i
{
    if i < j {
        lemma_body_mono(fs, p, i, j - 1);
        assert(body(fs, p, j).take(body(fs, p, i).len() as int) =~= body(fs, p, j - 1).take(body(fs, p, i).len() as int));
    } else { assert(body(fs, p, i).take(body(fs, p, i).len() as int) =~= body(fs, p, i)); }
}
/// the features of the file, found one behind the other, are the features given, in the order p
proof fn lemma_starts(x: Seq<u8>, base: int, fs: Seq<FeatG>, p: Seq<int>, i: int)
    requires is_perm(p, fs.len() as int), 0 <= base, x.len() == base + body(fs, p, fs.len() as int).len(), x.subrange(base, x.len() as int) == body(fs, p, fs.len() as int), 0 <= i <= fs.len(), forall|j: int| 0 <= j < fs.len() ==> sized((#[trigger] fs[j]).bytes),
    ensures start(x, base, i) == base + body(fs, p, i).len(), i > 0 ==> feat(x, base, i - 1) == fs[p[i - 1]].bytes,
    decreases i
{
    if i > 0 {
        let n = fs.len() as int;
        lemma_starts(x, base, fs, p, i - 1);
        lemma_body_mono(fs, p, i - 1, n); lemma_body_mono(fs, p, i, n);
        let b = fs[p[i - 1]].bytes; let q = start(x, base, i - 1); let all = body(fs, p, n);
        assert(sized(b));
        let l = body(fs, p, i).len() as int;
        assert(x.subrange(q, base + l) =~= b) by {
            assert forall|t: int| 0 <= t < b.len() implies x[q + t] == b[t] by {
                assert(x[q + t] == x.subrange(base, x.len() as int)[q - base + t]);
                assert(all[q - base + t] == all.take(l)[q - base + t]);
                assert(body(fs, p, i)[q - base + t] == b[t]);
            }
        }
        assert(x.subrange(q, q + 4) =~= b.subrange(0, 4)) by { assert forall|t: int| 0 <= t < 4 implies x[q + t] == b[t] by { assert(x.subrange(q, base + l)[t] == b[t]); } }
    }
}
proof fn lemma_attr_lens(xs: Seq<IdxG>, is: Seq<AttributeIndexInfo>, k: int)
    requires all_described(xs, is), 0 <= k <= xs.len(), attr_bytes(xs, xs.len() as int).len() <= u32::MAX,
    ensures lens(infos(is), k) == attr_bytes(xs, k).len() <= attr_bytes(xs, xs.len() as int).len(), attr_bytes(xs, xs.len() as int).take(attr_bytes(xs, k).len() as int) == attr_bytes(xs, k),
    decreases xs.len() - k, k
{
    lemma_attr_take(xs, k, xs.len() as int);
    if k > 0 {
        lemma_attr_lens_(xs, is, k);
    }
}
proof fn lemma_attr_take(xs: Seq<IdxG>, i: int, j: int)
    requires 0 <= i <= j,
    ensures attr_bytes(xs, i).len() <= attr_bytes(xs, j).len(), attr_bytes(xs, j).take(attr_bytes(xs, i).len() as int) == attr_bytes(xs, i),
    decreases j - i
{
    if i < j { lemma_attr_take(xs, i, j - 1); assert(attr_bytes(xs, j).take(attr_bytes(xs, i).len() as int) =~= attr_bytes(xs, j - 1).take(attr_bytes(xs, i).len() as int)); }
    else { assert(attr_bytes(xs, i).take(attr_bytes(xs, i).len() as int) =~= attr_bytes(xs, i)); }
}
proof fn lemma_attr_lens_(xs: Seq<IdxG>, is: Seq<AttributeIndexInfo>, k: int)
    requires all_described(xs, is), 0 <= k <= xs.len(), attr_bytes(xs, xs.len() as int).len() <= u32::MAX,
    ensures lens(infos(is), k) == attr_bytes(xs, k).len(),
    decreases k
{
    if k > 0 { lemma_attr_lens_(xs, is, k - 1); lemma_attr_take(xs, k, xs.len() as int); assert(described(xs[k - 1], is[k - 1])); assert(infos(is)[k - 1] == info(is[k - 1])); }
}
/// every pair of an index: the key of an entry of this column, with the place where the feature it comes from lies; and one for every such entry
pub open spec fn pairs_lie(x: Seq<u8>, base: int, fs: Seq<FeatG>, p: Seq<int>, index: u16, c: ColumnType, es: Seq<(KeyG, u64)>) -> bool {
    &&& forall|e: (KeyG, u64)| #[trigger] es.contains(e) ==> exists|j: int, t: int| 0 <= j < fs.len() && 0 <= t < fs[p[j]].ents.len() && wanted(#[trigger] fs[p[j]].ents[t], index, c) == Some(e.0) && start(x, base, j) == base + e.1
    &&& forall|j: int, t: int| 0 <= j < fs.len() && 0 <= t < fs[p[j]].ents.len() && wanted(#[trigger] fs[p[j]].ents[t], index, c) is Some ==> es.contains((wanted(fs[p[j]].ents[t], index, c)->0, (start(x, base, j) - base) as u64))
}
proof fn lemma_onto(p: Seq<int>, n: int, u: int)
    requires is_perm(p, n), 0 <= u < n,
    ensures exists|j: int| 0 <= j < n && #[trigger] p[j] == u,
{
    if !exists|j: int| 0 <= j < n && #[trigger] p[j] == u {
        let f = Seq::new(n as nat, |i: int| if i == u { 0int } else { 1int });
        let g = Seq::new(n as nat, |i: int| 1int);
        lemma_psum(f, p, n); lemma_ones(f, p, p.len() as int); lemma_sum_but(f, u, n);
    }
}
proof fn lemma_ones(f: Seq<int>, p: Seq<int>, k: int)
    requires 0 <= k <= p.len(), forall|i: int| 0 <= i < p.len() ==> f[#[trigger] p[i]] == 1,
    ensures psum(f, p.take(k)) == k, p.take(p.len() as int) == p,
    decreases k
{
    assert(p.take(p.len() as int) =~= p);
    if k > 0 { lemma_ones(f, p, k - 1); assert(p.take(k).drop_last() =~= p.take(k - 1)); assert(p.take(k).last() == p[k - 1]); } else { assert(p.take(k) =~= Seq::<int>::empty()); }
}
proof fn lemma_sum_but(f: Seq<int>, u: int, n: int)
    requires 0 <= n <= f.len(), forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] == (if i == u { 0int } else { 1 }), 0 <= u,
    ensures sum(f, n) == (if u < n { n - 1 } else { n }),
    decreases n
{ if n > 0 { lemma_sum_but(f, u, n - 1); } }
proof fn lemma_pairs_lie(x: Seq<u8>, base: int, fs: Seq<FeatG>, p: Seq<int>, m: EMap, index: u16, c: ColumnType, es: Seq<(KeyG, u64)>)
    requires is_perm(p, fs.len() as int), moved(m, fs, p, fs.len() as int), index_pairs(m, index, c, es), forall|j: int| 0 <= j < fs.len() ==> #[trigger] start(x, base, j) == base + body(fs, p, j).len(), fs.len() <= u64::MAX,
        forall|j: int| 0 <= j < fs.len() ==> #[trigger] body(fs, p, j).len() <= u64::MAX,
    ensures pairs_lie(x, base, fs, p, index, c, es),
{
    let n = fs.len() as int;
    assert forall|e: (KeyG, u64)| #[trigger] es.contains(e) implies exists|j: int, t: int| 0 <= j < fs.len() && 0 <= t < fs[p[j]].ents.len() && wanted(#[trigger] fs[p[j]].ents[t], index, c) == Some(e.0) && start(x, base, j) == base + e.1 by {
        let (u, t) = choose|u: usize, t: int| #[trigger] ent_at(m, u, t) && wanted(eg(m[u].index_entries@[t]), index, c) == Some(e.0) && e.1 == m[u].offset as u64;
        assert(u < n && egs(m[u].index_entries@) == fs[u as int].ents);
        lemma_onto(p, n, u as int);
        let j = choose|j: int| 0 <= j < n && #[trigger] p[j] == u as int;
        assert(m[p[j] as usize].offset == body(fs, p, j).len());
        assert(start(x, base, j) == base + body(fs, p, j).len());
        assert(egs(m[u].index_entries@)[t] == eg(m[u].index_entries@[t]));
        assert(wanted(fs[p[j]].ents[t], index, c) == Some(e.0));
    }
    assert forall|j: int, t: int| 0 <= j < fs.len() && 0 <= t < fs[p[j]].ents.len() && wanted(#[trigger] fs[p[j]].ents[t], index, c) is Some implies es.contains((wanted(fs[p[j]].ents[t], index, c)->0, (start(x, base, j) - base) as u64)) by {
        let u = p[j] as usize;
        assert(0 <= p[j] < n); assert(m.contains_key(u)); assert(egs(m[u].index_entries@) == fs[u as int].ents); assert(egs(m[u].index_entries@)[t] == eg(m[u].index_entries@[t]));
        assert(ent_at(m, u, t)); assert(m[p[j] as usize].offset == body(fs, p, j).len()); assert(start(x, base, j) == base + body(fs, p, j).len());
    }
}
/// P14, P15, P16: the file a writer makes is one that the readers' contracts ask for: the features given, each once, in the order of the spatial index, which points at them; behind it the attribute indexes the header lists, whose offsets point at the features the keys come from
pub proof fn p15_file(x: Seq<u8>, fs: Seq<FeatG>, ns: u16, s: SM, g: PartsG)
    requires written(x, fs, ns, s, g), ns != 1, fs.len() <= 0x0100_0000_0000_0000, x.len() < 0x1000_0000_0000_0000, g.h.len() < 0x1_0000_0000, attr_bytes(g.xs, g.xs.len() as int).len() <= u32::MAX,
        forall|j: int| 0 <= j < fs.len() ==> sized((#[trigger] fs[j]).bytes) && feature_valid(fs[j].bytes),
    ensures
        x.subrange(0, 8) == magic_seq(), magic_ok(magic_seq()), x.subrange(8, 8 + g.h.len() as int) == g.h,
        file_ok(x, g.h), ns > 0 ==> index_ok(x, g.h), hdr_count(g.h) == fs.len(),
        is_perm(g.p, fs.len() as int), forall|i: int| 0 <= i < fs.len() ==> #[trigger] feat(x, feat_base(g.h), i) == fs[g.p[i]].bytes,
        forall|k: int| 0 <= k < g.xs.len() ==> ({ let at = 8 + g.h.len() + rtree_len(g.h); hdr_attrs(g.h) is Some && x.subrange(at + lens(hdr_attrs(g.h)->0, k), at + lens(hdr_attrs(g.h)->0, k + 1)) == idx_of(#[trigger] g.xs[k]) && asked(g.rq, g.rq.len() as int, g.xs[k], g.m, s) }),
        forall|r: int| 0 <= r < g.rq.len() ==> answered(g.xs, #[trigger] g.rq[r], g.m, s),
        forall|index: u16, c: ColumnType, es: Seq<(KeyG, u64)>| #[trigger] index_pairs(g.m, index, c, es) ==> pairs_lie(x, feat_base(g.h), fs, g.p, index, c, es),
{
    let n = fs.len() as int; let h = g.h; let p = g.p; let xs = g.xs; let ab = attr_bytes(xs, xs.len() as int); let bd = body(fs, p, n);
    let rt = if ns > 0 && n > 0 { rt_bytes(leaves(fs, p), ns as int) } else { Seq::<u8>::empty() };
    let base = feat_base(h); let m8 = magic_seq();
    assert(m8.len() == 8 && m8[0] == 0x66 && m8[1] == 0x63 && m8[2] == 0x62 && m8[4] == 0x66 && m8[5] == 0x63 && m8[6] == 0x62);
    assert(x == m8 + h + rt + ab + bd);
    assert(x.subrange(0, 8) =~= m8); assert(x.subrange(8, 8 + h.len() as int) =~= h);
    if ns > 0 && n > 0 { axiom_rt(leaves(fs, p), ns as int, m8 + h, ab + bd); assert(x =~= (m8 + h) + rt + (ab + bd)); }
    lemma_attr_lens(xs, g.infos, xs.len() as int);
    assert(rtree_len(h) == rt.len());
    assert(hdr_attr_size(h) == ab.len()) by { assert(infos(g.infos).len() == xs.len()); }
    assert(base == 8 + h.len() + rt.len() + ab.len());
    assert(x.subrange(base, x.len() as int) =~= bd);
    assert forall|i: int| 0 <= i <= n implies #[trigger] start(x, base, i) == base + body(fs, p, i).len() && base <= start(x, base, i) <= x.len() by { lemma_starts(x, base, fs, p, i); lemma_body_mono(fs, p, i, n); }
    assert forall|i: int| 0 <= i < n implies #[trigger] feat(x, base, i) == fs[p[i]].bytes by { lemma_starts(x, base, fs, p, i + 1); }
    assert(features_ok(x, base, n)) by {
        reveal(features_ok);
        assert forall|i: int| 0 <= i < n implies base <= #[trigger] start(x, base, i) && start(x, base, i) + 4 < start(x, base, i + 1) <= x.len() && feature_valid(feat(x, base, i)) by {
            assert(0 <= p[i] < n); assert(sized(fs[p[i]].bytes)); assert(feat(x, base, i) == fs[p[i]].bytes); assert(start(x, base, i + 1) == base + body(fs, p, i + 1).len()); lemma_body_mono(fs, p, i + 1, n);
            assert(body(fs, p, i + 1) == body(fs, p, i) + fs[p[i]].bytes);
        }
    }
    if ns > 0 {
        assert forall|i: int| 0 <= i < n implies #[trigger] leaf_offset(x, 8 + h.len() as int, n, ns as int, i) == start(x, base, i) - base by {
            assert(leaf_offset((m8 + h) + rt + (ab + bd), (m8 + h).len() as int, n, ns as int, i) == leaves(fs, p)[i].offset);
            assert(start(x, base, i) == base + body(fs, p, i).len());
        }
    }
    assert forall|k: int| 0 <= k < xs.len() implies ({ let at = 8 + h.len() + rtree_len(h); hdr_attrs(h) is Some && x.subrange(at + lens(hdr_attrs(h)->0, k), at + lens(hdr_attrs(h)->0, k + 1)) == idx_of(#[trigger] xs[k]) && asked(g.rq, g.rq.len() as int, xs[k], g.m, s) }) by {
        let at: int = 8 + h.len() as int + rt.len() as int; let a = attr_bytes(xs, k); let b = attr_bytes(xs, k + 1);
        lemma_attr_lens(xs, g.infos, k); lemma_attr_lens(xs, g.infos, k + 1);
        assert(b == a + idx_of(xs[k]));
        assert(asked(g.rq, g.rq.len() as int, xs[k], g.m, s));
        let sub = x.subrange(at + a.len(), at + b.len());
        assert forall|t: int| 0 <= t < idx_of(xs[k]).len() implies sub[t] == idx_of(xs[k])[t] by { assert(sub[t] == ab[a.len() + t]); assert(ab[a.len() + t] == ab.take(b.len() as int)[a.len() + t]); }
        assert(sub =~= idx_of(xs[k]));
    }
    assert forall|j: int| 0 <= j < n implies #[trigger] body(fs, p, j).len() <= u64::MAX by { lemma_body_mono(fs, p, j, n); }
    assert forall|index: u16, c: ColumnType, es: Seq<(KeyG, u64)>| #[trigger] index_pairs(g.m, index, c, es) implies pairs_lie(x, base, fs, p, index, c, es) by { lemma_pairs_lie(x, base, fs, p, g.m, index, c, es); }
}
fn main() {}
}
