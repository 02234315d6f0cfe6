// unit aquery: attribute queries of the reader (P16), from reader/attr_query.rs, on top of unit reader
use vstd::prelude::*;
use std::marker::PhantomData;
use std::ops::Range;
verus! {
global size_of usize == 8;
pub type Result<T, E = Error> = core::result::Result<T, E>;
%%include readersec.vx
// ---- attribute queries -------------------------------------------------------------------------

%%fbenum fb/header_generated.rs ColumnType
#[verifier::external_body] pub struct FbStr { x: u8 }
impl FbStr { pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
pub ghost struct ColG { pub name: Seq<char>, pub index: u16, pub type_: ColumnType }
#[verifier::external_body] pub struct Column { x: u8 }
impl Column {
    pub uninterp spec fn view(&self) -> ColG;
    #[verifier::external_body] pub fn name(&self) -> (r: FbStr) ensures r@ == self@.name { unimplemented!() }
    #[verifier::external_body] pub fn index(&self) -> (r: u16) ensures r == self@.index { unimplemented!() }
    #[verifier::external_body] pub fn type_(&self) -> (r: ColumnType) ensures r == self@.type_ { unimplemented!() }
}
pub uninterp spec fn hdr_cols(h: Seq<u8>) -> Option<Seq<ColG>>;
pub open spec fn cols_of(c: Seq<Column>) -> Seq<ColG> { c.map_values(|x: Column| x@) }
/// header.columns() with .iter().collect()
#[verifier::external_body] pub fn columns_of(h: &Header) -> (r: Option<Vec<Column>>)
    ensures match r { Some(v) => hdr_cols(h.src@) == Some(cols_of(v@)), None => hdr_cols(h.src@) is None } { unimplemented!() }
pub open spec fn has_col(c: Seq<ColG>, i: u16) -> bool { exists|k: int| 0 <= k < c.len() && (#[trigger] c[k]).index == i }
pub open spec fn col_of(c: Seq<ColG>, i: u16) -> ColG { c[choose|k: int| 0 <= k < c.len() && (#[trigger] c[k]).index == i] }
pub open spec fn cols_distinct(c: Seq<ColG>) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).index != (#[trigger] c[j]).index }
/// columns.iter().find(|c| c.index() == i)
#[verifier::external_body] pub fn find_index<'a>(c: &'a Vec<Column>, i: u16) -> (r: Option<&'a Column>)
    ensures r is Some <==> has_col(cols_of(c@), i), r is Some && cols_distinct(cols_of(c@)) ==> r->0@ == col_of(cols_of(c@), i) { unimplemented!() }
#[verifier::external_body] pub fn find_index_s<'a>(c: &'a [Column], i: u16) -> (r: Option<&'a Column>)
    ensures r is Some <==> has_col(cols_of(c@), i), r is Some && cols_distinct(cols_of(c@)) ==> r->0@ == col_of(cols_of(c@), i) { unimplemented!() }
pub fn or_err<T>(x: Option<T>) -> (r: Result<T, Error>)
    ensures x is Some ==> r is Ok && r->Ok_0 == x->0, x is None ==> r is Err,
{ match x { Some(v) => Ok(v), None => Err(Error::Other) } }

// ---- queries
#[derive(Clone, Copy)]
%%pubitem static_btree/query/types.rs pub enum Operator
#[verifier::external_body] pub struct KeyType { x: u8 }
impl KeyType { #[verifier::external_body] pub fn clone(&self) -> (r: KeyType) ensures r == *self { unimplemented!() } }
%%pubitem static_btree/query/types.rs pub struct QueryCondition
%%pubitem static_btree/query/types.rs pub struct Query
%%isub `pub struct Query` => `pub struct AQuery`
pub type AttrQuery = Vec<(String, Operator, KeyType)>;
#[verifier::external_body] pub fn str_clone(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub ghost struct CondG { pub name: Seq<char>, pub op: Operator, pub key: KeyType }
pub open spec fn conds(q: Seq<(String, Operator, KeyType)>) -> Seq<CondG> { q.map_values(|x: (String, Operator, KeyType)| CondG { name: x.0@, op: x.1, key: x.2 }) }
pub open spec fn qconds(q: Seq<QueryCondition>) -> Seq<CondG> { q.map_values(|x: QueryCondition| CondG { name: x.field@, op: x.operator, key: x.key }) }

// ---- indexes: what a stored index answers is a matter of its own bytes (proved in units stree and query)
pub ghost enum KT { KInt, KLong, KFloat, KDouble, KString, KBool, KDateTime, KShort, KUShort, KUInt, KULong, KByte, KUByte }
pub open spec fn kt_of(t: ColumnType) -> Option<KT> { match t { ColumnType::Int => Some(KT::KInt), ColumnType::Long => Some(KT::KLong), ColumnType::Float => Some(KT::KFloat), ColumnType::Double => Some(KT::KDouble), ColumnType::String => Some(KT::KString), ColumnType::Bool => Some(KT::KBool), ColumnType::DateTime => Some(KT::KDateTime), ColumnType::Short => Some(KT::KShort), ColumnType::UShort => Some(KT::KUShort), ColumnType::UInt => Some(KT::KUInt), ColumnType::ULong => Some(KT::KULong), ColumnType::Byte => Some(KT::KByte), ColumnType::UByte => Some(KT::KUByte), _ => None } }
pub struct Float<T> { pub x: T }
pub struct FixedStringKey<const N: usize> { pub x: [u8; N] }
pub struct Utc;
#[verifier::reject_recursive_types(T)]
pub struct DateTime<T> { pub x: PhantomData<T> }
pub trait KeyT { spec fn kt() -> KT; }
impl KeyT for i32 { open spec fn kt() -> KT { KT::KInt } }
impl KeyT for i64 { open spec fn kt() -> KT { KT::KLong } }
impl KeyT for Float<f32> { open spec fn kt() -> KT { KT::KFloat } }
impl KeyT for Float<f64> { open spec fn kt() -> KT { KT::KDouble } }
impl KeyT for FixedStringKey<50> { open spec fn kt() -> KT { KT::KString } }
impl KeyT for bool { open spec fn kt() -> KT { KT::KBool } }
impl KeyT for DateTime<Utc> { open spec fn kt() -> KT { KT::KDateTime } }
impl KeyT for i16 { open spec fn kt() -> KT { KT::KShort } }
impl KeyT for u16 { open spec fn kt() -> KT { KT::KUShort } }
impl KeyT for u32 { open spec fn kt() -> KT { KT::KUInt } }
impl KeyT for u64 { open spec fn kt() -> KT { KT::KULong } }
impl KeyT for i8 { open spec fn kt() -> KT { KT::KByte } }
impl KeyT for u8 { open spec fn kt() -> KT { KT::KUByte } }

/// the bytes x are an index of n keys with branching factor b
pub uninterp spec fn idx_ok(kt: KT, x: Seq<u8>, n: int, b: int) -> bool;
/// the key of a condition is of this type
pub uninterp spec fn idx_takes(kt: KT, key: KeyType) -> bool;
/// o is the offset of an entry whose key satisfies the condition (the complement of the equal ones for Ne)
pub uninterp spec fn idx_hit(kt: KT, x: Seq<u8>, n: int, b: int, op: Operator, key: KeyType, o: u64) -> bool;
pub ghost struct SIdx { pub kt: KT, pub n: int, pub b: int, pub at: int, pub len: int }
pub ghost struct MIdx { pub kt: KT, pub x: Seq<u8>, pub n: int, pub b: int }
pub open spec fn mem_of(s: SIdx, d: Seq<u8>, p: int) -> MIdx { MIdx { kt: s.kt, x: d.subrange(p + s.at, p + s.at + s.len), n: s.n, b: s.b } }
pub open spec fn mknown(m: Map<Seq<char>, MIdx>, c: CondG) -> bool { m.contains_key(c.name) && idx_takes(m[c.name].kt, c.key) }
pub open spec fn mholds(m: Map<Seq<char>, MIdx>, c: CondG, o: u64) -> bool { mknown(m, c) && idx_hit(m[c.name].kt, m[c.name].x, m[c.name].n, m[c.name].b, c.op, c.key, o) }
pub open spec fn mall(m: Map<Seq<char>, MIdx>, cs: Seq<CondG>, o: u64) -> bool { forall|i: int| 0 <= i < cs.len() ==> mholds(m, #[trigger] cs[i], o) }
pub open spec fn all_known(m: Map<Seq<char>, MIdx>, cs: Seq<CondG>) -> bool { forall|i: int| 0 <= i < cs.len() ==> mknown(m, #[trigger] cs[i]) }
pub open spec fn midx_ok(m: MIdx) -> bool { idx_ok(m.kt, m.x, m.n, m.b) }
pub open spec fn smap(m: Map<Seq<char>, SIdx>, d: Seq<u8>, p: int) -> Map<Seq<char>, MIdx> { m.map_values(|s: SIdx| mem_of(s, d, p)) }
/// contracts of StreamIndex and StreamMultiIndex (unit query)
pub struct StreamIndex<K> { pub n: usize, pub b: u16, pub k: PhantomData<K> }
impl<K: KeyT> StreamIndex<K> {
    #[verifier::external_body] pub fn new(num_items: usize, branching_factor: u16, index_offset: u64, length: u64) -> (r: Self) ensures r.n == num_items, r.b == branching_factor { unimplemented!() }
}
#[verifier::external_body] pub struct StreamMultiIndex { x: u8 }
impl StreamMultiIndex {
    pub uninterp spec fn idxs(&self) -> Map<Seq<char>, SIdx>;
    pub uninterp spec fn end(&self) -> int;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.idxs() == Map::<Seq<char>, SIdx>::empty(), r.end() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn add_i32_index(&mut self, field: String, index: StreamIndex<i32>, length: u64)
        requires old(self).end() + length <= usize::MAX,
        ensures final(self).idxs() == old(self).idxs().insert(field@, SIdx { kt: KT::KInt, n: index.n as int, b: index.b as int, at: old(self).end(), len: length as int }), final(self).end() == old(self).end() + length { unimplemented!() }
    #[verifier::external_body] pub fn add_i64_index(&mut self, field: String, index: StreamIndex<i64>, length: u64)
        requires old(self).end() + length <= usize::MAX,
        ensures final(self).idxs() == old(self).idxs().insert(field@, SIdx { kt: KT::KLong, n: index.n as int, b: index.b as int, at: old(self).end(), len: length as int }), final(self).end() == old(self).end() + length { unimplemented!() }
    #[verifier::external_body] pub fn add_f32_index(&mut self, field: String, index: StreamIndex<Float<f32>>, length: u64)
        requires old(self).end() + length <= usize::MAX,
        ensures final(self).idxs() == old(self).idxs().insert(field@, SIdx { kt: KT::KFloat, n: index.n as int, b: index.b as int, at: old(self).end(), len: length as int }), final(self).end() == old(self).end() + length { unimplemented!() }
    #[verifier::external_body] pub fn add_f64_index(&mut self, field: String, index: StreamIndex<Float<f64>>, length: u64)
        requires old(self).end() + length <= usize::MAX,
        ensures final(self).idxs() == old(self).idxs().insert(field@, SIdx { kt: KT::KDouble, n: index.n as int, b: index.b as int, at: old(self).end(), len: length as int }), final(self).end() == old(self).end() + length { unimplemented!() }
    #[verifier::external_body] pub fn add_string_index50(&mut self, field: String, index: StreamIndex<FixedStringKey<50>>, length: u64)
        requires old(self).end() + length <= usize::MAX,
        ensures final(self).idxs() == old(self).idxs().insert(field@, SIdx { kt: KT::KString, n: index.n as int, b: index.b as int, at: old(self).end(), len: length as int }), final(self).end() == old(self).end() + length { unimplemented!() }
    #[verifier::external_body] pub fn add_bool_index(&mut self, field: String, index: StreamIndex<bool>, length: u64)
        requires old(self).end() + length <= usize::MAX,
        ensures final(self).idxs() == old(self).idxs().insert(field@, SIdx { kt: KT::KBool, n: index.n as int, b: index.b as int, at: old(self).end(), len: length as int }), final(self).end() == old(self).end() + length { unimplemented!() }
    #[verifier::external_body] pub fn add_datetime_index(&mut self, field: String, index: StreamIndex<DateTime<Utc>>, length: u64)
        requires old(self).end() + length <= usize::MAX,
        ensures final(self).idxs() == old(self).idxs().insert(field@, SIdx { kt: KT::KDateTime, n: index.n as int, b: index.b as int, at: old(self).end(), len: length as int }), final(self).end() == old(self).end() + length { unimplemented!() }
    #[verifier::external_body] pub fn add_i16_index(&mut self, field: String, index: StreamIndex<i16>, length: u64)
        requires old(self).end() + length <= usize::MAX,
        ensures final(self).idxs() == old(self).idxs().insert(field@, SIdx { kt: KT::KShort, n: index.n as int, b: index.b as int, at: old(self).end(), len: length as int }), final(self).end() == old(self).end() + length { unimplemented!() }
    #[verifier::external_body] pub fn add_u16_index(&mut self, field: String, index: StreamIndex<u16>, length: u64)
        requires old(self).end() + length <= usize::MAX,
        ensures final(self).idxs() == old(self).idxs().insert(field@, SIdx { kt: KT::KUShort, n: index.n as int, b: index.b as int, at: old(self).end(), len: length as int }), final(self).end() == old(self).end() + length { unimplemented!() }
    #[verifier::external_body] pub fn add_u32_index(&mut self, field: String, index: StreamIndex<u32>, length: u64)
        requires old(self).end() + length <= usize::MAX,
        ensures final(self).idxs() == old(self).idxs().insert(field@, SIdx { kt: KT::KUInt, n: index.n as int, b: index.b as int, at: old(self).end(), len: length as int }), final(self).end() == old(self).end() + length { unimplemented!() }
    #[verifier::external_body] pub fn add_u64_index(&mut self, field: String, index: StreamIndex<u64>, length: u64)
        requires old(self).end() + length <= usize::MAX,
        ensures final(self).idxs() == old(self).idxs().insert(field@, SIdx { kt: KT::KULong, n: index.n as int, b: index.b as int, at: old(self).end(), len: length as int }), final(self).end() == old(self).end() + length { unimplemented!() }
    #[verifier::external_body] pub fn add_i8_index(&mut self, field: String, index: StreamIndex<i8>, length: u64)
        requires old(self).end() + length <= usize::MAX,
        ensures final(self).idxs() == old(self).idxs().insert(field@, SIdx { kt: KT::KByte, n: index.n as int, b: index.b as int, at: old(self).end(), len: length as int }), final(self).end() == old(self).end() + length { unimplemented!() }
    #[verifier::external_body] pub fn add_u8_index(&mut self, field: String, index: StreamIndex<u8>, length: u64)
        requires old(self).end() + length <= usize::MAX,
        ensures final(self).idxs() == old(self).idxs().insert(field@, SIdx { kt: KT::KUByte, n: index.n as int, b: index.b as int, at: old(self).end(), len: length as int }), final(self).end() == old(self).end() + length { unimplemented!() }
    #[verifier::external_body] pub fn query<R: Read + Seek>(&self, reader: &mut R, conditions: &[QueryCondition]) -> (r: Result<Vec<u64>, Error>)
        requires 0 <= old(reader).pos() <= 0x4000_0000_0000_0000,
            forall|f: Seq<char>| #[trigger] self.idxs().contains_key(f) ==> 0 <= self.idxs()[f].at <= 0x3FFF_FFFF_FFFF_FFFF && 0 <= self.idxs()[f].len && old(reader).pos() + self.idxs()[f].at + self.idxs()[f].len <= old(reader).data().len()
                && midx_ok(mem_of(self.idxs()[f], old(reader).data(), old(reader).pos())),
        ensures final(reader).data() == old(reader).data(), r is Ok ==> final(reader).pos() == old(reader).pos(),
            r is Err ==> conditions@.len() == 0 || !all_known(smap(self.idxs(), old(reader).data(), old(reader).pos()), qconds(conditions@)),
            conditions@.len() == 0 ==> r is Err,
            r is Ok ==> forall|o: u64| #[trigger] r->Ok_0@.contains(o) <==> mall(smap(self.idxs(), old(reader).data(), old(reader).pos()), qconds(conditions@), o) { unimplemented!() }
}
/// contracts of MemoryIndex and MemoryMultiIndex (units stree, query)
pub struct Cursor { pub v: Vec<u8> }
impl Cursor { pub fn new(v: Vec<u8>) -> (r: Cursor) ensures r.v@ == v@ { Cursor { v } } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] pub struct MemoryIndex<K> { k: PhantomData<K> }
impl<K: KeyT> MemoryIndex<K> {
    pub uninterp spec fn x(&self) -> Seq<u8>;
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn b(&self) -> int;
    #[verifier::external_body] pub fn from_buf(c: &mut Cursor, num_items: usize, branching_factor: u16) -> (r: Result<Self, Error>)
        ensures idx_ok(K::kt(), old(c).v@, num_items as int, branching_factor as int) ==> r is Ok,
            r is Ok ==> r->Ok_0.x() == old(c).v@ && r->Ok_0.n() == num_items && r->Ok_0.b() == branching_factor { unimplemented!() }
}
#[verifier::external_body] pub struct MemoryMultiIndex { x: u8 }
impl MemoryMultiIndex {
    pub uninterp spec fn idxs(&self) -> Map<Seq<char>, MIdx>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.idxs() == Map::<Seq<char>, MIdx>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn add_i32_index(&mut self, field: String, index: MemoryIndex<i32>)
        ensures final(self).idxs() == old(self).idxs().insert(field@, MIdx { kt: KT::KInt, x: index.x(), n: index.n(), b: index.b() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_i64_index(&mut self, field: String, index: MemoryIndex<i64>)
        ensures final(self).idxs() == old(self).idxs().insert(field@, MIdx { kt: KT::KLong, x: index.x(), n: index.n(), b: index.b() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_f32_index(&mut self, field: String, index: MemoryIndex<Float<f32>>)
        ensures final(self).idxs() == old(self).idxs().insert(field@, MIdx { kt: KT::KFloat, x: index.x(), n: index.n(), b: index.b() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_f64_index(&mut self, field: String, index: MemoryIndex<Float<f64>>)
        ensures final(self).idxs() == old(self).idxs().insert(field@, MIdx { kt: KT::KDouble, x: index.x(), n: index.n(), b: index.b() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_string_index50(&mut self, field: String, index: MemoryIndex<FixedStringKey<50>>)
        ensures final(self).idxs() == old(self).idxs().insert(field@, MIdx { kt: KT::KString, x: index.x(), n: index.n(), b: index.b() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_bool_index(&mut self, field: String, index: MemoryIndex<bool>)
        ensures final(self).idxs() == old(self).idxs().insert(field@, MIdx { kt: KT::KBool, x: index.x(), n: index.n(), b: index.b() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_datetime_index(&mut self, field: String, index: MemoryIndex<DateTime<Utc>>)
        ensures final(self).idxs() == old(self).idxs().insert(field@, MIdx { kt: KT::KDateTime, x: index.x(), n: index.n(), b: index.b() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_i16_index(&mut self, field: String, index: MemoryIndex<i16>)
        ensures final(self).idxs() == old(self).idxs().insert(field@, MIdx { kt: KT::KShort, x: index.x(), n: index.n(), b: index.b() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_u16_index(&mut self, field: String, index: MemoryIndex<u16>)
        ensures final(self).idxs() == old(self).idxs().insert(field@, MIdx { kt: KT::KUShort, x: index.x(), n: index.n(), b: index.b() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_u32_index(&mut self, field: String, index: MemoryIndex<u32>)
        ensures final(self).idxs() == old(self).idxs().insert(field@, MIdx { kt: KT::KUInt, x: index.x(), n: index.n(), b: index.b() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_u64_index(&mut self, field: String, index: MemoryIndex<u64>)
        ensures final(self).idxs() == old(self).idxs().insert(field@, MIdx { kt: KT::KULong, x: index.x(), n: index.n(), b: index.b() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_i8_index(&mut self, field: String, index: MemoryIndex<i8>)
        ensures final(self).idxs() == old(self).idxs().insert(field@, MIdx { kt: KT::KByte, x: index.x(), n: index.n(), b: index.b() }) { unimplemented!() }
    #[verifier::external_body] pub fn add_u8_index(&mut self, field: String, index: MemoryIndex<u8>)
        ensures final(self).idxs() == old(self).idxs().insert(field@, MIdx { kt: KT::KUByte, x: index.x(), n: index.n(), b: index.b() }) { unimplemented!() }
    #[verifier::external_body] pub fn query(&self, conditions: &[QueryCondition]) -> (r: Result<Vec<u64>, Error>)
        requires forall|f: Seq<char>| #[trigger] self.idxs().contains_key(f) ==> midx_ok(self.idxs()[f]),
        ensures r is Err ==> conditions@.len() == 0 || !all_known(self.idxs(), qconds(conditions@)),
            conditions@.len() == 0 ==> r is Err,
            r is Ok ==> forall|o: u64| #[trigger] r->Ok_0@.contains(o) <==> mall(self.idxs(), qconds(conditions@), o) { unimplemented!() }
}
/// [T]::sort and Vec::dedup
pub open spec fn nondec(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
pub open spec fn strict(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
pub open spec fn same_items(a: Seq<u64>, b: Seq<u64>) -> bool { forall|o: u64| a.contains(o) <==> b.contains(o) }
#[verifier::external_body] pub fn sort_u64(v: &mut Vec<u64>) ensures nondec(final(v)@), same_items(final(v)@, old(v)@) { unimplemented!() }
#[verifier::external_body] pub fn dedup_u64(v: &mut Vec<u64>) ensures nondec(old(v)@) ==> strict(final(v)@), same_items(final(v)@, old(v)@) { unimplemented!() }

// ---- what the file says
pub open spec fn xof(d: Seq<u8>, h: Seq<u8>, a: Seq<AttributeIndex>, j: int) -> Seq<u8> { let p = 8 + h.len() + rtree_len(h); d.subrange(p + lens(a, j), p + lens(a, j) + a[j].l) }
pub open spec fn hit_off(m: MIdx, op: Operator, key: KeyType, o: u64) -> bool { idx_hit(m.kt, m.x, m.n, m.b, op, key, o) }
pub open spec fn file_idx(d: Seq<u8>, h: Seq<u8>, a: Seq<AttributeIndex>, c: Seq<ColG>, j: int) -> MIdx { MIdx { kt: kt_of(col_of(c, a[j].i).type_)->0, x: xof(d, h, a, j), n: a[j].n as int, b: a[j].b as int } }
pub open spec fn iname(a: Seq<AttributeIndex>, c: Seq<ColG>, j: int) -> Seq<char> { col_of(c, a[j].i).name }
/// the attribute indexes lie one behind the other behind the spatial index, in the order in which the header lists them, which is by column
pub open spec fn attrs_ok(d: Seq<u8>, h: Seq<u8>) -> bool {
    hdr_attrs(h) is Some && hdr_cols(h) is Some ==> {
        let a = hdr_attrs(h)->0; let c = hdr_cols(h)->0;
        &&& cols_distinct(c)
        &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).i < (#[trigger] a[j]).i && iname(a, c, i) != iname(a, c, j)
        &&& forall|j: int| 0 <= j < a.len() ==> has_col(c, (#[trigger] a[j]).i) && kt_of(col_of(c, a[j].i).type_) is Some && midx_ok(file_idx(d, h, a, c, j))
        &&& forall|j: int, op: Operator, key: KeyType, o: u64| 0 <= j < a.len() && #[trigger] hit_off(file_idx(d, h, a, c, j), op, key, o) ==> owed(d, feat_base(h), hdr_count(h) as int, o as int)
    }
}
/// the index of the attribute with this name
pub open spec fn is_idx(a: Seq<AttributeIndex>, c: Seq<ColG>, name: Seq<char>, j: int) -> bool { 0 <= j < a.len() && iname(a, c, j) == name }
pub open spec fn fmap(d: Seq<u8>, h: Seq<u8>) -> Map<Seq<char>, MIdx> { let a = hdr_attrs(h)->0; let c = hdr_cols(h)->0; pmap(d, h, a, c, a.len() as int) }
pub open spec fn pmap(d: Seq<u8>, h: Seq<u8>, a: Seq<AttributeIndex>, c: Seq<ColG>, k: int) -> Map<Seq<char>, MIdx>
    decreases k
{ if k <= 0 { Map::empty() } else { pmap(d, h, a, c, k - 1).insert(iname(a, c, k - 1), file_idx(d, h, a, c, k - 1)) } }
pub proof fn lemma_pmap(d: Seq<u8>, h: Seq<u8>, a: Seq<AttributeIndex>, c: Seq<ColG>, k: int)
    requires 0 <= k <= a.len(),
    ensures forall|f: Seq<char>| #[trigger] pmap(d, h, a, c, k).contains_key(f) ==> exists|j: int| 0 <= j < k && #[trigger] is_idx(a, c, f, j) && pmap(d, h, a, c, k)[f] == file_idx(d, h, a, c, j),
        forall|j: int| 0 <= j < k ==> pmap(d, h, a, c, k).contains_key(#[trigger] iname(a, c, j)),
    decreases k,
{
    if k > 0 {
        lemma_pmap(d, h, a, c, k - 1);
        let m = pmap(d, h, a, c, k); let m0 = pmap(d, h, a, c, k - 1);
        assert(is_idx(a, c, iname(a, c, k - 1), k - 1));
        assert forall|f: Seq<char>| #[trigger] m.contains_key(f) implies exists|j: int| 0 <= j < k && #[trigger] is_idx(a, c, f, j) && m[f] == file_idx(d, h, a, c, j) by {
            if f != iname(a, c, k - 1) { assert(m0.contains_key(f)); let j = choose|j: int| 0 <= j < k - 1 && #[trigger] is_idx(a, c, f, j) && m0[f] == file_idx(d, h, a, c, j); assert(is_idx(a, c, f, j)); }
        }
    }
}
/// the answer: every feature that satisfies all conditions, once, in file order
pub open spec fn attr_selected<R: Read, S>(it: FeatureIter<R, S>, d: Seq<u8>, h: Seq<u8>, cs: Seq<CondG>) -> bool {
    let n = hdr_count(h) as int;
    &&& it.reader.data() == d && it.buffer.header_buf@ == h && it.item_filter is None && it.item_attr_filter is Some && it.feat_no == 0
    &&& strict(it.item_attr_filter->0@)
    &&& forall|o: u64| #[trigger] it.item_attr_filter->0@.contains(o) <==> mall(fmap(d, h), cs, o)
    &&& it.total_feat_count == it.item_attr_filter->0@.len()
    &&& ready(it, feat_base(h), n)
    &&& n > 0 ==> it.state != State::Finished && base_of(it) == feat_base(h)
}
pub proof fn lemma_pigeon(s: Seq<u64>, d: Seq<u8>, base: int, n: int, k: int)
    requires features_ok(d, base, n), strict(s), 0 <= k < s.len(), forall|j: int| 0 <= j < s.len() ==> owed(d, base, n, #[trigger] s[j] as int),
    ensures is_start(d, base, n, s[k] as int, idx(d, base, n, s[k] as int)), idx(d, base, n, s[k] as int) >= k,
    decreases k,
{
    let i = idx(d, base, n, s[k] as int);
    assert(owed(d, base, n, s[k] as int));
    assert(is_start(d, base, n, s[k] as int, i));
    if k > 0 {
        lemma_pigeon(s, d, base, n, k - 1);
        assert(s[k - 1] < s[k]);
        lemma_start_lt(d, base, n, idx(d, base, n, s[k - 1] as int), i);
    }
}
pub proof fn lemma_attr_sel(s: Vec<u64>, fo: FeatureOffset, d: Seq<u8>, h: Seq<u8>, cs: Seq<CondG>)
    requires file_ok(d, h), attrs_ok(d, h), hdr_attrs(h) is Some, hdr_cols(h) is Some, strict(s@), cs.len() > 0, forall|o: u64| #[trigger] s@.contains(o) <==> mall(fmap(d, h), cs, o), fo.total() == feat_base(h),
    ensures selection_ok(None, Some(s), fo, d, feat_base(h), hdr_count(h) as int),
{
    let base = feat_base(h); let n = hdr_count(h) as int; let a = hdr_attrs(h)->0; let c = hdr_cols(h)->0;
    assert forall|j: int| 0 <= j < s@.len() implies owed(d, base, n, #[trigger] s@[j] as int) by {
        assert(s@.contains(s@[j]));
        assert(mholds(fmap(d, h), cs[0], s@[j]));
        lemma_pmap(d, h, a, c, a.len() as int);
        let i = choose|i: int| 0 <= i < a.len() && #[trigger] is_idx(a, c, cs[0].name, i) && fmap(d, h)[cs[0].name] == file_idx(d, h, a, c, i);
        assert(hit_off(file_idx(d, h, a, c, i), cs[0].op, cs[0].key, s@[j]));
    }
    if s@.len() > 0 { lemma_pigeon(s@, d, base, n, s@.len() - 1); }
    let f: Option<Vec<SearchResultItem>> = None;
    assert forall|j: int| #[trigger] sel_off2(f, Some(s), d, base, j) == s@[j] by {}
    assert forall|j: int| 0 <= j < sel_len2(f, Some(s), n) implies owed(d, base, n, #[trigger] sel_off2(f, Some(s), d, base, j)) by { assert(owed(d, base, n, s@[j] as int)); }
    assert forall|j: int, k: int| 0 <= j < k < s@.len() implies #[trigger] sel_off2(f, Some(s), d, base, j) < #[trigger] sel_off2(f, Some(s), d, base, k) by { assert(s@[j] < s@[k]); }
}

%%include hmap.vx
impl<V> HashMap<V> { #[verifier::external_body] pub fn get_fb(&self, k: FbStr) -> (r: Option<&V>) ensures (r is Some) == self@.contains_key(k@), r is Some ==> *r->0 == self@[k@] { unimplemented!() } }
pub open spec fn attrs_asc(a: Seq<AttributeIndex>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).i < (#[trigger] a[j]).i }
/// iter().collect()
#[verifier::external_body] pub fn collect_attrs(v: &AttrVec) -> (r: Vec<AttributeIndex>) ensures r@ == v@ { unimplemented!() }
/// sort_by_key(|attr| attr.index())
#[verifier::external_body] pub fn sort_by_index(v: &mut Vec<AttributeIndex>) ensures attrs_asc(old(v)@) ==> final(v)@ == old(v)@ { unimplemented!() }
/// when a query cannot be answered
pub open spec fn attr_fails(d: Seq<u8>, h: Seq<u8>, cs: Seq<CondG>) -> bool {
    hdr_attrs(h) is None || hdr_attrs(h)->0.len() == 0 || hdr_cols(h) is None || cs.len() == 0 || !all_known(fmap(d, h), cs)
}
/// after k of the file's indexes have been taken over
pub open spec fn taken(m: Map<Seq<char>, SIdx>, e: int, h: Seq<u8>, a: Seq<AttributeIndex>, c: Seq<ColG>, k: int) -> bool {
    m == smpart(a, c, k) && e == lens(a, k)
}
pub open spec fn smpart(a: Seq<AttributeIndex>, c: Seq<ColG>, k: int) -> Map<Seq<char>, SIdx>
    decreases k
{ if k <= 0 { Map::empty() } else { smpart(a, c, k - 1).insert(iname(a, c, k - 1), SIdx { kt: kt_of(col_of(c, a[k - 1].i).type_)->0, n: a[k - 1].n as int, b: a[k - 1].b as int, at: lens(a, k - 1), len: a[k - 1].l as int }) } }
pub proof fn lemma_smpart(d: Seq<u8>, h: Seq<u8>, a: Seq<AttributeIndex>, c: Seq<ColG>, k: int)
    requires 0 <= k <= a.len(),
    ensures smap(smpart(a, c, k), d, 8 + h.len() + rtree_len(h)) == pmap(d, h, a, c, k),
        forall|f: Seq<char>| #[trigger] smpart(a, c, k).contains_key(f) ==> exists|j: int| 0 <= j < k && #[trigger] is_idx(a, c, f, j) && smpart(a, c, k)[f] == (SIdx { kt: kt_of(col_of(c, a[j].i).type_)->0, n: a[j].n as int, b: a[j].b as int, at: lens(a, j), len: a[j].l as int }),
    decreases k,
{
    let p = 8 + h.len() + rtree_len(h); let m = smpart(a, c, k);
    if k > 0 {
        lemma_smpart(d, h, a, c, k - 1);
        let m0 = smpart(a, c, k - 1);
        assert(is_idx(a, c, iname(a, c, k - 1), k - 1));
        assert forall|f: Seq<char>| #[trigger] m.contains_key(f) implies exists|j: int| 0 <= j < k && #[trigger] is_idx(a, c, f, j) && m[f] == (SIdx { kt: kt_of(col_of(c, a[j].i).type_)->0, n: a[j].n as int, b: a[j].b as int, at: lens(a, j), len: a[j].l as int }) by {
            if f != iname(a, c, k - 1) { assert(m0.contains_key(f)); let j = choose|j: int| 0 <= j < k - 1 && #[trigger] is_idx(a, c, f, j) && m0[f] == (SIdx { kt: kt_of(col_of(c, a[j].i).type_)->0, n: a[j].n as int, b: a[j].b as int, at: lens(a, j), len: a[j].l as int }); assert(is_idx(a, c, f, j)); }
        }
        assert(smap(m, d, p) =~= smap(m0, d, p).insert(iname(a, c, k - 1), file_idx(d, h, a, c, k - 1)));
    } else { assert(smap(m, d, p) =~= pmap(d, h, a, c, k)); }
}

pub proof fn lemma_idx_pre(d: Seq<u8>, h: Seq<u8>, a: Seq<AttributeIndex>, c: Seq<ColG>)
    requires file_ok(d, h), attrs_ok(d, h), hdr_attrs(h) == Some(a), hdr_cols(h) == Some(c),
    ensures forall|f: Seq<char>| #[trigger] smpart(a, c, a.len() as int).contains_key(f) ==> ({
        let x = smpart(a, c, a.len() as int)[f]; let p = 8 + h.len() + rtree_len(h);
        0 <= x.at <= 0x3FFF_FFFF_FFFF_FFFF && 0 <= x.len && p + x.at + x.len <= d.len() && midx_ok(mem_of(x, d, p)) }),
{
    let n = a.len() as int; let m = smpart(a, c, n); let p = 8 + h.len() + rtree_len(h);
    lemma_file(d, h); lemma_smpart(d, h, a, c, n);
    assert forall|f: Seq<char>| #[trigger] m.contains_key(f) implies 0 <= m[f].at <= 0x3FFF_FFFF_FFFF_FFFF && 0 <= m[f].len && p + m[f].at + m[f].len <= d.len() && midx_ok(mem_of(m[f], d, p)) by {
        let j = choose|j: int| 0 <= j < n && #[trigger] is_idx(a, c, f, j) && m[f] == (SIdx { kt: kt_of(col_of(c, a[j].i).type_)->0, n: a[j].n as int, b: a[j].b as int, at: lens(a, j), len: a[j].l as int });
        lemma_lens(a, j + 1, n); lemma_lens(a, j, j + 1); lemma_lens(a, 0, j);
        assert(midx_ok(file_idx(d, h, a, c, j)));
        assert(mem_of(m[f], d, p) == file_idx(d, h, a, c, j));
    }
}
%%fn reader/attr_query.rs - build_query
%%ret r
%%loops 1
%%sig `-> Query` => `-> AQuery`
%%sub `let conditions = query .iter() .map(|(field, operator, key)| {` => `let mut conditions: Vec<QueryCondition> = Vec::new(); let mut _i: usize = 0; while _i < query.len() { let (field, operator, key) = &query[_i]; let _c = {`
%%sub `field.clone()` => `str_clone(field)`
%%sub `}) .collect();` => `}; conditions.push(_c); _i += 1; }`
%%sub `Query { conditions }` => `AQuery { conditions }`
%%spec
    ensures qconds(r.conditions@) == conds(query@),
%%loop 0
    invariant 0 <= _i <= query@.len(), conditions@.len() == _i, forall|k: int| 0 <= k < _i ==> qconds(conditions@)[k] == conds(query@)[k],
    decreases query@.len() - _i
%%after `conditions.push(_c);`
    proof { assert forall|k: int| 0 <= k <= _i implies qconds(conditions@)[k] == conds(query@)[k] by { if k < _i { assert(qconds(old_)[k] == conds(query@)[k]); } } }
%%pre `conditions.push(_c);`
    let ghost old_ = conditions@;
%%end
    proof { assert(qconds(conditions@) =~= conds(query@)); }
%%done

%%fn reader/attr_query.rs - add_indices_to_multi_stream_index
%%ret r
%%sub `columns.iter().find(|col| col.index() ==` => `find_index_s(columns,`
%%sub `Error::UnsupportedColumnType(col.name().to_string())` => `Error::Other`
%%spec
    requires
        has_col(cols_of(columns@), attr_info.i), cols_distinct(cols_of(columns@)), kt_of(col_of(cols_of(columns@), attr_info.i).type_) is Some,
        old(multi_index).end() + attr_info.l <= usize::MAX,
    ensures ({
        let c = col_of(cols_of(columns@), attr_info.i);
        &&& r is Ok
        &&& final(multi_index).idxs() == old(multi_index).idxs().insert(c.name, SIdx { kt: kt_of(c.type_)->0, n: attr_info.n as int, b: attr_info.b as int, at: old(multi_index).end(), len: attr_info.l as int })
        &&& final(multi_index).end() == old(multi_index).end() + attr_info.l
    }),
%%done

%%fn reader/attr_query.rs "impl<R: Read + Seek> FcbReader<R>" select_attr_query
%%attr #[verifier::rlimit(60)]
%%ret r
%%loops 2
%%mutparam self
%%sub `header .attribute_index() .ok_or(Error::AttributeIndexNotFound)?` => `or_err(header.attribute_index())?`
%%sub `attr_index_entries.is_empty()` => `attr_index_entries.len() == 0`
%%sub `Error::AttributeIndexNotFound` => `Error::Other`
%%sub `let mut attr_index_entries: Vec<&AttributeIndex> = attr_index_entries.iter().collect();` => `let mut attr_index_entries: Vec<AttributeIndex> = collect_attrs(&attr_index_entries);`
%%sub `attr_index_entries.sort_by_key(|attr| attr.index());` => `sort_by_index(&mut attr_index_entries);`
%%sub `let columns = header .columns() .ok_or(Error::NoColumnsInHeader)? .iter() .collect::<Vec<_>>();` => `let columns = or_err(columns_of(&header))?;`
%%sub `HashMap::<String, Range<usize>>::new()` => `HashMap::<Range<usize>>::new()`
%%sub `let mut current_index = 0;` => `let mut current_index: usize = 0; let mut _i: usize = 0; let mut _j: usize = 0;`
%%sub `for attr_info in attr_index_entries.iter() { let column = columns .iter() .find(|c| c.index() == attr_info.index()) .ok_or(Error::Other)?;` => `while _i < attr_index_entries.len() { let attr_info = &attr_index_entries[_i]; let column = or_err(find_index(&columns, attr_info.index()))?;`
%%sub `for attr_info in attr_index_entries.iter() {` => `while _j < attr_index_entries.len() { let attr_info = &attr_index_entries[_j];`
%%sub `let column = columns .iter() .find(|c| c.index() == column_idx) .ok_or(Error::Other)?;` => `let column = or_err(find_index(&columns, column_idx))?;`
%%sub `attr_index_range .get(column.name()) .ok_or(Error::Other)?` => `or_err(attr_index_range.get_fb(column.name()))?`
%%sub `Error::QueryExecutionError(format!( "Failed to execute streaming query: {}", e ))` => `Error::Other`
%%sub `let mut result_vec: Vec<u64> = result.into_iter().collect();` => `let mut result_vec: Vec<u64> = result;`
%%sub? `result_vec.sort()` => `sort_u64(&mut result_vec)`
%%sub? `result_vec.dedup()` => `dedup_u64(&mut result_vec)`
%%spec
    requires
        file_ok(self.reader.data(), self.buffer.header_buf@), self.reader.pos() == 8 + self.buffer.header_buf@.len(),
        attrs_ok(self.reader.data(), self.buffer.header_buf@),
    ensures
        r is Ok ==> attr_selected(r->Ok_0, self.reader.data(), self.buffer.header_buf@, conds(query@)) && query@.len() > 0,
        r is Err ==> attr_fails(self.reader.data(), self.buffer.header_buf@, conds(query@)),
%%start
    let ghost d = self.reader.data(); let ghost h = self.buffer.header_buf@; let ghost cs = conds(query@);
    let ghost a = hdr_attrs(h)->0; let ghost c = hdr_cols(h)->0;
    proof { lemma_file(d, h); if hdr_attrs(h) is Some { lemma_lens(a, 0, a.len() as int); } }
%%loop 0
    invariant
        0 <= _i <= a.len(), attr_index_entries@ == a, cols_of(columns@) == c, attrs_ok(d, h), hdr_attrs(h) == Some(a), hdr_cols(h) == Some(c), lens(a, a.len() as int) <= u32::MAX,
        current_index == lens(a, _i as int), forall|k: int| 0 <= k < _i ==> attr_index_range@.contains_key(#[trigger] iname(a, c, k)),
        this.reader.data() == d, this.buffer.header_buf@ == h, this.reader.pos() == 8 + h.len(),
    decreases a.len() - _i,
%%loopstart 0
    proof { lemma_lens(a, _i as int + 1, a.len() as int); lemma_lens(a, _i as int, _i + 1); }
%%loopend 0
    _i += 1;
%%loop 1
    invariant
        0 <= _j <= a.len(), attr_index_entries@ == a, cols_of(columns@) == c, attrs_ok(d, h), hdr_attrs(h) == Some(a), hdr_cols(h) == Some(c), lens(a, a.len() as int) <= u32::MAX,
        forall|k: int| 0 <= k < a.len() ==> attr_index_range@.contains_key(#[trigger] iname(a, c, k)),
        multi_index.idxs() == smpart(a, c, _j as int), multi_index.end() == lens(a, _j as int),
        this.reader.data() == d, this.buffer.header_buf@ == h, this.reader.pos() == 8 + h.len() + rtree_len(h),
    decreases a.len() - _j,
%%loopstart 1
    proof { lemma_lens(a, _j as int + 1, a.len() as int); lemma_lens(a, _j as int, _j + 1); assert(attr_index_range@.contains_key(iname(a, c, _j as int))); }
%%loopend 1
    _j += 1;
%%pre `let result = match`
    proof {
        let p = 8 + h.len() + rtree_len(h);
        lemma_smpart(d, h, a, c, a.len() as int);
        lemma_idx_pre(d, h, a, c);
        assert(qconds(query_obj.conditions@) == cs);
    }
%%pre `Ok(FeatureIter::`
    proof { lemma_attr_sel(result_vec, feature_offset, d, h, cs); }
%%done
/// query.iter().map(|(field, _, _)| field.clone()).collect()
#[verifier::external_body] pub fn fields_of(q: &AttrQuery) -> (r: Vec<String>) ensures r@.len() == q@.len(), forall|i: int| 0 <= i < q@.len() ==> (#[trigger] r@[i])@ == q@[i].0@ { unimplemented!() }
pub open spec fn asked(cs: Seq<CondG>, name: Seq<char>) -> bool { exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).name == name }
pub open spec fn names_has(v: Seq<String>, name: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == name }
/// query_fields.contains(&field_name)
#[verifier::external_body] pub fn contains_name(v: &Vec<String>, s: &String) -> (r: bool) ensures r == names_has(v@, s@) { unimplemented!() }
/// query.iter().any(|(name, _, _)| col.name() == name)
#[verifier::external_body] pub fn asks_for(q: &AttrQuery, s: FbStr) -> (r: bool) ensures r == asked(conds(q@), s@) { unimplemented!() }
#[verifier::external_body] pub fn zeroed(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { unimplemented!() }
%%fn reader/attr_query.rs - add_indices_to_multi_memory_index
%%ret r
%%sig `mut data: R` => `data: &mut R`
%%sub `columns.iter().find(|col| col.index() ==` => `find_index_s(columns,`
%%sub `query.iter().any(|(name, _, _)| col.name() == name)` => `asks_for(query, col.name())`
%%sub `let mut buf = vec![0; length as usize]; data.read_exact(&mut buf)?;` => `let mut buf: Vec<u8> = zeroed(length as usize); data.read_exact_from(&mut buf, 0)?; let ghost x = buf@; proof { assert(buf@.subrange(0, buf@.len() as int) =~= buf@); }`
%%sub `Error::UnsupportedColumnType(col.name().to_string())` => `Error::Other`
%%spec
    requires
        has_col(cols_of(columns@), attr_info.i), cols_distinct(cols_of(columns@)), kt_of(col_of(cols_of(columns@), attr_info.i).type_) is Some,
        asked(conds(query@), col_of(cols_of(columns@), attr_info.i).name),
        0 <= old(data).pos(), old(data).pos() + attr_info.l <= old(data).data().len(),
        idx_ok(kt_of(col_of(cols_of(columns@), attr_info.i).type_)->0, old(data).data().subrange(old(data).pos(), old(data).pos() + attr_info.l), attr_info.n as int, attr_info.b as int),
    ensures ({
        let c = col_of(cols_of(columns@), attr_info.i);
        &&& r is Ok && final(data).data() == old(data).data() && final(data).pos() == old(data).pos() + attr_info.l
        &&& final(multi_index).idxs() == old(multi_index).idxs().insert(c.name, MIdx { kt: kt_of(c.type_)->0, x: old(data).data().subrange(old(data).pos(), old(data).pos() + attr_info.l), n: attr_info.n as int, b: attr_info.b as int })
    }),
%%done
/// the indexes of the attributes that are asked for, among the first k
pub open spec fn mpart(d: Seq<u8>, h: Seq<u8>, a: Seq<AttributeIndex>, c: Seq<ColG>, cs: Seq<CondG>, k: int) -> Map<Seq<char>, MIdx>
    decreases k
{ if k <= 0 { Map::empty() } else { let m = mpart(d, h, a, c, cs, k - 1); if asked(cs, iname(a, c, k - 1)) { m.insert(iname(a, c, k - 1), file_idx(d, h, a, c, k - 1)) } else { m } } }
pub proof fn lemma_mpart(d: Seq<u8>, h: Seq<u8>, a: Seq<AttributeIndex>, c: Seq<ColG>, cs: Seq<CondG>, k: int)
    requires 0 <= k <= a.len(), forall|j: int| 0 <= j < a.len() ==> midx_ok(#[trigger] file_idx(d, h, a, c, j)),
    ensures
        forall|f: Seq<char>| asked(cs, f) ==> mpart(d, h, a, c, cs, k).contains_key(f) == pmap(d, h, a, c, k).contains_key(f) && (pmap(d, h, a, c, k).contains_key(f) ==> mpart(d, h, a, c, cs, k)[f] == pmap(d, h, a, c, k)[f]),
        forall|f: Seq<char>| #[trigger] mpart(d, h, a, c, cs, k).contains_key(f) ==> midx_ok(mpart(d, h, a, c, cs, k)[f]),
    decreases k,
{
    if k > 0 { lemma_mpart(d, h, a, c, cs, k - 1); }
}
pub proof fn lemma_mall(d: Seq<u8>, h: Seq<u8>, a: Seq<AttributeIndex>, c: Seq<ColG>, cs: Seq<CondG>)
    requires hdr_attrs(h) == Some(a), hdr_cols(h) == Some(c), forall|j: int| 0 <= j < a.len() ==> midx_ok(#[trigger] file_idx(d, h, a, c, j)),
    ensures all_known(mpart(d, h, a, c, cs, a.len() as int), cs) == all_known(fmap(d, h), cs), forall|o: u64| #[trigger] mall(mpart(d, h, a, c, cs, a.len() as int), cs, o) == mall(fmap(d, h), cs, o),
{
    let n = a.len() as int; let m = mpart(d, h, a, c, cs, n); let f = fmap(d, h);
    lemma_mpart(d, h, a, c, cs, n);
    assert forall|i: int| 0 <= i < cs.len() implies mknown(m, #[trigger] cs[i]) == mknown(f, cs[i]) && forall|o: u64| #[trigger] mholds(m, cs[i], o) == mholds(f, cs[i], o) by { assert(asked(cs, cs[i].name)); }
    if all_known(m, cs) { assert forall|i: int| 0 <= i < cs.len() implies mknown(f, #[trigger] cs[i]) by { assert(mknown(m, cs[i])); } }
    if all_known(f, cs) { assert forall|i: int| 0 <= i < cs.len() implies mknown(m, #[trigger] cs[i]) by { assert(mknown(f, cs[i])); } }
    assert forall|o: u64| #[trigger] mall(m, cs, o) == mall(f, cs, o) by {
        if mall(m, cs, o) { assert forall|i: int| 0 <= i < cs.len() implies mholds(f, #[trigger] cs[i], o) by { assert(mholds(m, cs[i], o)); } }
        if mall(f, cs, o) { assert forall|i: int| 0 <= i < cs.len() implies mholds(m, #[trigger] cs[i], o) by { assert(mholds(f, cs[i], o)); } }
    }
}
%%fn reader/attr_query.rs "impl<R: Read> FcbReader<R>" select_attr_query_seq
%%attr #[verifier::rlimit(80)]
%%ret r
%%loops 1
%%mutparam self
%%sub `header .attribute_index() .ok_or(Error::AttributeIndexNotFound)?` => `or_err(header.attribute_index())?`
%%sub `Error::AttributeIndexNotFound` => `Error::Other`
%%sub `let columns: Vec<Column> = header .columns() .ok_or(Error::NoColumnsInHeader)? .iter() .collect();` => `let columns: Vec<Column> = or_err(columns_of(&header))?;`
%%sub `io::copy(&mut (&mut self.reader).take(rtree_offset), &mut io::sink())?` => `self.reader.skip(rtree_offset)?`
%%sub `io::copy( &mut (&mut self.reader).take(index_size as u64), &mut io::sink(), )?` => `self.reader.skip(index_size as u64)?`
%%sub `query.iter().map(|(field, _, _)| field.clone()).collect();` => `fields_of(&query); let mut _i: usize = 0;`
%%sub `for attr_info in attr_index_entries.iter() {` => `while _i < attr_index_entries.len() { let attr_info = attr_index_entries.get(_i);`
%%sub `columns .iter() .find(|c| c.index() == column_idx) .ok_or(Error::Other)?` => `or_err(find_index(&columns, column_idx))?`
%%sub `query_fields.contains(&field_name)` => `contains_name(&query_fields, &field_name)`
%%sub? `result.sort()` => `sort_u64(&mut result)`
%%sub? `result.dedup()` => `dedup_u64(&mut result)`
%%spec
    requires
        file_ok(self.reader.data(), self.buffer.header_buf@), self.reader.pos() == 8 + self.buffer.header_buf@.len(),
        attrs_ok(self.reader.data(), self.buffer.header_buf@),
    ensures
        r is Ok ==> attr_selected(r->Ok_0, self.reader.data(), self.buffer.header_buf@, conds(query@)) && query@.len() > 0,
        r is Err ==> attr_fails(self.reader.data(), self.buffer.header_buf@, conds(query@)),
%%start
    let ghost d = self.reader.data(); let ghost h = self.buffer.header_buf@; let ghost cs = conds(query@);
    let ghost a = hdr_attrs(h)->0; let ghost c = hdr_cols(h)->0; let ghost p = 8 + h.len() + rtree_len(h);
    proof { lemma_file(d, h); if hdr_attrs(h) is Some { lemma_lens(a, 0, a.len() as int); } }
%%loop 0
    invariant
        0 <= _i <= a.len(), attr_index_entries@ == a, cols_of(columns@) == c, attrs_ok(d, h), file_ok(d, h), hdr_attrs(h) == Some(a), hdr_cols(h) == Some(c), lens(a, a.len() as int) <= u32::MAX,
        p == 8 + h.len() + rtree_len(h), rtree_len(h) >= 0, p + lens(a, a.len() as int) <= d.len(), cs == conds(query@),
        query_fields@.len() == query@.len(), forall|i: int| 0 <= i < query@.len() ==> (#[trigger] query_fields@[i])@ == query@[i].0@,
        multi_index.idxs() == mpart(d, h, a, c, cs, _i as int),
        this.reader.data() == d, this.buffer.header_buf@ == h, this.reader.pos() == p + lens(a, _i as int),
    decreases a.len() - _i,
%%loopstart 0
    proof { let i = _i as int; lemma_lens(a, i + 1, a.len() as int); lemma_lens(a, i, i + 1); lemma_lens(a, 0, i); lemma_names(query_fields@, query@, iname(a, c, i)); assert(midx_ok(file_idx(d, h, a, c, i))); }
%%loopend 0
    _i += 1;
%%pre `let mut result`
    proof {
        assert forall|j: int| 0 <= j < a.len() implies midx_ok(#[trigger] file_idx(d, h, a, c, j)) by { assert(has_col(c, a[j].i)); }
        lemma_mpart(d, h, a, c, cs, a.len() as int); lemma_mall(d, h, a, c, cs);
        assert(qconds(query_obj.conditions@) == cs);
    }
%%pre `Ok(FeatureIter::`
    proof { lemma_attr_sel(result, feature_offset, d, h, cs); }
%%done
pub proof fn lemma_names(v: Seq<String>, q: Seq<(String, Operator, KeyType)>, name: Seq<char>)
    requires v.len() == q.len(), forall|i: int| 0 <= i < q.len() ==> (#[trigger] v[i])@ == q[i].0@,
    ensures names_has(v, name) == asked(conds(q), name),
{
    if names_has(v, name) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == name; assert(conds(q)[i].name == name); }
    if asked(conds(q), name) { let i = choose|i: int| 0 <= i < conds(q).len() && (#[trigger] conds(q)[i]).name == name; assert(v[i]@ == name); }
}
fn main() {}
}
