// ---- the attribute indexes of a file: from the features' attributes to the bytes of an index
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Utc { x: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct DateTime<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body] pub struct FixedDateTime { x: u8 }
/// the instant an RFC 3339 text names
pub uninterp spec fn instant(s: Seq<char>) -> DateTime<Utc>;
pub uninterp spec fn epoch() -> DateTime<Utc>;
impl FixedDateTime {
    pub uninterp spec fn at(&self) -> DateTime<Utc>;
    #[verifier::external_body] pub fn to_utc(&self) -> (r: DateTime<Utc>) ensures r == self.at() { unimplemented!() }
}
#[verifier::external_body] pub fn parse_rfc3339(s: &str) -> (r: Result<FixedDateTime, Error>) ensures r is Ok <==> rfc3339(s@), r is Ok ==> (r->Ok_0).at() == instant(s@) { unimplemented!() }
#[verifier::external_body] pub fn unix_epoch() -> (r: DateTime<Utc>) ensures r == epoch() { unimplemented!() }
#[verifier::external_body] pub fn clone_instant(d: &DateTime<Utc>) -> (r: DateTime<Utc>) ensures r == *d { unimplemented!() }
#[verifier::external_body] pub fn zero64() -> (r: f64) ensures r == dbl(0) { 0.0 }
%%pubitem writer/attribute.rs pub enum AttributeIndexEntry
/// a value as an index takes it
pub ghost enum KeyG { Bool(bool), I32(i32), U32(u32), I64(i64), U64(u64), F32(f32), F64(f64), Text(Seq<char>), Time(DateTime<Utc>), I16(i16), U16(u16), Byte(u8), UByte(u8), Json(Seq<char>), Bin(Seq<char>), Fixed(int, Seq<u8>) }
pub ghost struct EntG { pub index: u16, pub key: KeyG }
pub open spec fn eg(e: AttributeIndexEntry) -> EntG {
    match e {
        AttributeIndexEntry::Bool { index, val } => EntG { index, key: KeyG::Bool(val) },
        AttributeIndexEntry::Int { index, val } => EntG { index, key: KeyG::I32(val) },
        AttributeIndexEntry::UInt { index, val } => EntG { index, key: KeyG::U32(val) },
        AttributeIndexEntry::Long { index, val } => EntG { index, key: KeyG::I64(val) },
        AttributeIndexEntry::ULong { index, val } => EntG { index, key: KeyG::U64(val) },
        AttributeIndexEntry::Float { index, val } => EntG { index, key: KeyG::F32(val) },
        AttributeIndexEntry::Double { index, val } => EntG { index, key: KeyG::F64(val) },
        AttributeIndexEntry::String { index, val } => EntG { index, key: KeyG::Text(val@) },
        AttributeIndexEntry::DateTime { index, val } => EntG { index, key: KeyG::Time(val) },
        AttributeIndexEntry::Short { index, val } => EntG { index, key: KeyG::I16(val) },
        AttributeIndexEntry::UShort { index, val } => EntG { index, key: KeyG::U16(val) },
        AttributeIndexEntry::Byte { index, val } => EntG { index, key: KeyG::Byte(val) },
        AttributeIndexEntry::UByte { index, val } => EntG { index, key: KeyG::UByte(val) },
        AttributeIndexEntry::Json { index, val } => EntG { index, key: KeyG::Json(val@) },
        AttributeIndexEntry::Binary { index, val } => EntG { index, key: KeyG::Bin(val@) },
    }
}
pub open spec fn egs(s: Seq<AttributeIndexEntry>) -> Seq<EntG> { s.map_values(|e: AttributeIndexEntry| eg(e)) }
/// the key a value has in an index over a column of this type; values of other types are not indexed
pub open spec fn index_key(c: ColumnType, v: Value) -> Option<KeyG> {
    if c == ColumnType::Bool { Some(KeyG::Bool(match v { Value::Bool(b) => b, _ => false })) }
    else if c == ColumnType::Int { Some(KeyG::I32(signed(v) as i32)) }
    else if c == ColumnType::UInt { Some(KeyG::U32(unsigned(v) as u32)) }
    else if c == ColumnType::Long { Some(KeyG::I64(signed(v))) }
    else if c == ColumnType::ULong { Some(KeyG::U64(unsigned(v))) }
    else if c == ColumnType::Float { Some(KeyG::F32(f32_of(float(v)))) }
    else if c == ColumnType::Double { Some(KeyG::F64(float(v))) }
    else if c == ColumnType::String { Some(KeyG::Text(text(v))) }
    else if c == ColumnType::DateTime { Some(KeyG::Time(if rfc3339(text(v)) { instant(text(v)) } else { epoch() })) }
    else { None }
}
pub open spec fn signed(v: Value) -> i64 { match v { Value::Number(n) => match int_of(n@) { Some(i) => i, None => 0 }, _ => 0 } }
pub open spec fn unsigned(v: Value) -> u64 { match v { Value::Number(n) => match n@ { Num::P(u) => u, _ => 0 }, _ => 0 } }
pub open spec fn float(v: Value) -> f64 { match v { Value::Number(n) => flt(n@), _ => dbl(0) } }
pub open spec fn text(v: Value) -> Seq<char> { match v { Value::String(s) => s@, _ => ""@ } }
/// what one object contributes to the index of one attribute
pub open spec fn one_entry(v: Value, s: SM, name: Seq<char>) -> Option<EntG> {
    if v is Object && v.map().contains_key(name) && !(v.map()[name] is Null) && s.contains_key(name) {
        match index_key(s[name].1, v.map()[name]) { Some(k) => Some(EntG { index: s[name].0, key: k }), None => None }
    } else { None }
}
pub open spec fn names_view(n: Seq<String>) -> Seq<Seq<char>> { n.map_values(|s: String| s@) }
pub open spec fn object_entries(v: Value, s: SM, names: Seq<Seq<char>>, k: int) -> Seq<EntG>
    decreases k
{ if k <= 0 { Seq::empty() } else { let r = object_entries(v, s, names, k - 1); match one_entry(v, s, names[k - 1]) { Some(e) => r.push(e), None => r } } }
proof fn lemma_no_entries(v: Value, s: SM, names: Seq<Seq<char>>, k: int)
    requires !(v is Object) || forall|n: Seq<char>| !#[trigger] v.map().contains_key(n),
    ensures object_entries(v, s, names, k) == Seq::<EntG>::empty(),
    decreases k
{ if k > 0 { lemma_no_entries(v, s, names, k - 1); } }
%%fn writer/attribute.rs "-" attribute_to_index_entries
%%ret r
%%loops 1
%%sub `for attr in indexing_attr {` => `let mut _n: usize = 0; while _n < indexing_attr.len() { let attr = &indexing_attr[_n]; _n += 1;`
%%sub `schema.get(attr)` => `schema.get(attr.as_str())`
%%sub `chrono::DateTime::parse_from_rfc3339(` => `parse_rfc3339(`
%%sub `DateTime::<Utc>::from_timestamp(0, 0).unwrap()` => `unix_epoch()`
%%sub `f as f32` => `to_f32(f)`
%%sub `.unwrap_or(0.0)` => `.unwrap_or(zero64())`
%%spec
    ensures egs(r@) == object_entries(*attr, schema@, names_view(indexing_attr@), indexing_attr@.len() as int),
%%start
    let ghost names = names_view(indexing_attr@); let ghost whole = *attr; let ghost s = schema@;
    proof { if !(whole is Object) || forall|n: Seq<char>| !#[trigger] whole.map().contains_key(n) { lemma_no_entries(whole, s, names, names.len() as int); assert(egs(Seq::<AttributeIndexEntry>::empty()) =~= Seq::<EntG>::empty()); } }
%%loop 0
    invariant 0 <= _n <= indexing_attr@.len(), names == names_view(indexing_attr@), whole is Object, map@ == whole.map(), s == schema@, egs(index_entries@) == object_entries(whole, s, names, _n as int),
    decreases indexing_attr@.len() - _n
%%before 0
    proof { assert(egs(index_entries@) =~= Seq::<EntG>::empty()); }
%%loopstart 0
    let ghost old_ = index_entries@;
    proof { let nm = indexing_attr@[_n as int]@; assert(names[_n as int] == nm); let e = one_entry(whole, s, nm); assert(object_entries(whole, s, names, _n + 1) == match e { Some(x) => egs(old_).push(x), None => egs(old_) }); }
%%loopend 0
    proof { if index_entries@.len() > old_.len() { assert(index_entries@ =~= old_.push(index_entries@.last())); assert(egs(index_entries@) =~= egs(old_).push(eg(index_entries@.last()))); } }
%%done
pub struct CjCityObject { pub attributes: Option<Value>, pub rest: CityObjectRest }
#[verifier::external_body] pub struct CityObjectRest { x: u8 }
#[verifier::external_body] pub struct FeatureRest { x: u8 }
pub struct CityJSONFeature { pub id: String, pub city_objects: HashMap<CjCityObject>, pub vertices: Vec<Vec<i64>>, pub rest: FeatureRest }
/// ks lists the keys of m, each once
pub open spec fn listed<V>(m: Map<Seq<char>, V>, ks: Seq<Seq<char>>) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i])
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j]
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> ks.contains(k)
}
pub open spec fn of_object(o: CjCityObject, s: SM, names: Seq<Seq<char>>) -> Seq<EntG> { match o.attributes { Some(v) => object_entries(v, s, names, names.len() as int), None => Seq::empty() } }
pub open spec fn of_objects(m: Map<Seq<char>, CjCityObject>, ks: Seq<Seq<char>>, s: SM, names: Seq<Seq<char>>, k: int) -> Seq<EntG>
    decreases k
{ if k <= 0 { Seq::empty() } else { of_objects(m, ks, s, names, k - 1) + of_object(m[ks[k - 1]], s, names) } }
/// the index entries of a feature: those of its objects, one after the other
pub open spec fn feature_entries(f: CityJSONFeature, s: SM, names: Seq<Seq<char>>, es: Seq<EntG>) -> bool {
    exists|ks: Seq<Seq<char>>| #[trigger] listed(f.city_objects@, ks) && es == of_objects(f.city_objects@, ks, s, names, ks.len() as int)
}
pub open spec fn keys_of(es: Seq<(&String, &CjCityObject)>) -> Seq<Seq<char>> { Seq::new(es.len(), |i: int| es[i].0@) }
%%fn writer/attribute.rs "-" cityfeature_to_index_entries
%%ret r
%%loops 1
%%sub `for object in cityfeature.city_objects.values() {` => `let _es = cityfeature.city_objects.entries(); let mut _i: usize = 0; while _i < _es.len() { let object = _es[_i].1; _i += 1;`
%%sub `index_entries.extend(attr_index_entries)` => `{ let mut _a = attr_index_entries; index_entries.append(&mut _a) }`
%%spec
    ensures feature_entries(*cityfeature, schema@, names_view(indexing_attr@), egs(r@)),
%%before 0
    let ghost ks = keys_of(_es@); let ghost names = names_view(indexing_attr@);
    proof {
        assert(egs(index_entries@) =~= Seq::<EntG>::empty());
        assert forall|k: Seq<char>| #[trigger] cityfeature.city_objects@.contains_key(k) implies ks.contains(k) by { let i = choose|i: int| 0 <= i < _es@.len() && (#[trigger] _es@[i]).0@ == k; assert(ks[i] == k); }
        assert forall|i: int, j: int| 0 <= i < j < ks.len() implies #[trigger] ks[i] != #[trigger] ks[j] by { assert(_es@[i].0@ != _es@[j].0@); }
        assert forall|i: int| 0 <= i < ks.len() implies cityfeature.city_objects@.contains_key(#[trigger] ks[i]) by { assert(cityfeature.city_objects@.contains_key(_es@[i].0@)); }
    }
%%loop 0
    invariant 0 <= _i <= _es@.len(), ks == keys_of(_es@), names == names_view(indexing_attr@), listed(cityfeature.city_objects@, ks), egs(index_entries@) == of_objects(cityfeature.city_objects@, ks, schema@, names, _i as int),
        forall|i: int| 0 <= i < _es@.len() ==> cityfeature.city_objects@.contains_key((#[trigger] _es@[i]).0@) && cityfeature.city_objects@[_es@[i].0@] == *_es@[i].1,
    decreases _es@.len() - _i
%%loopstart 0
    let ghost old_ = index_entries@;
%%loopend 0
    proof {
        assert(ks[_i - 1] == _es@[_i - 1].0@); assert(cityfeature.city_objects@[ks[_i - 1]] == *object);
        let n = of_object(*object, schema@, names);
        assert(of_objects(cityfeature.city_objects@, ks, schema@, names, _i as int) == egs(old_) + n);
        assert(egs(index_entries@) =~= egs(old_) + n);
    }
%%done

// ---- building an index over (key, offset) pairs
pub trait KeyT: Sized { spec fn g(&self) -> KeyG; }
impl KeyT for bool { open spec fn g(&self) -> KeyG { KeyG::Bool(*self) } }
impl KeyT for i32 { open spec fn g(&self) -> KeyG { KeyG::I32(*self) } }
impl KeyT for u32 { open spec fn g(&self) -> KeyG { KeyG::U32(*self) } }
impl KeyT for i64 { open spec fn g(&self) -> KeyG { KeyG::I64(*self) } }
impl KeyT for u64 { open spec fn g(&self) -> KeyG { KeyG::U64(*self) } }
impl KeyT for i16 { open spec fn g(&self) -> KeyG { KeyG::I16(*self) } }
impl KeyT for u16 { open spec fn g(&self) -> KeyG { KeyG::U16(*self) } }
impl KeyT for u8 { open spec fn g(&self) -> KeyG { KeyG::Byte(*self) } }
pub struct OrderedFloat<T>(pub T);
impl KeyT for OrderedFloat<f32> { open spec fn g(&self) -> KeyG { KeyG::F32(self.0) } }
impl KeyT for OrderedFloat<f64> { open spec fn g(&self) -> KeyG { KeyG::F64(self.0) } }
impl KeyT for DateTime<Utc> { open spec fn g(&self) -> KeyG { KeyG::Time(*self) } }
pub struct FixedStringKey<const N: usize>(pub [u8; N]);
/// the first n bytes of the text, filled up with zeros
pub uninterp spec fn fixed(n: int, s: Seq<char>) -> Seq<u8>;
impl<const N: usize> FixedStringKey<N> { #[verifier::external_body] pub fn from_str(s: &str) -> (r: Self) ensures r.0@ == fixed(N as int, s@) { unimplemented!() } }
impl<const N: usize> KeyT for FixedStringKey<N> { open spec fn g(&self) -> KeyG { KeyG::Fixed(N as int, self.0@) } }
/// the tree key of an entry of a column of this type
pub open spec fn tree_key(c: ColumnType, k: KeyG) -> Option<KeyG> {
    match k {
        KeyG::Bool(_) => if c == ColumnType::Bool { Some(k) } else { None },
        KeyG::I32(_) => if c == ColumnType::Int { Some(k) } else { None },
        KeyG::U32(_) => if c == ColumnType::UInt { Some(k) } else { None },
        KeyG::I64(_) => if c == ColumnType::Long { Some(k) } else { None },
        KeyG::U64(_) => if c == ColumnType::ULong { Some(k) } else { None },
        KeyG::F32(_) => if c == ColumnType::Float { Some(k) } else { None },
        KeyG::F64(_) => if c == ColumnType::Double { Some(k) } else { None },
        KeyG::Text(s) => if c == ColumnType::String { Some(KeyG::Fixed(50, fixed(50, s))) } else { None },
        KeyG::Time(_) => if c == ColumnType::DateTime { Some(k) } else { None },
        KeyG::I16(_) => if c == ColumnType::Short { Some(k) } else { None },
        KeyG::U16(_) => if c == ColumnType::UShort { Some(k) } else { None },
        KeyG::Byte(_) => if c == ColumnType::Byte { Some(k) } else { None },
        KeyG::UByte(x) => if c == ColumnType::UByte { Some(KeyG::Byte(x)) } else { None },
        KeyG::Json(s) => if c == ColumnType::Json { Some(KeyG::Fixed(100, fixed(100, s))) } else { None },
        KeyG::Bin(s) => if c == ColumnType::Binary { Some(KeyG::Fixed(100, fixed(100, s))) } else { None },
        KeyG::Fixed(..) => None,
    }
}
pub open spec fn indexable(c: ColumnType) -> bool {
    c == ColumnType::Bool || c == ColumnType::Int || c == ColumnType::UInt || c == ColumnType::Long || c == ColumnType::ULong || c == ColumnType::Float || c == ColumnType::Double || c == ColumnType::String
    || c == ColumnType::DateTime || c == ColumnType::Short || c == ColumnType::UShort || c == ColumnType::Byte || c == ColumnType::UByte || c == ColumnType::Json || c == ColumnType::Binary
}
pub open spec fn wanted(e: EntG, index: u16, c: ColumnType) -> Option<KeyG> { if e.index == index { tree_key(c, e.key) } else { None } }
pub open spec fn kopt<T: KeyT>(r: Option<T>) -> Option<KeyG> { match r { Some(k) => Some(k.g()), None => None } }
%%pubitem static_btree/entry.rs pub struct Entry
%%isub `<K: Key>` => `<K: KeyT>`
%%isub `Offset` => `u64`
%%pubitem writer/serializer.rs pub(super) struct AttributeIndexInfo
%%isub `pub(super)` => `pub`
%%pubitem writer/feature_writer.rs pub(super) struct AttributeFeatureOffset
%%isub `pub(super)` => `pub`
/// the bytes of the index built over these pairs, and the number of its keys (units stree, query)
pub uninterp spec fn idx_bytes(es: Seq<(KeyG, u64)>, b: int) -> Seq<u8>;
pub uninterp spec fn idx_keys(es: Seq<(KeyG, u64)>) -> int;
pub open spec fn pairs_of<T: KeyT>(s: Seq<Entry<T>>) -> Seq<(KeyG, u64)> { s.map_values(|e: Entry<T>| (e.key.g(), e.offset)) }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct MemoryIndex<T> { x: core::marker::PhantomData<T> }
impl<T: KeyT> MemoryIndex<T> {
    pub uninterp spec fn over(&self) -> Seq<(KeyG, u64)>;
    pub uninterp spec fn b(&self) -> u16;
    #[verifier::external_body] pub fn build(entries: &Vec<Entry<T>>, branching_factor: u16) -> (r: Result<Self, Error>)
        requires entries@.len() > 0, branching_factor >= 2
        ensures r is Ok, (r->Ok_0).over() == pairs_of(entries@), (r->Ok_0).b() == branching_factor { unimplemented!() }
    #[verifier::external_body] pub fn serialize(&self, out: &mut Vec<u8>) -> (r: Result<usize, Error>)
        ensures r is Ok, final(out)@ == old(out)@ + idx_bytes(self.over(), self.b() as int) { unimplemented!() }
    #[verifier::external_body] pub fn branching_factor(&self) -> (r: u16) ensures r == self.b() { unimplemented!() }
    #[verifier::external_body] pub fn num_items(&self) -> (r: usize) ensures r == idx_keys(self.over()) { unimplemented!() }
}
// ---- a map from numbers
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct UMap<V> { x: core::marker::PhantomData<V> }
impl<V> UMap<V> {
    pub uninterp spec fn view(&self) -> Map<usize, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<usize, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: usize, v: V) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &usize) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)), None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ }
    { unimplemented!() }
    /// the keys and values in the order in which values() goes through them
    #[verifier::external_body] pub fn vals(&self) -> (r: Vec<(usize, &V)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0) && self@[r@[i].0] == *r@[i].1,
            forall|k: usize| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
    { unimplemented!() }
}
pub type EMap = Map<usize, AttributeFeatureOffset>;
pub open spec fn ent_at(m: EMap, u: usize, t: int) -> bool { m.contains_key(u) && 0 <= t < m[u].index_entries@.len() }
/// what extract makes of every entry of every feature, with the feature's offset
pub open spec fn drawn<T: KeyT, F: Fn(&AttributeIndexEntry) -> Option<T>>(f: F, m: EMap, es: Seq<(KeyG, u64)>) -> bool {
    &&& forall|p: (KeyG, u64)| #[trigger] es.contains(p) ==> exists|u: usize, t: int, k: T| ent_at(m, u, t) && #[trigger] f.ensures((&m[u].index_entries@[t],), Some(k)) && p == (k.g(), m[u].offset as u64)
    &&& forall|u: usize, t: int| #[trigger] ent_at(m, u, t) ==> exists|r: Option<T>| #[trigger] f.ensures((&m[u].index_entries@[t],), r) && (r is Some ==> es.contains(((r->0).g(), m[u].offset as u64)))
}
proof fn lemma_push<T>(s: Seq<T>, x: T)
    ensures s.push(x).contains(x), forall|y: T| #[trigger] s.contains(y) ==> s.push(x).contains(y), forall|y: T| #[trigger] s.push(x).contains(y) ==> y == x || s.contains(y),
{
    assert(s.push(x)[s.len() as int] == x);
    assert forall|y: T| #[trigger] s.contains(y) implies s.push(x).contains(y) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
    assert forall|y: T| #[trigger] s.push(x).contains(y) implies y == x || s.contains(y) by { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; if i < s.len() { assert(s[i] == y); } }
}
/// what has been drawn from the first i features and the first j entries of the next one
pub open spec fn drawn_part<T: KeyT, F: Fn(&AttributeIndexEntry) -> Option<T>>(f: F, m: EMap, vs: Seq<(usize, &AttributeFeatureOffset)>, i: int, j: int, es: Seq<(KeyG, u64)>) -> bool {
    &&& forall|p: (KeyG, u64)| #[trigger] es.contains(p) ==> exists|u: usize, t: int, k: T| ent_at(m, u, t) && #[trigger] f.ensures((&m[u].index_entries@[t],), Some(k)) && p == (k.g(), m[u].offset as u64)
    &&& forall|x: int, t: int| 0 <= x < vs.len() && (x < i || x == i && t < j) && #[trigger] ent_at(m, vs[x].0, t) ==> exists|r: Option<T>| #[trigger] f.ensures((&m[vs[x].0].index_entries@[t],), r) && (r is Some ==> es.contains(((r->0).g(), m[vs[x].0].offset as u64)))
}
proof fn lemma_drawn_step<T: KeyT, F: Fn(&AttributeIndexEntry) -> Option<T>>(f: F, m: EMap, vs: Seq<(usize, &AttributeFeatureOffset)>, i: int, j: int, es: Seq<(KeyG, u64)>, es2: Seq<(KeyG, u64)>, r: Option<T>)
    requires drawn_part(f, m, vs, i, j, es), 0 <= i < vs.len(), ent_at(m, vs[i].0, j), f.ensures((&m[vs[i].0].index_entries@[j],), r), es2 == (match r { Some(k) => es.push((k.g(), m[vs[i].0].offset as u64)), None => es }),
    ensures drawn_part(f, m, vs, i, j + 1, es2),
{
    let u = vs[i].0;
    if r is Some { lemma_push(es, ((r->0).g(), m[u].offset as u64)); }
    assert forall|p: (KeyG, u64)| #[trigger] es2.contains(p) implies exists|u: usize, t: int, k: T| ent_at(m, u, t) && #[trigger] f.ensures((&m[u].index_entries@[t],), Some(k)) && p == (k.g(), m[u].offset as u64) by {
        if !es.contains(p) { assert(ent_at(m, u, j) && f.ensures((&m[u].index_entries@[j],), Some(r->0))); }
    }
    assert forall|x: int, t: int| 0 <= x < vs.len() && (x < i || x == i && t < j + 1) && #[trigger] ent_at(m, vs[x].0, t) implies exists|r: Option<T>| #[trigger] f.ensures((&m[vs[x].0].index_entries@[t],), r) && (r is Some ==> es2.contains(((r->0).g(), m[vs[x].0].offset as u64))) by {
        if x == i && t == j { assert(f.ensures((&m[u].index_entries@[j],), r)); }
        else { let q = choose|q: Option<T>| #[trigger] f.ensures((&m[vs[x].0].index_entries@[t],), q) && (q is Some ==> es.contains(((q->0).g(), m[vs[x].0].offset as u64))); assert(f.ensures((&m[vs[x].0].index_entries@[t],), q)); }
    }
}
proof fn lemma_drawn_end<T: KeyT, F: Fn(&AttributeIndexEntry) -> Option<T>>(f: F, m: EMap, vs: Seq<(usize, &AttributeFeatureOffset)>, es: Seq<(KeyG, u64)>)
    requires drawn_part(f, m, vs, vs.len() as int, 0, es), forall|k: usize| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < vs.len() && (#[trigger] vs[i]).0 == k,
    ensures drawn(f, m, es),
{
    assert forall|u: usize, t: int| #[trigger] ent_at(m, u, t) implies exists|r: Option<T>| #[trigger] f.ensures((&m[u].index_entries@[t],), r) && (r is Some ==> es.contains(((r->0).g(), m[u].offset as u64))) by {
        let i = choose|i: int| 0 <= i < vs.len() && (#[trigger] vs[i]).0 == u;
        assert(ent_at(m, vs[i].0, t));
    }
}
pub open spec fn built(x: (Vec<u8>, AttributeIndexInfo), index: u16, es: Seq<(KeyG, u64)>, b: u16) -> bool {
    x.0@ == idx_bytes(es, b as int) && x.1.index == index && x.1.length == x.0@.len() as u32 && x.1.branching_factor == b && x.1.num_unique_items == idx_keys(es) as u32
}
/// the pairs of an index: the key of every entry of this column, with the offset of its feature
pub open spec fn index_pairs(m: EMap, index: u16, c: ColumnType, es: Seq<(KeyG, u64)>) -> bool {
    &&& forall|p: (KeyG, u64)| #[trigger] es.contains(p) ==> exists|u: usize, t: int| #[trigger] ent_at(m, u, t) && wanted(eg(m[u].index_entries@[t]), index, c) == Some(p.0) && p.1 == m[u].offset as u64
    &&& forall|u: usize, t: int| #[trigger] ent_at(m, u, t) && wanted(eg(m[u].index_entries@[t]), index, c) is Some ==> es.contains((wanted(eg(m[u].index_entries@[t]), index, c)->0, m[u].offset as u64))
}
pub open spec fn column(c: ColumnType) -> bool { true }
pub open spec fn agrees<T: KeyT, F: Fn(&AttributeIndexEntry) -> Option<T>>(f: F, index: u16, c: ColumnType) -> bool { forall|e: &AttributeIndexEntry, o: Option<T>| #[trigger] f.ensures((e,), o) ==> kopt(o) == wanted(eg(*e), index, c) }
/// an index over the pairs, or an error when there are none
pub open spec fn indexed(r: Result<(Vec<u8>, AttributeIndexInfo), Error>, m: EMap, index: u16, c: ColumnType, b: u16) -> bool {
    match r {
        Ok(x) => exists|es: Seq<(KeyG, u64)>| es.len() > 0 && #[trigger] index_pairs(m, index, c, es) && built(x, index, es, b),
        Err(_) => index_pairs(m, index, c, Seq::empty()),
    }
}
proof fn lemma_pairs<T: KeyT, F: Fn(&AttributeIndexEntry) -> Option<T>>(f: F, m: EMap, es: Seq<(KeyG, u64)>, index: u16, c: ColumnType)
    requires drawn(f, m, es), agrees(f, index, c),
    ensures index_pairs(m, index, c, es),
{}
%%fn writer/attr_index.rs "-" build_index_generic
%%ret r
%%loops 2
%%sig `T: Key` => `T: KeyT`
%%sig `HashMap<usize, AttributeFeatureOffset>` => `UMap<AttributeFeatureOffset>`
%%sig `Result<(Vec<u8>, AttributeIndexInfo)>` => `Result<(Vec<u8>, AttributeIndexInfo), Error>`
%%sub `for feature in attribute_entries.values() {` => `let _vs = attribute_entries.vals(); let mut _i: usize = 0; while _i < _vs.len() { let feature = _vs[_i].1;`
%%sub `for entry in &feature.index_entries {` => `let mut _j: usize = 0; while _j < feature.index_entries.len() { let entry = &feature.index_entries[_j]; _j += 1;`
%%spec
    requires branching_factor >= 2, forall|e: &AttributeIndexEntry| #[trigger] extract.requires((e,)),
    ensures
        forall|c: ColumnType| #[trigger] column(c) && agrees(extract, schema_index, c) ==> indexed(r, attribute_entries@, schema_index, c, branching_factor),
%%before 0
    let ghost m = attribute_entries@; let ghost vs = _vs@;
    proof { assert(pairs_of(entries@) =~= Seq::<(KeyG, u64)>::empty()); }
%%loop 0
    invariant 0 <= _i <= _vs@.len(), vs == _vs@, m == attribute_entries@, drawn_part(extract, m, vs, _i as int, 0, pairs_of(entries@)), forall|e: &AttributeIndexEntry| #[trigger] extract.requires((e,)),
        forall|i: int| 0 <= i < vs.len() ==> m.contains_key((#[trigger] vs[i]).0) && m[vs[i].0] == *vs[i].1,
    decreases _vs@.len() - _i
%%loop 1
    invariant 0 <= _j <= feature.index_entries@.len(), 0 <= _i < _vs@.len(), vs == _vs@, m == attribute_entries@, m.contains_key(vs[_i as int].0), m[vs[_i as int].0] == *feature, drawn_part(extract, m, vs, _i as int, _j as int, pairs_of(entries@)), forall|e: &AttributeIndexEntry| #[trigger] extract.requires((e,)),
    decreases feature.index_entries@.len() - _j
%%loopstart 1
    let ghost es0 = pairs_of(entries@); let ghost old_ = entries@;
    proof { assert(ent_at(m, vs[_i as int].0, _j as int)); }
%%after `let Some(key) = extract(entry) else { proof { lemma_drawn_step(extract, m, vs, _i as int, _j - 1, es0, es0, None::<T>); } continue; };`
    let ghost key_ = key;
%%sub `let Some(key) = extract(entry) else { continue; };` => `let Some(key) = extract(entry) else { proof { lemma_drawn_step(extract, m, vs, _i as int, _j - 1, es0, es0, None::<T>); } continue; };`
%%loopend 1
    proof { assert(entries@ =~= old_.push(Entry { key: key_, offset: feature.offset as u64 })); assert(pairs_of(entries@) =~= es0.push((key_.g(), feature.offset as u64))); lemma_drawn_step(extract, m, vs, _i as int, _j - 1, es0, pairs_of(entries@), Some(key_)); }
%%loopend 0
    _i += 1;
%%post 0
    proof {
        lemma_drawn_end(extract, m, vs, pairs_of(entries@)); if entries@.len() == 0 { assert(pairs_of(entries@) =~= Seq::<(KeyG, u64)>::empty()); }
        assert forall|c: ColumnType| #[trigger] column(c) && agrees(extract, schema_index, c) implies index_pairs(m, schema_index, c, pairs_of(entries@)) by { lemma_pairs(extract, m, pairs_of(entries@), schema_index, c); }
    }
%%end
    proof {
        assert(Seq::<u8>::empty() + idx_bytes(index.over(), index.b() as int) =~= idx_bytes(index.over(), index.b() as int));
        assert forall|c: ColumnType| #[trigger] column(c) && agrees(extract, schema_index, c) implies index_pairs(m, schema_index, c, pairs_of(entries@)) by { lemma_pairs(extract, m, pairs_of(entries@), schema_index, c); }
    }
%%done
%%fn writer/attr_index.rs "-" build_attribute_index_for_attr
%%ret r
%%sig `HashMap<usize, AttributeFeatureOffset>` => `UMap<AttributeFeatureOffset>`
%%sig `Result<(Vec<u8>, AttributeIndexInfo)>` => `Result<(Vec<u8>, AttributeIndexInfo), Error>`
%%sub `schema.get(attr_name).ok_or(Error::AttributeIndexNotFound)?` => `found_or_err(schema.get(attr_name))?`
%%sub `Err(Error::UnsupportedColumnType(format!("{:?}", coltype)))` => `Err(Error::UnsupportedColumnType(no_text()))`
%%sub `|entry| { if let AttributeIndexEntry::Bool {` => `|entry: &AttributeIndexEntry| -> (r: Option<bool>) ensures kopt(r) == wanted(eg(*entry), *schema_index, ColumnType::Bool) { if let AttributeIndexEntry::Bool {`
%%sub `|entry| { if let AttributeIndexEntry::Int {` => `|entry: &AttributeIndexEntry| -> (r: Option<i32>) ensures kopt(r) == wanted(eg(*entry), *schema_index, ColumnType::Int) { if let AttributeIndexEntry::Int {`
%%sub `|entry| { if let AttributeIndexEntry::UInt {` => `|entry: &AttributeIndexEntry| -> (r: Option<u32>) ensures kopt(r) == wanted(eg(*entry), *schema_index, ColumnType::UInt) { if let AttributeIndexEntry::UInt {`
%%sub `|entry| { if let AttributeIndexEntry::Long {` => `|entry: &AttributeIndexEntry| -> (r: Option<i64>) ensures kopt(r) == wanted(eg(*entry), *schema_index, ColumnType::Long) { if let AttributeIndexEntry::Long {`
%%sub `|entry| { if let AttributeIndexEntry::ULong {` => `|entry: &AttributeIndexEntry| -> (r: Option<u64>) ensures kopt(r) == wanted(eg(*entry), *schema_index, ColumnType::ULong) { if let AttributeIndexEntry::ULong {`
%%sub `|entry| { if let AttributeIndexEntry::Float {` => `|entry: &AttributeIndexEntry| -> (r: Option<OrderedFloat<f32>>) ensures kopt(r) == wanted(eg(*entry), *schema_index, ColumnType::Float) { if let AttributeIndexEntry::Float {`
%%sub `|entry| { if let AttributeIndexEntry::Double {` => `|entry: &AttributeIndexEntry| -> (r: Option<OrderedFloat<f64>>) ensures kopt(r) == wanted(eg(*entry), *schema_index, ColumnType::Double) { if let AttributeIndexEntry::Double {`
%%sub `|entry| { if let AttributeIndexEntry::String {` => `|entry: &AttributeIndexEntry| -> (r: Option<FixedStringKey<50>>) ensures kopt(r) == wanted(eg(*entry), *schema_index, ColumnType::String) { if let AttributeIndexEntry::String {`
%%sub `|entry| { if let AttributeIndexEntry::DateTime {` => `|entry: &AttributeIndexEntry| -> (r: Option<DateTime<Utc>>) ensures kopt(r) == wanted(eg(*entry), *schema_index, ColumnType::DateTime) { if let AttributeIndexEntry::DateTime {`
%%sub `|entry| { if let AttributeIndexEntry::Short {` => `|entry: &AttributeIndexEntry| -> (r: Option<i16>) ensures kopt(r) == wanted(eg(*entry), *schema_index, ColumnType::Short) { if let AttributeIndexEntry::Short {`
%%sub `|entry| { if let AttributeIndexEntry::UShort {` => `|entry: &AttributeIndexEntry| -> (r: Option<u16>) ensures kopt(r) == wanted(eg(*entry), *schema_index, ColumnType::UShort) { if let AttributeIndexEntry::UShort {`
%%sub `|entry| { if let AttributeIndexEntry::Byte {` => `|entry: &AttributeIndexEntry| -> (r: Option<u8>) ensures kopt(r) == wanted(eg(*entry), *schema_index, ColumnType::Byte) { if let AttributeIndexEntry::Byte {`
%%sub `|entry| { if let AttributeIndexEntry::UByte {` => `|entry: &AttributeIndexEntry| -> (r: Option<u8>) ensures kopt(r) == wanted(eg(*entry), *schema_index, ColumnType::UByte) { if let AttributeIndexEntry::UByte {`
%%sub `|entry| { if let AttributeIndexEntry::Json {` => `|entry: &AttributeIndexEntry| -> (r: Option<FixedStringKey<100>>) ensures kopt(r) == wanted(eg(*entry), *schema_index, ColumnType::Json) { if let AttributeIndexEntry::Json {`
%%sub `|entry| { if let AttributeIndexEntry::Binary {` => `|entry: &AttributeIndexEntry| -> (r: Option<FixedStringKey<100>>) ensures kopt(r) == wanted(eg(*entry), *schema_index, ColumnType::Binary) { if let AttributeIndexEntry::Binary {`
%%sub `ColumnType::DateTime) { if let AttributeIndexEntry::DateTime { index, val } = entry { if *index == *schema_index { Some(*val)` => `ColumnType::DateTime) { if let AttributeIndexEntry::DateTime { index, val } = entry { if *index == *schema_index { Some(clone_instant(val))`
%%spec
    requires branching_factor >= 2,
    ensures
        if schema@.contains_key(attr_name@) { indexed(r, attribute_entries@, schema@[attr_name@].0, schema@[attr_name@].1, branching_factor) } else { r is Err },
%%start
    proof { if schema@.contains_key(attr_name@) { assert(column(schema@[attr_name@].1)); } }
%%done
#[verifier::external_body] pub fn no_text() -> (r: String) { unimplemented!() }
pub fn found_or_err<T>(o: Option<T>) -> (r: Result<T, Error>) ensures match o { Some(x) => r == Ok::<T, Error>(x), None => r is Err } { match o { Some(x) => Ok(x), None => Err(Error::AttributeIndexNotFound) } }
