// unit attr: attributes, their schema and their encoding (P09)
use vstd::prelude::*;
use std::mem::size_of;
verus! {
global size_of usize == 8;
global size_of f32 == 4;
global size_of f64 == 8;
%%include fb.vx
%%include strs.vx
%%include hmap.vx
%%include json.vx
%%include schema.vx
%%fn writer/attribute.rs "-" guess_type
%%ret r
%%sub `chrono::DateTime::parse_from_rfc3339(s).is_ok()` => `is_rfc3339(s)`
%%spec
    ensures r == guess(*value),
%%done
%%fn writer/attribute.rs "-" merge_types
%%ret r
%%dropstmt `use ColumnType as C`
%%sub `C::` => `ColumnType::`
%%spec
    ensures
        wide(known, r), inferred(known) && inferred(other) ==> wide(other, r) && inferred(r), !inferred(known) ==> r == known, r == ColumnType::Long ==> known == ColumnType::Long || other == ColumnType::Long,
%%done
pub open spec fn is_long(s: SM, k: Seq<char>) -> bool { s.contains_key(k) && s[k].1 == ColumnType::Long }
pub proof fn lemma_grows(a: SM, b: SM, m: Map<Seq<char>, Value>)
    requires grows(a, b), covers(a, m), forall|k: Seq<char>| #[trigger] b.contains_key(k) && a.contains_key(k) && !inferred(a[k].1) ==> b[k].1 == a[k].1,
    ensures covers(b, m),
{
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) && !(m[k] is Null) implies covers_value(b, k, m[k]) by { assert(covers_value(a, k, m[k])); assert(a.contains_key(k)); assert(b.contains_key(k)); }
}
%%fn writer/attribute.rs "impl AttributeSchemaMethods for AttributeSchema" add_attributes
%%impl impl HashMap<(u16, ColumnType)>
%%loops 1
%%sub `for (key, val) in map.iter() {` => `let _es = map.entries(); let mut _i: usize = 0; while _i < _es.len() { let (key, val) = _es[_i]; _i += 1;`
%%sub `key.clone()` => `copy_string(key)`
%%spec
    requires
        wf(old(self)@), attrs is Object, old(self)@.dom().len() + attrs.map().dom().len() <= 65535,
    ensures
        wf(final(self)@), grows(old(self)@, final(self)@), covers(final(self)@, attrs.map()), final(self)@.dom().len() <= old(self)@.dom().len() + attrs.map().dom().len(),
        forall|k: Seq<char>| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) || attrs.map().contains_key(k),
        forall|k: Seq<char>| #[trigger] final(self)@.contains_key(k) ==> if old(self)@.contains_key(k) { !inferred(old(self)@[k].1) ==> final(self)@[k].1 == old(self)@[k].1 } else { guess(attrs.map()[k]) == Some(final(self)@[k].1) },
        forall|k: Seq<char>| #[trigger] final(self)@.contains_key(k) && final(self)@[k].1 == ColumnType::Long ==> is_long(old(self)@, k) || (attrs.map().contains_key(k) && guess(attrs.map()[k]) == Some(ColumnType::Long)),
%%start
    let ghost s0 = self@; let ghost m = attrs.map();
%%loop 0
    invariant
        m == attrs.map(), 0 <= _i <= _es@.len(), _es@.len() == m.dom().len(), wf(self@), self@.dom().len() <= s0.dom().len() + _i, s0.dom().len() + m.dom().len() <= 65535, grows(s0, self@),
        forall|i: int| 0 <= i < _es@.len() ==> m.contains_key((#[trigger] _es@[i]).0@) && m[_es@[i].0@] == *_es@[i].1,
        forall|i: int| 0 <= i < _i && !(*_es@[i].1 is Null) ==> covers_value(self@, (#[trigger] _es@[i]).0@, *_es@[i].1),
        forall|i: int, j: int| 0 <= i < j < _es@.len() ==> (#[trigger] _es@[i]).0@ != (#[trigger] _es@[j]).0@,
        forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> s0.contains_key(k) || exists|i: int| 0 <= i < _i && (#[trigger] _es@[i]).0@ == k,
        forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> if s0.contains_key(k) { !inferred(s0[k].1) ==> self@[k].1 == s0[k].1 } else { guess(m[k]) == Some(self@[k].1) },
        forall|k: Seq<char>| #[trigger] self@.contains_key(k) && self@[k].1 == ColumnType::Long ==> is_long(s0, k) || (m.contains_key(k) && guess(m[k]) == Some(ColumnType::Long)),
    decreases _es@.len() - _i
%%loopstart 0
    let ghost s1 = self@;
%%loopend 0
    proof {
        broadcast use vstd::set::group_set_lemmas;
        let s2 = self@; let k0 = key@;
        if guess(*val) is Some { assert(s2.dom() =~= s1.dom().insert(k0)); } 
        assert forall|k: Seq<char>| #[trigger] s1.contains_key(k) implies s2.contains_key(k) && s2[k].0 == s1[k].0 && wide(s1[k].1, s2[k].1) && (!inferred(s1[k].1) ==> s2[k].1 == s1[k].1) by {}
        assert forall|i: int| 0 <= i < _i && !(*_es@[i].1 is Null) implies covers_value(s2, (#[trigger] _es@[i]).0@, *_es@[i].1) by { if i < _i - 1 { assert(covers_value(s1, _es@[i].0@, *_es@[i].1)); } }
    }
%%post 0
    proof { assert forall|k: Seq<char>| #[trigger] m.contains_key(k) && !(m[k] is Null) implies covers_value(self@, k, m[k]) by { let i = choose|i: int| 0 <= i < _es@.len() && (#[trigger] _es@[i]).0@ == k; } }
%%done
#[verifier::external_body] pub fn copy_string(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }

// ---- bytes
/// the bytes of a number (crate byteorder, assumed): fixed length, and reading inverts writing
pub uninterp spec fn le<T>(v: T) -> Seq<u8>;
pub uninterp spec fn unle<T>(b: Seq<u8>) -> T;
pub broadcast axiom fn axiom_u16(v: u16) ensures (#[trigger] le(v)).len() == 2, unle::<u16>(le(v)) == v;
pub broadcast axiom fn axiom_i16(v: i16) ensures (#[trigger] le(v)).len() == 2, unle::<i16>(le(v)) == v;
pub broadcast axiom fn axiom_u32(v: u32) ensures (#[trigger] le(v)).len() == 4, unle::<u32>(le(v)) == v;
pub broadcast axiom fn axiom_i32(v: i32) ensures (#[trigger] le(v)).len() == 4, unle::<i32>(le(v)) == v;
pub broadcast axiom fn axiom_u64(v: u64) ensures (#[trigger] le(v)).len() == 8, unle::<u64>(le(v)) == v;
pub broadcast axiom fn axiom_i64(v: i64) ensures (#[trigger] le(v)).len() == 8, unle::<i64>(le(v)) == v;
pub broadcast axiom fn axiom_f32(v: f32) ensures (#[trigger] le(v)).len() == 4, unle::<f32>(le(v)) == v;
pub broadcast axiom fn axiom_f64(v: f64) ensures (#[trigger] le(v)).len() == 8, unle::<f64>(le(v)) == v;
pub broadcast group group_le { axiom_u16, axiom_i16, axiom_u32, axiom_i32, axiom_u64, axiom_i64, axiom_f32, axiom_f64 }
pub open spec fn patch(s: Seq<u8>, o: int, b: Seq<u8>) -> Seq<u8> { s.subrange(0, o) + b + s.subrange(o + b.len(), s.len() as int) }
/// LittleEndian::write_*(&mut out[offset..], v)
#[verifier::external_body] pub fn put_u16(out: &mut Vec<u8>, offset: usize, v: u16) requires offset + 2 <= old(out)@.len() ensures final(out)@ == patch(old(out)@, offset as int, le(v)) { unimplemented!() }
#[verifier::external_body] pub fn put_i16(out: &mut Vec<u8>, offset: usize, v: i16) requires offset + 2 <= old(out)@.len() ensures final(out)@ == patch(old(out)@, offset as int, le(v)) { unimplemented!() }
#[verifier::external_body] pub fn put_u32(out: &mut Vec<u8>, offset: usize, v: u32) requires offset + 4 <= old(out)@.len() ensures final(out)@ == patch(old(out)@, offset as int, le(v)) { unimplemented!() }
#[verifier::external_body] pub fn put_i32(out: &mut Vec<u8>, offset: usize, v: i32) requires offset + 4 <= old(out)@.len() ensures final(out)@ == patch(old(out)@, offset as int, le(v)) { unimplemented!() }
#[verifier::external_body] pub fn put_u64(out: &mut Vec<u8>, offset: usize, v: u64) requires offset + 8 <= old(out)@.len() ensures final(out)@ == patch(old(out)@, offset as int, le(v)) { unimplemented!() }
#[verifier::external_body] pub fn put_i64(out: &mut Vec<u8>, offset: usize, v: i64) requires offset + 8 <= old(out)@.len() ensures final(out)@ == patch(old(out)@, offset as int, le(v)) { unimplemented!() }
#[verifier::external_body] pub fn put_f32(out: &mut Vec<u8>, offset: usize, v: f32) requires offset + 4 <= old(out)@.len() ensures final(out)@ == patch(old(out)@, offset as int, le(v)) { unimplemented!() }
#[verifier::external_body] pub fn put_f64(out: &mut Vec<u8>, offset: usize, v: f64) requires offset + 8 <= old(out)@.len() ensures final(out)@ == patch(old(out)@, offset as int, le(v)) { unimplemented!() }
/// out[a..b].copy_from_slice(s.as_bytes())
#[verifier::external_body] pub fn put_str(out: &mut Vec<u8>, a: usize, b: usize, s: &str) requires a + utf8(s@).len() == b, b <= old(out)@.len() ensures final(out)@ == patch(old(out)@, a as int, utf8(s@)) { unimplemented!() }
/// s.len()
#[verifier::external_body] pub fn blen(s: &str) -> (r: usize) ensures r == utf8(s@).len() { s.len() }
pub struct LittleEndian;
impl LittleEndian {
    #[verifier::external_body] pub fn read_u16(b: &[u8]) -> (r: u16) requires b@.len() == 2 ensures r == unle::<u16>(b@) { unimplemented!() }
    #[verifier::external_body] pub fn read_i16(b: &[u8]) -> (r: i16) requires b@.len() == 2 ensures r == unle::<i16>(b@) { unimplemented!() }
    #[verifier::external_body] pub fn read_u32(b: &[u8]) -> (r: u32) requires b@.len() == 4 ensures r == unle::<u32>(b@) { unimplemented!() }
    #[verifier::external_body] pub fn read_i32(b: &[u8]) -> (r: i32) requires b@.len() == 4 ensures r == unle::<i32>(b@) { unimplemented!() }
    #[verifier::external_body] pub fn read_u64(b: &[u8]) -> (r: u64) requires b@.len() == 8 ensures r == unle::<u64>(b@) { unimplemented!() }
    #[verifier::external_body] pub fn read_i64(b: &[u8]) -> (r: i64) requires b@.len() == 8 ensures r == unle::<i64>(b@) { unimplemented!() }
    #[verifier::external_body] pub fn read_f32(b: &[u8]) -> (r: f32) requires b@.len() == 4 ensures r == unle::<f32>(b@) { unimplemented!() }
    #[verifier::external_body] pub fn read_f64(b: &[u8]) -> (r: f64) requires b@.len() == 8 ensures r == unle::<f64>(b@) { unimplemented!() }
}
/// String::from_utf8(b.to_vec()).unwrap_or_default()
#[verifier::external_body] pub fn text_of(b: &[u8]) -> (r: String) ensures forall|s: Seq<char>| b@ == #[trigger] utf8(s) ==> r@ == s { unimplemented!() }
// ---- the encoding
pub open spec fn text_payload(s: Seq<char>) -> Seq<u8> { le(utf8(s).len() as u32) + utf8(s) }
pub open spec fn payload(c: ColumnType, v: Value) -> Seq<u8> {
    if c == ColumnType::Bool { seq![if v->Bool_0 { 1u8 } else { 0u8 }] }
    else if c == ColumnType::Short { le(int_of(num(v))->0 as i16) }
    else if c == ColumnType::UShort { le(num(v)->P_0 as u16) }
    else if c == ColumnType::Int { le(int_of(num(v))->0 as i32) }
    else if c == ColumnType::UInt { le(num(v)->P_0 as u32) }
    else if c == ColumnType::Long { le(int_of(num(v))->0) }
    else if c == ColumnType::ULong { le(num(v)->P_0) }
    else if c == ColumnType::Float { le(f32_of(flt(num(v)))) }
    else if c == ColumnType::Double { le(flt(num(v))) }
    else if c == ColumnType::String || c == ColumnType::DateTime { text_payload(v->String_0@) }
    else { text_payload(jtext(v)) }
}
/// the value w is what is read back for v
pub open spec fn kept(c: ColumnType, v: Value, w: Value) -> bool {
    match v {
        Value::Number(n) => w is Number && (if c == ColumnType::Double || c == ColumnType::Float { num(w) == Num::F(flt(n@)) } else { num(w) == n@ }),
        Value::String(s) => w is String && w->String_0@ == s@,
        _ => w == v,
    }
}
pub open spec fn key_at(s: SM, i: int) -> Seq<char> { choose|k: Seq<char>| #[trigger] s.contains_key(k) && s[k].0 == i }
pub open spec fn stored(s: SM, m: Map<Seq<char>, Value>, k: Seq<char>) -> bool { s.contains_key(k) && m.contains_key(k) && !(m[k] is Null) }
pub open spec fn piece(s: SM, m: Map<Seq<char>, Value>, i: int) -> Seq<u8> { let k = key_at(s, i); if s[k].0 == i && stored(s, m, k) { le(i as u16) + payload(s[k].1, m[k]) } else { Seq::empty() } }
pub open spec fn enc(s: SM, m: Map<Seq<char>, Value>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { enc(s, m, n - 1) + piece(s, m, n - 1) } }
pub open spec fn fits_all(s: SM, m: Map<Seq<char>, Value>) -> bool { forall|k: Seq<char>| #[trigger] stored(s, m, k) ==> fits(s[k].1, m[k]) }
pub open spec fn all_enc(s: SM, m: Map<Seq<char>, Value>) -> Seq<u8> { enc(s, m, s.dom().len() as int) }
pub proof fn lemma_prefix(s: SM, m: Map<Seq<char>, Value>, j: int, n: int)
    requires 0 <= j <= n
    ensures enc(s, m, j).len() <= enc(s, m, n).len(), enc(s, m, n).subrange(0, enc(s, m, j).len() as int) == enc(s, m, j),
    decreases n - j
{
    if j < n { lemma_prefix(s, m, j, n - 1); assert(enc(s, m, n).subrange(0, enc(s, m, j).len() as int) =~= enc(s, m, n - 1).subrange(0, enc(s, m, j).len() as int)); }
    else { assert(enc(s, m, n).subrange(0, enc(s, m, n).len() as int) =~= enc(s, m, n)); }
}
/// the next name that is stored
pub proof fn lemma_next(s: SM, m: Map<Seq<char>, Value>, k: int, n: int) -> (j: int)
    requires 0 <= k <= n, enc(s, m, k).len() < enc(s, m, n).len()
    ensures k <= j < n, enc(s, m, j) == enc(s, m, k), piece(s, m, j).len() > 0, forall|i: int| k <= i < j ==> (#[trigger] piece(s, m, i)).len() == 0,
    decreases n - k
{
    if piece(s, m, k).len() > 0 { k } else { assert(enc(s, m, k + 1) =~= enc(s, m, k)); lemma_next(s, m, k + 1, n) }
}
pub proof fn lemma_rest(s: SM, m: Map<Seq<char>, Value>, k: int, n: int)
    requires 0 <= k <= n, enc(s, m, k).len() == enc(s, m, n).len()
    ensures forall|i: int| k <= i < n ==> (#[trigger] piece(s, m, i)).len() == 0,
    decreases n - k
{ if k < n { lemma_prefix(s, m, k, n - 1); lemma_rest(s, m, k, n - 1); } }
pub proof fn lemma_key_at(s: SM, k: Seq<char>) requires wf(s), s.contains_key(k) ensures key_at(s, s[k].0 as int) == k {}
pub type Listing<'a> = Seq<(&'a String, &'a (u16, ColumnType))>;
pub open spec fn lists(s: SM, l: Listing) -> bool {
    l.len() == s.dom().len() && (forall|i: int| 0 <= i < l.len() ==> s.contains_key((#[trigger] l[i]).0@) && s[l[i].0@] == *l[i].1)
        && (forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0@ != (#[trigger] l[j]).0@)
}
pub open spec fn sorted(l: Listing) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).1.0 <= (#[trigger] l[j]).1.0 }
/// v.sort_by_key(|(_, (index, _))| *index)
#[verifier::external_body] pub fn sort_by_index(v: &mut Vec<(&String, &(u16, ColumnType))>)
    ensures sorted(final(v)@), forall|s: SM| #[trigger] lists(s, old(v)@) ==> lists(s, final(v)@) { unimplemented!() }
pub proof fn lemma_sorted_up(s: SM, l: Listing, i: int) requires wf(s), lists(s, l), sorted(l), 0 <= i < l.len() ensures i <= l[i].1.0, decreases i
{ if i > 0 { lemma_sorted_up(s, l, i - 1); assert(l[i - 1].0@ != l[i].0@); assert(l[i - 1].1.0 <= l[i].1.0); } }
pub proof fn lemma_sorted_down(s: SM, l: Listing, i: int) requires wf(s), lists(s, l), sorted(l), 0 <= i < l.len() ensures l[i].1.0 <= i, decreases l.len() - i
{ if i < l.len() - 1 { lemma_sorted_down(s, l, i + 1); assert(l[i].0@ != l[i + 1].0@); assert(l[i].1.0 <= l[i + 1].1.0); } else { assert(s.contains_key(l[i].0@)); } }
pub proof fn lemma_sorted(s: SM, l: Listing)
    requires wf(s), lists(s, l), sorted(l)
    ensures forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).1.0 == i && key_at(s, i) == l[i].0@,
{ assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).1.0 == i && key_at(s, i) == l[i].0@ by { lemma_sorted_up(s, l, i); lemma_sorted_down(s, l, i); lemma_key_at(s, l[i].0@); } }
%%fn writer/attribute.rs "-" attr_size
%%ret r
%%sub `colval.as_str().unwrap().len()` => `blen(colval.as_str().unwrap())`
%%sub `serde_json::to_string(colval).unwrap_or_default()` => `json_text(colval)`
%%sub `json.len()` => `blen(json.as_str())`
%%spec
    requires fits(*coltype, *colval),
    ensures r == payload(*coltype, *colval).len(),
%%start
    proof { broadcast use group_le; }
%%done
%%fn writer/attribute.rs "-" encode_attributes_with_schema
%%ret r
%%loops 1
%%sub `let mut sorted_schema: Vec<_> = schema.iter().collect();` => `let mut sorted_schema = schema.entries();`
%%sub `sorted_schema.sort_by_key(|(_, (index, _))| *index);` => `sort_by_index(&mut sorted_schema);`
%%sub `for (name, (index, coltype)) in sorted_schema {` => `let mut _i: usize = 0; while _i < sorted_schema.len() { let (name, _ic) = sorted_schema[_i]; let index = &_ic.0; let coltype = &_ic.1; _i += 1;`
%%sub `attr_obj.iter().find(|(k, _)| *k == name)` => `attr_obj.entry_of(name)`
%%sub `LittleEndian::write_u16(&mut out[offset..],` => `put_u16(&mut out, offset,`
%%sub `LittleEndian::write_i16(&mut out[offset..],` => `put_i16(&mut out, offset,`
%%sub `LittleEndian::write_u32(&mut out[offset..],` => `put_u32(&mut out, offset,`
%%sub `LittleEndian::write_i32(&mut out[offset..],` => `put_i32(&mut out, offset,`
%%sub `LittleEndian::write_u64(&mut out[offset..],` => `put_u64(&mut out, offset,`
%%sub `LittleEndian::write_i64(&mut out[offset..],` => `put_i64(&mut out, offset,`
%%sub `LittleEndian::write_f32(&mut out[offset..],` => `put_f32(&mut out, offset,`
%%sub `LittleEndian::write_f64(&mut out[offset..],` => `put_f64(&mut out, offset,`
%%sub `f as f32` => `to_f32(f)`
%%sub `b as u8` => `Bit::byte(b)`
%%sub `serde_json::to_string(val).unwrap_or_default()` => `json_text(val)`
%%sub `out[offset + size_of::<u32>()..offset + size_of::<u32>() + s.len()] .copy_from_slice(s.as_bytes());` => `put_str(&mut out, offset + size_of::<u32>(), offset + size_of::<u32>() + blen(s), s);`
%%sub `out[offset + size_of::<u32>()..offset + size_of::<u32>() + json.len()] .copy_from_slice(json.as_bytes());` => `put_str(&mut out, offset + size_of::<u32>(), offset + size_of::<u32>() + blen(json.as_str()), json.as_str());`
%%sub `s.len() as u32` => `blen(s) as u32`
%%sub `json.len() as u32` => `blen(json.as_str()) as u32`
%%spec
    requires
        attr is Object, wf(schema@), fits_all(schema@, attr.map()), all_enc(schema@, attr.map()).len() <= isize::MAX,
    ensures
        r@ == all_enc(schema@, attr.map()),
%%start
    let ghost s = schema@; let ghost m = attr.map();
    proof { broadcast use group_le; lemma_none(s, m, s.dom().len() as int); }
%%after `let mut sorted_schema = schema.entries();`
    proof { assert(lists(s, sorted_schema@)); }
%%after `sort_by_index(&mut sorted_schema);`
    proof { lemma_sorted(s, sorted_schema@); }
%%loop 0
    invariant
        s == schema@, m == attr.map(), attr is Object, wf(s), fits_all(s, m), all_enc(s, m).len() <= isize::MAX, lists(s, sorted_schema@),
        forall|i: int| 0 <= i < sorted_schema@.len() ==> (#[trigger] sorted_schema@[i]).1.0 == i && key_at(s, i) == sorted_schema@[i].0@,
        0 <= _i <= sorted_schema@.len(), out@ == enc(s, m, _i as int),
    decreases sorted_schema@.len() - _i
%%loopstart 0
    let ghost o0 = out@;
    proof { broadcast use group_le; assert(sorted_schema@[_i as int].1.0 == _i); lemma_prefix(s, m, _i + 1, s.dom().len() as int); assert(enc(s, m, _i + 1) == enc(s, m, _i as int) + piece(s, m, _i as int)); }
%%pre `if val.is_null() {`
    proof { assert(o0 + Seq::<u8>::empty() =~= o0); }
%%pre `let mut offset = out.len();`
    proof { assert(stored(s, m, name@)); }
%%loopend 0
    proof { assert(out@ =~= o0 + (le(*index) + payload(*coltype, *val))); }
%%done
pub trait Bit: Sized { spec fn bits(self) -> int; fn byte(self) -> (r: u8) ensures 0 <= self.bits() <= 255 ==> r == self.bits(); }
impl Bit for bool { open spec fn bits(self) -> int { if self { 1 } else { 0 } } #[verifier::external_body] fn byte(self) -> u8 { self as u8 } }
impl Bit for i64 { open spec fn bits(self) -> int { self as int } #[verifier::external_body] fn byte(self) -> u8 { self as u8 } }
impl Bit for u64 { open spec fn bits(self) -> int { self as int } #[verifier::external_body] fn byte(self) -> u8 { self as u8 } }
pub proof fn lemma_none(s: SM, m: Map<Seq<char>, Value>, n: int)
    ensures (forall|k: Seq<char>| !#[trigger] m.contains_key(k)) ==> enc(s, m, n) == Seq::<u8>::empty(),
    decreases n
{ if n > 0 { lemma_none(s, m, n - 1); if forall|k: Seq<char>| !#[trigger] m.contains_key(k) { assert(enc(s, m, n) =~= Seq::<u8>::empty()); } } }

%%include cols.vx
%%fn writer/serializer.rs "-" to_columns
%%ret r
%%sig `<'a>(` => `(`
%%sig `FlatBufferBuilder<'a>` => `FlatBufferBuilder`
%%sig `flatbuffers::WIPOffset<flatbuffers::Vector<'a, flatbuffers::ForwardsUOffset<Column<'a>>>>` => `WIPOffset<Vector<WIPOffset<Column>>>`
%%loops 1
%%sub `let mut sorted_schema: Vec<_> = attr_schema.iter().collect();` => `let mut sorted_schema = attr_schema.entries();`
%%sub `sorted_schema.sort_by_key(|(_, (index, _))| *index);` => `sort_by_index(&mut sorted_schema);`
%%sub `let columns_vec = sorted_schema .iter() .map(|(name, (index, column_type))| {` => `let mut columns_vec: Vec<WIPOffset<Column>> = Vec::new(); let mut _i: usize = 0; while _i < sorted_schema.len() { let (name, _ic) = sorted_schema[_i]; let index = &_ic.0; let column_type = &_ic.1; let _o = {`
%%sub `, ..Default::default()` => ``
%%sub `}) .collect::<Vec<_>>();` => `}; columns_vec.push(_o); _i += 1; }`
%%spec
    requires
        wf(attr_schema@),
    ensures
        cols_ok(attr_schema@, wcolts(r@)),
%%start
    let ghost s = attr_schema@;
%%after `let mut sorted_schema = attr_schema.entries();`
    proof { assert(lists(s, sorted_schema@)); }
%%after `sort_by_index(&mut sorted_schema);`
    proof { lemma_sorted(s, sorted_schema@); }
%%loop 0
    invariant
        wf(s), lists(s, sorted_schema@), forall|i: int| 0 <= i < sorted_schema@.len() ==> (#[trigger] sorted_schema@[i]).1.0 == i && key_at(s, i) == sorted_schema@[i].0@,
        0 <= _i <= sorted_schema@.len(), columns_vec@.len() == _i,
        forall|i: int| 0 <= i < _i ==> s.contains_key((#[trigger] columns_vec@[i])@.name) && s[columns_vec@[i]@.name] == (columns_vec@[i]@.index, columns_vec@[i]@.type_) && columns_vec@[i]@.index == i,
    decreases sorted_schema@.len() - _i
%%done
/// what is read back: the values of the first k columns
pub open spec fn back(s: SM, m: Map<Seq<char>, Value>, k: int, w: Map<Seq<char>, Value>) -> bool {
    forall|x: Seq<char>| #[trigger] w.contains_key(x) <==> stored(s, m, x) && s[x].0 < k
}
pub open spec fn equal(s: SM, m: Map<Seq<char>, Value>, w: Map<Seq<char>, Value>) -> bool { forall|x: Seq<char>| #[trigger] w.contains_key(x) ==> kept(s[x].1, m[x], w[x]) }
/// what reading finds at a payload
pub open spec fn readable(c: ColumnType, v: Value, b: Seq<u8>, o: int) -> bool {
    if c == ColumnType::Bool { b[o] == (if v->Bool_0 { 1u8 } else { 0u8 }) }
    else if c == ColumnType::Short { unle::<i16>(b.subrange(o, o + 2)) == int_of(num(v))->0 }
    else if c == ColumnType::UShort { unle::<u16>(b.subrange(o, o + 2)) == num(v)->P_0 }
    else if c == ColumnType::Int { unle::<i32>(b.subrange(o, o + 4)) == int_of(num(v))->0 }
    else if c == ColumnType::UInt { unle::<u32>(b.subrange(o, o + 4)) == num(v)->P_0 }
    else if c == ColumnType::Long { unle::<i64>(b.subrange(o, o + 8)) == int_of(num(v))->0 }
    else if c == ColumnType::ULong { unle::<u64>(b.subrange(o, o + 8)) == num(v)->P_0 }
    else if c == ColumnType::Float { unle::<f32>(b.subrange(o, o + 4)) == f32_of(flt(num(v))) }
    else if c == ColumnType::Double { unle::<f64>(b.subrange(o, o + 8)) == flt(num(v)) }
    else { let t = utf8(if c == ColumnType::Json { jtext(v) } else { v->String_0@ }); unle::<u32>(b.subrange(o, o + 4)) == t.len() && b.subrange(o + 4, o + 4 + t.len()) == t }
}
pub open spec fn width(c: ColumnType, v: Value) -> int {
    if c == ColumnType::Bool { 1 } else if c == ColumnType::Short || c == ColumnType::UShort { 2 } else if c == ColumnType::Int || c == ColumnType::UInt || c == ColumnType::Float { 4 }
    else if c == ColumnType::Long || c == ColumnType::ULong || c == ColumnType::Double { 8 } else { 4 + utf8(if c == ColumnType::Json { jtext(v) } else { v->String_0@ }).len() as int }
}
pub proof fn lemma_readable(c: ColumnType, v: Value, b: Seq<u8>, o: int)
    requires fits(c, v), 0 <= o, o + payload(c, v).len() <= b.len(), b.subrange(o, o + payload(c, v).len()) == payload(c, v),
    ensures readable(c, v, b, o), payload(c, v).len() == width(c, v),
{
    broadcast use group_le;
    let pl = payload(c, v);
    if c == ColumnType::Bool { assert(b.subrange(o, o + 1)[0] == b[o]); }
    else if c == ColumnType::String || c == ColumnType::DateTime || c == ColumnType::Json {
        let t = utf8(if c == ColumnType::Json { jtext(v) } else { v->String_0@ });
        assert(pl == le(t.len() as u32) + t);
        assert(pl.subrange(0, 4) =~= le(t.len() as u32)); assert(b.subrange(o, o + 4) =~= pl.subrange(0, 4));
        assert(pl.subrange(4, pl.len() as int) =~= t); assert(b.subrange(o + 4, o + 4 + t.len()) =~= pl.subrange(4, pl.len() as int));
    }
}
pub proof fn lemma_step(s: SM, m: Map<Seq<char>, Value>, b: Seq<u8>, cs: Seq<ColT>, k0: int, n: int) -> (k: int)
    requires wf(s), fits_all(s, m), cols_ok(s, cs), n == s.dom().len(), b == enc(s, m, n), 0 <= k0 <= n, enc(s, m, k0).len() < b.len(),
    ensures ({
        let o = enc(s, m, k0).len() as int; let key = cs[k].name; let c = cs[k].type_;
        &&& k0 <= k < n && cs[k].index == k && s.contains_key(key) && s[key] == (cs[k].index, cs[k].type_) && stored(s, m, key) && fits(c, m[key])
        &&& forall|i: int| k0 <= i < k ==> (#[trigger] piece(s, m, i)).len() == 0
        &&& o + 2 + width(c, m[key]) <= b.len() && unle::<u16>(b.subrange(o, o + 2)) == k as u16 && readable(c, m[key], b, o + 2)
        &&& enc(s, m, k + 1).len() == o + 2 + width(c, m[key])
    }),
{
    broadcast use group_le;
    let k = lemma_next(s, m, k0, n);
    let key = key_at(s, k); let o = enc(s, m, k0).len() as int;
    lemma_prefix(s, m, k, n); lemma_prefix(s, m, k + 1, n);
    assert(enc(s, m, k + 1) == enc(s, m, k) + piece(s, m, k));
    let p = piece(s, m, k);
    assert(b.subrange(o, o + p.len()) =~= p) by { let h = b.subrange(0, o + p.len()); assert(h == enc(s, m, k + 1)); assert(b.subrange(o, o + p.len()) =~= h.subrange(o, o + p.len())); assert(h.subrange(o, o + p.len()) =~= p); }
    assert(p == le(k as u16) + payload(s[key].1, m[key]));
    assert(b.subrange(o, o + 2) =~= le(k as u16)) by { assert(b.subrange(o, o + 2) =~= b.subrange(o, o + p.len()).subrange(0, 2)); assert(p.subrange(0, 2) =~= le(k as u16)); }
    assert(b.subrange(o + 2, o + p.len()) =~= b.subrange(o, o + p.len()).subrange(2, p.len() as int));
    assert(p.subrange(2, p.len() as int) =~= payload(s[key].1, m[key]));
    assert(cs[k].index == k && s.contains_key(cs[k].name) && s[cs[k].name] == (cs[k].index, cs[k].type_));
    lemma_key_at(s, cs[k].name);
    assert(stored(s, m, key)); assert(fits(s[key].1, m[key]));
    lemma_readable(s[key].1, m[key], b, o + 2);
    k
}
pub proof fn lemma_back(s: SM, m: Map<Seq<char>, Value>, w0: Map<Seq<char>, Value>, w: Map<Seq<char>, Value>, k0: int, k: int, key: Seq<char>)
    requires wf(s), back(s, m, k0, w0), equal(s, m, w0), w == w0.insert(key, w[key]), kept(s[key].1, m[key], w[key]), stored(s, m, key), s[key].0 == k, 0 <= k0 <= k < s.dom().len(),
        forall|i: int| k0 <= i < k ==> (#[trigger] piece(s, m, i)).len() == 0,
    ensures back(s, m, k + 1, w), equal(s, m, w),
{
    broadcast use group_le;
    assert forall|x: Seq<char>| #[trigger] w.contains_key(x) <==> stored(s, m, x) && s[x].0 < k + 1 by {
        if x != key && stored(s, m, x) { lemma_key_at(s, x); if k0 <= s[x].0 < k { assert(piece(s, m, s[x].0 as int).len() == 0); } }
    }
}
%%fn reader/deserializer.rs "-" decode_attributes
%%ret r
%%sig `flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>` => `Vector<Column>`
%%sig `flatbuffers::Vector<'_, u8>,` => `Vector<u8>, Ghost(s): Ghost<SM>, Ghost(m): Ghost<Map<Seq<char>, Value>>,`
%%sig `serde_json::` => ``
%%loops 1
%%sub `columns.iter().find(|c| c.index() == col_index)` => `columns.find_index(col_index)`
%%sub `serde_json::Map::new()` => `JMap::new()`
%%sub `serde_json::from_str(&s).unwrap()` => `parse_json(&s)`
%%sub `serde_json::` => ``
%%sub `f as f64` => `to_f64(f)`
%%sub `String::from_utf8(bytes[offset..offset + len as usize].to_vec()) .unwrap_or_default()` => `text_of(&bytes[offset..offset + len as usize])`
%%spec
    requires
        wf(s), fits_all(s, m), cols_ok(s, colts(columns@)), attributes@ == all_enc(s, m), attributes@.len() <= isize::MAX,
    ensures
        r is Object, back(s, m, s.dom().len() as int, r.map()), equal(s, m, r.map()),
%%start
    let ghost n = s.dom().len() as int;
    let ghost mut k: int = 0;
    proof { broadcast use group_le; if attributes@.len() == 0 { lemma_empty(s, m, 0, n); } }
%%loop 0
    invariant
        wf(s), fits_all(s, m), cols_ok(s, colts(columns@)), n == s.dom().len(), bytes@ == enc(s, m, n), bytes@.len() <= isize::MAX,
        0 <= k <= n, offset == enc(s, m, k).len(), back(s, m, k, map@), equal(s, m, map@),
    decreases bytes@.len() - offset
%%loopstart 0
    let ghost m0 = map@; let ghost k0 = k; let ghost o0 = offset as int; let ghost cs = colts(columns@);
    proof {
        k = lemma_step(s, m, bytes@, cs, k, n);
        assert forall|j: int| 0 <= j < columns@.len() && (#[trigger] columns@[j])@.index == k implies j == k by { assert(cs[j] == columns@[j]@); assert(cs[j].index == j); }
        assert(cs[k] == columns@[k]@);
    }
    let ghost key = cs[k].name;
%%loopend 0
    proof {
        broadcast use axiom_num, axiom_dbl;
        let c = s[key].1; let v = m[key];
        assert(offset == enc(s, m, k + 1).len());
        assert(map@.contains_key(key));
        assert(map@ =~= m0.insert(key, map@[key]));
        assert(kept(c, v, map@[key]));
        lemma_back(s, m, m0, map@, k0, k, key);
        k = k + 1;
    }
%%post 0
    proof { lemma_prefix(s, m, k, n); lemma_empty(s, m, k, n); }
%%done
pub broadcast axiom fn axiom_dbl(i: int) ensures -0x8000_0000_0000_0000 <= i <= 0xffff_ffff_ffff_ffff ==> finite(#[trigger] dbl(i));
pub proof fn lemma_empty(s: SM, m: Map<Seq<char>, Value>, k: int, n: int)
    requires wf(s), n == s.dom().len(), 0 <= k <= n, enc(s, m, k).len() == enc(s, m, n).len()
    ensures forall|x: Seq<char>| #[trigger] stored(s, m, x) ==> s[x].0 < k,
{
    lemma_rest(s, m, k, n);
    assert forall|x: Seq<char>| #[trigger] stored(s, m, x) implies s[x].0 < k by { broadcast use group_le; if s[x].0 >= k { lemma_key_at(s, x); assert(piece(s, m, s[x].0 as int).len() == 0); } }
}

/// no text is longer than 4 GiB
pub open spec fn small(v: Value) -> bool { utf8(jtext(v)).len() <= u32::MAX && (v is String ==> utf8(v->String_0@).len() <= u32::MAX) }
pub open spec fn all_small(m: Map<Seq<char>, Value>) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> small(m[k]) }
/// integers above the signed range under a name that also has negative ones
pub open spec fn too_wide(s: SM, k: Seq<char>, v: Value) -> bool { s[k].1 == ColumnType::Long && v is Number && num(v) is P && int_of(num(v)) is None }
/// the schema made from a list of objects has a fitting column for every value of every one of them
pub proof fn lemma_covered(s: SM, m: Map<Seq<char>, Value>)
    requires covers(s, m), all_small(m), forall|k: Seq<char>| #[trigger] s.contains_key(k) ==> inferred(s[k].1), forall|k: Seq<char>| #[trigger] stored(s, m, k) ==> !too_wide(s, k, m[k]),
    ensures fits_all(s, m), forall|k: Seq<char>| #[trigger] m.contains_key(k) && !(m[k] is Null) ==> stored(s, m, k),
{
    assert forall|k: Seq<char>| #[trigger] stored(s, m, k) implies fits(s[k].1, m[k]) by {
        assert(covers_value(s, k, m[k])); lemma_guess(m[k]); lemma_wide(guess(m[k])->0, s[k].1, m[k]);
    }
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) && !(m[k] is Null) implies stored(s, m, k) by { assert(covers_value(s, k, m[k])); }
}
pub open spec fn complete(s: SM, m: Map<Seq<char>, Value>) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> s.contains_key(k) }
%%fn writer/serializer.rs "-" to_fcb_attribute
%%ret r
%%sig `<'a>(` => `(`
%%sig `FlatBufferBuilder<'a>` => `FlatBufferBuilder`
%%sig `flatbuffers::WIPOffset<flatbuffers::Vector<'a, u8>>` => `WIPOffset<Vector<u8>>`
%%loops 1
%%sub `for (key, _) in attr.as_object().unwrap().iter() {` => `let _es = attr.as_object().unwrap().entries(); let mut _i: usize = 0; while _i < _es.len() { let (key, _) = _es[_i]; _i += 1;`
%%spec
    requires
        attr is Object, wf(schema@), complete(schema@, attr.map()) ==> fits_all(schema@, attr.map()), attr.map().dom().len() <= 65535, all_small(attr.map()),
        forall|s: SM| wf(s) && fits_all(s, attr.map()) ==> (#[trigger] all_enc(s, attr.map())).len() <= isize::MAX,
    ensures
        match r.1 {
            None => complete(schema@, attr.map()) && r.0@ == all_enc(schema@, attr.map()),
            Some(own) => !complete(schema@, attr.map()) && wf(own@) && fits_all(own@, attr.map()) && r.0@ == all_enc(own@, attr.map()) && forall|k: Seq<char>| #[trigger] attr.map().contains_key(k) && !(attr.map()[k] is Null) ==> stored(own@, attr.map(), k),
        },
%%start
    let ghost m = attr.map();
%%loop 0
    invariant
        m == attr.map(), 0 <= _i <= _es@.len(), forall|i: int| 0 <= i < _es@.len() ==> m.contains_key((#[trigger] _es@[i]).0@),
        is_own_schema == (exists|i: int| 0 <= i < _i && !schema@.contains_key((#[trigger] _es@[i]).0@)),
    decreases _es@.len() - _i
%%after `own_schema.add_attributes(attr);`
    proof {
        assert forall|k: Seq<char>| #[trigger] m.contains_key(k) && !(m[k] is Null) implies stored(own_schema@, m, k) by { assert(covers_value(own_schema@, k, m[k])); }
        assert forall|k: Seq<char>| #[trigger] stored(own_schema@, m, k) implies fits(own_schema@[k].1, m[k]) by { lemma_guess(m[k]); }
        assert(exists|k: Seq<char>| m.contains_key(k) && !schema@.contains_key(k));
    }
%%post 0
    proof { if !is_own_schema { assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies schema@.contains_key(k) by { let i = choose|i: int| 0 <= i < _es@.len() && (#[trigger] _es@[i]).0@ == k; assert(schema@.contains_key(_es@[i].0@)); } } }
%%done
// ---- the property
pub open spec fn negative(v: Value, k: Seq<char>) -> bool { v.map().contains_key(k) && v.map()[k] is Number && num(v.map()[k]) is N }
/// some object of the list has a negative integer under this name
pub open spec fn negative_among(o: Seq<Value>, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && negative(#[trigger] o[j], k) }
pub open spec fn above_signed(v: Value) -> bool { v is Number && num(v) is P && int_of(num(v)) is None }
/// the schema of a list of attribute objects
pub fn infer(objs: &Vec<Value>) -> (r: AttributeSchema)
    requires
        forall|i: int| 0 <= i < objs@.len() ==> (#[trigger] objs@[i]) is Object, total(objs@, objs@.len() as int) <= 65535,
    ensures
        wf(r@), forall|k: Seq<char>| #[trigger] r@.contains_key(k) ==> inferred(r@[k].1),
        forall|i: int| 0 <= i < objs@.len() ==> covers(r@, (#[trigger] objs@[i]).map()),
        forall|k: Seq<char>| #[trigger] is_long(r@, k) ==> negative_among(objs@, objs@.len() as int, k),
{
    let mut s: AttributeSchema = AttributeSchema::new(); let mut i: usize = 0;
    proof { broadcast use axiom_num; }
    while i < objs.len()
        invariant
            0 <= i <= objs@.len(), forall|j: int| 0 <= j < objs@.len() ==> (#[trigger] objs@[j]) is Object, total(objs@, objs@.len() as int) <= 65535,
            wf(s@), s@.dom().len() <= total(objs@, i as int), forall|k: Seq<char>| #[trigger] s@.contains_key(k) ==> inferred(s@[k].1),
            forall|j: int| 0 <= j < i ==> covers(s@, (#[trigger] objs@[j]).map()),
            forall|k: Seq<char>| #[trigger] is_long(s@, k) ==> negative_among(objs@, i as int, k),
        decreases objs@.len() - i
    {
        let ghost s0 = s@; let ghost m = objs@[i as int].map();
        proof { lemma_total(objs@, i + 1, objs@.len() as int); }
        s.add_attributes(&objs[i]);
        proof {
            assert forall|k: Seq<char>| #[trigger] s@.contains_key(k) implies inferred(s@[k].1) by { lemma_inferred(m[k]); if s0.contains_key(k) { assert(wide(s0[k].1, s@[k].1)); } }
            assert forall|j: int| 0 <= j < i + 1 implies covers(s@, (#[trigger] objs@[j]).map()) by { if j < i { lemma_grows(s0, s@, objs@[j].map()); } }
        }
        proof { assert forall|k: Seq<char>| #[trigger] is_long(s@, k) implies negative_among(objs@, i + 1, k) by { if !is_long(s0, k) { broadcast use axiom_num; assert(m.contains_key(k) && guess(m[k]) == Some(ColumnType::Long)); assert(negative(objs@[i as int], k)); } else { assert(negative_among(objs@, i as int, k)); let j = choose|j: int| 0 <= j < i && negative(#[trigger] objs@[j], k); } } }
        i += 1;
    }
    s
}
pub proof fn lemma_inferred(v: Value) ensures guess(v) is Some ==> inferred(guess(v)->0) {}
pub open spec fn total(o: Seq<Value>, n: int) -> nat decreases n { if n <= 0 { 0 } else { total(o, n - 1) + o[n - 1].map().dom().len() } }
pub proof fn lemma_total(o: Seq<Value>, a: int, b: int) requires a <= b ensures total(o, a) <= total(o, b) decreases b - a { if a < b { lemma_total(o, a, b - 1); } }
/// the attributes w read back are the non-null ones of m, with equal values
pub open spec fn same_attributes(m: Map<Seq<char>, Value>, w: Map<Seq<char>, Value>) -> bool {
    (forall|k: Seq<char>| #[trigger] w.contains_key(k) <==> m.contains_key(k) && !(m[k] is Null)) && forall|k: Seq<char>| #[trigger] w.contains_key(k) ==> exists|c: ColumnType| #[trigger] kept(c, m[k], w[k])
}
/// P09: every attribute object of a list is read back with the non-null attributes it had
pub fn attributes_round_trip(fbb: &mut FlatBufferBuilder, objs: &Vec<Value>, i: usize) -> (r: Value)
    requires
        i < objs@.len(), forall|j: int| 0 <= j < objs@.len() ==> (#[trigger] objs@[j]) is Object, total(objs@, objs@.len() as int) <= 65535,
        all_small(objs@[i as int].map()), forall|s: SM| wf(s) && fits_all(s, objs@[i as int].map()) ==> (#[trigger] all_enc(s, objs@[i as int].map())).len() <= isize::MAX,
        forall|k: Seq<char>| #[trigger] negative_among(objs@, objs@.len() as int, k) && objs@[i as int].map().contains_key(k) ==> !above_signed(objs@[i as int].map()[k]),
    ensures
        r is Object, same_attributes(objs@[i as int].map(), r.map()),
{
    let schema = infer(objs);
    let ghost m = objs@[i as int].map();
    proof { assert forall|k: Seq<char>| #[trigger] stored(schema@, m, k) implies !too_wide(schema@, k, m[k]) by { if schema@[k].1 == ColumnType::Long { assert(is_long(schema@, k)); } } lemma_covered(schema@, m); lemma_total(objs@, i + 1, objs@.len() as int); }
    let columns = read_columns(to_columns(fbb, &schema));
    let (b, own) = to_fcb_attribute(fbb, &objs[i], &schema);
    let bytes = read_bytes(b);
    let r = match &own {
        Some(own) => { let c = read_columns(to_columns(fbb, own)); let r = decode_attributes(&c, bytes, Ghost(own@), Ghost(m)); proof { lemma_same(own@, m, r.map()); } r }
        None => { let r = decode_attributes(&columns, bytes, Ghost(schema@), Ghost(m)); proof { lemma_same(schema@, m, r.map()); } r }
    };
    r
}
pub proof fn lemma_same(s: SM, m: Map<Seq<char>, Value>, w: Map<Seq<char>, Value>)
    requires wf(s), back(s, m, s.dom().len() as int, w), equal(s, m, w), forall|k: Seq<char>| #[trigger] m.contains_key(k) && !(m[k] is Null) ==> stored(s, m, k)
    ensures same_attributes(m, w),
{
    assert forall|k: Seq<char>| #[trigger] w.contains_key(k) implies exists|c: ColumnType| #[trigger] kept(c, m[k], w[k]) by { assert(kept(s[k].1, m[k], w[k])); }
}
fn main() {}
} // verus!
