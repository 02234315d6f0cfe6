// ---- attribute schemas: name -> (index, column type)
%%fbenum fb/header_generated.rs ColumnType
pub type AttributeSchema = HashMap<(u16, ColumnType)>;
pub type SM = Map<Seq<char>, (u16, ColumnType)>;
pub open spec fn guess(v: Value) -> Option<ColumnType> {
    match v {
        Value::Null => None, Value::Bool(_) => Some(ColumnType::Bool),
        Value::Number(n) => Some(match n@ { Num::F(_) => ColumnType::Double, Num::P(_) => ColumnType::ULong, Num::N(_) => ColumnType::Long }),
        Value::String(s) => Some(if rfc3339(s@) { ColumnType::DateTime } else { ColumnType::String }),
        Value::Array(_) => Some(ColumnType::Json), Value::Object(_) => Some(ColumnType::Json),
    }
}
/// types that guess gives, and what merging makes of them
pub open spec fn inferred(c: ColumnType) -> bool { c == ColumnType::Bool || c == ColumnType::ULong || c == ColumnType::Long || c == ColumnType::Double || c == ColumnType::String || c == ColumnType::DateTime || c == ColumnType::Json }
/// a column of this type holds the value
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub open spec fn num(v: Value) -> Num { v->Number_0@ }
pub open spec fn fits(c: ColumnType, v: Value) -> bool {
    if c == ColumnType::Bool { v is Bool }
    else if c == ColumnType::Short { v is Number && int_of(num(v)) is Some && i16::MIN <= int_of(num(v))->0 <= i16::MAX }
    else if c == ColumnType::UShort { v is Number && num(v) is P && num(v)->P_0 <= u16::MAX }
    else if c == ColumnType::Int { v is Number && int_of(num(v)) is Some && i32::MIN <= int_of(num(v))->0 <= i32::MAX }
    else if c == ColumnType::UInt { v is Number && num(v) is P && num(v)->P_0 <= u32::MAX }
    else if c == ColumnType::Long { v is Number && int_of(num(v)) is Some }
    else if c == ColumnType::ULong { v is Number && num(v) is P }
    else if c == ColumnType::Float { v is Number && f64_of(f32_of(flt(num(v)))) == flt(num(v)) }
    else if c == ColumnType::Double { v is Number }
    else if c == ColumnType::String || c == ColumnType::DateTime { v is String && utf8(v->String_0@).len() <= u32::MAX }
    else if c == ColumnType::Json { !(v is Null) && utf8(jtext(v)).len() <= u32::MAX }
    else { false }
}
/// type b was made of type a by merging
pub open spec fn wide(a: ColumnType, b: ColumnType) -> bool {
    a == b || (a == ColumnType::ULong && (b == ColumnType::Long || b == ColumnType::Double)) || (a == ColumnType::Long && b == ColumnType::Double) || (a == ColumnType::DateTime && b == ColumnType::String) || (inferred(a) && b == ColumnType::Json)
}
/// whatever a column of type a holds, one of type b holds too (integers above i64::MAX in a column made signed excepted)
pub proof fn lemma_wide(a: ColumnType, b: ColumnType, v: Value)
    requires wide(a, b), fits(a, v), utf8(jtext(v)).len() <= u32::MAX,
    ensures fits(b, v) || (a == ColumnType::ULong && b == ColumnType::Long && int_of(num(v)) is None),
{}
pub proof fn lemma_guess(v: Value)
    requires !(v is Null), utf8(jtext(v)).len() <= u32::MAX, v is String ==> utf8(v->String_0@).len() <= u32::MAX,
    ensures guess(v) is Some, fits(guess(v)->0, v), inferred(guess(v)->0),
{ broadcast use axiom_num; }
/// indices are distinct and below the number of columns
pub open spec fn wf(s: SM) -> bool {
    s.dom().finite() && s.dom().len() <= 65535 && (forall|k: Seq<char>| #[trigger] s.contains_key(k) ==> s[k].0 < s.dom().len()) && forall|k: Seq<char>, l: Seq<char>| #[trigger] s.contains_key(k) && #[trigger] s.contains_key(l) && k != l ==> s[k].0 != s[l].0
}
/// columns stay, with a type that is at least as wide
pub open spec fn grows(a: SM, b: SM) -> bool { forall|k: Seq<char>| #[trigger] a.contains_key(k) ==> b.contains_key(k) && b[k].0 == a[k].0 && wide(a[k].1, b[k].1) }
pub open spec fn covers_value(s: SM, k: Seq<char>, v: Value) -> bool { s.contains_key(k) && guess(v) is Some && (inferred(s[k].1) ==> wide(guess(v)->0, s[k].1)) }
/// every value has a column made for values of its kind
pub open spec fn covers(s: SM, m: Map<Seq<char>, Value>) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) && !(m[k] is Null) ==> covers_value(s, k, m[k]) }
