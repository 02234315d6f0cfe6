// ---- IEEE order on f64 (scalar axioms, each checked over all f64 by Kani: kani/src/floats.rs) ------
pub mod floats {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
pub uninterp spec fn fle(a: f64, b: f64) -> bool;
pub uninterp spec fn flt(a: f64, b: f64) -> bool;
pub broadcast axiom fn axiom_lt(a: f64, b: f64, o: bool) ensures #[trigger] lt_ensures(a, b, o) ==> o == flt(a, b);
pub broadcast axiom fn axiom_gt(a: f64, b: f64, o: bool) ensures #[trigger] gt_ensures(a, b, o) ==> o == flt(b, a);
pub broadcast axiom fn axiom_le(a: f64, b: f64, o: bool) ensures #[trigger] le_ensures(a, b, o) ==> o == fle(a, b);
pub broadcast axiom fn axiom_ge(a: f64, b: f64, o: bool) ensures #[trigger] ge_ensures(a, b, o) ==> o == fle(b, a);
pub open spec fn fcmp(a: f64, b: f64) -> Option<Ordering> {
    if flt(a, b) { Some(Ordering::Less) } else if flt(b, a) { Some(Ordering::Greater) } else if fle(a, b) { Some(Ordering::Equal) } else { None }
}
pub broadcast axiom fn axiom_pcmp(a: f64, b: f64, o: Option<Ordering>) ensures #[trigger] partial_cmp_ensures(a, b, o) ==> o == fcmp(a, b);
pub broadcast axiom fn axiom_fle_trans(a: f64, b: f64, c: f64)
    requires #[trigger] fle(a, b), #[trigger] fle(b, c),
    ensures fle(a, c);
pub axiom fn axiom_flt_fle(a: f64, b: f64, c: f64)
    ensures flt(a, b) && fle(b, c) ==> flt(a, c), fle(a, b) && flt(b, c) ==> flt(a, c);
pub broadcast axiom fn axiom_total(a: f64, b: f64)
    ensures #![trigger flt(a, b)] fle(a, a) && fle(b, b) ==> (flt(a, b) <==> !fle(b, a)), flt(a, b) ==> fle(a, b);
pub broadcast axiom fn axiom_num(a: f64, b: f64)
    ensures #[trigger] fle(a, b) ==> fle(a, a) && fle(b, b);
pub broadcast group group_floats { axiom_lt, axiom_gt, axiom_le, axiom_ge, axiom_pcmp, axiom_total, axiom_num }
} // mod floats
use floats::*;
