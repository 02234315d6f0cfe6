// ---- float arithmetic: uninterpreted functions of the operands (what +, -, *, / compute)
pub mod fops {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn fsub(a: f64, b: f64) -> f64;
pub uninterp spec fn fmul(a: f64, b: f64) -> f64;
pub uninterp spec fn fdiv(a: f64, b: f64) -> f64;
pub broadcast axiom fn axiom_add_req(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn axiom_sub_req(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn axiom_mul_req(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn axiom_div_req(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn axiom_add(a: f64, b: f64, o: f64) ensures #[trigger] add_ensures(a, b, o) ==> o == fadd(a, b);
pub broadcast axiom fn axiom_sub(a: f64, b: f64, o: f64) ensures #[trigger] sub_ensures(a, b, o) ==> o == fsub(a, b);
pub broadcast axiom fn axiom_mul(a: f64, b: f64, o: f64) ensures #[trigger] mul_ensures(a, b, o) ==> o == fmul(a, b);
pub broadcast axiom fn axiom_div(a: f64, b: f64, o: f64) ensures #[trigger] div_ensures(a, b, o) ==> o == fdiv(a, b);
pub broadcast group group_fops { axiom_add_req, axiom_sub_req, axiom_mul_req, axiom_div_req, axiom_add, axiom_sub, axiom_mul, axiom_div }
} // mod fops
use fops::*;
