pub mod common {
use vstd::prelude::*;
use std::ops::Range;
// ---- assumed specifications of std functions (trusted) -------------------------------------
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
    requires b > 0,
    ensures r as int == (a as int + b as int - 1) / (b as int);

pub assume_specification<T: core::cmp::Ord> [core::cmp::min::<T>] (a: T, b: T) -> (r: T)
    ensures r == spec_min(a, b);
pub assume_specification<T: core::cmp::Ord> [core::cmp::max::<T>] (a: T, b: T) -> (r: T)
    ensures r == spec_max(a, b);
pub uninterp spec fn spec_min<T>(a: T, b: T) -> T;
pub uninterp spec fn spec_max<T>(a: T, b: T) -> T;
pub broadcast axiom fn axiom_min_usize(a: usize, b: usize)
    ensures #[trigger] spec_min(a, b) == if a <= b { a } else { b };
pub broadcast axiom fn axiom_max_usize(a: usize, b: usize)
    ensures #[trigger] spec_max(a, b) == if a >= b { a } else { b };
pub broadcast group group_std { axiom_min_usize, axiom_max_usize }

// ---- ceiling division and the shape of a packed level structure ----------------------------
pub open spec fn cdiv(a: int, b: int) -> int { (a + b - 1) / b }
pub open spec fn cnt(lb: Seq<Range<usize>>, l: int) -> int { lb[l].end - lb[l].start }

pub proof fn lemma_cdiv(a: int, b: int)
    requires a >= 1, b >= 1,
    ensures 1 <= cdiv(a, b) <= a, b >= 2 && a >= 2 ==> cdiv(a, b) < a,
        b >= 2 ==> 2 * cdiv(a, b) <= a + 1,
        forall|x: int| #![trigger x / b] 0 <= x < a ==> 0 <= x / b < cdiv(a, b),
        cdiv(a, b) == 1 <==> a <= b,
        (cdiv(a, b) - 1) * b < a <= cdiv(a, b) * b,
{
    let q = cdiv(a, b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a + b - 1, b);
    let m = (a + b - 1) % b;
    assert(a + b - 1 == b * q + m && 0 <= m < b);
    assert(b * q == q * b) by (nonlinear_arith);
    assert((q - 1) * b == q * b - b) by (nonlinear_arith);
    assert((q - 1) * b < a <= q * b);
    if q <= 0 { assert(q * b <= 0) by (nonlinear_arith) requires q <= 0, b >= 1; }
    if q > a { assert((q - 1) * b >= a) by (nonlinear_arith) requires q - 1 >= a, a >= 1, b >= 1; }
    if b >= 2 {
        if a >= 2 && q >= a { assert((q - 1) * b >= a) by (nonlinear_arith) requires q >= a, a >= 2, b >= 2; }
        assert((q - 1) * 2 <= (q - 1) * b) by (nonlinear_arith) requires q >= 1, b >= 2;
    }
    if a <= b && q >= 2 { assert((q - 1) * b >= b) by (nonlinear_arith) requires q >= 2, b >= 1; }
    assert forall|x: int| #![trigger x / b] 0 <= x < a implies 0 <= x / b < q by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, b);
        let k = x / b;
        assert(x == b * k + x % b && 0 <= x % b < b);
        if k < 0 { assert(b * k + b <= 0) by (nonlinear_arith) requires k < 0, b >= 1; }
        if k >= q { assert(b * k >= q * b) by (nonlinear_arith) requires k >= q, b >= 1; }
    }
}
} // mod common
use common::*;
