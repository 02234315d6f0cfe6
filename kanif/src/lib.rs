//! the scalar axioms of contracts/floats.vx over all f64 (NaN included)
#[cfg(kani)] use std::cmp::Ordering;
#[cfg(kani)] fn fle(a: f64, b: f64) -> bool { a <= b }
#[cfg(kani)] fn flt(a: f64, b: f64) -> bool { a < b }
#[cfg(kani)] #[kani::proof] fn comparisons() {
    let (a, b): (f64, f64) = (kani::any(), kani::any());
    assert!((a > b) == flt(b, a));
    assert!((a >= b) == fle(b, a));
    let c = if flt(a, b) { Some(Ordering::Less) } else if flt(b, a) { Some(Ordering::Greater) } else if fle(a, b) { Some(Ordering::Equal) } else { None };
    assert!(a.partial_cmp(&b) == c);
}
#[cfg(kani)] #[kani::proof] fn laws() {
    let (a, b, c): (f64, f64, f64) = (kani::any(), kani::any(), kani::any());
    if fle(a, b) && fle(b, c) { assert!(fle(a, c)); }
    if flt(a, b) && fle(b, c) { assert!(flt(a, c)); }
    if fle(a, b) && flt(b, c) { assert!(flt(a, c)); }
    if fle(a, a) && fle(b, b) { assert!(flt(a, b) == !fle(b, a)); }
    if flt(a, b) { assert!(fle(a, b)); }
    if fle(a, b) { assert!(fle(a, a) && fle(b, b)); }
    kani::cover!(fle(a, b) && fle(b, c));
}
#[cfg(kani)] #[kani::proof] fn ends() {
    let a: f64 = kani::any();
    if fle(f64::INFINITY, a) { assert!(a.to_bits() == f64::INFINITY.to_bits()); }
    if fle(a, f64::NEG_INFINITY) { assert!(a.to_bits() == f64::NEG_INFINITY.to_bits()); }
    assert!(fle(f64::INFINITY, f64::INFINITY) && fle(f64::NEG_INFINITY, f64::NEG_INFINITY));
}
