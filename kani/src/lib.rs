//! Kani harnesses: loop-free or fully unwound, over the whole domain of their inputs unless a bound is named
#[cfg(kani)]
mod keys;
#[cfg(kani)]
mod nodes;
