use vstd::prelude::*;
use std::marker::PhantomData;
verus! {
global size_of usize == 8;
%%include readersec.vx
fn main() {}
}
