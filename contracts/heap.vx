// ---- BinaryHeap<Reverse<T>> (trusted): pop takes out an element that is least by T's ordering ----
#[verifier::external_type_specification]
pub struct ExReverse<T>(std::cmp::Reverse<T>);

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::accept_recursive_types(A)]
pub struct ExBinaryHeap<T, A: std::alloc::Allocator>(std::collections::BinaryHeap<T, A>);


pub uninterp spec fn heap_view<T, A: std::alloc::Allocator>(h: BinaryHeap<T, A>) -> Multiset<T>;

/// x is at least y in the ordering of T
pub uninterp spec fn heap_ge<T>(x: T, y: T) -> bool;

pub assume_specification<T> [BinaryHeap::<T>::new] () -> (r: BinaryHeap<T>)
    ensures heap_view(r) == Multiset::<T>::empty();
pub assume_specification<T: Ord, A: std::alloc::Allocator> [BinaryHeap::<T, A>::push] (h: &mut BinaryHeap<T, A>, x: T)
    ensures heap_view(*final(h)) == heap_view(*old(h)).insert(x);
pub assume_specification<T: Ord, A: std::alloc::Allocator> [BinaryHeap::<T, A>::pop] (h: &mut BinaryHeap<T, A>) -> (r: Option<T>)
    ensures
        r is None <==> heap_view(*old(h)).len() == 0,
        r is None ==> heap_view(*final(h)) == heap_view(*old(h)),
        r is Some ==> heap_view(*old(h)).contains(r->0) && heap_view(*final(h)) == heap_view(*old(h)).remove(r->0)
            && forall|y: T| heap_view(*old(h)).contains(y) ==> #[trigger] heap_ge(r->0, y);
