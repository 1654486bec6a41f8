//! Makes selectors and markers in a crate of its own: names of the types are separate copies.
use lokky::scope::{AllocMarker, AllocSelector};

pub fn marker<T>() -> AllocMarker {
    AllocMarker::new::<T>()
}

pub fn selector<T: ?Sized>() -> AllocSelector {
    AllocSelector::new::<T>()
}

pub fn selector_with<T: ?Sized>(m: AllocMarker) -> AllocSelector {
    AllocSelector::with_marker::<T>(m)
}

/// Not generic over the caller: instantiated here.
pub fn concrete() -> (AllocMarker, AllocSelector, AllocSelector) {
    (
        AllocMarker::new::<std::cell::Cell<u32>>(),
        AllocSelector::new::<std::vec::Vec<u64>>(),
        AllocSelector::with_marker::<str>(AllocMarker::new::<std::cell::Cell<u32>>()),
    )
}
