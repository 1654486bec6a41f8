//! One interface over `lokky::vec::Vec` and `lokky::small_vec::SmallVec`.
use crate::elem::Elem;
use lokky::boxed::Box as LBox;
use lokky::scope::AllocMarker;
use lokky::small_vec::SmallVec;
use lokky::vec::Vec as LVec;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::mem::MaybeUninit;
use std::cell::Cell;
use std::ops::{Bound, RangeBounds};

pub type Range = (Bound<usize>, Bound<usize>);

/// Range of which the bounds are different each time when they are asked for. May also panic.
pub struct Fickle {
    pub ranges: [Range; 3],
    pub asked: [Cell<usize>; 2],
    pub die: Option<usize>,
}
impl Fickle {
    fn next(&self, side: usize) -> &Range {
        let n = self.asked[side].get();
        self.asked[side].set(n + 1);
        if self.die == Some(n * 2 + side) {
            panic!("{}", crate::elem::BOMB);
        }
        &self.ranges[n.min(2)]
    }
}
impl RangeBounds<usize> for Fickle {
    fn start_bound(&self) -> Bound<&usize> {
        self.next(0).0.as_ref()
    }
    fn end_bound(&self) -> Bound<&usize> {
        self.next(1).1.as_ref()
    }
}

/// Key of an element; keys are the same up to the tolerance, as the measured values are.
#[derive(Clone, Copy)]
pub struct Key(pub u32, pub u32);

impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.0.abs_diff(o.0) <= self.1
    }
}

/// Double ended iterator of the known length, as made by `drain` and `into_iter`.
pub trait It<T> {
    fn nx(&mut self) -> Option<T>;
    fn nb(&mut self) -> Option<T>;
    fn nth_(&mut self, n: usize) -> Option<T>;
    fn nth_back_(&mut self, n: usize) -> Option<T>;
    fn ln(&self) -> usize;
    fn hint(&self) -> (usize, Option<usize>);
    fn sl(&self) -> &[T];
}

macro_rules! it {
    ($t:ty, $($g:tt)*) => {
        impl<$($g)*> It<T> for $t {
            fn nx(&mut self) -> Option<T> { Iterator::next(self) }
            fn nb(&mut self) -> Option<T> { DoubleEndedIterator::next_back(self) }
            fn nth_(&mut self, n: usize) -> Option<T> { Iterator::nth(self, n) }
            fn nth_back_(&mut self, n: usize) -> Option<T> { DoubleEndedIterator::nth_back(self, n) }
            fn ln(&self) -> usize { ExactSizeIterator::len(self) }
            fn hint(&self) -> (usize, Option<usize>) { Iterator::size_hint(self) }
            fn sl(&self) -> &[T] { self.as_slice() }
        }
    };
}
it!(lokky::vec::Drain<'_, T>, T: 'static);
it!(lokky::vec::IntoIter<T>, T: 'static);
it!(lokky::small_vec::Drain<'_, T, N>, T: 'static, const N: usize);

pub fn hash_of(v: &(impl Hash + ?Sized)) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

pub trait Cont<T: Elem>: Sized + Clone + Debug + Hash + Ord + 'static {
    /// Number of elements stored inline.
    const INLINE: Option<usize>;
    const KIND: &'static str;
    fn new() -> Self;
    fn default_() -> Self;
    fn with_marker(m: AllocMarker) -> Self;
    fn with_cap(n: usize) -> Self;
    fn try_with_cap(n: usize) -> Result<Self, ()>;
    fn with_cap_marker(n: usize, m: AllocMarker) -> Self;
    fn try_with_cap_marker(n: usize, m: AllocMarker) -> Result<Self, ()>;
    fn marker_(&self) -> Option<AllocMarker>;
    fn cap(&self) -> usize;
    fn len_(&self) -> usize;
    fn empty(&self) -> bool;
    fn full(&self) -> bool;
    fn spare(&self) -> usize;
    fn sl(&self) -> &[T];
    fn sl_mut(&mut self) -> &mut [T];
    fn deref_(&self) -> &[T];
    fn deref_mut_(&mut self) -> &mut [T];
    fn ptr(&self) -> *const T;
    fn at(&self, i: usize) -> &T;
    fn borrow_(&self) -> &[T];
    fn as_ref_(&self) -> &[T];
    fn borrow_mut_(&mut self) -> &mut [T];
    fn as_mut_(&mut self) -> &mut [T];
    fn self_mut(&mut self) -> &mut Self;
    fn mut_ptr(&mut self) -> *mut T;
    /// Indexed by all kinds of ranges, if that is supported.
    fn slices(&mut self, a: usize, b: usize) -> bool;
    /// Content of a vector of numbers after it is extended by references.
    fn extend_refs(start: &[u32], add: &'static [u32]) -> Vec<u32>;
    fn at_mut(&mut self, i: usize) -> &mut T;
    fn spare_range(&mut self) -> (*const T, usize, *const T, usize);
    fn push(&mut self, v: T);
    fn pop(&mut self) -> Option<T>;
    fn insert(&mut self, i: usize, v: T);
    fn remove(&mut self, i: usize) -> T;
    fn swap_remove(&mut self, i: usize) -> T;
    fn truncate(&mut self, n: usize);
    fn clear(&mut self);
    fn resize(&mut self, n: usize, v: T);
    fn resize_with(&mut self, n: usize, f: &mut dyn FnMut() -> T);
    fn retain(&mut self, f: &mut dyn FnMut(&T) -> bool);
    fn dedup(&mut self);
    fn dedup_by(&mut self, f: &mut dyn FnMut(&mut T, &mut T) -> bool);
    fn dedup_by_key(&mut self, f: &mut dyn FnMut(&mut T) -> Key);
    fn append(&mut self, o: &mut Self);
    fn extend_slice(&mut self, s: &[T]);
    fn extend_iter(&mut self, it: &mut dyn Iterator<Item = T>);
    fn split_off(&mut self, at: usize) -> Self;
    fn split_off_small(&mut self, at: usize) -> Option<Vec<T>>;
    fn drain(&mut self, r: Range, f: &mut dyn FnMut(&mut dyn It<T>), forget: bool);
    fn drain_fickle(&mut self, r: Fickle, f: &mut dyn FnMut(&mut dyn It<T>));
    fn reserve(&mut self, n: usize);
    fn reserve_exact(&mut self, n: usize);
    fn try_reserve(&mut self, n: usize) -> Result<(), ()>;
    fn try_reserve_exact(&mut self, n: usize) -> Result<(), ()>;
    fn shrink_to_fit(&mut self);
    fn shrink_to(&mut self, n: usize);
    fn into_boxed(self) -> LBox<[T]>;
    fn from_boxed(b: LBox<[T]>) -> Self;
    fn from_slice(s: &[T]) -> Self;
    fn from_mut_slice(s: &mut [T]) -> Self;
    fn from_array<const L: usize>(a: [T; L]) -> Self;
    fn collect_(it: &mut dyn Iterator<Item = T>) -> Self;
    /// Consume as the by-value iterator.
    fn into_it(self) -> lokky::vec::IntoIter<T>;
    fn into_lvec(self) -> LVec<T>;
    fn from_lvec(v: LVec<T>) -> Self;
    /// Write elements to the spare capacity and extend the length over them.
    fn fill_spare(&mut self, v: Vec<T>) -> Result<(), Vec<T>>;
    /// `(is_heap, is_stack)`
    fn place(&self) -> (bool, bool);
    fn to_heap(&mut self);
    fn try_to_heap(&mut self, extra: usize) -> Result<(), ()>;
    fn try_to_stack(&mut self) -> Result<(), ()>;
}

macro_rules! shared {
    ($N:expr) => {
        fn new() -> Self { Self::new() }
        fn default_() -> Self { Default::default() }
        fn with_marker(m: AllocMarker) -> Self { Self::with_marker(m) }
        fn with_cap(n: usize) -> Self { Self::with_capacity(n) }
        fn try_with_cap(n: usize) -> Result<Self, ()> { Self::try_with_capacity(n).map_err(|_| ()) }
        fn with_cap_marker(n: usize, m: AllocMarker) -> Self { Self::with_capacity_and_marker(n, m) }
        fn try_with_cap_marker(n: usize, m: AllocMarker) -> Result<Self, ()> {
            Self::try_with_capacity_and_marker(n, m).map_err(|_| ())
        }
        fn cap(&self) -> usize { self.capacity() }
        fn len_(&self) -> usize { self.len() }
        fn empty(&self) -> bool { self.is_empty() }
        fn full(&self) -> bool { self.is_full() }
        fn spare(&self) -> usize { self.spare_len() }
        fn sl(&self) -> &[T] { self.as_slice() }
        fn sl_mut(&mut self) -> &mut [T] { self.as_mut_slice() }
        fn deref_(&self) -> &[T] { &**self }
        fn deref_mut_(&mut self) -> &mut [T] { &mut **self }
        fn at(&self, i: usize) -> &T { &self[i] }
        fn borrow_(&self) -> &[T] { std::borrow::Borrow::<[T]>::borrow(self) }
        fn as_ref_(&self) -> &[T] { AsRef::<[T]>::as_ref(self) }
        fn borrow_mut_(&mut self) -> &mut [T] { std::borrow::BorrowMut::<[T]>::borrow_mut(self) }
        fn as_mut_(&mut self) -> &mut [T] { AsMut::<[T]>::as_mut(self) }
        fn at_mut(&mut self, i: usize) -> &mut T { &mut self[i] }
        fn spare_range(&mut self) -> (*const T, usize, *const T, usize) {
            let (a, an) = { let s = self.spare_capacity(); (s.as_ptr() as *const T, s.len()) };
            let s: &mut [MaybeUninit<T>] = self.spare_capacity_mut();
            (a, an, s.as_ptr() as *const T, s.len())
        }
        fn push(&mut self, v: T) { self.push(v) }
        fn pop(&mut self) -> Option<T> { self.pop() }
        fn insert(&mut self, i: usize, v: T) { self.insert(i, v) }
        fn remove(&mut self, i: usize) -> T { self.remove(i) }
        fn swap_remove(&mut self, i: usize) -> T { self.swap_remove(i) }
        fn truncate(&mut self, n: usize) { self.truncate(n) }
        fn clear(&mut self) { self.clear() }
        fn resize(&mut self, n: usize, v: T) { self.resize(n, v) }
        fn resize_with(&mut self, n: usize, f: &mut dyn FnMut() -> T) { self.resize_with(n, f) }
        fn retain(&mut self, f: &mut dyn FnMut(&T) -> bool) { self.retain(f) }
        fn dedup(&mut self) { self.dedup() }
        fn dedup_by(&mut self, f: &mut dyn FnMut(&mut T, &mut T) -> bool) { self.dedup_by(f) }
        fn dedup_by_key(&mut self, f: &mut dyn FnMut(&mut T) -> Key) { self.dedup_by_key(f) }
        fn append(&mut self, o: &mut Self) { self.append(o) }
        fn extend_slice(&mut self, s: &[T]) { self.extend_from_slice(s) }
        fn split_off(&mut self, at: usize) -> Self { self.split_off(at) }
        fn drain(&mut self, r: Range, f: &mut dyn FnMut(&mut dyn It<T>), forget: bool) {
            let mut d = self.drain(r);
            f(&mut d);
            if forget {
                std::mem::forget(d);
            }
        }
        fn drain_fickle(&mut self, r: Fickle, f: &mut dyn FnMut(&mut dyn It<T>)) { f(&mut self.drain(r)) }
        fn reserve(&mut self, n: usize) { self.reserve(n) }
        fn reserve_exact(&mut self, n: usize) { self.reserve_exact(n) }
        fn try_reserve(&mut self, n: usize) -> Result<(), ()> { self.try_reserve(n).map_err(|_| ()) }
        fn try_reserve_exact(&mut self, n: usize) -> Result<(), ()> {
            self.try_reserve_exact(n).map_err(|_| ())
        }
        fn shrink_to_fit(&mut self) { self.shrink_to_fit() }
        fn shrink_to(&mut self, n: usize) { self.shrink_to(n) }
        fn into_boxed(self) -> LBox<[T]> { self.into_boxed_slice() }
        fn from_boxed(b: LBox<[T]>) -> Self { Self::from(b) }
        fn from_slice(s: &[T]) -> Self { Self::from(s) }
        fn from_mut_slice(s: &mut [T]) -> Self { Self::from(s) }
        fn from_array<const L: usize>(a: [T; L]) -> Self { Self::from(a) }
        fn collect_(it: &mut dyn Iterator<Item = T>) -> Self { it.collect() }
    };
}

impl<T: Elem> Cont<T> for LVec<T> {
    const INLINE: Option<usize> = None;
    const KIND: &'static str = "Vec";
    shared!(0);
    fn marker_(&self) -> Option<AllocMarker> { Some(self.marker()) }
    fn ptr(&self) -> *const T { LVec::as_ptr(self) }
    fn mut_ptr(&mut self) -> *mut T { LVec::as_mut(self) }
    fn self_mut(&mut self) -> &mut Self { self }
    fn slices(&mut self, a: usize, b: usize) -> bool {
        let n = self.len();
        let p = self.as_slice().as_ptr();
        let is = |s: &[T], a: usize, b: usize| {
            s.len() == b - a && (std::mem::size_of::<T>() == 0 || s.as_ptr() == p.wrapping_add(a))
        };
        let mut ok = is(&self[a..b], a, b) && is(&self[..b], 0, b) && is(&self[a..], a, n) && is(&self[..], 0, n);
        ok &= is(&mut self[a..b], a, b) && is(&mut self[..b], 0, b) && is(&mut self[a..], a, n);
        if b < n {
            ok &= is(&self[a..=b], a, b + 1) && is(&mut self[..=b], 0, b + 1);
        }
        ok
    }
    fn extend_refs(start: &[u32], add: &'static [u32]) -> Vec<u32> {
        let mut v: LVec<u32> = LVec::from(start);
        v.extend_from_iter(add.iter().copied());
        v.to_vec()
    }
    fn extend_iter(&mut self, it: &mut dyn Iterator<Item = T>) { self.extend_from_iter(it) }
    fn split_off_small(&mut self, _: usize) -> Option<Vec<T>> { None }
    fn into_it(self) -> lokky::vec::IntoIter<T> { self.into_iter() }
    fn into_lvec(self) -> LVec<T> { self }
    fn from_lvec(v: LVec<T>) -> Self { v }
    fn fill_spare(&mut self, v: Vec<T>) -> Result<(), Vec<T>> {
        if v.len() > self.spare_len() {
            return Err(v);
        }
        let n = self.len() + v.len();
        for (d, s) in self.spare_capacity_mut().iter_mut().zip(v) {
            d.write(s);
        }
        // SAFETY: the elements were just initialized.
        unsafe { self.set_len(n) };
        Ok(())
    }
    fn place(&self) -> (bool, bool) { (true, false) }
    fn to_heap(&mut self) {}
    fn try_to_heap(&mut self, extra: usize) -> Result<(), ()> { Cont::try_reserve_exact(self, extra) }
    fn try_to_stack(&mut self) -> Result<(), ()> { Err(()) }
}

impl<T: Elem, const N: usize> Cont<T> for SmallVec<T, N> {
    const INLINE: Option<usize> = Some(N);
    const KIND: &'static str = "SmallVec";
    shared!(N);
    fn marker_(&self) -> Option<AllocMarker> { None }
    fn ptr(&self) -> *const T { SmallVec::as_ptr(self) }
    fn mut_ptr(&mut self) -> *mut T { SmallVec::as_mut_ptr(self) }
    fn self_mut(&mut self) -> &mut Self { AsMut::<SmallVec<T, N>>::as_mut(self) }
    fn slices(&mut self, _: usize, _: usize) -> bool {
        std::ptr::eq(AsRef::<SmallVec<T, N>>::as_ref(self), self)
    }
    fn extend_refs(start: &[u32], add: &'static [u32]) -> Vec<u32> {
        let mut v: SmallVec<u32, N> = SmallVec::from(start);
        v.extend(add.iter());
        v.to_vec()
    }
    fn extend_iter(&mut self, it: &mut dyn Iterator<Item = T>) { self.extend(it) }
    fn split_off_small(&mut self, at: usize) -> Option<Vec<T>> {
        let mut s: SmallVec<T, 2> = self.split_off_into(at);
        let mut v = Vec::new();
        // Front to back, without the by-value iterator.
        while !s.is_empty() {
            v.push(s.remove(0));
        }
        Some(v)
    }
    fn into_it(self) -> lokky::vec::IntoIter<T> { self.into_vec().into_iter() }
    fn into_lvec(self) -> LVec<T> { self.into_vec() }
    fn from_lvec(v: LVec<T>) -> Self { Self::from(v) }
    fn fill_spare(&mut self, v: Vec<T>) -> Result<(), Vec<T>> { Err(v) }
    fn place(&self) -> (bool, bool) { (self.is_heap(), self.is_stack()) }
    fn to_heap(&mut self) { self.move_to_heap() }
    fn try_to_heap(&mut self, extra: usize) -> Result<(), ()> {
        self.try_move_to_heap_and_reserve_exact(extra).map_err(|_| ())
    }
    fn try_to_stack(&mut self) -> Result<(), ()> { self.try_move_to_stack().map_err(|_| ()) }
}
