//! Families of shared handles under one interface.
use lokky::ScopePtr;

pub trait Fam: 'static {
    const KIND: &'static str;
    /// Counters are kept per fence.
    const FENCES: bool = false;
    /// Properties: ownership, uniqueness.
    const OWN: &'static [&'static str];
    const UNIQ: &'static [&'static str];
    const BOTH: &'static [&'static str];
    type S<T: 'static>: AsRef<T> + 'static;
    type W<T: 'static>: 'static;
    type B<T: 'static>: 'static;

    fn new<T: 'static>(v: T) -> Self::S<T>;
    /// None: there is no fallible constructor.
    fn try_new<T: 'static>(v: T) -> Option<Result<Self::S<T>, ()>>;
    fn from_box<T: 'static>(_v: lokky::boxed::Box<T>) -> Option<Self::S<T>> {
        None
    }
    fn dup<T: 'static>(s: &Self::S<T>) -> Self::S<T>;
    fn down<T: 'static>(s: &Self::S<T>) -> Self::W<T>;
    fn strong<T: 'static>(s: &Self::S<T>) -> usize;
    fn weak<T: 'static>(s: &Self::S<T>) -> usize;
    fn get_mut<T: 'static>(s: &mut Self::S<T>) -> Option<&mut T>;
    fn try_unwrap<T: 'static>(s: Self::S<T>) -> Result<T, Self::S<T>>;
    fn make_mut<T: Clone + 'static>(s: &mut Self::S<T>) -> &mut T;
    fn ptr_eq<T: 'static>(a: &Self::S<T>, b: &Self::S<T>) -> bool;
    fn as_ptr<T: 'static>(s: &Self::S<T>) -> *const T;

    fn upgrade<T: 'static>(_w: &Self::W<T>) -> Option<Option<Self::S<T>>> {
        None
    }
    fn dup_weak<T: 'static>(_w: &Self::W<T>) -> Option<Self::W<T>> {
        None
    }
    /// (strong, weak)
    fn wcounts<T: 'static>(_w: &Self::W<T>) -> Option<(usize, usize)> {
        None
    }
    fn new_weak<T: 'static>(_default: bool) -> Option<Self::W<T>> {
        None
    }
    fn wptr_eq<T: 'static>(_a: &Self::W<T>, _b: &Self::W<T>) -> Option<bool> {
        None
    }
    fn wfmt<T: std::fmt::Debug + 'static>(_w: &Self::W<T>) -> Option<String> {
        None
    }
    /// Pass through an envelope in the same thread.
    fn envelop<T: 'static>(_s: &Self::S<T>) -> Option<Self::S<T>> {
        None
    }
    fn sole<T: 'static>(_s: &Self::S<T>) -> Option<bool> {
        None
    }
    fn into_fence<T: 'static>(s: Self::S<T>) -> Result<Self::B<T>, Self::S<T>> {
        Err(s)
    }
    fn fence_counts<T: 'static>(_b: &Self::B<T>) -> (usize, usize) {
        (0, 0)
    }
    fn from_fence<T: 'static>(_b: Self::B<T>) -> Self::S<T> {
        unreachable!()
    }
    /// Weak handles keep the cell of the value, so its block outlives the value.
    fn uninit<T: 'static>() -> Option<Self::S<std::mem::MaybeUninit<T>>> {
        None
    }
    fn pin<T: 'static>(v: T) -> Option<Self::S<T>> {
        drop(v);
        None
    }
    fn try_pin<T: 'static>(v: T) -> Option<Result<Self::S<T>, ()>> {
        drop(v);
        None
    }
    fn wptr<T: 'static>(_w: &Self::W<T>) -> Option<*const T> {
        None
    }
}

pub struct RcF;
impl Fam for RcF {
    const KIND: &'static str = "Rc";
    const OWN: &'static [&'static str] = &["C13"];
    const UNIQ: &'static [&'static str] = &["C14"];
    const BOTH: &'static [&'static str] = &["C13", "C14"];
    type S<T: 'static> = lokky::rc::Rc<T>;
    type W<T: 'static> = lokky::rc::Weak<T>;
    type B<T: 'static> = ();

    fn new<T: 'static>(v: T) -> Self::S<T> {
        lokky::rc::Rc::new(v)
    }
    fn try_new<T: 'static>(v: T) -> Option<Result<Self::S<T>, ()>> {
        drop(v);
        None
    }
    fn from_box<T: 'static>(v: lokky::boxed::Box<T>) -> Option<Self::S<T>> {
        Some(v.into())
    }
    fn dup<T: 'static>(s: &Self::S<T>) -> Self::S<T> {
        s.clone()
    }
    fn down<T: 'static>(s: &Self::S<T>) -> Self::W<T> {
        lokky::rc::Rc::downgrade(s)
    }
    fn strong<T: 'static>(s: &Self::S<T>) -> usize {
        lokky::rc::Rc::strong_count(s)
    }
    fn weak<T: 'static>(s: &Self::S<T>) -> usize {
        lokky::rc::Rc::weak_count(s)
    }
    fn get_mut<T: 'static>(s: &mut Self::S<T>) -> Option<&mut T> {
        lokky::rc::Rc::get_mut(s)
    }
    fn try_unwrap<T: 'static>(s: Self::S<T>) -> Result<T, Self::S<T>> {
        lokky::rc::Rc::try_unwrap(s)
    }
    fn make_mut<T: Clone + 'static>(s: &mut Self::S<T>) -> &mut T {
        lokky::rc::Rc::make_mut(s)
    }
    fn ptr_eq<T: 'static>(a: &Self::S<T>, b: &Self::S<T>) -> bool {
        lokky::rc::Rc::ptr_eq(a, b)
    }
    fn as_ptr<T: 'static>(s: &Self::S<T>) -> *const T {
        lokky::rc::Rc::as_ptr(s)
    }
    fn upgrade<T: 'static>(w: &Self::W<T>) -> Option<Option<Self::S<T>>> {
        Some(w.upgrade())
    }
    fn dup_weak<T: 'static>(w: &Self::W<T>) -> Option<Self::W<T>> {
        Some(w.clone())
    }
    fn wcounts<T: 'static>(w: &Self::W<T>) -> Option<(usize, usize)> {
        Some((w.strong_count(), w.weak_count()))
    }
    fn new_weak<T: 'static>(default: bool) -> Option<Self::W<T>> {
        Some(if default { Default::default() } else { lokky::rc::Weak::new() })
    }
    fn wptr_eq<T: 'static>(a: &Self::W<T>, b: &Self::W<T>) -> Option<bool> {
        Some(a.ptr_eq(b))
    }
    fn wptr<T: 'static>(w: &Self::W<T>) -> Option<*const T> {
        Some(w.as_ptr())
    }
    fn wfmt<T: std::fmt::Debug + 'static>(w: &Self::W<T>) -> Option<String> {
        Some(format!("{w:?}"))
    }
}

pub struct ArcF;
impl Fam for ArcF {
    const KIND: &'static str = "Arc";
    const OWN: &'static [&'static str] = &["C15"];
    const UNIQ: &'static [&'static str] = &["C16"];
    const BOTH: &'static [&'static str] = &["C15", "C16"];
    type S<T: 'static> = lokky::arc::Arc<T>;
    type W<T: 'static> = lokky::arc::Weak<T>;
    type B<T: 'static> = ();

    fn new<T: 'static>(v: T) -> Self::S<T> {
        lokky::arc::Arc::new(v)
    }
    fn try_new<T: 'static>(v: T) -> Option<Result<Self::S<T>, ()>> {
        Some(lokky::arc::Arc::try_new(v).map_err(|_| ()))
    }
    fn dup<T: 'static>(s: &Self::S<T>) -> Self::S<T> {
        s.clone()
    }
    fn down<T: 'static>(s: &Self::S<T>) -> Self::W<T> {
        lokky::arc::Arc::downgrade(s)
    }
    fn strong<T: 'static>(s: &Self::S<T>) -> usize {
        lokky::arc::Arc::strong_count(s)
    }
    fn weak<T: 'static>(s: &Self::S<T>) -> usize {
        lokky::arc::Arc::weak_count(s)
    }
    fn get_mut<T: 'static>(s: &mut Self::S<T>) -> Option<&mut T> {
        lokky::arc::Arc::get_mut(s)
    }
    fn try_unwrap<T: 'static>(s: Self::S<T>) -> Result<T, Self::S<T>> {
        lokky::arc::Arc::try_unwrap(s)
    }
    fn make_mut<T: Clone + 'static>(s: &mut Self::S<T>) -> &mut T {
        lokky::arc::Arc::make_mut(s)
    }
    fn ptr_eq<T: 'static>(a: &Self::S<T>, b: &Self::S<T>) -> bool {
        lokky::arc::Arc::ptr_eq(a, b)
    }
    fn as_ptr<T: 'static>(s: &Self::S<T>) -> *const T {
        lokky::arc::Arc::as_ptr(s)
    }
    fn envelop<T: 'static>(s: &Self::S<T>) -> Option<Self::S<T>> {
        use lokky::scope::{Envelop, ScopeRecv};
        Some(std::thread::scope(|t| t.recv(s.envelop(t))))
    }
    fn uninit<T: 'static>() -> Option<Self::S<std::mem::MaybeUninit<T>>> {
        Some(lokky::arc::Arc::<T>::new_uninit())
    }
    fn pin<T: 'static>(v: T) -> Option<Self::S<T>> {
        // SAFETY: the elements do not rely on being pinned.
        unsafe { Some(std::pin::Pin::into_inner_unchecked(lokky::arc::Arc::pin(v))) }
    }
    fn try_pin<T: 'static>(v: T) -> Option<Result<Self::S<T>, ()>> {
        // SAFETY: as above.
        unsafe { Some(lokky::arc::Arc::try_pin(v).map(|p| std::pin::Pin::into_inner_unchecked(p)).map_err(|_| ())) }
    }
}

pub struct UrcF;
impl Fam for UrcF {
    const KIND: &'static str = "Urc";
    const FENCES: bool = true;
    const OWN: &'static [&'static str] = &["C17"];
    const UNIQ: &'static [&'static str] = &["C18"];
    const BOTH: &'static [&'static str] = &["C17", "C18"];
    type S<T: 'static> = lokky::urc::Urc<T>;
    type W<T: 'static> = lokky::urc::Weak<T>;
    type B<T: 'static> = ScopePtr<lokky::urc::Fence<T>>;

    fn new<T: 'static>(v: T) -> Self::S<T> {
        lokky::urc::Urc::new(v)
    }
    fn try_new<T: 'static>(v: T) -> Option<Result<Self::S<T>, ()>> {
        Some(lokky::urc::Urc::try_new(v).map_err(|_| ()))
    }
    fn dup<T: 'static>(s: &Self::S<T>) -> Self::S<T> {
        s.clone()
    }
    fn down<T: 'static>(s: &Self::S<T>) -> Self::W<T> {
        lokky::urc::Urc::downgrade(s)
    }
    fn strong<T: 'static>(s: &Self::S<T>) -> usize {
        let n = lokky::urc::Urc::fence_strong_count(s);
        let f = lokky::urc::Urc::fence_of(s);
        if f.strong_count() != n || !f.is_strong() || f.is_weak() {
            return usize::MAX;
        }
        n
    }
    fn weak<T: 'static>(s: &Self::S<T>) -> usize {
        lokky::urc::Urc::fence_weak_count(s)
    }
    fn get_mut<T: 'static>(s: &mut Self::S<T>) -> Option<&mut T> {
        lokky::urc::Urc::get_mut(s)
    }
    fn try_unwrap<T: 'static>(s: Self::S<T>) -> Result<T, Self::S<T>> {
        lokky::urc::Urc::try_unwrap(s)
    }
    fn make_mut<T: Clone + 'static>(s: &mut Self::S<T>) -> &mut T {
        lokky::urc::Urc::make_mut(s)
    }
    fn ptr_eq<T: 'static>(a: &Self::S<T>, b: &Self::S<T>) -> bool {
        lokky::urc::Urc::ptr_eq(a, b)
    }
    fn as_ptr<T: 'static>(s: &Self::S<T>) -> *const T {
        lokky::urc::Urc::as_ptr(s)
    }
    fn envelop<T: 'static>(s: &Self::S<T>) -> Option<Self::S<T>> {
        use lokky::scope::{Envelop, ScopeRecv};
        Some(std::thread::scope(|t| t.recv(s.envelop(t))))
    }
    fn sole<T: 'static>(s: &Self::S<T>) -> Option<bool> {
        Some(lokky::urc::Urc::is_sole_strong_fence(s))
    }
    fn into_fence<T: 'static>(s: Self::S<T>) -> Result<Self::B<T>, Self::S<T>> {
        lokky::urc::Urc::try_into_fence(s)
    }
    fn fence_counts<T: 'static>(b: &Self::B<T>) -> (usize, usize) {
        (b.strong_count(), b.weak_count())
    }
    fn from_fence<T: 'static>(b: Self::B<T>) -> Self::S<T> {
        b.into_inner().into_urc()
    }
    fn uninit<T: 'static>() -> Option<Self::S<std::mem::MaybeUninit<T>>> {
        Some(lokky::urc::Urc::<T>::new_uninit())
    }
    fn pin<T: 'static>(v: T) -> Option<Self::S<T>> {
        // SAFETY: the elements do not rely on being pinned.
        unsafe { Some(std::pin::Pin::into_inner_unchecked(lokky::urc::Urc::pin(v))) }
    }
    fn try_pin<T: 'static>(v: T) -> Option<Result<Self::S<T>, ()>> {
        // SAFETY: as above.
        unsafe { Some(lokky::urc::Urc::try_pin(v).map(|p| std::pin::Pin::into_inner_unchecked(p)).map_err(|_| ())) }
    }
}
