//! One case per defect found in the base commit. A case panics/crashes on the defective tree
//! and returns normally on the repaired one.
use lokky::arc::{self, Arc};
use lokky::boxed::Box as LBox;
use lokky::rc::{self, Rc};
use lokky::scope::{self, AllocMarker, AllocSelector, Env, Envelop, Scope, ScopeRecv};
use lokky::small_vec::SmallVec;
use lokky::string::String as LString;
use lokky::urc::{self, Urc};
use lokky::vec::Vec as LVec;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::SeqCst};

/// Allocator that records live blocks and refuses contract violations.
struct Rec {
    live: AtomicI64,
    allocs: AtomicUsize,
    fail: AtomicBool,
}
unsafe impl GlobalAlloc for Rec {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        assert!(l.size() > 0, "zero-size allocation request");
        if self.fail.load(SeqCst) {
            return std::ptr::null_mut();
        }
        self.live.fetch_add(1, SeqCst);
        self.allocs.fetch_add(1, SeqCst);
        let p = System.alloc(l);
        p.write_bytes(0xCD, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        assert!(l.size() > 0, "zero-size deallocation request");
        self.live.fetch_sub(1, SeqCst);
        p.write_bytes(0xDD, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        assert!(n > 0, "realloc to zero size");
        if self.fail.load(SeqCst) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
const fn rec() -> Rec {
    Rec { live: AtomicI64::new(0), allocs: AtomicUsize::new(0), fail: AtomicBool::new(false) }
}
static OUTER: Rec = rec();
static INNER: Rec = rec();
thread_local! {
    static SELECTORS: RefCell<Vec<AllocSelector>> = RefCell::new(Vec::new());
}
struct S {
    a: &'static Rec,
    _pad: [usize; 4],
}
impl Scope for S {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        SELECTORS.with(|v| v.borrow_mut().push(s));
        self.a
    }
}
struct Tiny;
impl Scope for Tiny {
    fn alloc_for(&self, _: AllocSelector) -> &dyn GlobalAlloc {
        &INNER
    }
}
thread_local!(static TENV: Cell<*mut Env> = Cell::new(std::ptr::null_mut()));
fn env() -> &'static mut Env {
    TENV.with(|e| {
        if e.get().is_null() {
            let s: &'static mut S = Box::leak(Box::new(S { a: &OUTER, _pad: [0; 4] }));
            e.set(Box::into_raw(Box::new(Env::new(s))));
        }
        unsafe { &mut *e.get() }
    })
}
fn live() -> i64 {
    OUTER.live.load(SeqCst)
}

static DROPS: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug)]
struct D(u64, Box<u64>);
fn d(v: u64) -> D {
    D(v, Box::new(v ^ 0x5a5a))
}
impl Drop for D {
    fn drop(&mut self) {
        assert_eq!(*self.1, self.0 ^ 0x5a5a, "drop of a corrupt or dead value");
        self.0 = 0xdead;
        DROPS.fetch_add(1, SeqCst);
    }
}
impl Clone for D {
    fn clone(&self) -> Self {
        d(self.0)
    }
}
impl PartialEq for D {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
fn drops() -> usize {
    DROPS.load(SeqCst)
}
fn ids(s: &[D]) -> Vec<u64> {
    s.iter().map(|x| x.0).collect()
}
fn lv(n: u64) -> LVec<D> {
    let mut v = LVec::with_capacity(n.max(1) as usize);
    for i in 0..n {
        v.push(d(i));
    }
    v
}

struct M1;

fn cases() -> Vec<(&'static str, fn())> {
    vec![
        ("ptr_alloc_drops_uninit", || {
            let mut v = LBox::new(d(7));
            v.0 = 7;
            drop(v);
            assert_eq!(drops(), 1);
        }),
        ("box_into_inner_double_free", || {
            let b = LBox::new(5u64);
            assert_eq!(b.into_inner(), 5);
            assert_eq!(live(), 0);
        }),
        ("zst_alloc", || {
            let b = LBox::new(());
            drop(b);
            let mut v = LVec::new();
            v.push(());
            drop(v);
        }),
        ("empty_boxed_slice", || {
            drop(LVec::<u64>::new().into_boxed_slice());
        }),
        ("shrink_to_zero", || {
            let mut v = LVec::<u64>::with_capacity(4);
            v.shrink_to_fit();
            assert_eq!(v.capacity(), 0);
            drop(v);
            assert_eq!(live(), 0);
        }),
        ("realloc_overflow", || {
            let mut v = LVec::<u64>::with_capacity(1);
            v.push(1);
            assert!(v.try_reserve_exact(usize::MAX / 8).is_err());
            assert!(v.try_reserve_exact((isize::MAX as usize) / 8 + 10).is_err());
            assert_eq!(v.capacity(), 1);
        }),
        ("try_reserve_panics", || {
            let mut v = LVec::<u64>::with_capacity(1);
            v.push(1);
            assert!(v.try_reserve(usize::MAX).is_err());
            assert!(v.try_reserve_exact(usize::MAX).is_err());
            let mut v = SmallVec::<u64, 4>::new();
            v.push(1);
            assert!(v.try_reserve(usize::MAX).is_err());
            assert!(v.try_reserve_exact(usize::MAX).is_err());
            assert!(v.try_move_to_heap_and_reserve_exact(usize::MAX).is_err());
            v.move_to_heap();
            OUTER.fail.store(true, SeqCst);
            assert!(v.try_move_to_heap_and_reserve_exact(100).is_err());
        }),
        ("vec_with_marker_forgets", || {
            let mut v = LVec::<u64>::with_marker(AllocMarker::new::<M1>());
            assert!(v.marker() == AllocMarker::new::<M1>());
            v.push(1);
            assert!(v.marker() == AllocMarker::new::<M1>());
        }),
        ("vec_clear_panic_double_drop", || {
            struct P(D, bool);
            impl Drop for P {
                fn drop(&mut self) {
                    if self.1 {
                        self.1 = false;
                        panic!("boom")
                    }
                }
            }
            let mut v = LVec::new();
            v.push(P(d(1), false));
            v.push(P(d(2), true));
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.clear()));
            drop(v);
            assert!(drops() <= 2);
        }),
        ("vec_leak_dangling", || {
            let s = lv(3).leak();
            assert_eq!(drops(), 0);
            assert_eq!(ids(s), [0, 1, 2]);
        }),
        ("dealloc_without_drop_double_free", || {
            lv(3).dealloc_without_drop();
            assert_eq!((live(), drops()), (0, 0));
            LVec::<u64>::new().dealloc_without_drop();
        }),
        ("swap_remove_last_overlap", || {
            let mut v = lv(3);
            assert_eq!(v.swap_remove(2).0, 2);
            let mut v = SmallVec::<D, 8>::new();
            v.push(d(1));
            assert_eq!(v.swap_remove(0).0, 1);
        }),
        ("zst_boxed_slice_loses", || {
            let mut v = LVec::new();
            v.push(());
            v.push(());
            assert_eq!(v.into_boxed_slice().len(), 2);
        }),
        ("split_off_loses", || {
            let mut v = lv(4);
            let w = v.split_off(1);
            assert_eq!(ids(&v), [0]);
            assert_eq!(ids(&w), [1, 2, 3]);
        }),
        ("drain_panics", || {
            let mut v = lv(5);
            assert_eq!(v.drain(1..3).map(|x| x.0).collect::<Vec<_>>(), [1, 2]);
            assert_eq!(ids(&v), [0, 3, 4]);
        }),
        ("drain_next_back", || {
            let mut v = lv(5);
            {
                let mut it = v.drain(0..3);
                assert_eq!(it.next_back().unwrap().0, 2);
                assert_eq!(it.next_back().unwrap().0, 1);
                assert_eq!(it.next().unwrap().0, 0);
                assert!(it.next().is_none());
            }
            assert_eq!(ids(&v), [3, 4]);
        }),
        ("drain_inclusive_max", || {
            let r = std::panic::catch_unwind(|| {
                let mut v = lv(5);
                v.drain(..=usize::MAX).count()
            });
            assert!(r.is_err());
        }),
        ("retain_skips_second", || {
            let mut v = lv(4);
            v.retain(|_| true);
            assert_eq!(ids(&v), [0, 1, 2, 3]);
        }),
        ("dedup_by_stale_kept", || {
            let mut v = LVec::new();
            for i in [1, 1, 2, 2, 2] {
                v.push(d(i));
            }
            v.dedup_by(|a, b| {
                let same = a.0 == b.0;
                if same {
                    *b = d(b.0);
                }
                same
            });
            assert_eq!(ids(&v), [1, 2]);
        }),
        ("vec_from_slice_panics", || {
            assert_eq!(ids(&LVec::from(&[d(1), d(2)][..])), [1, 2]);
            assert_eq!(LString::from("hello").as_str(), "hello");
        }),
        ("into_iter_next_back_double", || {
            let mut it = lv(2).into_iter();
            assert_eq!(it.next().unwrap().0, 0);
            assert_eq!(it.next_back().unwrap().0, 1);
            assert!(it.next_back().is_none());
        }),
        ("into_iter_len", || {
            let mut it = lv(3).into_iter();
            it.next();
            assert_eq!(it.len(), 2);
            assert_eq!(ids(it.as_slice()), [1, 2]);
        }),
        ("stackvec_insert_end", || {
            let mut v = SmallVec::<D, 8>::new();
            v.insert(0, d(1));
            v.insert(1, d(2));
            assert_eq!(ids(&v), [1, 2]);
        }),
        ("stackvec_insert_out_of_range", || {
            // Only a debug assertion guards the bound: run with --release.
            let r = std::panic::catch_unwind(|| {
                let mut v = SmallVec::<u64, 8>::new();
                v.insert(5, 1);
                v.len()
            });
            assert!(r.is_err());
        }),
        ("stackvec_truncate_leaks", || {
            let mut v = SmallVec::<D, 8>::new();
            v.push(d(1));
            v.push(d(2));
            v.truncate(1);
            assert_eq!(drops(), 1);
        }),
        ("stackvec_remove_reads_past_end", || {
            // Observable under Miri (reads one element beyond the array).
            let mut v = Box::new(SmallVec::<[u64; 64], 4>::new());
            for i in 0..4 {
                v.push([i; 64]);
            }
            assert_eq!(v.remove(3)[0], 3);
        }),
        ("smallvec_small_n_spills", || {
            let mut v = SmallVec::<u64, 2>::new();
            v.push(1);
            v.push(2);
            assert!(v.is_stack());
        }),
        ("smallvec_zst_heap_push", || {
            let mut v = SmallVec::<(), 1>::new();
            for _ in 0..5 {
                v.push(());
            }
            assert_eq!(v.len(), 5);
        }),
        ("smallvec_resize_from_short", || {
            let mut v = SmallVec::<u64, 4>::new();
            v.resize(6, 1);
            assert_eq!(v.as_slice(), [1; 6]);
        }),
        ("smallvec_resize_with_spill", || {
            let mut v = SmallVec::<u64, 4>::new();
            v.resize_with(6, || 1);
            assert_eq!(v.as_slice(), [1; 6]);
        }),
        ("smallvec_move_to_stack_double_free", || {
            let mut v = SmallVec::<D, 4>::new();
            v.push(d(1));
            v.move_to_heap();
            v.try_move_to_stack().unwrap();
            assert_eq!((live(), drops()), (0, 0));
            assert_eq!(ids(&v), [1]);
        }),
        ("smallvec_split_off_at_len", || {
            let mut v = SmallVec::<D, 4>::new();
            v.push(d(1));
            assert!(v.split_off(1).is_empty());
        }),
        ("smallvec_from_array_empty", || {
            let v = SmallVec::<D, 4>::from([d(1), d(2)]);
            assert_eq!(ids(&v), [1, 2]);
        }),
        ("string_uninit_bytes", || {
            // Observable under Miri.
            let mut s = LString::new();
            s.push('ж');
            s.insert(0, 'я');
            assert_eq!(s.as_str(), "яж");
        }),
        ("string_debug", || {
            let mut s = LString::new();
            s.push('"');
            assert_eq!(format!("{s:?}"), format!("{:?}", "\""));
        }),
        ("rc_never_drops", || {
            drop(Rc::new(d(1)));
            assert_eq!((live(), drops()), (0, 1));
        }),
        ("rc_weak_never_frees", || {
            let a = Rc::new(d(1));
            let w = Rc::downgrade(&a);
            drop(a);
            assert!(w.upgrade().is_none());
            drop(w);
            assert_eq!((live(), drops()), (0, 1));
        }),
        ("rc_try_unwrap_leaks", || {
            let a = Rc::new(d(1));
            let w = Rc::downgrade(&a);
            let v = Rc::try_unwrap(a).unwrap();
            assert!(w.upgrade().is_none());
            drop(v);
            drop(w);
            assert_eq!((live(), drops()), (0, 1));
        }),
        ("rc_make_mut_weak", || {
            let mut a = Rc::new(d(1));
            let w = Rc::downgrade(&a);
            Rc::make_mut(&mut a).0 = 1;
            assert!(w.upgrade().is_none());
            drop(a);
            drop(w);
            assert_eq!((live(), drops()), (0, 1));
        }),
        ("arc_weak_never_released", || {
            let mut a = Arc::new(d(1));
            let w = Arc::downgrade(&a);
            drop(w);
            assert_eq!(Arc::weak_count(&a), 0);
            assert!(Arc::get_mut(&mut a).is_some());
            let w: arc::Weak<D> = Arc::downgrade(&a);
            drop(a);
            drop(w);
            assert_eq!((live(), drops()), (0, 1));
        }),
        ("arc_make_mut_weak", || {
            let mut a = Arc::new(d(1));
            let w = Arc::downgrade(&a);
            assert_eq!(Arc::make_mut(&mut a).0, 1);
            drop(w);
            drop(a);
            assert_eq!((live(), drops()), (0, 1));
        }),
        ("arc_downgrade_livelock", || {
            // Two threads downgrading concurrently spin for ever on a stale counter value.
            let a = Arc::new(1u64);
            std::thread::scope(|s| {
                for _ in 0..4 {
                    s.spawn(|| {
                        for _ in 0..20000 {
                            std::mem::forget(Arc::downgrade(&a));
                        }
                    });
                }
            });
        }),
        ("urc_never_drops", || {
            drop(Urc::new(d(1)));
            assert_eq!((live(), drops()), (0, 1));
        }),
        ("urc_weak_release", || {
            let a = Urc::new(d(1));
            let w: urc::Weak<D> = Urc::downgrade(&a);
            drop(a);
            assert_eq!(drops(), 1);
            drop(w);
            assert_eq!(live(), 0);
        }),
        ("urc_try_unwrap_uaf", || {
            // Reads the fence after it was freed: Miri, or the 0xDD fill.
            let a = Urc::new(d(1));
            let v = Urc::try_unwrap(a).unwrap();
            drop(v);
            assert_eq!((live(), drops()), (0, 1));
        }),
        ("urc_try_unwrap_shared", || {
            let a = Urc::new(d(1));
            let b = a.clone();
            let a = Urc::try_unwrap(a).unwrap_err();
            assert!(Urc::is_sole_strong_fence(&a));
            drop(a);
            drop(b);
            assert_eq!((live(), drops()), (0, 1));
        }),
        ("urc_make_mut_unique", || {
            let mut a = Urc::new(d(1));
            Urc::make_mut(&mut a).0 = 1;
            drop(a);
            assert_eq!((live(), drops()), (0, 1));
        }),
        ("urc_make_mut_shared", || {
            let mut a = Urc::new(d(1));
            let b = a.clone();
            let _ = Urc::make_mut(&mut a);
            assert!(!Urc::ptr_eq(&a, &b));
            drop(a);
            drop(b);
            assert_eq!((live(), drops()), (0, 2));
        }),
        ("urc_get_mut_after_share", || {
            let mut a = Urc::new(d(1));
            std::thread::scope(|s| {
                let e = a.envelop(s);
                let b: Urc<D> = s.recv(e);
                assert!(Urc::get_mut(&mut a).is_none());
                drop(b);
                assert!(Urc::get_mut(&mut a).is_some());
            });
        }),
        ("urc_fence_dropped", || {
            let a = Urc::new(d(1));
            drop(Urc::try_into_fence(a).ok().unwrap());
            assert_eq!((live(), drops()), (0, 1));
        }),
        ("scope_spawn", || {
            scope::spawn(
                |_| S { a: &INNER, _pad: [0; 4] },
                |_| {
                    let v = LVec::<u64>::with_capacity(4);
                    assert_eq!(INNER.live.load(SeqCst), 1);
                    drop(v);
                },
            );
            scope::spawn(|_| Tiny, |_| drop(LVec::<u64>::with_capacity(4)));
        }),
        ("scope_spawn_panic", || {
            let _ = std::panic::catch_unwind(|| {
                scope::spawn(|_| S { a: &INNER, _pad: [0; 4] }, |_| panic!("boom"))
            });
            let _v = LVec::<u64>::with_capacity(4);
            assert_eq!(live(), 1);
        }),
        ("vec_grows_in_foreign_scope", || {
            let mut v = LVec::<u64>::new();
            let mut s = SmallVec::<u64, 2>::new();
            let mut rc = Rc::new(5u64);
            let _rc2 = rc.clone();
            scope::spawn(
                |_| S { a: &INNER, _pad: [0; 4] },
                |_| {
                    v.push(1);
                    s.extend_from_slice(&[1, 2, 3]);
                    *Rc::make_mut(&mut rc) = 6;
                },
            );
            assert_eq!(INNER.allocs.load(SeqCst), 0);
        }),
        ("rc_self_weak", || {
            struct N(RefCell<rc::Weak<N>>, #[allow(dead_code)] D);
            let a = Rc::new(N(RefCell::new(rc::Weak::new()), d(1)));
            *a.0.borrow_mut() = Rc::downgrade(&a);
            drop(a);
            assert_eq!((live(), drops()), (0, 1));
        }),
        ("string_index", || {
            let s = LString::from("abc");
            assert_eq!(&s[1..], "bc");
        }),
        ("fence_sends_any_content", || {
            let a = Urc::new(Cell::new(0u64));
            struct Here;
            impl ScopeRecv<'static> for Here {}
            let f = Urc::try_into_fence(Here.recv(a.envelop(&Here))).ok().unwrap().into_inner();
            use attempt::*;
            let passed = Try(f).give(|f| {
                let b = f.into_urc();
                for _ in 0..200_000 {
                    let c: &Cell<u64> = std::hint::black_box(&b);
                    c.set(c.get() + 1);
                }
            }, || for _ in 0..200_000 {
                let c: &Cell<u64> = std::hint::black_box(&a);
                c.set(c.get() + 1);
            });
            assert!(!passed, "Cell is used by two threads at once, {} of 400000 increments remain", a.get());
        }),
        ("boxed_hasher_drops_typed_writes", || {
            use std::hash::{Hash, Hasher};
            #[derive(Default)]
            struct Own(u64);
            impl Hasher for Own {
                fn finish(&self) -> u64 { self.0 }
                fn write(&mut self, b: &[u8]) { b.iter().for_each(|x| self.0 = self.0 * 31 + *x as u64) }
                fn write_u32(&mut self, i: u32) { self.0 = self.0.rotate_left(5) ^ i as u64 }
            }
            let (mut a, mut b) = (Own(7), lokky::boxed::Box::new(Own(7)));
            0x12345678u32.hash(&mut a);
            0x12345678u32.hash(&mut b);
            assert_eq!(a.finish(), b.finish());
        }),
        // Not repaired (known findings).
        ("known_envelop_sends_any_content", || {
            let a = Arc::new(Cell::new(0u64));
            let add = |c: &Cell<u64>| for _ in 0..5_000_000 {
                let c = std::hint::black_box(c);
                c.set(c.get() + 1);
            };
            std::thread::scope(|s| {
                let e = a.envelop(s);
                s.spawn(move || {
                    let b: Arc<Cell<u64>> = s.recv(e);
                    add(&b)
                });
                add(&a);
            });
            assert_eq!(a.get(), 10_000_000);
        }),
    ]
}

mod attempt {
    /// The closure is run in another thread if the value may be moved there.
    pub struct Try<T>(pub T);
    struct Carry<T>(T);
    impl<T: Send> Try<T> {
        pub fn give(self, b: impl FnOnce(T) + Send, a: impl FnOnce()) -> bool {
            let x = Carry(self.0);
            std::thread::scope(|s| {
                s.spawn(move || { let x = x; b(x.0) });
                a();
            });
            true
        }
    }
    #[allow(dead_code)]
    pub trait NoGive<T>: Sized {
        fn give(self, _: impl FnOnce(T) + Send, _: impl FnOnce()) -> bool {
            false
        }
    }
    impl<T> NoGive<T> for Try<T> {}
}

fn main() {
    unsafe { scope::ENV = Some(env) };
    let a = std::env::args().nth(1).unwrap_or("list".into());
    for (n, f) in cases() {
        if a == "list" {
            println!("{n}");
        } else if a == n {
            f();
            return;
        }
    }
    assert_eq!(a, "list", "unknown case");
}
