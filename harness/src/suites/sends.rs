//! What safe code can pass to another thread. A program is made of an attempt to move a value to
//! another thread, or to lend it there; it is executed if and only if the compiler takes the value
//! as `Send` or `Sync`. Contents watch which threads use them, and counts of handles are compared
//! after the threads clone them at once.
use crate::arena::Arena;
use crate::env;
use crate::run::*;
use crate::note;
use lokky::arc::Arc;
use lokky::boxed::Box as LBox;
use lokky::rc::{self, Rc};
use lokky::scope::{AllocSelector, Envelop, ScopeRecv};
use lokky::small_vec::SmallVec;
use lokky::urc::{Fence, Urc};
use lokky::vec::Vec as LVec;
use lokky::ScopePtr;
use std::cell::{Cell, UnsafeCell};
use std::hint::black_box;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::*};
use std::sync::{Mutex, MutexGuard};

const TAGS: &[&str] = &["C24", "C19"];
const IDS: usize = 256;
/// Who made the value.
static HOME: [AtomicU32; IDS] = [const { AtomicU32::new(0) }; IDS];
/// Threads which use the value now.
static INSIDE: [AtomicU32; IDS] = [const { AtomicU32::new(0) }; IDS];
static NEXT: AtomicUsize = AtomicUsize::new(0);
/// Both threads have access to the value in this program.
static SHARED: AtomicBool = AtomicBool::new(false);
static MET: AtomicBool = AtomicBool::new(false);
/// The cell of the value is really written.
static REAL: AtomicBool = AtomicBool::new(true);
static UP: AtomicU32 = AtomicU32::new(0);
/// Uses of values by the other thread.
static USES: AtomicUsize = AtomicUsize::new(0);
/// Key of the known finding that this program is about, and what was observed.
static KEY: Mutex<(&str, Option<String>)> = Mutex::new(("", None));

thread_local!(static ME: Cell<u32> = const { Cell::new(0) });

fn bad(msg: String) {
    let mut k = KEY.lock().unwrap();
    if k.0.is_empty() {
        drop(k);
        report(TAGS, msg);
    } else {
        k.1.get_or_insert(msg);
    }
}

/// What threads may do with a value.
pub trait Kind: 'static {
    type Mark: 'static;
    const NAME: &'static str;
    /// Only its own thread may use it by reference.
    const LOCAL: bool;
    /// One thread at once may use it by reference.
    const ALONE: bool;
    /// Only its own thread may own it.
    const OWN: bool;
}
macro_rules! kinds {
    ($($k:ident $m:ty, $l:expr, $a:expr, $o:expr;)*) => {$(
        pub struct $k;
        impl Kind for $k {
            type Mark = $m;
            const NAME: &'static str = stringify!($k);
            const LOCAL: bool = $l;
            const ALONE: bool = $a;
            const OWN: bool = $o;
        }
    )*};
}
kinds! {
    Free (), false, false, false;
    // Send, not Sync.
    Solo Cell<u8>, false, true, false;
    // Sync, not Send.
    Shy MutexGuard<'static, ()>, false, false, true;
    Home *const u8, true, true, true;
}

struct Raw(UnsafeCell<u64>);
unsafe impl Sync for Raw {}

pub struct Thing<K: Kind> {
    id: usize,
    raw: Raw,
    _k: PhantomData<K::Mark>,
}

impl<K: Kind> Thing<K> {
    fn new() -> Self {
        let id = NEXT.fetch_add(1, SeqCst);
        if id >= IDS {
            panic!("HARNESS: too many values");
        }
        HOME[id].store(ME.get(), SeqCst);
        INSIDE[id].store(0, SeqCst);
        Thing { id, raw: Raw(UnsafeCell::new(0)), _k: PhantomData }
    }
    fn home(&self) -> bool {
        HOME[self.id].load(SeqCst) == ME.get()
    }
    /// Use it by shared reference.
    fn see(&self) {
        if ME.get() != 0 {
            USES.fetch_add(1, SeqCst);
        }
        if K::LOCAL && !self.home() {
            bad(format!("a value of the kind {} is used in another thread", K::NAME));
        }
        if K::ALONE {
            let bit = 1 << ME.get();
            let was = INSIDE[self.id].fetch_or(bit, SeqCst);
            if was & !bit != 0 {
                MET.store(true, SeqCst);
                bad(format!("two threads use a value of the kind {} at once", K::NAME));
            }
            if REAL.load(Relaxed) {
                unsafe { *self.raw.0.get() += 1 };
            }
            // Let the other thread come.
            if SHARED.load(SeqCst) {
                for _ in 0..if cfg!(miri) { 30 } else { 2000 } {
                    if MET.load(SeqCst) {
                        break;
                    }
                    std::thread::yield_now();
                }
            }
            INSIDE[self.id].fetch_and(!bit, SeqCst);
        }
    }
    /// Use it as the owner.
    fn touch(&mut self) {
        self.owned();
    }
    /// This thread has what may make it the owner, e.g. a clone of the handle.
    fn owned(&self) {
        if ME.get() != 0 {
            USES.fetch_add(1, SeqCst);
        }
        if K::OWN && !self.home() {
            bad(format!("a value of the kind {} is owned by another thread", K::NAME));
        }
    }
}

impl<K: Kind> Drop for Thing<K> {
    fn drop(&mut self) {
        self.touch();
    }
}

/// The value is made into a program of threads if its type allows it.
struct Try<T>(T);

fn threads<'a>(arena: &'static Arena, b: impl FnOnce() + Send + 'a, a: impl FnOnce() + 'a) {
    UP.store(0, SeqCst);
    std::thread::scope(|s| {
        let h = s.spawn(move || {
            ME.set(1);
            env::set_base(arena);
            b();
        });
        a();
        if h.join().is_err() {
            bad("panic in the thread".into());
        }
    });
}

struct Carry<T>(T);

impl<T: Send> Try<T> {
    /// `b` gets the value in another thread, `a` is run meanwhile.
    fn give(self, arena: &'static Arena, b: impl FnOnce(T) + Send, a: impl FnOnce()) -> bool {
        let x = Carry(self.0);
        threads(
            arena,
            move || {
                let x = x;
                b(x.0)
            },
            a,
        );
        true
    }
}
trait CannotGive<T>: Sized {
    fn give(self, _: &'static Arena, _: impl FnOnce(T) + Send, _: impl FnOnce()) -> bool {
        false
    }
}
impl<T> CannotGive<T> for Try<T> {}

impl<T: Sync> Try<T> {
    /// `b` gets the reference in another thread, `a` is run meanwhile.
    fn lend(self, arena: &'static Arena, b: impl FnOnce(&T) + Send, a: impl FnOnce(&T)) -> bool {
        let x = &self.0;
        // Only what is shared is lent, and it is `Sync`.
        threads(arena, move || b(x), || a(&self.0));
        true
    }
}
trait CannotLend<T>: Sized {
    fn lend(self, _: &'static Arena, _: impl FnOnce(&T) + Send, _: impl FnOnce(&T)) -> bool {
        false
    }
}
impl<T> CannotLend<T> for Try<T> {}

/// Receiver of envelopes that stays in the thread.
struct Here;
impl<'a> ScopeRecv<'a> for Here {}

impl<'e, T: Envelop<'e, Send = T> + 'e> Try<&T> {
    /// `b` gets what comes in the envelope.
    fn post(self, arena: &'static Arena, b: impl FnOnce(T) + Send, a: impl FnOnce()) -> bool {
        let e = self.0.envelop(&Here);
        threads(
            arena,
            move || {
                let e = e;
                b(Here.recv(e))
            },
            a,
        );
        true
    }
}
trait CannotPost<T>: Sized {
    fn post(self, _: &'static Arena, _: impl FnOnce(T) + Send, _: impl FnOnce()) -> bool {
        false
    }
}
impl<T> CannotPost<T> for Try<&T> {}

const STORM: usize = if cfg!(miri) { 20 } else { 100_000 };
/// Both threads begin at once.
fn rendezvous() {
    UP.fetch_add(1, SeqCst);
    for _ in 0..if cfg!(miri) { 50 } else { 1_000_000 } {
        if UP.load(SeqCst) >= 2 {
            break;
        }
        std::hint::spin_loop();
        if cfg!(miri) {
            std::thread::yield_now();
        }
    }
}
/// Make a lot of things which are never released.
fn storm<T, R>(x: &T, f: impl Fn(&T) -> R) {
    rendezvous();
    for _ in 0..STORM {
        std::mem::forget(black_box(f(black_box(x))));
    }
}

fn other_fence<K: Kind>(u: &Urc<Thing<K>>) -> Fence<Thing<K>> {
    let o = Here.recv(u.envelop(&Here));
    match Urc::try_into_fence(o) {
        Ok(f) => f.into_inner(),
        Err(_) => panic!("HARNESS: no fence"),
    }
}

fn filled<K: Kind>(n: usize) -> LVec<Thing<K>> {
    let mut v = LVec::new();
    for _ in 0..n {
        v.push(Thing::new());
    }
    v
}
fn small<K: Kind>(n: usize) -> SmallVec<Thing<K>, 2> {
    let mut v = SmallVec::new();
    for _ in 0..n {
        v.push(Thing::new());
    }
    v
}

const CARRIERS: &[&str] = &[
    "value", "std Box", "Box", "ScopePtr", "Vec", "SmallVec", "vec::IntoIter", "small_vec::IntoIter", "vec::Drain",
    "small_vec::Drain", "Rc", "rc::Weak", "Arc", "Urc", "urc::Weak", "Fence", "ScopePtr<Fence>", "Vec<Arc>",
    "Arc<Box>", "Vec<Rc>", "Box<Urc>",
];

/// The program with content of the kind: (whether it is of the executed ones, known finding).
macro_rules! programs {
    ($name:ident, $k:ty) => {
        fn $name(cx: &mut Ctx, carrier: &str, way: usize, n: usize, op: usize) -> bool {
            type C = Thing<$k>;
            let a0 = cx.a0;
            let keep = cx.rng.chance(1, 2);
            let sel = AllocSelector::new::<C>();
            macro_rules! shared { () => { SHARED.store(true, SeqCst) }; }
            // Single owner: it may be given away or lent.
            macro_rules! own {
                ($x:expr, $b:expr, $see:expr) => {
                    match way {
                        0 => Try($x).give(a0, $b, || ()),
                        1 => {
                            shared!();
                            Try($x).lend(a0, $see, $see)
                        }
                        _ => {
                            let x = $x;
                            Try(&x).post(a0, $b, || ())
                        }
                    }
                };
            }
            // Handle: this thread may keep a clone.
            macro_rules! handle {
                ($x:expr, $b:expr, $see:expr) => {{
                    let x = $x;
                    match way {
                        0 if keep => {
                            shared!();
                            let y = x.clone();
                            Try(x).give(a0, $b, move || $see(&y))
                        }
                        0 => Try(x).give(a0, $b, || ()),
                        1 => {
                            shared!();
                            Try(x).lend(a0, $see, $see)
                        }
                        _ if keep => {
                            shared!();
                            Try(&x).post(a0, $b, || $see(&x))
                        }
                        _ => Try(&x).post(a0, $b, || ()),
                    }
                }};
            }
            match carrier {
                "value" => own!(C::new(), |mut x: C| { x.see(); x.touch() }, |x: &C| x.see()),
                "std Box" => own!(Box::new(C::new()), |x: Box<C>| x.see(), |x: &Box<C>| x.see()),
                "Box" => own!(
                    LBox::new(C::new()),
                    |mut x: LBox<C>| match op {
                        0 => x.see(),
                        1 => x.touch(),
                        _ => x.into_inner().see(),
                    },
                    |x: &LBox<C>| x.see()
                ),
                "ScopePtr" => own!(
                    ScopePtr::alloc(C::new(), sel).unwrap(),
                    |mut x: ScopePtr<C>| match op {
                        0 => x.see(),
                        1 => x.touch(),
                        _ => x.into_inner().see(),
                    },
                    |x: &ScopePtr<C>| x.see()
                ),
                "Vec" => own!(
                    filled::<$k>(n),
                    |mut x: LVec<C>| match op {
                        0 => x.iter().for_each(|v| v.see()),
                        1 => while let Some(v) = x.pop() { v.see() },
                        2 => x.drain(..).for_each(|v| v.see()),
                        _ => x.into_iter().for_each(|v| v.see()),
                    },
                    |x: &LVec<C>| x.iter().for_each(|v| v.see())
                ),
                "SmallVec" => own!(
                    small::<$k>(n),
                    |mut x: SmallVec<C, 2>| match op {
                        0 => x.iter().for_each(|v| v.see()),
                        1 => while let Some(v) = x.pop() { v.see() },
                        _ => x.drain(..).for_each(|v| v.see()),
                    },
                    |x: &SmallVec<C, 2>| x.iter().for_each(|v| v.see())
                ),
                "vec::IntoIter" => {
                    let mut it = filled::<$k>(n).into_iter();
                    if keep { it.next(); }
                    Try(it).give(a0, |it| it.for_each(|v: C| v.see()), || ())
                }
                "small_vec::IntoIter" => {
                    let v = LVec::from_iter(small::<$k>(n).drain(..));
                    Try(v.into_iter()).give(a0, |it| it.for_each(|v: C| v.see()), || ())
                }
                "vec::Drain" => {
                    let mut v = filled::<$k>(n);
                    let d = v.drain(..);
                    Try(d).give(a0, |d| d.take(1 + op).for_each(|v: C| v.see()), || ())
                }
                "small_vec::Drain" => {
                    let mut v = small::<$k>(n);
                    let d = v.drain(..);
                    Try(d).give(a0, |d| d.take(1 + op).for_each(|v: C| v.see()), || ())
                }
                "Rc" if op == 0 => {
                    let x = Rc::new(C::new());
                    let y = x.clone();
                    let ran = match way {
                        0 => {
                            let z = x.clone();
                            Try(x).give(
                                a0,
                                |x: Rc<C>| { storm(&x, |x| x.clone()); std::mem::forget(x) },
                                || { storm(&z, |x| x.clone()); std::mem::forget(z) },
                            )
                        }
                        1 => {
                            std::mem::forget(x.clone());
                            Try(x).lend(a0, |x| storm(x, |x| x.clone()), |x| storm(x, |x| x.clone()))
                        }
                        _ => Try(&x).post(
                            a0,
                            |x: Rc<C>| { storm(&x, |x| x.clone()); std::mem::forget(x) },
                            || storm(&x, |x| x.clone()),
                        ),
                    };
                    if ran {
                        let c = Rc::strong_count(&y);
                        // Other handles may be counted or not.
                        let ok = c >= STORM * 2 && c <= STORM * 2 + 4;
                        if !ok { bad(format!("handles to Rc are cloned {} times by two threads, {c} are counted", STORM * 2)); }
                    }
                    std::mem::forget(y);
                    ran
                }
                "Rc" => handle!(
                    Rc::new(C::new()),
                    |x: Rc<C>| match op {
                        1 => x.see(),
                        _ => { if let Ok(v) = Rc::try_unwrap(x) { v.see() } }
                    },
                    |x: &Rc<C>| x.see()
                ),
                "rc::Weak" => {
                    let x = Rc::new(C::new());
                    let w = Rc::downgrade(&x);
                    shared!();
                    let ran = if op == 0 {
                        let v = Rc::downgrade(&x);
                        let ran = Try(w).give(
                            a0,
                            |x: rc::Weak<C>| { storm(&x, |x| x.clone()); std::mem::forget(x) },
                            || storm(&v, |x| x.clone()),
                        );
                        std::mem::forget(v);
                        let c = Rc::weak_count(&x);
                        if ran && !(c >= STORM * 2 && c <= STORM * 2 + 4) {
                            bad(format!("weak handles to Rc are cloned {} times by two threads, {c} are counted", STORM * 2));
                        }
                        ran
                    } else if way == 1 {
                        Try(w).lend(a0, |w| if let Some(x) = w.upgrade() { x.see() }, |_| x.see())
                    } else {
                        Try(w).give(a0, |w| if let Some(x) = w.upgrade() { x.see() }, || x.see())
                    };
                    std::mem::forget(x);
                    ran
                }
                "Arc" => handle!(
                    Arc::new(C::new()),
                    |mut x: Arc<C>| match op {
                        0 => x.see(),
                        1 => { if let Some(v) = Arc::get_mut(&mut x) { v.touch() } x.see() }
                        _ => match Arc::try_unwrap(x) { Ok(v) => v.see(), Err(x) => x.see() },
                    },
                    |x: &Arc<C>| {
                        x.see();
                        // The last handle may be dropped here.
                        x.clone().owned()
                    }
                ),
                "Urc" if op == 0 && way != 2 => {
                    let x = Urc::new(C::new());
                    let y = x.clone();
                    let ran = if way == 0 {
                        Try(x).give(
                            a0,
                            |x: Urc<C>| { storm(&x, |x| x.clone()); std::mem::forget(x) },
                            || storm(&y, |x| x.clone()),
                        )
                    } else {
                        std::mem::forget(x.clone());
                        Try(x).lend(a0, |x| storm(x, |x| x.clone()), |x| storm(x, |x| x.clone()))
                    };
                    if ran {
                        let c = Urc::fence_strong_count(&y);
                        let ok = c >= STORM * 2 && c <= STORM * 2 + 4;
                        if !ok { bad(format!("handles to Urc are cloned {} times by two threads, {c} are counted", STORM * 2)); }
                    }
                    std::mem::forget(y);
                    ran
                }
                "Urc" if op == 0 => {
                    // Each thread has a fence of its own.
                    let x = Urc::new(C::new());
                    let there = AtomicUsize::new(0);
                    let ran = Try(&x).post(
                        a0,
                        |y: Urc<C>| {
                            storm(&y, |x| x.clone());
                            there.store(Urc::fence_strong_count(&y), SeqCst);
                            std::mem::forget(y)
                        },
                        || storm(&x, |x| x.clone()),
                    );
                    let c = (Urc::fence_strong_count(&x), there.load(SeqCst));
                    if ran && c != (STORM + 1, STORM + 1) {
                        report(TAGS, format!("handles to Urc are cloned {STORM} times by each of two threads, fences count {c:?}"));
                    }
                    std::mem::forget(x);
                    ran
                }
                "Urc" => handle!(
                    Urc::new(C::new()),
                    |mut x: Urc<C>| match op {
                        0 => x.see(),
                        1 => { if let Some(v) = Urc::get_mut(&mut x) { v.touch() } x.see() }
                        _ => match Urc::try_unwrap(x) { Ok(v) => v.see(), Err(x) => x.see() },
                    },
                    |x: &Urc<C>| {
                        x.see();
                        x.clone().owned()
                    }
                ),
                "urc::Weak" => {
                    let x = Urc::new(C::new());
                    let some: Vec<_> = (0..STORM).map(|_| Urc::downgrade(&x)).collect();
                    let ran = Try(some).give(
                        a0,
                        |mut some| { rendezvous(); while let Some(w) = some.pop() { std::mem::forget(black_box(w)) } },
                        || (),
                    );
                    // Weak handles of one fence are the same as those of Rc.
                    let ran2 = ran && {
                        let some: Vec<_> = (0..STORM).map(|_| Urc::downgrade(&x)).collect();
                        Try(some).give(a0, |some| { rendezvous(); drop(black_box(some)) }, || storm(&x, |x| Urc::downgrade(x)))
                    };
                    let c = Urc::fence_weak_count(&x);
                    if ran2 && c != STORM * 2 {
                        bad(format!("{} weak handles to Urc remain, {c} are counted", STORM * 2));
                    }
                    std::mem::forget(x);
                    ran
                }
                "Fence" => {
                    let u = Urc::new(C::new());
                    let f = other_fence(&u);
                    let b = |f: Fence<C>| {
                        let x = f.into_urc();
                        match op {
                            0 => x.see(),
                            _ => match Urc::try_unwrap(x) { Ok(v) => v.see(), Err(x) => x.see() },
                        }
                    };
                    if keep {
                        shared!();
                        Try(f).give(a0, b, || u.see())
                    } else {
                        drop(u);
                        Try(f).give(a0, b, || ())
                    }
                }
                "ScopePtr<Fence>" => {
                    let u = Urc::new(C::new());
                    let f = ScopePtr::alloc(other_fence(&u), sel).unwrap();
                    shared!();
                    Try(f).give(a0, |f: ScopePtr<Fence<C>>| f.into_inner().into_urc().see(), || u.see())
                }
                "Vec<Arc>" => {
                    let a = Arc::new(C::new());
                    let mut v = LVec::new();
                    v.push(a.clone());
                    shared!();
                    own!(v, |v: LVec<Arc<C>>| v[0].see(), |v: &LVec<Arc<C>>| v[0].clone().owned())
                }
                "Arc<Box>" => handle!(Arc::new(LBox::new(C::new())), |x: Arc<LBox<C>>| x.see(), |x: &Arc<LBox<C>>| x.see()),
                "Vec<Rc>" => {
                    let a = Rc::new(C::new());
                    let mut v = LVec::new();
                    v.push(a.clone());
                    let r = own!(
                        v,
                        |v: LVec<Rc<C>>| { storm(&v[0], |x| x.clone()); std::mem::forget(v) },
                        |v: &LVec<Rc<C>>| { storm(&v[0], |x| x.clone()) }
                    );
                    std::mem::forget(a);
                    r
                }
                "Box<Urc>" => own!(
                    LBox::new(Urc::new(C::new())),
                    |x: LBox<Urc<C>>| x.see(),
                    |x: &LBox<Urc<C>>| { x.see(); storm(&**x, |x| x.clone()) }
                ),
                _ => unreachable!(),
            }
        }
    };
}
programs!(free, Free);
programs!(solo, Solo);
programs!(shy, Shy);
programs!(home, Home);

pub fn sends(cx: &mut Ctx) {
    ME.set(0);
    for _ in 0..cx.rng.range(1, 6) {
        NEXT.store(0, SeqCst);
        MET.store(false, SeqCst);
        SHARED.store(false, SeqCst);
        let c = cx.rng.below(CARRIERS.len());
        let carrier = CARRIERS[c];
        let k = cx.rng.below(4);
        let way = cx.rng.below(3);
        let n = cx.rng.range(1, 6);
        let op = cx.rng.below(4);
        let kind = ["Free", "Solo", "Shy", "Home"][k];
        // The type of envelopes allows them for any content.
        let key = match carrier {
            "Arc" | "Arc<Box>" if way == 2 && (k > 0 || c > 12) => "envelop-arc",
            "Urc" if way == 2 && k > 0 => "envelop-urc",
            _ => "",
        };
        *KEY.lock().unwrap() = (key, None);
        REAL.store(key.is_empty(), SeqCst);
        USES.store(0, SeqCst);
        note!("{} {carrier} of {kind}, {n} values, operation {op}", ["give", "lend", "post"][way]);
        let ran = [free, solo, shy, home][k](cx, carrier, way, n, op);
        note!("   {}", if ran { "done" } else { "rejected by the type" });
        let uses = USES.load(SeqCst);
        cx.step((c * 4 + k) as u64, (way as u64) << 32 | (op as u64) << 16 | (ran as u64) << 8 | uses.min(9) as u64);
        cx.count(if ran { "passed" } else { "rejected" }, 1);
        cx.count("uses_in_other_thread", uses as u64);
        let found = KEY.lock().unwrap().1.take();
        if let Some(m) = found {
            known(key, TAGS, format!("{m} ({carrier} of {kind} in the envelope)"));
        }
    }
}
