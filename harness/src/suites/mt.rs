//! `Arc` and `Urc` shared by threads. The monitors are relaxed atomics only, so they add no
//! synchronization to the handles under test.
use crate::arena::Arena;
use crate::env;
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::want;
use lokky::arc::{self, Arc};
use lokky::scope::{Envelop, Envelope, ScopeRecv};
use lokky::urc::{self, Fence, Urc};
use std::cell::UnsafeCell;
use std::sync::atomic::{compiler_fence, AtomicU32, AtomicU64, AtomicUsize, Ordering::{Relaxed, SeqCst}};
use std::sync::Mutex;
use std::thread::Scope;

const IDS: usize = if cfg!(miri) { 512 } else { 4096 };
/// 1 - live, 2 - dropped.
static STATE: [AtomicU32; IDS] = [const { AtomicU32::new(0) }; IDS];
/// Someone owns the value exclusively now.
static EXCL: [AtomicU32; IDS] = [const { AtomicU32::new(0) }; IDS];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
/// Serial numbers of events.
static CLOCK: AtomicU64 = AtomicU64::new(0);

/// Threads of a case at most.
const T: usize = 5;
thread_local!(static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });

pub struct P {
    id: u32,
    x: u64,
    y: u64,
    pad: [u64; 3],
    /// What the threads did with the value. Each thread writes its own one when it observes the
    /// value, and the exclusive owner reads all of them. So anything that the library lets to be
    /// concurrent with exclusive access or with the drop is a data race.
    marks: [UnsafeCell<u64>; T],
}

unsafe impl Sync for P {}

/// What each thread is known to have of each place where a value may be: number of handles and
/// how many times the thread had none of them. It is written by that thread only, after it gets
/// a handle and before it releases one. So who sees the same non-zero word before and after
/// something knows that the thread had a handle all that time.
struct Held([[AtomicU64; T]; IDS]);
const LAST: u64 = 1 << 32;
impl Held {
    const fn new() -> Held {
        Held([const { [const { AtomicU64::new(0) }; T] }; IDS])
    }
    fn reset(&self, b: usize) {
        for x in &self.0[b] {
            x.store(0, Relaxed);
        }
    }
    fn inc(&self, b: u32) {
        let x = &self.0[b as usize][SLOT.get()];
        x.store(x.load(Relaxed) + 1, Relaxed);
    }
    fn dec(&self, b: u32) {
        let x = &self.0[b as usize][SLOT.get()];
        let v = x.load(Relaxed) - 1;
        x.store(if v as u32 == 0 { v + LAST } else { v }, Relaxed);
    }
    /// Sum over the threads.
    fn total(&self, b: u32) -> u64 {
        self.0[b as usize].iter().map(|x| x.load(Relaxed)).sum()
    }
    /// Count an event of this thread.
    fn note(&self, b: u32) {
        compiler_fence(SeqCst);
        let x = &self.0[b as usize][SLOT.get()];
        x.store(x.load(Relaxed) + 1, Relaxed);
        compiler_fence(SeqCst);
    }
    fn others(&self, b: u32) -> [u64; T] {
        let me = SLOT.get();
        std::array::from_fn(|i| if i == me { 0 } else { self.0[b as usize][i].load(Relaxed) })
    }
    /// Whether some other thread had a handle since `before` was taken.
    fn since(&self, b: u32, before: [u64; T]) -> bool {
        let now = self.others(b);
        before.iter().zip(now).any(|(x, y)| *x as u32 > 0 && y as u32 > 0 && x >> 32 == y >> 32)
    }
}
/// Handles of any kind.
static ANY: Held = Held::new();
/// Strong ones.
static STRONG: Held = Held::new();
/// Creations of strong and weak handles that began, and releases that ended. Each thread counts its
/// own ones, so the difference is the upper bound for the counts the library tells.
static MADE_S: Held = Held::new();
static MADE_W: Held = Held::new();
static GONE_S: Held = Held::new();
static GONE_W: Held = Held::new();
static PLACES: AtomicUsize = AtomicUsize::new(0);

/// New place for a value, i.e. what handles and their clones have in common.
fn place() -> u32 {
    let b = PLACES.fetch_add(1, Relaxed);
    if b >= IDS {
        panic!("HARNESS: too many places");
    }
    for h in [&ANY, &STRONG, &MADE_S, &MADE_W, &GONE_S, &GONE_W] {
        h.reset(b);
    }
    // There is a handle to a value in it.
    MADE_S.note(b as u32);
    b as u32
}

/// Exclusive access or ownership is given.
fn judge_exclusive(held: &Held, b: u32, before: [u64; T], what: &str) {
    if held.since(b, before) {
        report(&[tags()[1]], format!("{what} is done while other thread has a handle"));
    }
}

fn tags() -> &'static [&'static str] {
    own_tags()
}

impl P {
    fn make(x: u64) -> P {
        let id = NEXT.fetch_add(1, Relaxed);
        if id >= IDS {
            panic!("HARNESS: too many values");
        }
        STATE[id].store(1, Relaxed);
        EXCL[id].store(0, Relaxed);
        LIVE.fetch_add(1, Relaxed);
        P { id: id as u32, x, y: mix(x), pad: [x; 3], marks: Default::default() }
    }
    /// Observe the value and tell its content.
    fn see(&self) -> u64 {
        unsafe {
            let id = std::ptr::read_volatile(&self.id);
            let x = std::ptr::read_volatile(&self.x);
            let Some(st) = STATE.get(id as usize) else {
                report(tags(), "memory that holds no value is observed".into());
                return 0;
            };
            if st.load(Relaxed) != 1 {
                report(tags(), "dropped value is observed".into());
                return x;
            }
            let p = std::ptr::read_volatile(&self.pad[2]);
            let y = std::ptr::read_volatile(&self.y);
            if y != mix(x) || p != x {
                report(tags(), "value is modified while it is observed".into());
            }
            x
        }
    }
    /// Observe as one of possibly many owners.
    fn see_shared(&self) -> u64 {
        let x = self.see();
        if EXCL.get(self.id as usize).is_some_and(|e| e.load(Relaxed) != 0) {
            report(tags(), "value given out exclusively is observed by another owner".into());
        }
        unsafe {
            let m = self.marks[SLOT.get()].get();
            std::ptr::write_volatile(m, std::ptr::read_volatile(m) + 1);
        }
        x
    }
    /// Everything that the threads did with the value.
    fn history(&self) -> u64 {
        self.marks.iter().fold(0, |s, m| unsafe { s.wrapping_add(std::ptr::read_volatile(m.get())) })
    }
    /// Use exclusive access.
    fn mutate(&mut self, x: u64, rng: &mut Rng) {
        self.see();
        self.history();
        let Some(e) = EXCL.get(self.id as usize) else { return };
        if e.swap(1, Relaxed) != 0 {
            report(tags(), "two owners have exclusive access to the value".into());
        }
        unsafe {
            std::ptr::write_volatile(&mut self.x, x);
            delay(rng);
            std::ptr::write_volatile(&mut self.y, mix(x));
            std::ptr::write_volatile(&mut self.pad, [x; 3]);
        }
        e.store(0, Relaxed);
    }
}

impl core::clone::Clone for P {
    fn clone(&self) -> P {
        P::make(self.see_shared())
    }
}

impl core::ops::Drop for P {
    fn drop(&mut self) {
        match STATE.get(self.id as usize) {
            Some(s) if self.y == mix(self.x) => {
                self.history();
                if s.swap(2, Relaxed) != 1 {
                    report(tags(), "value is dropped twice".into());
                } else {
                    LIVE.fetch_sub(1, Relaxed);
                }
            }
            _ => report(tags(), "memory that holds no value is dropped".into()),
        }
    }
}

fn delay(rng: &mut Rng) {
    if cfg!(miri) {
        if rng.chance(1, 4) {
            std::thread::yield_now();
        }
        return;
    }
    match rng.below(8) {
        0 => std::thread::yield_now(),
        1 | 2 => {
            for _ in 0..rng.below(300) {
                std::hint::spin_loop();
            }
        }
        3 => {
            for _ in 0..rng.below(40) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

/// What the threads need from a family of handles.
trait Mt: 'static {
    /// Counts are of all handles, not of those behind one fence.
    const GLOBAL_COUNTS: bool;
    type H: std::ops::Deref<Target = P>;
    type W;
    /// May be sent to another thread.
    type Mail: Send;
    /// Referred to by all the threads.
    type Shared: Sync;
    fn new(v: P) -> Self::H;
    fn share(h: &Self::H) -> Self::Shared;
    fn from_shared(s: &Self::Shared, how: usize) -> Option<Self::H>;
    fn peek_shared(s: &Self::Shared) -> Option<u64>;
    fn weak_from_shared(s: &Self::Shared) -> Option<Self::W>;
    fn post<'s, 'e>(h: &Self::H, s: &'s Scope<'s, 'e>) -> Self::Mail;
    /// Give the handle away entirely.
    fn post_own(h: Self::H) -> Result<Self::Mail, Self::H>;
    fn recv<'s, 'e>(m: Self::Mail, s: &'s Scope<'s, 'e>) -> Self::H;
    fn dup(h: &Self::H) -> Self::H;
    fn down(h: &Self::H) -> Self::W;
    /// Other way to make weak handles for another thread.
    fn weak_mail(_w: Self::W) -> Option<Self::WMail>;
    type WMail: Send;
    fn weak_recv(w: Self::WMail) -> Self::W;
    fn get_mut(h: &mut Self::H) -> Option<&mut P>;
    fn try_unwrap(h: Self::H) -> Result<P, Self::H>;
    fn make_mut(h: &mut Self::H) -> &mut P;
    fn counts(h: &Self::H) -> (usize, usize);
    fn ptr_eq(a: &Self::H, b: &Self::H) -> bool;
    /// What tells apart the fences of a thread.
    fn fence(h: &Self::H) -> usize;
}

struct ArcM;
impl Mt for ArcM {
    const GLOBAL_COUNTS: bool = true;
    type H = Arc<P>;
    type W = arc::Weak<P>;
    type Mail = Arc<P>;
    type Shared = Arc<P>;
    type WMail = arc::Weak<P>;
    fn new(v: P) -> Arc<P> {
        Arc::new(v)
    }
    fn share(h: &Arc<P>) -> Arc<P> {
        h.clone()
    }
    fn from_shared(s: &Arc<P>, _: usize) -> Option<Arc<P>> {
        Some(s.clone())
    }
    fn peek_shared(s: &Arc<P>) -> Option<u64> {
        Some(s.see_shared())
    }
    fn weak_from_shared(s: &Arc<P>) -> Option<arc::Weak<P>> {
        Some(Arc::downgrade(s))
    }
    fn post<'s, 'e>(h: &Arc<P>, s: &'s Scope<'s, 'e>) -> Arc<P> {
        let e: Envelope<'e, Arc<P>> = h.envelop(s);
        s.recv(e)
    }
    fn post_own(h: Arc<P>) -> Result<Arc<P>, Arc<P>> {
        Ok(h)
    }
    fn recv<'s, 'e>(m: Arc<P>, _: &'s Scope<'s, 'e>) -> Arc<P> {
        m
    }
    fn dup(h: &Arc<P>) -> Arc<P> {
        h.clone()
    }
    fn down(h: &Arc<P>) -> arc::Weak<P> {
        Arc::downgrade(h)
    }
    fn weak_mail(w: arc::Weak<P>) -> Option<arc::Weak<P>> {
        Some(w)
    }
    fn weak_recv(w: arc::Weak<P>) -> arc::Weak<P> {
        w
    }
    fn get_mut(h: &mut Arc<P>) -> Option<&mut P> {
        Arc::get_mut(h)
    }
    fn try_unwrap(h: Arc<P>) -> Result<P, Arc<P>> {
        Arc::try_unwrap(h)
    }
    fn make_mut(h: &mut Arc<P>) -> &mut P {
        Arc::make_mut(h)
    }
    fn counts(h: &Arc<P>) -> (usize, usize) {
        (Arc::strong_count(h), Arc::weak_count(h))
    }
    fn ptr_eq(a: &Arc<P>, b: &Arc<P>) -> bool {
        Arc::ptr_eq(a, b)
    }
    fn fence(_: &Arc<P>) -> usize {
        0
    }
}

struct UrcM;
enum UMail {
    Env(Envelope<'static, Urc<P>>),
    Fence(Fence<P>),
}
impl Mt for UrcM {
    const GLOBAL_COUNTS: bool = false;
    type H = Urc<P>;
    type W = urc::Weak<P>;
    type Mail = UMail;
    type Shared = ();
    type WMail = ();
    fn new(v: P) -> Urc<P> {
        Urc::new(v)
    }
    fn share(_: &Urc<P>) {}
    fn from_shared(_: &(), _: usize) -> Option<Urc<P>> {
        None
    }
    fn peek_shared(_: &()) -> Option<u64> {
        None
    }
    fn weak_from_shared(_: &()) -> Option<urc::Weak<P>> {
        None
    }
    fn post<'s, 'e>(h: &Urc<P>, s: &'s Scope<'s, 'e>) -> UMail {
        let e: Envelope<'e, Urc<P>> = h.envelop(s);
        // The mailbox does not outlive the allocators.
        UMail::Env(unsafe { std::mem::transmute::<Envelope<'e, Urc<P>>, Envelope<'static, Urc<P>>>(e) })
    }
    fn post_own(h: Urc<P>) -> Result<UMail, Urc<P>> {
        Urc::try_into_fence(h).map(|f| UMail::Fence(f.into_inner()))
    }
    fn recv<'s, 'e>(m: UMail, s: &'s Scope<'s, 'e>) -> Urc<P> {
        match m {
            UMail::Env(e) => s.recv(e),
            UMail::Fence(f) => f.into_urc(),
        }
    }
    fn dup(h: &Urc<P>) -> Urc<P> {
        h.clone()
    }
    fn down(h: &Urc<P>) -> urc::Weak<P> {
        Urc::downgrade(h)
    }
    fn weak_mail(_: urc::Weak<P>) -> Option<()> {
        None
    }
    fn weak_recv(_: ()) -> urc::Weak<P> {
        unreachable!()
    }
    fn get_mut(h: &mut Urc<P>) -> Option<&mut P> {
        Urc::get_mut(h)
    }
    fn try_unwrap(h: Urc<P>) -> Result<P, Urc<P>> {
        Urc::try_unwrap(h)
    }
    fn make_mut(h: &mut Urc<P>) -> &mut P {
        Urc::make_mut(h)
    }
    fn counts(h: &Urc<P>) -> (usize, usize) {
        (Urc::fence_strong_count(h), Urc::fence_weak_count(h))
    }
    fn ptr_eq(a: &Urc<P>, b: &Urc<P>) -> bool {
        Urc::ptr_eq(a, b)
    }
    fn fence(h: &Urc<P>) -> usize {
        Urc::fence_of(h) as *const Fence<P> as usize
    }
}

/// Kinds of operations with weights which depend on the theme of the case.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    See,
    Clone,
    Drop,
    Down,
    DropWeak,
    GetMut,
    Unwrap,
    MakeMut,
    Counts,
    Post,
    PostOwn,
    Recv,
    Shared,
    SharedWeak,
    New,
    PostWeak,
    /// Strong handle is replaced by a weak one, so the thread always has some.
    Flip,
    /// Weak handle is replaced by a strong one (or another weak one, from a strong one).
    Flop,
    /// Exclusive access is requested many times in a row.
    Hammer,
    UnwrapHammer,
    /// Counts are asked many times in a row.
    Tell,
}
use Op::*;

/// Operations of the main thread and of the others.
fn theme(rng: &mut Rng) -> (&'static [Op], &'static [Op], u64) {
    let themes: &[(&[Op], &[Op])] = &[
        // Everything.
        (&[See, Clone, Drop, Down, DropWeak, GetMut, Unwrap, MakeMut, Counts, Post, PostOwn, Recv, Shared, SharedWeak, New, PostWeak], &[]),
        // Races for the last handle.
        (&[See, Drop, Drop, Drop, See, Clone], &[]),
        // Strong and weak ones are released together.
        (&[Drop, DropWeak, DropWeak, Down, Drop], &[]),
        // Exclusive access against release.
        (&[GetMut, GetMut, Drop, See, Down, DropWeak, GetMut], &[]),
        (&[Unwrap, Drop, See, DropWeak, Down], &[]),
        (&[MakeMut, MakeMut, Drop, See, Clone, Down, DropWeak], &[]),
        (&[GetMut, Down, DropWeak, Shared, SharedWeak, Drop, DropWeak], &[]),
        // Handles travel.
        (&[Post, PostOwn, Recv, Recv, Drop, See, Clone, GetMut, Unwrap], &[]),
        (&[Post, Recv, MakeMut, Drop, Unwrap, DropWeak, Down], &[]),
        (&[Counts, Clone, Drop, Down, DropWeak, Shared, SharedWeak, GetMut], &[]),
        // One asks for the exclusive access, others always have something.
        (&[Hammer], &[Flip, Flip, See]),
        (&[Hammer, UnwrapHammer], &[Flip, Flop, Clone, Drop, See]),
        (&[UnwrapHammer, Drop], &[See, Flop, Drop, Clone]),
        (&[MakeMut, See], &[Flip, Flop, MakeMut, DropWeak]),
        (&[Hammer, Flip, Flop], &[]),
        (&[Hammer, GetMut], &[Tell]),
    ];
    let i = rng.below(themes.len());
    let (a, b) = themes[i];
    (a, if b.is_empty() { a } else { b }, i as u64)
}

/// Strong handle and the place it refers to.
struct S<M: Mt>(u32, M::H);
/// Weak one, with the fence it is behind.
struct W<M: Mt>(u32, M::W, usize);

impl<M: Mt> S<M> {
    fn got(b: u32, h: M::H) -> S<M> {
        ANY.inc(b);
        STRONG.inc(b);
        S(b, h)
    }
    fn release(self) {
        let b = self.0;
        drop(self.part());
        GONE_S.note(b);
    }
    /// The handle is going to be released.
    fn part(self) -> M::H {
        STRONG.dec(self.0);
        ANY.dec(self.0);
        self.1
    }
}

impl<M: Mt> W<M> {
    fn got(b: u32, w: M::W, f: usize) -> W<M> {
        ANY.inc(b);
        W(b, w, f)
    }
    fn release(self) {
        let b = self.0;
        drop(self.part());
        GONE_W.note(b);
    }
    fn of(h: &S<M>) -> W<M> {
        MADE_W.note(h.0);
        W::got(h.0, M::down(&h.1), M::fence(&h.1))
    }
    fn part(self) -> M::W {
        ANY.dec(self.0);
        self.1
    }
}

type Post<T> = Mutex<Vec<(u32, T)>>;

struct Local<'m, M: Mt> {
    strong: Vec<S<M>>,
    weak: Vec<W<M>>,
    held: Vec<P>,
    mail: &'m Post<M::Mail>,
    wmail: &'m Post<M::WMail>,
    log: Vec<(u64, u8)>,
    serial: u64,
    steps: u64,
}

fn tick(l: &mut Vec<(u64, u8)>, op: Op) {
    l.push((CLOCK.fetch_add(1, Relaxed), op as u8));
}

impl<'m, M: Mt> Local<'m, M> {
    fn new(mail: &'m Post<M::Mail>, wmail: &'m Post<M::WMail>, serial: u64) -> Self {
        Local { strong: vec![], weak: vec![], held: vec![], mail, wmail, log: vec![], serial, steps: 0 }
    }

    fn run<'s, 'e>(&mut self, ops: &[Op], n: usize, rng: &mut Rng, s: &'s Scope<'s, 'e>, shared: Option<&(u32, M::Shared)>) {
        for _ in 0..n {
            if tainted() {
                return;
            }
            let op = *rng.pick(ops);
            if self.op(op, rng, s, shared) {
                tick(&mut self.log, op);
                self.steps += 1;
            }
            delay(rng);
        }
    }

    fn unwrapped(&mut self, b: u32, before: [u64; T], mut v: P, rng: &mut Rng) {
        judge_exclusive(&STRONG, b, before, "try_unwrap");
        self.serial += 1;
        v.mutate(self.serial, rng);
        EXCL[v.id as usize].store(1, Relaxed);
        self.held.push(v);
    }

    fn get_mut(&mut self, i: usize, rng: &mut Rng) -> bool {
        self.serial += 1;
        let x = self.serial;
        let b = self.strong[i].0;
        let before = ANY.others(b);
        let Some(v) = M::get_mut(&mut self.strong[i].1) else { return false };
        judge_exclusive(&ANY, b, before, "get_mut");
        v.mutate(x, rng);
        // Other handles of this thread refer to other values then.
        if self.strong.iter().enumerate().any(|(j, h)| j != i && h.0 == b) || self.weak.iter().any(|w| w.0 == b) {
            report(tags(), "get_mut gives access to the value that has other handles".into());
        }
        true
    }

    fn op<'s, 'e>(&mut self, op: Op, rng: &mut Rng, s: &'s Scope<'s, 'e>, shared: Option<&(u32, M::Shared)>) -> bool {
        let n = self.strong.len();
        let i = rng.below(n);
        let full = n + self.held.len() >= 4;
        match op {
            See => {
                if let Some(v) = self.held.last() {
                    if rng.chance(1, 3) {
                        v.see();
                    }
                }
                if n == 0 {
                    return false;
                }
                self.strong[i].1.see_shared();
            }
            Clone if n > 0 && !full => {
                MADE_S.note(self.strong[i].0);
                let h = M::dup(&self.strong[i].1);
                want!(["ANY"], M::ptr_eq(&h, &self.strong[i].1), "clone refers to other value");
                self.strong.push(S::got(self.strong[i].0, h));
            }
            Drop if n > 0 => {
                let h = self.strong.swap_remove(i);
                if rng.chance(1, 2) {
                    h.1.see_shared();
                }
                h.release();
            }
            Down if n > 0 && self.weak.len() < 3 => {
                self.weak.push(W::of(&self.strong[i]))
            }
            DropWeak if !self.weak.is_empty() => self.weak.pop().unwrap().release(),
            Flip if n > 0 && self.weak.len() < 6 => {
                let h = self.strong.swap_remove(i);
                let spins = if rng.chance(1, 2) { rng.below(30) } else { 0 };
                let w = W::of(&h);
                for _ in 0..spins {
                    std::hint::spin_loop();
                }
                h.release();
                self.weak.push(w);
            }
            Flop if n > 0 && !self.weak.is_empty() => {
                let b = self.strong[i].0;
                let j = self.weak.iter().position(|w| w.0 == b).unwrap_or(0);
                let w = self.weak.swap_remove(j);
                MADE_S.note(b);
                let h = S::<M>::got(b, M::dup(&self.strong[i].1));
                w.release();
                if full {
                    h.release();
                } else {
                    self.strong.push(h);
                }
            }
            GetMut if n > 0 => {
                self.get_mut(i, rng);
            }
            Hammer if n > 0 => {
                for _ in 0..rng.range(1, if cfg!(miri) { 5 } else { 60 }) {
                    if self.get_mut(i, rng) || tainted() {
                        break;
                    }
                }
            }
            Unwrap | UnwrapHammer if n > 0 => {
                let times = if op == Unwrap { 1 } else { rng.range(1, if cfg!(miri) { 5 } else { 60 }) };
                let S(b, mut h) = self.strong.swap_remove(i);
                STRONG.dec(b);
                ANY.dec(b);
                let before = STRONG.others(b);
                for _ in 0..times {
                    match M::try_unwrap(h) {
                        Ok(v) => {
                            GONE_S.note(b);
                            self.unwrapped(b, before, v, rng);
                            return true;
                        }
                        Err(x) => h = x,
                    }
                }
                h.see_shared();
                self.strong.push(S::got(b, h));
            }
            MakeMut if n > 0 => {
                let S(b, mut h) = self.strong.swap_remove(i);
                let old = h.see_shared();
                let at: *const P = &*h;
                self.serial += 1;
                let x = self.serial;
                // The old place may be released.
                STRONG.dec(b);
                ANY.dec(b);
                let before = STRONG.others(b);
                let v = M::make_mut(&mut h);
                let same = std::ptr::eq(at, v);
                if same {
                    judge_exclusive(&STRONG, b, before, "make_mut in place");
                }
                if v.see() != old {
                    report(tags(), "make_mut gives access to other content".into());
                }
                v.mutate(x, rng);
                if same && (self.strong.iter().any(|h| h.0 == b) || self.weak.iter().any(|w| w.0 == b)) {
                    report(tags(), "make_mut gives access to the value that has other handles".into());
                }
                if !same {
                    GONE_S.note(b);
                }
                self.strong.push(S::got(if same { b } else { place() }, h));
            }
            Tell if n > 0 => {
                for _ in 0..rng.range(1, if cfg!(miri) { 5 } else { 60 }) {
                    self.op(Counts, rng, s, shared);
                }
            }
            Counts if n > 0 => {
                let b = self.strong[i].0;
                let gone = (GONE_S.total(b), GONE_W.total(b));
                compiler_fence(SeqCst);
                let (st, wk) = M::counts(&self.strong[i].1);
                compiler_fence(SeqCst);
                let (mine, weaks) = self.tally(i);
                // Relaxed loads may be of old values in the model of Miri.
                let most = (MADE_S.total(b) - gone.0, MADE_W.total(b) - gone.1);
                if !cfg!(miri) && M::GLOBAL_COUNTS && (st as u64 > most.0 || wk as u64 > most.1) {
                    report(&[tags()[0]], format!("{st} strong and {wk} weak handles are counted, at most {} and {} were there", most.0, most.1));
                }
                if st < mine || wk < weaks || st > 64 || wk > 64 || !M::GLOBAL_COUNTS && (st, wk) != (mine, weaks) {
                    report(&[tags()[0]], format!("{st} strong and {wk} weak handles are counted, this thread has {mine} and {weaks}"));
                }
            }
            Post if n > 0 => {
                MADE_S.note(self.strong[i].0);
                let m = M::post(&self.strong[i].1, s);
                self.mail.lock().unwrap().push((self.strong[i].0, m));
            }
            PostOwn if n > 0 => {
                let h = self.strong.swap_remove(i);
                let b = h.0;
                match M::post_own(h.part()) {
                    Ok(m) => self.mail.lock().unwrap().push((b, m)),
                    Err(h) => {
                        h.see_shared();
                        self.strong.push(S::got(b, h))
                    }
                }
            }
            Recv if !full => {
                let m = self.mail.lock().unwrap().pop();
                match m {
                    Some((b, m)) => {
                        let h: S<M> = S::got(b, M::recv(m, s));
                        h.1.see_shared();
                        self.strong.push(h);
                    }
                    None => {
                        let w = self.wmail.lock().unwrap().pop();
                        let Some((b, w)) = w else { return false };
                        self.weak.push(W::got(b, M::weak_recv(w), 0));
                    }
                }
            }
            PostWeak if !self.weak.is_empty() => {
                let w = self.weak.pop().unwrap();
                let b = w.0;
                match M::weak_mail(w.part()) {
                    Some(w) => self.wmail.lock().unwrap().push((b, w)),
                    None => return false,
                }
            }
            Shared if !full => {
                let Some((b, sh)) = shared else { return false };
                MADE_S.note(*b);
                match M::from_shared(sh, i) {
                    Some(h) => {
                        h.see_shared();
                        self.strong.push(S::got(*b, h));
                    }
                    None => return false,
                }
            }
            SharedWeak if self.weak.len() < 3 => {
                let Some((b, sh)) = shared else { return false };
                M::peek_shared(sh);
                MADE_W.note(*b);
                match M::weak_from_shared(sh) {
                    Some(w) => self.weak.push(W::got(*b, w, 0)),
                    None => return false,
                }
            }
            New if !full => {
                let v = match self.held.pop() {
                    Some(v) => {
                        EXCL[v.id as usize].store(0, Relaxed);
                        v
                    }
                    None => {
                        self.serial += 1;
                        P::make(self.serial)
                    }
                };
                self.strong.push(S::got(place(), M::new(v)));
            }
            _ => return false,
        }
        true
    }

    /// All that is left is released.
    fn end(&mut self, rng: &mut Rng) {
        if tainted() {
            std::mem::forget(std::mem::take(&mut self.strong));
            std::mem::forget(std::mem::take(&mut self.weak));
            return;
        }
        while !self.strong.is_empty() || !self.weak.is_empty() {
            if !self.strong.is_empty() && (self.weak.is_empty() || rng.chance(1, 2)) {
                let h = self.strong.pop().unwrap();
                h.1.see_shared();
                tick(&mut self.log, Drop);
                h.release();
            } else {
                tick(&mut self.log, DropWeak);
                self.weak.pop().unwrap().release();
            }
        }
        for v in self.held.drain(..) {
            v.see();
        }
    }

    /// Numbers of handles of this thread that are counted together with the given one.
    fn tally(&self, i: usize) -> (usize, usize) {
        let b = self.strong[i].0;
        let f = M::fence(&self.strong[i].1);
        (
            self.strong.iter().filter(|h| h.0 == b && M::fence(&h.1) == f).count(),
            self.weak.iter().filter(|h| h.0 == b && h.2 == f).count(),
        )
    }

    /// Numbers of handles of this thread which refer to the places.
    fn holdings(&self) -> Vec<(u32, usize, usize)> {
        self.strong.iter().map(|h| (h.0, 1, 0)).chain(self.weak.iter().map(|w| (w.0, 0, 1))).collect()
    }

    /// No thread changes anything: the state is exact. The rest is what the others have.
    fn judge_still(&mut self, rest: &[(u32, usize, usize)]) -> u64 {
        for i in 0..self.strong.len() {
            let b = self.strong[i].0;
            let all = |v: &[(u32, usize, usize)]| {
                v.iter().filter(|x| x.0 == b).fold((0, 0), |s, x| (s.0 + x.1, s.1 + x.2))
            };
            let mine = all(&self.holdings());
            let their = all(rest);
            let (st, wk) = (mine.0 + their.0, mine.1 + their.1);
            let expected = if M::GLOBAL_COUNTS { (st, wk) } else { self.tally(i) };
            let (s, w) = M::counts(&self.strong[i].1);
            self.strong[i].1.see_shared();
            if (s, w) != expected {
                report(&[tags()[0]], format!("{s} strong and {w} weak handles are counted when {} and {} exist", expected.0, expected.1));
            }
            let sole = st == 1 && wk == 0;
            let given = M::get_mut(&mut self.strong[i].1).map(|v| v.history()).is_some();
            if given != sole {
                report(&[tags()[1]], format!("get_mut gives {given} for a handle when {st} strong and {wk} weak ones exist and no one races"));
            }
        }
        self.strong.len() as u64
    }
}

/// Result of a thread.
fn joined<R>(r: std::thread::Result<R>) -> Option<R> {
    match r {
        Ok(x) => Some(x),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if m.contains("HARNESS") {
                panic!("{m}");
            }
            report(&["ANY"], format!("unexpected panic in a thread: {m}"));
            None
        }
    }
}

fn start_case() {
    NEXT.store(0, Relaxed);
    PLACES.store(0, Relaxed);
    LIVE.store(0, Relaxed);
    CLOCK.store(0, Relaxed);
}

fn case<M: Mt>(cx: &mut Ctx) {
    start_case();
    let (main_ops, ops, th) = theme(&mut cx.rng);
    let threads = if cfg!(miri) { cx.rng.range(1, 2) } else { cx.rng.range(1, T - 1) };
    let per = if cfg!(miri) { cx.rng.range(2, 8) } else { cx.rng.range(3, 24) };
    let mail: Post<M::Mail> = Mutex::new(vec![]);
    let wmail: Post<M::WMail> = Mutex::new(vec![]);
    let b0 = place();
    let first = S::<M>::got(b0, M::new(P::make(7)));
    let keep_shared = cx.rng.chance(1, 3) && main_ops == ops;
    MADE_S.note(b0);
    let shared = if keep_shared { Some((b0, M::share(&first.1))) } else { None };
    let start = AtomicUsize::new(0);
    let mut logs: Vec<(u64, u8, u8)> = Vec::new();
    let arenas = cx.arenas.clone();
    let main_keeps = main_ops != ops || cx.rng.chance(2, 3);
    let mut steps = 0;
    std::thread::scope(|s| {
        let mut seeds = Vec::new();
        for t in 0..threads {
            let k = cx.rng.range(1, 2);
            (0..k).for_each(|_| MADE_S.note(b0));
            let ms: Vec<M::Mail> = (0..k).map(|_| M::post(&first.1, s)).collect();
            MADE_W.note(b0);
            let ws: Vec<M::WMail> =
                (0..cx.rng.below(2)).filter_map(|_| M::weak_mail(M::down(&first.1))).collect();
            seeds.push((t, ms, ws, cx.rng.next()));
        }
        let mut hs = Vec::new();
        for (t, ms, ws, seed) in seeds {
            let (mail, wmail, start, shared) = (&mail, &wmail, &start, shared.as_ref());
            let arena: &'static Arena = arenas[1 + t];
            hs.push(s.spawn(move || {
                SLOT.set(t + 1);
                env::set_base(arena);
                env::reset_env();
                let mut rng = Rng::new(seed);
                let mut l = Local::<M>::new(mail, wmail, (t as u64 + 1) << 32);
                l.strong.extend(ms.into_iter().map(|m| S::got(b0, M::recv(m, s))));
                l.weak.extend(ws.into_iter().map(|w| W::got(b0, M::weak_recv(w), 0)));
                wait(start, threads + 1);
                l.run(ops, per, &mut rng, s, shared);
                l.end(&mut rng);
                (l.log, l.steps)
            }));
        }
        let mut l = Local::<M>::new(&mail, &wmail, 1 << 48);
        let mut rng = Rng::new(cx.rng.next());
        if main_keeps {
            l.strong.push(first);
            if rng.chance(1, 3) {
                l.weak.push(W::of(&l.strong[0]));
            }
            wait(&start, threads + 1);
            l.run(main_ops, per, &mut rng, s, shared.as_ref());
        } else {
            if rng.chance(1, 3) {
                l.weak.push(W::of(&first));
            }
            first.release();
            wait(&start, threads + 1);
        }
        let stay = rng.chance(1, 2);
        if !stay {
            l.end(&mut rng);
        }
        for (t, h) in hs.into_iter().enumerate() {
            let Some((log, n)) = joined(h.join()) else { continue };
            logs.extend(log.iter().map(|x| (x.0, t as u8 + 1, x.1)));
            steps += n;
        }
        // Undelivered ones are released by this thread.
        for (_, m) in mail.lock().unwrap().drain(..) {
            if cx.rng.chance(1, 2) {
                drop(M::recv(m, s));
            } else {
                drop(m);
            }
        }
        wmail.lock().unwrap().clear();
        if stay {
            if !tainted() {
                let extra: Vec<_> = shared.iter().filter(|_| M::GLOBAL_COUNTS).map(|x| (x.0, 1, 0)).collect();
                let n = l.judge_still(&extra);
                cx.count("handles_judged_at_rest", n);
            }
            l.end(&mut rng);
        }
        logs.extend(l.log.iter().map(|x| (x.0, 0, x.1)));
        steps += l.steps;
    });
    drop(shared);
    finish(cx, th, threads, logs, steps);
}

fn finish(cx: &mut Ctx, th: u64, threads: usize, mut logs: Vec<(u64, u8, u8)>, steps: u64) {
    logs.sort();
    cx.sig(th << 8 | threads as u64);
    for (_, t, o) in &logs {
        cx.sig((*t as u64) << 8 | *o as u64);
    }
    cx.step(th, threads as u64);
    for _ in 0..steps {
        cx.step(0, 0);
    }
    let mut switches = 0;
    for w in logs.windows(2) {
        switches += (w[0].1 != w[1].1) as u64;
    }
    cx.count("thread_switches_between_operations", switches);
    cx.count("operations_in_threads", logs.len() as u64);
    if tainted() {
        return;
    }
    let live = LIVE.load(Relaxed);
    if live != 0 {
        report(tags(), format!("{live} values remain after all handles are gone"));
    }
    for (i, a) in cx.arenas.iter().enumerate() {
        let n = a.live_blocks();
        if n != 0 {
            report(&["C06", tags()[0]],
                format!("{n} blocks remain in allocator {i} after all handles are gone (sizes {:?})", a.leaks()));
        }
    }
}

/// All threads come to the same point.
struct Barrier {
    n: usize,
    count: AtomicUsize,
    /// Some thread does not come.
    dead: AtomicUsize,
    phase: AtomicUsize,
}
impl Barrier {
    fn new(n: usize) -> Barrier {
        Barrier { n, count: AtomicUsize::new(0), dead: AtomicUsize::new(0), phase: AtomicUsize::new(0) }
    }
    fn pass(&self) {
        let p = self.phase.load(SeqCst);
        if self.count.fetch_add(1, SeqCst) + 1 == self.n {
            self.count.store(0, SeqCst);
            self.phase.store(p + 1, SeqCst);
            return;
        }
        let mut spins = 0;
        while self.phase.load(SeqCst) == p && self.dead.load(SeqCst) == 0 {
            spins += 1;
            if cfg!(miri) || spins > 300 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

/// What a thread of a duel is given, and then what it has.
struct Seat<M: Mt> {
    mail: Vec<M::Mail>,
    wmail: Vec<M::WMail>,
    has: Vec<(u32, usize, usize)>,
}

struct Duel<M: Mt> {
    seats: Vec<Mutex<Seat<M>>>,
    bar: Barrier,
}

impl<M: Mt> Duel<M> {
    /// One round of any thread after it has its handles. Tells how many of them were judged.
    fn round<'s, 'e>(&self, me: usize, l: &mut Local<M>, rng: &mut Rng, ops: &[Op], n: usize, s: &'s Scope<'s, 'e>) -> u64 {
        self.bar.pass();
        for _ in 0..rng.below(3) * rng.below(if cfg!(miri) { 4 } else { 40 }) {
            std::hint::spin_loop();
        }
        for _ in 0..n {
            let op = *rng.pick(ops);
            if l.op(op, rng, s, None) {
                tick(&mut l.log, op);
                l.steps += 1;
            }
        }
        self.bar.pass();
        // Undelivered ones.
        if me == 0 {
            while let Some((b, m)) = { let m = l.mail.lock().unwrap().pop(); m } {
                l.strong.push(S::got(b, M::recv(m, s)));
            }
        }
        self.seats[me].lock().unwrap().has = l.holdings();
        self.bar.pass();
        let mut rest = vec![];
        for (i, x) in self.seats.iter().enumerate() {
            if i != me {
                rest.extend_from_slice(&x.lock().unwrap().has);
            }
        }
        let j = if tainted() { 0 } else { l.judge_still(&rest) };
        self.bar.pass();
        l.end(rng);
        self.bar.pass();
        j
    }
}

/// Lets the others out if the thread panics.
struct Alarm<'a>(&'a Barrier);
impl core::ops::Drop for Alarm<'_> {
    fn drop(&mut self) {
        if std::thread::panicking() {
            self.0.dead.store(1, SeqCst);
        }
    }
}

/// Rounds of few operations at once on a new value, with the exact state judged after each.
fn duel<M: Mt>(cx: &mut Ctx) {
    start_case();
    let lists: &[&[Op]] = &[
        &[Drop],
        &[Drop, DropWeak],
        &[Down, DropWeak, Drop],
        &[Flip],
        &[Flip, Flop, DropWeak],
        &[Hammer],
        &[GetMut, Hammer, Drop],
        &[UnwrapHammer],
        &[Unwrap, DropWeak],
        &[MakeMut],
        &[MakeMut, DropWeak, Drop],
        &[Clone, Drop, Counts],
        &[Tell],
        &[Tell, Flip, DropWeak],
        &[PostOwn, Recv],
        &[See, Clone, Drop, Down, DropWeak, GetMut, Unwrap, MakeMut, Counts, Flip, Flop],
    ];
    let threads = if cfg!(miri) { 1 + cx.rng.chance(1, 4) as usize } else { cx.rng.range(1, 2) };
    let rounds = if cfg!(miri) { 10 } else { 60 };
    let fixed = cx.rng.chance(1, 2);
    let choice: Vec<usize> = (0..=threads).map(|_| cx.rng.below(lists.len())).collect();
    let seats: Vec<Mutex<Seat<M>>> =
        (0..=threads).map(|_| Mutex::new(Seat { mail: vec![], wmail: vec![], has: vec![] })).collect();
    let mail: Post<M::Mail> = Mutex::new(vec![]);
    let wmail: Post<M::WMail> = Mutex::new(vec![]);
    let bar = Barrier::new(threads + 1);
    let arenas = cx.arenas.clone();
    let seeds: Vec<u64> = (0..=threads).map(|_| cx.rng.next()).collect();
    let stop = AtomicUsize::new(0);
    let mut logs: Vec<(u64, u8, u8)> = Vec::new();
    let (mut steps, mut judged) = (0, 0);
    let mut sig = choice.iter().fold(0, |s, c| s * 32 + *c as u64);
    sig = sig << 1 | fixed as u64;

    let d = Duel { seats, bar };
    std::thread::scope(|s| {
        let mut hs = vec![];
        for t in 1..=threads {
            let (d, mail, wmail, stop) = (&d, &mail, &wmail, &stop);
            let (arena, seed, ops): (&'static Arena, u64, &[Op]) = (arenas[t], seeds[t], lists[choice[t]]);
            hs.push(s.spawn(move || {
                let _alarm = Alarm(&d.bar);
                SLOT.set(t);
                env::set_base(arena);
                env::reset_env();
                let mut rng = Rng::new(seed);
                let mut l = Local::<M>::new(mail, wmail, (t as u64) << 32);
                let mut judged = 0;
                loop {
                    d.bar.pass();
                    if stop.load(SeqCst) + d.bar.dead.load(SeqCst) != 0 {
                        break;
                    }
                    let b = (PLACES.load(Relaxed) - 1) as u32;
                    let mut seat = d.seats[t].lock().unwrap();
                    l.strong.extend(seat.mail.drain(..).map(|m| S::got(b, M::recv(m, s))));
                    l.weak.extend(seat.wmail.drain(..).map(|w| W::got(b, M::weak_recv(w), 0)));
                    drop(seat);
                    let ops = if fixed { ops } else { *rng.pick(lists) };
                    let n = rng.range(1, 4);
                    judged += d.round(t, &mut l, &mut rng, ops, n, s);
                }
                (l.log, l.steps, judged)
            }));
        }
        let _alarm = Alarm(&d.bar);
        let mut rng = Rng::new(seeds[0]);
        let mut l = Local::<M>::new(&mail, &wmail, 1 << 48);
        for r in 0..rounds {
            // Values of the previous rounds are gone.
            NEXT.store(0, Relaxed);
            PLACES.store(0, Relaxed);
            let b = place();
            let h = S::<M>::got(b, M::new(P::make(r)));
            for (t, seat) in d.seats.iter().enumerate() {
                if t > 0 {
                    let mut seat = seat.lock().unwrap();
                    let k = rng.range(1, 2);
                    (0..k).for_each(|_| MADE_S.note(b));
                    seat.mail.extend((0..k).map(|_| M::post(&h.1, s)));
                    MADE_W.note(b);
                    seat.wmail.extend((0..rng.below(2)).filter_map(|_| M::weak_mail(M::down(&h.1))));
                }
            }
            if rng.chance(1, 3) {
                l.weak.push(W::of(&h));
            }
            if rng.chance(5, 6) {
                l.strong.push(h);
            } else {
                h.release();
            }
            d.bar.pass();
            let ops = if fixed { lists[choice[0]] } else { *rng.pick(lists) };
            let n = rng.range(1, 4);
            judged += d.round(0, &mut l, &mut rng, ops, n, s);
            if tainted() {
                break;
            }
            let live = LIVE.load(Relaxed);
            if live != 0 {
                report(&[tags()[0], "C04"], format!("{live} values remain after all handles are gone"));
            }
            for (i, a) in arenas.iter().enumerate() {
                let n = a.live_blocks();
                if n != 0 {
                    report(&["C06", tags()[0]],
                        format!("{n} blocks remain in allocator {i} after all handles are gone (sizes {:?})", a.leaks()));
                }
            }
        }
        stop.store(1, SeqCst);
        d.bar.pass();
        for (t, h) in hs.into_iter().enumerate() {
            let Some((log, n, j)) = joined(h.join()) else { continue };
            logs.extend(log.iter().map(|x| (x.0, t as u8 + 1, x.1)));
            steps += n;
            judged += j;
        }
        logs.extend(l.log.iter().map(|x| (x.0, 0, x.1)));
        steps += l.steps;
    });
    cx.count("handles_judged_at_rest", judged);
    cx.count("rounds_of_duels", rounds);
    cx.sig(sig);
    finish(cx, 100, threads, logs, steps);
}

fn wait(start: &AtomicUsize, n: usize) {
    start.fetch_add(1, Relaxed);
    let mut spins = 0;
    while start.load(Relaxed) < n {
        spins += 1;
        if cfg!(miri) || spins > 500 {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
}

fn run<M: Mt>(cx: &mut Ctx) {
    SLOT.set(0);
    if cx.rng.chance(1, 2) {
        duel::<M>(cx)
    } else {
        case::<M>(cx)
    }
}

pub fn arc(cx: &mut Ctx) {
    set_own_tags(&["C15", "C16", "C19"]);
    run::<ArcM>(cx)
}

pub fn urc(cx: &mut Ctx) {
    set_own_tags(&["C17", "C18", "C19"]);
    run::<UrcM>(cx)
}
