//! Nesting of scopes and routing of allocations.
use crate::arena::Arena;
use crate::env;
use crate::rng::mix;
use crate::run::*;
use crate::{catch, note};
use lokky::scope::{self, AllocMarker, AllocSelector, Env, Scope};
use std::alloc::GlobalAlloc;
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
    static ST: RefCell<St> = RefCell::new(St::default());
}

#[derive(Default)]
struct St {
    /// Requests: scope serial number, its address.
    asked: Vec<(u32, usize)>,
    dropped: Vec<u32>,
    /// Who answers while the scope is destroyed.
    at_drop: Vec<(u32, Option<u32>)>,
}

fn st<R>(f: impl FnOnce(&mut St) -> R) -> R {
    ST.with(|s| f(&mut s.borrow_mut()))
}

const T: &[&str] = &["C10"];

trait Kind: Scope + Sized + 'static {
    fn make(id: u32, arena: &'static Arena) -> Self;
    fn swap(&mut self, arena: &'static Arena);
    fn id(&self) -> u32;
}

macro_rules! kind {
    ($n:ident, $pad:expr) => {
        struct $n {
            arena: &'static Arena,
            id: u32,
            pad: [u8; $pad],
        }
        impl Kind for $n {
            fn make(id: u32, arena: &'static Arena) -> Self {
                $n { arena, id, pad: [id as u8; $pad] }
            }
            fn swap(&mut self, arena: &'static Arena) {
                self.arena = arena;
            }
            fn id(&self) -> u32 {
                self.id
            }
        }
        impl Scope for $n {
            fn alloc_for(&self, _: AllocSelector) -> &dyn GlobalAlloc {
                let me = self as *const _ as usize;
                st(|s| s.asked.push((self.id, me)));
                if self.pad.iter().any(|&p| p != self.id as u8) {
                    report(&["C10"], "memory that holds no scope is asked for an allocator".into());
                }
                if st(|s| s.dropped.contains(&self.id)) {
                    report(&["C10"], format!("ended scope {} is asked for an allocator", self.id));
                }
                self.arena
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                if st(|s| s.dropped.contains(&self.id)) {
                    report(&["C10"], format!("scope {} is dropped twice", self.id));
                }
                st(|s| s.dropped.push(self.id));
                let w = if LOCAL.with(|l| l.get()) { None } else { Some(who()) };
                st(|s| s.at_drop.push((self.id, w.flatten())));
                self.pad = [0xEE; $pad];
            }
        }
    };
}
kind!(SmallScope, 1);
kind!(BigScope, 3000);

thread_local! {
    /// The case uses an environment of its own, not the one of the thread.
    static LOCAL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Serial number of the scope which answers as the current one; None - the base one.
fn who() -> Option<u32> {
    let n = st(|s| s.asked.len());
    let x = 0u8;
    scope::current(&x).alloc_for(AllocSelector::new::<u8>());
    st(|s| s.asked.get(n).map(|a| a.0))
}

struct Level {
    /// None - the base scope.
    id: Option<u32>,
    arena: &'static Arena,
    addr: usize,
}

struct Sc<'a> {
    cx: &'a mut Ctx,
    stack: Vec<Level>,
    next: u32,
    env: Option<*mut Env>,
    /// Allocations that outlive the inner scopes: (box, level).
    kept: Vec<(lokky::boxed::Box<u64>, u64, usize)>,
    ended: Vec<u32>,
    depth_max: usize,
}

impl Sc<'_> {
    fn ask(&self, sel: AllocSelector) -> *const u8 {
        match self.env {
            None => env::current_alloc(sel),
            Some(e) => {
                let x = ();
                unsafe { (*e).current(&x).alloc_for(sel) as *const dyn GlobalAlloc as *const u8 }
            }
        }
    }

    /// The current scope is the one on the top of the model stack.
    fn check(&mut self, when: &str) {
        if tainted() {
            return;
        }
        let n = st(|s| s.asked.len());
        let a = self.ask(AllocSelector::new::<u64>());
        let got = st(|s| s.asked.get(n).copied());
        let top = self.stack.last().unwrap();
        let exp = top.id;
        if got.map(|g| g.0) != exp {
            report(T, format!("{when}: current scope is {:?}, expected {exp:?}", got.map(|g| g.0)));
        } else if a != top.arena as *const Arena as *const u8 {
            report(T, format!("{when}: current scope {exp:?} gives other allocator than it has"));
        } else if top.addr != 0 && got.map(|g| g.1) != Some(top.addr) {
            report(T, format!("{when}: current scope is a copy of the scope given to the function"));
        }
    }

    fn allocate(&mut self) {
        if self.env.is_some() {
            return;
        }
        let top = self.stack.last().unwrap().arena;
        let n = top.allocs();
        let v = self.cx.rng.next();
        let b = lokky::boxed::Box::new(v);
        if top.allocs() != n + 1 || !top.owns(&*b as *const u64 as *const u8, 8) {
            report(T, "allocation is not served by the current scope".into());
        }
        if self.cx.rng.chance(1, 2) && self.kept.len() < 6 {
            let l = self.stack.len();
            self.kept.push((b, v, l));
        }
    }

    fn body(&mut self, budget: &mut usize) {
        let n = self.cx.rng.range(1, 5);
        for _ in 0..n {
            if tainted() || *budget == 0 {
                return;
            }
            *budget -= 1;
            let k = self.cx.rng.below(8);
            let d = self.stack.len();
            self.cx.step(k as u64, d as u64);
            match k {
                0 | 1 => self.allocate(),
                2..=5 if self.stack.len() < 12 => {
                    let big = self.cx.rng.chance(1, 5);
                    if big {
                        self.enter::<BigScope>(budget)
                    } else {
                        self.enter::<SmallScope>(budget)
                    }
                }
                6 if self.stack.len() > 1 => {
                    // Leaves scopes up to the one that catches.
                    note!("panic at depth {d}");
                    self.cx.count("unwound", 1);
                    panic!("{}", crate::elem::BOMB);
                }
                _ => {
                    self.check("between operations");
                }
            }
        }
    }

    fn enter<S: Kind>(&mut self, budget: &mut usize) {
        let id = self.next;
        self.next += 1;
        let arena = self.cx.arenas[1 + self.cx.rng.below(self.cx.arenas.len() - 1)];
        let depth = self.stack.len();
        let catches = self.cx.rng.chance(1, 2) || depth == 1;
        let bomb_init = self.cx.rng.chance(1, 12);
        let ret = self.cx.rng.next();
        let (mut inits, mut runs) = (0, 0);
        note!("{}enter {id} (catches {catches})", " ".repeat(depth));
        self.cx.count("scopes", 1);
        self.depth_max = self.depth_max.max(depth);
        let kept0 = self.kept.len();
        let this = std::cell::RefCell::new(&mut *self);
        let budget = std::cell::RefCell::new(&mut *budget);
        let made = std::cell::Cell::new(false);
        let mut init = |prev: &dyn Scope| -> S {
            inits += 1;
            let mut t = this.borrow_mut();
            // The previous scope is the one given and is still current.
            let n = st(|s| s.asked.len());
            prev.alloc_for(AllocSelector::new::<u64>());
            let got = st(|s| s.asked.get(n).copied());
            let top = t.stack.last().unwrap();
            if got.map(|g| g.0) != top.id || (top.addr != 0 && got.map(|g| g.1) != Some(top.addr)) {
                report(T, format!("constructor of scope gets {:?} as the previous scope, expected {:?}",
                    got.map(|g| g.0), top.id));
            }
            t.check("in the constructor of scope");
            if t.cx.rng.chance(1, 3) {
                t.allocate();
            }
            if t.cx.rng.chance(1, 10) && t.stack.len() < 12 && t.env.is_none() {
                let mut b = budget.borrow_mut();
                let mut two = (**b).min(2);
                let r = catch(|| t.enter::<SmallScope>(&mut two));
                t.settle(depth);
                if let Err(m) = r {
                    if m != crate::elem::BOMB {
                        panic!("{m}");
                    }
                }
                **b = b.saturating_sub(2);
                t.check("in the constructor of scope after other scope");
            }
            if bomb_init {
                t.cx.count("unwound", 1);
                panic!("{}", crate::elem::BOMB);
            }
            made.set(true);
            S::make(id, arena)
        };
        let mut f = |s: &mut S| -> u64 {
            runs += 1;
            let mut t = this.borrow_mut();
            if s.id() != id {
                report(T, "function gets other scope".into());
            }
            t.stack.push(Level { id: Some(id), arena, addr: s as *mut S as usize });
            t.check("in the scope");
            if st(|x| x.dropped.contains(&id)) {
                report(T, "scope is dropped before the function ends".into());
            }
            let mut b = budget.borrow_mut();
            t.body(&mut b);
            if t.cx.rng.chance(1, 3) && !tainted() {
                let n = t.cx.arenas.len() - 1;
                let k = 1 + t.cx.rng.below(n);
                let a = t.cx.arenas[k];
                s.swap(a);
                t.stack.last_mut().unwrap().arena = a;
                t.check("after the change of the scope");
                t.body(&mut b);
            }
            t.check("at the end of the scope");
            // What was made here must go before the scope ends.
            let l = t.stack.len();
            t.release(l);
            t.stack.pop();
            ret
        };
        let env = this.borrow().env;
        let r = catch(|| match env {
            None => scope::spawn(&mut init, &mut f),
            Some(e) => unsafe { (*e).spawn(&mut init, &mut f) },
        });
        let _ = kept0;
        match r {
            Ok(v) => {
                if v != ret {
                    report(T, "result of the function is changed".into());
                }
                if (inits, runs) != (1, 1) {
                    report(T, format!("constructor called {inits} times, function {runs} times"));
                }
                self.settle(depth);
                self.after(id, true);
                self.check("after the scope");
            }
            Err(m) => {
                if m != crate::elem::BOMB {
                    report(&["ANY"], format!("unexpected panic: {m}"));
                    return;
                }
                self.settle(depth);
                if inits != 1 || runs > 1 || (bomb_init && runs != 0) {
                    report(T, format!("constructor called {inits} times, function {runs} times before panic"));
                }
                let m = made.get();
                self.after(id, m);
                self.check("after the panic in the scope");
                if !catches && depth > 1 && !tainted() {
                    self.cx.count("panics_through_several_scopes", 1);
                    panic!("{}", crate::elem::BOMB);
                }
            }
        }
    }

    /// Forget levels that were unwound together with what was made there.
    fn settle(&mut self, depth: usize) {
        while self.stack.len() > depth {
            let l = self.stack.len();
            self.release(l);
            self.stack.pop();
        }
        self.release(depth + 1);
    }

    fn release(&mut self, level: usize) {
        while let Some((b, v, l)) = self.kept.pop() {
            if l < level {
                self.kept.push((b, v, l));
                break;
            }
            if *b != v {
                report(T, "value made in the scope is corrupted".into());
            }
            drop(b);
        }
    }

    fn after(&mut self, id: u32, made: bool) {
        if tainted() {
            return;
        }
        let n = st(|s| s.dropped.iter().filter(|&&d| d == id).count());
        if n != made as usize {
            report(T, format!("scope {id} is dropped {n} times, expected {}", made as usize));
        }
        if made && self.env.is_none() {
            let at = st(|s| s.at_drop.iter().find(|d| d.0 == id).copied());
            let exp = self.stack.last().unwrap().id;
            if at != Some((id, exp)) {
                report(T, format!("while scope {id} is destroyed the current one is {:?}, expected {exp:?}",
                    at.and_then(|a| a.1)));
            }
        }
        self.ended.push(id);
    }
}

pub fn nesting(cx: &mut Ctx) {
    set_own_tags(T);
    st(|s| *s = St::default());
    let local = cx.rng.chance(1, 4);
    LOCAL.with(|l| l.set(local));
    let base_arena = cx.a0;
    let mut base_scope = SmallScope::make(0, base_arena);
    let mut own = local.then(|| {
        let s: &mut (dyn Scope + 'static) = &mut base_scope;
        // The environment is not used after the scope.
        Env::new(unsafe { std::mem::transmute::<&mut (dyn Scope + 'static), &'static mut (dyn Scope + 'static)>(s) })
    });
    let env = own.as_mut().map(|e| e as *mut Env);
    let base_id = if local { Some(0) } else { None };
    let mut budget = if cfg!(miri) { 12 } else { 60 };
    let mut s = Sc {
        cx,
        stack: vec![Level { id: base_id, arena: base_arena, addr: 0 }],
        next: 1,
        env,
        kept: vec![],
        ended: vec![],
        depth_max: 0,
    };
    for _ in 0..3 {
        if tainted() {
            break;
        }
        s.check("at the base");
        // Levels above the base may unwind.
        if let Err(m) = catch(|| s.body(&mut budget)) {
            if m != crate::elem::BOMB {
                report(&["ANY"], format!("unexpected panic: {m}"));
            }
            s.settle(1);
        }
    }
    s.check("at the end");
    s.settle(0);
    let d = s.depth_max as u64;
    s.cx.count("deepest_nesting_sum", d);
    std::mem::forget(s);
    if tainted() {
        std::mem::forget(base_scope);
        return;
    }
    for a in &cx.arenas {
        if a.live_blocks() != 0 {
            report(&["C06"], "blocks remain after all the scopes".into());
        }
    }
    drop(own);
    LOCAL.with(|l| l.set(true));
    drop(base_scope);
    LOCAL.with(|l| l.set(false));
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Alpha(u64);
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Beta(u32, u8);
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Gamma<X>(X);
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Unit;
/// The same name in another module.
pub mod other {
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct Alpha(pub [u8; 3]);
}

pub struct M1;
pub struct M2;
pub struct M3<X>(X);

type Table = HashMap<AllocMarker, usize>;

thread_local! {
    static LOG: RefCell<Vec<AllocSelector>> = const { RefCell::new(Vec::new()) };
}

/// Routes by markers first, then by types, and records the requests.
struct Router {
    by_marker: Table,
    by_selector: HashMap<AllocSelector, usize>,
    rest: usize,
    arenas: Vec<&'static Arena>,
}

impl Router {
    fn route(&self, s: &AllocSelector) -> usize {
        if let Some(i) = self.by_selector.get(s) {
            return *i;
        }
        *self.by_marker.get(&s.marker()).unwrap_or(&self.rest)
    }
}

impl Scope for Router {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        LOG.with(|l| l.borrow_mut().push(s));
        self.arenas[self.route(&s)]
    }
}

const RT: &[&str] = &["C11"];

/// Expected identity of a selector, computed without lokky.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Key {
    ty: usize,
    mk: usize,
}

struct Rt<'a> {
    cx: &'a mut Ctx,
    r: Option<*const Router>,
}

/// One made object: releases and checks itself when called.
type Obj = Box<dyn FnOnce() -> bool>;

impl Rt<'_> {
    fn marker(i: usize) -> AllocMarker {
        match i {
            0 => AllocMarker::None,
            1 => AllocMarker::new::<M1>(),
            2 => AllocMarker::new::<M2>(),
            3 => markers_a::marker::<M1>(),
            4 => markers_b::marker::<M2>(),
            5 => AllocMarker::new::<M3<u8>>(),
            6 => markers_a::marker::<M3<u16>>(),
            _ => AllocMarker::new::<M3<u16>>(),
        }
    }

    /// Make something with the constructor, check what the scope was asked for and where the
    /// block is. `sel` None - the marker and type are private.
    fn make<O: 'static>(
        &mut self,
        what: &str,
        sel: AllocSelector,
        mk: impl FnOnce() -> O,
        addr: impl Fn(&O) -> Option<(*const u8, usize)>,
        more: bool,
    ) -> Obj {
        let r = unsafe { &*self.r.unwrap() };
        LOG.with(|l| l.borrow_mut().clear());
        let before: Vec<usize> = r.arenas.iter().map(|a| a.allocs()).collect();
        let live0: Vec<isize> = r.arenas.iter().map(|a| a.live_blocks()).collect();
        note!("make {what} {sel:?}");
        let o = mk();
        let log = LOG.with(|l| l.borrow().clone());
        if !log.contains(&sel) {
            report(RT, format!("{what}: scope is asked for {log:?}, expected {sel:?}"));
        }
        if !more && log.iter().any(|s| *s != sel) {
            report(RT, format!("{what}: scope is asked also for {log:?}, expected only {sel:?}"));
        }
        if let Some(s) = log.iter().find(|s| **s == sel) {
            if s.ty() != sel.ty() || s.marker() != sel.marker() {
                report(RT, format!("{what}: equal selectors {s:?} and {sel:?} have different parts"));
            }
        }
        let exp = r.route(&sel);
        if let Some((p, n)) = addr(&o) {
            if n > 0 && !r.arenas[exp].owns(p, n) {
                report(RT, format!("{what}: block is not in the allocator selected by scope"));
            }
        }
        if !more {
            for (i, a) in r.arenas.iter().enumerate() {
                let d = a.allocs() - before[i];
                if i != exp && d != 0 {
                    report(RT, format!("{what}: {d} blocks are taken from other allocator"));
                }
            }
        }
        let arenas = r.arenas.clone();
        let live1: Vec<isize> = arenas.iter().map(|a| a.live_blocks()).collect();
        let _ = live0;
        let what = what.to_string();
        Box::new(move || {
            let now: Vec<isize> = arenas.iter().map(|a| a.live_blocks()).collect();
            drop(o);
            let _ = (&live1, &what);
            arenas.iter().zip(&now).any(|(a, n)| a.live_blocks() < *n)
        })
    }

    fn typed<V: Clone + Default + PartialEq + std::fmt::Debug + 'static>(&mut self) -> Obj {
        use lokky::{arc::Arc, boxed::Box as LBox, rc::Rc, small_vec::SmallVec, urc::Urc, vec::Vec as LVec};
        let sz = std::mem::size_of::<V>();
        let m = Self::marker(self.cx.rng.below(8));
        let plain = AllocSelector::new::<V>();
        let marked = AllocSelector::with_marker::<V>(m);
        let k = self.cx.rng.below(18);
        self.cx.step(k as u64, sz as u64);
        let n = self.cx.rng.range(1, 5);
        let v = V::default();
        match k {
            0 => self.make("Box::new", plain, || LBox::new(v), move |b| Some((&**b as *const V as _, sz)), false),
            1 | 2 => self.make("Box::new_with", marked, || LBox::new_with(v, m),
                move |b| Some((&**b as *const V as _, sz)), false),
            3 => self.make("Rc::new", plain, || Rc::new(v), move |b| Some((&**b as *const V as _, sz)), false),
            4 => self.make("Arc::new", plain, || Arc::new(v), move |b| Some((&**b as *const V as _, sz)), false),
            5 => self.make("Urc::new", plain, || Urc::new(v), |_| None, true),
            6 => self.make("Vec::with_capacity", plain, || LVec::<V>::with_capacity(n),
                move |b| Some((b.as_ptr() as _, sz * b.capacity())), false),
            7 => self.make("Vec::with_marker", marked, || {
                let mut x = LVec::<V>::with_marker(m);
                x.push(v);
                if x.marker() != m {
                    report(RT, format!("marker of Vec is {:?}, expected {m:?}", x.marker()));
                }
                x
            }, move |b| Some((b.as_ptr() as _, sz * b.capacity())), false),
            8 => self.make("Vec::with_capacity_and_marker", marked, || {
                let x = LVec::<V>::with_capacity_and_marker(n, m);
                if x.marker() != m {
                    report(RT, format!("marker of Vec is {:?}, expected {m:?}", x.marker()));
                }
                x
            }, move |b| Some((b.as_ptr() as _, sz * b.capacity())), false),
            9 => self.make("Vec::from array", plain, || LVec::from([v.clone(), v]),
                move |b| Some((b.as_ptr() as _, sz * b.capacity())), false),
            10 => self.make("Vec::from_iter", plain, || (0..n).map(|_| v.clone()).collect::<LVec<V>>(),
                move |b| Some((b.as_ptr() as _, sz * b.capacity())), false),
            11 => self.make("SmallVec::with_capacity", plain, || SmallVec::<V, 2>::with_capacity(n + 2),
                move |b| Some((b.as_ptr() as _, if b.is_heap() { sz * b.capacity() } else { 0 })), false),
            12 => self.make("SmallVec::with_marker", marked, || {
                let mut x = SmallVec::<V, 2>::with_marker(m);
                for _ in 0..3 {
                    x.push(v.clone());
                }
                x
            }, move |b| Some((b.as_ptr() as _, if b.is_heap() { sz * b.capacity() } else { 0 })), false),
            13 => self.make("SmallVec::with_capacity_and_marker", marked,
                || SmallVec::<V, 2>::with_capacity_and_marker(n + 2, m),
                move |b| Some((b.as_ptr() as _, if b.is_heap() { sz * b.capacity() } else { 0 })), false),
            14 => self.make("ScopePtr::alloc", marked, || {
                let p = lokky::ScopePtr::alloc(v, marked).unwrap();
                if p.marker() != m || p.alloc_selector() != marked {
                    report(RT, format!("selector of ScopePtr is {:?}, expected {marked:?}", p.alloc_selector()));
                }
                p
            }, move |b| Some((&**b as *const V as _, sz)), false),
            15 => self.make("Arc::pin", plain, || Arc::pin(v), move |b| Some((&**b as *const V as _, sz)), false),
            16 => self.make("Arc::default", plain, || Arc::<V>::default(), move |b| Some((&**b as *const V as _, sz)), false),
            _ => {
                let sel = AllocSelector::new::<std::mem::MaybeUninit<V>>();
                self.make("Arc::new_uninit", sel, || Arc::<V>::new_uninit(),
                    move |b| Some((b.as_ptr() as _, sz)), false)
            }
        }
    }

    fn string(&mut self) -> Obj {
        use lokky::string::String as LString;
        let m = Self::marker(self.cx.rng.below(8));
        let plain = AllocSelector::new::<u8>();
        let marked = AllocSelector::with_marker::<u8>(m);
        let n = self.cx.rng.range(1, 30);
        let k = self.cx.rng.below(4);
        self.cx.step(20 + k as u64, n as u64);
        let at = |b: &LString| Some((b.as_bytes().as_ptr(), b.capacity()));
        match k {
            0 => self.make("String::with_capacity", plain, || LString::with_capacity(n), at, false),
            1 => self.make("String::from", plain, || LString::from("text"), at, false),
            2 => self.make("String::with_marker", marked, || {
                let mut s = LString::with_marker(m);
                s.push_str("some text");
                s
            }, at, false),
            _ => self.make("String::with_capacity_and_marker", marked, || LString::with_capacity_and_marker(n, m), at, false),
        }
    }

    fn one(&mut self) -> Obj {
        match self.cx.rng.below(10) {
            0 | 1 => self.typed::<Alpha>(),
            2 => self.typed::<Beta>(),
            3 => self.typed::<Gamma<u8>>(),
            4 => self.typed::<Gamma<Alpha>>(),
            5 => self.typed::<other::Alpha>(),
            6 => self.typed::<Option<u64>>(),
            7 => self.typed::<Unit>(),
            8 => self.typed::<u8>(),
            _ => self.string(),
        }
    }
}

/// Selectors for the type from different crates with identity of the type.
fn selectors(mk: usize) -> Vec<(Key, AllocSelector)> {
    // Markers 3, 4, 6 are the same types as 1, 2, 7.
    let canon = [0, 1, 2, 1, 2, 5, 7, 7];
    let m = Rt::marker(mk);
    let mut r: Vec<(Key, AllocSelector)> = vec![];
    macro_rules! ty {
        ($($i:expr => $t:ty),* $(,)?) => { $(
            let key = Key { ty: $i, mk: canon[mk] };
            r.push((key, AllocSelector::with_marker::<$t>(m)));
            r.push((key, markers_a::selector_with::<$t>(m)));
            r.push((key, markers_b::selector_with::<$t>(m)));
            if mk == 0 {
                r.push((key, AllocSelector::new::<$t>()));
                r.push((key, markers_a::selector::<$t>()));
                r.push((key, markers_b::selector::<$t>()));
            }
        )* };
    }
    ty!(0 => Alpha, 1 => Beta, 2 => Gamma<u8>, 3 => Gamma<u16>, 4 => other::Alpha, 5 => str, 6 => [u8],
        7 => u8, 8 => Gamma<Alpha>, 9 => Gamma<other::Alpha>, 10 => dyn std::any::Any, 11 => M1, 12 => M3<u8>,
        13 => (u8, u16), 14 => (u16, u8), 15 => Unit);
    r
}

/// Types with names that are hard to tell apart.
#[allow(dead_code)]
mod names {
    pub struct M1;
    pub struct M10;
    pub struct M1x;
    pub struct MX;
    pub struct Mx;
    pub struct Aa;
    pub struct Ab;
    pub struct Ba;
    pub struct Gen<X>(X);
    pub struct Gem<X>(X);
    pub struct LongNameOfTheMarkerForObjectsThatLiveTogetherInTheFirstPartOfTheWorldOnTheLeftSideOfTheRiverOne;
    pub struct LongNameOfTheMarkerForObjectsThatLiveTogetherInTheFirstPartOfTheWorldOnTheLeftSideOfTheRiverTwo;
    pub struct LongNameOfTheMarkerForObjectsThatLiveTogetherInTheOtherPartOfTheWorldOnTheLeftSideOfTheRiverOne;
    pub mod a {
        pub struct M1;
        pub struct Aa;
        pub mod b {
            pub struct M1;
            pub struct Aa;
        }
    }
    pub mod b {
        pub struct M1;
        pub struct Aa;
        pub mod a {
            pub struct M1;
        }
    }
}

struct Named {
    markers: fn() -> [AllocMarker; 3],
    selectors: fn(AllocMarker) -> [AllocSelector; 3],
    plain: fn() -> [AllocSelector; 3],
}

impl Named {
    fn of<T>() -> Named {
        Named {
            markers: || [AllocMarker::new::<T>(), markers_a::marker::<T>(), markers_b::marker::<T>()],
            selectors: |m| {
                [AllocSelector::with_marker::<T>(m), markers_a::selector_with::<T>(m), markers_b::selector_with::<T>(m)]
            },
            plain: || [AllocSelector::new::<T>(), markers_a::selector::<T>(), markers_b::selector::<T>()],
        }
    }
    fn list() -> Vec<Named> {
        use names::*;
        macro_rules! l { ($($t:ty),* $(,)?) => { vec![$(Named::of::<$t>()),*] } }
        l![
            M1, M10, M1x, MX, Mx, Aa, Ab, Ba, Gen<u8>, Gen<u16>, Gem<u8>, Gen<Gen<u8>>, Gen<Gem<u8>>, Gen<M1>,
            Gen<a::M1>, Gen<(u8, u16)>, Gen<(u16, u8)>,
            LongNameOfTheMarkerForObjectsThatLiveTogetherInTheFirstPartOfTheWorldOnTheLeftSideOfTheRiverOne,
            LongNameOfTheMarkerForObjectsThatLiveTogetherInTheFirstPartOfTheWorldOnTheLeftSideOfTheRiverTwo,
            LongNameOfTheMarkerForObjectsThatLiveTogetherInTheOtherPartOfTheWorldOnTheLeftSideOfTheRiverOne,
            a::M1, a::Aa, a::b::M1, a::b::Aa, b::M1, b::Aa, b::a::M1, crate::suites::scopes::M1, u8, u16, i8, i16,
            usize, isize, (), bool, [u8; 3], [u8; 4], [u8; 34], [u16; 3], &'static u8, &'static mut u8, *const u8,
            *mut u8, (u8, u8), (u8, u8, u8), Option<u8>, Option<Option<u8>>, fn(u8), fn() -> u8, Box<dyn Fn(u8)>,
            Box<dyn Fn() -> u8>, &'static str, &'static [u8], String, std::vec::Vec<u8>, lokky::vec::Vec<u8>,
            lokky::small_vec::SmallVec<u8, 3>, lokky::small_vec::SmallVec<u8, 4>, lokky::rc::Rc<u8>,
            lokky::arc::Arc<u8>, lokky::urc::Urc<u8>, std::rc::Rc<u8>
        ]
    }
}

/// Identity of markers and selectors of types with similar names.
fn similar(cx: &mut Ctx) {
    use crate::cont::hash_of;
    let l = Named::list();
    for _ in 0..60 {
        let (i, mut j) = (cx.rng.below(l.len()), cx.rng.below(l.len()));
        if cx.rng.chance(1, 3) {
            j = i;
        }
        let eq = i == j;
        let (a, b) = (*cx.rng.pick(&(l[i].markers)()), *cx.rng.pick(&(l[j].markers)()));
        if (a == b) != eq || (b == a) != eq || (a != b) == eq || a == AllocMarker::None || AllocMarker::None == b {
            report(RT, format!("markers {a:?} and {b:?} compare as equal: {}", a == b));
        }
        if eq && hash_of(&a) != hash_of(&b) {
            report(RT, format!("equal markers {a:?} and {b:?} have different hashes"));
        }
        // The same pair as parts of selectors: types, markers, both, exchanged.
        let (ti, tj) = (cx.rng.below(3), cx.rng.below(3));
        let k = cx.rng.below(l.len());
        let (mk, tk) = (*cx.rng.pick(&(l[k].markers)()), cx.rng.below(3));
        let pairs = [
            ((l[i].selectors)(mk)[ti], (l[j].selectors)(mk)[tj], eq),
            ((l[i].plain)()[ti], (l[j].plain)()[tj], eq),
            ((l[k].selectors)(a)[tk], (l[k].selectors)(b)[tj], eq),
            ((l[i].selectors)(b)[ti], (l[j].selectors)(a)[tj], eq),
            ((l[i].selectors)(a)[ti], (l[j].selectors)(b)[tj], eq),
            ((l[i].plain)()[ti], (l[j].selectors)(AllocMarker::None)[tj], eq),
            ((l[i].plain)()[ti], (l[j].selectors)(b)[tj], false),
            ((l[i].plain)()[ti], (l[i].selectors)(b)[tj], false),
        ];
        for (x, y, eq) in pairs {
            if (x == y) != eq || (y == x) != eq || (x != y) == eq {
                report(RT, format!("selectors {x:?} and {y:?} compare as equal: {}", x == y));
            }
            if eq && hash_of(&x) != hash_of(&y) {
                report(RT, format!("equal selectors {x:?} and {y:?} have different hashes"));
            }
        }
        cx.count("pairs_of_names", 1);
    }
}

fn identity(cx: &mut Ctx) {
    if cx.rng.chance(1, if cfg!(miri) { 2 } else { 8 }) {
        similar(cx);
    }
    let canon = [0, 1, 2, 1, 2, 5, 7, 7];
    let (a, b) = (cx.rng.below(8), cx.rng.below(8));
    let (ma, mb) = (Rt::marker(a), Rt::marker(b));
    let eq = canon[a] == canon[b];
    use crate::cont::hash_of;
    if (ma == mb) != eq || (mb == ma) != eq || (ma != mb) == eq {
        report(RT, format!("markers {ma:?} and {mb:?} compare as equal: {}", ma == mb));
    }
    if eq && hash_of(&ma) != hash_of(&mb) {
        report(RT, format!("equal markers {ma:?} and {mb:?} have different hashes"));
    }
    let (sa, sb) = (selectors(a), selectors(b));
    for _ in 0..40 {
        let (ka, x) = *cx.rng.pick(&sa);
        let (kb, y) = *cx.rng.pick(&sb);
        let eq = ka == kb;
        if (x == y) != eq || (y == x) != eq {
            report(RT, format!("selectors {x:?} and {y:?} compare as equal: {}", x == y));
        }
        if eq && hash_of(&x) != hash_of(&y) {
            report(RT, format!("equal selectors {x:?} and {y:?} have different hashes"));
        }
        if x.marker() != ma || y.marker() != mb || (ka.ty == kb.ty) != (x.ty() == y.ty()) {
            report(RT, format!("parts of selectors {x:?} and {y:?} are wrong"));
        }
        let mut t = HashMap::new();
        t.insert(x, 1);
        if t.contains_key(&y) != eq {
            report(RT, format!("table finds {y:?} by {x:?}: {}", !eq));
        }
    }
    let (c, d) = (markers_a::concrete(), markers_b::concrete());
    if c != d {
        report(RT, format!("{c:?} and {d:?} made in different crates are not equal"));
    }
    if hash_of(&c) != hash_of(&d) || hash_of(&c.0) != hash_of(&d.0) || hash_of(&c.1) != hash_of(&d.1) || hash_of(&c.2) != hash_of(&d.2) {
        report(RT, format!("{c:?} and {d:?} made in different crates have different hashes"));
    }
    let mut table = HashMap::new();
    table.insert(c.1, 1);
    table.insert(c.2, 2);
    if table.get(&d.1) != Some(&1) || table.get(&d.2) != Some(&2) {
        report(RT, format!("table does not find {d:?} made in other crate by {c:?}"));
    }
    let e = AllocMarker::default();
    if e != AllocMarker::None || e == AllocMarker::new::<M1>() {
        report(RT, "default marker".into());
    }
    cx.step(99, (a * 8 + b) as u64);
}

pub fn routing(cx: &mut Ctx) {
    set_own_tags(RT);
    identity(cx);
    let n = cx.arenas.len() - 1;
    let mut by_marker = HashMap::new();
    for i in [1, 2, 5, 7] {
        if cx.rng.chance(2, 3) {
            by_marker.insert(Rt::marker(i), cx.rng.below(n));
        }
    }
    let mut by_selector = HashMap::new();
    for _ in 0..cx.rng.below(8) {
        let mk = cx.rng.below(8);
        let s = selectors(mk);
        let (_, k) = *cx.rng.pick(&s);
        by_selector.insert(k, cx.rng.below(n));
    }
    let rest = cx.rng.below(n);
    let arenas: Vec<&'static Arena> = cx.arenas[1..].to_vec();
    let steps = if cfg!(miri) { 5 } else { 16 };
    scope::spawn(
        |_| Router { by_marker: by_marker.clone(), by_selector: by_selector.clone(), rest, arenas: arenas.clone() },
        |r| {
            let mut t = Rt { cx, r: Some(r as *const Router) };
            let mut objs: Vec<Obj> = vec![];
            for _ in 0..steps {
                if tainted() {
                    break;
                }
                let o = t.one();
                objs.push(o);
                if objs.len() > 4 {
                    let i = t.cx.rng.below(objs.len());
                    objs.swap_remove(i)();
                }
            }
            if tainted() {
                std::mem::forget(objs);
                return;
            }
            for o in objs {
                o();
            }
            for a in &r.arenas {
                if a.live_blocks() != 0 {
                    report(&["C06", "C11"], "block is not returned to the allocator it is from".into());
                }
            }
        },
    );
    let _ = mix(0);
}
