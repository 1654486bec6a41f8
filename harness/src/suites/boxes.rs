//! Boxes and scope pointers: each owns exactly one value (or array) and exactly one block.
use crate::arena::Arena;
use crate::catch;
use crate::elem::*;
use crate::env;
use crate::note;
use crate::run::*;
use crate::seq::{MarkedTy, TScope};
use lokky::boxed::Box as LBox;
use lokky::scope::{AllocMarker, AllocSelector};
use lokky::vec::Vec as LVec;
use lokky::{AllocError, ArrayAllocError, ScopePtr};
use std::alloc::Layout;
use std::borrow::{Borrow, BorrowMut};
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::mem::{align_of, size_of, swap, MaybeUninit};
use std::ptr::NonNull;

#[derive(Clone, Copy)]
struct Cfg {
    bombs: bool,
    oom: bool,
    tags: &'static [&'static str],
    steps: usize,
}

enum Own<T: Elem> {
    Boxed(LBox<T>),
    Ptr(ScopePtr<T>),
    Slice(LBox<[T]>),
    /// Array of which the given number of values is initialized.
    Array(ScopePtr<[T]>),
}

struct Obj<T: Elem> {
    o: Own<T>,
    m: Vec<u32>,
    arena: usize,
    marker: AllocMarker,
}

struct B<'a, T: Elem> {
    cx: &'a mut Ctx,
    cfg: Cfg,
    pool: Vec<Obj<T>>,
    /// Arenas of plain and marked requests.
    cur: Vec<(usize, usize)>,
    next: u32,
    op: &'static str,
    leaked: isize,
    loose: bool,
    /// Injected panics before the operation.
    hits0: u64,
    _p: PhantomData<T>,
}

impl<T: Elem> B<'_, T> {
    fn values(o: &Own<T>, n: usize) -> Vec<u32> {
        match o {
            Own::Boxed(b) => vec![b.val()],
            Own::Ptr(b) => vec![b.val()],
            Own::Slice(b) => b.iter().map(|x| x.val()).collect(),
            Own::Array(a) => unsafe {
                let p = a.as_ptr();
                (0..n).map(|i| (*p.add(i)).val()).collect()
            },
        }
    }

    /// Address and size of the block.
    fn block(o: &Own<T>) -> (*const u8, usize) {
        match o {
            Own::Boxed(b) => (&**b as *const T as _, size_of::<T>()),
            Own::Ptr(b) => (&**b as *const T as _, size_of::<T>()),
            Own::Slice(b) => (b.as_ptr() as _, b.len() * size_of::<T>()),
            Own::Array(b) => (b.as_ptr() as _, b.len() * size_of::<T>()),
        }
    }

    fn check(&mut self) {
        if tainted() {
            return;
        }
        let mut live = self.leaked;
        let mut blocks = vec![0isize; self.cx.arenas.len()];
        for b in &self.pool {
            let v = Self::values(&b.o, b.m.len());
            if !T::ZST && v != b.m {
                report(self.cfg.tags, format!("after {}: content is {v:?}, expected {:?}", self.op, b.m));
                return;
            }
            if let Own::Ptr(p) = &b.o {
                if p.marker() != b.marker || p.alloc_selector() != AllocSelector::with_marker::<T>(b.marker) {
                    report(&["C22", "C12", "C11"], format!("after {}: marker of the pointer is {:?}", self.op, p.marker()));
                }
            }
            if let Own::Array(p) = &b.o {
                if p.marker() != b.marker {
                    report(&["C22", "C12", "C11"], format!("after {}: marker of the array is {:?}", self.op, p.marker()));
                }
            }
            live += b.m.len() as isize;
            let (at, size) = Self::block(&b.o);
            if at as usize % align_of::<T>() != 0 {
                report(&["C22", "C06"], format!("after {}: value is not aligned", self.op));
            }
            if size != 0 {
                blocks[b.arena] += 1;
                if self.cx.arenas[b.arena].block_size(at) != Some(size) {
                    report(
                        &["C22", "C12", "C06"],
                        format!("after {}: value is not in a block of {size} bytes of its allocator", self.op),
                    );
                }
            }
        }
        let mut tags = self.cfg.tags.to_vec();
        tags.push("C04");
        if T::TRACKED {
            want_live(&tags, reg().live, live);
        }
        if !self.loose {
            for (i, n) in blocks.iter().enumerate() {
                let have = self.cx.arenas[i].live_blocks();
                if have != *n {
                    let mut tags = self.cfg.tags.to_vec();
                    tags.extend(["C06", "C22", "C12"]);
                    report(&tags, format!("after {}: {have} blocks in the arena {i}, expected {n}", self.op));
                }
            }
        }
    }

    fn fails(&self) -> bool {
        self.cfg.oom
    }

    fn next(&mut self) -> u32 {
        self.next += 1;
        self.next
    }

    fn failures(&self) -> usize {
        self.cx.arenas.iter().map(|a| a.n_failed.load(std::sync::atomic::Ordering::Relaxed)).sum()
    }

    fn place(&self, m: AllocMarker) -> usize {
        let c = self.cur.last().unwrap();
        if m == AllocMarker::None { c.0 } else { c.1 }
    }

    fn put(&mut self, o: Own<T>, m: Vec<u32>, arena: usize, marker: AllocMarker) {
        self.pool.push(Obj { o, m, arena, marker });
    }

    fn arm_oom(&mut self) {
        if self.cfg.oom && self.cx.rng.chance(1, 2) {
            for a in &self.cx.arenas {
                a.fail_after(0);
            }
        }
        if self.cfg.bombs && self.cx.rng.chance(1, 6) {
            // The scope does not serve the request.
            reg().scope_bomb = 0;
        }
    }

    fn disarm(&self) {
        for a in &self.cx.arenas {
            a.fail_off();
        }
        reg().disarm();
    }

    /// Outcome of the operation that may be stopped by failed allocation.
    fn refused(&mut self, what: &str, f0: usize, ok: bool) {
        let failed = self.failures() > f0 || reg().bombs_hit > self.hits0;
        if ok == failed {
            report(
                self.cfg.tags,
                format!("{what}: allocation {}, operation {}", if failed { "failed" } else { "succeeded" },
                    if ok { "succeeded" } else { "failed" }),
            );
        }
        if failed {
            self.cx.count("failed_allocations", 1);
        }
    }

    fn step(&mut self) {
        const OPS: &[(&str, u32)] = &[
            ("new", 4), ("new_with", 3), ("ptr_alloc", 4), ("ptr_raw", 2), ("into_inner", 5), ("drop", 6),
            ("set", 4), ("assign", 3), ("swap", 3), ("swap_values", 3), ("replace", 2), ("slice", 3),
            ("array", 4), ("array_grow", 5), ("array_write", 5), ("array_pop", 4), ("to_slice", 2), ("clone_forget", 3),
            ("cast", 2), ("slice_views", 2), ("huge", 1), ("slice_to_vec", 2), ("move", 1), ("dangling", 2),
            ("text", 1),
        ];
        let total: u32 = OPS.iter().map(|o| o.1).sum();
        let mut r = self.cx.rng.below(total as usize) as u32;
        let mut k = 0;
        while r >= OPS[k].1 {
            r -= OPS[k].1;
            k += 1;
        }
        self.op = OPS[k].0;
        let full = self.pool.len() > 8 || reg().live > T::LIMIT.min(64) as isize;
        if full && matches!(self.op, "new" | "new_with" | "ptr_alloc" | "ptr_raw" | "slice" | "array" | "dangling") {
            self.op = "drop";
        }
        note!("  {} pool {:?}", self.op, self.pool.iter().map(|p| p.m.clone()).collect::<Vec<_>>());
        let op = self.op;
        self.run_op(op);
        self.disarm();
        let shape = self.pool.iter().fold(0u64, |a, p| a * 7 + p.m.len() as u64 + p.arena as u64);
        self.cx.step(op.len() as u64 + op.as_bytes()[0] as u64 * 31 + *op.as_bytes().last().unwrap() as u64, shape);
        self.check();
    }

    fn marker(&mut self) -> AllocMarker {
        if self.cx.rng.chance(1, 2) { AllocMarker::new::<MarkedTy>() } else { AllocMarker::None }
    }

    fn pick(&mut self, f: impl Fn(&Own<T>) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.pool.len()).filter(|&i| f(&self.pool[i].o)).collect();
        if c.is_empty() { None } else { Some(*self.cx.rng.pick(&c)) }
    }

    fn single(o: &Own<T>) -> bool {
        matches!(o, Own::Boxed(_) | Own::Ptr(_))
    }

    fn value<'x>(o: &'x mut Own<T>, way: usize) -> &'x mut T {
        match o {
            Own::Boxed(b) => match way {
                0 => &mut **b,
                1 => AsMut::<T>::as_mut(b),
                _ => BorrowMut::<T>::borrow_mut(b),
            },
            Own::Ptr(b) => &mut **b,
            _ => unreachable!("HARNESS"),
        }
    }

    fn run_op(&mut self, op: &'static str) {
        let v = self.next();
        let f0 = self.failures();
        self.hits0 = reg().bombs_hit;
        match op {
            "new" | "new_with" => {
                let mk = if op == "new" { AllocMarker::None } else { self.marker() };
                let at = self.place(mk);
                let x = T::make(v);
                self.arm_oom();
                match catch(move || if op == "new" { LBox::new(x) } else { LBox::new_with(x, mk) }) {
                    Ok(b) => {
                        self.refused(op, f0, true);
                        self.put(Own::Boxed(b), vec![v], at, mk);
                    }
                    Err(_) => self.refused(op, f0, false),
                }
            }
            "ptr_alloc" => {
                let mk = self.marker();
                let at = self.place(mk);
                let x = T::make(v);
                self.arm_oom();
                match catch(move || ScopePtr::alloc(x, AllocSelector::with_marker::<T>(mk))) {
                    Ok(Ok(p)) => {
                        self.refused(op, f0, true);
                        self.put(Own::Ptr(p), vec![v], at, mk);
                    }
                    Ok(Err(AllocError)) => self.refused(op, f0, false),
                    Err(e) if e == BOMB => self.refused(op, f0, false),
                    Err(e) => report(self.cfg.tags, format!("allocation panicked: {e}")),
                }
            }
            "ptr_raw" => {
                // Allocator is not the one of the current scope.
                let at = self.cx.rng.below(self.cx.arenas.len());
                let a: &'static Arena = self.cx.arenas[at];
                let mk = self.marker();
                let x = T::make(v);
                unsafe {
                    let p = if size_of::<T>() == 0 {
                        NonNull::<T>::dangling()
                    } else {
                        NonNull::new_unchecked(std::alloc::GlobalAlloc::alloc(a, Layout::new::<T>()) as *mut T)
                    };
                    p.as_ptr().write(x);
                    let p = ScopePtr::new(p, a, mk);
                    self.put(Own::Ptr(p), vec![v], at, mk);
                }
            }
            "into_inner" => {
                if let Some(i) = self.pick(Self::single) {
                    let o = self.pool.swap_remove(i);
                    let x = match o.o {
                        Own::Boxed(b) => b.into_inner(),
                        Own::Ptr(b) => b.into_inner(),
                        _ => unreachable!("HARNESS"),
                    };
                    if !T::ZST && x.val() != o.m[0] {
                        report(self.cfg.tags, format!("into_inner gives {}, expected {}", x.val(), o.m[0]));
                    }
                }
            }
            "drop" => {
                if self.pool.is_empty() {
                    return;
                }
                let i = self.cx.rng.below(self.pool.len());
                let o = self.pool.swap_remove(i);
                self.destroy(o);
            }
            "set" => {
                if let Some(i) = self.pick(Self::single) {
                    let way = self.cx.rng.below(3);
                    Self::value(&mut self.pool[i].o, way).set(v);
                    self.pool[i].m[0] = v;
                    if let Own::Boxed(b) = &self.pool[i].o {
                        let (x, y) = (AsRef::<T>::as_ref(b), Borrow::<T>::borrow(b));
                        if !std::ptr::eq(x, y) || !std::ptr::eq(x, &**b) {
                            report(&["C22", "C20"], "views of the box are different values".into());
                        }
                    }
                }
            }
            "assign" => {
                // Old value is dropped in place.
                if let Some(i) = self.pick(Self::single) {
                    let x = T::make(v);
                    let way = self.cx.rng.below(3);
                    *Self::value(&mut self.pool[i].o, way) = x;
                    self.pool[i].m[0] = v;
                }
            }
            "replace" => {
                if let Some(i) = self.pick(Self::single) {
                    let x = T::make(v);
                    let y = std::mem::replace(Self::value(&mut self.pool[i].o, 0), x);
                    if !T::ZST && y.val() != self.pool[i].m[0] {
                        report(self.cfg.tags, "replaced value is not the one put".into());
                    }
                    self.pool[i].m[0] = v;
                }
            }
            "swap" | "swap_values" => {
                let (a, b) = (self.pick(Self::single), self.pick(Self::single));
                let (Some(a), Some(b)) = (a, b) else { return };
                if a == b {
                    return;
                }
                let (a, b) = (a.min(b), a.max(b));
                let (l, r) = self.pool.split_at_mut(b);
                let (x, y) = (&mut l[a], &mut r[0]);
                if op == "swap" {
                    // Handles go together with their allocators.
                    match (&mut x.o, &mut y.o) {
                        (Own::Boxed(p), Own::Boxed(q)) => swap(p, q),
                        (Own::Ptr(p), Own::Ptr(q)) => swap(p, q),
                        (p, q) => swap(p, q),
                    }
                    swap(&mut x.m, &mut y.m);
                    swap(&mut x.arena, &mut y.arena);
                    swap(&mut x.marker, &mut y.marker);
                } else {
                    swap(Self::value(&mut x.o, 0), Self::value(&mut y.o, 0));
                    swap(&mut x.m, &mut y.m);
                }
            }
            "slice" => {
                let n = self.cx.rng.below(6);
                let mk = self.marker();
                let at = self.place(mk);
                let mut src = LVec::<T>::with_marker(mk);
                let mut m = vec![];
                for k in 0..n {
                    src.push(T::make(v + k as u32));
                    m.push(v + k as u32);
                }
                self.next += 8;
                let b = src.into_boxed_slice();
                self.put(Own::Slice(b), m, at, mk);
            }
            "slice_to_vec" => {
                if let Some(i) = self.pick(|o| matches!(o, Own::Slice(_))) {
                    let o = self.pool.swap_remove(i);
                    let Own::Slice(b) = o.o else { unreachable!() };
                    let at = b.as_ptr() as usize;
                    let x: LVec<T> = b.into();
                    if !T::ZST && (x.iter().map(|e| e.val()).ne(o.m.iter().copied())) {
                        report(self.cfg.tags, "vector made of the box has other content".into());
                    }
                    if x.marker() != o.marker {
                        report(&["C22", "C12", "C11"], "vector made of the box has other marker".into());
                    }
                    let b = x.into_boxed_slice();
                    if !T::ZST && b.as_ptr() as usize != at {
                        report(&["C06"], "conversion of the box to the vector and back moves the block".into());
                    }
                    self.put(Own::Slice(b), o.m, o.arena, o.marker);
                }
            }
            "slice_views" => {
                if let Some(i) = self.pick(|o| matches!(o, Own::Slice(_))) {
                    let k = self.cx.rng.below(8);
                    let o = &mut self.pool[i];
                    let Own::Slice(b) = &mut o.o else { unreachable!() };
                    if b.as_ref().len() != o.m.len() || b.len() != o.m.len() {
                        report(self.cfg.tags, "length of boxed slice".into());
                    }
                    if k < o.m.len() {
                        b.as_mut()[k].set(v);
                        o.m[k] = v;
                        b.reverse();
                        o.m.reverse();
                    }
                }
            }
            "array" => {
                let n = if !cfg!(miri) && self.cx.rng.chance(1, 30) { self.cx.rng.below(2000) } else { self.cx.rng.below(7) };
                let mk = self.marker();
                let at = self.place(mk);
                self.arm_oom();
                let r = match catch(move || ScopePtr::<[T]>::alloc_array_uninit(n, AllocSelector::with_marker::<T>(mk))) {
                    Ok(r) => r,
                    Err(e) if e == BOMB => return self.refused(op, f0, false),
                    Err(e) => return report(self.cfg.tags, format!("allocation panicked: {e}")),
                };
                match r {
                    Ok(a) => {
                        self.refused(op, f0, true);
                        if a.len() != n {
                            report(self.cfg.tags, format!("array of {n} has length {}", a.len()));
                        }
                        if a.marker() != mk {
                            report(&["C22", "C11"], "marker of the array".into());
                        }
                        self.put(Own::Array(a), vec![], at, mk);
                    }
                    Err(e) => {
                        self.refused(op, f0, false);
                        if e != ArrayAllocError::AllocError(AllocError) {
                            report(self.cfg.tags, format!("failed allocation is told as {e:?}"));
                        }
                    }
                }
            }
            "array_grow" => {
                if let Some(i) = self.pick(|o| matches!(o, Own::Array(_))) {
                    let n = if !cfg!(miri) && self.cx.rng.chance(1, 20) { self.cx.rng.below(3000) } else { self.cx.rng.below(12) };
                    let n = n.max(self.pool[i].m.len());
                    self.arm_oom();
                    let o = &mut self.pool[i];
                    let Own::Array(a) = &mut o.o else { unreachable!() };
                    let (p0, l0) = (a.as_ptr(), a.len());
                    let r = unsafe { a.realloc_array(n) };
                    let (p1, l1) = (a.as_ptr(), a.len());
                    match r {
                        Ok(()) => {
                            self.refused(op, f0, true);
                            if l1 != n {
                                report(self.cfg.tags, format!("array has length {l1} after realloc to {n}"));
                            }
                        }
                        Err(e) => {
                            self.refused(op, f0, false);
                            if e != ArrayAllocError::AllocError(AllocError) || (p0, l0) != (p1, l1) {
                                report(self.cfg.tags, format!("failed realloc ({e:?}) changed the array"));
                            }
                        }
                    }
                }
            }
            "array_write" => {
                if let Some(i) = self.pick(|o| matches!(o, Own::Array(_))) {
                    let o = &mut self.pool[i];
                    let Own::Array(a) = &mut o.o else { unreachable!() };
                    // Long arrays of small values only.
                    let all = T::LIMIT > 5000 && size_of::<T>() <= 64 && self.cx.rng.chance(1, 3);
                    let from = o.m.len() as u32;
                    while o.m.len() < a.len() {
                        unsafe { a.as_mut_ptr().add(o.m.len()).write(T::make(v + o.m.len() as u32)) };
                        o.m.push(v + o.m.len() as u32);
                        if !all && self.cx.rng.chance(1, 3) {
                            break;
                        }
                    }
                    self.next += 16 + o.m.len() as u32 - from;
                }
            }
            "array_pop" => {
                if let Some(i) = self.pick(|o| matches!(o, Own::Array(_))) {
                    let o = &mut self.pool[i];
                    let Own::Array(a) = &mut o.o else { unreachable!() };
                    if let Some(x) = o.m.pop() {
                        let y = unsafe { a.as_ptr().add(o.m.len()).read() };
                        if !T::ZST && x != y.val() {
                            report(self.cfg.tags, "value in the array is not the one written".into());
                        }
                    }
                }
            }
            "to_slice" => {
                // View of the single value as an array of one.
                if let Some(i) = self.pick(|o| matches!(o, Own::Ptr(_))) {
                    let o = self.pool.swap_remove(i);
                    let Own::Ptr(mut p) = o.o else { unreachable!() };
                    unsafe {
                        let l = self.cx.rng.below(2);
                        if p.slice_ref(l).len() != l || p.slice_mut(l).len() != l {
                            report(self.cfg.tags, "length of the slice".into());
                        }
                        let at = &*p as *const T;
                        let a = p.cast_to_slice(1);
                        if a.as_ptr() != at || a.len() != 1 || a.marker() != o.marker {
                            report(self.cfg.tags, "cast to slice changes the pointer".into());
                        }
                        self.put(Own::Array(a), o.m, o.arena, o.marker);
                    }
                }
            }
            "clone_forget" => {
                if let Some(i) = self.pick(|o| matches!(o, Own::Ptr(_))) {
                    let o = self.pool.swap_remove(i);
                    let Own::Ptr(p) = o.o else { unreachable!() };
                    let q = unsafe { p.clone() };
                    if self.cx.rng.chance(1, 2) {
                        p.forget();
                        self.put(Own::Ptr(q), o.m, o.arena, o.marker);
                    } else {
                        q.forget();
                        self.put(Own::Ptr(p), o.m, o.arena, o.marker);
                    }
                }
            }
            "cast" => {
                if let Some(i) = self.pick(|o| matches!(o, Own::Ptr(_))) {
                    let o = self.pool.swap_remove(i);
                    let Own::Ptr(p) = o.o else { unreachable!() };
                    unsafe {
                        // The same layout, no destructor.
                        let q = p.cast::<MaybeUninit<T>>();
                        let q = q.cast::<T>();
                        self.put(Own::Ptr(q), o.m, o.arena, o.marker);
                    }
                }
            }
            "dangling" => {
                let at = self.cx.rng.below(self.cx.arenas.len());
                let a: &'static Arena = self.cx.arenas[at];
                let mk = self.marker();
                unsafe {
                    let mut p = ScopePtr::<T>::dangling(a, mk);
                    if self.cx.rng.chance(1, 2) {
                        let q = ScopePtr::dangling_in(&p);
                        p.forget();
                        p = q;
                    }
                    if p.marker() != mk {
                        report(&["C22", "C11"], "marker of the pointer".into());
                    }
                    let arr = p.cast_to_slice(0);
                    self.put(Own::Array(arr), vec![], at, mk);
                }
            }
            "huge" => {
                if T::ZST {
                    return;
                }
                let max = isize::MAX as usize / size_of::<T>();
                let n = max + 1 + [0, 1, 77][self.cx.rng.below(3)];
                let e0: usize = self.cx.arenas.iter().map(|a| a.events()).sum();
                let n = *self.cx.rng.pick(&[n, usize::MAX, usize::MAX / 2 + 1, (usize::MAX / size_of::<T>()).wrapping_add(1)]);
                let r = if n > max { ScopePtr::<[T]>::alloc_array_uninit(n, AllocSelector::new::<T>()).map(|x| x.forget()) } else { return };
                if r != Err(ArrayAllocError::CapacityOverflow) {
                    report(&["C08", "C22"], format!("array of {n} elements gives {r:?}"));
                }
                if let Some(i) = self.pick(|o| matches!(o, Own::Array(_))) {
                    let Own::Array(a) = &mut self.pool[i].o else { unreachable!() };
                    let (p0, l0) = (a.as_ptr(), a.len());
                    let r = unsafe { a.realloc_array(n) };
                    if r != Err(ArrayAllocError::CapacityOverflow) || (a.as_ptr(), a.len()) != (p0, l0) {
                        report(&["C08", "C22"], format!("realloc to {n} elements gives {r:?}"));
                    }
                }
                if e0 != self.cx.arenas.iter().map(|a| a.events()).sum::<usize>() {
                    report(&["C08", "C22"], "impossible request reaches the allocator".into());
                }
            }
            "text" => self.text(),
            "move" => {
                // Moves of handles do not touch the values.
                self.pool.reverse();
                let mut x = std::mem::take(&mut self.pool);
                self.pool.append(&mut x);
            }
            _ => unreachable!("HARNESS {op}"),
        }
    }

    /// Text behind a pointer and its bytes.
    fn text(&mut self) {
        const CHARS: &[char] = &['a', '\0', 'é', '€', '😀', '\u{10ffff}', '\n', '\u{80}'];
        let n = if self.cx.rng.chance(1, 6) { self.cx.rng.below(300) } else { self.cx.rng.below(6) };
        let t: String = (0..n).map(|_| *self.cx.rng.pick(CHARS)).collect();
        let mk = self.marker();
        let at = self.place(mk);
        let arena: &'static Arena = self.cx.arenas[at];
        let before = arena.live_blocks();
        let Ok(mut a) = ScopePtr::<[u8]>::alloc_array_uninit(t.len(), AllocSelector::with_marker::<u8>(mk)) else {
            report(self.cfg.tags, format!("array of {} bytes is refused", t.len()));
            return;
        };
        let p = a.as_mut_ptr() as *mut u8;
        // SAFETY: the array has this length.
        unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), p, t.len()) };
        a.forget();
        let s = std::ptr::slice_from_raw_parts_mut(p, t.len()) as *mut str;
        // SAFETY: made of the parts of the other pointer, which is forgotten.
        let s: ScopePtr<str> = unsafe { ScopePtr::new(NonNull::new_unchecked(s), arena, mk) };
        if *s != *t || s.len() != t.len() || s.marker() != mk {
            report(self.cfg.tags, format!("text behind the pointer is {:?}, expected {t:?}", &*s));
        }
        let b = s.cast_str_to_bytes();
        if *b != *t.as_bytes() || b.as_ptr() as *const u8 != p as *const u8 {
            report(&["C22", "C03"], format!("bytes of the text {t:?} are {:?}", &*b));
        }
        if b.marker() != mk {
            report(&["C22", "C12", "C11"], "marker of the bytes differs from the one of the text".into());
        }
        let some = (!t.is_empty()) as isize;
        if arena.live_blocks() != before + some {
            report(&["C22", "C06"], "cast of the text changes the number of blocks".into());
        }
        drop(b);
        if arena.live_blocks() != before {
            report(&["C22", "C06"], format!("block of the text of {} bytes is not released once", t.len()));
        }
    }

    fn destroy(&mut self, o: Obj<T>) {
        let Obj { o, m, .. } = o;
        let mut o = Some(o);
        let hits = reg().bombs_hit;
        if self.cfg.bombs && self.cx.rng.chance(1, 2) {
            reg().drop_bomb = self.cx.rng.below(3) as isize;
        }
        let n0 = reg().dropped;
        reg().drop_log = Some(vec![]);
        let r = catch(|| match o.take().unwrap() {
            Own::Array(a) => unsafe {
                // Only the initialized part has values.
                let mut a = std::mem::ManuallyDrop::new(a);
                let p = a.as_mut_ptr();
                let m = m.len();
                for i in 0..m {
                    p.add(i).drop_in_place();
                }
                a.dealloc();
            },
            x => drop(x),
        });
        let log = reg().drop_log.take().unwrap_or_default();
        let gone = (reg().dropped - n0) as usize;
        match r {
            Ok(()) => {
                if T::TRACKED && gone != m.len() {
                    report(self.cfg.tags, format!("{gone} values dropped of {}", m.len()));
                }
            }
            Err(s) => {
                if s != BOMB {
                    report(&["ANY"], format!("unexpected panic: {s}"));
                }
                self.cx.count("unwound", 1);
                // Leaks are allowed, the block as well.
                if gone > m.len() {
                    report(self.cfg.tags, format!("{gone} values dropped of {}", m.len()));
                }
                self.leaked += m.len() as isize - gone as isize;
                self.loose = true;
            }
        }
        if !T::ZST && log.iter().any(|x| !m.contains(x)) {
            report(self.cfg.tags, "value of other owner is dropped".into());
        }
        let _ = hits;
    }

    fn main(&mut self) {
        for _ in 0..self.cfg.steps {
            if tainted() {
                return;
            }
            if self.cur.len() == 1 && self.cx.rng.chance(1, 12) {
                let ar = self.cx.arenas.clone();
                let n = self.cx.rng.range(2, 10);
                self.cx.count("scopes", 1);
                lokky::scope::spawn(
                    |_| TScope { plain: ar[1], marked: ar[2] },
                    |_| {
                        self.cur.push((1, 2));
                        for _ in 0..n {
                            if !tainted() {
                                self.step();
                            }
                        }
                        self.cur.pop();
                    },
                );
                continue;
            }
            self.step();
        }
    }

    fn run(cx: &mut Ctx, cfg: Cfg) {
        let mut b = B::<T> {
            cx,
            cfg,
            pool: vec![],
            cur: vec![(0, 0)],
            next: 0,
            op: "",
            leaked: 0,
            loose: false,
            hits0: 0,
            _p: PhantomData,
        };
        b.main();
        if !tainted() {
            while let Some(o) = b.pool.pop() {
                b.op = "end";
                b.destroy(o);
                b.disarm();
                b.check();
            }
        }
        if tainted() {
            std::mem::forget(std::mem::take(&mut b.pool));
        }
        let _ = b.fails();
        let _ = env::base();
    }
}

fn dispatch(cx: &mut Ctx, bombs: bool, oom: bool, tags: &'static [&'static str]) {
    set_own_tags(tags);
    let n = if cfg!(miri) { cx.rng.range(10, 25) } else { cx.rng.range(10, 60) };
    let cfg = Cfg { bombs, oom, tags, steps: n * cx.scale.max(1) };
    match cx.rng.below(11) {
        8 => B::<Pl3>::run(cx, cfg),
        9 => B::<Pl48>::run(cx, cfg),
        10 if !cfg!(miri) => B::<TokPage>::run(cx, cfg),
        0 => B::<TokBig>::run(cx, cfg),
        1 => B::<TokAl>::run(cx, cfg),
        2 => B::<Tok1>::run(cx, cfg),
        3 => B::<TokZ>::run(cx, cfg),
        4 => iters(cx),
        5 => hashers(cx),
        _ => B::<Tok>::run(cx, cfg),
    }
}

pub fn boxes(cx: &mut Ctx) {
    dispatch(cx, false, false, &["C22"]);
}

pub fn panics(cx: &mut Ctx) {
    dispatch(cx, true, false, &["C05"]);
}

pub fn oom(cx: &mut Ctx) {
    dispatch(cx, false, true, &["C07"]);
}

/// Iterator which is also aware of its length.
struct Walk(std::collections::VecDeque<u32>);
impl Iterator for Walk {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        self.0.pop_front()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0.len(), Some(self.0.len()))
    }
}
impl DoubleEndedIterator for Walk {
    fn next_back(&mut self) -> Option<u32> {
        self.0.pop_back()
    }
}
impl ExactSizeIterator for Walk {}
impl std::iter::FusedIterator for Walk {}

trait Both: DoubleEndedIterator<Item = u32> + ExactSizeIterator {}
impl<I: DoubleEndedIterator<Item = u32> + ExactSizeIterator> Both for I {}

fn pull(i: &mut impl Both, k: usize, n: usize) -> (Option<u32>, usize) {
    match k {
        0 => (i.next(), 0),
        1 => (i.next_back(), 0),
        2 => (i.nth(n), 0),
        3 => (i.nth_back(n), 0),
        4 => (i.size_hint().1.map(|x| x as u32), i.size_hint().0),
        5 => (i.by_ref().take(n).max(), i.len()),
        6 => (i.by_ref().rev().take(n).fold(None, |a: Option<u32>, b| Some(a.unwrap_or(3).wrapping_mul(31) + b)), i.len()),
        7 => (i.find(|x| x % 7 == n as u32), i.len()),
        _ => (None, i.len()),
    }
}

fn iters(cx: &mut Ctx) {
    let n = cx.rng.below(40);
    let src: Vec<u32> = (0..n).map(|_| cx.rng.next() as u32 % 1000).collect();
    let mut plain = Walk(src.iter().copied().collect());
    let mut boxed = LBox::new(Walk(src.iter().copied().collect()));
    let mut nested = LBox::new(LBox::new(Walk(src.iter().copied().collect())));
    let steps = cx.rng.range(4, 30);
    for _ in 0..steps {
        let (k, n) = (cx.rng.below(9), cx.rng.below(6));
        let (a, b, c) = (pull(&mut plain, k, n), pull(&mut boxed, k, n), pull(&mut nested, k, n));
        cx.step(200 + k as u64, (n * 64 + plain.0.len()) as u64);
        if a != b || a != c {
            report(&["C22", "C21"], format!("request {k} to the boxed iterator gives {b:?} and {c:?}, to itself {a:?}"));
            return;
        }
    }
    let rest: Vec<u32> = boxed.into_inner().collect();
    if rest != plain.0.iter().copied().collect::<Vec<_>>() {
        report(&["C22", "C21"], "rest of the boxed iterator".into());
    }
    let s: u64 = nested.map(|x| x as u64).sum();
    if s != plain.map(|x| x as u64).sum::<u64>() {
        report(&["C22", "C21"], "sum of the boxed iterator".into());
    }
}

#[derive(Default)]
struct Fnv(u64);
impl Fnv {
    fn add(&mut self, x: u64, tag: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(5) ^ tag;
    }
}
/// Hashers may take numbers in their own way.
macro_rules! own_writes {
    ($($f:ident: $t:ty, $tag:expr;)*) => {
        $(fn $f(&mut self, i: $t) {
            self.add(i as u64, $tag)
        })*
    };
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
        // Borders of writes are significant too.
        self.0 = self.0.rotate_left(5) ^ b.len() as u64;
    }
    own_writes! {
        write_u8: u8, 0x1000;
        write_u16: u16, 0x2000;
        write_u32: u32, 0x3000;
        write_u64: u64, 0x4000;
        write_u128: u128, 0x5000;
        write_usize: usize, 0x6000;
        write_i8: i8, 0x7000;
        write_i16: i16, 0x8000;
        write_i32: i32, 0x9000;
        write_i64: i64, 0xa000;
        write_i128: i128, 0xb000;
        write_isize: isize, 0xc000;
    }
}
/// Hasher which takes everything as bytes.
#[derive(Default)]
struct Plain(Fnv);
impl Hasher for Plain {
    fn finish(&self) -> u64 {
        self.0.finish()
    }
    fn write(&mut self, b: &[u8]) {
        self.0.write(b)
    }
}

fn hashers(cx: &mut Ctx) {
    if cx.rng.chance(1, 2) {
        hash_with(cx, || Fnv(17))
    } else {
        hash_with(cx, || Plain(Fnv(17)))
    }
}

fn hash_with<H: Hasher + 'static>(cx: &mut Ctx, new: fn() -> H) {
    let mut a = new();
    let mut b = LBox::new(new());
    let mut c = LBox::new(LBox::new(new()));
    let n = cx.rng.range(3, 20);
    for _ in 0..n {
        let k = cx.rng.below(18);
        let v = cx.rng.next();
        let l = cx.rng.below(9);
        cx.step(300 + k as u64, v & 15);
        macro_rules! each {
            ($h:ident, $e:expr) => {{
                { let $h = &mut a; $e; }
                { let $h = &mut b; $e; }
                { let $h = &mut c; $e; }
            }};
        }
        match k {
            0 => each!(h, v.hash(h)),
            1 => each!(h, (v as u8).hash(h)),
            2 => each!(h, h.write(&v.to_le_bytes()[..l])),
            3 => each!(h, (v, v as u16).hash(h)),
            4 => each!(h, "text".hash(h)),
            5 => each!(h, [v as u32, 5].hash(h)),
            6 => each!(h, h.write_i8(v as i8)),
            7 => each!(h, h.write_i16(v as i16)),
            8 => each!(h, h.write_i32(v as i32)),
            9 => each!(h, h.write_i64(v as i64)),
            10 => each!(h, h.write_i128(v as i128)),
            11 => each!(h, h.write_isize(v as isize)),
            12 => each!(h, h.write_u128(v as u128)),
            13 => each!(h, h.write_usize(v as usize)),
            14 => each!(h, h.write_u32(v as u32)),
            15 => each!(h, (v as u16 as u8 as char, v % 2 == 0, ()).hash(h)),
            16 => each!(h, Some(v as i32).hash(h)),
            _ => each!(h, std::vec::Vec::from([v as i16; 3]).hash(h)),
        }
        if a.finish() != b.finish() || a.finish() != c.finish() {
            report(&["C22", "C20"], format!("boxed hasher gives other hash after request {k}"));
            return;
        }
    }
}
