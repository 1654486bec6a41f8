//! Random histories of operations over the vectors, compared with the model after each step.
use crate::arena::Arena;
use crate::cont::{hash_of, Cont, Fickle, It, Key, Range};
use crate::elem::*;
use crate::run::*;
use crate::{catch, note, want};
use lokky::scope::{AllocMarker, AllocSelector, Scope};
use std::alloc::GlobalAlloc;
use std::collections::VecDeque;
use std::marker::PhantomData;
use std::ops::Bound::*;

pub struct MarkedTy;

/// Scope which has one allocator for marked requests and another one for the rest.
pub struct TScope {
    pub plain: &'static Arena,
    pub marked: &'static Arena,
}

impl Scope for TScope {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        scope_asked();
        if s.marker() == AllocMarker::new::<MarkedTy>() {
            self.marked
        } else {
            self.plain
        }
    }
}

#[derive(Clone, Copy)]
pub struct Cfg {
    /// Inject panics to closures, `Clone`, `Drop`, `PartialEq`.
    pub bombs: bool,
    /// Fail allocations.
    pub oom: bool,
    /// Mutate in inner scopes.
    pub scopes: bool,
    /// Attribution of the content errors.
    pub seq: &'static [&'static str],
    pub steps: usize,
}

struct Obj<C> {
    c: Option<C>,
    m: Vec<u32>,
    /// Arenas that may hold the block.
    mask: u32,
    /// Marker of the object, if known.
    marker: Option<AllocMarker>,
}

#[derive(Clone)]
struct Before {
    len: usize,
    cap: usize,
    ptr: usize,
    stack: bool,
    events: usize,
}

pub struct Seq<'a, C: Cont<T>, T: Elem> {
    cx: &'a mut Ctx,
    cfg: Cfg,
    pool: Vec<Obj<C>>,
    /// Arenas of the current scope: plain, marked.
    cur: Vec<(usize, usize)>,
    serial: u32,
    recent: Vec<u32>,
    held: Vec<T>,
    lossy: bool,
    /// Whether the operation may change the elements in place.
    edits: bool,
    /// Elements lost to panics and leaked iterators.
    leaked: isize,
    loose_blocks: bool,
    fails0: usize,
    leaked_blocks: Vec<isize>,
    // State of the running operation.
    op: &'static str,
    expect_panic: bool,
    may_move: bool,
    need: usize,
    partial: Option<Vec<u32>>,
    other: Option<usize>,
    shape: u64,
    next_inner: usize,
    max_len: usize,
    start: usize,
    _t: PhantomData<T>,
}

const OPS: &[(&str, u32)] = &[
    ("push", 10), ("pop", 4), ("insert", 7), ("remove", 5), ("swap_remove", 4), ("truncate", 2),
    ("clear", 1), ("resize", 3), ("resize_with", 2), ("retain", 3), ("dedup", 2), ("dedup_by", 3),
    ("dedup_by_key", 2), ("append", 3), ("extend_from_slice", 3), ("extend_iter", 3),
    ("split_off", 3), ("drain", 5), ("drain_oob", 1), ("reserve", 3), ("reserve_exact", 2),
    ("try_reserve", 2), ("try_reserve_exact", 2), ("huge", 1), ("shrink_to_fit", 2),
    ("shrink_to", 2), ("boxed", 2), ("from_array", 2), ("from_slice", 2), ("collect", 2),
    ("clone", 2), ("into_iter", 4), ("fill_spare", 1), ("leak", 1), ("dealloc_raw", 1),
    ("forget_drain", 1), ("swap", 1), ("mutate", 3), ("to_heap", 2), ("to_stack", 3),
    ("via_vec", 2), ("split_small", 1), ("with_cap", 2), ("insert_oob", 1), ("remove_oob", 1),
    ("swap_remove_oob", 1), ("new", 1), ("views", 1), ("fill_to_cap", 2), ("grow_past", 2),
    ("bytes_of_box", 1), ("drain_fickle", 1),
];

fn op_id(name: &str) -> u64 {
    OPS.iter().position(|o| o.0 == name).unwrap() as u64
}

impl<'a, C: Cont<T>, T: Elem> Seq<'a, C, T> {
    pub fn run(cx: &'a mut Ctx, cfg: Cfg) {
        let n = cx.arenas.len();
        let few = std::mem::size_of::<T>() > 512 || T::LIMIT < 1000;
        let inline = C::INLINE.unwrap_or(0);
        // The length to start with and to keep under.
        let (start, max_len) = match cfg!(miri) {
            true => (0, 8),
            false if few => (0, 20.max(inline * 2)),
            false if cx.rng.chance(1, 24) => (cx.rng.below(400), 600),
            false if cx.rng.chance(1, 500) => (cx.rng.range(1000, 6000), 9000),
            false if std::mem::size_of::<T>() <= 16 && cx.rng.chance(1, 3000) => (cx.rng.range(60_000, 80_000), 90_000),
            false if cx.rng.chance(1, 8) => (0, 90.max(inline * 2)),
            false => (0, 24.max(inline * 2)),
        };
        cx.arenas.iter().for_each(|a| a.lenient());
        let mut cfg = cfg;
        if max_len > 1000 {
            cfg.steps = cfg.steps.min(if max_len > 10_000 { 8 } else { 16 });
            cx.count("long_cases", 1);
        }
        let mut s = Seq::<C, T> {
            cfg,
            pool: Vec::new(),
            cur: vec![(0, 0)],
            serial: 0,
            recent: vec![],
            held: vec![],
            lossy: false,
            edits: false,
            leaked: 0,
            loose_blocks: false,
            fails0: 0,
            leaked_blocks: vec![0; n],
            op: "",
            expect_panic: false,
            may_move: false,
            need: 0,
            partial: None,
            other: None,
            shape: 0,
            next_inner: 3,
            max_len,
            start,
            cx,
            _t: PhantomData,
        };
        note!("-- {} N={:?} of {}", C::KIND, C::INLINE, T::NAME);
        let sg = C::INLINE.map(|n| n as u64 + 1).unwrap_or(0) << 8 | std::mem::size_of::<T>() as u64;
        s.cx.sig(sg);
        if cfg.scopes {
            let ar = s.cx.arenas.clone();
            lokky::scope::spawn(
                |_| TScope { plain: ar[1], marked: ar[2] },
                |_| {
                    s.cur.push((1, 2));
                    s.main();
                    s.cur.pop();
                    s.end_scope(1, 2);
                },
            );
        } else {
            s.main();
        }
        s.finish();
    }

    fn main(&mut self) {
        let n = 2;
        for k in 0..n {
            let o = if self.start > 0 && k == 0 {
                let v = self.vals(self.start);
                let s = self.make(&v);
                let c = C::from_slice(&s);
                self.fresh_obj(c, v)
            } else {
                let c = C::new();
                self.fresh_obj(c, vec![])
            };
            self.pool.push(o);
        }
        let steps = self.cfg.steps;
        for _ in 0..steps {
            if failed() || self.cx_tainted() || self.no_room() {
                return;
            }
            if self.cfg.scopes && self.cur.len() < 3 && self.next_inner + 1 < self.cx.arenas.len()
                && self.cx.rng.chance(1, 10)
            {
                self.nested();
                continue;
            }
            self.step();
        }
    }

    /// Blocks are never reused, so long vectors exhaust the arenas.
    fn no_room(&self) -> bool {
        self.max_len > 500 && self.cx.arenas.iter().any(|a| a.mostly_used())
    }

    /// Number below `n`; in the cases of long vectors the number is big at times.
    fn amount(&mut self, n: usize) -> usize {
        if self.max_len > 500 && self.cx.rng.chance(1, 3) {
            let f = (self.max_len / 40).min(200);
            return self.cx.rng.below(n * f);
        }
        self.cx.rng.below(n)
    }

    /// The same for what may grow by one element at a time.
    fn amount_grow(&mut self, n: usize) -> usize {
        if self.max_len > 1000 { self.cx.rng.below(n) } else { self.amount(n) }
    }

    /// After a violation of the other property the state is not reliable.
    fn cx_tainted(&self) -> bool {
        tainted()
    }

    fn nested(&mut self) {
        let (a, b) = (self.next_inner, self.next_inner + 1);
        self.next_inner += 2;
        let ar = self.cx.arenas.clone();
        let steps = self.cx.rng.range(2, 12);
        note!("{{ scope {a}/{b}");
        self.cx.count("scopes", 1);
        lokky::scope::spawn(
            |_| TScope { plain: ar[a], marked: ar[b] },
            |_| {
                self.cur.push((a, b));
                for _ in 0..steps {
                    if tainted() || self.no_room() {
                        break;
                    }
                    self.step();
                }
                self.cur.pop();
                self.end_scope(a, b);
            },
        );
        note!("}}");
    }

    /// Drop all that was made in the scope. The allocators must not be used since then.
    fn end_scope(&mut self, a: usize, b: usize) {
        if tainted() {
            return;
        }
        let bits = 1u32 << a | 1u32 << b;
        for i in 0..self.pool.len() {
            if self.pool[i].mask & bits != 0 {
                let old = self.pool[i].c.take();
                drop(old);
                // Refill with an object of the outer scope only when it gets current.
                self.pool[i].m.clear();
                self.pool[i].mask = 0;
            }
        }
        for k in [a, b] {
            let ar = self.cx.arenas[k];
            if !self.loose_blocks && ar.live_blocks() != self.leaked_blocks[k] {
                report(
                    &["C12", "C06"],
                    format!(
                        "{} blocks of the allocator of the inner scope are held by the objects of the outer scope when the scope ends",
                        ar.live_blocks() - self.leaked_blocks[k]
                    ),
                );
            }
            ar.kill();
        }
    }

    fn finish(&mut self) {
        if tainted() {
            // Destructors over the broken state are not interesting anymore.
            std::mem::forget(std::mem::take(&mut self.pool));
            std::mem::forget(std::mem::take(&mut self.held));
            return;
        }
        reg().disarm();
        self.pool.clear();
        self.held.clear();
        let own = own_tags();
        if T::TRACKED {
            want_live(own, reg().live, self.leaked);
        }
        if self.loose_blocks {
            return;
        }
        for (k, a) in self.cx.arenas.iter().enumerate() {
            if a.live_blocks() != self.leaked_blocks[k] {
                let mut t = vec!["C06"];
                if self.cfg.oom {
                    t.push("C07");
                }
                report(
                    &t,
                    format!(
                        "{} blocks remain allocated (expected {}) after all the owners are gone: sizes {:?}",
                        a.live_blocks(), self.leaked_blocks[k], a.leaks()
                    ),
                );
            }
        }
    }

    fn new_mask(&self) -> u32 {
        1 << self.cur.last().unwrap().0
    }

    fn fresh_obj(&mut self, c: C, m: Vec<u32>) -> Obj<C> {
        let marker = c.marker_();
        Obj { c: Some(c), m, mask: self.new_mask(), marker }
    }

    /// Arenas where `clone` or `split_off` of the object may allocate.
    fn derived_mask(&self, i: usize) -> u32 {
        let (a, b) = *self.cur.last().unwrap();
        self.pool[i].mask | 1 << a | 1 << b
    }

    fn val(&mut self) -> u32 {
        if T::ZST {
            return 0;
        }
        if !self.recent.is_empty() && self.cx.rng.chance(2, 5) {
            let k = self.recent.len();
            let w = k.min(3);
            return self.recent[k - 1 - self.cx.rng.below(w)];
        }
        self.serial += 1;
        self.recent.push(self.serial);
        self.serial
    }

    fn vals(&mut self, n: usize) -> Vec<u32> {
        (0..n).map(|_| self.val()).collect()
    }

    fn make(&self, v: &[u32]) -> Vec<T> {
        v.iter().map(|&v| T::make(v)).collect()
    }

    fn events(&self) -> usize {
        self.cx.arenas.iter().map(|a| a.events()).sum()
    }

    fn failures(&self) -> usize {
        self.cx.arenas.iter().map(|a| a.n_failed.load(std::sync::atomic::Ordering::Relaxed)).sum()
    }

    fn c(&mut self, i: usize) -> &mut C {
        self.pool[i].c.as_mut().unwrap()
    }

    fn before(&mut self, i: usize) -> Before {
        let events = self.events();
        let c = self.c(i);
        Before { len: c.len_(), cap: c.cap(), ptr: c.ptr() as usize, stack: c.place().1, events }
    }

    /// Replace the object. The old one is dropped.
    fn put(&mut self, i: usize, c: C, m: Vec<u32>, mask: u32) {
        self.pool[i].marker = c.marker_();
        let old = self.pool[i].c.replace(c);
        self.pool[i].m = m;
        self.pool[i].mask = mask;
        drop(old);
    }

    fn small(&mut self) -> usize {
        self.amount(5)
    }

    fn step(&mut self) {
        let i = self.cx.rng.below(self.pool.len());
        for k in 0..self.pool.len() {
            if self.pool[k].c.is_none() {
                let c = C::new();
                self.pool[k].c = Some(c);
                self.pool[k].m.clear();
                self.pool[k].marker = Some(AllocMarker::None);
                self.pool[k].mask = self.new_mask();
            }
        }
        let total: u32 = OPS.iter().map(|o| o.1).sum();
        let mut x = self.cx.rng.below(total as usize) as u32;
        let mut op = OPS[0].0;
        for o in OPS {
            if x < o.1 {
                op = o.0;
                break;
            }
            x -= o.1;
        }
        // Keep within the bounds.
        if self.pool[i].m.len() > self.max_len {
            op = *self.cx.rng.pick(&["truncate", "drain", "retain", "split_off", "clear"]);
        }
        self.op = op;
        self.expect_panic = false;
        self.may_move = false;
        self.need = 0;
        self.partial = None;
        self.other = None;
        self.shape = 0;
        self.lossy = false;
        self.edits = false;
        let b = self.before(i);
        let before_all: Vec<Vec<u32>> = self.pool.iter().map(|o| o.m.clone()).collect();
        let mut armed = false;
        reg().bombs_hit = 0;
        let fails0 = self.failures();
        self.fails0 = fails0;
        if self.cfg.bombs && self.cx.rng.chance(1, 2) {
            armed = true;
            let n = if self.cx.rng.chance(1, 4) { self.cx.rng.below(b.len + 6) } else { self.cx.rng.below(6) } as isize;
            match self.cx.rng.below(7) {
                0 | 1 => reg().clone_bomb = n,
                2 | 3 => reg().drop_bomb = n,
                4 => reg().scope_bomb = n.min(2),
                _ => reg().eq_bomb = n,
            }
        }
        if self.cfg.oom && self.cx.rng.chance(1, 2) {
            armed = true;
            let n = self.cx.rng.below(2);
            for a in &self.cx.arenas {
                a.fail_after(n);
            }
        }
        note!("{op} on {i}: len {} cap {} {} armed {armed}", b.len, b.cap, if b.stack { "inline" } else { "heap" });
        let r = catch(|| self.exec(i, op));
        for a in &self.cx.arenas {
            a.fail_off();
        }
        let hit = reg().bombs_hit > 0;
        reg().disarm();
        let oom = self.failures() > fails0;
        let shape = self.shape;
        self.cx.step(
            op_id(op),
            shape << 20 | (b.len as u64) << 12 | (b.stack as u64) << 3 | (hit as u64) << 2 | (oom as u64) << 1
                | r.is_err() as u64,
        );
        if hit {
            self.cx.count("injected_panics", 1);
        }
        if oom {
            self.cx.count("failed_allocations", 1);
        }
        if self.cur.len() > 1 {
            self.cx.count("steps_in_inner_scope", 1);
        }
        let ok = r.is_ok();
        match r {
            Ok(()) if self.expect_panic => report(
                &self.tags(),
                format!("{op} out of bounds did not panic"),
            ),
            Ok(()) => {}
            Err(m) if m.contains("HARNESS") => panic!("{m}"),
            Err(m) => {
                let user = m == BOMB;
                if !(self.expect_panic || user || oom) {
                    report(&self.tags(), format!("{op} panicked: {m}"));
                }
                self.cx.count("panics_survived", 1);
                self.resync(i, &before_all, user || hit, oom);
            }
        }
        if tainted() {
            return;
        }
        if T::TRACKED && (self.lossy || hit) {
            // What is lost must be only leaked.
            let live = reg().live;
            let sum = self.owned();
            if live - sum < self.leaked {
                report(own_tags(), format!("{op}: {} owned elements are dropped", self.leaked - (live - sum)));
            }
            self.leaked = live - sum;
        }
        self.check_all();
        if ok && self.pool[i].c.is_some() {
            self.check_capacity(i, &b);
        }
    }

    /// The operation did not complete. What remains must be valid.
    fn resync(&mut self, _i: usize, old: &[Vec<u32>], user: bool, oom: bool) {
        if user {
            // Leaks are allowed when user code panics.
            self.lossy = true;
            self.loose_blocks = true;
        }
        self.held.iter().for_each(|e| {
            e.val();
        });
        for k in 0..self.pool.len() {
            if self.pool[k].c.is_none() {
                self.pool[k].m.clear();
                continue;
            }
            let got: Vec<u32> = self.pool[k].c.as_ref().unwrap().sl().iter().map(|e| e.val()).collect();
            if !user {
                let touched = self.partial.is_some();
                let prefix_ok = match &self.partial {
                    Some(p) => got.len() >= old[k].len() && p.len() >= got.len() && p[..got.len()] == got[..],
                    None => false,
                };
                if got != old[k] && !(touched && prefix_ok) {
                    let tags = if oom { vec!["C07"] } else { self.tags() };
                    report(
                        &tags,
                        format!(
                            "failed {} changed the content from {:?} to {:?}",
                            self.op, old[k], got
                        ),
                    );
                }
            } else {
                let n = self.max_len * 6 + 64;
                want!(["C05"], got.len() <= n, "length {} after the panic", got.len());
                // Operations which only remove elements leave some of the old ones.
                let removes = matches!(
                    self.op,
                    "retain" | "dedup" | "dedup_by" | "dedup_by_key" | "drain" | "truncate" | "clear" | "remove"
                        | "swap_remove" | "pop" | "into_iter"
                );
                if removes && !self.edits {
                    let mut left = old[k].clone();
                    left.sort_unstable();
                    let mut now = got.clone();
                    now.sort_unstable();
                    let mut left = left.into_iter();
                    if !now.iter().all(|v| left.any(|x| x == *v)) {
                        report(
                            &["C05"],
                            format!("content is {got:?} after the panic in {}, it was {:?}", self.op, old[k]),
                        );
                    }
                }
            }
            self.pool[k].m = got;
        }
    }

    /// Properties that a wrong outcome of the running operation refutes.
    fn tags(&self) -> Vec<&'static str> {
        let mut t = self.cfg.seq.to_vec();
        t.extend_from_slice(match self.op {
            "reserve" | "reserve_exact" | "try_reserve" | "try_reserve_exact" | "huge" | "with_cap" | "fill_to_cap"
            | "grow_past" => &["C08"],
            "shrink_to_fit" | "shrink_to" => &["C08", "C09"],
            "to_heap" | "to_stack" | "split_small" | "via_vec" => &["C09"],
            "drain" | "drain_oob" | "drain_fickle" | "into_iter" | "forget_drain" => &["C21"],
            "views" => &["C20"],
            _ => &[],
        });
        t
    }

    fn check_all(&mut self) {
        self.check_content();
        // Conservation does not depend on the content.
        let seen: isize = self.pool.iter().filter_map(|o| o.c.as_ref()).map(|c| c.len_() as isize).sum();
        let sum = self.held.len() as isize + seen + self.leaked;
        let own = own_tags();
        let mut tags: Vec<&str> = own.to_vec();
        tags.extend(self.tags());
        if self.cfg.oom && !tags.contains(&"C07") {
            tags.push("C07");
        }
        let live = reg().live;
        if !T::TRACKED {
            return;
        }
        if live > sum {
            report(&tags, format!("{}: {} elements are leaked", self.op, live - sum));
        }
        if live < sum {
            report(&tags, format!("{}: {} owned elements are dropped", self.op, sum - live));
        }
    }

    fn check_content(&mut self) {
        let tags = self.tags();
        let seq = &tags[..];
        for e in &self.held {
            e.val();
        }
        for k in 0..self.pool.len() {
            let o = &self.pool[k];
            let Some(c) = &o.c else { continue };
            let len = c.len_();
            if len != o.m.len() {
                report(seq, format!("{}: length is {len}, expected {}", self.op, o.m.len()));
                return;
            }
            let sl = c.sl();
            if sl.len() != len || c.deref_().len() != len || c.deref_().as_ptr() != sl.as_ptr()
                || (c.ptr() != sl.as_ptr() && len > 0)
            {
                report(seq, format!("{}: views of the content disagree", self.op));
                return;
            }
            if c.empty() != (len == 0) {
                report(seq, format!("is_empty() is {} with {len} elements", c.empty()));
            }
            let got: Vec<u32> = sl.iter().map(|e| e.val()).collect();
            if got != o.m {
                report(seq, format!("{}: content is {:?}, expected {:?}", self.op, got, o.m));
                return;
            }
            if tainted() {
                return;
            }
            if let (Some(k), Some(e)) = (c.marker_(), o.marker) {
                want!(["C12", "C11"], k == e, "{}: marker of the vector is {k:?}, it was made with {e:?}", self.op);
            }
            let cap = c.cap();
            want!(["C08"], cap >= len, "capacity {cap} with {len} elements");
            want!(["C08"], c.full() == (cap == len), "is_full() is {} with {len} of {cap}", c.full());
            want!(["C08"], c.spare() == cap - len, "spare_len() is {} with {len} of {cap}", c.spare());
            let (heap, stack) = c.place();
            want!(["C09"], heap != stack, "is_heap() and is_stack() are both {heap}");
            if let (true, Some(n)) = (stack, C::INLINE) {
                want!(["C09", "C08"], cap == n, "inline capacity is {cap}, declared {n}");
                let a = c as *const C as usize;
                let p = c.ptr() as usize;
                if !T::ZST && n > 0 {
                    want!(
                        ["C09"],
                        p >= a && p + n * std::mem::size_of::<T>() <= a + std::mem::size_of::<C>(),
                        "inline elements are not inside of the vector"
                    );
                }
            } else if !T::ZST && cap > 0 {
                if let Some(nn) = C::INLINE {
                    let _ = nn;
                }
                let bytes = cap * std::mem::size_of::<T>();
                let p = c.ptr() as *const u8;
                let home = self.cx.arenas.iter().position(|a| {
                    a.block_size(p).is_some_and(|s| s >= bytes) || a.owns(p, bytes)
                });
                match home {
                    None => report(
                        &["C08", "C06", if C::INLINE.is_some() { "C09" } else { "C08" }],
                        format!("{}: capacity {cap} is not backed by a live block of any allocator", self.op),
                    ),
                    Some(h) if o.mask & 1 << h == 0 => report(
                        &["C12"],
                        format!(
                            "{}: elements are stored in the allocator {h}, the object belongs to allocators {:b} (bits)",
                            self.op, o.mask
                        ),
                    ),
                    Some(h) => {
                        self.pool[k].mask = 1 << h;
                        if self.cur.len() > 1 && self.cur.last().unwrap().0 != h {
                            self.cx.count("outer_object_checks", 1);
                        }
                    }
                }
            }
        }
    }

    /// Number of elements held by the pool and the harness.
    fn owned(&self) -> isize {
        self.held.len() as isize
            + self.pool.iter().filter(|o| o.c.is_some()).map(|o| o.m.len() as isize).sum::<isize>()
    }

    /// Requests which fit must not touch the allocator.
    fn check_capacity(&mut self, i: usize, b: &Before) {
        if self.may_move {
            return;
        }
        let events = self.events();
        let need = self.need;
        let op = self.op;
        let c = self.c(i);
        let (stack, cap, ptr) = (c.place().1, c.cap(), c.ptr() as usize);
        if need <= b.cap {
            want!(
                ["C08", if b.stack { "C09" } else { "C08" }],
                events == b.events && cap == b.cap && ptr == b.ptr,
                "{op} of total {need} elements within the capacity {} used the allocator or moved the elements",
                b.cap
            );
        }
        if b.stack && need <= C::INLINE.unwrap_or(0) {
            want!(["C09"], stack, "{op} with {need} elements moved the inline vector to the heap");
        }
    }

    fn new_inline(&self, c: &C, n: usize, what: &str) {
        if let Some(cap) = C::INLINE {
            if n <= cap {
                want!(["C09"], c.place().1, "{what} of {n} elements is not stored inline (capacity {cap})");
            }
        }
    }

    fn script(cx: &mut Ctx, it: &mut dyn It<T>, exp: &[u32], held: &mut Vec<T>, seq: &[&str], full: bool) {
        let mut q: VecDeque<u32> = exp.iter().copied().collect();
        let mut tags = vec!["C21"];
        tags.extend_from_slice(seq);
        let steps = if full { exp.len() + 3 } else { cx.rng.below(exp.len() + 3) };
        let bias = cx.rng.below(5);
        for _ in 0..steps {
            if tainted() {
                return;
            }
            if it.ln() != q.len() || it.hint() != (q.len(), Some(q.len())) {
                report(&tags, format!("iterator with {} elements left reports {:?}", q.len(), it.hint()));
                return;
            }
            if cx.rng.chance(1, 3 + q.len() / 16) {
                let s: Vec<u32> = it.sl().iter().map(|e| e.val()).collect();
                if s != q.iter().copied().collect::<Vec<_>>() {
                    report(&tags, format!("iterator shows {:?}, {:?} are left", s, q));
                    return;
                }
            }
            let (got, exp) = match cx.rng.below(9) {
                8 => {
                    let n = if cx.rng.chance(1, 8) { cx.rng.below(q.len() + 2) } else { cx.rng.below(3) };
                    let e = if n < q.len() {
                        q.drain(..n);
                        q.pop_front()
                    } else {
                        q.clear();
                        None
                    };
                    (it.nth_(n), e)
                }
                7 => {
                    let n = if cx.rng.chance(1, 8) { cx.rng.below(q.len() + 2) } else { cx.rng.below(2) };
                    let e = if n < q.len() {
                        q.truncate(q.len() - n);
                        q.pop_back()
                    } else {
                        q.clear();
                        None
                    };
                    (it.nth_back_(n), e)
                }
                k if k >= bias => (it.nx(), q.pop_front()),
                _ => (it.nb(), q.pop_back()),
            };
            let gv = got.as_ref().map(|e| e.val());
            if gv != exp {
                report(&tags, format!("iterator yields {gv:?}, expected {exp:?}"));
                if let Some(g) = got {
                    std::mem::forget(g);
                }
                return;
            }
            if let Some(e) = got {
                if cx.rng.chance(1, 3) && held.len() < 12 {
                    held.push(e);
                }
            }
        }
    }

    fn range(&mut self, len: usize) -> (usize, usize, Range) {
        let a = self.cx.rng.below(len + 1);
        let b = a + self.cx.rng.below(len - a + 1);
        let lo = match self.cx.rng.below(3) {
            0 if a == 0 => Unbounded,
            1 if a > 0 => Excluded(a - 1),
            _ => Included(a),
        };
        let hi = match self.cx.rng.below(3) {
            0 if b == len => Unbounded,
            1 if b > 0 => Included(b - 1),
            _ => Excluded(b),
        };
        (a, b, (lo, hi))
    }

    fn exec(&mut self, i: usize, op: &'static str) {
        let m = self.pool[i].m.clone();
        let len = m.len();
        let seq = self.cfg.seq;
        let cap = self.c(i).cap();
        match op {
            "push" => {
                let v = self.val();
                self.need = len + 1;
                let e = T::make(v);
                self.c(i).push(e);
                self.pool[i].m.push(v);
            }
            "fill_to_cap" => {
                // Fill so that the next operation works at the boundary.
                let room = cap.saturating_sub(len).min(16.max(self.max_len / 8));
                if len + room > self.max_len + 8 {
                    return;
                }
                self.need = len + room;
                for _ in 0..room {
                    let v = self.val();
                    let e = T::make(v);
                    self.c(i).push(e);
                    self.pool[i].m.push(v);
                }
            }
            "grow_past" => {
                // Grow just over the current capacity.
                if cap > self.max_len || len > self.max_len {
                    return;
                }
                let n = (cap - len) + 1;
                let v = self.vals(n);
                self.need = len + n;
                let mut full = m.clone();
                full.extend(&v);
                self.partial = Some(full.clone());
                let s = self.make(&v);
                self.c(i).extend_slice(&s);
                self.pool[i].m = full;
            }
            "pop" => {
                let r = self.c(i).pop();
                let e = self.pool[i].m.pop();
                let got = r.as_ref().map(|e| e.val());
                if got != e {
                    report(seq, format!("pop gives {got:?}, expected {e:?}"));
                }
                self.hold(r);
            }
            "insert" | "insert_oob" => {
                let at = if op == "insert" {
                    self.cx.rng.below(len + 1)
                } else {
                    self.expect_panic = true;
                    len + 1 + self.small()
                };
                let v = self.val();
                self.need = len + 1;
                self.shape = at as u64;
                if self.expect_panic {
                    self.may_move = true;
                }
                let e = T::make(v);
                self.c(i).insert(at, e);
                self.pool[i].m.insert(at, v);
            }
            "remove" | "swap_remove" | "remove_oob" | "swap_remove_oob" => {
                let oob = op.ends_with("oob");
                if len == 0 && !oob {
                    return;
                }
                let at = if oob {
                    self.expect_panic = true;
                    len + self.small()
                } else {
                    self.cx.rng.below(len)
                };
                self.shape = at as u64;
                let (r, e) = if op.starts_with("swap") {
                    let r = self.c(i).swap_remove(at);
                    if oob {
                        std::mem::forget(r);
                        return;
                    }
                    (r, self.pool[i].m.swap_remove(at))
                } else {
                    let r = self.c(i).remove(at);
                    if oob {
                        std::mem::forget(r);
                        return;
                    }
                    (r, self.pool[i].m.remove(at))
                };
                if r.val() != e {
                    report(seq, format!("{op} gives {}, expected {e}", r.val()));
                }
                self.hold(Some(r));
            }
            "truncate" => {
                let n = self.cx.rng.below(len + 4);
                self.shape = n as u64;
                self.c(i).truncate(n);
                self.pool[i].m.truncate(n);
            }
            "clear" => {
                self.c(i).clear();
                self.pool[i].m.clear();
            }
            "resize" | "resize_with" => {
                let n = if self.cx.rng.chance(1, 3) {
                    self.cx.rng.below(len + 1)
                } else {
                    len + self.amount_grow(8)
                };
                self.need = n;
                self.shape = n as u64;
                let mut full = m.clone();
                if op == "resize" {
                    let v = self.val();
                    full.resize(n, v);
                    self.partial = Some(full.clone());
                    let e = T::make(v);
                    self.c(i).resize(n, e);
                } else {
                    let v = self.vals(n.saturating_sub(len));
                    full.truncate(n);
                    full.extend(&v);
                    self.partial = Some(full.clone());
                    let mut k = 0;
                    let die = self.die(v.len());
                    self.c(i).resize_with(n, &mut || {
                        if Some(k) == die {
                            reg().bombs_hit += 1;
                            panic!("{}", BOMB);
                        }
                        k += 1;
                        T::make(v[k - 1])
                    });
                    if k != v.len() {
                        report(seq, format!("resize_with made {k} elements instead of {}", v.len()));
                    }
                }
                self.pool[i].m = full;
            }
            "retain" => {
                let bits = self.cx.rng.next();
                let kind = self.cx.rng.below(4);
                let keep = move |k: usize| match kind {
                    0 => k > 0,
                    1 => bits & 3 != 0 && bits >> (k % 60) & 3 != 0,
                    2 => bits >> (k % 64) & 1 == 1,
                    _ => k % 3 == (bits % 3) as usize,
                };
                let die = self.die(len);
                let mut seen = Vec::new();
                self.c(i).retain(&mut |e| {
                    let k = seen.len();
                    if Some(k) == die {
                        reg().bombs_hit += 1;
                        panic!("{}", BOMB);
                    }
                    seen.push(e.val());
                    keep(k)
                });
                if seen != m {
                    report(seq, format!("retain visited {seen:?} of {m:?}"));
                }
                let mut k = 0;
                self.pool[i].m.retain(|_| {
                    k += 1;
                    keep(k - 1)
                });
                self.shape = bits & 0xFFF;
            }
            "dedup" => {
                self.c(i).dedup();
                self.pool[i].m.dedup();
            }
            "dedup_by" => {
                let d = self.cx.rng.range(1, 3) as u32;
                let kind = self.cx.rng.below(3);
                let same = move |cur: u32, kept: u32| match kind {
                    0 => cur.abs_diff(kept) < d,
                    1 => cur % (d + 1) == kept % (d + 1),
                    // Not symmetric: the second one is the retained element.
                    _ => cur <= kept,
                };
                let die = self.die(len);
                let mut k = 0;
                let mut bad = None;
                let mut model = m.clone();
                let mut calls = Vec::new();
                // The closure may change both elements.
                let merge = !T::ZST && self.cx.rng.chance(1, 3);
                self.edits = merge;
                let mix = move |cur: u32, kept: u32, s: bool| {
                    if s { (cur, kept ^ 1) } else { (cur ^ 2, kept.wrapping_add(4) & 63) }
                };
                model.dedup_by(|a, b| {
                    calls.push((*a, *b));
                    let s = same(*a, *b);
                    if merge {
                        (*a, *b) = mix(*a, *b, s);
                    }
                    s
                });
                self.c(i).dedup_by(&mut |a, b| {
                    if Some(k) == die {
                        reg().bombs_hit += 1;
                        panic!("{}", BOMB);
                    }
                    let (x, y) = (a.val(), b.val());
                    if calls.get(k) != Some(&(x, y)) {
                        bad.get_or_insert((k, x, y));
                    }
                    k += 1;
                    let s = same(x, y);
                    if merge {
                        let (x, y) = mix(x, y, s);
                        a.set(x);
                        b.set(y);
                    }
                    s
                });
                if let Some((k, x, y)) = bad {
                    report(seq, format!("dedup_by call {k} compares {x} to retained {y}, expected {:?}", calls.get(k)));
                }
                self.pool[i].m = model;
                self.shape = (kind * 4) as u64 + d as u64;
            }
            "dedup_by_key" => {
                let d = self.cx.rng.range(1, 4) as u32;
                let near = if self.cx.rng.chance(1, 3) { self.cx.rng.range(1, 3) as u32 } else { 0 };
                // The key may change the element it is asked for, as it is given by the mutable
                // reference. The only element may be not asked for: nothing is near it.
                let shift = !T::ZST && len > 1 && self.cx.rng.chance(1, 5);
                self.edits = shift;
                let die = self.die(len);
                let mut k = 0;
                self.c(i).dedup_by_key(&mut |e| {
                    if Some(k) == die {
                        reg().bombs_hit += 1;
                        panic!("{}", BOMB);
                    }
                    k += 1;
                    let v = e.val();
                    if shift {
                        e.set(v | 1);
                    }
                    Key((v | shift as u32) / d, near)
                });
                self.pool[i].m.dedup_by_key(|e| {
                    *e |= shift as u32;
                    Key(*e / d, near)
                });
                self.shape = (near * 4 + d) as u64;
            }
            "append" => {
                if self.pool.len() < 2 {
                    return;
                }
                let j = (i + 1) % self.pool.len();
                let n = self.pool[j].m.len();
                if len + n > self.max_len + 16 {
                    return;
                }
                self.need = len + n;
                self.other = Some(j);
                let mut src = self.pool[j].c.take().unwrap();
                let src_cap = src.cap();
                let c = self.pool[i].c.as_mut().unwrap();
                let r = catch(|| c.append(&mut src));
                let left: usize = src.len_();
                let cap_now = src.cap();
                self.pool[j].c = Some(src);
                if let Err(e) = r {
                    panic!("{e}");
                }
                want!(["C08"], cap_now == src_cap, "append changed capacity of the source from {src_cap} to {cap_now}");
                if left != 0 {
                    report(seq, format!("append left {left} elements in the source"));
                }
                let v = std::mem::take(&mut self.pool[j].m);
                self.shape = v.len() as u64;
                self.pool[i].m.extend(v);
            }
            "extend_from_slice" => {
                let n = self.amount(7);
                let v = self.vals(n);
                self.need = len + n;
                self.shape = n as u64;
                let mut full = m.clone();
                full.extend(&v);
                self.partial = Some(full.clone());
                let s = self.make(&v);
                self.c(i).extend_slice(&s);
                for (e, v) in s.iter().zip(&v) {
                    if e.val() != *v {
                        report(seq, "extend_from_slice changed the source".into());
                    }
                }
                self.pool[i].m = full;
            }
            "extend_iter" => {
                let n = self.amount_grow(7);
                let v = self.vals(n);
                self.need = len + n;
                self.shape = n as u64;
                let mut full = m.clone();
                full.extend(&v);
                self.partial = Some(full.clone());
                let hint = match self.cx.rng.below(3) {
                    0 => 0,
                    1 => n,
                    _ => self.cx.rng.below(n + 1),
                };
                let die = self.die(n);
                let upper = self.upper(n);
                let lie = self.lie(n);
                if let Some((l, _)) = lie {
                    self.need = len + n.max(l);
                }
                let mut it = Hinted { v: v.iter(), hint, upper, lie, k: 0, die, end: false, _t: PhantomData::<T> };
                self.c(i).extend_iter(&mut it);
                self.pool[i].m = full;
            }
            "split_off" => {
                let at = self.cx.rng.below(len + 1);
                self.shape = at as u64;
                let mask = self.derived_mask(i);
                let tail = self.c(i).split_off(at);
                self.new_inline(&tail, len - at, "split_off");
                let tm = self.pool[i].m.split_off(at);
                let j = (i + 1) % self.pool.len();
                self.put_or_check(j, i, tail, tm, mask);
            }
            "split_small" => {
                if C::INLINE.is_none() {
                    return;
                }
                let at = self.cx.rng.below(len + 1);
                self.shape = at as u64;
                self.may_move = true;
                // Helper reads all the elements out.
                if let Some(v) = self.c(i).split_off_small(at) {
                    let tm = self.pool[i].m.split_off(at);
                    let got: Vec<u32> = v.iter().map(|e| e.val()).collect();
                    if got != tm {
                        report(seq, format!("split_off_into gives {got:?}, expected {tm:?}"));
                    }
                }
            }
            "drain" | "forget_drain" => {
                let (a, b, r) = self.range(len);
                self.shape = (a * 64 + b) as u64;
                let forget = op == "forget_drain";
                let mut c = self.pool[i].c.take().unwrap();
                let exp = m[a..b].to_vec();
                let cx = &mut *self.cx;
                let held = &mut self.held;
                let res = catch(|| {
                    c.drain(r, &mut |d| Self::script(cx, d, &exp, held, seq, false), forget)
                });
                self.pool[i].c = Some(c);
                if let Err(e) = res {
                    panic!("{e}");
                }
                if forget {
                    // Elements may be lost, but those which are present must be valid.
                    self.lossy = true;
                    let got: Vec<u32> = self.pool[i].c.as_ref().unwrap().sl().iter().map(|e| e.val()).collect();
                    if !is_subsequence(&got, &m) {
                        report(&["C21", "C04"], format!("leaked drain leaves {got:?} of {m:?}"));
                    }
                    self.pool[i].m = got;
                } else {
                    self.pool[i].m.drain(a..b);
                }
            }
            "drain_fickle" => {
                // The bounds change while they are looked at.
                let mut one = || {
                    let (_, _, mut r) = self.range(len);
                    match self.cx.rng.below(8) {
                        0 => r.1 = Excluded(len + 1 + self.cx.rng.below(40)),
                        1 => r.1 = Included(usize::MAX - self.cx.rng.below(2)),
                        2 => r.0 = Included(len + 1 + self.cx.rng.below(40)),
                        _ => (),
                    }
                    r
                };
                let ranges = [one(), one(), one()];
                let die = self.die(2);
                self.lossy = true;
                let r = Fickle { ranges, asked: Default::default(), die };
                let n = self.cx.rng.below(len + 2);
                let mut got = vec![];
                let back = self.cx.rng.chance(1, 2);
                let mut c = self.pool[i].c.take().unwrap();
                let res = catch(|| {
                    c.drain_fickle(r, &mut |d| {
                        for _ in 0..n {
                            if let Some(e) = if back { d.nb() } else { d.nx() } {
                                got.push(e);
                            }
                        }
                    })
                });
                let panicked = res.is_err();
                self.pool[i].c = Some(c);
                if tainted() {
                    return;
                }
                let left: Vec<u32> = self.c(i).sl().iter().map(|e| e.val()).collect();
                let mut out: Vec<u32> = got.iter().map(|e| e.val()).collect();
                if back {
                    out.reverse();
                }
                if !is_subsequence(&left, &m) || !is_subsequence(&out, &m) || left.len() + out.len() > len {
                    let tags = self.tags();
                    report(&tags, format!("drain of a changing range gives {out:?} and leaves {left:?} of {m:?}"));
                }
                self.cx.count(if panicked { "changing_ranges_refused" } else { "changing_ranges_taken" }, 1);
                self.pool[i].m = left;
            }
            "drain_oob" => {
                self.expect_panic = true;
                let r: Range = match self.cx.rng.below(6) {
                    0 => (Included(0), Excluded(len + 1 + self.small())),
                    1 => (Included(len + 1), Unbounded),
                    2 => (Included(0), Included(usize::MAX)),
                    3 => (Excluded(usize::MAX), Unbounded),
                    4 => (Included(0), Included(len)),
                    _ => {
                        if len == 0 {
                            (Included(1), Included(1))
                        } else {
                            (Included(len), Excluded(len - 1))
                        }
                    }
                };
                self.c(i).drain(r, &mut |_| {}, true);
            }
            "reserve" | "reserve_exact" | "try_reserve" | "try_reserve_exact" => {
                let n = match self.cx.rng.below(4) {
                    0 => 0,
                    1 => (cap - len).min(64),
                    2 => (cap - len).min(64) + 1,
                    _ => self.amount(24),
                };
                self.need = len + n;
                self.shape = n as u64;
                let c = self.c(i);
                match op {
                    "reserve" => c.reserve(n),
                    "reserve_exact" => c.reserve_exact(n),
                    _ => {
                        let r = if op == "try_reserve" { c.try_reserve(n) } else { c.try_reserve_exact(n) };
                        self.settle_try(i, r, len + n, cap);
                        return;
                    }
                }
                let cap = self.c(i).cap();
                want!(["C08"], cap >= len + n, "{op}({n}) with {len} elements leaves capacity {cap}");
            }
            "huge" => {
                // Must be refused without changes.
                let sz = std::mem::size_of::<T>().max(1);
                let n = match self.cx.rng.below(7) {
                    0 => usize::MAX,
                    1 => usize::MAX - len,
                    2 => isize::MAX as usize,
                    3 => isize::MAX as usize / sz + 1,
                    4 => usize::MAX / sz - len,
                    5 => (usize::MAX / sz).wrapping_add(1),
                    _ => (1 << 23) / sz + 1,
                };
                let which = self.cx.rng.below(5);
                self.shape = which as u64;
                self.may_move = true;
                if T::ZST {
                    if len == 0 {
                        return;
                    }
                    // Not so many even if they need no memory.
                    let n = usize::MAX - self.cx.rng.below(len);
                    let (e0, s0) = (cap, self.c(i).place().1);
                    let r = match which {
                        0 => self.c(i).try_reserve(n),
                        1 => self.c(i).try_reserve_exact(n),
                        2 if !s0 => return,
                        2 => self.c(i).try_to_heap(n),
                        3 => catch(|| self.c(i).reserve(n)).map_err(|_| ()),
                        _ => catch(|| self.c(i).reserve_exact(n)).map_err(|_| ()),
                    };
                    want!(["C08", "C07"], r.is_err(), "request for {n} more of {len} zero-sized elements succeeded (kind {which})");
                    let c = self.c(i);
                    want!(["C08", "C07"], c.cap() == e0 && c.place().1 == s0, "refused request for {n} elements changed the vector");
                    return;
                }
                if n < 1 << 12 {
                    return;
                }
                let e0 = self.c(i).cap();
                let p0 = self.c(i).ptr();
                let r = match which {
                    0 => self.c(i).try_reserve(n),
                    1 => self.c(i).try_reserve_exact(n),
                    2 => C::try_with_cap(n).map(|c| std::mem::forget(c)),
                    3 => C::try_with_cap_marker(n, AllocMarker::new::<MarkedTy>()).map(|c| std::mem::forget(c)),
                    _ => self.c(i).try_to_heap(n),
                };
                want!(["C08", "C07"], r.is_err(), "request for {n} elements succeeded (kind {which})");
                let c = self.c(i);
                want!(["C08", "C07"], c.cap() == e0 && c.ptr() == p0, "refused request for {n} elements changed the vector");
            }
            "shrink_to_fit" | "shrink_to" => {
                self.may_move = true;
                let top = if self.cx.rng.chance(1, 2) { 40 } else { 100_000 };
                let n = self.cx.rng.below(cap.min(top) + 3);
                let exp = if op == "shrink_to" {
                    self.shape = n as u64;
                    self.c(i).shrink_to(n);
                    cap.min(len.max(n))
                } else {
                    self.c(i).shrink_to_fit();
                    len
                };
                let c = self.c(i);
                let now = c.cap();
                let inline = c.place().1 || T::ZST;
                want!(
                    ["C08"],
                    (inline && now >= len) || (now >= exp && now <= cap),
                    "{op}({n}) with {len} of {cap} leaves capacity {now}"
                );
                // The block follows the capacity: documented by the tests of the library.
                want!(["C08"], inline || now == exp, "{op}({n}) with {len} of {cap} leaves capacity {now}, expected {exp}");
            }
            "boxed" | "bytes_of_box" => {
                self.may_move = true;
                let mask = self.pool[i].mask;
                let c = self.pool[i].c.take().unwrap();
                let stack = c.place().1;
                self.pool[i].m.clear();
                let mut b = c.into_boxed();
                let got: Vec<u32> = b.iter().map(|e| e.val()).collect();
                if got != m {
                    report(seq, format!("into_boxed_slice gives {got:?}, expected {m:?}"));
                    std::mem::forget(b);
                    return;
                }
                if !T::ZST && len > 0 {
                    let p = b.as_ptr() as *const u8;
                    let bytes = len * std::mem::size_of::<T>();
                    let home = self.cx.arenas.iter().position(|a| a.owns(p, bytes));
                    match home {
                        Some(h) if mask & 1 << h == 0 => report(
                            &["C12"],
                            format!("into_boxed_slice moved elements to the allocator {h} (own {mask:b})"),
                        ),
                        None => report(&["C06"], "boxed slice is not in a live block".into()),
                        _ => {}
                    }
                }
                let _ = stack;
                if op == "boxed" {
                    let mut nm = m.clone();
                    if let Some(x) = b.first_mut() {
                        let v = self.val();
                        x.set(v);
                        nm[0] = v;
                    }
                    let c = C::from_boxed(b);
                    let mk = self.pool[i].marker;
                    self.put(i, c, nm, mask);
                    self.pool[i].marker = mk;
                } else {
                    drop(b);
                    let c = C::new();
                    let mask = self.new_mask();
                    self.put(i, c, vec![], mask);
                }
            }
            "from_array" => {
                self.may_move = true;
                let l = *self.cx.rng.pick(&[0usize, 1, 2, 3, 4, 5, 8, 9]);
                let v = self.vals(l);
                self.shape = l as u64;
                macro_rules! arr {
                    ($($n:literal)*) => {
                        match l { $($n => {
                            let mut it = v.iter();
                            let a: [T; $n] = std::array::from_fn(|_| T::make(*it.next().unwrap()));
                            C::from_array(a)
                        })* _ => unreachable!() }
                    };
                }
                let c = arr!(0 1 2 3 4 5 8 9);
                self.new_inline(&c, l, "array");
                let mask = self.new_mask();
                self.put(i, c, v, mask);
            }
            "from_slice" => {
                self.may_move = true;
                let l = self.amount(10);
                let v = self.vals(l);
                self.shape = l as u64;
                let mut s = self.make(&v);
                let c = if self.cx.rng.chance(1, 2) { C::from_slice(&s) } else { C::from_mut_slice(&mut s) };
                self.new_inline(&c, l, "slice");
                let mask = self.new_mask();
                self.put(i, c, v, mask);
            }
            "collect" => {
                self.may_move = true;
                let n = self.amount_grow(9);
                let v = self.vals(n);
                self.shape = n as u64;
                let hint = self.cx.rng.below(n + 1);
                let die = self.die(n);
                let upper = self.upper(n);
                let lie = self.lie(n);
                let mut it = Hinted { v: v.iter(), hint, upper, lie, k: 0, die, end: false, _t: PhantomData::<T> };
                let c = C::collect_(&mut it);
                self.new_inline(&c, n.max(lie.map_or(0, |x| x.0)), "collect");
                let mask = self.new_mask();
                self.put(i, c, v, mask);
            }
            "clone" => {
                let j = (i + 1) % self.pool.len();
                let mask = self.derived_mask(i);
                let c = self.c(i).clone();
                self.new_inline(&c, len, "clone");
                self.put_or_check(j, i, c, m, mask);
            }
            "into_iter" => {
                self.may_move = true;
                let c = self.pool[i].c.take().unwrap();
                self.pool[i].m.clear();
                let mut it = c.into_it();
                if self.cx.rng.chance(1, 4) {
                    // Mutation through the iterator.
                    let v = self.val();
                    let mut exp = m.clone();
                    if let Some(x) = it.as_slice_mut().last_mut() {
                        x.set(v);
                        *exp.last_mut().unwrap() = v;
                    }
                    Self::script(self.cx, &mut it, &exp, &mut self.held, seq, false);
                } else {
                    let full = self.cx.rng.chance(1, 3);
                    Self::script(self.cx, &mut it, &m, &mut self.held, seq, full);
                }
                if tainted() {
                    std::mem::forget(it);
                    return;
                }
                drop(it);
                let c = C::new();
                let mask = self.new_mask();
                self.put(i, c, vec![], mask);
            }
            "fill_spare" => {
                let (s, n, s2, n2) = self.c(i).spare_range();
                let base = self.c(i).ptr();
                let exp = cap - len;
                if !T::ZST {
                    want!(
                        ["C08"],
                        n == exp && n2 == exp && s == s2 && (cap == 0 || s as usize == base as usize + len * std::mem::size_of::<T>()),
                        "spare capacity is {n}/{n2} elements, {len} of {cap} are used"
                    );
                }
                let k = self.cx.rng.below(exp.min(6.max(self.max_len / 16)) + 1);
                let v = self.vals(k);
                self.need = len + k;
                let e = self.make(&v);
                if self.c(i).fill_spare(e).is_ok() {
                    self.pool[i].m.extend(v);
                }
            }
            "leak" => {
                self.may_move = true;
                let c = self.pool[i].c.take().unwrap();
                self.pool[i].m.clear();
                let before: Vec<isize> = self.cx.arenas.iter().map(|a| a.live_blocks()).collect();
                let v = c.into_lvec();
                let mid: Vec<isize> = self.cx.arenas.iter().map(|a| a.live_blocks()).collect();
                let cap = v.capacity();
                let s = v.leak();
                let after: Vec<isize> = self.cx.arenas.iter().map(|a| a.live_blocks()).collect();
                want!(["C06", "C04"], mid == after, "leak released or allocated a block");
                if cap > 0 && !T::ZST {
                    let p = s.as_ptr() as *const u8;
                    if let Some(h) = self.cx.arenas.iter().position(|a| a.block_size(p).is_some()) {
                        self.leaked_blocks[h] += 1;
                    }
                }
                let _ = before;
                let got: Vec<u32> = s.iter().map(|e| e.val()).collect();
                if got != m {
                    report(seq, format!("leak gives {got:?}, expected {m:?}"));
                    return;
                }
                // SAFETY: the slice is never used again.
                unsafe { std::ptr::drop_in_place(s) };
                let c = C::new();
                let mask = self.new_mask();
                self.put(i, c, vec![], mask);
            }
            "dealloc_raw" => {
                self.may_move = true;
                let c = self.pool[i].c.take().unwrap();
                self.pool[i].m.clear();
                let v = c.into_lvec();
                // SAFETY: the vector does not drop the elements that are read out.
                let out: Vec<T> = (0..v.len()).map(|k| unsafe { std::ptr::read(v.as_ptr().add(k)) }).collect();
                v.dealloc_without_drop();
                let got: Vec<u32> = out.iter().map(|e| e.val()).collect();
                if got != m {
                    report(own_tags(), format!("dealloc_without_drop affected elements: {got:?}, expected {m:?}"));
                }
                drop(out);
                let c = C::new();
                let mask = self.new_mask();
                self.put(i, c, vec![], mask);
            }
            "swap" => {
                self.may_move = true;
                let j = (i + 1) % self.pool.len();
                self.pool.swap(i, j);
                let c = self.pool[i].c.take().unwrap();
                let c = Box::new(c);
                self.pool[i].c = Some(*c);
            }
            "mutate" => {
                if len == 0 {
                    return;
                }
                let at = self.cx.rng.below(len);
                let v = self.val();
                self.shape = at as u64;
                match self.cx.rng.below(8) {
                    0 => self.c(i).sl_mut()[at].set(v),
                    4 => self.c(i).borrow_mut_()[at].set(v),
                    5 => self.c(i).as_mut_()[at].set(v),
                    6 => self.c(i).self_mut().sl_mut()[at].set(v),
                    // SAFETY: there is such element.
                    7 => unsafe { (*self.c(i).mut_ptr().add(at)).set(v) },
                    1 => self.c(i).deref_mut_()[at].set(v),
                    2 => self.c(i).at_mut(at).set(v),
                    _ => {
                        // Replace the element.
                        let e = T::make(v);
                        *self.c(i).at_mut(at) = e;
                    }
                }
                self.pool[i].m[at] = v;
                let got = self.c(i).at(at).val();
                if got != v && !T::ZST {
                    report(seq, format!("element {at} is {got} after it was set to {v}"));
                }
            }
            "to_heap" => {
                self.may_move = true;
                let n = self.small();
                let r = match self.cx.rng.below(2) {
                    0 => {
                        self.c(i).to_heap();
                        Ok(())
                    }
                    _ => {
                        let r = self.c(i).try_to_heap(n);
                        self.settle_try(i, r, len + n, cap);
                        r
                    }
                };
                if r.is_ok() {
                    want!(["C09"], self.c(i).place().0, "move to heap leaves the elements inline");
                }
            }
            "to_stack" => {
                let Some(n) = C::INLINE else { return };
                self.may_move = true;
                let stack = self.c(i).place().1;
                let r = self.c(i).try_to_stack();
                want!(["C09"], r.is_ok() == (stack || len <= n), "try_move_to_stack of {len} elements to {n} places gives {r:?}");
                let c = self.c(i);
                want!(["C09"], r.is_err() || c.place().1, "elements are on heap after move to stack");
                want!(["C09"], r.is_ok() || c.place().0, "elements are on stack after refused move");
            }
            "via_vec" => {
                self.may_move = true;
                let mask = self.pool[i].mask;
                let c = self.pool[i].c.take().unwrap();
                self.pool[i].m.clear();
                let v = c.into_lvec();
                let got: Vec<u32> = v.iter().map(|e| e.val()).collect();
                if got != m {
                    report(seq, format!("into_vec gives {got:?}, expected {m:?}"));
                    std::mem::forget(v);
                    return;
                }
                let mk = self.pool[i].marker;
                if let Some(e) = mk {
                    let k = v.marker();
                    want!(["C12", "C11"], k == e, "into_vec gives the marker {k:?}, the object was made with {e:?}");
                }
                let c = C::from_lvec(v);
                self.put(i, c, m, mask);
                self.pool[i].marker = mk;
            }
            "with_cap" => {
                self.may_move = true;
                let n = self.amount(12);
                self.shape = n as u64;
                let mk = AllocMarker::new::<MarkedTy>();
                let marked = self.cx.rng.chance(1, 2);
                let r = match (self.cx.rng.chance(1, 2), marked) {
                    (true, false) => Ok(C::with_cap(n)),
                    (false, false) => C::try_with_cap(n),
                    (true, true) => Ok(C::with_cap_marker(n, mk)),
                    (false, true) => C::try_with_cap_marker(n, mk),
                };
                let Ok(c) = r else {
                    if self.failures() == self.fails0 {
                        report(&["C08"], format!("try_with_capacity({n}) fails"));
                    }
                    return;
                };
                want!(["C08"], c.cap() >= n && c.len_() == 0, "with_capacity({n}) gives capacity {}", c.cap());
                self.new_inline(&c, n, "with_capacity");
                if let Some(k) = c.marker_() {
                    let exp = if marked { mk } else { AllocMarker::None };
                    want!(["C11"], k == exp, "marker of the vector is {k:?}, expected {exp:?}");
                }
                let (a, b) = *self.cur.last().unwrap();
                let mask = if marked { 1 << b } else { 1 << a };
                self.put(i, c, vec![], mask);
                self.pool[i].marker = Some(if marked { mk } else { AllocMarker::None });
            }
            "new" => {
                self.may_move = true;
                let e0 = self.events();
                let mk = AllocMarker::new::<MarkedTy>();
                let (a, b) = *self.cur.last().unwrap();
                let (c, mask) = match self.cx.rng.below(3) {
                    0 => (C::new(), 1 << a),
                    1 => (C::default_(), 1 << a),
                    _ => (C::with_marker(mk), 1 << b),
                };
                want!(["C08"], self.events() == e0, "empty vector used the allocator");
                if let Some(k) = c.marker_() {
                    want!(["C11"], (k == mk) == (mask == 1 << b && k != AllocMarker::None), "marker of the vector is {k:?}");
                }
                let marked = mask == 1 << b && a != b;
                let exact = a != b;
                self.put(i, c, vec![], mask);
                if exact {
                    self.pool[i].marker = Some(if marked { mk } else { AllocMarker::None });
                }
            }
            "views" => {
                let c = self.pool[i].c.as_ref().unwrap();
                let s = c.sl();
                if hash_of(c) != hash_of(s) {
                    report(&["C20"], "hash differs from the one of the slice".into());
                }
                if format!("{c:?}") != format!("{m:?}") {
                    report(&["C20"], format!("debug form {c:?} of {m:?}"));
                }
                for (name, v) in [("Borrow", c.borrow_()), ("AsRef", c.as_ref_()), ("Deref", c.deref_())] {
                    if v.len() != s.len() || v.as_ptr() != s.as_ptr() {
                        report(&["C20"], format!("{name} gives other slice than as_slice"));
                    }
                }
                let o = self.pool[(i + 1) % self.pool.len()].c.as_ref().unwrap();
                let t = o.sl();
                if (c == o) != (s == t) || c.cmp(o) != s.cmp(t) || c.partial_cmp(o) != s.partial_cmp(t) {
                    report(&["C20"], "comparison differs from the one of the slices".into());
                }
                let (a, b) = (self.cx.rng.below(len + 1), self.cx.rng.below(len + 1));
                if !self.c(i).slices(a.min(b), a.max(b)) {
                    report(&["C20", "C01", "C02"], format!("wrong slice is given by index {a}..{b} of {len} elements"));
                }
                if len == 0 {
                    self.may_move = true;
                    static NUMS: [u32; 8] = [5, 4, 9, 1, 0, 7, 3, 8];
                    let (a, b) = (self.cx.rng.below(5), self.cx.rng.below(9));
                    let got = C::extend_refs(&NUMS[..a], &NUMS[8 - b..]);
                    if got != [&NUMS[..a], &NUMS[8 - b..]].concat() {
                        report(seq, format!("{a} numbers extended by {b} are {got:?}"));
                    }
                }
            }
            _ => unreachable!("HARNESS op {op}"),
        }
    }

    fn settle_try(&mut self, i: usize, r: Result<(), ()>, total: usize, cap: usize) {
        let oom = self.failures() > self.fails0;
        let c = self.c(i);
        match r {
            Ok(()) => want!(["C08"], c.cap() >= total, "Ok from request for {total} leaves capacity {}", c.cap()),
            Err(()) => {
                want!(["C08"], oom || T::ZST, "request for {total} elements fails");
                want!(["C07", "C08"], c.cap() == cap, "refused request changed capacity from {cap} to {}", c.cap());
            }
        }
    }

    /// Keep the object in the pool, or just check it if it would replace the source.
    fn put_or_check(&mut self, j: usize, i: usize, c: C, m: Vec<u32>, mask: u32) {
        if i == j {
            return;
        }
        self.may_move = true;
        self.put(j, c, m, mask);
    }

    fn hold(&mut self, e: Option<T>) {
        if let Some(e) = e {
            if self.held.len() < 12 && self.cx.rng.chance(1, 2) {
                self.held.push(e);
            }
        }
        if self.held.len() > 8 {
            let k = self.cx.rng.below(self.held.len());
            self.held.swap_remove(k);
        }
    }

    /// Upper bound of the size of an iterator of `n` elements.
    fn upper(&mut self, n: usize) -> Option<usize> {
        match self.cx.rng.below(5) {
            0 | 1 => None,
            2 => Some(n),
            3 => Some(n + self.cx.rng.below(12)),
            _ => Some(usize::MAX),
        }
    }
    /// Hint which is not true: safe code may give any.
    fn lie(&mut self, n: usize) -> Option<(usize, Option<usize>)> {
        let k = self.cx.rng.below(6);
        Some(match self.cx.rng.below(30) {
            0 => (0, Some(0)),
            1 => (n / 2, Some(n / 2)),
            2 => (n + k, Some(n + k)),
            3 => (n + k, None),
            4 => (n + k, Some(0)),
            _ => return None,
        })
    }
    /// Index of the call of the closure that panics.
    fn die(&mut self, n: usize) -> Option<usize> {
        if self.cfg.bombs && self.cx.rng.chance(1, 2) {
            Some(self.cx.rng.below(n + 1))
        } else {
            None
        }
    }
}



fn is_subsequence(a: &[u32], b: &[u32]) -> bool {
    let mut it = b.iter();
    a.iter().all(|x| it.any(|y| y == x))
}

/// Iterator with the given lower bound of its size.
pub struct Hinted<'a, T> {
    pub v: std::slice::Iter<'a, u32>,
    pub hint: usize,
    /// The upper bound, if any is given: not less than the number of the elements.
    pub upper: Option<usize>,
    /// Hint which is given instead.
    pub lie: Option<(usize, Option<usize>)>,
    /// The end was reported. What follows is not a part of the sequence.
    pub end: bool,
    pub k: usize,
    pub die: Option<usize>,
    pub _t: PhantomData<T>,
}

impl<T: Elem> Iterator for Hinted<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if Some(self.k) == self.die {
            reg().bombs_hit += 1;
            panic!("{}", BOMB);
        }
        self.k += 1;
        match self.v.next() {
            Some(v) => Some(T::make(*v)),
            None if self.end && self.lie.is_none() && self.k < 100 => Some(T::make(1)),
            None => {
                self.end = true;
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if let Some(l) = self.lie {
            return l;
        }
        (self.hint.min(self.v.len()), self.upper.map(|u| u.max(self.v.len())))
    }
}
