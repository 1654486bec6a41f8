//! Interpreter of histories over the shared handles (`Rc`, `Arc`, `Urc`) of one thread and the
//! model of their counters. Values own handles to each other and to themselves.
use crate::arena::Arena;
use crate::elem::*;
use crate::fam::Fam;
use crate::run::*;
use crate::seq::TScope;
use crate::{catch, note, want};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;

thread_local! {
    /// Cells whose value is not available anymore: its drop began or it was moved out.
    static GONE: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
}

fn gone(c: u32) -> bool {
    GONE.with(|g| g.borrow().contains(&c))
}

fn set_gone(c: u32) {
    GONE.with(|g| g.borrow_mut().insert(c));
}

pub struct Val<F: Fam, E: Elem> {
    tok: E,
    kids: RefCell<Vec<F::S<Val<F, E>>>>,
    /// With the cell it refers to.
    links: RefCell<Vec<(F::W<Val<F, E>>, u32)>>,
    cell: Cell<u32>,
}

impl<F: Fam, E: Elem> Val<F, E> {
    fn make(v: u32, cell: u32) -> Self {
        Val { tok: E::make(v), kids: RefCell::default(), links: RefCell::default(), cell: Cell::new(cell) }
    }
}

impl<F: Fam, E: Elem> Clone for Val<F, E> {
    fn clone(&self) -> Self {
        Val {
            tok: self.tok.clone(),
            kids: RefCell::new(self.kids.borrow().iter().map(|k| F::dup(k)).collect()),
            links: RefCell::new(
                self.links.borrow().iter().filter_map(|(l, c)| Some((F::dup_weak(l)?, *c))).collect(),
            ),
            cell: Cell::new(u32::MAX),
        }
    }
}

impl<F: Fam, E: Elem> std::fmt::Debug for Val<F, E> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.tok.val())
    }
}

impl<F: Fam, E: Elem> Drop for Val<F, E> {
    fn drop(&mut self) {
        set_gone(self.cell.get());
        // The value is still complete here.
        self.tok.val();
        for k in self.kids.get_mut().iter() {
            k.as_ref().tok.val();
        }
        for (l, c) in self.links.get_mut().iter() {
            if let Some(u) = F::upgrade(l) {
                if u.is_some() == gone(*c) {
                    report(
                        F::OWN,
                        format!("while a value is dropped: upgrade of weak to {} value gives {}",
                            if gone(*c) { "unavailable" } else { "available" }, u.is_some()),
                    );
                }
                if let Some(u) = &u {
                    u.as_ref().tok.val();
                }
            }
            if let Some((s, _)) = F::wcounts(l) {
                if (s == 0) != gone(*c) {
                    report(F::OWN, format!("while a value is dropped: strong count of weak is {s}"));
                }
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct SCfg {
    pub bombs: bool,
    pub oom: bool,
    pub scopes: bool,
    pub steps: usize,
}

struct MVal {
    val: u32,
    kids: Vec<usize>,
    /// Fences the weak handles belong to.
    links: Vec<usize>,
    alive: bool,
}

struct MCell {
    v: usize,
    /// Owns the value.
    full: bool,
    strong_fences: usize,
    fences: usize,
    home: usize,
    addr: usize,
}

struct MFence {
    cell: usize,
    strong: usize,
    weak: usize,
    home: usize,
    live: bool,
    /// Drop of the value panicked.
    odd: bool,
}

#[derive(Default)]
struct Model {
    vals: Vec<MVal>,
    cells: Vec<MCell>,
    fences: Vec<MFence>,
    fencing: bool,
}

impl Model {
    fn new_val(&mut self, val: u32) -> usize {
        self.vals.push(MVal { val, kids: vec![], links: vec![], alive: true });
        self.vals.len() - 1
    }
    fn new_cell(&mut self, v: usize, home: usize) -> usize {
        self.cells.push(MCell { v, full: true, strong_fences: 0, fences: 0, home, addr: 0 });
        self.cells.len() - 1
    }
    fn new_fence(&mut self, cell: usize, home: usize) -> usize {
        self.cells[cell].fences += 1;
        self.cells[cell].strong_fences += 1;
        self.fences.push(MFence { cell, strong: 1, weak: 0, home, live: true, odd: false });
        self.fences.len() - 1
    }
    fn settle_fence(&mut self, f: usize) {
        let x = &mut self.fences[f];
        if x.live && x.strong == 0 && x.weak == 0 {
            x.live = false;
            let c = x.cell;
            self.cells[c].fences -= 1;
        }
    }
    fn drop_strong(&mut self, f: usize) {
        let x = &mut self.fences[f];
        x.strong -= 1;
        if x.strong == 0 {
            let c = x.cell;
            self.cells[c].strong_fences -= 1;
            if self.cells[c].strong_fences == 0 && self.cells[c].full {
                self.cells[c].full = false;
                // The fence is kept while the value is dropped.
                self.fences[f].weak += 1;
                let v = self.cells[c].v;
                self.drop_val(v);
                self.fences[f].weak -= 1;
            }
            self.settle_fence(f);
        }
    }
    fn drop_weak(&mut self, f: usize) {
        self.fences[f].weak -= 1;
        self.settle_fence(f);
    }
    fn drop_val(&mut self, v: usize) {
        assert!(self.vals[v].alive, "HARNESS: model drops the value twice");
        self.vals[v].alive = false;
        for k in std::mem::take(&mut self.vals[v].kids) {
            self.drop_strong(k);
        }
        for l in std::mem::take(&mut self.vals[v].links) {
            self.drop_weak(l);
        }
    }
    fn clone_val(&mut self, v: usize, links: bool) -> usize {
        let n = self.new_val(self.vals[v].val);
        let kids = self.vals[v].kids.clone();
        for &k in &kids {
            self.fences[k].strong += 1;
        }
        self.vals[n].kids = kids;
        if links {
            let ls = self.vals[v].links.clone();
            for &l in &ls {
                self.fences[l].weak += 1;
            }
            self.vals[n].links = ls;
        }
        n
    }
    fn sole(&self, f: usize) -> bool {
        self.fences[f].strong == 1 && self.cells[self.fences[f].cell].strong_fences == 1
    }
    fn unique(&self, f: usize) -> bool {
        self.sole(f) && self.cells[self.fences[f].cell].fences == 1 && self.fences[f].weak == 0
    }
    fn val_of(&self, f: usize) -> usize {
        self.cells[self.fences[f].cell].v
    }
    /// Whether the value can reach the other one by strong handles.
    fn reaches(&self, from: usize, to: usize) -> bool {
        from == to || self.vals[from].kids.iter().any(|&k| self.reaches(self.val_of(k), to))
    }
    fn alive(&self) -> usize {
        self.vals.iter().filter(|v| v.alive).count()
    }
    /// Blocks that must exist in the arena.
    fn blocks(&self, arena: usize) -> isize {
        let f = self.fences.iter().filter(|f| f.live && f.home == arena).count();
        let c = if self.fencing {
            self.cells.iter().filter(|c| c.fences > 0 && c.home == arena).count()
        } else {
            0
        };
        (f + c) as isize
    }
}

pub struct Sim<'a, F: Fam, E: Elem> {
    cx: &'a mut Ctx,
    cfg: SCfg,
    m: Model,
    strong: Vec<(F::S<Val<F, E>>, usize)>,
    weak: Vec<(F::W<Val<F, E>>, Option<usize>)>,
    boxes: Vec<(F::B<Val<F, E>>, usize)>,
    held: Vec<(Val<F, E>, usize)>,
    /// Many handles which only have to be counted.
    crowd: Vec<(F::S<Val<F, E>>, usize)>,
    weak_crowd: Vec<(F::W<Val<F, E>>, usize)>,
    /// Arena of the current scope.
    cur: Vec<usize>,
    uniq_used: bool,
    next_inner: usize,
    serial: u32,
    /// Blocks may be lost because of a panic of a destructor.
    lossy: bool,
    op: &'static str,
}

const MAX: usize = 9;

impl<'a, F: Fam, E: Elem> Sim<'a, F, E> {
    pub fn run(cx: &'a mut Ctx, cfg: SCfg) {
        GONE.with(|g| g.borrow_mut().clear());
        let own: &'static [&'static str] = if cfg.bombs {
            &["C05"]
        } else if cfg.oom {
            &["C07"]
        } else if cfg.scopes {
            &["C12"]
        } else {
            match F::KIND {
                "Rc" => &["C13", "C14"],
                "Arc" => &["C15", "C16"],
                _ => &["C17", "C18"],
            }
        };
        set_own_tags(own);
        let mut s = Sim::<F, E> {
            cx,
            cfg,
            m: Model { fencing: F::FENCES, ..Default::default() },
            strong: vec![],
            weak: vec![],
            boxes: vec![],
            held: vec![],
            crowd: vec![],
            weak_crowd: vec![],
            cur: vec![0],
            uniq_used: false,
            next_inner: 1,
            serial: 0,
            lossy: false,
            op: "",
        };
        note!("-- {} of {}", F::KIND, E::NAME);
        for b in F::KIND.bytes() {
            s.cx.sig(b as u64);
        }
        s.cx.sig(std::mem::size_of::<E>() as u64);
        for _ in 0..cfg.steps {
            if tainted() {
                break;
            }
            if cfg.scopes && s.cur.len() < 4 && s.next_inner < s.cx.arenas.len() && s.cx.rng.chance(1, 9) {
                s.nested();
            } else {
                s.step();
            }
        }
        s.finish();
    }

    fn own(&self) -> &'static [&'static str] {
        if self.cfg.bombs {
            &["C05"]
        } else if self.cfg.oom {
            &["C07"]
        } else if self.uniq_used {
            // The broken state may be left by the request for exclusive access.
            F::BOTH
        } else {
            F::OWN
        }
    }
    fn uniq(&self) -> &'static [&'static str] {
        if self.cfg.bombs { &["C05"] } else if self.cfg.oom { &["C07"] } else { F::UNIQ }
    }

    fn nested(&mut self) {
        let a = self.next_inner;
        self.next_inner += 1;
        let ar: &'static Arena = self.cx.arenas[a];
        let steps = self.cx.rng.range(2, 10);
        note!("{{ scope {a}");
        self.cx.count("scopes", 1);
        lokky::scope::spawn(
            |_| TScope { plain: ar, marked: ar },
            |_| {
                self.cur.push(a);
                for _ in 0..steps {
                    if tainted() {
                        break;
                    }
                    if self.cur.len() < 4 && self.next_inner < self.cx.arenas.len() && self.cx.rng.chance(1, 9) {
                        self.nested();
                    } else {
                        self.step();
                    }
                }
                self.cur.pop();
                self.end_scope(a);
            },
        );
        note!("}}");
    }

    fn end_scope(&mut self, a: usize) {
        if tainted() {
            return;
        }
        let m = &self.m;
        let dying: Vec<bool> =
            m.fences.iter().map(|f| f.home == a || m.cells[f.cell].home == a).collect();
        let mut i = 0;
        while i < self.strong.len() {
            if dying[self.strong[i].1] {
                let (s, f) = self.strong.remove(i);
                drop(s);
                self.m.drop_strong(f);
            } else {
                i += 1;
            }
        }
        let mut i = 0;
        while i < self.weak.len() {
            if self.weak[i].1.is_some_and(|f| dying[f]) {
                let (w, f) = self.weak.remove(i);
                drop(w);
                self.m.drop_weak(f.unwrap());
            } else {
                i += 1;
            }
        }
        let mut i = 0;
        while i < self.boxes.len() {
            if dying[self.boxes[i].1] {
                let (b, f) = self.boxes.remove(i);
                drop(b);
                self.m.drop_strong(f);
            } else {
                i += 1;
            }
        }
        let m = &mut self.m;
        self.crowd.retain_mut(|(_, f)| {
            if dying[*f] {
                m.drop_strong(*f);
            }
            !dying[*f]
        });
        self.weak_crowd.retain_mut(|(_, f)| {
            if dying[*f] {
                m.drop_weak(*f);
            }
            !dying[*f]
        });
        self.op = "end of the scope";
        self.check();
        let left = self.cx.arenas[a].live_blocks();
        want!(["C12", "C06"], left == 0,
            "{left} blocks remain in the allocator of the ended scope (sizes {:?})", self.cx.arenas[a].leaks());
        self.cx.arenas[a].kill();
    }

    fn finish(&mut self) {
        if tainted() {
            std::mem::forget(std::mem::take(&mut self.strong));
            std::mem::forget(std::mem::take(&mut self.weak));
            std::mem::forget(std::mem::take(&mut self.boxes));
            std::mem::forget(std::mem::take(&mut self.held));
            std::mem::forget(std::mem::take(&mut self.crowd));
            std::mem::forget(std::mem::take(&mut self.weak_crowd));
            return;
        }
        reg().disarm();
        self.cx.a0.fail_off();
        // Random order of releasing.
        let crowd_last = self.cx.rng.chance(1, 2);
        if !crowd_last {
            self.disperse(usize::MAX, usize::MAX);
            self.check();
        }
        loop {
            let n = (self.strong.len(), self.weak.len(), self.boxes.len(), self.held.len());
            let t = n.0 + n.1 + n.2 + n.3;
            if t == 0 || tainted() {
                break;
            }
            let i = self.cx.rng.below(t);
            self.op = "release";
            if i < n.0 {
                let (s, f) = self.strong.swap_remove(i);
                drop(s);
                self.m.drop_strong(f);
            } else if i < n.0 + n.1 {
                let (w, f) = self.weak.swap_remove(i - n.0);
                drop(w);
                if let Some(f) = f {
                    self.m.drop_weak(f)
                }
            } else if i < n.0 + n.1 + n.2 {
                let (b, f) = self.boxes.swap_remove(i - n.0 - n.1);
                drop(b);
                self.m.drop_strong(f);
            } else {
                let (h, v) = self.held.swap_remove(i - n.0 - n.1 - n.2);
                drop(h);
                self.m.drop_val(v);
            }
            self.check();
        }
        if !tainted() {
            self.disperse(usize::MAX, usize::MAX);
            self.check();
        }
        if tainted() {
            return self.finish();
        }
        if !self.lossy {
            for (i, a) in self.cx.arenas.iter().enumerate() {
                if a.is_dead() {
                    continue;
                }
                let n = a.live_blocks();
                if n != 0 {
                    report(&["C06", self.own()[0]],
                        format!("{n} blocks remain in allocator {i} after all handles are gone (sizes {:?})", a.leaks()));
                }
            }
        }
    }

    /// Drop up to so many handles of the crowd.
    fn disperse(&mut self, strong: usize, weak: usize) {
        for _ in 0..strong.min(self.crowd.len()) {
            let (s, f) = self.crowd.pop().unwrap();
            drop(s);
            self.m.drop_strong(f);
            if tainted() {
                return;
            }
        }
        for _ in 0..weak.min(self.weak_crowd.len()) {
            let (w, f) = self.weak_crowd.pop().unwrap();
            drop(w);
            self.m.drop_weak(f);
            if tainted() {
                return;
            }
        }
    }

    fn home(&self) -> usize {
        *self.cur.last().unwrap()
    }

    fn pick(&mut self) -> Option<usize> {
        let n = self.strong.len();
        if n == 0 { None } else { Some(self.cx.rng.below(n)) }
    }

    fn pick_weak(&mut self) -> Option<usize> {
        let n = self.weak.len();
        if n == 0 { None } else { Some(self.cx.rng.below(n)) }
    }

    /// Account handle just made for the new cell.
    fn adopt(&mut self, s: F::S<Val<F, E>>, v: usize, home: (usize, usize)) {
        let c = self.m.new_cell(v, home.0);
        let f = self.m.new_fence(c, home.1);
        self.m.cells[c].addr = F::as_ptr(&s) as usize;
        s.as_ref().cell.set(c as u32);
        self.strong.push((s, f));
    }

    fn step(&mut self) {
        let kind = self.cx.rng.below(28);
        // Faults.
        let (mut oom, mut bomb) = (None, None);
        if self.cfg.oom && self.cx.rng.chance(1, 2) {
            let n = self.cx.rng.below(3);
            oom = Some(n);
        }
        if self.cfg.bombs && self.cx.rng.chance(1, 2) {
            let drop_b = self.cx.rng.chance(1, 2);
            bomb = Some(drop_b);
        }
        let fails0 = self.cx.a0.n_failed.load(std::sync::atomic::Ordering::Relaxed);
        let hits0 = reg().bombs_hit;
        if let Some(n) = oom {
            self.cx.a0.fail_after(n);
        }
        match bomb {
            Some(true) => reg().drop_bomb = self.cx.rng.below(2) as isize,
            Some(false) if self.cx.rng.chance(1, 3) => reg().scope_bomb = self.cx.rng.below(2) as isize,
            Some(false) => reg().clone_bomb = 0,
            None => {}
        }
        let done = self.op(kind, fails0, hits0);
        self.cx.a0.fail_off();
        reg().disarm();
        if !done {
            return;
        }
        let shape = (self.strong.len() * 100 + self.weak.len() * 10 + self.m.alive()) as u64;
        self.cx.step(kind as u64, shape);
        if self.cx.a0.n_failed.load(std::sync::atomic::Ordering::Relaxed) > fails0 {
            self.cx.count("failed_allocations", 1);
        }
        if reg().bombs_hit > hits0 {
            // Memory may be lost.
            self.lossy = true;
            if bomb == Some(true) {
                for x in &mut self.m.fences {
                    x.odd = true;
                }
            }
            self.cx.count("injected_panics", 1);
        }
        self.check();
    }

    /// Run the code that may be hit by a fault. Ok(None) - fault prevented it.
    fn guarded<R>(&mut self, fails0: usize, hits0: u64, f: impl FnOnce() -> R) -> Option<R> {
        match catch(f) {
            Ok(r) => Some(r),
            Err(m) => {
                let failed = self.cx.a0.n_failed.load(std::sync::atomic::Ordering::Relaxed) > fails0;
                let bombed = reg().bombs_hit > hits0 && m.contains(BOMB);
                if !failed && !bombed {
                    report(self.own(), format!("{}: unexpected panic: {m}", self.op));
                }
                self.cx.count("unwound", 1);
                None
            }
        }
    }

    /// Drop of something whose destructor may be armed.
    fn drop_any<R>(&mut self, hits0: u64, r: R) {
        if catch(move || drop(r)).is_err() {
            if reg().bombs_hit == hits0 {
                report(self.own(), format!("{}: unexpected panic", self.op));
            }
            self.lossy = true;
            self.cx.count("unwound", 1);
        }
    }

    fn op(&mut self, kind: usize, fails0: usize, hits0: u64) -> bool {
        let full = self.strong.len() + self.boxes.len() + self.held.len() >= MAX;
        let wfull = self.weak.len() >= MAX;
        match kind {
            0..=2 => {
                if full {
                    return false;
                }
                self.op = "new";
                self.serial += 1;
                let (val, home) = (self.serial, self.home());
                let v = self.m.new_val(val);
                // Real identifier is set afterwards; the value is not referred to yet.
                let x = Val::<F, E>::make(val, u32::MAX);
                let how = if F::KIND == "Rc" { self.cx.rng.range(1, 4) } else { self.cx.rng.below(6) };
                note!("new {val} how {how}");
                let mut x = Some(x);
                let r = match how {
                    0 | 4 => {
                        let x = x.take().unwrap();
                        let r = self.guarded(fails0, hits0, || if how == 4 { F::try_pin(x) } else { F::try_new(x) });
                        match r {
                            Some(None) => {
                                // No such constructor, the value is dropped.
                                self.m.drop_val(v);
                                return true;
                            }
                            Some(Some(Err(()))) => {
                                want!(["C07"], self.cx.a0.n_failed.load(std::sync::atomic::Ordering::Relaxed) > fails0,
                                    "try_new fails though allocator did not");
                                None
                            }
                            Some(Some(Ok(s))) => Some(s),
                            None => {
                                // Destructor of the value panicked, or try_new did.
                                if reg().bombs_hit == hits0 {
                                    report(&["C07", F::OWN[0]], "try_new panicked".into());
                                }
                                None
                            }
                        }
                    }
                    1 => {
                        let x = x.take().unwrap();
                        match self.guarded(fails0, hits0, || F::from_box(lokky::boxed::Box::new(x))) {
                            Some(Some(s)) => Some(s),
                            Some(None) => {
                                self.m.drop_val(v);
                                return true;
                            }
                            None => None,
                        }
                    }
                    5 => {
                        let x = x.take().unwrap();
                        match self.guarded(fails0, hits0, || F::pin(x)) {
                            Some(Some(s)) => Some(s),
                            Some(None) => {
                                self.m.drop_val(v);
                                return true;
                            }
                            None => None,
                        }
                    }
                    _ => {
                        let x = x.take().unwrap();
                        self.guarded(fails0, hits0, || F::new(x))
                    }
                };
                match r {
                    Some(s) => self.adopt(s, v, (home, home)),
                    None => self.m.drop_val(v),
                }
            }
            3 | 4 => {
                let Some(i) = self.pick() else { return false };
                if full {
                    return false;
                }
                self.op = "clone";
                note!("clone {i}");
                let s = F::dup(&self.strong[i].0);
                let f = self.strong[i].1;
                want_any(self.own(), F::as_ptr(&s) == F::as_ptr(&self.strong[i].0), "clone refers to other value");
                self.m.fences[f].strong += 1;
                self.strong.push((s, f));
            }
            5..=7 => {
                let Some(i) = self.pick() else { return false };
                self.op = "drop";
                let (s, f) = self.strong.swap_remove(i);
                note!("drop {i} (strong {} weak {})", self.m.fences[f].strong, self.m.fences[f].weak);
                self.m.drop_strong(f);
                self.drop_any(hits0, s);
                if self.lossy {
                    for x in &mut self.m.fences {
                        x.odd = true;
                    }
                }
            }
            8 | 9 => {
                let Some(i) = self.pick() else { return false };
                if wfull {
                    return false;
                }
                self.op = "downgrade";
                note!("downgrade {i}");
                let w = F::down(&self.strong[i].0);
                let f = self.strong[i].1;
                self.m.fences[f].weak += 1;
                self.weak.push((w, Some(f)));
            }
            10 | 11 => {
                let Some(i) = self.pick_weak() else { return false };
                self.op = "drop of weak";
                let (w, f) = self.weak.swap_remove(i);
                note!("drop weak {i}");
                if let Some(f) = f {
                    self.m.drop_weak(f);
                }
                self.drop_any(hits0, w);
            }
            12 => {
                let Some(i) = self.pick_weak() else { return false };
                if full {
                    return false;
                }
                self.op = "upgrade";
                let f = self.weak[i].1;
                let Some(u) = F::upgrade(&self.weak[i].0) else { return false };
                note!("upgrade {i}");
                let can = f.is_some_and(|f| self.m.fences[f].strong > 0);
                if u.is_some() != can {
                    report(self.own(), format!("upgrade gives {} for the value that is {}", u.is_some(),
                        if can { "alive" } else { "gone" }));
                    std::mem::forget(u);
                } else if let Some(u) = u {
                    let f = f.unwrap();
                    self.m.fences[f].strong += 1;
                    self.strong.push((u, f));
                }
            }
            13 => {
                if wfull {
                    return false;
                }
                self.op = "clone of weak";
                if self.weak.is_empty() || self.cx.rng.chance(1, 6) {
                    let d = self.cx.rng.chance(1, 2);
                    let Some(w) = self.guarded(fails0, hits0, || F::new_weak(d)) else { return true };
                    let Some(w) = w else { return false };
                    self.weak.push((w, None));
                } else {
                    let i = self.pick_weak().unwrap();
                    let Some(w) = F::dup_weak(&self.weak[i].0) else { return false };
                    note!("clone weak {i}");
                    let f = self.weak[i].1;
                    if let Some(f) = f {
                        self.m.fences[f].weak += 1;
                    }
                    self.weak.push((w, f));
                }
            }
            14 => {
                let Some(i) = self.pick() else { return false };
                self.op = "get_mut";
                self.uniq_used = true;
                let f = self.strong[i].1;
                let exp = self.m.unique(f);
                let tags = self.uniq();
                let nv = self.serial + 1;
                let odd = self.m.fences[f].odd;
                let got = match F::get_mut(&mut self.strong[i].0) {
                    Some(v) => {
                        v.tok.val();
                        v.tok.set(nv);
                        true
                    }
                    None => false,
                };
                note!("get_mut {i} {got}");
                // The counter of a fence stays raised after the destructor panics.
                if got != exp && !odd {
                    report(tags, format!("get_mut gives {got} with {} strong and {} weak handles in the fence, {} fences, {} strong ones",
                        self.m.fences[f].strong, self.m.fences[f].weak,
                        self.m.cells[self.m.fences[f].cell].fences, self.m.cells[self.m.fences[f].cell].strong_fences));
                }
                if got {
                    self.serial += 1;
                    let v = self.m.val_of(f);
                    self.m.vals[v].val = nv;
                }
            }
            15 => {
                let Some(i) = self.pick() else { return false };
                self.op = "try_unwrap";
                self.uniq_used = true;
                let (s, f) = self.strong.swap_remove(i);
                let exp = self.m.sole(f);
                note!("try_unwrap {i} {exp}");
                let Some(r) = self.guarded(fails0, hits0, || F::try_unwrap(s)) else { return true };
                match r {
                    Ok(v) => {
                        if !exp {
                            report(self.uniq(), "try_unwrap takes the value out of other handles".into());
                            std::mem::forget(v);
                            return true;
                        }
                        let mv = self.m.val_of(f);
                        let c = self.m.fences[f].cell;
                        want_any(self.uniq(), v.cell.get() == c as u32, "try_unwrap gives other value");
                        set_gone(c as u32);
                        v.cell.set(u32::MAX);
                        self.m.cells[c].full = false;
                        self.m.drop_strong(f);
                        self.held.push((v, mv));
                    }
                    Err(s) => {
                        if exp {
                            report(self.uniq(), "try_unwrap refuses the only handle".into());
                        }
                        self.strong.push((s, f));
                    }
                }
            }
            16 | 17 => {
                let Some(i) = self.pick() else { return false };
                self.op = "make_mut";
                self.uniq_used = true;
                let f = self.strong[i].1;
                let c = self.m.fences[f].cell;
                let (unique, sole) = (self.m.unique(f), self.m.sole(f));
                let addr0 = self.m.cells[c].addr;
                note!("make_mut {i} unique {unique} sole {sole}");
                let nv = self.serial + 1;
                let h = &mut self.strong[i].0 as *mut F::S<Val<F, E>>;
                let clones0 = reg().clones;
                let r = self.guarded(fails0, hits0, || {
                    let v = F::make_mut(unsafe { &mut *h });
                    v.tok.val();
                    v.tok.set(nv);
                    v as *mut Val<F, E> as usize
                });
                let clones = reg().clones - clones0;
                let Some(addr) = r else {
                    // Nothing changes.
                    want_any(self.own(), F::as_ptr(&self.strong[i].0) as usize == addr0,
                        "failed make_mut changes the handle");
                    return true;
                };
                self.serial += 1;
                let exp_clones = if sole { 0 } else { 1 };
                if clones != exp_clones {
                    report(self.uniq(), format!("make_mut makes {clones} clones, expected {exp_clones}"));
                }
                let here = F::as_ptr(&self.strong[i].0) as usize;
                want_any(self.uniq(), addr == here, "make_mut gives access to other value");
                if unique {
                    want_any(self.uniq(), addr == addr0, "make_mut of the only handle moves the value");
                    let v = self.m.val_of(f);
                    self.m.vals[v].val = nv;
                } else {
                    want_any(self.uniq(), addr != addr0, "make_mut changes the value of other handles in place");
                    let homes = (self.m.cells[c].home, self.m.fences[f].home);
                    let v = if sole {
                        let v = self.m.val_of(f);
                        self.m.cells[c].full = false;
                        set_gone(c as u32);
                        self.m.drop_strong(f);
                        v
                    } else {
                        let v = self.m.val_of(f);
                        let n = self.m.clone_val(v, dummy_weak::<F, E>().is_some());
                        self.m.drop_strong(f);
                        n
                    };
                    self.m.vals[v].val = nv;
                    let (s, _) = self.strong.swap_remove(i);
                    self.adopt(s, v, homes);
                }
            }
            18 => {
                if self.cfg.scopes {
                    return false;
                }
                // Let the value own a handle.
                let (Some(i), Some(j)) = (self.pick(), self.pick()) else { return false };
                self.op = "store handle";
                let (vi, vj) = (self.m.val_of(self.strong[i].1), self.m.val_of(self.strong[j].1));
                if self.m.reaches(vj, vi) || self.m.vals[vi].kids.len() >= 3 || i == j {
                    return false;
                }
                let fj = self.strong[j].1;
                note!("store {j} in {i}");
                if self.cx.rng.chance(1, 2) {
                    let k = F::dup(&self.strong[j].0);
                    self.m.fences[fj].strong += 1;
                    self.strong[i].0.as_ref().kids.borrow_mut().push(k);
                } else {
                    // Move. Keep indexes right.
                    let (k, _) = self.strong.remove(j);
                    let i = if j < i { i - 1 } else { i };
                    self.strong[i].0.as_ref().kids.borrow_mut().push(k);
                }
                self.m.vals[vi].kids.push(fj);
            }
            19 => {
                let Some(i) = self.pick() else { return false };
                self.op = "take handle";
                if full {
                    return false;
                }
                let v = self.m.val_of(self.strong[i].1);
                let k = self.strong[i].0.as_ref().kids.borrow_mut().pop();
                let mk = self.m.vals[v].kids.pop();
                assert_eq!(k.is_some(), mk.is_some(), "HARNESS: kids differ");
                let (Some(k), Some(f)) = (k, mk) else { return false };
                note!("take from {i}");
                self.strong.push((k, f));
            }
            20 => {
                if self.cfg.scopes {
                    return false;
                }
                // Let the value own a weak handle, maybe to itself.
                let (Some(i), Some(mut j)) = (self.pick(), self.pick()) else { return false };
                if self.cx.rng.chance(1, 3) {
                    j = i;
                }
                self.op = "store weak";
                let vi = self.m.val_of(self.strong[i].1);
                if self.m.vals[vi].links.len() >= 3 {
                    return false;
                }
                note!("store weak {j} in {i}");
                let fj = self.strong[j].1;
                let w = F::down(&self.strong[j].0);
                self.m.fences[fj].weak += 1;
                let c = self.m.fences[fj].cell as u32;
                self.strong[i].0.as_ref().links.borrow_mut().push((w, c));
                self.m.vals[vi].links.push(fj);
            }
            21 => {
                if full {
                    return false;
                }
                let Some(i) = self.pick() else { return false };
                self.op = "envelop";
                let f = self.strong[i].1;
                let h = &self.strong[i].0 as *const F::S<Val<F, E>>;
                let Some(r) = self.guarded(fails0, hits0, || F::envelop(unsafe { &*h })) else { return true };
                let Some(s) = r else { return false };
                note!("envelop {i}");
                want_any(self.own(), F::as_ptr(&s) == F::as_ptr(&self.strong[i].0), "envelope carries other value");
                if F::FENCES {
                    let c = self.m.fences[f].cell;
                    let home = self.home();
                    let nf = self.m.new_fence(c, home);
                    self.strong.push((s, nf));
                } else {
                    self.m.fences[f].strong += 1;
                    self.strong.push((s, f));
                }
            }
            22 => {
                if !F::FENCES {
                    return false;
                }
                let Some(i) = self.pick() else { return false };
                self.op = "try_into_fence";
                self.uniq_used = true;
                let (s, f) = self.strong.swap_remove(i);
                let exp = self.m.fences[f].strong == 1 && self.m.fences[f].weak == 0;
                let odd = self.m.fences[f].odd;
                match F::into_fence(s) {
                    Ok(b) => {
                        want_any(self.own(), exp || odd, "try_into_fence takes the fence of other handles");
                        want_any(self.own(), F::fence_counts(&b) == (1, 0) || odd, "counters of the taken fence");
                        self.boxes.push((b, f));
                    }
                    Err(s) => {
                        want_any(self.own(), !exp || odd, "try_into_fence refuses the only handle");
                        self.strong.push((s, f));
                    }
                }
            }
            23 => {
                if self.boxes.is_empty() {
                    return false;
                }
                let i = self.cx.rng.below(self.boxes.len());
                let (b, f) = self.boxes.swap_remove(i);
                if self.cx.rng.chance(1, 3) {
                    self.op = "drop of fence";
                    self.m.drop_strong(f);
                    self.drop_any(hits0, b);
                } else {
                    self.op = "into_urc";
                self.uniq_used = true;
                    let home = self.home();
                    match self.guarded(fails0, hits0, || F::from_fence(b)) {
                        Some(s) => {
                            self.m.fences[f].home = home;
                            self.strong.push((s, f));
                        }
                        None => self.m.drop_strong(f),
                    }
                }
            }
            24 => {
                self.op = "release value";
                if self.held.is_empty() {
                    return false;
                }
                let i = self.cx.rng.below(self.held.len());
                let (v, mv) = self.held.swap_remove(i);
                note!("release value");
                if self.cx.rng.chance(1, 3) && !full && !self.cfg.oom {
                    // Put it back.
                    let home = self.home();
                    match self.guarded(fails0, hits0, || F::new(v)) {
                        Some(s) => self.adopt(s, mv, (home, home)),
                        None => self.m.drop_val(mv),
                    }
                } else {
                    self.m.drop_val(mv);
                    self.drop_any(hits0, v);
                }
            }
            26 => {
                // Many handles: counts must not be narrow.
                if self.cfg.bombs || self.cfg.oom || cfg!(miri) || !self.cx.rng.chance(1, 6) {
                    return false;
                }
                let Some(i) = self.pick() else { return false };
                let f = self.strong[i].1;
                let pick = |cx: &mut Ctx| match cx.rng.below(600) {
                    0 => 70_000,
                    1..=200 => 250 + cx.rng.below(20),
                    201..=400 => cx.rng.below(600),
                    _ => cx.rng.below(40),
                };
                let (n, k) = (pick(self.cx), pick(self.cx));
                if self.crowd.len() + self.weak_crowd.len() + n + k > 150_000 {
                    return false;
                }
                self.op = "many handles";
                note!("crowd of {i}: {n} strong {k} weak");
                for _ in 0..n {
                    self.crowd.push((F::dup(&self.strong[i].0), f));
                }
                for _ in 0..k {
                    self.weak_crowd.push((F::down(&self.strong[i].0), f));
                }
                self.m.fences[f].strong += n;
                self.m.fences[f].weak += k;
                if F::FENCES && self.cx.rng.chance(1, 4) {
                    let e = self.cx.rng.below(300);
                    note!("and {e} fences");
                    for _ in 0..e {
                        let (c, home) = (self.m.fences[f].cell, self.home());
                        let Some(s) = F::envelop(&self.strong[i].0) else { break };
                        let nf = self.m.new_fence(c, home);
                        self.crowd.push((s, nf));
                    }
                }
                self.cx.count("crowds", 1);
            }
            27 => {
                let (n, k) = (self.crowd.len(), self.weak_crowd.len());
                if n + k == 0 || self.cfg.bombs || self.cfg.oom {
                    return false;
                }
                self.op = "release of many handles";
                let mut part = |n: usize| if self.cx.rng.chance(1, 2) { n } else { self.cx.rng.below(n + 1) };
                let (n, k) = (part(n), part(k));
                note!("release {n} strong {k} weak");
                self.disperse(n, k);
            }
            _ => {
                // Value that is not initialized: nothing is dropped with the handle.
                self.op = "uninit";
                let before = reg().live;
                let Some(r) = self.guarded(fails0, hits0, || F::uninit::<E>()) else { return true };
                let Some(u) = r else { return false };
                let d = F::dup(&u);
                want_any(self.own(), F::strong(&u) == 2 && F::weak(&d) == 0, "counters of the handle to uninitialized value");
                drop(u);
                drop(d);
                want_any(self.own(), reg().live == before, "drop of uninitialized value");
            }
        }
        true
    }

    fn check(&mut self) {
        if tainted() {
            return;
        }
        let op = self.op;
        let own = self.own();
        for (i, (s, f)) in self.strong.iter().enumerate() {
            let mf = &self.m.fences[*f];
            let c = &self.m.cells[mf.cell];
            let v = s.as_ref();
            let exp = if E::ZST { 0 } else { self.m.vals[c.v].val };
            let got = v.tok.val();
            if tainted() {
                return;
            }
            if got != exp {
                report(own, format!("after {op}: handle {i} gives value {got}, expected {exp}"));
            }
            if F::as_ptr(s) as usize != c.addr || v as *const _ as usize != c.addr {
                report(own, format!("after {op}: value of the handle {i} moved"));
            }
            if c.addr % std::mem::align_of::<Val<F, E>>() != 0 {
                report(own, format!("after {op}: value of the handle {i} is misaligned"));
            }
            let (st, wk) = (F::strong(s), F::weak(s));
            if st != mf.strong || (wk != mf.weak && !mf.odd) {
                report(own, format!("after {op}: handle {i} counts {st} strong and {wk} weak, expected {} and {}",
                    mf.strong, mf.weak));
            }
            if let Some(b) = F::sole(s) {
                want_any(own, b == (c.strong_fences == 1), "is_sole_strong_fence is wrong");
            }
            if i > 0 {
                let (o, of) = &self.strong[i - 1];
                let e = self.m.fences[*of].cell == mf.cell;
                if F::ptr_eq(s, o) != e {
                    report(own, format!("after {op}: ptr_eq of {i} and {} is {}", i - 1, !e));
                }
            }
        }
        for (i, (w, f)) in self.weak.iter().enumerate() {
            let exp = match f {
                Some(f) => (self.m.fences[*f].strong, self.m.fences[*f].weak),
                None => (0, 0),
            };
            if let Some((s, k)) = F::wcounts(w) {
                let odd = f.is_some_and(|f| self.m.fences[f].odd);
                if s != exp.0 || (k != exp.1 && !odd) {
                    report(own, format!("after {op}: weak {i} counts {s} strong and {k} weak, expected {exp:?}"));
                }
            }
            if i > 0 {
                if let Some(e) = F::wptr_eq(w, &self.weak[i - 1].0) {
                    let cell = |f: Option<usize>| f.map(|f| self.m.fences[f].cell);
                    want_any(own, e == (cell(*f) == cell(self.weak[i - 1].1)), "ptr_eq of weaks");
                }
            }
            if let (Some(p), true) = (F::wptr(w), exp.0 > 0 || f.is_none()) {
                let e = f.map_or(0, |f| self.m.cells[self.m.fences[f].cell].addr);
                want_any(own, p as usize == e, "as_ptr of weak");
            }
            {
                if let Some(s) = F::wfmt(w) {
                    let e = match f {
                        _ if f.is_some() && exp.0 == 0 => {
                            // Only the content is not to be touched.
                            want_any(own, !s.contains('v'), "Debug of weak shows the dropped value");
                            continue;
                        }
                        Some(f) => {
                            let v = self.m.vals[self.m.val_of(*f)].val;
                            format!("(Weak(v{}))", if E::ZST { 0 } else { v })
                        }
                        None => "(Weak null)".into(),
                    };
                    if s != e {
                        report(own, format!("Debug of weak is {s}, expected {e}"));
                    }
                }
            }
        }
        for (v, mv) in &self.held {
            let e = if E::ZST { 0 } else { self.m.vals[*mv].val };
            if v.tok.val() != e {
                report(own, format!("after {op}: taken value is corrupted"));
            }
        }
        if tainted() {
            return;
        }
        let live = reg().live;
        let exp = self.m.alive() as isize;
        if live != exp {
            report(own, format!("after {op}: {live} values are alive, {exp} are owned"));
        }
        if !self.lossy {
            for (i, a) in self.cx.arenas.iter().enumerate() {
                if a.is_dead() {
                    continue;
                }
                let (n, e) = (a.live_blocks(), self.m.blocks(i));
                if n != e {
                    report(&["C06", "C12", own[0]],
                        format!("after {op}: allocator {i} has {n} blocks, expected {e} (sizes {:?})", a.leaks()));
                }
            }
        }
    }
}

/// Exists only when the family has empty weak handles, which are the ones that can be cloned.
fn dummy_weak<F: Fam, E: Elem>() -> DW<F, E> {
    DW(F::new_weak(false))
}
struct DW<F: Fam, E: Elem>(Option<F::W<Val<F, E>>>);
impl<F: Fam, E: Elem> DW<F, E> {
    fn is_some(&self) -> bool {
        self.0.is_some()
    }
}

fn want_any(tags: &[&str], c: bool, msg: &str) {
    if !c {
        report(tags, msg.into());
    }
}
