//! Histories over `String`, compared with the standard string after each step.
use crate::reg;
use crate::arena::Arena;
use crate::cont::hash_of;
use crate::elem::BOMB;
use crate::run::*;
use crate::seq::{MarkedTy, TScope};
use crate::{catch, note, want};
use lokky::scope::AllocMarker;
use lokky::string::String as LString;
use lokky::vec::Vec as LVec;
use std::fmt::Write;

#[derive(Clone, Copy)]
struct Cfg {
    bombs: bool,
    oom: bool,
    scopes: bool,
    tags: &'static [&'static str],
    steps: usize,
}

struct Obj {
    s: Option<LString>,
    m: String,
    mask: u32,
}

struct S<'a> {
    cx: &'a mut Ctx,
    cfg: Cfg,
    pool: Vec<Obj>,
    cur: Vec<(usize, usize)>,
    next_inner: usize,
    op: &'static str,
    expect_panic: bool,
    free_alloc: bool,
    need: usize,
    /// Acceptable content if the operation fails midway.
    partial: Option<String>,
    consumed: bool,
    bomb_hit: bool,
    fails0: usize,
    shape: u64,
    /// Length to start with and to keep under.
    start: usize,
    max_len: usize,
}

const CHARS: &[char] = &[
    'a', 'b', ' ', '\0', '\n', '"', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '€', '\u{d7ff}',
    '\u{e000}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '\u{301}', 'ß', '\'', '\\',
];

const OPS: &[(&str, u32)] = &[
    ("push", 8), ("push_str", 8), ("pop", 4), ("insert", 5), ("insert_str", 5), ("remove", 5),
    ("truncate", 4), ("clear", 1), ("split_off", 4), ("retain", 5), ("reserve", 3),
    ("try_reserve", 3), ("shrink", 3), ("bad_index", 3), ("from_utf8", 3), ("from_utf16", 3),
    ("clone", 2), ("from_char", 1), ("from_str", 2), ("collect", 3), ("extend", 5), ("add", 3),
    ("write", 3), ("with_cap", 2), ("views", 3), ("as_mut", 2), ("slices", 3), ("huge", 1),
    ("extend_owned", 2), ("unchecked", 1), ("new", 1), ("swap", 1),
];

fn any_char(cx: &mut Ctx) -> char {
    if cx.rng.chance(1, 8) {
        // Any code point, with the same chance for each length of its encoding.
        let top = *cx.rng.pick(&[0x80, 0x800, 0x10000, 0x110000]);
        if let Some(c) = char::from_u32(cx.rng.below(top) as u32) {
            return c;
        }
    }
    *cx.rng.pick(CHARS)
}

fn text(cx: &mut Ctx, max: usize) -> String {
    let n = cx.rng.below(max + 1);
    let ascii = cx.rng.chance(1, 4);
    (0..n)
        .map(|_| if ascii { 'x' } else { any_char(cx) })
        .collect()
}

impl<'a> S<'a> {
    fn run(cx: &'a mut Ctx, cfg: Cfg) {
        let (start, max_len) = match cfg!(miri) {
            true => (0, 40),
            false if cx.rng.chance(1, 24) => (cx.rng.below(700), 1000),
            false if cx.rng.chance(1, 500) => (cx.rng.range(2000, 9000), 12_000),
            false if cx.rng.chance(1, 3000) => (cx.rng.range(60_000, 120_000), 140_000),
            false => (0, 120),
        };
        cx.arenas.iter().for_each(|a| a.lenient());
        let mut cfg = cfg;
        if max_len > 1000 {
            cfg.steps = cfg.steps.min(if max_len > 20_000 { 10 } else { 20 });
            cx.count("long_cases", 1);
        }
        let mut s = S {
            start,
            max_len,
            cx,
            cfg,
            pool: vec![],
            cur: vec![(0, 0)],
            next_inner: 3,
            op: "",
            expect_panic: false,
            free_alloc: false,
            need: 0,
            partial: None,
            consumed: false,
            bomb_hit: false,
            fails0: 0,
            shape: 0,
        };
        if cfg.scopes {
            let ar = s.cx.arenas.clone();
            lokky::scope::spawn(
                |_| TScope { plain: ar[1], marked: ar[2] },
                |_| {
                    s.cur.push((1, 2));
                    s.main();
                    s.cur.pop();
                    s.end_scope(1, 2);
                },
            );
        } else {
            s.main();
        }
        if tainted() {
            std::mem::forget(std::mem::take(&mut s.pool));
            return;
        }
        s.pool.clear();
        for a in &s.cx.arenas {
            if a.live_blocks() != 0 {
                report(
                    &["C06", "C03", "C04"],
                    format!("{} blocks remain after all the strings are gone: {:?}", a.live_blocks(), a.leaks()),
                );
            }
        }
    }

    fn main(&mut self) {
        for k in 0..2 {
            let mask = 1 << self.cur.last().unwrap().0;
            let m = if k == 0 && self.start > 0 {
                let mut m = text(self.cx, self.start);
                while m.len() < self.start / 2 {
                    m.push(any_char(self.cx));
                }
                m
            } else {
                String::new()
            };
            let s = if m.is_empty() { LString::new() } else { LString::from(&m[..]) };
            self.pool.push(Obj { s: Some(s), m, mask });
        }
        for _ in 0..self.cfg.steps {
            if tainted() || self.no_room() {
                return;
            }
            if self.cfg.scopes && self.cur.len() < 3 && self.next_inner + 1 < self.cx.arenas.len()
                && self.cx.rng.chance(1, 10)
            {
                let (a, b) = (self.next_inner, self.next_inner + 1);
                self.next_inner += 2;
                let ar = self.cx.arenas.clone();
                let n = self.cx.rng.range(2, 12);
                self.cx.count("scopes", 1);
                lokky::scope::spawn(
                    |_| TScope { plain: ar[a], marked: ar[b] },
                    |_| {
                        self.cur.push((a, b));
                        for _ in 0..n {
                            if !tainted() && !self.no_room() {
                                self.step();
                            }
                        }
                        self.cur.pop();
                        self.end_scope(a, b);
                    },
                );
            } else {
                self.step();
            }
        }
    }

    /// Blocks are never reused, so long strings exhaust the arenas.
    fn no_room(&self) -> bool {
        self.max_len > 500 && self.cx.arenas.iter().any(|a| a.mostly_used())
    }

    /// Length of a piece of text. In the cases of long strings it is big at times.
    fn piece(&mut self, n: usize) -> usize {
        if self.max_len > 500 && self.cx.rng.chance(1, 3) {
            return self.cx.rng.below(self.max_len / 4);
        }
        n
    }

    fn end_scope(&mut self, a: usize, b: usize) {
        if tainted() {
            return;
        }
        for o in &mut self.pool {
            if o.mask & (1 << a | 1 << b) != 0 {
                o.s = None;
                o.m.clear();
                o.mask = 0;
            }
        }
        for k in [a, b] {
            let ar: &Arena = self.cx.arenas[k];
            if ar.live_blocks() != 0 {
                report(
                    &["C12", "C06"],
                    format!("{} blocks of the allocator of the inner scope are held by outer strings when the scope ends", ar.live_blocks()),
                );
            }
            ar.kill();
        }
    }

    fn failures(&self) -> usize {
        self.cx.arenas.iter().map(|a| a.n_failed.load(std::sync::atomic::Ordering::Relaxed)).sum()
    }
    fn events(&self) -> usize {
        self.cx.arenas.iter().map(|a| a.events()).sum()
    }
    fn s(&mut self, i: usize) -> &mut LString {
        self.pool[i].s.as_mut().unwrap()
    }
    fn put(&mut self, i: usize, s: LString, m: String, mask: u32) {
        self.free_alloc = true;
        self.pool[i] = Obj { s: Some(s), m, mask };
    }
    fn new_mask(&self) -> u32 {
        1 << self.cur.last().unwrap().0
    }
    fn derived_mask(&self, i: usize) -> u32 {
        let (a, b) = *self.cur.last().unwrap();
        self.pool[i].mask | 1 << a | 1 << b
    }
    fn boundary(&mut self, m: &str) -> usize {
        if m.len() > 500 {
            let mut i = self.cx.rng.below(m.len() + 1);
            while !m.is_char_boundary(i) {
                i -= 1;
            }
            return i;
        }
        let b: Vec<usize> = (0..=m.len()).filter(|i| m.is_char_boundary(*i)).collect();
        *self.cx.rng.pick(&b)
    }
    fn bomb(&mut self, k: &mut usize, die: Option<usize>) {
        if Some(*k) == die {
            self.bomb_hit = true;
            panic!("{}", BOMB);
        }
        *k += 1;
    }
    /// Hint which is not true: safe code may give any.
    fn lie(&mut self, n: usize) -> Option<(usize, Option<usize>)> {
        let k = self.cx.rng.below(6);
        Some(match self.cx.rng.below(20) {
            0 => (0, Some(0)),
            1 => (n / 2, Some(n / 2)),
            2 => (n + k, Some(n + k)),
            3 => (n + k, None),
            _ => return None,
        })
    }
    fn die(&mut self, n: usize) -> Option<usize> {
        if self.cfg.bombs && self.cx.rng.chance(2, 3) {
            Some(self.cx.rng.below(n + 1))
        } else {
            None
        }
    }

    fn step(&mut self) {
        for k in 0..self.pool.len() {
            if self.pool[k].s.is_none() {
                self.pool[k] = Obj { s: Some(LString::new()), m: String::new(), mask: self.new_mask() };
            }
        }
        let i = self.cx.rng.below(self.pool.len());
        let total: u32 = OPS.iter().map(|o| o.1).sum();
        let mut x = self.cx.rng.below(total as usize) as u32;
        let mut id = 0;
        for (k, o) in OPS.iter().enumerate() {
            if x < o.1 {
                id = k;
                break;
            }
            x -= o.1;
        }
        let mut op = OPS[id].0;
        if self.pool[i].m.len() > self.max_len {
            op = *self.cx.rng.pick(&["truncate", "split_off", "clear", "retain"]);
        }
        self.op = op;
        self.expect_panic = false;
        self.free_alloc = false;
        self.need = 0;
        self.partial = None;
        self.consumed = false;
        self.bomb_hit = false;
        self.shape = 0;
        let old: Vec<String> = self.pool.iter().map(|o| o.m.clone()).collect();
        let (len, cap, ptr) = {
            let s = self.s(i);
            (s.len(), s.capacity(), s.as_bytes().as_ptr())
        };
        let events = self.events();
        self.fails0 = self.failures();
        let armed = self.cfg.oom && self.cx.rng.chance(1, 2);
        if armed {
            let n = self.cx.rng.below(2);
            for a in &self.cx.arenas {
                a.fail_after(n);
            }
        }
        let hits = reg().bombs_hit;
        if self.cfg.bombs && self.cx.rng.chance(1, 6) {
            reg().scope_bomb = self.cx.rng.below(2) as isize;
        }
        note!("{op} on {i} {:?} cap {cap} armed {armed}", self.pool[i].m);
        let r = catch(|| self.exec(i, op));
        reg().disarm();
        self.bomb_hit |= reg().bombs_hit > hits;
        for a in &self.cx.arenas {
            a.fail_off();
        }
        let oom = self.failures() > self.fails0;
        let shape = self.shape;
        self.cx.step(id as u64, shape << 16 | (len as u64) << 4 | (oom as u64) << 1 | r.is_err() as u64);
        if oom {
            self.cx.count("failed_allocations", 1);
        }
        if self.bomb_hit {
            self.cx.count("injected_panics", 1);
        }
        let ok = r.is_ok();
        match r {
            Ok(()) if self.expect_panic => report(self.cfg.tags, format!("{op} at invalid position did not panic")),
            Ok(()) => {}
            Err(m) if m.contains("HARNESS") => panic!("{m}"),
            Err(m) => {
                if !(self.expect_panic || oom || self.bomb_hit) {
                    report(self.cfg.tags, format!("{op} panicked: {m}"));
                    return;
                }
                self.cx.count("panics_survived", 1);
                for k in 0..self.pool.len() {
                    let Some(s) = &self.pool[k].s else {
                        self.pool[k].m.clear();
                        continue;
                    };
                    let Ok(now) = std::str::from_utf8(s.as_bytes()) else {
                        report(
                            &["C03", "C05", "C07"],
                            format!("{op} interrupted by panic leaves invalid UTF-8 {:?} (was {:?})", s.as_bytes(), old[k]),
                        );
                        return;
                    };
                    let now = now.to_string();
                    let fits = now == old[k]
                        || (self.bomb_hit && op == "retain" && part_of(&now, &old[k]))
                        || self.partial.as_ref().is_some_and(|p| p.starts_with(&now) && now.len() >= old[k].len());
                    if !fits {
                        let t: &[&str] = if self.bomb_hit { &["C05"] } else if oom { &["C07"] } else { self.cfg.tags };
                        report(t, format!("failed {op} changed the string from {:?} to {:?}", old[k], now));
                    }
                    self.pool[k].m = now;
                }
            }
        }
        if tainted() {
            return;
        }
        self.check_all();
        if ok && !self.free_alloc && self.pool[i].s.is_some() {
            let need = self.need;
            let ev = self.events();
            let s = self.s(i);
            if need <= cap {
                want!(
                    ["C08"],
                    ev == events && s.capacity() == cap && (cap == 0 || s.as_bytes().as_ptr() == ptr),
                    "{op} of total {need} bytes within the capacity {cap} used the allocator"
                );
            }
        }
    }

    fn check_all(&mut self) {
        let tags = self.cfg.tags;
        for k in 0..self.pool.len() {
            let o = &self.pool[k];
            let Some(s) = &o.s else { continue };
            let b = s.as_bytes();
            if std::str::from_utf8(b).is_err() {
                report(&["C03", "C05", "C07"], format!("{}: invalid UTF-8 {b:?}, expected {:?}", self.op, o.m));
                return;
            }
            if b != o.m.as_bytes() {
                report(tags, format!("{}: content is {:?}, expected {:?}", self.op, s.as_str(), o.m));
                return;
            }
            if s.len() != o.m.len() || s.is_empty() != o.m.is_empty() || s.as_str() != o.m || **s != *o.m {
                report(tags, format!("{}: views of {:?} disagree", self.op, o.m));
            }
            let cap = s.capacity();
            want!(["C08"], cap >= s.len(), "capacity {cap} of string of {} bytes", s.len());
            if cap > 0 {
                let p = b.as_ptr();
                let home = self.cx.arenas.iter().position(|a| {
                    a.block_size(p).is_some_and(|s| s >= cap) || a.owns(p, cap)
                });
                match home {
                    None => report(&["C08", "C06"], format!("{}: capacity {cap} is not backed by a live block", self.op)),
                    Some(h) if o.mask & 1 << h == 0 => report(
                        &["C12"],
                        format!("{}: text is stored in the allocator {h}, own are {:b} (bits)", self.op, o.mask),
                    ),
                    Some(h) => {
                        self.pool[k].mask = 1 << h;
                        if self.cur.len() > 1 && self.cur.last().unwrap().0 != h {
                            self.cx.count("outer_object_checks", 1);
                        }
                    }
                }
            }
        }
    }

    fn exec(&mut self, i: usize, op: &'static str) {
        let m = self.pool[i].m.clone();
        let len = m.len();
        let tags = self.cfg.tags;
        let j = (i + 1) % self.pool.len();
        match op {
            "push" => {
                let c = any_char(self.cx);
                self.need = len + c.len_utf8();
                self.s(i).push(c);
                self.pool[i].m.push(c);
            }
            "push_str" => {
                let n = self.piece(9);
                let t = text(self.cx, n);
                self.need = len + t.len();
                self.s(i).push_str(&t);
                self.pool[i].m.push_str(&t);
            }
            "pop" => {
                let r = self.s(i).pop();
                let e = self.pool[i].m.pop();
                if r != e {
                    report(tags, format!("pop of {m:?} gives {r:?}"));
                }
            }
            "insert" => {
                let at = self.boundary(&m);
                let c = any_char(self.cx);
                self.need = len + c.len_utf8();
                self.shape = at as u64;
                self.s(i).insert(at, c);
                self.pool[i].m.insert(at, c);
            }
            "insert_str" => {
                let at = self.boundary(&m);
                let n = self.piece(7);
                let t = text(self.cx, n);
                self.need = len + t.len();
                self.shape = at as u64;
                self.s(i).insert_str(at, &t);
                self.pool[i].m.insert_str(at, &t);
            }
            "remove" => {
                let at = self.boundary(&m);
                self.shape = at as u64;
                if at == len {
                    self.expect_panic = true;
                }
                let r = self.s(i).remove(at);
                if self.expect_panic {
                    return;
                }
                let e = self.pool[i].m.remove(at);
                if r != e {
                    report(tags, format!("remove({at}) of {m:?} gives {r:?}"));
                }
            }
            "truncate" => {
                let at = if self.cx.rng.chance(1, 5) { len + self.cx.rng.below(4) } else { self.boundary(&m) };
                self.shape = at as u64;
                self.s(i).truncate(at);
                self.pool[i].m.truncate(at);
            }
            "clear" => {
                self.s(i).clear();
                self.pool[i].m.clear();
            }
            "split_off" => {
                let at = self.boundary(&m);
                self.shape = at as u64;
                let mask = self.derived_mask(i);
                let t = self.s(i).split_off(at);
                let tm = self.pool[i].m.split_off(at);
                self.put(j, t, tm, mask);
            }
            "retain" => {
                let bits = self.cx.rng.next();
                let kind = self.cx.rng.below(4);
                let n = m.chars().count();
                let die = self.die(n);
                let keep = move |k: usize, c: char| match kind {
                    0 => k > 0,
                    1 => c.is_ascii(),
                    2 => !c.is_ascii(),
                    _ => bits >> (k % 64) & 1 == 1,
                };
                let mut k = 0;
                let mut seen = String::new();
                let mut s = self.pool[i].s.take().unwrap();
                let r = catch(|| {
                    s.retain(|c| {
                        seen.push(c);
                        let n = k;
                        self.bomb(&mut k, die);
                        keep(n, c)
                    })
                });
                self.pool[i].s = Some(s);
                if let Err(e) = r {
                    panic!("{e}");
                }
                if seen != m {
                    report(tags, format!("retain visited {seen:?} of {m:?}"));
                }
                let mut k = 0;
                self.pool[i].m.retain(|c| {
                    k += 1;
                    keep(k - 1, c)
                });
            }
            "reserve" | "try_reserve" => {
                let cap = self.s(i).capacity();
                let n = match self.cx.rng.below(4) {
                    0 => 0,
                    1 => cap - len,
                    2 => cap - len + 1,
                    _ => self.cx.rng.below(40),
                };
                self.need = len + n;
                self.shape = n as u64;
                let exact = self.cx.rng.chance(1, 2);
                let s = self.s(i);
                let r: Result<(), ()> = match (op, exact) {
                    ("reserve", false) => Ok(s.reserve(n)),
                    ("reserve", true) => Ok(s.reserve_exact(n)),
                    (_, false) => s.try_reserve(n).map_err(|_| ()),
                    (_, true) => s.try_reserve_exact(n).map_err(|_| ()),
                };
                let now = s.capacity();
                match r {
                    Ok(()) => want!(["C08"], now >= len + n, "{op}({n}) with {len} bytes leaves capacity {now}"),
                    Err(()) => {
                        let oom = self.failures() > self.fails0;
                        want!(["C08"], oom, "{op}({n}) fails");
                        want!(["C07"], now == cap, "refused reserve changed the capacity");
                    }
                }
            }
            "huge" => {
                self.free_alloc = true;
                let n = *self.cx.rng.pick(&[usize::MAX, usize::MAX - len, isize::MAX as usize, isize::MAX as usize + 1 - len, 1 << 23]);
                let cap = self.s(i).capacity();
                let which = self.cx.rng.below(4);
                self.shape = which as u64;
                let s = self.s(i);
                let r = match which {
                    0 => s.try_reserve(n).is_err(),
                    1 => s.try_reserve_exact(n).is_err(),
                    2 => LString::try_with_capacity(n).is_err(),
                    _ => LString::try_with_capacity_and_marker(n, AllocMarker::None).is_err(),
                };
                want!(["C08", "C07"], r, "request for {n} bytes succeeded");
                want!(["C08", "C07"], self.s(i).capacity() == cap, "refused request changed the capacity");
            }
            "shrink" => {
                self.free_alloc = true;
                let cap = self.s(i).capacity();
                let n = self.cx.rng.below(cap + 3);
                let fit = self.cx.rng.chance(1, 2);
                self.shape = n as u64;
                let s = self.s(i);
                if fit {
                    s.shrink_to_fit()
                } else {
                    s.shrink_to(n)
                }
                let exp = if fit { len } else { cap.min(len.max(n)) };
                let now = s.capacity();
                want!(["C08"], now == exp, "shrink to {n} ({fit}) with {len} of {cap} leaves capacity {now}");
            }
            "bad_index" => {
                // Positions that are not on the boundary or are out of range.
                let mut bad: Vec<usize> = (0..len).filter(|i| !m.is_char_boundary(*i)).collect();
                let inner = bad.clone();
                bad.extend([len + 1, len + 7, usize::MAX]);
                let at = *self.cx.rng.pick(&bad);
                let which = self.cx.rng.below(8);
                self.shape = (which as u64) << 8 | at as u64 & 0xFF;
                self.expect_panic = true;
                // Insertion may reserve the memory before the check.
                self.free_alloc = true;
                let s = self.pool[i].s.as_mut().unwrap();
                match which {
                    0 => s.insert(at, 'z'),
                    1 => s.insert_str(at, "zz"),
                    2 => {
                        s.remove(at);
                    }
                    3 => {
                        let _ = s.split_off(at);
                    }
                    4 => match inner.first() {
                        Some(at) => s.truncate(*at),
                        None => {
                            self.expect_panic = false;
                        }
                    },
                    5 => {
                        let _ = &s[at..];
                    }
                    6 => {
                        let _ = &s[..at];
                    }
                    _ => {
                        let _ = &mut s[at.saturating_sub(1).min(len + 1)..at];
                        // Only an empty or a valid range may get there.
                        self.expect_panic = false;
                        let lo = at.saturating_sub(1).min(len + 1);
                        if m.get(lo..at).is_none() {
                            report(tags, format!("index {lo}..{at} of {m:?} did not panic"));
                        }
                    }
                }
            }
            "from_utf8" => {
                let n = self.piece(8);
                let mut b: Vec<u8> = text(self.cx, n).into_bytes();
                for _ in 0..self.cx.rng.below(3) {
                    if !b.is_empty() {
                        let k = self.cx.rng.below(b.len());
                        match self.cx.rng.below(3) {
                            0 => b[k] ^= 1 << self.cx.rng.below(8),
                            1 => {
                                b.remove(k);
                            }
                            _ => b.insert(k, *self.cx.rng.pick(&[0x80u8, 0xC0, 0xED, 0xF5, 0xFF, b'a'])),
                        }
                    }
                }
                let v: LVec<u8> = LVec::from(&b[..]);
                let std = std::str::from_utf8(&b);
                self.shape = std.is_ok() as u64;
                self.free_alloc = true;
                match (LString::from_utf8(v), std) {
                    (Ok(s), Ok(e)) => {
                        let e = e.to_string();
                        let mask = self.new_mask();
                        self.put(i, s, e, mask);
                    }
                    (Err(a), Err(b)) => {
                        if a != b {
                            report(tags, format!("from_utf8 error {a:?}, expected {b:?}"));
                        }
                    }
                    (r, _) => {
                        report(tags, format!("from_utf8 of {b:?} gives Ok: {}", r.is_ok()));
                        std::mem::forget(r);
                    }
                }
            }
            "from_utf16" => {
                let n = if self.max_len > 1000 { 8 } else { self.piece(8) };
                let t = text(self.cx, n);
                let mut w: Vec<u16> = t.encode_utf16().collect();
                if self.cx.rng.chance(1, 3) && !w.is_empty() {
                    let k = self.cx.rng.below(w.len());
                    match self.cx.rng.below(3) {
                        0 => w[k] = 0xD800 + self.cx.rng.below(0x800) as u16,
                        1 => {
                            w.remove(k);
                        }
                        _ => w.insert(k, 0xDC00),
                    }
                }
                self.free_alloc = true;
                let e = String::from_utf16(&w);
                self.shape = e.is_ok() as u64;
                match (LString::from_utf16(&w), e) {
                    (Ok(s), Ok(e)) => {
                        let mask = self.new_mask();
                        self.put(i, s, e, mask);
                    }
                    (Err(_), Err(_)) => {}
                    (r, e) => report(tags, format!("from_utf16 of {w:x?} gives {r:?}, expected {e:?}")),
                }
            }
            "clone" => {
                let mask = self.derived_mask(i);
                let c = self.s(i).clone();
                self.put(j, c, m, mask);
            }
            "from_char" => {
                let c = any_char(self.cx);
                let s = LString::from(c);
                let mask = self.new_mask();
                self.put(i, s, c.to_string(), mask);
            }
            "from_str" => {
                let n = self.piece(9);
                let t = text(self.cx, n);
                let s = match self.cx.rng.below(3) {
                    0 => LString::from(&t[..]),
                    1 => t.parse::<LString>().unwrap(),
                    _ => {
                        let s = LString::from(&t[..]);
                        LString::from(&s)
                    }
                };
                let mask = self.new_mask();
                self.put(i, s, t, mask);
            }
            "collect" => {
                let t = text(self.cx, 9);
                let which = self.cx.rng.below(4);
                self.shape = which as u64;
                let v: Vec<char> = t.chars().collect();
                let s: LString = match which {
                    0 => v.iter().collect(),
                    1 => {
                        let die = self.die(v.len());
                        let mut k = 0;
                        let lie = self.lie(v.len());
                        Lie {
                            lie,
                            it: v.iter().map(|c| {
                                self.bomb(&mut k, die);
                                *c
                            }),
                        }
                        .collect()
                    }
                    2 => t.split_inclusive('a').collect(),
                    _ => {
                        let parts: Vec<LString> = t.split_inclusive('a').map(LString::from).collect();
                        parts.into_iter().collect()
                    }
                };
                let mask = self.new_mask();
                self.put(i, s, t, mask);
            }
            "extend" => {
                let t = text(self.cx, 9);
                self.need = len + t.len();
                let which = self.cx.rng.below(3);
                self.shape = which as u64;
                let full = format!("{m}{t}");
                self.partial = Some(full.clone());
                let v: Vec<char> = t.chars().collect();
                match which {
                    0 => {
                        let lie = self.lie(v.len());
                        if let Some((l, _)) = lie {
                            self.need = self.need.max(len + 4 * l);
                        }
                        self.s(i).extend(Lie { lie, it: v.iter() });
                    }
                    1 => {
                        let die = self.die(v.len());
                        let mut k = 0;
                        let mut s = self.pool[i].s.take().unwrap();
                        let lie = self.lie(v.len());
                        if let Some((l, _)) = lie {
                            self.need = self.need.max(len + 4 * l);
                        }
                        let r = catch(|| {
                            s.extend(Lie {
                                lie,
                                it: v.iter().map(|c| {
                                    self.bomb(&mut k, die);
                                    *c
                                }),
                            })
                        });
                        self.pool[i].s = Some(s);
                        if let Err(e) = r {
                            panic!("{e}");
                        }
                    }
                    _ => {
                        self.s(i).extend(t.split_inclusive('a'));
                    }
                }
                self.pool[i].m = full;
            }
            "extend_owned" => {
                self.free_alloc = true;
                let t = text(self.cx, 9);
                let full = format!("{m}{t}");
                self.partial = Some(full.clone());
                let parts: Vec<LString> = t.split_inclusive('a').map(LString::from).collect();
                self.s(i).extend(parts);
                self.pool[i].m = full;
            }
            "add" => {
                let n = self.piece(7);
                let t = text(self.cx, n);
                self.need = len + t.len();
                if self.cx.rng.chance(1, 2) {
                    *self.s(i) += &t;
                } else {
                    let s = self.pool[i].s.take().unwrap();
                    // Is gone if the operation fails.
                    self.pool[i].m.clear();
                    let s = s + &t;
                    self.pool[i].s = Some(s);
                }
                self.pool[i].m = m + &t;
            }
            "write" => {
                let t = text(self.cx, 5);
                let n = self.cx.rng.below(1000);
                let full = format!("{m}{n}:{t:?}{t}");
                self.need = full.len();
                self.partial = Some(full.clone());
                let r = if self.cx.rng.chance(1, 4) {
                    let s = self.s(i);
                    write!(s, "{n}:{t:?}").and_then(|_| t.chars().try_for_each(|c| s.write_char(c)))
                } else {
                    write!(self.s(i), "{n}:{t:?}{t}")
                };
                if r.is_err() {
                    report(tags, "write fails".into());
                }
                self.pool[i].m = full;
            }
            "with_cap" | "new" => {
                let n = if op == "new" { 0 } else { self.cx.rng.below(30) };
                let mk = AllocMarker::new::<MarkedTy>();
                let (a, b) = *self.cur.last().unwrap();
                let which = self.cx.rng.below(if op == "new" { 3 } else { 4 });
                self.shape = which as u64;
                let (s, mask) = if op == "new" {
                    match which {
                        0 => (LString::new(), 1 << a),
                        1 => (LString::default(), 1 << a),
                        _ => (LString::with_marker(mk), 1 << b),
                    }
                } else {
                    match which {
                        0 => (LString::with_capacity(n), 1 << a),
                        1 => (LString::with_capacity_and_marker(n, mk), 1 << b),
                        w => {
                            let r = if w == 2 {
                                LString::try_with_capacity(n)
                            } else {
                                LString::try_with_capacity_and_marker(n, mk)
                            };
                            match r {
                                Ok(s) => (s, if w == 2 { 1 << a } else { 1 << b }),
                                Err(_) => {
                                    self.free_alloc = true;
                                    want!(["C08"], self.failures() > self.fails0, "try_with_capacity({n}) fails");
                                    return;
                                }
                            }
                        }
                    }
                };
                want!(["C08"], s.capacity() >= n, "with_capacity({n}) gives {}", s.capacity());
                self.put(i, s, String::new(), mask);
            }
            "views" => {
                let s = self.pool[i].s.as_ref().unwrap();
                let o = self.pool[j].s.as_ref().unwrap();
                let om = &self.pool[j].m;
                let ok = format!("{s}") == format!("{m}")
                    && format!("{s:?}") == format!("{m:?}")
                    && format!("{s:>12.3}|{s:<7}|") == format!("{m:>12.3}|{m:<7}|")
                    && hash_of(s) == hash_of(&m)
                    && hash_of(s) == hash_of(s.as_str())
                    && (s == o) == (m == *om)
                    && s.cmp(o) == m.cmp(om)
                    && s.partial_cmp(o) == m.partial_cmp(om)
                    && <LString as AsRef<str>>::as_ref(s) == m
                    && <LString as std::borrow::Borrow<str>>::borrow(s) == m;
                if !ok {
                    report(&["C20", "C03"], format!("{m:?} is shown or compared differently (with {om:?})"));
                }
            }
            "slices" => {
                let a = self.boundary(&m);
                let b = self.boundary(&m);
                let (a, b) = (a.min(b), a.max(b));
                let kind = self.cx.rng.below(6);
                let s = self.s(i);
                let mut ok = s[a..b] == m[a..b] && s[..b] == m[..b] && s[a..] == m[a..] && s[..] == m[..];
                if b > a && m.is_char_boundary(b) {
                    ok &= s[a..=b - 1] == m[a..=b - 1] && s[..=b - 1] == m[..=b - 1];
                }
                if !ok {
                    report(tags, format!("slices {a}..{b} of {m:?} differ"));
                }
                let incl = b > a;
                let r = match kind {
                    0 => { s[..b].make_ascii_uppercase(); 0..b }
                    1 => { s[a..].make_ascii_uppercase(); a..m.len() }
                    2 => { s[..].make_ascii_uppercase(); 0..m.len() }
                    3 if incl => { s[a..=b - 1].make_ascii_uppercase(); a..b }
                    4 if incl => { s[..=b - 1].make_ascii_uppercase(); 0..b }
                    _ => { s[a..b].make_ascii_uppercase(); a..b }
                };
                self.pool[i].m[r].make_ascii_uppercase();
            }
            "as_mut" => {
                let s = self.pool[i].s.as_mut().unwrap();
                match self.cx.rng.below(4) {
                    3 => std::borrow::BorrowMut::<str>::borrow_mut(s).make_ascii_lowercase(),
                    0 => s.as_mut_str().make_ascii_lowercase(),
                    1 => (&mut **s).make_ascii_lowercase(),
                    _ => AsMut::<str>::as_mut(s).make_ascii_lowercase(),
                }
                self.pool[i].m.make_ascii_lowercase();
            }
            "unchecked" => {
                self.free_alloc = true;
                let t = text(self.cx, 6);
                let v: LVec<u8> = LVec::from(t.as_bytes());
                // SAFETY: made of a string.
                let mut s = unsafe { LString::from_utf8_unchecked(v) };
                // SAFETY: ASCII only.
                unsafe { s.as_mut_vec().push(b'!') };
                let mask = self.new_mask();
                self.put(i, s, t + "!", mask);
            }
            "swap" => {
                self.free_alloc = true;
                self.pool.swap(i, j);
            }
            _ => unreachable!("HARNESS op {op}"),
        }
    }
}

/// Whether the characters are some of these.
fn part_of(now: &str, old: &str) -> bool {
    let mut left: Vec<char> = old.chars().collect();
    left.sort_unstable();
    let mut now: Vec<char> = now.chars().collect();
    now.sort_unstable();
    let mut left = left.into_iter();
    now.iter().all(|c| left.any(|x| x == *c))
}

fn go(cx: &mut Ctx, bombs: bool, oom: bool, scopes: bool, tags: &'static [&'static str]) {
    set_own_tags(tags);
    let n = if cfg!(miri) { cx.rng.range(8, 16) } else { cx.rng.range(10, 50) };
    let steps = n * cx.scale.max(1);
    S::run(cx, Cfg { bombs, oom, scopes, tags, steps })
}

pub fn string(cx: &mut Ctx) {
    if !cfg!(miri) && cx.rng.chance(1, 150) {
        set_own_tags(&["C03"]);
        return crate::long::string(cx);
    }
    go(cx, false, false, false, &["C03"])
}
pub fn panics(cx: &mut Ctx) {
    go(cx, true, false, false, &["C05"])
}
pub fn oom(cx: &mut Ctx) {
    go(cx, false, true, false, &["C07"])
}
pub fn affinity(cx: &mut Ctx) {
    go(cx, false, false, true, &["C12"])
}

/// Iterator which may give a hint that is not true.
struct Lie<I> {
    it: I,
    lie: Option<(usize, Option<usize>)>,
}
impl<I: Iterator> Iterator for Lie<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.lie.unwrap_or_else(|| self.it.size_hint())
    }
}
