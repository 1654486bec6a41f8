//! Instrumented elements: every instance is registered, every drop is accounted, a dead or
//! never created instance is recognized when observed.
use crate::rng::mix;
use crate::run::{own_tags, report};

/// The value is not a live one: ownership is broken, and so is memory safety.
#[cold]
fn bad(msg: String) {
    let mut t = own_tags().to_vec();
    t.push("C19");
    report(&t, msg);
}

use std::cell::UnsafeCell;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq)]
enum St {
    Live,
    Dead,
}

pub struct Reg {
    st: Vec<(St, u32)>,
    /// Slots of one byte elements: `(id + 1)` or 0, and the queue of free ones.
    slots: [u32; 256],
    next_slot: u8,
    pub live: isize,
    pub created: u64,
    pub dropped: u64,
    /// Negative: do not panic. Otherwise the number of calls to survive.
    pub clone_bomb: isize,
    pub drop_bomb: isize,
    pub eq_bomb: isize,
    /// Same for the requests of allocators from scopes.
    pub scope_bomb: isize,
    pub bombs_hit: u64,
    pub clones: u64,
    /// Drops are appended here when enabled.
    pub drop_log: Option<Vec<u32>>,
}

struct Cell0(UnsafeCell<Reg>);
thread_local! {
    static REG: Cell0 = const { Cell0(UnsafeCell::new(Reg {
        st: Vec::new(), slots: [0; 256], next_slot: 0, live: 0, created: 0, dropped: 0,
        clone_bomb: -1, drop_bomb: -1, eq_bomb: -1, scope_bomb: -1, bombs_hit: 0, clones: 0, drop_log: None,
    })) };
}

/// Registry of this thread. References to it must not be kept over calls to lokky.
#[allow(clippy::mut_from_ref)]
pub fn reg() -> &'static mut Reg {
    REG.with(|r| unsafe { &mut *r.0.get() })
}

pub const BOMB: &str = "injected panic";

fn bomb(f: impl Fn(&mut Reg) -> &mut isize) {
    let r = reg();
    let b = f(r);
    if *b == 0 {
        *b = -1;
        r.bombs_hit += 1;
        panic!("{}", BOMB);
    }
    if *b > 0 {
        *b -= 1;
    }
}

/// A scope is asked for an allocator.
pub fn scope_asked() {
    bomb(|r| &mut r.scope_bomb);
}

impl Reg {
    pub fn reset(&mut self) {
        self.st.clear();
        self.slots = [0; 256];
        self.next_slot = 0;
        self.live = 0;
        self.created = 0;
        self.dropped = 0;
        self.clones = 0;
        self.bombs_hit = 0;
        self.drop_log = None;
        self.disarm();
    }
    pub fn disarm(&mut self) {
        self.clone_bomb = -1;
        self.drop_bomb = -1;
        self.eq_bomb = -1;
        self.scope_bomb = -1;
    }
    fn make(&mut self, val: u32) -> u32 {
        self.live += 1;
        self.created += 1;
        self.st.push((St::Live, val));
        self.st.len() as u32 - 1
    }
    fn kill(&mut self, id: u32) {
        match self.st.get_mut(id as usize) {
            Some(s) if s.0 == St::Live => {
                s.0 = St::Dead;
                self.live -= 1;
                self.dropped += 1;
                let v = s.1;
                if let Some(l) = &mut self.drop_log {
                    l.push(v);
                }
            }
            Some(s) => {
                let v = s.1;
                bad(format!("element {v} is dropped twice"))
            }
            None => bad("never created element is dropped".into()),
        }
    }
    fn check(&self, id: u32) -> Option<u32> {
        match self.st.get(id as usize) {
            Some(s) if s.0 == St::Live => Some(s.1),
            Some(s) => {
                bad(format!("dropped element {} is observed", s.1));
                None
            }
            None => {
                bad("never created element is observed".into());
                None
            }
        }
    }
}

pub trait Elem: Clone + PartialEq + Eq + PartialOrd + Ord + Hash + Debug + 'static {
    const NAME: &'static str;
    const ZST: bool = false;
    /// Instances are registered; others are plain data without `Drop`.
    const TRACKED: bool = true;
    /// How many instances may exist.
    const LIMIT: usize = usize::MAX;
    fn make(val: u32) -> Self;
    /// Value of the instance. Reports if the instance is not a live one.
    fn val(&self) -> u32;
    fn set(&mut self, val: u32);
}

macro_rules! common {
    ($t:ty) => {
        impl Clone for $t {
            fn clone(&self) -> Self {
                let v = self.val();
                bomb(|r| &mut r.clone_bomb);
                reg().clones += 1;
                Self::make(v)
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                bomb(|r| &mut r.eq_bomb);
                self.val() == o.val()
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                self.val().cmp(&o.val())
            }
        }
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.val().hash(h)
            }
        }
        impl Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                Debug::fmt(&self.val(), f)
            }
        }
    };
}

macro_rules! tok {
    ($n:ident, $pad:expr, $(#[$m:meta])*) => {
        $(#[$m])*
        pub struct $n {
            id: u32,
            val: u32,
            chk: u64,
            pad: [u8; $pad],
        }
        impl $n {
            fn sound(&self) -> bool {
                self.chk == mix(self.id as u64 ^ 0x5EED)
                    && self.pad.iter().all(|&b| b == self.id as u8)
            }
        }
        impl Elem for $n {
            const NAME: &'static str = stringify!($n);
            fn make(val: u32) -> Self {
                let id = reg().make(val);
                $n { id, val, chk: mix(id as u64 ^ 0x5EED), pad: [id as u8; $pad] }
            }
            fn val(&self) -> u32 {
                if !self.sound() {
                    bad("memory that holds no element is observed".into());
                    return u32::MAX;
                }
                match reg().check(self.id) {
                    Some(v) if v == self.val => v,
                    Some(_) => {
                        bad("content of the element is corrupted".into());
                        u32::MAX
                    }
                    None => u32::MAX,
                }
            }
            fn set(&mut self, val: u32) {
                self.val();
                if self.sound() {
                    self.val = val;
                    if let Some(s) = reg().st.get_mut(self.id as usize) {
                        s.1 = val;
                    }
                }
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                if !self.sound() {
                    bad("memory that holds no element is dropped".into());
                    return;
                }
                reg().kill(self.id);
                if !std::thread::panicking() {
                    bomb(|r| &mut r.drop_bomb);
                }
            }
        }
        common!($n);
    };
}

tok!(Tok, 0,);
tok!(TokBig, if cfg!(miri) { 12 } else { 1084 },);
tok!(TokAl, 40, #[repr(align(64))]);

#[cfg(not(miri))]
tok!(TokPage, 4096 - 16, #[repr(align(4096))]);
#[cfg(miri)]
tok!(TokPage, 240, #[repr(align(256))]);

/// Plain data: nothing to drop, copied bitwise. Only its own content tells what it is.
macro_rules! plain {
    ($n:ident, $w:expr, $(#[$m:meta])*) => {
        $(#[$m])*
        #[allow(clippy::non_canonical_clone_impl)]
        pub struct $n([u8; $w]);
        impl $n {
            fn encode(val: u32) -> [u8; $w] {
                assert!(val < 1 << 20, "HARNESS: value is too big");
                let mut b = [0; $w];
                let v = val | 0x50_0000;
                b[..3].copy_from_slice(&v.to_le_bytes()[..3]);
                for (i, x) in b.iter_mut().enumerate().skip(3) {
                    *x = (mix(v as u64) >> (i % 8)) as u8;
                }
                b
            }
        }
        impl Copy for $n {}
        impl Elem for $n {
            const NAME: &'static str = stringify!($n);
            const TRACKED: bool = false;
            fn make(val: u32) -> Self {
                $n(Self::encode(val))
            }
            fn val(&self) -> u32 {
                let v = u32::from_le_bytes([self.0[0], self.0[1], self.0[2], 0]) & 0xF_FFFF;
                if self.0 != Self::encode(v) {
                    bad("memory that holds no element is observed".into());
                    return u32::MAX;
                }
                v
            }
            fn set(&mut self, val: u32) {
                self.val();
                *self = Self::make(val);
            }
        }
        common!($n);
    };
}

plain!(Pl3, 3,);
plain!(Pl4, 4, #[repr(align(4))]);
plain!(Pl48, 48, #[repr(align(16))]);

/// One byte element.
pub struct Tok1(u8);

impl Elem for Tok1 {
    const NAME: &'static str = "Tok1";
    const LIMIT: usize = 200;
    fn make(val: u32) -> Self {
        let r = reg();
        let id = r.make(val);
        for _ in 0..256 {
            let s = r.next_slot;
            r.next_slot = s.wrapping_add(1);
            let old = r.slots[s as usize];
            // Poison patterns are not used as values.
            if s != 0xDD && s != 0xCD && s != 0xFB
                && (old == 0 || r.st[old as usize - 1].0 == St::Dead)
            {
                r.slots[s as usize] = id + 1;
                return Tok1(s);
            }
        }
        panic!("HARNESS: too many one byte elements");
    }
    fn val(&self) -> u32 {
        match reg().slots[self.0 as usize] {
            0 => {
                bad("memory that holds no element is observed".into());
                u32::MAX
            }
            id => reg().check(id - 1).unwrap_or(u32::MAX),
        }
    }
    fn set(&mut self, val: u32) {
        self.val();
        let id = reg().slots[self.0 as usize];
        if id != 0 {
            reg().st[id as usize - 1].1 = val;
        }
    }
}
impl Drop for Tok1 {
    fn drop(&mut self) {
        match reg().slots[self.0 as usize] {
            0 => bad("memory that holds no element is dropped".into()),
            id => reg().kill(id - 1),
        }
        if !std::thread::panicking() {
            bomb(|r| &mut r.drop_bomb);
        }
    }
}
common!(Tok1);

/// Zero-sized element: only the balance is known.
pub struct TokZ(());

impl Elem for TokZ {
    const NAME: &'static str = "TokZ";
    const ZST: bool = true;
    fn make(_: u32) -> Self {
        let r = reg();
        r.live += 1;
        r.created += 1;
        TokZ(())
    }
    fn val(&self) -> u32 {
        if reg().live <= 0 {
            bad("dropped element is observed".into());
        }
        0
    }
    fn set(&mut self, _: u32) {}
}
impl Drop for TokZ {
    fn drop(&mut self) {
        let r = reg();
        r.live -= 1;
        r.dropped += 1;
        if let Some(l) = &mut r.drop_log {
            l.push(0);
        }
        if r.live < 0 {
            bad("element is dropped twice".into());
        }
        if !std::thread::panicking() {
            bomb(|r| &mut r.drop_bomb);
        }
    }
}
common!(TokZ);
