//! Instrumented allocator. Each request is recorded and checked against the protocol of
//! `GlobalAlloc`. Blocks are never reused inside of one case and are poisoned when released, so
//! stale accesses are visible. All bookkeeping is made of relaxed atomics: the monitor must not
//! add synchronization to the code under test.
use crate::run::report;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering::Relaxed};

const RZ: usize = 32;
const MAGIC: u64 = 0x10CC_A110_CBEE_F00D;
pub const FREED: u8 = 0xDD;
pub const FRESH: u8 = 0xCD;
const FENCE: u8 = 0xFB;

const PER_BLOCK: bool = cfg!(any(miri, feature = "sysalloc"));
const SLOTS: usize = if cfg!(miri) { 2048 } else { 1 << 16 };
const REGION: usize = 32 << 20;

#[derive(Default)]
pub struct Slot {
    addr: AtomicUsize,
    size: AtomicUsize,
    align: AtomicUsize,
    /// 0 - none, 1 - live, 2 - released
    state: AtomicUsize,
}

pub struct Arena {
    pub id: u32,
    /// The scope that owns the arena ended.
    dead: AtomicBool,
    pub n_alloc: AtomicUsize,
    pub n_free: AtomicUsize,
    pub n_failed: AtomicUsize,
    pub live: AtomicIsize,
    pub live_bytes: AtomicIsize,
    /// Number of successful allocations before failing; negative - do not fail.
    fail_after: AtomicIsize,
    /// Fail the request when the memory for the case is exhausted, instead of giving up.
    lenient: AtomicBool,
    slots: Vec<Slot>,
    nslots: AtomicUsize,
    region: AtomicUsize,
    bump: AtomicUsize,
}

fn hdr(addr: usize) -> *mut u64 {
    (addr - 16) as *mut u64
}

impl Arena {
    pub fn leak(id: u32) -> &'static Arena {
        let mut slots = Vec::new();
        slots.resize_with(SLOTS, Slot::default);
        let region = if PER_BLOCK {
            0
        } else {
            // Lazily populated by the OS.
            let p = unsafe { System.alloc_zeroed(Layout::from_size_align(REGION, 4096).unwrap()) };
            assert!(!p.is_null());
            p as usize
        };
        Box::leak(Box::new(Arena {
            id,
            dead: AtomicBool::new(false),
            n_alloc: 0.into(),
            n_free: 0.into(),
            n_failed: 0.into(),
            live: 0.into(),
            live_bytes: 0.into(),
            fail_after: (-1).into(),
            lenient: AtomicBool::new(false),
            slots,
            nslots: 0.into(),
            region: region.into(),
            bump: 0.into(),
        }))
    }

    /// Prepare for the next case. Must be called when no one uses the arena.
    pub fn reset(&self) {
        for i in 0..self.nslots.load(Relaxed).min(SLOTS) {
            let s = &self.slots[i];
            s.addr.store(0, Relaxed);
            s.state.store(0, Relaxed);
        }
        self.nslots.store(0, Relaxed);
        self.bump.store(0, Relaxed);
        self.dead.store(false, Relaxed);
        self.n_alloc.store(0, Relaxed);
        self.n_free.store(0, Relaxed);
        self.n_failed.store(0, Relaxed);
        self.live.store(0, Relaxed);
        self.live_bytes.store(0, Relaxed);
        self.fail_after.store(-1, Relaxed);
        self.lenient.store(false, Relaxed);
    }

    pub fn lenient(&self) {
        self.lenient.store(true, Relaxed);
    }

    pub fn kill(&self) {
        self.dead.store(true, Relaxed);
    }

    pub fn is_dead(&self) -> bool {
        self.dead.load(Relaxed)
    }

    /// Fail each allocation after the given number of successful ones.
    pub fn fail_after(&self, n: usize) {
        self.fail_after.store(n as isize, Relaxed);
    }

    pub fn fail_off(&self) {
        self.fail_after.store(-1, Relaxed);
    }

    pub fn live_blocks(&self) -> isize {
        self.live.load(Relaxed)
    }

    pub fn allocs(&self) -> usize {
        self.n_alloc.load(Relaxed)
    }

    pub fn events(&self) -> usize {
        self.n_alloc.load(Relaxed) + self.n_free.load(Relaxed) + self.n_failed.load(Relaxed)
    }

    /// Size of the live block which starts at the address.
    pub fn block_size(&self, addr: *const u8) -> Option<usize> {
        self.find(addr as usize)
            .filter(|s| s.state.load(Relaxed) == 1)
            .map(|s| s.size.load(Relaxed))
    }

    /// Whether the address range lies inside of one live block.
    pub fn owns(&self, addr: *const u8, size: usize) -> bool {
        let a = addr as usize;
        let n = self.nslots.load(Relaxed).min(SLOTS);
        (0..n).rev().any(|i| {
            let s = &self.slots[i];
            let b = s.addr.load(Relaxed);
            s.state.load(Relaxed) == 1 && b <= a && a + size <= b + s.size.load(Relaxed)
        })
    }

    fn find(&self, addr: usize) -> Option<&Slot> {
        if !PER_BLOCK {
            let base = self.region.load(Relaxed);
            if addr < base + RZ || addr > base + REGION - RZ || addr % 16 != 0 {
                return None;
            }
            let h = unsafe { (hdr(addr).read(), hdr(addr).add(1).read()) };
            if h.0 != MAGIC {
                return None;
            }
            let i = (h.1 & 0xFFFF_FFFF) as usize;
            return self.slots.get(i).filter(|s| s.addr.load(Relaxed) == addr);
        }
        let n = self.nslots.load(Relaxed).min(SLOTS);
        (0..n)
            .rev()
            .map(|i| &self.slots[i])
            .find(|s| s.addr.load(Relaxed) == addr)
    }

    fn check_fences(&self, s: &Slot) {
        if PER_BLOCK {
            return;
        }
        let addr = s.addr.load(Relaxed);
        let size = s.size.load(Relaxed);
        unsafe {
            let pre = std::slice::from_raw_parts((addr - RZ) as *const u8, RZ - 16);
            let post = std::slice::from_raw_parts((addr + size) as *const u8, RZ);
            if pre.iter().chain(post).any(|&b| b != FENCE) || hdr(addr).read() != MAGIC {
                report(&["ANY"], format!("memory around the block of {size} bytes was written"));
            }
        }
    }

    /// Check the blocks at the end of the case: fences, poison of released ones.
    pub fn audit(&self) {
        for i in 0..self.nslots.load(Relaxed).min(SLOTS) {
            let s = &self.slots[i];
            let st = s.state.load(Relaxed);
            if st == 0 || PER_BLOCK {
                continue;
            }
            self.check_fences(s);
            if st == 2 {
                let b = unsafe {
                    std::slice::from_raw_parts(s.addr.load(Relaxed) as *const u8, s.size.load(Relaxed))
                };
                if b.iter().any(|&b| b != FREED) {
                    report(&["ANY"], format!("released block of {} bytes was written", b.len()));
                }
            }
        }
    }

    /// Most of the memory for this case is given out.
    pub fn mostly_used(&self) -> bool {
        self.bump.load(Relaxed) > REGION / 2 || self.nslots.load(Relaxed) > SLOTS / 2
    }

    /// Sizes of blocks which are not released.
    pub fn leaks(&self) -> Vec<usize> {
        (0..self.nslots.load(Relaxed).min(SLOTS))
            .map(|i| &self.slots[i])
            .filter(|s| s.state.load(Relaxed) == 1)
            .map(|s| s.size.load(Relaxed))
            .collect()
    }
}

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() == 0 {
            report(&["C06"], "zero-sized block requested from the allocator".into());
        }
        if self.is_dead() {
            report(&["C12"], "allocation from the allocator of the ended scope".into());
        }
        let left = self.fail_after.load(Relaxed);
        let full = self.lenient.load(Relaxed)
            && (self.nslots.load(Relaxed) >= SLOTS
                || !PER_BLOCK && self.bump.load(Relaxed) + layout.size() + layout.align() + 4 * RZ > REGION);
        if left == 0 || full || layout.size() > (1 << 22) {
            self.n_failed.fetch_add(1, Relaxed);
            return std::ptr::null_mut();
        }
        if left > 0 {
            self.fail_after.store(left - 1, Relaxed);
        }
        let i = self.nslots.fetch_add(1, Relaxed);
        if i >= SLOTS {
            eprintln!("HARNESS: too many blocks in one case");
            std::process::exit(3);
        }
        let addr;
        if PER_BLOCK {
            let l = Layout::from_size_align(layout.size().max(1), layout.align()).unwrap();
            addr = System.alloc(l) as usize;
            if addr == 0 {
                return std::ptr::null_mut();
            }
        } else {
            let al = layout.align().max(16);
            let total = (layout.size() + al + 2 * RZ + 15) & !15;
            let off = self.bump.fetch_add(total, Relaxed);
            if off + total > REGION {
                eprintln!("HARNESS: arena exhausted in one case");
                std::process::exit(3);
            }
            let base = self.region.load(Relaxed) + off;
            addr = (base + RZ + al - 1) & !(al - 1);
            std::ptr::write_bytes((addr - RZ) as *mut u8, FENCE, RZ - 16);
            hdr(addr).write(MAGIC);
            hdr(addr).add(1).write(i as u64 | (self.id as u64) << 32);
            std::ptr::write_bytes((addr + layout.size()) as *mut u8, FENCE, RZ);
        }
        if !cfg!(miri) {
            std::ptr::write_bytes(addr as *mut u8, FRESH, layout.size());
        }
        let s = &self.slots[i];
        s.size.store(layout.size(), Relaxed);
        s.align.store(layout.align(), Relaxed);
        s.state.store(1, Relaxed);
        s.addr.store(addr, Relaxed);
        self.n_alloc.fetch_add(1, Relaxed);
        self.live.fetch_add(1, Relaxed);
        self.live_bytes.fetch_add(layout.size() as isize, Relaxed);
        addr as *mut u8
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if self.is_dead() {
            report(&["C12"], "block returned to the allocator of the ended scope".into());
        }
        let Some(s) = self.find(ptr as usize) else {
            report(
                &["C06"],
                format!(
                    "returned pointer is not a block of this allocator (layout {}/{})",
                    layout.size(),
                    layout.align()
                ),
            );
            return;
        };
        if s.state.swap(2, Relaxed) != 1 {
            report(&["C06"], format!("block of {} bytes returned twice", layout.size()));
            return;
        }
        let (size, align) = (s.size.load(Relaxed), s.align.load(Relaxed));
        if (size, align) != (layout.size(), layout.align()) {
            report(
                &["C06"],
                format!(
                    "block allocated with layout {size}/{align} returned with {}/{}",
                    layout.size(),
                    layout.align()
                ),
            );
        }
        self.n_free.fetch_add(1, Relaxed);
        self.live.fetch_sub(1, Relaxed);
        self.live_bytes.fetch_sub(size as isize, Relaxed);
        if PER_BLOCK {
            // Release with the true layout so that the process survives.
            System.dealloc(ptr, Layout::from_size_align(size.max(1), align).unwrap());
        } else {
            self.check_fences(s);
            std::ptr::write_bytes(ptr, FREED, size);
        }
    }
}
