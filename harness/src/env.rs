//! Per-thread lokky environment whose base scope uses the arena selected by the running case.
use crate::arena::Arena;
use lokky::scope::{self, AllocSelector, Env, Scope};
use std::alloc::GlobalAlloc;
use std::cell::Cell;

pub struct Base;

impl Scope for Base {
    fn alloc_for(&self, _s: AllocSelector) -> &dyn GlobalAlloc {
        crate::elem::scope_asked();
        base()
    }
}

thread_local! {
    static BASE: Cell<Option<&'static Arena>> = const { Cell::new(None) };
    static ENVP: Cell<*mut Env> = const { Cell::new(std::ptr::null_mut()) };
}

/// Arena of the base scope of this thread.
pub fn base() -> &'static Arena {
    BASE.with(|b| b.get()).expect("base arena is not set")
}

pub fn set_base(a: &'static Arena) {
    BASE.with(|b| b.set(Some(a)))
}

fn env_fn() -> &'static mut Env {
    ENVP.with(|e| {
        if e.get().is_null() {
            let base: &'static mut Base = Box::leak(Box::new(Base));
            e.set(Box::leak(Box::new(Env::new(base))));
        }
        unsafe { &mut *e.get() }
    })
}

/// Start from the base scope again, whatever the previous case did.
pub fn reset_env() {
    env_fn();
    ENVP.with(|e| unsafe {
        let base: &'static mut Base = Box::leak(Box::new(Base));
        e.get().write(Env::new(base));
    })
}

pub fn init_env() {
    unsafe { scope::ENV = Some(env_fn) }
}

/// Identity of the allocator that the current scope gives for the selector.
pub fn current_alloc(sel: AllocSelector) -> *const u8 {
    let x = ();
    scope::current(&x).alloc_for(sel) as *const dyn GlobalAlloc as *const u8
}
