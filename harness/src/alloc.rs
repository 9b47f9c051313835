//! Counting global allocator and the guard every call into the library goes through.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

pub struct Counting;
thread_local! {
    static N: Cell<u64> = const { Cell::new(0) };
    static SEEN: Cell<Option<&'static str>> = const { Cell::new(None) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static OPS: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
    static OPS_ON: Cell<bool> = const { Cell::new(false) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = N.try_with(|n| n.set(n.get() + 1));
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = N.try_with(|n| n.set(n.get() + 1));
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, s: usize) -> *mut u8 {
        let _ = N.try_with(|n| n.set(n.get() + 1));
        System.realloc(p, l, s)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

/// Run a library call; remember its name if it allocated.
#[inline(always)]
pub fn lib<R>(name: &'static str, f: impl FnOnce() -> R) -> R {
    let a = N.with(|n| n.get());
    let r = f();
    if N.with(|n| n.get()) != a {
        SEEN.with(|s| s.set(Some(name)));
    }
    CALLS.with(|c| c.set(c.get() + 1));
    if OPS_ON.with(|o| o.get()) {
        OPS.with(|o| *o.borrow_mut().entry(name).or_insert(0) += 1);
    }
    r
}
pub fn reset() {
    SEEN.with(|s| s.set(None));
}
pub fn offender() -> Option<&'static str> {
    SEEN.with(|s| s.get())
}
pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}
pub fn record_ops(on: bool) {
    OPS_ON.with(|o| o.set(on));
}
pub fn take_ops() -> BTreeMap<&'static str, u64> {
    OPS.with(|o| std::mem::take(&mut *o.borrow_mut()))
}
