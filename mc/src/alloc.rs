//! Allocation accounting for calls under test: a call that allocates without bound is reported as a
//! violation instead of taking the machine down.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub const MEM_LIMIT: isize = 3 << 30;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
}
static OFF: AtomicBool = AtomicBool::new(false);

pub fn enter() -> (isize, bool) {
    let o = (LIVE.with(|l| l.get()), ON.with(|l| l.get()));
    if !o.1 {
        LIVE.with(|l| l.set(0));
        ON.with(|l| l.set(true));
    }
    o
}
pub fn leave(o: (isize, bool)) {
    ON.with(|l| l.set(o.1));
    if !o.1 {
        LIVE.with(|l| l.set(o.0));
    }
}
pub fn disable() {
    OFF.store(true, Ordering::Relaxed);
}

struct A;
#[inline]
fn count(n: isize) {
    LIVE.with(|l| {
        let x = l.get() + n;
        l.set(x);
        if x > MEM_LIMIT && ON.with(|o| o.replace(false)) && !OFF.load(Ordering::Relaxed) {
            crate::explore::out_of_memory();
        }
    });
}
// SAFETY: forwards to the system allocator
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: A = A;
