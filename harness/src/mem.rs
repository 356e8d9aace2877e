//! Counts what a thread allocates, when it asks for it.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Clone, Copy, Default, Debug)]
pub struct Mem {
    /// Bytes asked for in all.
    pub total: u64,
    /// Bytes held now, and at most, beyond those at the start.
    pub live: i64,
    pub peak: i64,
}
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static MEM: Cell<Mem> = const { Cell::new(Mem { total: 0, live: 0, peak: 0 }) };
}
pub struct Counting;
fn count(plus: usize, minus: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let _ = MEM.try_with(|m| {
                let mut x = m.get();
                x.total += plus as u64;
                x.live += plus as i64 - minus as i64;
                x.peak = x.peak.max(x.live);
                m.set(x);
            });
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size(), 0);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size(), 0);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(0, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n, l.size());
        System.realloc(p, l, n)
    }
}
pub fn start() {
    MEM.with(|m| m.set(Mem::default()));
    ON.with(|o| o.set(true));
}
pub fn now() -> Mem {
    MEM.with(|m| m.get())
}
pub fn stop() -> Mem {
    ON.with(|o| o.set(false));
    now()
}
