//! Counts the memory the current thread uses, while switched on (C20 only).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Count;
static ON: AtomicBool = AtomicBool::new(false);
thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
/// more than this is refused, which ends the process (found by the parent)
const REFUSE: i64 = 2 << 30;

fn account(n: i64) -> bool {
    if !ON.load(Ordering::Relaxed) {
        return true;
    }
    ACTIVE
        .try_with(|a| {
            if !a.get() {
                return true;
            }
            CUR.with(|c| {
                let v = c.get() + n;
                if n > 0 && v > REFUSE {
                    return false;
                }
                c.set(v);
                PEAK.with(|p| p.set(p.get().max(v)));
                true
            })
        })
        .unwrap_or(true)
}
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !account(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !account(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !account(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
}
/// most memory in use by this thread while f runs, beyond what was in use before
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64) {
    ON.store(true, Ordering::Relaxed);
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    ACTIVE.with(|a| a.set(true));
    let r = f();
    ACTIVE.with(|a| a.set(false));
    (r, PEAK.with(|p| p.get()).max(0) as u64)
}
