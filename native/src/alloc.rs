//! Counts the memory each thread holds, and ends the run with the case at hand where a request
//! is out of all proportion.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

const ABSURD: usize = 1 << 30;
const HELD: i64 = 3 << 30;

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if v > HELD && n > 0 {
            l.set(0);
            crate::fatal(&format!("{} bytes of memory are held at once", v));
        }
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > ABSURD {
            absurd(l.size());
        }
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > ABSURD {
            absurd(l.size());
        }
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > ABSURD {
            absurd(n);
        }
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
}

fn absurd(n: usize) -> ! {
    // The allocator cannot unwind. Report the running case and leave.
    crate::fatal(&format!("a single allocation of {} bytes was requested", n))
}

/// The highest amount of memory held above the starting point while `f` runs.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let start = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(start));
    let r = f();
    let top = PEAK.with(|p| p.get());
    (r, (top - start).max(0) as u64)
}
