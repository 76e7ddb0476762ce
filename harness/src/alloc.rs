//! Counts, per thread, the largest single allocation request and total bytes requested, and lets
//! absurdly large requests succeed lazily (mmap NORESERVE) so that they can be reported instead of
//! aborting the process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Meter;
thread_local! {
    static MAX: Cell<usize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
}
const HUGE: usize = 1 << 31;

fn note(n: usize) {
    let _ = TOTAL.try_with(|t| t.set(t.get().wrapping_add(n)));
    let _ = MAX.try_with(|m| {
        if n > m.get() {
            m.set(n)
        }
    });
}

unsafe fn huge_alloc(n: usize) -> *mut u8 {
    let p = libc::mmap(
        std::ptr::null_mut(),
        n,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    if p == libc::MAP_FAILED {
        std::ptr::null_mut()
    } else {
        p as *mut u8
    }
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() >= HUGE {
            return huge_alloc(l.size());
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() >= HUGE {
            libc::munmap(p as *mut _, l.size());
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        note(new);
        if l.size() < HUGE && new < HUGE {
            return System.realloc(p, l, new);
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

/// All that this thread has asked for so far.
pub fn total() -> usize {
    TOTAL.with(|t| t.get())
}

/// Run `f`, returning its result and the largest single allocation it asked for.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let old = MAX.with(|m| m.replace(0));
    let r = f();
    let got = MAX.with(|m| m.get());
    MAX.with(|m| m.set(old.max(got)));
    (r, got)
}
