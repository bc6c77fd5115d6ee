//! Counting global allocator. Requests above HUGE are served from reserve-less mappings so that a
//! runaway `with_capacity` shows up as a measured peak instead of an abort.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
const HUGE: usize = 1 << 32;
/// More than this in use outside of HUGE allocations is a runaway: abort, so that the current case is reported.
const LIMIT: usize = 2_500_000_000;
static USED: AtomicUsize = AtomicUsize::new(0);

fn small(n: usize) {
    if USED.fetch_add(n, Relaxed).wrapping_add(n) > LIMIT { unsafe { libc::abort() } }
}

fn add(n: usize) {
    let c = CUR.fetch_add(n, Relaxed).wrapping_add(n);
    PEAK.fetch_max(c, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = if l.size() > HUGE {
            let p = libc::mmap(std::ptr::null_mut(), l.size(), libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            if p == libc::MAP_FAILED { std::ptr::null_mut() } else { p as *mut u8 }
        } else {
            small(l.size());
            System.alloc(l)
        };
        if !p.is_null() { add(l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        if l.size() > HUGE { libc::munmap(p as *mut _, l.size()); } else { USED.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HUGE { return self.alloc(l); }
        small(l.size());
        let p = System.alloc_zeroed(l);
        if !p.is_null() { add(l.size()); }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if l.size() > HUGE || new > HUGE {
            let nl = Layout::from_size_align_unchecked(new, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            return q;
        }
        small(new);
        USED.fetch_sub(l.size(), Relaxed);
        let q = System.realloc(p, l, new);
        if !q.is_null() { CUR.fetch_sub(l.size(), Relaxed); add(new); }
        q
    }
}

/// Runs `f` and returns the peak number of bytes allocated above the level at entry
/// (counting allocations of every thread of this process).
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = CUR.load(Relaxed);
    PEAK.store(base, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(base))
}

/// Bytes allocated now.
pub fn live() -> usize { CUR.load(Relaxed) }
