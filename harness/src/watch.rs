//! An allocator that notices when the allocation holding a watched address is freed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};

pub struct Watching;

const N: usize = 16;
static LIVE: AtomicI64 = AtomicI64::new(0);
static ACTIVE: AtomicUsize = AtomicUsize::new(0);
static ADDR: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
static FREED: [AtomicBool; N] = [const { AtomicBool::new(false) }; N];

unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        work(4);
        LIVE.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        work(4 + l.size() as u64 / 16);
        LIVE.fetch_add(1, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        work(4 + l.size().min(n) as u64 / 16);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ACTIVE.load(SeqCst) != 0 {
            for i in 0..N {
                let a = ADDR[i].load(SeqCst);
                if a != 0 && a >= p as usize && a < p as usize + l.size() {
                    FREED[i].store(true, SeqCst);
                    ADDR[i].store(0, SeqCst);
                }
            }
        }
        LIVE.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
}

/// The number of live allocations.
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
/// Forget all watches.
pub fn clear() {
    ACTIVE.store(0, SeqCst);
    for i in 0..N {
        ADDR[i].store(0, SeqCst);
        FREED[i].store(false, SeqCst);
    }
}
/// Watch the allocation holding `addr`; `None` if all slots are taken.
pub fn watch(addr: usize) -> Option<usize> {
    let i = ACTIVE.load(SeqCst);
    if i >= N {
        return None;
    }
    FREED[i].store(false, SeqCst);
    ADDR[i].store(addr, SeqCst);
    ACTIVE.store(i + 1, SeqCst);
    Some(i)
}
pub fn freed(i: usize) -> bool {
    FREED[i].load(SeqCst)
}

#[cfg(feature = "work")]
extern "C" {
    fn fv_work() -> u64;
    fn fv_work_add(n: u64);
}
#[cfg(feature = "work")]
fn work(n: u64) {
    unsafe { fv_work_add(n) }
}
#[cfg(not(feature = "work"))]
fn work(_: u64) {}

/// The work done so far; `None` unless this build counts it.
pub fn worked() -> Option<u64> {
    #[cfg(feature = "work")]
    return Some(unsafe { fv_work() });
    #[cfg(not(feature = "work"))]
    None
}
