//! Allocator monitor: counts memory traffic and live memory of the running thread's process.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Counting;

static CALLS: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static CEILING: AtomicU64 = AtomicU64::new(u64::MAX);
static LIVE_CEILING: AtomicU64 = AtomicU64::new(u64::MAX);

/// Exit code of a worker whose case went over its memory budget.
pub const EXIT_BUDGET: i32 = 71;

extern "C" {
    fn _exit(code: i32) -> !;
}

#[inline]
fn note(n: usize) {
    CALLS.fetch_add(1, Relaxed);
    let b = BYTES.fetch_add(n as u64, Relaxed);
    let l = LIVE.fetch_add(n as u64, Relaxed);
    if b > CEILING.load(Relaxed) || l > LIVE_CEILING.load(Relaxed) {
        // safety: ends the process without unwinding through the allocator
        unsafe { _exit(EXIT_BUDGET) }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        note(new);
        System.realloc(p, l, new)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Use {
    pub calls: u64,
    pub bytes: u64,
    pub live: u64,
}

pub fn now() -> Use {
    Use {
        calls: CALLS.load(Relaxed),
        bytes: BYTES.load(Relaxed),
        live: LIVE.load(Relaxed),
    }
}

impl Use {
    pub fn since(self, o: Use) -> Use {
        Use {
            calls: self.calls - o.calls,
            bytes: self.bytes - o.bytes,
            live: self.live.wrapping_sub(o.live),
        }
    }
}

/// Allow at most `bytes` of further traffic and `live` of live memory from now on.
pub fn set_budget(bytes: u64, live: u64) {
    CEILING.store(BYTES.load(Relaxed).saturating_add(bytes), Relaxed);
    LIVE_CEILING.store(live, Relaxed);
}
