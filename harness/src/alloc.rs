//! Instrumented global allocator: per-thread live bytes, peak, largest request and number of
//! live blocks.  Everything is thread local, so worker threads do not disturb each other.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct MonAlloc;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static MAXREQ: Cell<usize> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static PAUSE: Cell<u32> = const { Cell::new(0) };
}

/// Requests above this are refused (the process then aborts through `handle_alloc_error`,
/// which the driver attributes to the case in progress).
const HARD_CAP: usize = 1 << 30;

fn on_alloc(size: usize) {
    let _ = PAUSE.try_with(|p| {
        if p.get() != 0 {
            return;
        }
        LIVE.with(|l| {
            l.set(l.get() + size as i64);
            PEAK.with(|p| p.set(p.get().max(l.get())));
        });
        BLOCKS.with(|b| b.set(b.get() + 1));
        MAXREQ.with(|m| m.set(m.get().max(size)));
        COUNT.with(|c| c.set(c.get() + 1));
    });
}

fn on_dealloc(size: usize) {
    let _ = PAUSE.try_with(|p| {
        if p.get() != 0 {
            return;
        }
        LIVE.with(|l| l.set(l.get() - size as i64));
        BLOCKS.with(|b| b.set(b.get() - 1));
    });
}

unsafe impl GlobalAlloc for MonAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD_CAP {
            crate::crash::note_oversize(l.size());
            return std::ptr::null_mut();
        }
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD_CAP {
            crate::crash::note_oversize(l.size());
            return std::ptr::null_mut();
        }
        on_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_dealloc(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > HARD_CAP {
            crate::crash::note_oversize(new);
            return std::ptr::null_mut();
        }
        // Count the peak as if old and new block coexisted only for the difference.
        on_dealloc(l.size());
        on_alloc(new);
        System.realloc(p, l, new)
    }
}

/// Allocations and frees made while this is alive are not counted.  Must be used in matching
/// pairs: what is allocated under a pause must be freed under a pause.
pub struct Pause;
pub fn pause() -> Pause {
    PAUSE.with(|p| p.set(p.get() + 1));
    Pause
}
impl Drop for Pause {
    fn drop(&mut self) {
        PAUSE.with(|p| p.set(p.get() - 1));
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct AllocStats {
    /// peak live bytes above the level at `start`
    pub peak: i64,
    /// largest single request
    pub max_req: usize,
    /// live bytes now minus at start
    pub live: i64,
    pub blocks: i64,
    pub count: u64,
}

pub struct Window {
    live0: i64,
    blocks0: i64,
    count0: u64,
}

pub fn start() -> Window {
    let live0 = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live0));
    MAXREQ.with(|m| m.set(0));
    Window { live0, blocks0: BLOCKS.with(|b| b.get()), count0: COUNT.with(|c| c.get()) }
}

impl Window {
    pub fn stats(&self) -> AllocStats {
        AllocStats {
            peak: PEAK.with(|p| p.get()) - self.live0,
            max_req: MAXREQ.with(|m| m.get()),
            live: LIVE.with(|l| l.get()) - self.live0,
            blocks: BLOCKS.with(|b| b.get()) - self.blocks0,
            count: COUNT.with(|c| c.get()) - self.count0,
        }
    }
}
