//! Counts the bytes each thread allocated and gave back; an allocation is a scheduling point.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

fn account(bytes: i64) {
    let _ = LIVE.try_with(|l| {
        let now = l.get() + bytes;
        l.set(now);
        if bytes > 0 {
            let _ = PEAK.try_with(|p| {
                if p.get() < now {
                    p.set(now);
                }
            });
            let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        crate::sched::point(0x00a1_10c0);
        account(layout.size() as i64);
        System.alloc(layout)
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        crate::sched::point(0x00f4_ee00);
        account(-(layout.size() as i64));
        System.dealloc(ptr, layout);
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        crate::sched::point(0x00a1_10c1);
        account(layout.size() as i64);
        System.alloc_zeroed(layout)
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        crate::sched::point(0x4ea1_10c0);
        account(new as i64 - layout.size() as i64);
        System.realloc(ptr, layout, new)
    }
}

/// Bytes this thread allocated and nobody of this thread gave back.
pub fn live() -> i64 {
    LIVE.with(Cell::get)
}

/// Number of allocations of this thread.
pub fn allocations() -> u64 {
    ALLOCS.with(Cell::get)
}

/// Largest `live` since the last call.
pub fn take_peak() -> i64 {
    let live = LIVE.with(Cell::get);
    PEAK.with(|p| p.replace(live))
}
