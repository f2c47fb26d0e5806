//! Every allocation by server code is a scheduling point and is counted while it lives.
use crate::kern;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

/// Bytes that simulated threads have allocated, the simulator's and the clients' own excepted.
pub static LIVE: AtomicI64 = AtomicI64::new(0);

pub struct SimAlloc;
#[inline]
fn point() -> bool {
    let a = kern::active();
    if a {
        let _g = kern::Ink::new();
        kern::k().sp();
    }
    a
}
/// A word in front of every block says whether it is counted.
#[inline]
fn wide(l: Layout) -> (Layout, usize) {
    let h = l.align().max(16);
    (unsafe { Layout::from_size_align_unchecked(l.size() + h, h) }, h)
}
#[inline]
unsafe fn mark(p: *mut u8, h: usize, counted: bool, size: usize) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let p = p.add(h);
    *(p as *mut u64).sub(1) = counted as u64;
    if counted {
        LIVE.fetch_add(size as i64, Relaxed);
    }
    p
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = point();
        let (w, h) = wide(l);
        mark(System.alloc(w), h, c, l.size())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (w, h) = wide(l);
        if *(p as *mut u64).sub(1) != 0 {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p.sub(h), w);
        point();
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        let (w, h) = wide(l);
        let q = System.realloc(p.sub(h), w, n + h);
        if q.is_null() {
            return q;
        }
        let q = q.add(h);
        if *(q as *mut u64).sub(1) != 0 {
            LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        }
        q
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let c = point();
        let (w, h) = wide(l);
        mark(System.alloc_zeroed(w), h, c, l.size())
    }
}
#[global_allocator]
static A: SimAlloc = SimAlloc;
