//! Every edge, load and store of the code compiled with sanitizer coverage (obsidian and the
//! application on top of it) is a scheduling point; edges are also counted.
use crate::kern;
use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering::Relaxed};

pub const MAX_EDGES: usize = 1 << 17;
static NEXT: AtomicU32 = AtomicU32::new(0);
static MAP: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

pub fn edges() -> usize {
    NEXT.load(Relaxed) as usize
}
/// From now on visited edges are marked in `map` (MAX_EDGES bytes).
pub fn set_map(map: *mut u8) {
    MAP.store(map, Relaxed);
}
#[inline]
fn point() {
    if kern::active() {
        let _g = kern::Ink::new();
        kern::k().cov_point();
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = (NEXT.fetch_add(1, Relaxed) + 1).min(MAX_EDGES as u32 - 1);
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if kern::ACTIVE.load(Relaxed) {
        let m = MAP.load(Relaxed);
        if !m.is_null() {
            *m.add(*g as usize) = 1;
        }
    }
    point();
}
static PCS: AtomicPtr<usize> = AtomicPtr::new(std::ptr::null_mut());
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *mut usize, _stop: *mut usize) {
    PCS.store(start, Relaxed);
}
/// Address of edge `i` (from 1).
pub fn pc(i: usize) -> usize {
    let p = PCS.load(Relaxed);
    if p.is_null() || i == 0 {
        return 0;
    }
    unsafe { *p.add(2 * (i - 1)) }
}
macro_rules! access {
    ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(_: usize) { point(); })* };
}
access! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}
