//! Global allocator wrapper: counts node-sized blocks requested and returned
//! inside library calls (for trees using the crate's default allocator) and
//! can refuse a chosen one.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct G;
#[global_allocator]
static GLOBAL: G = G;

thread_local! {
    pub static TRACK: Cell<bool> = const { Cell::new(false) };
    pub static FAIL_IN: Cell<i64> = const { Cell::new(-1) };
    pub static REFUSED: Cell<bool> = const { Cell::new(false) };
    pub static LIVE: Cell<[isize; 4]> = const { Cell::new([0; 4]) };
    pub static ALLOCS: Cell<[usize; 5]> = const { Cell::new([0; 5]) };
}

fn class(l: Layout) -> Option<usize> {
    match (l.size(), l.align()) {
        (64, 64) => Some(0),
        (168, 8) => Some(1),
        (672, 8) => Some(2),
        (2104, 8) => Some(3),
        _ => None,
    }
}

unsafe impl GlobalAlloc for G {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if let Some(c) = class(l) {
            if TRACK.try_with(|t| t.get()).unwrap_or(false) {
                let f = FAIL_IN.with(|f| f.get());
                if f >= 0 {
                    FAIL_IN.with(|x| x.set(f - 1));
                    if f == 0 {
                        REFUSED.with(|x| x.set(true));
                        return std::ptr::null_mut();
                    }
                }
                LIVE.with(|x| {
                    let mut v = x.get();
                    v[c] += 1;
                    x.set(v)
                });
                ALLOCS.with(|x| {
                    let mut v = x.get();
                    v[c] += 1;
                    x.set(v)
                });
                let p = System.alloc(l);
                if !p.is_null() {
                    std::ptr::write_bytes(p, 0xA5, l.size());
                }
                return p;
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if let Some(c) = class(l) {
            if TRACK.try_with(|t| t.get()).unwrap_or(false) {
                LIVE.with(|x| {
                    let mut v = x.get();
                    v[c] -= 1;
                    x.set(v)
                });
                std::ptr::write_bytes(p, 0xDD, l.size());
            }
        }
        System.dealloc(p, l)
    }
}
