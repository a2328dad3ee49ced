//! Tracking allocator: hands out dirty memory, records every request and
//! return, can fail a chosen request, and keeps returned blocks poisoned and
//! mapped until `reset`, so that a late access cannot damage the process.
use congee::verif::OOMError;
use congee::Allocator;
use std::alloc::Layout;
use std::cell::Cell;
use std::collections::HashMap;
use std::ptr::NonNull;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BlkState {
    Live,
    Freed,
}

pub struct Blk {
    pub layout: Layout,
    pub state: BlkState,
    pub id: usize,
    pub base: usize,
    pub base_layout: Layout,
}

#[derive(Default)]
pub struct TaState {
    pub blks: HashMap<usize, Blk>, // by address; freed blocks stay until reset
    pub order: Vec<usize>,         // addresses in allocation order
    pub live: [usize; 4],
    pub odd: usize,
    pub errs: Vec<String>,
    pub fail_in: i64, // <0: never; 0: the next request fails; ...
    pub fail_all: bool,
    pub injected: bool,
    pub allocs: [usize; 5], // per class since last reset; 4 = unknown size
    pub refused: usize,
    pub frees: usize,
    pub next_id: usize,
    pub quarantine: bool,
}

thread_local! {
    /// Refuse this thread's n-th request from now (<0: none).
    pub static TFAIL: Cell<i64> = const { Cell::new(-1) };
    pub static TINJ: Cell<bool> = const { Cell::new(false) };
}

pub const SIZES: [usize; 4] = [64, 168, 672, 2104];

pub fn class_of(size: usize) -> Option<usize> {
    SIZES.iter().position(|s| *s == size)
}

pub type AllocHook = fn(is_alloc: bool, addr: usize, id: usize, ok: bool);

pub struct TaInner {
    pub st: Mutex<TaState>,
    pub hook: Option<AllocHook>,
}

#[derive(Clone)]
pub struct TA(pub Arc<TaInner>);

impl TA {
    pub fn new(quarantine: bool, hook: Option<AllocHook>) -> Self {
        TA(Arc::new(TaInner {
            st: Mutex::new(TaState {
                fail_in: -1,
                quarantine,
                ..Default::default()
            }),
            hook,
        }))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut TaState) -> R) -> R {
        let mut g = self.0.st.lock().unwrap_or_else(|e| e.into_inner());
        f(&mut g)
    }
    pub fn live(&self) -> ([usize; 4], usize) {
        self.with(|s| (s.live, s.odd))
    }
    pub fn errs(&self) -> usize {
        self.with(|s| s.errs.len())
    }
    /// Really gives freed (and, if `all`, leaked) blocks back.
    pub fn purge(&self, all: bool) {
        self.with(|s| {
            let keys: Vec<usize> = s
                .blks
                .iter()
                .filter(|(_, b)| all || b.state == BlkState::Freed)
                .map(|(k, _)| *k)
                .collect();
            for k in keys {
                let b = s.blks.remove(&k).unwrap();
                unsafe { std::alloc::dealloc(b.base as *mut u8, b.base_layout) };
            }
        });
    }
}

impl Drop for TaInner {
    fn drop(&mut self) {
        let s = self.st.get_mut().unwrap_or_else(|e| e.into_inner());
        for (_, b) in s.blks.drain() {
            unsafe { std::alloc::dealloc(b.base as *mut u8, b.base_layout) };
        }
    }
}

unsafe impl Send for TaInner {}
unsafe impl Sync for TaInner {}

impl Allocator for TA {
    fn allocate(&self, layout: Layout) -> Result<NonNull<[u8]>, OOMError> {
        let hook = self.0.hook;
        let mut g = self.0.st.lock().unwrap_or_else(|e| e.into_inner());
        let s = &mut *g;
        let tf = TFAIL.with(|f| f.get());
        if tf >= 0 {
            TFAIL.with(|f| f.set(tf - 1));
        }
        if tf == 0 {
            TINJ.with(|f| f.set(true));
        }
        let fail = s.fail_all || s.fail_in == 0 || tf == 0;
        if s.fail_in >= 0 {
            s.fail_in -= 1;
        }
        if fail {
            s.injected = true;
            s.refused += 1;
            drop(g);
            return Err(OOMError {});
        }
        let base = unsafe { std::alloc::alloc(layout) };
        unsafe { std::ptr::write_bytes(base, 0xA5, layout.size()) };
        let id = s.next_id;
        s.next_id += 1;
        let addr = base as usize;
        match class_of(layout.size()) {
            Some(c) => {
                s.live[c] += 1;
                s.allocs[c] += 1
            }
            None => {
                s.odd += 1;
                s.allocs[4] += 1
            }
        }
        s.blks.insert(
            addr,
            Blk {
                layout,
                state: BlkState::Live,
                id,
                base: addr,
                base_layout: layout,
            },
        );
        s.order.push(addr);
        drop(g);
        if let Some(h) = hook {
            h(true, addr, id, true);
        }
        let p = std::ptr::slice_from_raw_parts_mut(base, layout.size());
        Ok(NonNull::new(p).unwrap())
    }

    unsafe fn deallocate(&self, ptr: NonNull<u8>, layout: Layout) {
        let hook = self.0.hook;
        let mut g = self.0.st.lock().unwrap_or_else(|e| e.into_inner());
        let s = &mut *g;
        s.frees += 1;
        let addr = ptr.as_ptr() as usize;
        let q = s.quarantine;
        let mut ok = true;
        let mut id = usize::MAX;
        match s.blks.get_mut(&addr) {
            None => {
                s.errs.push("return of a block never handed out".into());
                ok = false;
            }
            Some(b) if b.state == BlkState::Freed => {
                id = b.id;
                s.errs.push("block returned twice".into());
                ok = false;
            }
            Some(b) => {
                id = b.id;
                if b.layout != layout {
                    s.errs.push("block returned with another layout".into());
                    ok = false;
                }
                b.state = BlkState::Freed;
                match class_of(b.layout.size()) {
                    Some(c) => s.live[c] -= 1,
                    None => s.odd -= 1,
                }
                if !q {
                    std::ptr::write_bytes(addr as *mut u8, 0xDD, b.layout.size());
                    let b = s.blks.remove(&addr).unwrap();
                    std::alloc::dealloc(b.base as *mut u8, b.base_layout);
                }
            }
        }
        drop(g);
        if let Some(h) = hook {
            h(false, addr, id, ok);
        }
    }
}
