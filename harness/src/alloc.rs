//! A counting, optionally poisoning global allocator. All state is per thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static MAXREQ: Cell<usize> = const { Cell::new(0) };
    /// 0: off; otherwise 0x100 | byte that fresh memory is filled with.
    static POISON: Cell<u16> = const { Cell::new(0) };
}

pub struct Tracking;

#[inline]
fn add(n: usize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n as isize;
        c.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
    let _ = MAXREQ.try_with(|m| if n > m.get() { m.set(n) });
}
#[inline]
fn sub(n: usize) {
    let _ = CUR.try_with(|c| c.set(c.get() - n as isize));
}

/// Poisoning stops at this many bytes: a claimed but never filled gigabyte
/// must not be touched.
const POISON_LIMIT: usize = 1 << 26;

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
            let po = POISON.try_with(|c| c.get()).unwrap_or(0);
            if po != 0 && l.size() <= POISON_LIMIT {
                std::ptr::write_bytes(p, po as u8, l.size());
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let po = POISON.try_with(|c| c.get()).unwrap_or(0);
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            // While growing, old and new may coexist: count the worst case.
            add(new);
            sub(l.size());
            if po != 0 && new > l.size() && new <= POISON_LIMIT {
                std::ptr::write_bytes(q.add(l.size()), po as u8, new - l.size());
            }
        }
        q
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Usage {
    /// Peak heap use above the level at the start.
    pub peak: u64,
    /// Sum of all requests.
    pub total: u64,
    /// Largest single request.
    pub max_request: usize,
}

pub fn measure<T, F: FnOnce() -> T>(f: F) -> (T, Usage) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let t0 = TOTAL.with(|t| t.get());
    MAXREQ.with(|m| m.set(0));
    let r = f();
    let u = Usage {
        peak: (PEAK.with(|p| p.get()) - base).max(0) as u64,
        total: TOTAL.with(|t| t.get()) - t0,
        max_request: MAXREQ.with(|m| m.get()),
    };
    (r, u)
}

/// Heap in use by this thread.
pub fn live() -> i64 {
    CUR.with(|c| c.get()) as i64
}

/// Leaves `byte` in the part of the stack that the next calls will use.
#[inline(never)]
fn dirty_stack<const N: usize>(byte: u8) {
    let mut a = std::mem::MaybeUninit::<[u8; N]>::uninit();
    let p = a.as_mut_ptr() as *mut u8;
    unsafe { std::ptr::write_bytes(p, byte, N) };
    std::hint::black_box(p);
}

/// From within a source: what it leaves on the stack is the byte in force, if
/// any.
pub fn dirty_stack_again() {
    let po = POISON.try_with(|c| c.get()).unwrap_or(0);
    if po != 0 { dirty_stack::<4096>(po as u8); }
}

pub fn with_poison<T, F: FnOnce() -> T>(byte: u8, f: F) -> T {
    struct Reset(u16);
    impl Drop for Reset {
        fn drop(&mut self) {
            POISON.with(|p| p.set(self.0));
        }
    }
    let old = POISON.with(|p| p.replace(0x100 | byte as u16));
    let _r = Reset(old);
    dirty_stack::<65536>(byte);
    f()
}
