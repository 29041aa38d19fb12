//! Host allocator which, while a program runs, gives byte buffers the address
//! parity they would have under the on-chain bump allocator
//! (`solana_program::entrypoint::BumpAllocator`): it grows downwards and only
//! aligns to the requested alignment, so an odd-sized byte buffer makes the
//! next byte buffers odd-addressed.  It also keeps count: nothing is ever given
//! back on chain, and a program that asks for more than the heap aborts.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    sync::atomic::{AtomicUsize, Ordering},
};

thread_local! {
    /// Virtual bump position; `None` while no program runs.
    static POS: Cell<Option<usize>> = const { Cell::new(None) };
    /// The running program asked for more than there is.
    static OUT: Cell<bool> = const { Cell::new(false) };
}

/// Most a program has used so far.
static PEAK: AtomicUsize = AtomicUsize::new(0);

const START: usize = solana_program::entrypoint::HEAP_START_ADDRESS as usize;
const LENGTH: usize = solana_program::entrypoint::HEAP_LENGTH;

pub struct Bump;

fn step(l: &Layout) -> bool {
    POS.try_with(|p| match p.get() {
        None => false,
        Some(pos) => {
            let pos = pos.saturating_sub(l.size()) & !(l.align() - 1);
            if pos < START + std::mem::size_of::<*mut u8>() {
                OUT.with(|o| o.set(true));
                // the rest of the run does not count
                p.set(Some(START + LENGTH));
                return pos % 2 == 1;
            }
            p.set(Some(pos));
            pos % 2 == 1
        }
    })
    .unwrap_or(false)
}

unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let odd = step(&l);
        if l.align() != 1 {
            return System.alloc(l);
        }
        let base = System.alloc(Layout::from_size_align_unchecked(l.size() + 16, 16));
        if base.is_null() {
            return base;
        }
        let off = if odd { 9 } else { 8 };
        *base.add(off - 1) = off as u8;
        base.add(off)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() != 1 {
            return System.dealloc(p, l);
        }
        let off = *p.sub(1) as usize;
        System.dealloc(p.sub(off), Layout::from_size_align_unchecked(l.size() + 16, 16))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.align() != 1 {
            step(&l);
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
}

/// Most heap any run of the program used.
pub fn peak() -> usize {
    PEAK.load(Ordering::Relaxed)
}

/// Run `f` under a fresh virtual bump heap; whether the heap sufficed.
pub fn on_chain_heap<R>(f: impl FnOnce() -> R) -> (R, bool) {
    struct Reset(Option<usize>);
    impl Drop for Reset {
        fn drop(&mut self) {
            POS.with(|p| p.set(self.0));
        }
    }
    let before = OUT.with(|o| o.replace(false));
    let _r = Reset(POS.with(|p| p.replace(Some(START + LENGTH))));
    let r = f();
    let used = START + LENGTH - POS.with(|p| p.get()).unwrap_or(START + LENGTH);
    PEAK.fetch_max(used, Ordering::Relaxed);
    (r, !OUT.with(|o| o.replace(before)))
}

/// Run `f` (the harness acting as the runtime) outside the virtual heap.
pub fn off_heap<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(Option<usize>);
    impl Drop for Reset {
        fn drop(&mut self) {
            POS.with(|p| p.set(self.0));
        }
    }
    let _r = Reset(POS.with(|p| p.replace(None)));
    f()
}
