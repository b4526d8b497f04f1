//! Checking global allocator: every block carries its layout, a guard word in front and a guard
//! zone behind; new memory is filled with 0xCD, freed memory with 0xDD. Mismatching layouts, guard
//! damage and double frees are recorded (an allocator must not panic) and reported by the runner.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};

pub struct MonAlloc;

const MAGIC: usize = 0x5AFE_B10C_5AFE_B10C;
const FREED: usize = 0xDEAD_B10C_DEAD_B10C;
const HDR: usize = 32;
const TAIL: usize = 16;

pub static ERROR: AtomicU64 = AtomicU64::new(0);
pub static ERR_A: AtomicUsize = AtomicUsize::new(0);
pub static ERR_B: AtomicUsize = AtomicUsize::new(0);
pub static CHECKED: AtomicU64 = AtomicU64::new(0);

const QLEN: usize = 512;

thread_local! {
    static QPOS: Cell<usize> = const { Cell::new(0) };
    static QUARANTINE: std::cell::UnsafeCell<[(*mut u8, usize, usize); QLEN]> =
        const { std::cell::UnsafeCell::new([(std::ptr::null_mut(), 0, 0); QLEN]) };
    /// Allocations of at least this many bytes fail on this thread.
    static FAIL_FROM: Cell<usize> = const { Cell::new(usize::MAX) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<isize> = const { Cell::new(0) };
    static LIVE_BLOCKS: Cell<isize> = const { Cell::new(0) };
    static MAX_REQ: Cell<usize> = const { Cell::new(0) };
}

pub fn fail_from(bytes: usize) {
    FAIL_FROM.with(|c| c.set(bytes));
}

/// Number of alloc/realloc calls made by this thread.
pub fn alloc_count() -> u64 {
    ALLOCS.try_with(|c| c.get()).unwrap_or(0)
}

/// Bytes / blocks allocated minus freed by this thread.
pub fn live() -> (isize, isize) {
    (LIVE_BYTES.with(|c| c.get()), LIVE_BLOCKS.with(|c| c.get()))
}

/// Largest single request since the last call.
pub fn take_max_request() -> usize {
    MAX_REQ.with(|c| c.replace(0))
}

pub fn active() -> bool {
    cfg!(not(any(miri, feature = "sysalloc")))
}

pub fn error_text() -> Option<String> {
    let (a, b) = (ERR_A.load(Relaxed), ERR_B.load(Relaxed));
    match ERROR.load(Relaxed) {
        0 => None,
        1 => Some(format!("block freed or resized with size {b}, but allocated with size {a}")),
        2 => Some(format!("block freed or resized with alignment {b}, but allocated with {a}")),
        3 => Some(format!("memory behind a block of {a} bytes was overwritten")),
        4 => Some(format!("double free of a block of {a} bytes")),
        _ => Some("memory in front of a block was overwritten, or pointer was never allocated".into()),
    }
}

fn fail(code: u64, a: usize, b: usize) {
    if ERROR.compare_exchange(0, code, Relaxed, Relaxed).is_ok() {
        ERR_A.store(a, Relaxed);
        ERR_B.store(b, Relaxed);
    }
}

fn front(align: usize) -> usize {
    HDR.max(align)
}

fn outer(l: Layout) -> Option<Layout> {
    let size = l.size().checked_add(front(l.align()))?.checked_add(TAIL)?;
    Layout::from_size_align(size, l.align().max(16)).ok()
}

unsafe fn check(p: *mut u8, l: Layout) -> bool {
    CHECKED.fetch_add(1, Relaxed);
    let h = p.sub(HDR) as *mut usize;
    let (magic, size, align) = (h.read_unaligned(), h.add(1).read_unaligned(), h.add(2).read_unaligned());
    if magic == FREED {
        fail(4, size, 0);
        return false;
    }
    if magic != MAGIC {
        fail(5, 0, 0);
        return false;
    }
    if align != l.align() {
        fail(2, align, l.align());
        return false;
    }
    if size != l.size() {
        fail(1, size, l.size());
        return false;
    }
    for i in 0..TAIL {
        if *p.add(size + i) != 0xA5 {
            fail(3, size, 0);
            return false;
        }
    }
    true
}

unsafe impl GlobalAlloc for MonAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = MAX_REQ.try_with(|c| c.set(c.get().max(l.size())));
        if l.size() >= FAIL_FROM.try_with(|c| c.get()).unwrap_or(usize::MAX) {
            return std::ptr::null_mut();
        }
        let Some(o) = outer(l) else { return std::ptr::null_mut() };
        let b = System.alloc(o);
        if b.is_null() {
            return b;
        }
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        let _ = LIVE_BYTES.try_with(|c| c.set(c.get() + l.size() as isize));
        let _ = LIVE_BLOCKS.try_with(|c| c.set(c.get() + 1));
        let p = b.add(front(l.align()));
        let h = p.sub(HDR) as *mut usize;
        h.write_unaligned(MAGIC);
        h.add(1).write_unaligned(l.size());
        h.add(2).write_unaligned(l.align());
        p.write_bytes(0xCD, l.size().min(1 << 16));
        p.add(l.size()).write_bytes(0xA5, TAIL);
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !check(p, l) {
            return; // Keep the block, the error is reported by the runner.
        }
        let _ = LIVE_BYTES.try_with(|c| c.set(c.get() - l.size() as isize));
        let _ = LIVE_BLOCKS.try_with(|c| c.set(c.get() - 1));
        (p.sub(HDR) as *mut usize).write_unaligned(FREED);
        p.write_bytes(0xDD, l.size().min(1 << 16));
        // Quarantine: the oldest of the last blocks is really freed.
        let old = QUARANTINE.try_with(|q| {
            let i = QPOS.with(|x| x.replace((x.get() + 1) % QLEN));
            (*q.get())[i] = match (*q.get())[i] {
                (a, b, c) if !a.is_null() => {
                    System.dealloc(a, Layout::from_size_align_unchecked(b, c));
                    (std::ptr::null_mut(), 0, 0)
                }
                x => x,
            };
            let o = outer(l).unwrap();
            (*q.get())[i] = (p.sub(front(l.align())), o.size(), o.align());
        });
        if old.is_err() {
            System.dealloc(p.sub(front(l.align())), outer(l).unwrap());
        }
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            p.write_bytes(0, l.size());
        }
        p
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        // Always move, so that stale pointers into the old block are exposed.
        let Ok(nl) = Layout::from_size_align(new, l.align()) else { return std::ptr::null_mut() };
        if !check(p, l) {
            return std::ptr::null_mut();
        }
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
