//! A checking global allocator: wrong layouts, writes outside an allocation,
//! double frees, writes after free and leaks are noticed; fresh memory and
//! freed memory are filled with patterns.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct CheckAlloc;

const LIVE: u64 = 0x5afe_b10c_5afe_b10c;
const DEAD: u64 = 0xdead_b10c_dead_b10c;
const FRESH: u8 = 0xa5;
const FREED: u8 = 0xdd;
const EDGE: u8 = 0xc3;
const HEAD: usize = 48;
const TAIL: usize = 32;
const QUEUE: usize = 64;

struct Head {
    magic: u64,
    size: usize,
    align: usize,
    thread: usize,
    seq: u64,
}

thread_local! {
    static LIVE_N: Cell<i64> = const { Cell::new(0) };
    static SEQ: Cell<u64> = const { Cell::new(0) };
    static ERROR: Cell<&'static str> = const { Cell::new("") };
    static MARK: Cell<u8> = const { Cell::new(0) };
    static HELD: UnsafeCell<([*mut u8; QUEUE], usize)> =
        const { UnsafeCell::new(([std::ptr::null_mut(); QUEUE], 0)) };
}

fn error(what: &'static str) {
    let _ = ERROR.try_with(|e| {
        if e.get().is_empty() {
            e.set(what)
        }
    });
}

/// The first error seen on this thread since the last call.
pub fn take_error() -> Option<&'static str> {
    ERROR.with(|e| {
        let x = e.replace("");
        if x.is_empty() {
            None
        } else {
            Some(x)
        }
    })
}
/// Allocations minus deallocations made by this thread.
pub fn live() -> i64 {
    LIVE_N.with(|l| l.get())
}

fn thread_id() -> usize {
    MARK.try_with(|m| m as *const _ as usize).unwrap_or(0)
}

fn pre(align: usize) -> usize {
    // room for the header, rounded up to the alignment
    (HEAD + align - 1) / align * align
}
fn outer(size: usize, align: usize) -> Option<Layout> {
    let n = size.checked_add(pre(align))?.checked_add(TAIL)?;
    Layout::from_size_align(n, align.max(16)).ok()
}

unsafe fn check_dead(p: *mut u8) {
    let h = p.sub(HEAD) as *const Head;
    let size = (*h).size;
    // large blocks are sampled
    let s = std::slice::from_raw_parts(p, size.min(4096));
    if s.iter().any(|b| *b != FREED) {
        error("memory was written after it had been freed");
    }
}
unsafe fn release(p: *mut u8) {
    let h = p.sub(HEAD) as *const Head;
    let (size, align) = ((*h).size, (*h).align);
    if let Some(l) = outer(size, align) {
        System.dealloc(p.sub(pre(align)), l);
    }
}

unsafe impl GlobalAlloc for CheckAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let (size, align) = (layout.size(), layout.align().max(16));
        if size == 0 {
            error("an allocation of size zero was requested");
        }
        let Some(l) = outer(size, align) else {
            return std::ptr::null_mut();
        };
        let base = System.alloc(l);
        if base.is_null() {
            return base;
        }
        let p = base.add(pre(align));
        let seq = SEQ
            .try_with(|s| {
                s.set(s.get() + 1);
                s.get()
            })
            .unwrap_or(0);
        std::ptr::write_bytes(base, EDGE, pre(align));
        (p.sub(HEAD) as *mut Head).write(Head {
            magic: LIVE,
            size,
            // the requested alignment is checked as it was given
            align,
            thread: thread_id() ^ layout.align(),
            seq,
        });
        std::ptr::write_bytes(p, FRESH, size);
        std::ptr::write_bytes(p.add(size), EDGE, TAIL);
        let _ = LIVE_N.try_with(|c| c.set(c.get() + 1));
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let (size, align) = (layout.size(), layout.align().max(16));
        let h = p.sub(HEAD) as *mut Head;
        if (*h).magic == DEAD {
            error("memory was freed twice");
            return;
        }
        if (*h).magic != LIVE {
            error("memory was freed that was never allocated, or its header was overwritten");
            return;
        }
        if (*h).size != size || (*h).align != align {
            error("memory was freed with another layout than it was allocated with");
            return;
        }
        // the eight bytes between the header and the block, and the tail
        let gap = std::slice::from_raw_parts(p.sub(8), 8);
        let tail = std::slice::from_raw_parts(p.add(size), TAIL);
        if gap.iter().any(|b| *b != EDGE) || tail.iter().any(|b| *b != EDGE) {
            error("memory was written outside an allocation");
        }
        (*h).magic = DEAD;
        std::ptr::write_bytes(p, FREED, size);
        let _ = LIVE_N.try_with(|c| c.set(c.get() - 1));
        // freed blocks are held back for a while
        let old = HELD
            .try_with(|q| {
                let (q, at) = &mut *q.get();
                let old = q[*at];
                q[*at] = p;
                *at = (*at + 1) % QUEUE;
                old
            })
            .unwrap_or(p);
        if !old.is_null() {
            check_dead(old);
            release(old);
        }
    }
}

/// Checks and releases the blocks held back; for threads that end.
pub fn flush_held() {
    HELD.with(|q| unsafe {
        for p in &mut (*q.get()).0 {
            if !p.is_null() {
                check_dead(*p);
                release(*p);
                *p = std::ptr::null_mut();
            }
        }
    })
}

/// Checks the blocks held back.
pub fn check_held() {
    HELD.with(|q| unsafe {
        for p in (*q.get()).0 {
            if !p.is_null() {
                check_dead(p);
            }
        }
    })
}
