//! The allocator seam. In a simulated process every allocation comes from an arena at a fixed
//! address, so that addresses are a function of the run and not of the host; allocation is a
//! preemption point while library code runs, can be made to fail, and is accounted for.

use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

pub struct SimAlloc;

const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 8 << 30;
/// What one process may take of it, counting what is freed and not used again.
const LIMIT: usize = 5 << 29;
/// From here on freed memory is used again in any case.
const SPARING: usize = 1 << 30;
const NCLASS: usize = 128;
const HDR: usize = 16;

#[repr(C)]
struct Hdr {
    class: u16,
    tag: u16,
    size: u32,
    link: usize,
}

pub struct Arena {
    pub on: bool,
    pub reuse: bool,
    top: usize,
    first: usize,
    free: [usize; NCLASS],
    pub lib_blocks: i64,
    pub lib_bytes: i64,
    pub lib_allocs: u64,
    /// Fail the library allocation that brings this counter to zero (0: never).
    pub fail_in: u64,
    /// After the first failure, keep failing (memory stays exhausted).
    pub fail_sticky: bool,
    pub failed: u64,
    /// Library allocations are being counted for accounting purposes.
    pub peak_top: usize,
}

struct Cellish(UnsafeCell<Arena>);
unsafe impl Sync for Cellish {}

static ARENA: Cellish = Cellish(UnsafeCell::new(Arena {
    on: false,
    reuse: true,
    top: BASE,
    first: BASE,
    free: [0; NCLASS],
    lib_blocks: 0,
    lib_bytes: 0,
    lib_allocs: 0,
    fail_in: 0,
    fail_sticky: false,
    failed: 0,
    peak_top: BASE,
}));
static LOCK: AtomicBool = AtomicBool::new(false);
static ON: AtomicU32 = AtomicU32::new(0);

#[allow(clippy::mut_from_ref)]
pub fn arena() -> &'static mut Arena {
    unsafe { &mut *ARENA.0.get() }
}

/// Map the arena (once, in the process that forks the simulated ones).
pub fn map() {
    unsafe {
        let p = libc::mmap(
            BASE as *mut _,
            SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE
                | libc::MAP_ANONYMOUS
                | libc::MAP_NORESERVE
                | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        assert!(p as usize == BASE, "cannot map the arena");
    }
}

/// Switch this (freshly forked) process to the arena.
pub fn enable(reuse: bool, skip: usize) {
    arena().reuse = reuse;
    arena().top = BASE + (skip % (SIZE / 8) & !15);
    arena().first = arena().top;
    arena().peak_top = arena().top;
    arena().on = true;
    ON.store(1, Ordering::SeqCst);
}

fn class_of(size: usize) -> (usize, usize) {
    if size <= 1024 {
        let c = size.div_ceil(16).max(1);
        (c, c * 16)
    } else {
        let p = size.next_power_of_two();
        (64 + p.trailing_zeros() as usize, p)
    }
}

#[inline]
fn lock() {
    while LOCK
        .compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed)
        .is_err()
    {
        std::hint::spin_loop();
    }
}
#[inline]
fn unlock() {
    LOCK.store(false, Ordering::Release);
}

unsafe fn arena_alloc(l: Layout, lib: bool) -> *mut u8 {
    lock();
    let a = arena();
    if lib {
        a.lib_allocs += 1;
        let fail = if a.fail_in > 0 {
            a.fail_in -= 1;
            a.fail_in == 0
        } else {
            a.fail_sticky && a.failed > 0
        };
        if fail {
            a.failed += 1;
            unlock();
            crate::shm::get().alloc_fault_armed.store(1, Ordering::SeqCst);
            return std::ptr::null_mut();
        }
    }
    let (class, cap) = class_of(l.size());
    let p;
    let mut cls = class as u16;
    if l.align() <= 16 {
        if (a.reuse || a.top > a.first + SPARING) && a.free[class] != 0 {
            p = a.free[class];
            let h = (p - HDR) as *mut Hdr;
            a.free[class] = (*h).link;
        } else {
            p = a.top + HDR;
            a.top = p + cap;
        }
    } else {
        p = (a.top + HDR + l.align() - 1) & !(l.align() - 1);
        a.top = (p + cap + 15) & !15;
        cls = u16::MAX;
    }
    if a.top > a.first + LIMIT {
        unlock();
        crate::shm::get().arena_full.store(1, Ordering::SeqCst);
        return std::ptr::null_mut();
    }
    if a.top > a.peak_top {
        a.peak_top = a.top;
    }
    let h = (p - HDR) as *mut Hdr;
    (*h).class = cls;
    (*h).tag = lib as u16;
    (*h).size = l.size() as u32;
    (*h).link = 0;
    if lib {
        a.lib_blocks += 1;
        a.lib_bytes += l.size() as i64;
    }
    unlock();
    p as *mut u8
}

unsafe fn arena_free(ptr: *mut u8) {
    lock();
    let a = arena();
    let p = ptr as usize;
    let h = (p - HDR) as *mut Hdr;
    if (*h).tag == 1 {
        a.lib_blocks -= 1;
        a.lib_bytes -= (*h).size as i64;
        (*h).tag = 0;
    }
    // Whoever still reads it shall notice.
    std::ptr::write_bytes(ptr, 0xDB, ((*h).size as usize).min(1024));
    if (*h).class != u16::MAX {
        let c = (*h).class as usize;
        (*h).link = a.free[c];
        a.free[c] = p;
    }
    unlock();
}

#[inline]
fn in_arena(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(BASE) < SIZE
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Ordering::Relaxed) == 0 {
            return System.alloc(l);
        }
        let lib = sched::in_lib();
        if lib {
            sched::tick_alloc();
        }
        arena_alloc(l, lib)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            if sched::in_lib() {
                sched::tick_alloc();
            }
            arena_free(p)
        } else if ON.load(Ordering::Relaxed) == 0 {
            System.dealloc(p, l)
        }
        // Memory the parent allocated before the fork is left alone: the process is short-lived.
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !in_arena(p) && ON.load(Ordering::Relaxed) == 0 {
            return System.realloc(p, l, new);
        }
        // The size class may already have room: real allocators grow in place too.
        if in_arena(p) {
            let (c0, _) = class_of(l.size());
            let (c1, _) = class_of(new);
            if c0 == c1 && l.align() <= 16 {
                lock();
                let h = (p as usize - HDR) as *mut Hdr;
                if (*h).tag == 1 {
                    arena().lib_bytes += new as i64 - (*h).size as i64;
                }
                (*h).size = new as u32;
                unlock();
                return p;
            }
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

/// Live allocations made while library code ran: (blocks, bytes).
pub fn lib_live() -> (i64, i64) {
    (arena().lib_blocks, arena().lib_bytes)
}
