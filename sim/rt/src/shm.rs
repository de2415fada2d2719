//! The region through which a simulated process reports to the process that forked it.

use std::sync::atomic::{AtomicU32, Ordering};

pub const TRACE_CAP: usize = 1 << 16;
pub const OUT_CAP: usize = 4 << 20;
pub const GUARD_CAP: usize = 1 << 17;
pub const NSTAT: usize = 96;
pub const EDGE_PAIRS: usize = 1 << 20;

/// One scheduling decision: at local step `lstep` of thread `tid`, do `kind` with `arg`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(C)]
pub struct Decision {
    pub lstep: u64,
    pub tid: u8,
    pub kind: u8,
    pub arg: u16,
}

pub const D_SWITCH: u8 = 0; // preempt: give the processor to `arg`
pub const D_FORCED: u8 = 1; // `tid` cannot run: give the processor to `arg`
pub const D_SPURIOUS: u8 = 2; // spurious wake-up of thread `arg`

#[repr(C)]
pub struct Shared {
    pub violated: AtomicU32,
    pub harness_error: AtomicU32,
    pub finished: AtomicU32,
    pub alloc_fault_armed: AtomicU32,
    /// The process took more memory than there is.
    pub arena_full: AtomicU32,
    pub class_len: u32,
    pub class: [u8; 96],
    pub msg_len: u32,
    pub msg: [u8; 8192],
    pub stats: [u64; NSTAT],
    pub steps: u64,
    pub sim_ns: u64,
    pub digest: u64,
    pub event_digest: u64,
    pub switches: u64,
    pub trace_len: u32,
    pub trace_overflow: u32,
    pub trace: [Decision; TRACE_CAP],
    pub out_len: u32,
    pub out: [u8; OUT_CAP],
    /// Occurrences of every instrumented edge (saturating), filled when `count_guards` is set.
    pub count_guards: u32,
    pub guards: [u16; GUARD_CAP],
    /// Switch pairs (edge left, edge resumed), hashed into a bitmap: a coverage measure.
    pub pairs: [u8; EDGE_PAIRS / 8],
}

static mut SHM: *mut Shared = std::ptr::null_mut();

pub fn create() -> *mut Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap of the report region failed");
        p as *mut Shared
    }
}

pub fn set(p: *mut Shared) {
    unsafe { SHM = p }
}

pub fn get() -> &'static mut Shared {
    unsafe { &mut *SHM }
}

pub fn have() -> bool {
    unsafe { !SHM.is_null() }
}

impl Shared {
    pub fn reset(&mut self) {
        self.violated.store(0, Ordering::SeqCst);
        self.harness_error.store(0, Ordering::SeqCst);
        self.finished.store(0, Ordering::SeqCst);
        self.alloc_fault_armed.store(0, Ordering::SeqCst);
        self.arena_full.store(0, Ordering::SeqCst);
        self.class_len = 0;
        self.msg_len = 0;
        self.stats = [0; NSTAT];
        self.steps = 0;
        self.sim_ns = 0;
        self.digest = 0;
        self.event_digest = 0;
        self.switches = 0;
        self.trace_len = 0;
        self.trace_overflow = 0;
        self.out_len = 0;
        self.count_guards = 0;
    }
    pub fn class(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len as usize]).into_owned()
    }
    pub fn msg(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned()
    }
    pub fn out(&self) -> &[u8] {
        &self.out[..self.out_len as usize]
    }
    pub fn set_out(&mut self, b: &[u8]) {
        let n = b.len().min(OUT_CAP);
        self.out[..n].copy_from_slice(&b[..n]);
        self.out_len = n as u32;
    }
    pub fn trace(&self) -> &[Decision] {
        &self.trace[..self.trace_len as usize]
    }
    /// The first report wins.
    pub fn report(&mut self, class: &str, msg: &str) {
        if self.violated.swap(1, Ordering::SeqCst) == 0 {
            let c = class.as_bytes();
            let n = c.len().min(self.class.len());
            self.class[..n].copy_from_slice(&c[..n]);
            self.class_len = n as u32;
            let m = msg.as_bytes();
            let n = m.len().min(self.msg.len());
            self.msg[..n].copy_from_slice(&m[..n]);
            self.msg_len = n as u32;
        }
    }
    pub fn bump(&mut self, i: usize, n: u64) {
        self.stats[i] += n;
    }
}
