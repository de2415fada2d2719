//! How the simulated caller's functions, which the library calls, reach the simulator.

use crate::sched::{self, LibScope};
use std::sync::atomic::{AtomicUsize, Ordering};

static HOOK: AtomicUsize = AtomicUsize::new(0);

pub fn set_hook(f: fn(u32)) {
    HOOK.store(f as usize, Ordering::SeqCst);
}

/// A caller's function is entered: other threads may run, and the fault script may act.
pub fn entered(id: u32) {
    let _out = LibScope::leave();
    sched::boundary(false);
    let h = HOOK.load(Ordering::SeqCst);
    if h != 0 && sched::tid().is_some() {
        let f: fn(u32) = unsafe { std::mem::transmute(h) };
        f(id);
    }
    sched::boundary(false);
}
