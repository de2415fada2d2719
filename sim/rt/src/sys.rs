//! Raw system calls, so that the simulator itself never goes through the seams it defines.

use core::arch::asm;

#[inline]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
        options(nostack));
    r
}

pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe { raw(libc::SYS_futex, addr as i64, 128, val as i64, 0, 0, 0) };
}

pub fn futex_wake(addr: *const u32) {
    unsafe { raw(libc::SYS_futex, addr as i64, 1 | 128, 1, 0, 0, 0) };
}

/// The real monotonic clock, for wall-clock budgets and evidence only: nothing in a run reads it.
pub fn real_now() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { raw(libc::SYS_clock_gettime, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}
