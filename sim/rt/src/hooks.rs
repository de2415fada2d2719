//! The seams: symbols that std and the instrumented code resolve to at link time.

use crate::rng::Rng;
use crate::sched::{self, tid};
use crate::sys;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering};

static RANDOM_SEED: AtomicU64 = AtomicU64::new(0x9E37);
static NGUARDS: AtomicU32 = AtomicU32::new(0);

/// What getrandom(2) gives in this process is a function of this seed and of how often it is asked.
pub fn seed_random(seed: u64) {
    RANDOM_SEED.store(seed, Ordering::SeqCst);
}

pub fn guard_count() -> u32 {
    NGUARDS.load(Ordering::Relaxed)
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        *start = NGUARDS.fetch_add(1, Ordering::Relaxed) + 1;
        start = start.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    sched::tick_guard(*g);
}

macro_rules! mem {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(_a: *const u8) {
            sched::tick_mem();
        }
    )* };
}
mem!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8
     __sanitizer_cov_load16 __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4
     __sanitizer_cov_store8 __sanitizer_cov_store16);

/// syscall(2) as std calls it: futex waits and wakes of simulated threads go to the scheduler.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = if n == libc::SYS_futex && tid().is_some() {
        let bits = if (b as i32 & 127) == libc::FUTEX_WAIT_BITSET
            || (b as i32 & 127) == libc::FUTEX_WAKE_BITSET
        {
            f as u32
        } else {
            !0
        };
        sched::futex(a as usize, b as i32, c as u32, d as *const libc::timespec, bits)
    } else if n == libc::SYS_getrandom && sched::active() {
        fill_random(a as *mut u8, b as usize)
    } else {
        sys::raw(n, a, b, c, d, e, f)
    };
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

unsafe fn fill_random(p: *mut u8, n: usize) -> i64 {
    let s = RANDOM_SEED.fetch_add(0x1000_0001, Ordering::SeqCst);
    let mut r = Rng::new(s);
    for i in 0..n {
        *p.add(i) = r.u64() as u8;
    }
    if tid().is_some() {
        sched::sim().stats.random_reads += 1;
    }
    n as i64
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut libc::c_void, n: usize, _flags: u32) -> isize {
    fill_random(p as *mut u8, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if sched::active() {
        let v = sched::clock(id == libc::CLOCK_REALTIME);
        (*ts).tv_sec = (v / 1_000_000_000) as i64;
        (*ts).tv_nsec = (v % 1_000_000_000) as i64;
        return 0;
    }
    let r = sys::raw(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    0
}

unsafe fn do_sleep(id: i32, flags: i32, req: *const libc::timespec) -> i32 {
    if tid().is_some() {
        let v = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let ns = if flags & libc::TIMER_ABSTIME != 0 {
            v.saturating_sub(sched::clock(id == libc::CLOCK_REALTIME))
        } else {
            v
        };
        sched::sleep(ns);
        return 0;
    }
    let r = sys::raw(libc::SYS_clock_nanosleep, id as i64, flags as i64, req as i64, 0, 0, 0);
    -r as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: i32,
    flags: i32,
    req: *const libc::timespec,
    _rem: *mut libc::timespec,
) -> i32 {
    do_sleep(id, flags, req)
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, _rem: *mut libc::timespec) -> i32 {
    do_sleep(libc::CLOCK_MONOTONIC, 0, req)
}

static CPUS: AtomicU32 = AtomicU32::new(1);

/// The number of processors this process believes it may use.
pub fn set_cpus(n: u32) {
    CPUS.store(n, Ordering::SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, size: usize, set: *mut u8) -> i32 {
    if sched::active() {
        for i in 0..size {
            *set.add(i) = 0;
        }
        let n = (CPUS.load(Ordering::SeqCst) as usize).min(size * 8);
        for i in 0..n {
            *set.add(i / 8) |= 1 << (i % 8);
        }
        if tid().is_some() {
            sched::sim().stats.cpu_reads += 1;
        }
        return 0;
    }
    let r = sys::raw(libc::SYS_sched_getaffinity, pid as i64, size as i64, set as i64, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    0
}

static ENVIRONMENT: AtomicU64 = AtomicU64::new(0);

/// What simulated threads find in the environment: 0 is what there is.
pub fn set_environment(seed: u64) {
    ENVIRONMENT.store(seed, Ordering::SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    extern "C" {
        static environ: *const *mut libc::c_char;
    }
    let want = std::ffi::CStr::from_ptr(name).to_bytes();
    let seed = ENVIRONMENT.load(Ordering::SeqCst);
    if seed != 0 && tid().is_some() && !want.starts_with(b"RUST_") {
        let h = want.iter().fold(seed, |h, b| crate::rng::mix(h ^ *b as u64));
        let v: &[u8] = match h % 12 {
            0 => b"0\0",
            1 => b"1\0",
            2 => b"true\0",
            3 => b"17\0",
            4 => b"\0",
            5 => b"tr_TR.UTF-8\0",
            _ => return std::ptr::null_mut(),
        };
        return v.as_ptr() as *mut libc::c_char;
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        if e.len() > want.len() && e[want.len()] == b'=' && e.starts_with(want) {
            return (*p).add(want.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

/// Simulated processes have numbers of their own.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if tid().is_some() {
        return match ENVIRONMENT.load(Ordering::SeqCst) {
            0 => 4242,
            e => 2 + (crate::rng::mix(e) % 60_000) as i32,
        };
    }
    sys::raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as i32
}

/// And run somewhere.
#[no_mangle]
pub unsafe extern "C" fn getcwd(to: *mut libc::c_char, size: usize) -> *mut libc::c_char {
    if tid().is_some() {
        let at: &[u8] = match ENVIRONMENT.load(Ordering::SeqCst) % 4 {
            0 => b"/\0",
            1 => b"/home/someone/with/quite/a/long/way/to/go\0",
            2 => b"/tmp\0",
            _ => b"/srv/\xc3\xa9\0",
        };
        if to.is_null() || size < at.len() {
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(at.as_ptr(), to.cast(), at.len());
        return to;
    }
    if sys::raw(libc::SYS_getcwd, to as i64, size as i64, 0, 0, 0, 0) < 0 {
        set_errno(libc::ERANGE);
        return std::ptr::null_mut();
    }
    to
}

/// std reads the cgroup limits when it counts processors; simulated threads see none.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    if tid().is_some() {
        let p = std::ffi::CStr::from_ptr(path).to_bytes();
        if p.starts_with(b"/proc/") || p.starts_with(b"/sys/") {
            set_errno(libc::ENOENT);
            return -1;
        }
    }
    let r = sys::raw(libc::SYS_open, path as i64, flags as i64, mode as i64, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    r as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if tid().is_some() {
        sched::yield_now();
        return 0;
    }
    sys::raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}

// ---- threads ---------------------------------------------------------------------------------

type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
type RealCreate = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    Start,
    *mut libc::c_void,
) -> i32;
type RealJoin = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;

static REAL_CREATE: AtomicUsize = AtomicUsize::new(0);
static REAL_JOIN: AtomicUsize = AtomicUsize::new(0);
static EXIT_KEY: AtomicU32 = AtomicU32::new(u32::MAX);
static mut HANDLES: [libc::pthread_t; sched::MAXT] = [0; sched::MAXT];

/// Resolve what the seams forward to (before any fork).
pub fn prepare() {
    unsafe {
        let c = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr());
        let j = libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr());
        assert!(!c.is_null() && !j.is_null());
        REAL_CREATE.store(c as usize, Ordering::SeqCst);
        REAL_JOIN.store(j as usize, Ordering::SeqCst);
        let mut k: libc::pthread_key_t = 0;
        assert!(libc::pthread_key_create(&mut k, Some(on_thread_exit)) == 0);
        EXIT_KEY.store(k, Ordering::SeqCst);
    }
}

struct Boot {
    start: Start,
    arg: *mut libc::c_void,
    tid: usize,
}

/// Runs after the thread's own thread-local destructors, which therefore still hold the token.
unsafe extern "C" fn on_thread_exit(_v: *mut libc::c_void) {
    if tid().is_some() {
        sched::thread_end();
    }
}

extern "C" fn boot(p: *mut libc::c_void) -> *mut libc::c_void {
    let b = p as *mut Boot;
    let (start, arg, t) = unsafe { ((*b).start, (*b).arg, (*b).tid) };
    sched::thread_start(t);
    unsafe {
        {
            let _g = sched::SchedScope::enter();
            drop(Box::from_raw(b));
        }
        libc::pthread_setspecific(EXIT_KEY.load(Ordering::SeqCst), 1 as *const _);
    }
    start(arg)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    h: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: Start,
    arg: *mut libc::c_void,
) -> i32 {
    let real: RealCreate = {
        let mut r = REAL_CREATE.load(Ordering::SeqCst);
        if r == 0 {
            r = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as usize;
        }
        std::mem::transmute(r)
    };
    if !sched::active() {
        return real(h, attr, start, arg);
    }
    let _g = sched::SchedScope::enter();
    let t = sched::new_thread();
    let b = Box::into_raw(Box::new(Boot { start, arg, tid: t }));
    let r = real(h, attr, boot, b as *mut libc::c_void);
    if r != 0 {
        sched::harness_error("cannot create an OS thread");
    }
    HANDLES[t] = *h;
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(h: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    let real: RealJoin = {
        let mut r = REAL_JOIN.load(Ordering::SeqCst);
        if r == 0 {
            r = libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()) as usize;
        }
        std::mem::transmute(r)
    };
    if sched::active() && tid().is_some() {
        let n = sched::sim().n;
        // The newest thread with this handle: ids of ended threads are reused by the OS.
        for i in (0..n).rev() {
            if HANDLES[i] == h {
                sched::join_wait(i);
                break;
            }
        }
    }
    real(h, ret)
}
