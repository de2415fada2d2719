//! The scheduler. Simulated threads are real OS threads, of which exactly one holds the token and
//! runs; the others are parked. The thread that holds the token gives it up only here, at a
//! preemption point, when it blocks or when it ends, and who gets it next is decided here.

use crate::rng::{mix, Rng};
use crate::shm::{self, Decision, D_FORCED, D_SPURIOUS, D_SWITCH, TRACE_CAP};
use crate::sys;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 120;
const NONE: usize = usize::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Free,
    Ready,
    Futex { addr: usize, bits: u32, deadline: u64 },
    Sleep { until: u64 },
    Join { t: usize },
    /// Parked by the fault script until every other thread is done.
    Stalled,
    Done,
}

pub struct Th {
    pub st: St,
    pub lstep: u64,
    park: AtomicU32,
    wake: i32,
    prio: u32,
    delayed_until: u64,
    last_guard: u32,
    replay_pos: usize,
    run_since: u64,
}

#[derive(Clone, Debug)]
pub struct Strat {
    /// Mean number of steps between random preemptions (0: none).
    pub mean_gap: u64,
    /// Chance (of 256) of a preemption when a caller's function is entered or left.
    pub cb: u32,
    /// Chance (of 256) of a preemption between two operations of a thread.
    pub op: u32,
    /// Priority scheduling, with a priority drop at each of these steps.
    pub pct: Option<Vec<u64>>,
    /// Hold a thread back at its n-th pass (over all threads) through an edge, for some steps.
    pub targets: Vec<(u32, u32, u64)>,
    /// Longest run of one thread while others are ready.
    pub quantum: u64,
    /// Chance (of 256) of a spurious futex wake-up at a scheduling decision.
    pub spurious: u32,
    /// Follow this list instead.
    pub replay: Option<Vec<Decision>>,
    /// Run the threads one after another, preempting nothing.
    pub serial: bool,
}

impl Strat {
    pub fn serial() -> Strat {
        Strat {
            mean_gap: 0,
            cb: 0,
            op: 0,
            pct: None,
            targets: vec![],
            quantum: u64::MAX,
            spurious: 0,
            replay: None,
            serial: true,
        }
    }
}

pub struct Sim {
    pub on: bool,
    pub step: u64,
    countdown: u64,
    pub max_steps: u64,
    /// The process dies at this step, without a word (0: never).
    pub crash_at: u64,
    pub cur: usize,
    pub n: usize,
    pub th: Vec<Th>,
    pub rng: Rng,
    pub st: Strat,
    target_guards: Vec<(u32, u32, u64)>,
    guard_target_hit: u32,
    pub now: u64,
    start: u64,
    pub step_ns: u64,
    pub driver: AtomicU32,
    pub event_digest: u64,
    pub digest: u64,
    pub stats: SchedStats,
    lib_thread_count: u64,
}

#[derive(Default, Clone, Debug)]
pub struct SchedStats {
    pub switches: u64,
    pub forced: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub spurious: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub sleeps: u64,
    pub target_hits: u64,
    pub stalls: u64,
    pub random_reads: u64,
    pub spawned_by_library: u64,
    pub cpu_reads: u64,
}

struct SimCell(UnsafeCell<Option<Sim>>);
unsafe impl Sync for SimCell {}
static SIM: SimCell = SimCell(UnsafeCell::new(None));

thread_local! {
    static TID: Cell<usize> = const { Cell::new(NONE) };
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
    static IN_SCHED: Cell<bool> = const { Cell::new(false) };
}

#[allow(clippy::mut_from_ref)]
pub fn sim() -> &'static mut Sim {
    unsafe { (*SIM.0.get()).as_mut().expect("no simulation in this process") }
}

pub fn active() -> bool {
    unsafe { (*SIM.0.get()).is_some() }
}

#[inline]
pub fn tid() -> Option<usize> {
    let t = TID.get();
    if t == NONE {
        None
    } else {
        Some(t)
    }
}

/// The steps that the calling simulated thread has taken.
pub fn own_steps() -> u64 {
    tid().map_or(0, |t| sim().th[t].lstep)
}

#[inline]
pub fn in_lib() -> bool {
    IN_LIB.get() > 0 && !IN_SCHED.get()
}

/// Marks the extent of a call into the library (or, with `leave`, out of it into caller code).
pub struct LibScope(u32);
impl LibScope {
    pub fn enter() -> LibScope {
        let old = IN_LIB.get();
        IN_LIB.set(1);
        LibScope(old)
    }
    pub fn leave() -> LibScope {
        let old = IN_LIB.get();
        IN_LIB.set(0);
        LibScope(old)
    }
}
impl Drop for LibScope {
    fn drop(&mut self) {
        IN_LIB.set(self.0);
    }
}

/// The scheduler's own work must not be preempted or accounted to the library.
pub struct SchedScope(bool);
impl SchedScope {
    pub fn enter() -> SchedScope {
        let o = IN_SCHED.get();
        IN_SCHED.set(true);
        SchedScope(o)
    }
}
impl Drop for SchedScope {
    fn drop(&mut self) {
        IN_SCHED.set(self.0);
    }
}

pub fn init(seed: u64, st: Strat, max_steps: u64, step_ns: u64, now: u64) {
    let _g = SchedScope::enter();
    let mut rng = Rng::new(seed);
    let mut th = Vec::with_capacity(MAXT);
    for _ in 0..MAXT {
        th.push(Th {
            st: St::Free,
            lstep: 0,
            park: AtomicU32::new(0),
            wake: 0,
            prio: 0,
            delayed_until: 0,
            last_guard: 0,
            replay_pos: 0,
            run_since: 0,
        });
    }
    let mut prios: Vec<u32> = (0..MAXT as u32).map(|i| i + 1000).collect();
    for i in (1..MAXT).rev() {
        prios.swap(i, rng.below(i + 1));
    }
    for (t, p) in th.iter_mut().zip(prios) {
        t.prio = p;
    }
    let tg = st.targets.clone();
    let s = Sim {
        on: true,
        step: 0,
        countdown: u64::MAX,
        max_steps,
        crash_at: 0,
        cur: NONE,
        n: 0,
        th,
        rng,
        st,
        target_guards: tg,
        guard_target_hit: 0,
        now,
        start: now,
        step_ns,
        driver: AtomicU32::new(0),
        event_digest: 0x1234_5678,
        digest: 0xCBF2_9CE4_8422_2325,
        stats: SchedStats::default(),
        lib_thread_count: 0,
    };
    unsafe { *SIM.0.get() = Some(s) };
}

fn record(tid: usize, kind: u8, arg: usize, lstep: u64) {
    let s = sim();
    let d = Decision { lstep, tid: tid as u8, kind, arg: arg as u16 };
    let h = shm::get();
    if (h.trace_len as usize) < TRACE_CAP {
        h.trace[h.trace_len as usize] = d;
        h.trace_len += 1;
    } else {
        h.trace_overflow = 1;
    }
    let v = lstep ^ ((tid as u64) << 56) ^ ((kind as u64) << 50) ^ ((arg as u64) << 40);
    s.digest = mix(s.digest ^ v);
}

/// Adds something observed to the digest that the determinism self-check compares.
pub fn observe(v: u64) {
    let s = sim();
    s.event_digest = mix(s.event_digest ^ mix(v) ^ s.step.rotate_left(17));
}

/// Ends the simulated process: the run is over, whatever the other threads were doing.
pub fn die(class: &str, msg: &str) -> ! {
    finish_stats();
    shm::get().report(class, msg);
    shm::get().finished.store(1, Ordering::SeqCst);
    unsafe { sys::raw(libc::SYS_exit_group, 3, 0, 0, 0, 0, 0) };
    unreachable!()
}

/// The simulated process dies here.
pub fn crash() -> ! {
    finish_stats();
    unsafe { sys::raw(libc::SYS_exit_group, 5, 0, 0, 0, 0, 0) };
    unreachable!()
}

pub fn harness_error(msg: &str) -> ! {
    shm::get().harness_error.store(1, Ordering::SeqCst);
    shm::get().report("harness-error", msg);
    unsafe { sys::raw(libc::SYS_exit_group, 4, 0, 0, 0, 0, 0) };
    unreachable!()
}

pub fn finish_stats() {
    let h = shm::get();
    let s = sim();
    h.steps = s.step;
    h.sim_ns = s.now.saturating_sub(s.start).saturating_add(s.step.saturating_mul(s.step_ns)).min(1 << 54);
    h.digest = s.digest;
    h.event_digest = s.event_digest;
    h.switches = s.stats.switches + s.stats.forced;
}

// ---- preemption points -------------------------------------------------------------------

#[inline(always)]
pub fn tick_guard(g: u32) {
    let t = TID.get();
    if t == NONE || IN_SCHED.get() {
        return;
    }
    let s = sim();
    s.step += 1;
    let th = unsafe { s.th.get_unchecked_mut(t) };
    th.lstep += 1;
    th.last_guard = g;
    let h = shm::get();
    if h.count_guards != 0 {
        let c = &mut h.guards[g as usize % shm::GUARD_CAP];
        *c = c.saturating_add(1);
    }
    if !s.target_guards.is_empty() {
        check_targets(g);
    }
    s.countdown -= 1;
    if s.countdown == 0 {
        slow(t);
    }
}

#[inline(always)]
pub fn tick_mem() {
    let t = TID.get();
    if t == NONE || IN_SCHED.get() {
        return;
    }
    let s = sim();
    s.step += 1;
    unsafe { s.th.get_unchecked_mut(t) }.lstep += 1;
    s.countdown -= 1;
    if s.countdown == 0 {
        slow(t);
    }
}

pub fn tick_alloc() {
    tick_mem()
}

#[cold]
#[inline(never)]
fn check_targets(g: u32) {
    let s = sim();
    let mut hit = None;
    for t in s.target_guards.iter_mut() {
        if t.0 == g {
            if t.1 == 0 {
                continue;
            }
            t.1 -= 1;
            if t.1 == 0 {
                hit = Some(t.2);
            }
        }
    }
    if let Some(d) = hit {
        s.stats.target_hits += 1;
        let c = s.cur;
        s.th[c].delayed_until = s.step.saturating_add(d);
        s.countdown = 1; // a switch at this very point
        s.guard_target_hit += 1;
    }
}

fn ready(s: &Sim, i: usize) -> bool {
    matches!(s.th[i].st, St::Ready)
}

/// The countdown for the thread that is about to run.
fn arm(s: &mut Sim) {
    let cur = s.cur;
    let left = s.max_steps.saturating_sub(s.step).max(1);
    let mut c = left;
    if s.crash_at > s.step {
        c = c.min(s.crash_at - s.step);
    }
    if s.st.replay.is_some() {
        let rp = s.st.replay.as_ref().unwrap();
        let mut p = s.th[cur].replay_pos;
        while p < rp.len()
            && !(rp[p].tid as usize == cur && rp[p].kind != D_FORCED && rp[p].lstep > s.th[cur].lstep)
        {
            p += 1;
        }
        s.th[cur].replay_pos = p;
        if p < rp.len() {
            c = c.min(rp[p].lstep - s.th[cur].lstep);
        }
    } else if !s.st.serial {
        if s.st.mean_gap > 0 {
            // geometric-ish: uniform in 1..2*mean
            let g = 1 + s.rng.below((2 * s.st.mean_gap) as usize) as u64;
            c = c.min(g);
        }
        if let Some(p) = &s.st.pct {
            if let Some(x) = p.iter().find(|x| **x > s.step) {
                c = c.min(*x - s.step);
            }
        }
        c = c.min(s.st.quantum.max(1));
    }
    s.countdown = c.max(1);
}

#[cold]
#[inline(never)]
fn slow(t: usize) {
    let _g = SchedScope::enter();
    let s = sim();
    if s.crash_at > 0 && s.step >= s.crash_at {
        crash();
    }
    if s.step >= s.max_steps {
        die("no-progress", &format!("no end after {} steps; states: {}", s.step, states()));
    }
    if let Some(rp) = &s.st.replay {
        let p = s.th[t].replay_pos;
        let mut to = t;
        if p < rp.len() && rp[p].tid as usize == t && rp[p].lstep == s.th[t].lstep {
            let d = rp[p];
            s.th[t].replay_pos = p + 1;
            match d.kind {
                D_SWITCH => to = d.arg as usize,
                D_SPURIOUS => {
                    spurious(d.arg as usize);
                }
                _ => {}
            }
        }
        if to != t && to < s.n && ready(s, to) {
            preempt(t, to);
        } else {
            arm(sim());
        }
        return;
    }
    if s.st.spurious > 0 && (s.rng.below(256) as u32) < s.st.spurious {
        let blocked: Vec<usize> =
            (0..s.n).filter(|i| matches!(s.th[*i].st, St::Futex { .. })).collect();
        if !blocked.is_empty() {
            let v = *s.rng.pick(&blocked);
            record(t, D_SPURIOUS, v, s.th[t].lstep);
            spurious(v);
            // One decision per local step: the switch, if any, comes at the next one.
            s.countdown = 1;
            return;
        }
    }
    let next = choose(t);
    if next == t {
        arm(sim());
    } else {
        preempt(t, next);
    }
}

fn spurious(v: usize) {
    let s = sim();
    if let St::Futex { .. } = s.th[v].st {
        s.stats.spurious += 1;
        s.th[v].wake = if s.step & 1 == 0 { -libc::EINTR } else { 0 };
        s.th[v].st = St::Ready;
    }
}

fn preempt(t: usize, next: usize) {
    let s = sim();
    s.stats.switches += 1;
    record(t, D_SWITCH, next, s.th[t].lstep);
    hand_over(t, next);
}

/// A scheduling choice among the ready threads (`cur` included when it is ready).
fn choose(cur: usize) -> usize {
    let s = sim();
    let mut c: [usize; MAXT] = [0; MAXT];
    let mut n = 0;
    for i in 0..s.n {
        if ready(s, i) && s.th[i].delayed_until <= s.step {
            c[n] = i;
            n += 1;
        }
    }
    if n == 0 {
        for i in 0..s.n {
            if ready(s, i) {
                c[n] = i;
                n += 1;
            }
        }
    }
    if n == 0 {
        return NONE;
    }
    let c = &c[..n];
    if s.st.serial {
        return c[0];
    }
    if s.st.pct.is_some() {
        let changed = s.st.pct.as_ref().unwrap().contains(&s.step);
        if (changed || s.step.wrapping_sub(s.th[cur.min(MAXT - 1)].run_since) >= s.st.quantum) && cur < s.n {
            s.th[cur].run_since = s.step;
            let low = (0..s.n).map(|i| s.th[i].prio).min().unwrap_or(1);
            s.th[cur].prio = low.saturating_sub(1);
        }
        return *c.iter().max_by_key(|i| (s.th[**i].prio, MAXT - **i)).unwrap();
    }
    *s.rng.pick(c)
}

/// Give the token to `next` and wait until it comes back.
fn hand_over(t: usize, next: usize) {
    let s = sim();
    note_pair(s.th[t].last_guard, s.th[next].last_guard);
    s.cur = next;
    s.th[next].run_since = s.step;
    arm(s);
    if next == t {
        return;
    }
    s.th[next].park.store(1, Ordering::Release);
    sys::futex_wake(s.th[next].park.as_ptr());
    wait_token(t);
}

fn note_pair(a: u32, b: u32) {
    let h = shm::get();
    let i = (mix(((a as u64) << 32) | b as u64) as usize) % shm::EDGE_PAIRS;
    h.pairs[i / 8] |= 1 << (i % 8);
}

fn wait_token(t: usize) {
    let p = sim().th[t].park.as_ptr();
    let a = unsafe { AtomicU32::from_ptr(p) };
    loop {
        if a.swap(0, Ordering::Acquire) == 1 {
            return;
        }
        sys::futex_wait(p, 0);
    }
}

/// `t` cannot go on (its state says why): run something else. Returns when `t` has the token again.
fn block(t: usize) {
    let next = next_after_block(t);
    let s = sim();
    s.stats.forced += 1;
    record(t, D_FORCED, next, s.th[t].lstep);
    hand_over(t, next);
}

fn next_after_block(t: usize) -> usize {
    loop {
        let s = sim();
        if (0..s.n).any(|i| ready(s, i)) {
            break;
        }
        // Nothing is runnable: time passes.
        let mut best: Option<(u64, usize)> = None;
        for i in 0..s.n {
            let d = match s.th[i].st {
                St::Sleep { until } => until,
                St::Futex { deadline, .. } if deadline != u64::MAX => deadline,
                _ => continue,
            };
            if best.is_none_or(|b| (d, i) < b) {
                best = Some((d, i));
            }
        }
        if let Some((d, i)) = best {
            s.now = s.now.max(d);
            if let St::Futex { .. } = s.th[i].st {
                s.th[i].wake = -libc::ETIMEDOUT;
            }
            s.th[i].st = St::Ready;
            continue;
        }
        if let Some(i) = (0..s.n).find(|i| s.th[*i].st == St::Stalled) {
            let blocked: Vec<usize> = (0..s.n)
                .filter(|j| matches!(s.th[*j].st, St::Futex { .. } | St::Join { .. }))
                .collect();
            if !blocked.is_empty() {
                die(
                    "blocked-by-stalled-caller",
                    &format!(
                        "threads {blocked:?} cannot proceed while thread {i} is inside caller code; states: {}",
                        states()
                    ),
                );
            }
            s.th[i].st = St::Ready;
            continue;
        }
        die("deadlock", &format!("no thread can run; states: {}", states()));
    }
    let s = sim();
    if let Some(rp) = &s.st.replay {
        // Follow a recorded forced switch when there is one for exactly this point.
        let want = rp
            .iter()
            .find(|d| d.tid as usize == t && d.kind == D_FORCED && d.lstep == s.th[t].lstep)
            .map(|d| d.arg as usize);
        if let Some(w) = want {
            if w < s.n && ready(s, w) {
                return w;
            }
        }
        return (0..s.n).find(|i| ready(s, *i)).unwrap();
    }
    choose(t)
}

pub fn states() -> String {
    let s = sim();
    let mut o = String::new();
    for i in 0..s.n {
        let e = match s.th[i].st {
            St::Free => "free",
            St::Ready => "ready",
            St::Futex { .. } => "blocked",
            St::Sleep { .. } => "sleeping",
            St::Join { .. } => "joining",
            St::Stalled => "stalled-in-caller-code",
            St::Done => "done",
        };
        o.push_str(&format!("t{i}={e} "));
    }
    o
}

// ---- seams -------------------------------------------------------------------------------

/// futex(2), as std's locks, Once and parking use it.
pub fn futex(addr: usize, op: i32, val: u32, ts: *const libc::timespec, bits: u32) -> i64 {
    let t = TID.get();
    let _g = SchedScope::enter();
    let s = sim();
    s.step += 1;
    s.th[t].lstep += 1;
    match op & 127 {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            s.stats.futex_waits += 1;
            let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
            if cur != val {
                return -(libc::EAGAIN as i64);
            }
            let deadline = if ts.is_null() {
                u64::MAX
            } else {
                let d = unsafe { (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64 };
                if op & 127 == libc::FUTEX_WAIT {
                    s.now.saturating_add(d)
                } else {
                    d
                }
            };
            if deadline <= s.now {
                return -(libc::ETIMEDOUT as i64);
            }
            s.th[t].wake = 0;
            s.th[t].st = St::Futex { addr, bits, deadline };
            observe(1);
            block(t);
            sim().th[t].wake as i64
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            s.stats.futex_wakes += 1;
            let mut n = 0;
            for i in 0..s.n {
                if n as u32 >= val {
                    break;
                }
                if let St::Futex { addr: a, bits: b, .. } = s.th[i].st {
                    if a == addr && b & bits != 0 {
                        s.th[i].st = St::Ready;
                        s.th[i].wake = 0;
                        n += 1;
                    }
                }
            }
            observe(2);
            n
        }
        o => harness_error(&format!("futex operation {o} is not simulated")),
    }
}

pub fn sleep(ns: u64) {
    let t = TID.get();
    let _g = SchedScope::enter();
    let s = sim();
    s.stats.sleeps += 1;
    s.th[t].st = St::Sleep { until: s.now.saturating_add(ns) };
    block(t);
}

pub fn yield_now() {
    let t = TID.get();
    let _g = SchedScope::enter();
    let s = sim();
    s.step += 1;
    s.th[t].lstep += 1;
    if s.step >= s.max_steps {
        die("no-progress", &format!("no end after {} steps; states: {}", s.step, states()));
    }
    if (0..s.n).any(|i| i != t && ready(s, i)) {
        if s.st.replay.is_none() && s.st.pct.is_some() {
            let low = (0..s.n).map(|i| s.th[i].prio).min().unwrap_or(1);
            s.th[t].prio = low.saturating_sub(1);
        }
        // Somebody else goes first: modelled as a block that is over at once.
        s.th[t].delayed_until = s.step + 1;
        let next = if s.st.replay.is_some() {
            next_after_block(t)
        } else if s.st.serial {
            (0..s.n).find(|i| *i != t && ready(s, *i)).unwrap()
        } else {
            choose(t)
        };
        s.stats.forced += 1;
        record(t, D_FORCED, next, s.th[t].lstep);
        hand_over(t, next);
    }
}

/// A point where caller code runs (a function, a sink, a source) or an operation begins or ends.
pub fn boundary(is_op: bool) {
    let t = TID.get();
    if t == NONE || IN_SCHED.get() {
        return;
    }
    let _g = SchedScope::enter();
    let s = sim();
    s.step += 1;
    s.th[t].lstep += 1;
    if s.st.replay.is_some() {
        s.countdown -= 1;
        if s.countdown == 0 {
            drop(_g);
            slow(t);
        }
        return;
    }
    let p = if is_op { s.st.op } else { s.st.cb };
    s.countdown -= 1;
    if s.countdown == 0 {
        drop(_g);
        slow(t);
    } else if p > 0 && (s.rng.below(256) as u32) < p {
        let next = {
            let c: Vec<usize> = (0..s.n).filter(|i| *i != t && ready(s, *i)).collect();
            if c.is_empty() {
                t
            } else {
                *s.rng.pick(&c)
            }
        };
        if next != t {
            preempt(t, next);
        }
    }
}

/// The fault script stalls this thread in caller code until all the others are done.
pub fn stall() {
    let t = TID.get();
    let _g = SchedScope::enter();
    let s = sim();
    if s.n > 1 {
        s.stats.stalls += 1;
        s.th[t].st = St::Stalled;
        block(t);
    }
}

pub fn clock(real: bool) -> u64 {
    let s = sim();
    if TID.get() != NONE {
        s.stats.clock_reads += 1;
    }
    let base = if real { 1_700_000_000_000_000_000 } else { 0 };
    base + s.now + s.step.wrapping_mul(s.step_ns)
}

/// The script's clock fault: time jumps.
pub fn clock_jump(ns: i64) {
    let s = sim();
    s.stats.clock_jumps += 1;
    s.now = if ns < 0 { s.now.saturating_sub((-ns) as u64) } else { s.now.saturating_add(ns as u64) };
}

// ---- thread life cycle ---------------------------------------------------------------------

/// Called by the creator (driver or simulated thread) before the OS thread exists.
pub fn new_thread() -> usize {
    let s = sim();
    let i = s.n;
    if i >= MAXT {
        harness_error("too many simulated threads");
    }
    s.n += 1;
    s.th[i].st = St::Ready;
    s.th[i].lstep = 0;
    if TID.get() != NONE {
        s.stats.spawned_by_library += 1;
        s.lib_thread_count += 1;
    }
    i
}

/// First thing on the new OS thread: wait for the token.
pub fn thread_start(i: usize) {
    let _g = SchedScope::enter();
    TID.set(i);
    wait_token(i);
}

/// Last thing on the OS thread.
pub fn thread_end() {
    let t = TID.get();
    let _g = SchedScope::enter();
    let s = sim();
    s.th[t].st = St::Done;
    for i in 0..s.n {
        if let St::Join { t: j } = s.th[i].st {
            if j == t {
                s.th[i].st = St::Ready;
            }
        }
    }
    TID.set(NONE);
    if (0..s.n).all(|i| matches!(s.th[i].st, St::Done)) {
        s.cur = NONE;
        s.driver.store(1, Ordering::Release);
        sys::futex_wake(s.driver.as_ptr());
        return;
    }
    let next = next_after_block(t);
    let s = sim();
    record(t, D_FORCED, next, s.th[t].lstep);
    s.cur = next;
    s.th[next].run_since = s.step;
    arm(s);
    s.th[next].park.store(1, Ordering::Release);
    sys::futex_wake(s.th[next].park.as_ptr());
}

pub fn join_wait(j: usize) {
    let t = TID.get();
    let _g = SchedScope::enter();
    let s = sim();
    if s.th[j].st != St::Done {
        s.th[t].st = St::Join { t: j };
        block(t);
    }
}

/// The driver lets the created threads run until all of them are done.
pub fn run_all() {
    let _g = SchedScope::enter();
    let s = sim();
    if s.n == 0 || (0..s.n).all(|i| matches!(s.th[i].st, St::Done)) {
        return;
    }
    s.driver.store(0, Ordering::SeqCst);
    let first = if s.st.replay.is_some() || s.st.serial {
        let want = s.st.replay.as_ref().and_then(|r| {
            r.iter().find(|d| d.tid == 255 && d.kind == D_FORCED && d.lstep == s.step).map(|d| d.arg as usize)
        });
        match want {
            Some(w) if w < s.n && ready(s, w) => w,
            _ => (0..s.n).find(|i| ready(s, *i)).unwrap(),
        }
    } else {
        choose(MAXT - 1)
    };
    record(255, D_FORCED, first, s.step);
    s.cur = first;
    s.th[first].run_since = s.step;
    arm(s);
    s.th[first].park.store(1, Ordering::Release);
    sys::futex_wake(s.th[first].park.as_ptr());
    loop {
        if s.driver.load(Ordering::Acquire) == 1 {
            break;
        }
        sys::futex_wait(s.driver.as_ptr(), 0);
    }
}
