//! Allocation failures, at every point of one call.

use crate::driver::*;
use crate::run::*;
use crate::scn::*;
use jprt::{alloc, sched, Rng};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;

/// One call, in which the allocation that c.fail_in counts down to fails; then the same call again.
pub fn process(s: &Scenario, exp: &BTreeMap<String, String>, c: &Cfg) -> ! {
    unsafe {
        let no = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &no);
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(fd, 2);
    }
    begin(s, exp, c);
    let mut used = vec![];
    s.threads.iter().flatten().for_each(|o| shared_used(o, &mut used));
    share(&used);
    let (k, sticky) = (c.fail_in, c.fail_sticky);
    let h = spawn(move || {
        let w = world();
        run_list(&w.s.warm);
        let o = &w.s.threads[0][0];
        let a = alloc::arena();
        let before = a.lib_allocs;
        a.fail_in = k;
        a.fail_sticky = sticky;
        a.failed = 0;
        let r = run_allowing_unwind(o);
        a.fail_in = 0;
        a.fail_sticky = false;
        // How many there were, for whoever chooses the next one to fail.
        jprt::shm::get().set_out(&(a.lib_allocs - before).to_le_bytes());
        let _ = r;
        run_op(o, None);
    });
    sched::run_all();
    let _ = h.join();
    end()
}

/// Does the run end in one of the ways the property allows?
fn judge(mut d: Done) -> Done {
    let armed = jprt::shm::get().alloc_fault_armed.load(Ordering::SeqCst) != 0;
    if d.aborted && armed {
        d.violation = None;
    }
    d
}

pub fn once(ctx: &mut Ctx, s: &Scenario, c: &Cfg) -> Option<(Violation, Done)> {
    let exp = match ctx.expected(s) {
        Ok(e) => e,
        Err(v) => return Some((v, Done::nothing())),
    };
    let d = judge(ctx.child(|| process(s, &exp, c)));
    d.violation.clone().map(|v| (v, d))
}

pub fn explore(ctx: &mut Ctx, s: &Scenario, r: &mut Rng, thorough: bool, stop: &dyn Fn() -> bool) -> Option<(Violation, Cfg)> {
    let exp = match ctx.expected(s) {
        Ok(e) => e,
        Err(v) => return Some((v, Cfg::serial())),
    };
    let mut c = Cfg::serial();
    let d = ctx.child(|| process(s, &exp, &c));
    ctx.t.runs += 1;
    if let Some(v) = d.violation {
        return Some((v, c));
    }
    let n = d.out.get(..8).map_or(0, |b| u64::from_le_bytes(b.try_into().unwrap()));
    let most = if thorough { 400 } else { 60 };
    let mut ks: Vec<u64> = (1..=n).collect();
    if n > most {
        ks = (0..most).map(|_| 1 + r.below(n as usize) as u64).collect();
        ks.sort();
        ks.dedup();
    }
    let salt = r.u64();
    for k in ks {
        for sticky in [false, true] {
            if stop() {
                return None;
            }
            c.fail_in = k;
            c.fail_sticky = sticky;
            let d = judge(ctx.child(|| process(s, &exp, &c)));
            ctx.t.runs += 1;
            ctx.t.stats[S_ABORT] += d.aborted as u64;
            if d.aborted {
                ctx.t.stats[S_ALLOC_FAIL] += 1;
            }
            ctx.distinct.insert(salt ^ (k << 1 | sticky as u64));
            if let Some(v) = d.violation {
                return Some((v, c));
            }
        }
    }
    None
}
