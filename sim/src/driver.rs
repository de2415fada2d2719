//! Runs scenarios: forks the simulated processes, chooses the schedules, minimises what fails, writes
//! replay files and evidence.

use crate::props;
use crate::run;
use crate::scn::*;
use jprt::shm;
use jprt::{sys, Rng};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Debug)]
pub struct Done {
    pub violation: Option<Violation>,
    pub out: Vec<u8>,
    pub steps: u64,
    pub trace: Vec<[u64; 4]>,
    pub digest: u64,
    pub event_digest: u64,
    pub crashed: bool,
    pub aborted: bool,
    pub overflow: bool,
}

impl Done {
    pub fn nothing() -> Done {
        Done { violation: None, out: vec![], steps: 0, trace: vec![], digest: 0, event_digest: 0, crashed: false, aborted: false, overflow: false }
    }
}

/// Totals of one worker.
#[derive(Default, Serialize, Deserialize)]
pub struct Totals {
    pub scenarios: u64,
    pub processes: u64,
    pub runs: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub distinct: u64,
    pub stats: Vec<u64>,
    pub pairs: Vec<u8>,
    pub edges: Vec<u8>,
    pub det_checks: u64,
    /// Scenarios left out because their queries take too long.
    #[serde(default)]
    pub too_expensive: u64,
    pub wall: f64,
    pub strategies: BTreeMap<String, u64>,
    pub violation: Option<(u64, String)>,
    pub error: Option<String>,
    pub samples: Vec<String>,
}

pub struct Ctx {
    pub t: Totals,
    pub distinct: HashSet<u64>,
    pub minimising: bool,
    /// The steps each expected call took.
    alone: BTreeMap<String, u64>,
    #[cfg(feature = "trace")]
    oracle: Option<crate::spans::Oracle>,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            t: Totals { stats: vec![0; shm::NSTAT], pairs: vec![0; shm::EDGE_PAIRS / 8], edges: vec![], ..Totals::default() },
            distinct: HashSet::new(),
            minimising: false,
            alone: BTreeMap::new(),
            #[cfg(feature = "trace")]
            oracle: None,
        }
    }

    /// Forks a simulated process and waits for its end.
    pub fn child(&mut self, f: impl FnOnce()) -> Done {
        let h = shm::get();
        h.reset();
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            harness_fail("fork failed");
        }
        if pid == 0 {
            f();
            unsafe { libc::_exit(97) };
        }
        let mut st = 0;
        loop {
            let r = unsafe { libc::waitpid(pid, &mut st, 0) };
            if r == pid {
                break;
            }
        }
        let mut v = None;
        let mut crashed = false;
        let mut aborted = false;
        if h.harness_error.load(Ordering::SeqCst) != 0 {
            harness_fail(&format!("{}: {}", h.class(), h.msg()));
        }
        if libc::WIFEXITED(st) {
            match libc::WEXITSTATUS(st) {
                0 if h.finished.load(Ordering::SeqCst) == 1 => {}
                3 => v = Some(Violation { class: h.class(), msg: h.msg() }),
                5 => crashed = true,
                c => harness_fail(&format!("a simulated process ended with status {c}")),
            }
        } else {
            let sig = libc::WTERMSIG(st);
            match sig {
                libc::SIGKILL => harness_fail("a simulated process was killed (memory?)"),
                libc::SIGALRM => {
                    v = Some(Violation { class: "hang".into(), msg: "the process made no end of it in 120 s of real time".into() })
                }
                libc::SIGABRT => {
                    aborted = true;
                    v = Some(Violation { class: "abort".into(), msg: "the process aborted".into() })
                }
                s => v = Some(Violation { class: "crash".into(), msg: format!("the process was ended by signal {s}") }),
            }
        }
        if let (Some(v), true) = (&mut v, h.arena_full.load(Ordering::SeqCst) != 0) {
            *v = Violation { class: "memory".into(), msg: format!("more than 2.5 GB of memory were taken ({}: {})", v.class, v.msg) };
        }
        self.t.processes += 1;
        if !self.minimising {
            self.t.steps += h.steps;
            self.t.sim_ns = self.t.sim_ns.saturating_add(h.sim_ns);
            self.t.switches += h.switches;
            for i in 0..shm::NSTAT {
                self.t.stats[i] += h.stats[i];
            }
        }
        Done {
            violation: v,
            out: h.out().to_vec(),
            steps: h.steps,
            trace: trace_to_list(h.trace()),
            digest: h.digest,
            event_digest: h.event_digest,
            crashed,
            aborted,
            overflow: h.trace_overflow != 0,
        }
    }

    /// The fault-free outcome of every call that the scenario's judgement needs.
    pub fn expected(&mut self, s: &Scenario) -> Result<BTreeMap<String, String>, Violation> {
        #[cfg(feature = "trace")]
        if s.prop == "C14" {
            return self.oracle.get_or_insert_with(crate::spans::Oracle::start).ask(s);
        }
        let mut ops = vec![];
        s.threads.iter().flatten().chain(s.warm.iter()).for_each(|o| o.wanted(s, &mut ops));
        let mut m = BTreeMap::new();
        self.alone.clear();
        let warm = s.prop == "C02";
        for o in ops {
            let k = key(&o);
            if m.contains_key(&k) {
                continue;
            }
            let cfg = Cfg::serial();
            let d = self.child(|| run::solo(s, &o, &cfg, warm));
            if let Some(v) = d.violation {
                return Err(Violation { class: format!("alone-{}", v.class), msg: format!("{}: {}", run::short(&k, 500), v.msg) });
            }
            let t = String::from_utf8_lossy(&d.out).into_owned();
            if let Some(v) = props::judge_alone(s, &o, &t) {
                return Err(v);
            }
            self.alone.insert(k.clone(), d.steps);
            m.insert(k, t);
        }
        Ok(m)
    }

    /// The steps the calls of the scenario should take together, as far as that is known.
    fn work(&self, s: &Scenario) -> u64 {
        let one = |o: &OpX| {
            let mut ops = vec![];
            o.wanted(s, &mut ops);
            let levels: u64 = o.faults.iter().map(|f| if let FaultKind::Recurse { depth } = f.kind { depth as u64 } else { 0 }).sum();
            let own = self.alone.get(&key(&crate::scn::healthy(&o.op))).copied().unwrap_or(0);
            ops.iter().filter_map(|o| self.alone.get(&key(o))).sum::<u64>() + levels * own
        };
        s.threads.iter().flatten().chain(s.warm.iter()).map(one).sum()
    }
}

pub fn harness_fail(m: &str) -> ! {
    eprintln!("jpsim: {m}");
    std::process::exit(2)
}

/// A schedule for one more execution of a scenario whose serial twin took `steps` steps.
pub fn gen_cfg(r: &mut Rng, steps: u64, edges: &[(u32, u16)], nthreads: usize) -> (Cfg, &'static str) {
    let mut c = Cfg::serial();
    c.serial = false;
    c.seed = r.u64();
    c.hash_seed = r.below(5) as u64;
    c.cpus = *r.pick(&[1, 2, 4, 8, 64]);
    c.reuse = !r.one_in(6);
    c.now = *r.pick(&[0, 1, 1_000_000_000, 3_600_000_000_000, 10_000_000_000_000_000]);
    c.step_ns = *r.pick(&[0, 1, 1, 50, 10_000]);
    c.max_steps = steps.saturating_mul(20) + 20_000_000;
    c.quantum = 1 << (10 + r.below(12));
    c.op = *r.pick(&[0, 0, 64, 200]);
    c.cb = *r.pick(&[0, 16, 64, 160, 256]);
    c.spurious = *r.pick(&[0, 0, 8, 40]);
    let kind = match r.weighted(&[8, 5, 5, 3, 2]) {
        0 => {
            let u = 1 + r.log_uniform(400);
            c.mean_gap = (steps / u).max(2);
            "random preemption"
        }
        1 => {
            let d = 1 + r.below(6);
            let mut p: Vec<u64> = (0..d).map(|_| 1 + r.below(steps.max(2) as usize) as u64).collect();
            p.sort();
            p.dedup();
            c.pct = Some(p);
            c.cb = *r.pick(&[0, 0, 32]);
            "priority (PCT)"
        }
        2 if !edges.is_empty() => {
            let n = 1 + r.below(3);
            let rare: Vec<&(u32, u16)> = edges.iter().filter(|e| e.1 as usize <= nthreads * 3).collect();
            for _ in 0..n {
                let e = if !rare.is_empty() && r.pct(70) { **r.pick(&rare) } else { *r.pick(edges) };
                let occ = 1 + r.below((e.1 as usize).min(200)) as u32;
                c.targets.push((e.0, occ, r.log_uniform(steps * 2 + 2)));
            }
            c.mean_gap = if r.one_in(2) { 0 } else { (steps / (1 + r.below(30) as u64)).max(2) };
            "delay at a chosen edge"
        }
        3 => {
            // In a long history the switches would take all the time.
            c.mean_gap = (1 + r.log_uniform(40)).max(steps / 15_000);
            "fine-grained preemption"
        }
        _ => {
            c.cb = 256;
            c.op = 256;
            c.mean_gap = 0;
            "switch at every entry into caller code"
        }
    };
    (c, kind)
}

/// One scenario: expectations, the serial twin, then interleavings. Returns the first violation.
pub fn scenario(ctx: &mut Ctx, s: &Scenario, r: &mut Rng, k: usize, stop: &dyn Fn() -> bool) -> Option<(Violation, Cfg, Done)> {
    let exp = match ctx.expected(s) {
        Ok(e) => e,
        Err(v) => {
            return Some((v, Cfg::serial(), Done::nothing()));
        }
    };
    let work = ctx.work(s);
    if work > 300_000_000 {
        ctx.t.too_expensive += 1;
        return None;
    }
    let mut c0 = Cfg::serial();
    c0.count = true;
    c0.max_steps = if s.prop == "C12" { 12_000_000_000 } else { 1_000_000_000 }.max(work * 20);
    shm::get().guards.fill(0);
    let d = ctx.child(|| run::threads(s, &exp, &c0));
    let edges: Vec<(u32, u16)> = shm::get().guards.iter().enumerate().filter(|x| *x.1 > 0).map(|x| (x.0 as u32, *x.1)).collect();
    if !ctx.minimising {
        ctx.t.edges.resize(shm::GUARD_CAP / 8, 0);
        for e in &edges {
            ctx.t.edges[e.0 as usize / 8] |= 1 << (e.0 % 8);
        }
    }
    ctx.t.runs += 1;
    if let Some(v) = d.violation.clone() {
        c0.count = false;
        return Some((v, c0, d));
    }
    let steps = d.steps;
    let salt = r.u64();
    ctx.distinct.insert(d.digest ^ d.event_digest.rotate_left(9) ^ d.steps ^ salt);
    for i in 0..k {
        if stop() {
            break;
        }
        let (c, kind) = gen_cfg(r, steps, &edges, s.threads.len());
        let d = ctx.child(|| run::threads(s, &exp, &c));
        ctx.t.runs += 1;
        *ctx.t.strategies.entry(kind.into()).or_default() += 1;
        ctx.distinct.insert(d.digest ^ salt);
        if let Some(v) = d.violation.clone() {
            return Some((v, c, d));
        }
        if i == 0 && ctx.t.scenarios % 40 == 0 {
            // One seed is one execution: the same again must be the same in every step.
            let e = ctx.child(|| run::threads(s, &exp, &c));
            ctx.t.det_checks += 1;
            if e.digest != d.digest || e.event_digest != d.event_digest || e.steps != d.steps {
                harness_fail("two executions of one seed differ");
            }
        }
    }
    None
}

/// Whether every query of the scenario is so cheap on every document that a serial execution that
/// reaches its step limit is stuck rather than busy.
fn affordable(s: &Scenario) -> bool {
    s.queries.iter().filter_map(|q| q.ast.as_ref()).all(|a| s.docs.iter().all(|d| crate::eval::cost(a, d) <= 40_000))
}

/// Whether callers nest so deeply that what each level needs can add up to any amount.
fn deep(s: &Scenario) -> bool {
    let l = |o: &OpX| o.faults.iter().any(|f| matches!(f.kind, FaultKind::Recurse { depth } if depth > 60));
    s.threads.iter().flatten().chain(s.warm.iter()).any(l)
}

/// Does this scenario, under this very schedule, fail the same way?
pub fn again(ctx: &mut Ctx, s: &Scenario, c: &Cfg) -> Option<(Violation, Done)> {
    if let Some(r) = props::special_again(ctx, s, c) {
        return r;
    }
    let exp = match ctx.expected(s) {
        Ok(e) => e,
        Err(v) => return Some((v, Done::nothing())),
    };
    let d = ctx.child(|| run::threads(s, &exp, c));
    d.violation.clone().map(|v| (v, d))
}

fn same(a: &Violation, b: &Violation) -> bool {
    a.class == b.class
}

/// Shrinks the scenario, then the schedule. Bounded in time.
pub fn minimise(ctx: &mut Ctx, s: Scenario, c: Cfg, v: Violation, seconds: f64) -> (Scenario, Cfg, Violation) {
    let end = sys::real_now() + seconds;
    let mut r = Rng::new(c.seed ^ 77);
    let (mut s, mut c, mut v) = (s, c, v);
    let mut tries_left = 400;
    // Tries one smaller scenario, under the old schedule seed and a few others.
    let mut attempt = |ctx: &mut Ctx, s2: &Scenario, c: &Cfg, v: &Violation, r: &mut Rng| -> Option<(Cfg, Violation)> {
        let n = if c.serial { 1 } else { 8 };
        for i in 0..n {
            if sys::real_now() > end {
                return None;
            }
            let mut c2 = c.clone();
            if i > 0 {
                c2.seed = r.u64();
                if i > 4 && c2.mean_gap > 0 {
                    c2.mean_gap = (c2.mean_gap / 2).max(2);
                }
            }
            if let Some((v2, _)) = again(ctx, s2, &c2) {
                if same(&v2, v) {
                    return Some((c2, v2));
                }
            }
        }
        None
    };
    let mut changed = true;
    while changed && sys::real_now() < end && tries_left > 0 {
        changed = false;
        for s2 in props::smaller(&s) {
            tries_left -= 1;
            if sys::real_now() > end || tries_left == 0 {
                break;
            }
            if let Some((c2, v2)) = attempt(ctx, &s2, &c, &v, &mut r) {
                s = s2;
                c = c2;
                v = v2;
                changed = true;
                break;
            }
        }
    }
    // Pin the schedule down as a list of decisions, and drop those that do not matter.
    if !c.serial && props::replayable(&s.prop) {
        if let Some((v2, d)) = again(ctx, &s, &c) {
            if same(&v2, &v) && !d.overflow {
                let mut c2 = c.clone();
                c2.replay = Some(d.trace.clone());
                c2.targets.clear();
                if let Some((v3, _)) = again(ctx, &s, &c2) {
                    if same(&v3, &v) {
                        c = c2;
                        v = v3;
                        let mut n = 2usize;
                        loop {
                            let t = c.replay.clone().unwrap();
                            let idx: Vec<usize> = (0..t.len()).filter(|i| t[*i][2] != sched_forced()).collect();
                            if idx.is_empty() || sys::real_now() > end {
                                break;
                            }
                            let chunk = idx.len().div_ceil(n).max(1);
                            let mut hit = false;
                            for part in idx.chunks(chunk) {
                                if sys::real_now() > end {
                                    break;
                                }
                                let drop: HashSet<usize> = part.iter().copied().collect();
                                let t2: Vec<[u64; 4]> = (0..t.len()).filter(|i| !drop.contains(i)).map(|i| t[i]).collect();
                                let mut c3 = c.clone();
                                c3.replay = Some(t2);
                                if let Some((v4, _)) = again(ctx, &s, &c3) {
                                    if same(&v4, &v) {
                                        c = c3;
                                        v = v4;
                                        hit = true;
                                        break;
                                    }
                                }
                            }
                            if !hit {
                                if chunk == 1 {
                                    break;
                                }
                                n = (n * 2).min(idx.len());
                            } else {
                                n = 2.max(n - 1);
                            }
                        }
                    }
                }
            }
        }
    }
    (s, c, v)
}

fn sched_forced() -> u64 {
    jprt::shm::D_FORCED as u64
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub class: String,
    pub message: String,
    pub digest: u64,
    pub scenario: Scenario,
    pub cfg: Cfg,
    /// Executions the search needed to find it.
    pub found_after: u64,
}

static mut STOP: *mut AtomicU32 = std::ptr::null_mut();
pub fn stop_flag() -> &'static AtomicU32 {
    unsafe { &*STOP }
}

pub struct Plan {
    pub prop: String,
    pub seconds: f64,
    pub seed: u64,
    pub verif: String,
    pub thorough: bool,
}

pub fn scenario_seed(p: &Plan, i: u64) -> u64 {
    jprt::rng::mix(p.seed ^ jprt::rng::mix(run::fnv(&p.prop) ^ i.wrapping_mul(0x9E37_79B9)))
}

fn worker(p: &Plan, w: u64, nw: u64) -> Totals {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as u64;
        libc::CPU_SET((w % n) as usize, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    shm::set(shm::create());
    let mut ctx = Ctx::new();
    let t0 = sys::real_now();
    let deadline = t0 + p.seconds;
    let mut i = w;
    loop {
        let now = sys::real_now();
        if now > deadline || stop_flag().load(Ordering::SeqCst) != 0 {
            break;
        }
        let seed = std::env::var("VERIF_ONE").ok().and_then(|x| x.parse().ok()).unwrap_or(scenario_seed(p, i));
        let mut r = Rng::new(seed);
        let stop = || sys::real_now() > deadline + 5.0;
        let t1 = sys::real_now();
        let found = props::one(&mut ctx, &p.prop, &mut r, p.thorough, &stop);
        if std::env::var("VERIF_SLOW").is_ok() && sys::real_now() - t1 > 3.0 {
            eprintln!("scenario {seed} took {:.1} s", sys::real_now() - t1);
        }
        ctx.t.scenarios += 1;
        let found = found.filter(|(s, v, c)| {
            // How much there is to do to a document that clients change depends on the schedule.
            let busy = v.class.ends_with("no-progress") && (s.prop == "C11" || c.serial && !affordable(s))
                || v.class.ends_with("too-long")
                || v.class == "memory" && (deep(s) || s.prop == "C12" || !affordable(s))
                // Without tracing there is no outcome to compare with.
                || v.class.starts_with("plain-");
            ctx.t.too_expensive += busy as u64;
            !busy
        });
        if let Some((s, v, c)) = found {
            if stop_flag().fetch_add(1, Ordering::SeqCst) == 0 {
                ctx.minimising = true;
                let runs = ctx.t.runs;
                let (s2, c2, v2) = minimise(&mut ctx, s.clone(), c.clone(), v.clone(), 60.0);
                // What is reported is what replaying gives.
                let (s2, c2, v2, dig) = match again(&mut ctx, &s2, &c2) {
                    Some((v3, d)) => (s2, c2, v3, d.event_digest),
                    None => match again(&mut ctx, &s, &c) {
                        Some((v3, d)) => (s, c, v3, d.event_digest),
                        None => {
                            if v.class == "hang" {
                                harness_fail("a process hung once and did not when it was run again");
                            }
                            harness_fail(&format!("not reproducible: {} {} / {}", v.class, v.msg, v2.msg))
                        }
                    },
                };
                let name = format!("{}/replays/{}-{:016x}.json", p.verif, p.prop, seed);
                let _ = std::fs::create_dir_all(format!("{}/replays", p.verif));
                let rp = Replay {
                    property: p.prop.clone(),
                    seed,
                    class: v2.class.clone(),
                    message: v2.msg.clone(),
                    digest: dig,
                    scenario: s2,
                    cfg: c2,
                    found_after: runs,
                };
                if std::fs::write(&name, serde_json::to_vec_pretty(&rp).unwrap()).is_err() {
                    harness_fail("cannot write the replay file");
                }
                println!("{}: {}", v2.class, v2.msg);
                ctx.t.violation = Some((seed, name));
            }
            break;
        }
        i += nw;
    }
    ctx.t.distinct = ctx.distinct.len() as u64;
    ctx.t.pairs.copy_from_slice(&shm::get().pairs);
    ctx.t.wall = sys::real_now() - t0;
    ctx.t
}

fn fork_worker(f: impl FnOnce() -> Totals) -> (i32, std::fs::File) {
    unsafe {
        let mut fd = [0; 2];
        assert!(libc::pipe(fd.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fd[0]);
            let t = f();
            let mut out = std::fs::File::from_raw_fd(fd[1]);
            let _ = out.write_all(&serde_json::to_vec(&t).unwrap());
            let _ = std::io::stdout().flush();
            libc::_exit(0);
        }
        libc::close(fd[1]);
        (pid, std::fs::File::from_raw_fd(fd[0]))
    }
}

/// The check: exit status 0, 1 (violation) or 2 (the machinery failed).
pub fn check(p: &Plan) -> i32 {
    unsafe {
        STOP = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut AtomicU32;
    }
    let t0 = sys::real_now();
    let nw = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8) as u64;
    let ws: Vec<_> = (0..nw).map(|w| fork_worker(move || worker(p, w, nw))).collect();
    let mut all: Vec<Totals> = vec![];
    let mut broken = false;
    for (pid, mut f) in ws {
        let mut b = vec![];
        let _ = f.read_to_end(&mut b);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        match serde_json::from_slice::<Totals>(&b) {
            Ok(t) if st == 0 => all.push(t),
            _ => {
                eprintln!("jpsim: worker {pid} ended with status {st:#x}");
                broken = true;
            }
        }
    }
    let wall = sys::real_now() - t0;
    let found = all.iter().find_map(|t| t.violation.clone());
    props::evidence(p, &all, wall, found.is_some());
    if let Some((seed, name)) = found {
        println!("VIOLATION property={} replay={}", p.prop, name);
        println!("seed {seed}");
        return 1;
    }
    if broken {
        return 2;
    }
    let runs: u64 = all.iter().map(|t| t.runs).sum();
    if runs == 0 {
        eprintln!("jpsim: nothing was explored");
        return 2;
    }
    let sc: u64 = all.iter().map(|t| t.scenarios).sum();
    let distinct: u64 = all.iter().map(|t| t.distinct).sum();
    println!("{}: held in {runs} simulated runs of {sc} scenarios ({distinct} distinct interleavings) in {wall:.1} s", p.prop);
    crate::known::report(&p.verif, &p.prop);
    0
}

/// Answers, for each scenario on standard input, with the outcomes of its calls when they are alone.
pub fn oracle() -> i32 {
    shm::set(shm::create());
    let mut ctx = Ctx::new();
    let mut line = String::new();
    loop {
        line.clear();
        match std::io::stdin().read_line(&mut line) {
            Ok(0) => return 0,
            Ok(_) => {}
            Err(_) => return 2,
        }
        let Ok(s) = crate::scn::read::<Scenario>(line.as_bytes()) else { return 2 };
        let m = ctx.expected(&s).map_err(|v| (v.class, v.msg));
        println!("{}", serde_json::to_string(&m).unwrap());
    }
}

pub fn replay(path: &str) -> i32 {
    let b = match std::fs::read(path) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("jpsim: {path}: {e}");
            return 2;
        }
    };
    let rp: Replay = match crate::scn::read(&b) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("jpsim: {path}: {e}");
            return 2;
        }
    };
    shm::set(shm::create());
    let mut ctx = Ctx::new();
    match again(&mut ctx, &rp.scenario, &rp.cfg) {
        Some((v, d)) => {
            println!("{}: {}", v.class, v.msg);
            let exact = v.class == rp.class && v.msg == rp.message && d.event_digest == rp.digest;
            println!("{}", if exact { "exactly as recorded" } else { "not exactly as recorded" });
            println!("VIOLATION property={} replay={path}", rp.property);
            1
        }
        None => {
            println!("{}: does not fail", rp.property);
            0
        }
    }
}
