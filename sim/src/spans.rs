//! The library with its tracing instrumentation compiled in, under a subscriber that misbehaves in every
//! way a subscriber may.

use crate::props;
use crate::run::*;
use crate::scn::*;
use jprt::sched::LibScope;
use jprt::Rng;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::subscriber::Interest;
use tracing::{Event, Level, Metadata, Subscriber};

/// Subscriber faults have their own numbering: `Fault::at` counts its callbacks from here.
const FIRST: u32 = SUBSCRIBER;

thread_local! {
    static STACK: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}

struct Sub {
    mode: i64,
    seed: u64,
    next: AtomicU64,
}

struct Fields(usize);
impl Visit for Fields {
    fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
        // Formatting runs library code.
        let t = lib(|| format!("{}={v:?}", f.name()));
        self.0 += t.len();
    }
}

impl Sub {
    fn called(&self) {
        bump(S_SUBSCRIBER);
        jprt::cb::entered(FIRST);
    }
    fn wants(&self, m: &Metadata<'_>) -> bool {
        match self.mode {
            2 => (fnv(m.name()) ^ self.seed) % 3 != 0,
            3 => *m.level() <= Level::DEBUG,
            _ => true,
        }
    }
}

impl Subscriber for Sub {
    fn register_callsite(&self, m: &'static Metadata<'static>) -> Interest {
        let _o = LibScope::leave();
        match self.mode {
            4 if (fnv(m.name()) ^ self.seed) % 2 == 0 => Interest::never(),
            5 | 2 | 3 => Interest::sometimes(),
            _ => Interest::always(),
        }
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        let _o = LibScope::leave();
        self.wants(m)
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        let _o = LibScope::leave();
        if self.mode != 6 {
            a.record(&mut Fields(0));
        }
        self.called();
        Id::from_u64(self.next.fetch_add(1, Ordering::SeqCst) + 1)
    }
    fn record(&self, _: &Id, v: &Record<'_>) {
        let _o = LibScope::leave();
        v.record(&mut Fields(0));
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        let _o = LibScope::leave();
        if self.mode != 6 {
            e.record(&mut Fields(0));
        }
        self.called();
    }
    fn enter(&self, id: &Id) {
        let _o = LibScope::leave();
        STACK.with_borrow_mut(|s| s.push(id.into_u64()));
        self.called();
    }
    fn exit(&self, id: &Id) {
        let _o = LibScope::leave();
        let id = id.into_u64();
        let top = STACK.with_borrow_mut(|s| s.pop());
        if top != Some(id) {
            violation("span-unbalanced", &format!("span {id} was left while {top:?} was the innermost one entered on this thread"));
        }
        if !std::thread::panicking() {
            self.called();
        }
    }
}

/// How many spans this thread is in.
pub fn depth() -> usize {
    STACK.with_borrow(|s| s.len())
}

/// p: [subscriber mode, seed]. Mode 0: none.
pub fn install(s: &Scenario) {
    STACK.with_borrow_mut(|s| s.clear());
    if s.prop == "C14" && s.p.first().is_some_and(|m| *m > 0) {
        let sub = Sub { mode: s.p[0], seed: s.p[1] as u64, next: AtomicU64::new(0) };
        tracing::subscriber::set_global_default(sub).expect("subscriber");
    }
}

/// A long text with longer characters in it, mostly not a query.
fn lengthy(r: &mut Rng) -> QSpec {
    let n = 8 + r.log_uniform(300) as usize;
    let wide = 1 + r.below(4);
    let mut fill = String::new();
    while fill.len() < n {
        fill.push(if r.below(5) < wide { *r.pick(&['é', '☺', '😀', '日']) } else { *r.pick(&['a', 'b', ' ', '.']) });
    }
    let t = match r.below(6) {
        0 => fill,
        1 => format!("$['{fill}']"),
        2 => format!("$['{fill}'"),
        3 => format!("$.a[?@ == \"{fill}\" && nosuch('{fill}')]"),
        4 => format!("$[{fill}]"),
        _ => format!("$.{}", fill.replace(['.', ' '], "")) + r.pick(&["", "[", " ", "#"]),
    };
    let ast = crate::mparse::parse(&t).ok();
    QSpec { text: t, ast }
}

pub fn scenario(r: &mut Rng) -> Scenario {
    let (nd, nq) = (1 + r.below(2), 1 + r.below(4));
    let (v, mut s) = props::base("C14", r, nd, nq, 50);
    if r.one_in(4) {
        s.queries.push(props::gen_broken(&v, r));
    }
    if r.one_in(3) {
        s.queries.push(lengthy(r));
    }
    if r.one_in(4) {
        // Hardly anything but errors.
        let n = s.queries.len();
        s.queries.drain(r.below(2).min(n)..);
        for _ in 0..1 + r.below(3) {
            s.queries.push(if r.one_in(3) { lengthy(r) } else { props::gen_broken(&v, r) });
        }
    }
    s.p = vec![r.below(7) as i64, (r.u64() >> 1) as i64];
    let own = *r.pick(&[20, 60, 100]);
    for _ in 0..*r.pick(&[1, 1, 2, 2, 3]) {
        let mut ops = vec![];
        for _ in 0..1 + r.below(3) {
            let mut x = OpX::plain(props::op_any(&s, r, own));
            if props::counts(&x.op, &s) && r.pct(40) {
                x.faults.push(Fault { at: props::at(r), kind: props::gen_panic(r) });
            }
            if r.pct(60) && !matches!(x.op, Op::De { .. }) {
                for _ in 0..1 + r.below(2) {
                    let kind = match r.below(6) {
                        0 => FaultKind::Stall,
                        1 => FaultKind::Sleep { ns: 1_000_000 },
                        2 | 3 => FaultKind::Yield { n: 1 + r.below(3) as u32 },
                        _ => FaultKind::Reenter { ops: (0..1 + r.below(2)).map(|_| OpX::plain(props::op_any(&s, r, own))).collect() },
                    };
                    x.faults.push(Fault { at: FIRST + r.log_uniform(200) as u32 - 1, kind });
                }
            }
            ops.push(x);
        }
        s.threads.push(ops);
    }
    s
}

// ---- the same library without the instrumentation ----------------------------------------------

pub struct Oracle {
    child: std::process::Child,
    out: std::io::BufReader<std::process::ChildStdout>,
}

impl Oracle {
    pub fn start() -> Oracle {
        let exe = std::env::var("JPSIM_PLAIN").unwrap_or_else(|_| crate::driver::harness_fail("JPSIM_PLAIN is not set"));
        let mut child = std::process::Command::new(exe)
            .arg("oracle")
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| crate::driver::harness_fail(&format!("oracle: {e}")));
        let out = std::io::BufReader::new(child.stdout.take().unwrap());
        Oracle { child, out }
    }
    pub fn ask(&mut self, s: &Scenario) -> Result<BTreeMap<String, String>, crate::driver::Violation> {
        use std::io::{BufRead, Write};
        let mut l = serde_json::to_string(s).unwrap();
        l.push('\n');
        fn fail() -> ! {
            crate::driver::harness_fail("the oracle process does not answer")
        }
        if self.child.stdin.as_mut().unwrap().write_all(l.as_bytes()).is_err() {
            fail();
        }
        l.clear();
        match self.out.read_line(&mut l) {
            Ok(n) if n > 0 => {
                let answer: Result<_, (String, String)> = crate::scn::read(l.as_bytes()).unwrap_or_else(|_| fail());
                answer.map_err(|(class, msg)| crate::driver::Violation { class: format!("plain-{class}"), msg })
            }
            _ => fail(),
        }
    }
}
