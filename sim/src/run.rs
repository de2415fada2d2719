//! What happens inside one simulated process: the clients' calls, the faults, and the judgement of
//! each call's outcome.

use crate::io::*;
use crate::scn::*;
use crate::{bulk, eval, grow, live, lists};
use jprt::sched::{self, LibScope};
use jprt::{alloc, hooks, shm};
use serde::Deserialize;
use serde_json::Value;
use serde_json_path::{JsonPath, JsonPathExt, LocatedNode, LocatedNodeList, NodeList};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};

macro_rules! stats {
    ($($c:ident $n:literal)*) => {
        stats!(@ 0usize; $($c)*);
        pub const STAT_NAMES: &[&str] = &[$($n),*];
    };
    (@ $i:expr; $c:ident $($r:ident)*) => { pub const $c: usize = $i; stats!(@ $i + 1; $($r)*); };
    (@ $i:expr;) => {};
}
stats! {
    S_CALLS "library calls made"
    S_CB "entries into caller functions"
    S_PANIC "user-function panics"
    S_STALL "stalled callers"
    S_SLEEP "slow callers (virtual sleep)"
    S_YIELD "yields inside caller code"
    S_CLOCK "clock jumps"
    S_REENTER "re-entrant call batches"
    S_CLEANUP "calls made by destructors while a panic unwinds"
    S_RECURSE "recursive re-entries of the same call"
    S_SINK_SHORT "short writes"
    S_SINK_INTR "interrupted writes"
    S_SINK_ERR "failed writes"
    S_SINK_ZERO "refused (zero-length) writes"
    S_SINK_PANIC "panicking sinks"
    S_SRC_PIECES "source reads"
    S_SRC_INTR "interrupted reads"
    S_SRC_ERR "failed or panicking reads"
    S_SRC_CORRUPT "corrupted deliveries"
    S_ALLOC_FAIL "failed allocations"
    S_ABORT "processes ended by the allocation-failure policy"
    S_FUTEX_WAIT "lock waits decided by the simulator"
    S_SPURIOUS "spurious wake-ups"
    S_RANDOM "random reads"
    S_CLOCK_READS "clock reads"
    S_EDITS "document edits"
    S_HANDOFF "lists handed to other threads"
    S_HELPERS "helper threads"
    S_CRASH "crashes and restarts"
    S_LOST "lost or torn writes"
    S_HISTORY "history calls"
    S_ROUNDS "accounting rounds"
    S_MODEL "outcomes checked against the reference model"
    S_TARGETS "threads held back at a chosen edge"
    S_SUBSCRIBER "subscriber callbacks"
}

pub fn bump(i: usize) {
    shm::get().bump(i, 1);
}
pub fn bump_n(i: usize, n: u64) {
    shm::get().bump(i, n);
}

pub struct Doc {
    pub v: Value,
    pub map: BTreeMap<usize, String>,
}

pub fn index(v: &Value) -> BTreeMap<usize, String> {
    let mut m = BTreeMap::new();
    eval::walk(v, &mut |l, x| {
        m.insert(x as *const Value as usize, eval::loc_text(l));
    });
    m
}

pub struct World {
    pub s: &'static Scenario,
    pub expected: &'static BTreeMap<String, String>,
    pub docs: Vec<Doc>,
    pub shared: Vec<Option<Result<JsonPath, String>>>,
    pub live: Vec<std::sync::Mutex<live::Live>>,
    /// An allocation fault was ordered for this process.
    pub alloc_faults: bool,
}

static WORLD: AtomicUsize = AtomicUsize::new(0);

pub fn world() -> &'static World {
    let p = WORLD.load(Ordering::Acquire);
    assert!(p != 0, "no world");
    unsafe { &*(p as *const World) }
}

/// A call into the library.
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    bump(S_CALLS);
    sched::boundary(true);
    let _g = LibScope::enter();
    let r = f();
    drop(_g);
    sched::boundary(true);
    r
}

pub fn violation(class: &str, msg: &str) -> ! {
    sched::die(class, msg)
}

// ---- simulated panics --------------------------------------------------------------------------

pub struct SimPanic(pub u32);

#[derive(Debug)]
pub struct SimError(pub u32);
impl std::fmt::Display for SimError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "sim error {}", self.0)
    }
}
impl std::error::Error for SimError {}

const STATIC_PANICS: [&str; 4] = ["sim-panic-s0", "sim-panic-s1", "sim-panic-s2", "sim-panic-s3"];

pub fn sim_panic(kind: u8, id: u32) -> ! {
    // The message is made in caller code; unwinding passes through the library as it would.
    let _out = std::mem::ManuallyDrop::new(LibScope::leave());
    match kind {
        0 => std::panic::panic_any(SimPanic(id)),
        1 => panic!("sim-panic-{id}"),
        2 => panic!("{}", STATIC_PANICS[id as usize % 4]),
        3 => std::panic::resume_unwind(Box::new(SimPanic(id))),
        _ => std::panic::panic_any(Box::new(SimError(id)) as Box<dyn std::error::Error + Send>),
    }
}

/// What a payload must look like for `sim_panic(kind, id)`.
pub fn payload_name(kind: u8, id: u32) -> String {
    match kind {
        0 | 3 => format!("sim:any:{id}"),
        1 => format!("sim:str:sim-panic-{id}"),
        2 => format!("sim:str:{}", STATIC_PANICS[id as usize % 4]),
        _ => format!("sim:err:{id}"),
    }
}

pub fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<SimPanic>() {
        return format!("sim:any:{}", s.0);
    }
    if let Some(e) = p.downcast_ref::<Box<dyn std::error::Error + Send>>() {
        return match e.downcast_ref::<SimError>() {
            Some(e) => format!("sim:err:{}", e.0),
            None => format!("err:{e}"),
        };
    }
    let t = if let Some(s) = p.downcast_ref::<&'static str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        return "a payload of another type".into();
    };
    if t.starts_with("sim-panic-") {
        format!("sim:str:{t}")
    } else {
        format!("panic: {t}")
    }
}

/// Runs a call; a panic that leaves it is an outcome like any other.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _above = Above;
        f()
    }));
    match r {
        Ok(x) => Ok(x),
        Err(p) => {
            // The payload is judged and dropped in caller code.
            let t = payload_text(&*p);
            drop(p);
            Err(t)
        }
    }
}

/// Makes the calls that a destructor makes while it is run by a panic.
struct Cleanup<'a>(&'a [OpX]);

impl Drop for Cleanup<'_> {
    fn drop(&mut self) {
        bump(S_CLEANUP);
        run_list(self.0);
    }
}

struct Above;

impl Drop for Above {
    fn drop(&mut self) {
        if std::thread::panicking() {
            let f = TOP.get();
            if let Some(i) = (!f.is_null()).then(|| unsafe { &*f }.above.take()).flatten() {
                let opx = unsafe { &*(*f).opx };
                if let FaultKind::PanicCleanup { ops, .. } = &opx.faults[i].kind {
                    drop(Cleanup(ops));
                }
            }
        }
    }
}

// ---- frames: which call is in progress on this thread ------------------------------------------

pub struct Frame {
    opx: *const OpX,
    /// Overrides the op's own faults for a recursion.
    recurse: Cell<Option<(u32, u32)>>,
    n: Cell<u32>,
    /// Callbacks of the subscriber.
    subs: Cell<u32>,
    fired: RefCell<Vec<bool>>,
    /// The panic, if the script ordered one and it was raised.
    raised: RefCell<Option<String>>,
    /// The fault whose calls are to be made above the library.
    above: Cell<Option<usize>>,
    up: *const Frame,
}

thread_local! {
    static TOP: Cell<*const Frame> = const { Cell::new(std::ptr::null()) };
    static WHO: Cell<usize> = const { Cell::new(0) };
    static LEVEL: Cell<u32> = const { Cell::new(0) };
    static MAY_UNWIND: Cell<bool> = const { Cell::new(false) };
}

/// Caller code numbered from here on is the tracing subscriber's.
pub const SUBSCRIBER: u32 = 1_000_000;

pub fn on_entered(id: u32) {
    // Entries into user functions, and those into a tracing subscriber, which must not panic.
    let user = id < SUBSCRIBER;
    if user {
        bump(S_CB);
    }
    let f = TOP.get();
    if f.is_null() {
        if user {
            crate::mem::on_entered();
        }
        return;
    }
    let f = unsafe { &*f };
    let n = if user { &f.n } else { &f.subs };
    let mut k = n.get();
    n.set(k + 1);
    let opx = unsafe { &*f.opx };
    if !user {
        k = k.saturating_add(SUBSCRIBER);
    } else if let Some((at, depth)) = f.recurse.get() {
        if at == k && depth > 0 {
            f.recurse.set(Some((u32::MAX, 0)));
            bump(S_RECURSE);
            run_recursive(opx, at, depth - 1);
        }
        return;
    }
    for (i, x) in opx.faults.iter().enumerate() {
        if x.at != k || f.fired.borrow()[i] {
            continue;
        }
        f.fired.borrow_mut()[i] = true;
        match &x.kind {
            FaultKind::Panic { kind, id } => {
                bump(S_PANIC);
                *f.raised.borrow_mut() = Some(payload_name(*kind, *id));
                sim_panic(*kind, *id);
            }
            FaultKind::PanicCleanup { kind, id, above, ops } => {
                bump(S_PANIC);
                *f.raised.borrow_mut() = Some(payload_name(*kind, *id));
                if *above {
                    f.above.set(Some(i));
                    sim_panic(*kind, *id);
                }
                let _below = Cleanup(ops);
                sim_panic(*kind, *id);
            }
            FaultKind::Stall => {
                bump(S_STALL);
                sched::stall();
            }
            FaultKind::Sleep { ns } => {
                bump(S_SLEEP);
                sched::sleep(*ns);
            }
            FaultKind::Yield { n } => {
                bump(S_YIELD);
                for _ in 0..*n {
                    sched::yield_now();
                }
            }
            FaultKind::Clock { ns } => {
                bump(S_CLOCK);
                sched::clock_jump(*ns);
            }
            FaultKind::Reenter { ops } => {
                bump(S_REENTER);
                run_list(ops);
            }
            FaultKind::Recurse { depth } => {
                bump(S_RECURSE);
                run_recursive(opx, x.at, depth.saturating_sub(1));
            }
        }
    }
}

pub fn run_list(ops: &[OpX]) {
    for o in ops {
        run_op(o, None);
    }
}

fn run_recursive(o: &OpX, at: u32, depth: u32) {
    run_op(o, Some((at, depth)));
}

/// A call whose allocations fail may report that by unwinding, but not with a wrong outcome.
pub fn run_allowing_unwind(o: &OpX) {
    MAY_UNWIND.set(true);
    run_op(o, None);
    MAY_UNWIND.set(false);
}

/// Makes one call and judges its outcome.
pub fn run_op(o: &OpX, recurse: Option<(u32, u32)>) {
    let f = Frame {
        opx: o,
        recurse: Cell::new(recurse),
        n: Cell::new(0),
        subs: Cell::new(0),
        fired: RefCell::new(vec![false; o.faults.len()]),
        raised: RefCell::new(None),
        above: Cell::new(None),
        up: TOP.get(),
    };
    let outer = LibScope::leave();
    TOP.set(&f);
    LEVEL.set(LEVEL.get() + 1);
    #[cfg(feature = "trace")]
    let depth = crate::spans::depth();
    let got = perform(&o.op);
    #[cfg(feature = "trace")]
    if crate::spans::depth() != depth {
        violation("span-unbalanced", &format!("{} spans were not left; {}", crate::spans::depth() as i64 - depth as i64, short(&key(&o.op), 500)));
    }
    TOP.set(f.up);
    LEVEL.set(LEVEL.get() - 1);
    judge(o, &f, got);
    drop(outer);
}

/// What parsing the text gives.
fn expected_parse(dt: String) -> Option<&'static str> {
    let w = world();
    let t = w.expected.get(&key(&Op::ParseText { text: dt }))?;
    Some(match t.rfind(" after ") {
        Some(n) if w.s.prop == "C14" => &t[..n],
        _ => t,
    })
}

/// With instrumentation and without it, the user's functions are called equally often.
fn with_calls(got: String, f: &Frame) -> String {
    if world().s.prop == "C14" {
        format!("{got} after {} calls of user functions", f.n.get())
    } else {
        got
    }
}

fn judge(o: &OpX, f: &Frame, got: Result<String, String>) {
    let w = world();
    let raised = f.raised.borrow().clone();
    let at = || format!("thread {} level {} {}", WHO.get(), LEVEL.get(), short(&key(&o.op), 700));
    let got = match got {
        Ok(g) => g,
        Err(p) => {
            match raised {
                Some(want) if want == p => return,
                Some(want) => violation(
                    "wrong-panic",
                    &format!("{}: the user function panicked with {want}, the caller got {p}", at()),
                ),
                None if MAY_UNWIND.get() && alloc::arena().failed > 0 => return,
                None => {}
            }
            if matches!(o.op, Op::De { .. } | Op::Lists { .. } | Op::Live(_) | Op::Bulk { .. } | Op::Grow { .. }) {
                violation("library-panic", &format!("{}: unwound with {p}", at()));
            }
            format!("unwound with {p}")
        }
    };
    let got = with_calls(got, f);
    if let Some(want) = raised {
        violation(
            "lost-panic",
            &format!("{}: the user function panicked with {want}, the call returned {}", at(), short(&got, 600)),
        );
    }
    let h = jprt::rng::mix(got.len() as u64 ^ fnv(&got));
    sched::observe(h);
    let k = match &o.op {
        // Those judge themselves.
        Op::De { .. } | Op::Lists { .. } | Op::Live(_) | Op::Bulk { .. } | Op::Grow { .. } => return,
        op => key(&healthy(op)),
    };
    match w.expected.get(&k) {
        Some(want) if *want == got => {}
        Some(want) => {
            let (a, b) = diff(want, &got);
            violation("wrong-outcome", &format!("{}: expected {a} but got {b}", at()));
        }
        None => {
            // A process whose outcomes are being collected.
        }
    }
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn short(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.into();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...", &s[..e])
}

/// The parts of two long texts around their first difference.
pub fn diff(a: &str, b: &str) -> (String, String) {
    let p = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let mut from = p.saturating_sub(120).min(s.len());
        while !s.is_char_boundary(from) {
            from -= 1;
        }
        format!("{}{:?}", if from > 0 { "..." } else { "" }, short(&s[from..], 700))
    };
    (cut(a), cut(b))
}

pub fn describe(p: &JsonPath) -> String {
    format!("ok {p}")
}

fn name(m: &BTreeMap<usize, String>, v: &Value) -> String {
    match m.get(&(v as *const Value as usize)) {
        Some(l) => l.clone(),
        None => format!("FOREIGN NODE {}", short(&v.to_string(), 60)),
    }
}

fn names<'a>(m: &BTreeMap<usize, String>, it: impl IntoIterator<Item = &'a Value>) -> String {
    let mut o = String::new();
    let mut n = 0;
    for v in it {
        o.push(' ');
        o.push_str(&name(m, v));
        n += 1;
    }
    capped(format!("n={n}{o}"))
}

/// The start of a long outcome, and a digest of all of it.
pub fn capped(s: String) -> String {
    const MOST: usize = 1 << 16;
    if s.len() <= MOST {
        return s;
    }
    let h = s.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3));
    let mut n = MOST / 2;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{} and so on, {} bytes, {h:016x}", &s[..n], s.len())
}

fn lnames<'a, 'b: 'a>(m: &BTreeMap<usize, String>, it: impl IntoIterator<Item = &'a LocatedNode<'b>>) -> String {
    let mut o = String::new();
    let mut n = 0;
    for v in it {
        let t = lib(|| v.location().to_string());
        let l = name(m, v.node());
        o.push(' ');
        o.push_str(&t);
        if l != t {
            o.push_str(&format!(" BUT IS {l}"));
        }
        n += 1;
    }
    capped(format!("n={n}{o}"))
}

fn parse(text: &str, how: u8) -> Result<JsonPath, String> {
    fn e(e: serde_json_path::ParseError) -> String {
        format!("err at {}: {} / {}", e.position(), e.message(), e)
    }
    match how {
        0 => lib(|| JsonPath::parse(text).map_err(e)),
        1 => lib(|| text.parse::<JsonPath>().map_err(e)),
        2 => {
            let v = Value::String(text.into());
            lib(|| serde_json::from_value::<JsonPath>(v).map_err(|e| format!("err {e}")))
        }
        _ => {
            use serde::de::IntoDeserializer;
            lib(|| {
                let d: serde::de::value::StrDeserializer<'_, serde::de::value::Error> = text.into_deserializer();
                JsonPath::deserialize(d).map_err(|e| format!("err {e}"))
            })
        }
    }
}

enum Held<'a> {
    Shared(&'a JsonPath),
    Own(JsonPath),
}
impl std::ops::Deref for Held<'_> {
    type Target = JsonPath;
    fn deref(&self) -> &JsonPath {
        match self {
            Held::Shared(p) => p,
            Held::Own(p) => p,
        }
    }
}
impl Held<'_> {
    fn release(self) {
        if let Held::Own(p) = self {
            lib(|| drop(p));
        }
    }
}

fn hold(q: usize, own: bool) -> Result<Held<'static>, String> {
    let w = world();
    if !own {
        if let Some(r) = &w.shared[q] {
            return match r {
                Ok(p) => Ok(Held::Shared(p)),
                Err(e) => Err(e.clone()),
            };
        }
    }
    parse(&w.s.queries[q].text, 0).map(Held::Own)
}

fn with_doc<T>(doc: usize, fresh: bool, f: impl FnOnce(&Value, &BTreeMap<usize, String>) -> T) -> T {
    let d = &world().docs[doc];
    if fresh {
        let v = Box::new(d.v.clone());
        let m = index(&v);
        let r = f(&v, &m);
        drop(v);
        r
    } else {
        f(&d.v, &d.map)
    }
}

/// The call itself. Ok(outcome), or Err(panic payload).
fn perform(op: &Op) -> Result<String, String> {
    let w = world();
    match op {
        Op::Parse { q, how } => guarded(|| match parse(&w.s.queries[*q].text, *how) {
            Ok(p) => {
                let mut t = lib(|| describe(&p));
                if let Some(Some(Ok(s))) = w.shared.get(*q) {
                    if !lib(|| p == *s) {
                        t.push_str(" UNEQUAL TO THE SHARED ONE");
                    }
                }
                lib(|| drop(p));
                t
            }
            Err(e) => e,
        }),
        Op::ParseText { text } => guarded(|| match parse(text, 0) {
            Ok(p) => {
                let t = probe(&p);
                lib(|| drop(p));
                t
            }
            Err(e) => e,
        }),
        Op::Query { q, own, doc, fresh, located, mode } => guarded(|| match hold(*q, *own) {
            Ok(p) => with_doc(*doc, *fresh, |v, m| {
                if *located {
                    let l = lib(|| p.query_located(v));
                    let r = if mode & 16 != 0 {
                        p.release();
                        consume_located(l, mode & 15, m)
                    } else {
                        let r = consume_located(l, *mode, m);
                        p.release();
                        r
                    };
                    r
                } else {
                    let l = lib(|| p.query(v));
                    let r = if mode & 16 != 0 {
                        p.release();
                        consume(l, mode & 15, m)
                    } else {
                        let r = consume(l, *mode, m);
                        p.release();
                        r
                    };
                    r
                }
            }),
            Err(e) => e,
        }),
        Op::Ext { q, doc } => guarded(|| match hold(*q, false) {
            Ok(p) => {
                let d = &w.docs[*doc];
                let l = lib(|| d.v.json_path(&p));
                let r = names(&d.map, l.iter().copied());
                lib(|| drop(l));
                p.release();
                r
            }
            Err(e) => e,
        }),
        Op::Eq { a, b, own } => guarded(|| match (hold(*a, *own), hold(*b, *own)) {
            (Ok(x), Ok(y)) => {
                let c = lib(|| (*x).clone());
                let r = lib(|| format!("{} {} {}", *x == *y, c == *x, c == *y));
                lib(|| drop(c));
                x.release();
                y.release();
                r
            }
            (a, b) => format!("{} {}", a.is_ok(), b.is_ok()),
        }),
        Op::Show { what, q, own, doc, sink } => show(*what, *q, *own, *doc, sink, op),
        Op::De { q, src } => de(*q, src),
        Op::Lists { q, doc, plan, helpers, script } => {
            guarded(|| lists::run(*q, *doc, *plan, *helpers, *script))
        }
        Op::Live(l) => guarded(|| live::run(l)),
        Op::Bulk { kind, from, to, seed } => guarded(|| bulk::run(*kind, *from, *to, *seed)),
        Op::Grow { seed, most } => guarded(|| grow::run(*seed, *most as usize)),
    }
}

/// What a query is and selects, in every document.
pub fn probe(p: &JsonPath) -> String {
    let mut t = lib(|| describe(p));
    for d in &world().docs {
        let l = lib(|| p.query(&d.v));
        t.push_str(" | ");
        t.push_str(&names(&d.map, l.iter().copied()));
        lib(|| drop(l));
    }
    t
}

fn consume(l: NodeList<'_>, mode: u8, m: &BTreeMap<usize, String>) -> String {
    match mode {
        1 => {
            let r = names(m, l.iter().copied());
            lib(|| drop(l));
            r
        }
        2 => {
            let v: Vec<&Value> = lib(|| l.into_iter().collect());
            names(m, v)
        }
        3 => {
            let n = l.len();
            let g: Vec<&Value> = (0..n + 2).filter_map(|i| l.get(i)).collect();
            format!(
                "{n} {} {} {} {}",
                l.is_empty(),
                names(m, l.first()),
                names(m, l.last()),
                names(m, g)
            )
        }
        4 => {
            let a = match l.exactly_one() {
                Ok(v) => names(m, [v]),
                Err(e) => e.to_string(),
            };
            let b = match l.at_most_one() {
                Ok(v) => names(m, v),
                Err(e) => e.to_string(),
            };
            format!("{a} / {b}")
        }
        5 => {
            let c = lib(|| l.clone());
            lib(|| drop(l));
            let v: Vec<&Value> = c.iter().rev().copied().collect();
            names(m, v)
        }
        _ => {
            let v = lib(|| l.all());
            names(m, v)
        }
    }
}

fn consume_located(l: LocatedNodeList<'_>, mode: u8, m: &BTreeMap<usize, String>) -> String {
    match mode {
        1 => {
            let mut o = String::new();
            let mut n = 0;
            for p in l.locations() {
                o.push(' ');
                o.push_str(&lib(|| p.to_string()));
                n += 1;
            }
            lib(|| drop(l));
            format!("n={n}{o}")
        }
        2 => {
            let r = names(m, l.nodes());
            lib(|| drop(l));
            r
        }
        3 => lnames(m, l.iter()),
        4 => {
            let d = lib(|| l.dedup());
            let mut v: Vec<String> = d.iter().map(|n| lnames(m, [n])).collect();
            v.sort();
            v.join(" ")
        }
        5 => {
            let mut o = String::new();
            for n in l.iter() {
                o.push(' ');
                o.push_str(&lib(|| n.location().to_json_pointer()));
                o.push('=');
                o.push_str(&name(m, n.node()));
            }
            o
        }
        6 => {
            let n = l.len();
            let r = format!("{} {n} {} {}", l.is_empty(), lnames(m, l.first()), lnames(m, l.last()));
            let b = match lib(|| l.clone().at_most_one()) {
                Ok(v) => lnames(m, v.iter()),
                Err(e) => e.to_string(),
            };
            let a = match lib(|| l.exactly_one()) {
                Ok(v) => lnames(m, [&v]),
                Err(e) => e.to_string(),
            };
            format!("{r} {a} / {b}")
        }
        7 => {
            let v = lib(|| l.all());
            let mut o = String::new();
            for n in v {
                let p = lib(|| n.to_location());
                o.push(' ');
                for e in p.iter() {
                    match (e.as_name(), e.as_index()) {
                        (Some(n), None) => o.push_str(&format!("/{n:?}")),
                        (None, Some(i)) => o.push_str(&format!("/{i}")),
                        _ => o.push_str("/neither name nor index"),
                    }
                }
            }
            o
        }
        _ => {
            let v = lib(|| l.all());
            lnames(m, v.iter())
        }
    }
}

// ---- output ------------------------------------------------------------------------------------

fn show(what: What, q: usize, own: bool, doc: usize, script: &Sink, op: &Op) -> Result<String, String> {
    let w = world();
    let full = w.expected.get(&key(&healthy(op)));
    let mut st = SinkState::new(script);
    let r = guarded(|| show_to(what, q, own, doc, script, &mut st));
    let text = String::from_utf8_lossy(&st.buf).into_owned();
    let here = |m: &str| format!("{m}; {} received {:?}", short(&key(op), 400), short(&text, 300));
    if st.after {
        violation("wrote-after-failure", &here("something was written after the sink had failed"));
    }
    match r {
        Ok(Ok(None)) => {
            if st.failed {
                violation("failure-hidden", &here("the sink failed and the call reported success"));
            }
            let got = format!("ok {text}");
            if script.evs.is_empty() && script.chunk == 0 {
                return Ok(got);
            }
            match full {
                Some(f) if *f != got => violation(
                    "incomplete-success",
                    &here(&format!("success, but the sink did not get the whole text {:?}", short(f, 300))),
                ),
                _ => {}
            }
            Ok(got)
        }
        Ok(Ok(Some(e))) => Ok(e),
        other => {
            let how = match &other {
                Ok(Err(e)) => format!("error {e}"),
                Err(p) => format!("panic {p}"),
                _ => unreachable!(),
            };
            if !st.failed {
                // The user function behind a list can be the one that panicked.
                if let Err(p) = other {
                    return Err(p);
                }
                violation("spurious-failure", &here(&format!("the sink was healthy and the call gave {how}")));
            }
            if let Err(p) = &other {
                if !p.starts_with("sim:") {
                    violation("library-panic", &here(&format!("the call unwound with {p}")));
                }
                let ordered = script.evs.iter().any(|(_, e)| matches!(e, SinkEv::Panic(id) if payload_name(*id as u8 % 5, *id) == *p));
                if !ordered {
                    violation("wrong-panic", &here(&format!("the call unwound with {p}")));
                }
            } else if script.evs.iter().any(|(_, e)| matches!(e, SinkEv::Panic(_)))
                && !script.evs.iter().any(|(_, e)| matches!(e, SinkEv::Err | SinkEv::Zero))
            {
                violation("lost-panic", &here(&format!("the sink panicked and the call gave {how}")));
            }
            if let Some(f) = full {
                let f = f.strip_prefix("ok ").unwrap_or(f);
                if !f.as_bytes().starts_with(&st.buf) {
                    violation("not-a-prefix", &here(&format!("the sink holds no prefix of {:?}", short(f, 300))));
                }
            }
            // The same call again, on a sink that works.
            let ok = Sink { io: script.io, ..Sink::default() };
            let mut st2 = SinkState::new(&ok);
            let r2 = guarded(|| show_to(what, q, own, doc, &ok, &mut st2))?;
            match r2 {
                Ok(None) => Ok(format!("ok {}", String::from_utf8_lossy(&st2.buf))),
                Ok(Some(e)) => Ok(e),
                Err(e) => violation("spurious-failure", &here(&format!("repeated on a healthy sink: {e}"))),
            }
        }
    }
}

/// Ok(None): written. Ok(Some(text)): there was nothing to write, for this reason. Err: failed.
fn show_to(what: What, q: usize, own: bool, doc: usize, script: &Sink, st: &mut SinkState) -> Result<Option<String>, String> {
    use std::fmt::Write as _;
    use std::io::Write as _;
    let io = script.io;
    let p = match hold(q, own) {
        Ok(p) => p,
        Err(e) => {
            if what == What::ErrorDisplay {
                return match JsonPath::parse(&world().s.queries[q].text) {
                    Err(e) => disp(io, st, &e),
                    Ok(_) => Ok(Some("parsed the second time".into())),
                };
            }
            return Ok(Some(e));
        }
    };
    fn disp(io: bool, st: &mut SinkState, x: &dyn std::fmt::Display) -> Result<Option<String>, String> {
        if io {
            lib(|| write!(IoSink(st), "{x}").map_err(|e| e.to_string()))?;
        } else {
            lib(|| write!(FmtSink(st), "{x}").map_err(|e| e.to_string()))?;
        }
        Ok(None)
    }
    fn json<T: serde::Serialize>(pretty: bool, st: &mut SinkState, x: &T) -> Result<Option<String>, String> {
        lib(|| {
            if pretty {
                serde_json::to_writer_pretty(IoSink(st), x)
            } else {
                serde_json::to_writer(IoSink(st), x)
            }
        })
        .map_err(|e| e.to_string())?;
        Ok(None)
    }
    let d = &world().docs[doc].v;
    let r = match what {
        What::Display => disp(io, st, &*p),
        What::ErrorDisplay => Ok(Some("no error".into())),
        What::Json => json(false, st, &*p),
        What::Pretty => json(true, st, &vec![&*p, &*p]),
        What::NodesJson => {
            let l = lib(|| p.query(d));
            json(!io, st, &l)
        }
        What::LocatedJson => {
            let l = lib(|| p.query_located(d));
            json(!io, st, &l)
        }
        What::LocationsJson => {
            let l = lib(|| p.query_located(d));
            let v: Vec<_> = l.locations().collect();
            json(false, st, &v)
        }
        What::LocationsDisplay => {
            let l = lib(|| p.query_located(d));
            let mut r = Ok(None);
            for x in l.locations() {
                r = disp(io, st, x);
                if r.is_err() {
                    break;
                }
            }
            r
        }
    };
    p.release();
    r
}

// ---- input -------------------------------------------------------------------------------------

fn de(q: usize, src: &Src) -> Result<String, String> {
    use serde::de::value as dv;
    use serde::de::IntoDeserializer;
    let w = world();
    let text = &w.s.queries[q].text;
    let (bytes, fail) = delivered(text, src);
    let altered = src.evs.iter().any(|(_, e)| matches!(e, SrcEv::Truncate | SrcEv::Flip(_) | SrcEv::Drop(_) | SrcEv::Dup(_)));
    if altered {
        bump(S_SRC_CORRUPT);
    }
    let mut fired = false;
    let utf8 = String::from_utf8(bytes.clone()).ok();
    let r: Result<Option<Result<JsonPath, String>>, String> = guarded(|| {
        Some(match src.form {
            0 => {
                let mut rd = Reader::new(text, src);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let rd = &mut rd;
                    macro_rules! from { () => { |s| lib(|| serde_json::from_reader(s)) }; }
                    from_wrapped(rd, src.wrap, from!(), from!(), from!(), from!(), from!(), from!())
                }));
                fired = rd.fired;
                match r {
                    Ok(r) => r.map_err(|e| e.to_string()),
                    Err(p) => std::panic::resume_unwind(p),
                }
            }
            1 => {
                macro_rules! from { () => { |s: &[u8]| lib(|| serde_json::from_slice(s)) }; }
                from_wrapped(&bytes[..], src.wrap, from!(), from!(), from!(), from!(), from!(), from!()).map_err(|e| e.to_string())
            }
            2 => {
                let t = utf8.as_deref()?;
                macro_rules! from { () => { |s: &str| lib(|| serde_json::from_str(s)) }; }
                from_wrapped(t, src.wrap, from!(), from!(), from!(), from!(), from!(), from!()).map_err(|e| e.to_string())
            }
            3 => {
                let v: Value = serde_json::from_str(utf8.as_deref()?).ok()?;
                macro_rules! from { () => { |s: Value| lib(|| serde_json::from_value(s)) }; }
                from_wrapped(v, src.wrap, from!(), from!(), from!(), from!(), from!(), from!()).map_err(|e| e.to_string())
            }
            k if k >= 9 => {
                let d = Deliver { form: k, bytes: &bytes, readable: src.esc == 0 };
                lib(|| JsonPath::deserialize(d)).map_err(|e| e.to_string())
            }
            k => {
                let t = utf8.clone()?;
                let e = |e: dv::Error| e.to_string();
                match k {
                    4 => {
                        let d: dv::StrDeserializer<'_, dv::Error> = t.as_str().into_deserializer();
                        lib(|| JsonPath::deserialize(d)).map_err(e)
                    }
                    5 => {
                        let d: dv::StringDeserializer<dv::Error> = t.into_deserializer();
                        lib(|| JsonPath::deserialize(d)).map_err(e)
                    }
                    6 => {
                        let d: dv::BorrowedStrDeserializer<'_, dv::Error> = dv::BorrowedStrDeserializer::new(&t);
                        lib(|| JsonPath::deserialize(d)).map_err(e)
                    }
                    7 => {
                        let d: dv::CowStrDeserializer<'_, dv::Error> = std::borrow::Cow::Borrowed(t.as_str()).into_deserializer();
                        lib(|| JsonPath::deserialize(d)).map_err(e)
                    }
                    _ => {
                        let v = Value::String(t);
                        lib(|| JsonPath::deserialize(&v)).map_err(|e| e.to_string())
                    }
                }
            }
        })
    });
    let arrived = || format!("arrived {:?}, source {src:?}", String::from_utf8_lossy(&bytes));
    let got = match r {
        Err(p) => {
            let ordered = src.evs.iter().any(|(_, e)| matches!(e, SrcEv::Panic(id) if payload_name(*id as u8 % 5, *id) == p));
            if ordered && fired {
                return Ok("the source's panic".into());
            }
            violation("panic-while-reading", &format!("{p}; {}", arrived()));
        }
        Ok(None) => return Ok("not deliverable this way".into()),
        Ok(Some(r)) => r,
    };
    let _ = fail;
    match got {
        Ok(p) => {
            if fired {
                violation("failure-hidden", &format!("the source failed and the call gave {p}; {}", arrived()));
            }
            let t = probe(&p);
            match delivered_text(text, src) {
                None => violation("query-from-nothing", &format!("{t}; {}", arrived())),
                Some(dt) => {
                    if let Some(want) = expected_parse(dt.clone()) {
                        if want != t {
                            let (a, b) = diff(want, &t);
                            violation("another-query", &format!("parsing gives {a}, reading gave {b}; {}", arrived()));
                        }
                    }
                    match parse(&dt, 0) {
                        Ok(p2) => {
                            if !lib(|| p2 == p) {
                                violation("another-query", &format!("not equal to what parsing {dt:?} gives; {}", arrived()));
                            }
                        }
                        Err(e) => violation("another-query", &format!("parsing {dt:?} gives {e}, reading gave {t}; {}", arrived())),
                    }
                }
            }
            lib(|| drop(p));
            Ok(t)
        }
        Err(e) => {
            if !altered && !fired && must_read(src.form) {
                if let Some(dt) = delivered_text(text, src) {
                    if let Some(want) = expected_parse(dt) {
                        if want.starts_with("ok ") {
                            violation("refused", &format!("parsing gives {}, reading gave {e}; {}", short(want, 300), arrived()));
                        }
                    }
                }
            }
            Ok(format!("err {e}"))
        }
    }
}

// ---- the process -------------------------------------------------------------------------------

pub const STACK: usize = 96 << 20;

static NAMES: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

pub fn spawn(f: impl FnOnce() + Send + 'static) -> std::thread::JoinHandle<()> {
    let mut b = std::thread::Builder::new().stack_size(STACK);
    // Whatever threads are called.
    let name = ["", "main", "worker", "tokio-runtime-worker", "t 1"][NAMES.load(Ordering::Relaxed) as usize % 5];
    if !name.is_empty() {
        b = b.name(name.into());
    }
    b.spawn(f).expect("thread")
}

/// Sets a forked process up as a simulated one.
pub fn begin(s: &Scenario, expected: &BTreeMap<String, String>, cfg: &Cfg) {
    unsafe {
        libc::alarm(120);
    }
    // Threads are numbered on from wherever the process has got to.
    if !cfg.serial && cfg.seed % 3 == 0 {
        for _ in 0..cfg.seed / 3 % 40 {
            let _ = std::thread::Builder::new().stack_size(1 << 48).spawn(|| ());
        }
    }
    alloc::enable(cfg.reuse, if cfg.serial || cfg.seed % 2 == 0 { 0 } else { jprt::rng::mix(cfg.seed) as usize });
    hooks::seed_random(cfg.hash_seed);
    hooks::set_cpus(cfg.cpus);
    NAMES.store(if cfg.serial { 0 } else { cfg.seed as u32 }, Ordering::Relaxed);
    hooks::set_environment(if cfg.serial { 0 } else { cfg.seed });
    shm::get().count_guards = cfg.count as u32;
    sched::init(cfg.seed, cfg.strat(), cfg.max_steps, cfg.step_ns, cfg.now);
    jprt::cb::set_hook(on_entered);
    std::panic::set_hook(Box::new(|_| {}));
    #[cfg(feature = "trace")]
    crate::spans::install(s);
    let s: &'static Scenario = unsafe { &*(s as *const Scenario) };
    let expected: &'static BTreeMap<String, String> = unsafe { &*(expected as *const _) };
    let docs = s
        .docs
        .iter()
        .map(|v| Doc { v: v.clone(), map: BTreeMap::new() })
        .collect();
    let live = s.docs.iter().map(|v| std::sync::Mutex::new(live::Live::new(v.clone()))).collect();
    let mut w = Box::new(World { s, expected, docs, shared: vec![], live, alloc_faults: cfg.fail_in > 0 });
    w.docs.iter_mut().for_each(|d| d.map = index(&d.v));
    w.shared.resize_with(s.queries.len(), || None);
    let p = Box::into_raw(w);
    WORLD.store(p as usize, Ordering::Release);
}

/// Parses the queries that are to be shared (in this process, before anything runs concurrently).
pub fn share(which: &[usize]) {
    let w = unsafe { &mut *(WORLD.load(Ordering::Acquire) as *mut World) };
    for &q in which {
        if w.shared[q].is_none() {
            let r = guarded(|| parse(&w.s.queries[q].text, 0)).unwrap_or_else(Err);
            w.shared[q] = Some(r);
        }
    }
}

pub fn shared_used(o: &OpX, out: &mut Vec<usize>) {
    match &o.op {
        Op::Query { q, own: false, .. } | Op::Ext { q, .. } | Op::Show { q, own: false, .. } => out.push(*q),
        Op::Live(live::LiveOp::Query { q, own: false, .. } | live::LiveOp::Edit { q, own: false, .. } | live::LiveOp::Note { q, own: false, .. }) => out.push(*q),
        Op::Eq { a, b, own: false } => {
            out.push(*a);
            out.push(*b);
        }
        _ => {}
    }
    if let Op::Show { sink, .. } = &o.op {
        for (_, e) in &sink.evs {
            if let SinkEv::Reenter(v) = e {
                v.iter().for_each(|o| shared_used(o, out));
            }
        }
    }
    for f in &o.faults {
        if let FaultKind::Reenter { ops } | FaultKind::PanicCleanup { ops, .. } = &f.kind {
            ops.iter().for_each(|o| shared_used(o, out));
        }
    }
}

pub fn end() -> ! {
    let st = &sched::sim().stats;
    bump_n(S_FUTEX_WAIT, st.futex_waits);
    bump_n(S_SPURIOUS, st.spurious);
    bump_n(S_RANDOM, st.random_reads);
    bump_n(S_CLOCK_READS, st.clock_reads);
    bump_n(S_TARGETS, st.target_hits);
    bump_n(S_ALLOC_FAIL, alloc::arena().failed);
    sched::finish_stats();
    shm::get().finished.store(1, Ordering::SeqCst);
    unsafe { libc::_exit(0) }
}

/// A call alone in a fresh process: what it returns is what it returns everywhere.
pub fn solo(s: &Scenario, op: &Op, cfg: &Cfg, warm: bool) -> ! {
    let none = BTreeMap::new();
    begin(s, &none, cfg);
    let opx = OpX::plain(op.clone());
    let mut used = vec![];
    shared_used(&opx, &mut used);
    share(&used);
    let h = spawn(move || {
        if warm {
            run_list(&world().s.warm);
        }
        let f = Frame {
            opx: &opx,
            recurse: Cell::new(None),
            n: Cell::new(0),
            subs: Cell::new(0),
            fired: RefCell::new(vec![]),
            raised: RefCell::new(None),
        above: Cell::new(None),
            up: std::ptr::null(),
        };
        TOP.set(&f);
        let r = perform(&opx.op);
        TOP.set(std::ptr::null());
        let t = match r {
            Ok(t) => t,
            Err(p) => format!("unwound with {p}"),
        };
        let t = with_calls(t, &f);
        if t.len() > shm::OUT_CAP {
            violation("too-long", "an outcome is too long to be judged");
        }
        shm::get().set_out(t.as_bytes());
    });
    sched::run_all();
    let _ = h.join();
    end()
}

/// The scenario with all its threads.
pub fn threads(s: &Scenario, expected: &BTreeMap<String, String>, cfg: &Cfg) -> ! {
    begin(s, expected, cfg);
    let mut used = vec![];
    s.threads.iter().flatten().for_each(|o| shared_used(o, &mut used));
    share(&used);
    let ws = world().s;
    // In C02 the calls in `warm` are for the reference process only.
    if !s.warm.is_empty() && s.prop != "C02" {
        let h = spawn(|| run_list(&world().s.warm));
        sched::run_all();
        let _ = h.join();
    }
    let hs: Vec<_> = (0..s.threads.len())
        .map(|i| {
            spawn(move || {
                WHO.set(i);
                run_list(&ws.threads[i]);
            })
        })
        .collect();
    sched::run_all();
    for (i, h) in hs.into_iter().enumerate() {
        if let Err(p) = h.join() {
            sched::harness_error(&format!("thread {i} of the harness panicked: {}", payload_text(&*p)));
        }
    }
    end()
}
