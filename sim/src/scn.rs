//! Scenarios: what the simulated clients do and which faults strike them. Pure data.

use crate::ast::Query;
use jprt::sched::Strat;
use jprt::shm::Decision;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Scenario {
    pub prop: String,
    pub docs: Vec<Value>,
    pub queries: Vec<QSpec>,
    pub threads: Vec<Vec<OpX>>,
    /// Calls made before the threads start, to warm the process up.
    #[serde(default)]
    pub warm: Vec<OpX>,
    #[serde(default)]
    pub p: Vec<i64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QSpec {
    pub text: String,
    pub ast: Option<Query>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OpX {
    pub op: Op,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// Parse a listed query; how: 0 parse, 1 FromStr, 2 from_value, 3 string deserializer.
    Parse { q: usize, how: u8 },
    /// Parse this text and probe what it selects in every document.
    ParseText { text: String },
    /// Evaluate a shared query (or, with `own`, one this call parses) on a shared document (or, with
    /// `fresh`, a copy this call makes), and consume the result in the given way.
    Query { q: usize, own: bool, doc: usize, fresh: bool, located: bool, mode: u8 },
    /// The extension-trait entry point.
    Ext { q: usize, doc: usize },
    /// Write something to a sink.
    Show { what: What, q: usize, own: bool, doc: usize, sink: Sink },
    /// Read a query from a source.
    De { q: usize, src: Src },
    /// Compare two queries, a clone, and drop them.
    Eq { a: usize, b: usize, own: bool },
    /// Consume a result list with helper threads.
    Lists { q: usize, doc: usize, plan: u8, helpers: u8, script: u64 },
    /// Change a document and look at it through the library (see `live`).
    Live(crate::live::LiveOp),
    /// Many cheap calls with distinct contents (see `bulk`).
    Bulk { kind: u8, from: u32, to: u32, seed: u64 },
    /// Calls on inputs of doubling size, whose work is counted (see `grow`).
    Grow { seed: u64, most: u32 },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    Display,
    Json,
    Pretty,
    NodesJson,
    LocatedJson,
    LocationsDisplay,
    LocationsJson,
    ErrorDisplay,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Sink {
    /// An io::Write rather than a fmt::Write.
    pub io: bool,
    /// Longest write accepted (0: any).
    #[serde(default)]
    pub chunk: u32,
    /// Struck when this byte is about to be accepted.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub evs: Vec<(u32, SinkEv)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SinkEv {
    Interrupt,
    Err,
    Zero,
    Panic(u32),
    Stall,
    Yield,
    Sleep,
    Reenter(Vec<OpX>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Src {
    /// 0 reader, 1 slice, 2 str, 3 value, 4.. serde's own deserializers (the text itself).
    pub form: u8,
    /// 0 bare, 1 struct field, 2 list, 3 option, 4 map, 5 flattened struct.
    #[serde(default)]
    pub wrap: u8,
    /// How the text is spelled in JSON: 0 plainly, 1 with every character escaped.
    #[serde(default)]
    pub esc: u8,
    #[serde(default)]
    pub chunk: u32,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub evs: Vec<(u32, SrcEv)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SrcEv {
    Interrupt,
    Err,
    Panic(u32),
    Stall,
    Yield,
    Sleep,
    Truncate,
    Flip(u8),
    Drop(u8),
    Dup(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    /// Strikes when the call enters a caller's function for the (at+1)-th time.
    pub at: u32,
    pub kind: FaultKind,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultKind {
    Panic { kind: u8, id: u32 },
    /// Destructors make calls while the panic unwinds: below the library, or above it.
    PanicCleanup { kind: u8, id: u32, above: bool, ops: Vec<OpX> },
    Stall,
    Sleep { ns: u64 },
    Yield { n: u32 },
    Clock { ns: i64 },
    Reenter { ops: Vec<OpX> },
    /// The function makes the very call that called it, which does the same, this often.
    Recurse { depth: u32 },
}

/// One simulated execution of a scenario.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub seed: u64,
    pub serial: bool,
    pub mean_gap: u64,
    pub cb: u32,
    pub op: u32,
    pub pct: Option<Vec<u64>>,
    pub targets: Vec<(u32, u32, u64)>,
    pub quantum: u64,
    pub spurious: u32,
    pub hash_seed: u64,
    pub cpus: u32,
    pub reuse: bool,
    pub now: u64,
    pub step_ns: u64,
    pub max_steps: u64,
    pub fail_in: u64,
    pub fail_sticky: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub replay: Option<Vec<[u64; 4]>>,
    /// Collect the number of passes through every instrumented edge.
    #[serde(default)]
    pub count: bool,
}

impl Cfg {
    pub fn serial() -> Cfg {
        Cfg {
            seed: 1,
            serial: true,
            mean_gap: 0,
            cb: 0,
            op: 0,
            pct: None,
            targets: vec![],
            quantum: u64::MAX >> 1,
            spurious: 0,
            hash_seed: 7,
            cpus: 1,
            reuse: true,
            now: 0,
            step_ns: 1,
            max_steps: 400_000_000,
            fail_in: 0,
            fail_sticky: false,
            replay: None,
            count: false,
        }
    }
    pub fn strat(&self) -> Strat {
        Strat {
            mean_gap: self.mean_gap,
            cb: self.cb,
            op: self.op,
            pct: self.pct.clone(),
            targets: self.targets.clone(),
            quantum: self.quantum,
            spurious: self.spurious,
            serial: self.serial,
            replay: self.replay.as_ref().map(|v| {
                v.iter()
                    .map(|d| Decision { lstep: d[0], tid: d[1] as u8, kind: d[2] as u8, arg: d[3] as u16 })
                    .collect()
            }),
        }
    }
}

pub fn trace_to_list(t: &[Decision]) -> Vec<[u64; 4]> {
    t.iter().map(|d| [d.lstep, d.tid as u64, d.kind as u64, d.arg as u64]).collect()
}

impl OpX {
    pub fn plain(op: Op) -> OpX {
        OpX { op, faults: vec![] }
    }
    /// The calls whose fault-free outcomes judge this one.
    pub fn wanted(&self, s: &Scenario, out: &mut Vec<Op>) {
        match &self.op {
            Op::De { q, src } => {
                if let Some(t) = crate::io::delivered_text(&s.queries[*q].text, src) {
                    out.push(Op::ParseText { text: t });
                }
            }
            Op::Live(_) | Op::Bulk { .. } | Op::Grow { .. } | Op::Lists { .. } => {}
            o => out.push(healthy(o)),
        }
        if let Op::Show { sink, .. } = &self.op {
            for (_, e) in &sink.evs {
                if let SinkEv::Reenter(v) = e {
                    v.iter().for_each(|o| o.wanted(s, out));
                }
            }
        }
        for f in &self.faults {
            if let FaultKind::Reenter { ops } | FaultKind::PanicCleanup { ops, .. } = &f.kind {
                ops.iter().for_each(|o| o.wanted(s, out));
            }
        }
    }
}

/// The same call with nothing in its way.
pub fn healthy(o: &Op) -> Op {
    let mut o = o.clone();
    match &mut o {
        Op::Show { sink, .. } => *sink = Sink { io: sink.io, ..Sink::default() },
        Op::De { src, .. } => {
            src.chunk = 0;
            src.evs.clear();
        }
        _ => {}
    }
    o
}

pub fn key(o: &Op) -> String {
    serde_json::to_string(o).unwrap()
}

/// Reads what was written with any nesting: the usual limit is for input from strangers.
pub fn read<'a, T: Deserialize<'a>>(b: &'a [u8]) -> serde_json::Result<T> {
    let mut d = serde_json::Deserializer::from_slice(b);
    d.disable_recursion_limit();
    T::deserialize(&mut d)
}
