//! The simulated callers' output sinks and input sources, with their faults.

use crate::run;
use crate::scn::*;
use jprt::sched::{self, LibScope};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io;

// ---- sinks -----------------------------------------------------------------------------------

pub struct SinkState<'a> {
    script: &'a Sink,
    used: Vec<bool>,
    pub buf: Vec<u8>,
    /// A failure (error, panic, refusal) has been handed to the library.
    pub failed: bool,
    /// Something was written after that.
    pub after: bool,
}

enum Got {
    Accept(usize),
    Interrupt,
    Err,
    Zero,
}

impl<'a> SinkState<'a> {
    pub fn new(script: &'a Sink) -> Self {
        SinkState { script, used: vec![false; script.evs.len()], buf: vec![], failed: false, after: false }
    }

    fn offer(&mut self, b: &[u8], whole: bool) -> Got {
        let _out = LibScope::leave();
        sched::boundary(false);
        if b.is_empty() {
            return Got::Accept(0);
        }
        if self.failed {
            self.after = true;
        }
        let mut taken = 0usize;
        loop {
            let pos = self.buf.len();
            let mut lim = b.len() - taken;
            if self.script.chunk > 0 && !whole {
                lim = lim.min((self.script.chunk as usize).saturating_sub(taken));
            }
            if lim == 0 {
                break;
            }
            let mut next: Option<usize> = None;
            for (i, (at, _)) in self.script.evs.iter().enumerate() {
                let at = *at as usize;
                if !self.used[i] && at >= pos && at < pos + lim && next.is_none_or(|n| at < self.script.evs[n].0 as usize) {
                    next = Some(i);
                }
            }
            let Some(i) = next else {
                self.buf.extend_from_slice(&b[taken..taken + lim]);
                taken += lim;
                if whole {
                    continue;
                }
                break;
            };
            let upto = self.script.evs[i].0 as usize - pos;
            if upto > 0 {
                self.buf.extend_from_slice(&b[taken..taken + upto]);
                taken += upto;
                if !whole {
                    break; // a short write, up to where the event is
                }
            }
            self.used[i] = true;
            match &self.script.evs[i].1 {
                SinkEv::Interrupt => {
                    run::bump(run::S_SINK_INTR);
                    if !whole {
                        return Got::Interrupt;
                    }
                }
                SinkEv::Err => {
                    run::bump(run::S_SINK_ERR);
                    self.failed = true;
                    return Got::Err;
                }
                SinkEv::Zero => {
                    run::bump(run::S_SINK_ZERO);
                    self.failed = true;
                    return Got::Zero;
                }
                SinkEv::Panic(id) => {
                    run::bump(run::S_SINK_PANIC);
                    self.failed = true;
                    run::sim_panic(*id as u8 % 5, *id);
                }
                SinkEv::Stall => {
                    run::bump(run::S_STALL);
                    sched::stall()
                }
                SinkEv::Yield => sched::yield_now(),
                SinkEv::Sleep => sched::sleep(5_000_000),
                SinkEv::Reenter(ops) => {
                    run::bump(run::S_REENTER);
                    run::run_list(ops)
                }
            }
        }
        if taken < b.len() {
            run::bump(run::S_SINK_SHORT);
        }
        sched::boundary(false);
        Got::Accept(taken)
    }
}

pub struct IoSink<'a, 'b>(pub &'b mut SinkState<'a>);
impl io::Write for IoSink<'_, '_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let r = self.0.offer(b, false);
        let _out = LibScope::leave();
        match r {
            Got::Accept(n) => Ok(n),
            Got::Interrupt => Err(io::ErrorKind::Interrupted.into()),
            Got::Err => Err(io::Error::other("sink failed")),
            Got::Zero => Ok(0),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct FmtSink<'a, 'b>(pub &'b mut SinkState<'a>);
impl std::fmt::Write for FmtSink<'_, '_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        match self.0.offer(s.as_bytes(), true) {
            Got::Accept(_) => Ok(()),
            _ => Err(std::fmt::Error),
        }
    }
}

// ---- sources ---------------------------------------------------------------------------------

#[derive(Deserialize, Serialize)]
pub struct Wrapped<T> {
    pub a: i64,
    pub path: T,
}

#[derive(Deserialize, Serialize)]
pub struct Inner<T> {
    pub path: T,
}

#[derive(Deserialize, Serialize)]
pub struct Flat<T> {
    pub a: i64,
    #[serde(flatten)]
    pub inner: Inner<T>,
}

/// The JSON document that holds the text.
pub fn encode(text: &str, src: &Src) -> Vec<u8> {
    let s = if src.esc == 0 {
        serde_json::to_string(text).unwrap()
    } else {
        let mut o = String::from("\"");
        for u in text.encode_utf16() {
            o.push_str(&format!("\\u{u:04x}"));
        }
        o.push('"');
        o
    };
    match src.wrap {
        1 | 5 => format!("{{\"a\": 1, \"path\": {s}}}"),
        2 => format!("[{s}, \"$\"]"),
        4 => format!("{{\"k\":{s}}}"),
        _ => s,
    }
    .into_bytes()
}

/// What arrives, and where reading fails if it does.
pub fn delivered(text: &str, src: &Src) -> (Vec<u8>, Option<usize>) {
    let raw = if src.form >= 4 { text.as_bytes().to_vec() } else { encode(text, src) };
    let mut out = Vec::new();
    let mut skip = 0usize;
    let mut fail = None;
    for (i, b) in raw.iter().enumerate() {
        let mut b = *b;
        let mut dup = 0;
        let mut cut = false;
        for (at, e) in &src.evs {
            if *at as usize == i {
                match e {
                    SrcEv::Truncate => cut = true,
                    SrcEv::Flip(m) => b ^= *m,
                    SrcEv::Drop(n) => skip = skip.max(*n as usize),
                    SrcEv::Dup(n) => dup = *n as usize,
                    SrcEv::Err | SrcEv::Panic(_) if src.form == 0 && fail.is_none() => fail = Some(out.len()),
                    _ => {}
                }
            }
        }
        if cut {
            break;
        }
        if skip > 0 {
            skip -= 1;
            continue;
        }
        out.push(b);
        if dup > 0 {
            let from = out.len().saturating_sub(dup);
            let x = out[from..].to_vec();
            out.extend(x);
        }
    }
    (out, fail)
}

/// The query text that a faultless reader gets from what arrived, if there is one.
pub fn delivered_text(text: &str, src: &Src) -> Option<String> {
    let (b, _) = delivered(text, src);
    match src.form {
        0 | 1 => decode::<String>(&b, src.wrap),
        2 | 3 => {
            std::str::from_utf8(&b).ok()?;
            if src.form == 3 {
                let v: serde_json::Value = serde_json::from_slice(&b).ok()?;
                decode_value::<String>(v, src.wrap)
            } else {
                decode::<String>(&b, src.wrap)
            }
        }
        18 => None,
        19 => match String::from_utf8(b).ok()?.chars().next() {
            Some(c) => Some(c.to_string()),
            None => None,
        },
        20 => std::str::from_utf8(&b).ok()?.len().to_string().into(),
        21 => None,
        _ => String::from_utf8(b).ok(),
    }
}

/// Whether a text that is whole must be read: strings and streams, and not what no query is stored as.
pub fn must_read(form: u8) -> bool {
    form <= 8 || matches!(form, 12 | 13)
}

pub const FORMS: u8 = 22;

/// A format that hands a query over in another shape: bytes, pieces, a character, a number, nothing.
pub struct Deliver<'a> {
    pub form: u8,
    pub bytes: &'a [u8],
    pub readable: bool,
}

struct Pieces<'a>(&'a [u8]);

impl<'de> serde::de::SeqAccess<'de> for Pieces<'de> {
    type Error = serde::de::value::Error;
    fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Self::Error> {
        if self.0.is_empty() {
            return Ok(None);
        }
        let (a, b) = self.0.split_at(self.0.len().min(3));
        self.0 = b;
        seed.deserialize(Deliver { form: if std::str::from_utf8(a).is_ok() { 12 } else { 10 }, bytes: a, readable: true }).map(Some)
    }
}

impl<'de> serde::de::MapAccess<'de> for Pieces<'de> {
    type Error = serde::de::value::Error;
    fn next_key_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Self::Error> {
        if self.0.is_empty() {
            return Ok(None);
        }
        seed.deserialize(Deliver { form: 12, bytes: b"path", readable: true }).map(Some)
    }
    fn next_value_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Self::Error> {
        let b = std::mem::take(&mut self.0);
        seed.deserialize(Deliver { form: if std::str::from_utf8(b).is_ok() { 12 } else { 10 }, bytes: b, readable: true })
    }
}

impl<'de> serde::Deserializer<'de> for Deliver<'de> {
    type Error = serde::de::value::Error;
    fn is_human_readable(&self) -> bool {
        self.readable
    }
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        let text = || std::str::from_utf8(self.bytes).map_err(serde::de::Error::custom);
        let plain = Deliver { form: 12, bytes: self.bytes, readable: self.readable };
        match self.form {
            9 => v.visit_bytes(&self.bytes.to_vec()),
            10 => v.visit_borrowed_bytes(self.bytes),
            11 => v.visit_byte_buf(self.bytes.to_vec()),
            12 => v.visit_borrowed_str(text()?),
            13 => v.visit_string(text()?.to_string()),
            14 => v.visit_seq(Pieces(self.bytes)),
            15 => v.visit_map(Pieces(self.bytes)),
            16 => v.visit_some(plain),
            17 => v.visit_newtype_struct(plain),
            18 => v.visit_unit(),
            19 => match text()?.chars().next() {
                Some(c) => v.visit_char(c),
                None => v.visit_none(),
            },
            20 => v.visit_u64(text()?.len() as u64),
            _ => v.visit_bool(self.bytes.len() % 2 == 0),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

pub fn decode<T: for<'a> Deserialize<'a>>(b: &[u8], wrap: u8) -> Option<T> {
    from_wrapped(b, wrap, |b| serde_json::from_slice(b), |b| serde_json::from_slice(b), |b| serde_json::from_slice(b), |b| serde_json::from_slice(b), |b| serde_json::from_slice(b), |b| serde_json::from_slice(b)).ok()
}

pub fn decode_value<T: for<'a> Deserialize<'a>>(v: serde_json::Value, wrap: u8) -> Option<T> {
    from_wrapped(v, wrap, |b| serde_json::from_value(b), |b| serde_json::from_value(b), |b| serde_json::from_value(b), |b| serde_json::from_value(b), |b| serde_json::from_value(b), |b| serde_json::from_value(b)).ok()
}

type J<T> = Result<T, serde_json::Error>;

/// The same reading, of any of the shapes the text can be wrapped in.
#[allow(clippy::too_many_arguments)]
pub fn from_wrapped<S, T>(
    s: S,
    wrap: u8,
    bare: impl FnOnce(S) -> J<T>,
    field: impl FnOnce(S) -> J<Wrapped<T>>,
    list: impl FnOnce(S) -> J<Vec<T>>,
    opt: impl FnOnce(S) -> J<Option<T>>,
    map: impl FnOnce(S) -> J<BTreeMap<String, T>>,
    flat: impl FnOnce(S) -> J<Flat<T>>,
) -> J<T> {
    let none = || serde::de::Error::custom("nothing there");
    match wrap {
        0 => bare(s),
        1 => field(s).map(|w| w.path),
        2 => list(s).and_then(|v| {
            let n = v.len();
            let mut it = v.into_iter();
            let f = it.next();
            if n == 2 {
                f.ok_or_else(none)
            } else {
                Err(none())
            }
        }),
        3 => opt(s).and_then(|o| o.ok_or_else(none)),
        4 => map(s).and_then(|mut m| m.remove("k").ok_or_else(none)),
        _ => flat(s).map(|f| f.inner.path),
    }
}

/// Delivers the bytes in pieces, with whatever the script wants in between.
pub struct Reader<'a> {
    script: &'a Src,
    data: Vec<u8>,
    pos: usize,
    raw_used: Vec<bool>,
    fail: Option<usize>,
    pub fired: bool,
}

impl<'a> Reader<'a> {
    pub fn new(text: &str, script: &'a Src) -> Reader<'a> {
        let (data, fail) = delivered(text, script);
        Reader { script, data, pos: 0, raw_used: vec![false; script.evs.len()], fail, fired: false }
    }
}

impl io::Read for Reader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let _out = LibScope::leave();
        sched::boundary(false);
        let mut lim = b.len().min(self.data.len() - self.pos);
        if self.script.chunk > 0 {
            lim = lim.min(self.script.chunk as usize);
        }
        for i in 0..self.script.evs.len() {
            let (at, e) = &self.script.evs[i];
            let here = *at as usize == self.pos;
            if self.raw_used[i] || !here {
                continue;
            }
            match e {
                SrcEv::Interrupt => {
                    self.raw_used[i] = true;
                    run::bump(run::S_SRC_INTR);
                    return Err(io::ErrorKind::Interrupted.into());
                }
                SrcEv::Stall => {
                    self.raw_used[i] = true;
                    run::bump(run::S_STALL);
                    sched::stall();
                }
                SrcEv::Yield => {
                    self.raw_used[i] = true;
                    sched::yield_now();
                }
                SrcEv::Sleep => {
                    self.raw_used[i] = true;
                    sched::sleep(3_000_000);
                }
                _ => {}
            }
        }
        if let Some(f) = self.fail {
            if self.pos >= f {
                self.fired = true;
                run::bump(run::S_SRC_ERR);
                for (_, e) in &self.script.evs {
                    if let SrcEv::Panic(id) = e {
                        run::sim_panic(*id as u8 % 5, *id);
                    }
                }
                return Err(io::Error::other("source failed"));
            }
            lim = lim.min(f - self.pos);
        }
        b[..lim].copy_from_slice(&self.data[self.pos..self.pos + lim]);
        self.pos += lim;
        run::bump(run::S_SRC_PIECES);
        Ok(lim)
    }
}
