//! A service that keeps its queries on a simulated disk, crashes anywhere, and starts again.
//!
//! Each generation is a process of its own. What the application asks of the disk goes into a log that
//! survives it; the disk decides afterwards which of the writes that nobody had synced it kept, whole, in
//! part or not at all.

use crate::driver::{Ctx, Done, Violation};
use crate::io::from_wrapped;
use crate::props;
use crate::run::*;
use crate::scn::*;
use jprt::sched::{self, LibScope};
use jprt::{shm, Rng};
use serde::Serialize;
use serde_json_path::JsonPath;
use std::collections::BTreeMap;
use std::io;

// ---- the log -----------------------------------------------------------------------------------

const W: u8 = 1; // write: file, bytes
const SYNC: u8 = 2; // file
const MV: u8 = 3; // from, to
const SYNCDIR: u8 = 4;
const ACK: u8 = 5; // slot, query
const BEGIN: u8 = 6; // slot, query
const CREATE: u8 = 7; // file (truncates)

const NEW: u8 = 255;

fn log(kind: u8, a: u8, b: u8, data: &[u8]) {
    let h = shm::get();
    let n = h.out_len as usize;
    let rec = [kind, a, b, data.len() as u8];
    debug_assert!(data.len() < 256);
    if n + 4 + data.len() > shm::OUT_CAP {
        sched::harness_error("the disk log is full");
    }
    h.out[n..n + 4].copy_from_slice(&rec);
    h.out[n + 4..n + 4 + data.len()].copy_from_slice(data);
    h.out_len = (n + 4 + data.len()) as u32;
}

// ---- the disk ----------------------------------------------------------------------------------

#[derive(Clone, Default, Debug)]
struct File {
    durable: Vec<u8>,
    /// Writes since the last sync: (offset, bytes).
    dirty: Vec<(usize, Vec<u8>)>,
    len: usize,
    /// Created (or truncated) without a sync since.
    cut: bool,
}

#[derive(Clone, Default, Debug)]
pub struct Disk {
    files: BTreeMap<u8, File>,
    /// Directory: name -> inode, as it is durably, and what was done to it since.
    dir: BTreeMap<u8, u8>,
    moves: Vec<(u8, u8, u8)>,
    next: u8,
    now: BTreeMap<u8, u8>,
}

impl File {
    fn now(&self) -> Vec<u8> {
        let mut v = if self.cut { vec![] } else { self.durable.clone() };
        for (o, b) in &self.dirty {
            if v.len() < o + b.len() {
                v.resize(o + b.len(), 0);
            }
            v[*o..o + b.len()].copy_from_slice(b);
        }
        v
    }
}

impl Disk {
    fn inode(&mut self) -> u8 {
        // Inodes nobody refers to can be used again.
        loop {
            self.next = self.next.wrapping_add(1);
            let n = self.next;
            if !self.dir.values().any(|x| *x == n) && !self.now.values().any(|x| *x == n) && !self.moves.iter().any(|m| m.2 == n) {
                return n;
            }
        }
    }
    fn apply(&mut self, kind: u8, a: u8, b: u8, data: &[u8]) {
        match kind {
            CREATE => match self.now.get(&a) {
                Some(i) => {
                    let f = self.files.get_mut(i).unwrap();
                    f.cut = true;
                    f.dirty.clear();
                    f.len = 0;
                }
                None => {
                    let i = self.inode();
                    self.files.insert(i, File::default());
                    self.now.insert(a, i);
                    self.moves.push((a, NEW, i));
                }
            },
            W => {
                let i = self.now[&a];
                let f = self.files.get_mut(&i).unwrap();
                f.dirty.push((f.len, data.to_vec()));
                f.len += data.len();
            }
            SYNC => {
                let i = self.now[&a];
                let f = self.files.get_mut(&i).unwrap();
                f.durable = f.now();
                f.dirty.clear();
                f.cut = false;
                // The name of a new file is made durable with its contents, as ext4 and xfs do.
                if let Some(p) = self.moves.iter().position(|m| m.0 == a && m.1 == NEW) {
                    self.moves.remove(p);
                    self.dir.insert(a, i);
                }
            }
            MV => {
                if let Some(i) = self.now.remove(&a) {
                    self.now.insert(b, i);
                    self.moves.push((a, b, i));
                }
            }
            SYNCDIR => {
                self.dir = self.now.clone();
                self.moves.clear();
            }
            _ => {}
        }
    }
    fn read(&self, name: u8) -> Option<Vec<u8>> {
        self.now.get(&name).map(|i| self.files[i].now())
    }
    /// The machine loses power: decide what is left.
    fn crash(&mut self, r: &mut Rng) {
        let mut lost = 0;
        for f in self.files.values_mut() {
            if f.dirty.is_empty() && !f.cut {
                continue;
            }
            // Truncation is journalled before what is written afterwards: either the old contents are
            // still there untouched, or they are gone.
            let untouched = f.cut && r.pct(25);
            let mut v = if f.cut && !untouched { vec![] } else { f.durable.clone() };
            let mode = r.below(4);
            let keep = r.below(f.dirty.len() + 1);
            for (i, (o, b)) in f.dirty.iter().enumerate() {
                let n = match mode {
                    _ if untouched => 0,
                    0 => b.len(),                           // all of it arrived
                    1 if i < keep => b.len(),               // a prefix of the writes
                    1 if i == keep => r.below(b.len() + 1), // the last one torn
                    2 if r.one_in(2) => b.len(),            // some of them, in any order
                    _ => 0,
                };
                lost += (n < b.len()) as u64;
                if n > 0 {
                    if v.len() < o + n {
                        v.resize(o + n, 0);
                    }
                    v[*o..o + n].copy_from_slice(&b[..n]);
                }
            }
            f.len = v.len();
            f.durable = v;
            f.dirty.clear();
            f.cut = false;
        }
        let keep = r.below(self.moves.len() + 1);
        for (a, b, i) in self.moves.drain(..).take(keep) {
            if b == NEW {
                self.dir.insert(a, i);
            } else {
                self.dir.remove(&a);
                self.dir.insert(b, i);
            }
        }
        bump_n(S_LOST, lost);
        self.now = self.dir.clone();
        let used: Vec<u8> = self.dir.values().copied().collect();
        self.files.retain(|i, _| used.contains(i));
    }
    fn settle(&mut self) {
        for f in self.files.values_mut() {
            f.durable = f.now();
            f.dirty.clear();
            f.cut = false;
            f.len = f.durable.len();
        }
        self.dir = self.now.clone();
        self.moves.clear();
    }
}

// ---- the application ---------------------------------------------------------------------------

#[derive(Clone, Default, Debug)]
struct Slot {
    acked: Option<usize>,
    pending: Vec<usize>,
}

struct App {
    disk: Disk,
    slot: u8,
}

impl App {
    fn op(&mut self, kind: u8, a: u8, b: u8, data: &[u8]) {
        log(kind, a, b, data);
        self.disk.apply(kind, a, b, data);
        // The process can die between any two things it asks of the disk.
        sched::tick_mem();
    }
}

/// An open file; its faults are the disk's.
struct Out<'a> {
    app: &'a mut App,
    name: u8,
    chunk: usize,
    left: usize,
    full: bool,
    last: u8,
}

impl io::Write for Out<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let _out = LibScope::leave();
        sched::boundary(false);
        if b.is_empty() {
            return Ok(0);
        }
        let n = b.len().min(self.chunk).min(self.left).min(250);
        if n < b.len() {
            bump(S_SINK_SHORT);
        }
        if n == 0 {
            bump(S_SINK_ERR);
            self.full = true;
            return Err(io::Error::from_raw_os_error(libc::ENOSPC));
        }
        self.app.op(W, self.name, 0, &b[..n]);
        self.left -= n;
        self.last = b[n - 1];
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Serialize)]
struct Fielded<'a> {
    a: i64,
    path: &'a JsonPath,
}

#[derive(Clone, Copy)]
struct Form {
    /// 0 in place, 1 new file and rename, 2 log of lines
    proto: u8,
    /// The bare text rather than JSON.
    text: bool,
    wrap: u8,
    pretty: bool,
}

fn form_of(r: &mut Rng) -> Form {
    let proto = r.below(3) as u8;
    Form { proto, text: proto == 1 && r.pct(40), wrap: r.below(6) as u8, pretty: proto != 2 && r.one_in(4) }
}

fn put(f: Form, out: &mut Out, p: &JsonPath) -> io::Result<()> {
    use io::Write;
    if f.text {
        return write!(out, "{p}");
    }
    fn js<T: Serialize>(f: Form, out: &mut Out, x: &T) -> io::Result<()> {
        if f.pretty {
            serde_json::to_writer_pretty(&mut *out, x)
        } else {
            serde_json::to_writer(&mut *out, x)
        }
        .map_err(io::Error::from)
    }
    match f.wrap {
        1 | 5 => js(f, out, &Fielded { a: 1, path: p }),
        2 => js(f, out, &[p, p]),
        3 => js(f, out, &Some(p)),
        4 => js(f, out, &BTreeMap::from([("k", p)])),
        _ => js(f, out, p),
    }
}

fn get(f: Form, b: &[u8], how: u64) -> Result<JsonPath, String> {
    if f.text {
        let t = std::str::from_utf8(b).map_err(|e| e.to_string())?;
        return if how & 1 == 0 { JsonPath::parse(t) } else { t.parse() }.map_err(|e| e.to_string());
    }
    macro_rules! from { ($g:ident, $s:expr) => {
        from_wrapped($s, f.wrap, |s| serde_json::$g(s), |s| serde_json::$g(s), |s| serde_json::$g(s), |s| serde_json::$g(s), |s| serde_json::$g(s), |s| serde_json::$g(s))
    }; }
    match how % 3 {
        0 => from!(from_slice, b),
        1 => from!(from_reader, b),
        _ => match std::str::from_utf8(b) {
            Ok(t) => from!(from_str, t),
            Err(e) => return Err(e.to_string()),
        },
    }
    .map_err(|e| e.to_string())
}

/// What the application finds when it starts.
fn load(app: &App, f: Form, how: u64) -> Option<Result<JsonPath, String>> {
    let b = app.disk.read(app.slot)?;
    if f.proto != 2 {
        return Some(guarded(|| lib(|| get(f, &b, how))).unwrap_or_else(|p| violation("library-panic", &format!("reading {:?} unwound with {p}", String::from_utf8_lossy(&b)))));
    }
    // The last whole line that can be read counts.
    let mut found = None;
    let mut err = None;
    for line in b.split_inclusive(|x| *x == b'\n') {
        let Some((b'\n', line)) = line.split_last() else { continue };
        if line.is_empty() {
            continue;
        }
        match guarded(|| lib(|| get(f, line, how))) {
            Ok(Ok(p)) => found = Some(p),
            Ok(Err(e)) => err = Some(e),
            Err(p) => violation("library-panic", &format!("reading {:?} unwound with {p}", String::from_utf8_lossy(line))),
        }
    }
    match (found, err) {
        (Some(p), _) => Some(Ok(p)),
        (None, Some(e)) => Some(Err(e)),
        _ => Some(Err("no record".into())),
    }
}

fn check(app: &App, f: Form, slot: &Slot, how: u64, gen: u64) {
    let w = world();
    let got = load(app, f, how);
    let mut cands: Vec<usize> = slot.acked.into_iter().collect();
    cands.extend(&slot.pending);
    let raw = || {
        let b = app.disk.read(app.slot).unwrap_or_default();
        format!("generation {gen}, file {:?}", short(&String::from_utf8_lossy(&b), 500))
    };
    let wanted = || cands.iter().map(|q| format!("{:?}", w.s.queries[*q].text)).collect::<Vec<_>>().join(" or ");
    let p = match got {
        None | Some(Err(_)) if !slot.pending.is_empty() || slot.acked.is_none() => return,
        None => violation("lost", &format!("{} was acknowledged and there is nothing; {}", wanted(), raw())),
        Some(Err(e)) => violation("unreadable", &format!("{} was acknowledged and reading it gives {e}; {}", wanted(), raw())),
        Some(Ok(p)) => p,
    };
    let t = guarded(|| probe(&p)).unwrap_or_else(|p| format!("unwound with {p}"));
    let mut same = false;
    for c in &cands {
        let text = &w.s.queries[*c].text;
        let want = &w.expected[&key(&Op::ParseText { text: text.clone() })];
        if *want != t {
            continue;
        }
        match lib(|| JsonPath::parse(text)) {
            Ok(o) => {
                if lib(|| o == p) && lib(|| o.to_string() == p.to_string()) {
                    same = true;
                }
            }
            Err(e) => violation("refused", &format!("{text:?} is refused: {e}")),
        }
    }
    if !same {
        let want: Vec<&String> =
            cands.iter().map(|c| &w.expected[&key(&Op::ParseText { text: w.s.queries[*c].text.clone() })]).collect();
        let (a, b) = diff(want.first().map_or("", |s| s.as_str()), &t);
        violation("third-query", &format!("saved: {}; read back: {p}; expected {a}, got {b}; {}", wanted(), raw()));
    }
    lib(|| drop(p));
}

fn saver(s: &'static Scenario, disk: &Disk, slot: &Slot, t: usize, seed: u64, gen: u64, saves: u64) {
    let mut r = Rng::new(seed ^ (t as u64) << 40 ^ gen << 48);
    let f = form_of(&mut Rng::new(s.p[0] as u64 ^ (t as u64) << 13));
    let mut app = App { disk: disk.clone(), slot: t as u8 };
    check(&app, f, slot, r.u64(), gen);
    let mut slot = slot.clone();
    for _ in 0..saves {
        let q = r.below(s.queries.len());
        if crate::known::unwritable(&s.queries[q].text, s.queries[q].ast.as_ref()) {
            continue;
        }
        let p = match lib(|| JsonPath::parse(&s.queries[q].text)) {
            Ok(p) => p,
            Err(_) => continue,
        };
        app.op(BEGIN, t as u8, q as u8, &[]);
        slot.pending.push(q);
        let name = if f.proto == 1 { 100 + t as u8 } else { t as u8 };
        let len = app.disk.read(name).map_or(0, |b| b.len());
        let tail = app.disk.read(name).and_then(|b| b.last().copied());
        if f.proto != 2 || len == 0 {
            app.op(CREATE, name, 0, &[]);
        } else if tail != Some(b'\n') {
            app.op(W, name, 0, b"\n");
        }
        let full = r.one_in(5);
        let mut out = Out {
            app: &mut app,
            name,
            chunk: *r.pick(&[1, 3, 16, 250]),
            left: if full { r.below(60) } else { usize::MAX },
            full: false,
            last: 0,
        };
        let res = guarded(|| lib(|| put(f, &mut out, &p)))
            .unwrap_or_else(|e| violation("library-panic", &format!("writing {p} unwound with {e}")));
        let failed = out.full;
        let ok = match res {
            Ok(()) if failed => violation("failure-hidden", &format!("the disk was full and writing {p} reported success")),
            Ok(()) => true,
            Err(e) if !failed => violation("spurious-failure", &format!("writing {p}: {e}")),
            Err(_) => false,
        };
        lib(|| drop(p));
        if !ok {
            continue;
        }
        if f.proto == 2 {
            app.op(W, name, 0, b"\n");
        }
        app.op(SYNC, name, 0, &[]);
        if f.proto == 1 {
            app.op(MV, name, t as u8, &[]);
            app.op(SYNCDIR, 0, 0, &[]);
        }
        app.op(ACK, t as u8, q as u8, &[]);
        slot = Slot { acked: Some(q), pending: vec![] };
        if r.one_in(3) {
            check(&app, f, &slot, r.u64(), gen);
        }
    }
}

fn generation(s: &Scenario, exp: &BTreeMap<String, String>, c: &Cfg, disk: &Disk, slots: &[Slot], gen: u64, crash_at: u64) -> ! {
    begin(s, exp, c);
    sched::sim().crash_at = crash_at;
    let ws = world().s;
    let disk: &'static Disk = unsafe { &*(disk as *const Disk) };
    let slots: &'static [Slot] = unsafe { &*(slots as *const [Slot]) };
    let seed = s.p[0] as u64;
    let saves = if gen == s.p[1] as u64 { 0 } else { s.p[3] as u64 };
    let hs: Vec<_> =
        (0..s.p[2] as usize).map(|t| spawn(move || saver(ws, disk, &slots[t], t, seed, gen, saves))).collect();
    sched::run_all();
    for h in hs {
        if let Err(p) = h.join() {
            violation("library-panic", &payload_text(&*p));
        }
    }
    end()
}

/// p: [seed, generations, savers, saves per generation]. The last generation only reads.
pub fn run(ctx: &mut Ctx, s: &Scenario, c: &Cfg) -> Option<(Violation, Done)> {
    let exp = match ctx.expected(s) {
        Ok(e) => e,
        Err(v) => return Some((v, Done::nothing())),
    };
    let mut r = Rng::new(s.p[0] as u64 ^ 0xD15C);
    let mut disk = Disk::default();
    let mut slots = vec![Slot::default(); s.p[2] as usize];
    let mut digest = 0u64;
    for gen in 0..=s.p[1] as u64 {
        let mut cfg = c.clone();
        cfg.seed ^= gen << 32;
        cfg.hash_seed = r.u64() & 7;
        cfg.now = r.u64() % (1 << 50);
        let whole = gen == s.p[1] as u64 || r.one_in(5);
        let mut d = ctx.child(|| generation(s, &exp, &cfg, &disk, &slots, gen, 0));
        ctx.t.runs += 1;
        if let Some(v) = d.violation.clone() {
            d.event_digest ^= digest;
            return Some((v, d));
        }
        let steps = d.steps.max(2);
        let at = 1 + r.below(steps as usize) as u64;
        if !whole {
            d = ctx.child(|| generation(s, &exp, &cfg, &disk, &slots, gen, at));
            ctx.t.runs += 1;
            if d.crashed {
                ctx.t.stats[S_CRASH] += 1;
            }
            if let Some(v) = d.violation.clone() {
                d.event_digest ^= digest;
                return Some((v, d));
            }
        }
        digest = jprt::rng::mix(digest ^ d.event_digest ^ d.steps);
        ctx.distinct.insert(digest);
        // What the dead process had asked of the disk.
        let b = &d.out;
        let mut i = 0;
        while i + 4 <= b.len() {
            let (k, x, y, n) = (b[i], b[i + 1], b[i + 2], b[i + 3] as usize);
            let data = &b[i + 4..i + 4 + n];
            i += 4 + n;
            match k {
                BEGIN => slots[x as usize].pending.push(y as usize),
                ACK => slots[x as usize] = Slot { acked: Some(y as usize), pending: vec![] },
                k => disk.apply(k, x, y, data),
            }
        }
        if whole && r.one_in(2) {
            disk.settle();
        } else {
            let h = shm::get();
            let before = h.stats[S_LOST];
            disk.crash(&mut r);
            ctx.t.stats[S_LOST] += h.stats[S_LOST] - before;
        }
    }
    None
}

pub fn scenario(r: &mut Rng, thorough: bool) -> Scenario {
    let (_, mut s) = props::base("C09", r, 2, 2 + r.clone().below(5), 30);
    if r.one_in(30) {
        s.queries.push(props::long_spec(r));
    }
    s.p = vec![(r.u64() >> 1) as i64, 2 + r.below(if thorough { 6 } else { 4 }) as i64, 1 + r.below(3) as i64, 1 + r.below(5) as i64];
    s.warm = s.queries.iter().map(|q| OpX::plain(Op::ParseText { text: q.text.clone() })).collect();
    s
}
