//! Memory accounting over long histories of ever-fresh calls.

use crate::ast::*;
use crate::io::*;
use crate::run::*;
use crate::scn::*;
use jprt::{alloc, sched, Rng};
use serde_json::Value;
use serde_json_path::{JsonPath, LocatedNodeList, NodeList};
use std::cell::Cell;
use std::collections::BTreeMap;

thread_local! {
    static BOMB: Cell<i64> = const { Cell::new(-1) };
    static NEST: Cell<u64> = const { Cell::new(0) };
}

/// Makes the calls of a destructor, run by a panic or not.
struct Last(u64);

impl Drop for Last {
    fn drop(&mut self) {
        bump(S_CLEANUP);
        nested(self.0);
    }
}

/// Calls made within another call.
fn nested(seed: u64) {
    let (mut v, mut r) = fresh(seed, 1);
    v.doc_depth = 1;
    let doc = gen_doc(&v, &mut r);
    let q = gen_user_query(&v, &mut r);
    if let Ok(p) = lib(|| JsonPath::parse(&render(&q, &mut Style(None)))) {
        lib(|| drop(p.query(&doc)));
        lib(|| drop(p.query_located(&doc)));
        lib(|| drop(p));
    }
}

/// Called for every entry into a caller function outside a judged call.
pub fn on_entered() {
    let nest = NEST.replace(0);
    let b = BOMB.replace(-1);
    let _last = match nest {
        0 => None,
        n if n % 3 == 0 => Some(Last(n)),
        n => {
            bump(S_REENTER);
            nested(n);
            None
        }
    };
    if b < 0 {
        return;
    }
    BOMB.set(b - 1);
    if b == 0 {
        bump(S_PANIC);
        sim_panic((jprt::sched::sim().step % 5) as u8, 7);
    }
}

pub const F_QUERY: i64 = 1;
pub const F_OUTPUT: i64 = 2;
pub const F_BAD: i64 = 4;
pub const F_PANIC: i64 = 8;
pub const F_SINK: i64 = 16;
pub const F_SOURCE: i64 = 32;
pub const F_LISTS: i64 = 64;
pub const F_WITHIN: i64 = 128;
pub const KINDS: usize = 8;
pub const F_ALL: i64 = 255;

/// Contents that no earlier round has used.
fn fresh(seed: u64, n: u64) -> (Vocab, Rng) {
    let mut r = Rng::new(jprt::rng::mix(seed ^ n.wrapping_mul(0x9E37_79B9_7F4A_7C15)));
    let mut v = Vocab::gen(&mut r);
    for x in v.names.iter_mut() {
        if r.one_in(2) {
            *x = format!("{x}{n}");
        }
    }
    for x in v.strings.iter_mut() {
        if r.one_in(2) {
            *x = format!("{x}{n}");
        }
    }
    for x in v.patterns.iter_mut() {
        *x = format!("({x})|k{n}");
    }
    v.doc_depth = v.doc_depth.min(3);
    v.doc_width = v.doc_width.min(3);
    v.desc_pct = 5;
    if r.one_in(16) {
        v.doc_width = 9;
    }
    (v, r)
}

fn round(seed: u64, n: u64, flavours: i64) {
    bump(S_HISTORY);
    let (v, mut r) = fresh(seed, n);
    let kinds: Vec<i64> = (0..KINDS).map(|b| 1 << b).filter(|b| flavours & b != 0).collect();
    let kind = *r.pick(&kinds);
    let doc = gen_doc(&v, &mut r);
    let q = if kind == F_PANIC || kind == F_WITHIN || r.one_in(2) { gen_user_query(&v, &mut r) } else { gen_query(&v, &mut r) };
    let text = render(&q, &mut Style(None));
    let parse = |t: &str| lib(|| JsonPath::parse(t));
    match kind {
        F_QUERY => {
            if let Ok(p) = parse(&text) {
                lib(|| drop(p.query(&doc)));
                lib(|| drop(p.query_located(&doc)));
                let c = lib(|| p.clone());
                lib(|| c == p);
                lib(|| drop(p));
                lib(|| drop(c.query(&doc)));
                if r.one_in(4) {
                    use serde_json_path::JsonPathExt;
                    lib(|| drop(doc.json_path(&c)));
                    lib(|| format!("{c:?}").len());
                }
                lib(|| drop(c));
            }
        }
        F_OUTPUT => {
            if let Ok(p) = parse(&text) {
                lib(|| drop(p.to_string()));
                lib(|| drop(serde_json::to_string(&p)));
                lib(|| drop(serde_json::to_string(&p.query(&doc))));
                let l = lib(|| p.query_located(&doc));
                for x in l.iter() {
                    lib(|| drop(x.location().to_string()));
                    lib(|| drop(x.location().to_json_pointer()));
                }
                lib(|| drop(serde_json::to_string(&l)));
                lib(|| drop(l));
                lib(|| drop(p));
            }
        }
        F_BAD => {
            let t = match r.below(8) {
                0..4 => mutate_text(&text, &mut r),
                4 => crate::props::gen_broken(&v, &mut r).text,
                5 => "$".to_string() + &".a".repeat(n as usize % 300) + "[",
                6 => format!("$['{}", text.repeat(1 + n as usize % 9)),
                _ => text.chars().take(r.below(text.len() + 1)).collect(),
            };
            match parse(&t) {
                Ok(p) => lib(|| drop(p)),
                Err(e) => {
                    lib(|| drop(e.to_string()));
                    lib(|| format!("{e:?} {} {}", e.position(), e.message()).len());
                    lib(|| drop(e));
                }
            }
            let _ = lib(|| t.parse::<JsonPath>().map(drop));
            let _ = lib(|| serde_json::from_value::<JsonPath>(Value::String(t)).map(drop));
            let _ = lib(|| serde_json::from_str::<JsonPath>(&text).map(drop));
        }
        F_PANIC => {
            if let Ok(p) = parse(&text) {
                for _ in 0..2 {
                    BOMB.set(r.below(4) as i64);
                    let d = &doc;
                    let _ = guarded(|| lib(|| drop(p.query(d))));
                    BOMB.set(r.below(4) as i64);
                    let _ = guarded(|| lib(|| drop(p.query_located(d))));
                }
                BOMB.set(-1);
                lib(|| drop(p));
            }
        }
        F_SINK => {
            if let Ok(p) = parse(&text) {
                for _ in 0..2 {
                    let ev = match r.below(3) {
                        0 => SinkEv::Err,
                        1 => SinkEv::Zero,
                        _ => SinkEv::Panic(r.below(20) as u32),
                    };
                    let k = Sink { io: true, chunk: r.below(4) as u32, evs: vec![(r.below(text.len() + 2) as u32, ev)] };
                    let mut st = SinkState::new(&k);
                    let (doc, p) = (&doc, &p);
                    let st = &mut st;
                    use std::fmt::Write as _;
                    use std::io::Write as _;
                    let _ = match r.below(7) {
                        0 => guarded(|| lib(|| write!(IoSink(st), "{p}").is_ok())),
                        1 => guarded(|| lib(|| serde_json::to_writer(IoSink(st), p).is_ok())),
                        2 => guarded(|| lib(|| serde_json::to_writer(IoSink(st), &p.query(doc)).is_ok())),
                        3 => guarded(|| lib(|| serde_json::to_writer(IoSink(st), &p.query_located(doc)).is_ok())),
                        4 => guarded(|| lib(|| write!(FmtSink(st), "{p}").is_ok())),
                        5 => guarded(|| lib(|| p.query_located(doc).locations().all(|l| write!(FmtSink(st), "{l}").is_ok()))),
                        _ => match parse(&format!("{text}[")) {
                            Err(e) => guarded(|| lib(|| write!(FmtSink(st), "{e}").is_ok())),
                            Ok(_) => Ok(true),
                        },
                    };
                }
                lib(|| drop(p));
            }
        }
        F_SOURCE => {
            let hard = r.one_in(2);
            let mut o = Op::De { q: 0, src: Src { form: r.below(FORMS as usize) as u8, wrap: r.below(6) as u8, esc: r.below(2) as u8, ..Src::default() } };
            crate::props::script_src_for(&mut r, &mut o, text.len(), hard);
            if let Op::De { src, .. } = &o {
                let (bytes, _) = delivered(&text, src);
                match src.form {
                    0 => {
                        let mut rd = Reader::new(&text, src);
                        let _ = guarded(|| {
                            let rd = &mut rd;
                            macro_rules! from { () => { |s| lib(|| serde_json::from_reader(s)) }; }
                            from_wrapped::<_, JsonPath>(rd, src.wrap, from!(), from!(), from!(), from!(), from!(), from!()).map(drop).is_ok()
                        });
                    }
                    1..4 => {
                        macro_rules! from { () => { |s: &[u8]| lib(|| serde_json::from_slice(s)) }; }
                        let _ = from_wrapped::<_, JsonPath>(&bytes[..], src.wrap, from!(), from!(), from!(), from!(), from!(), from!()).map(drop);
                    }
                    k => {
                        use serde::Deserialize;
                        let d = Deliver { form: k.max(9), bytes: &bytes, readable: src.esc == 0 };
                        let _ = lib(|| JsonPath::deserialize(d).map(drop).is_ok());
                    }
                }
            }
        }
        F_WITHIN => {
            if let Ok(p) = parse(&text) {
                let d = &doc;
                for located in [false, true] {
                    NEST.set(r.u64() | 1);
                    BOMB.set(r.below(6) as i64 - 3);
                    let _ = guarded(|| {
                        let _last = r.one_in(4).then(|| Last(r.u64() | 1));
                        lib(|| if located { drop(p.query_located(d)) } else { drop(p.query(d)) })
                    });
                }
                NEST.set(0);
                BOMB.set(-1);
                lib(|| drop(p));
            }
        }
        _ => {
            if let Ok(p) = parse(&text) {
                let l = lib(|| p.query_located(&doc));
                let c = lib(|| l.clone());
                lib(|| drop(p));
                lib(|| drop(c.dedup()));
                lib(|| {
                    let mut it = l.into_iter();
                    it.next_back();
                    it.next();
                });
                if let Ok(p) = parse(&text) {
                    let l = lib(|| p.query(&doc));
                    let _ = lib(|| l.clone().exactly_one().is_ok());
                    let _ = lib(|| l.at_most_one().is_ok());
                    let _ = lib(|| (l.iter().count(), l.first().is_some(), l.last().is_some(), l.get(1).is_some()));
                    lib(|| drop(l.all()));
                    let mut l = lib(|| p.query_located(&doc));
                    lib(|| (l.first().is_some(), l.last().is_some(), l.get(1).is_some(), l.nodes().count()));
                    lib(|| l.locations().filter(|x| x.first().is_some() && x.last().is_some() && x.get(1..).is_some()).count());
                    let other = lib(|| l.clone());
                    let taken: Vec<_> = lib(|| other.locations().cloned().collect());
                    lib(|| l.dedup_in_place());
                    lib(|| format!("{l:?} {:?}", taken.first()).len());
                    lib(|| taken.iter().all(|x| *x == taken[0]));
                    match r.below(5) {
                        0 => drop(lib(|| l.at_most_one().map_err(|e| e.to_string()))),
                        1 => drop(lib(|| l.exactly_one().map_err(|e| e.to_string()))),
                        2 => lib(|| drop(l.all())),
                        3 => lib(|| l.into_iter().rev().take(2).map(|x| x.to_location()).for_each(|x| drop(x.into_iter().next()))),
                        _ => lib(|| drop(l)),
                    }
                    lib(|| drop(taken));
                    lib(|| drop(p));
                }
            }
        }
    }
}

/// A query and what it gave: dropped in a thread that did not make them.
struct Handed {
    got: Option<(JsonPath, NodeList<'static>, LocatedNodeList<'static>)>,
    doc: *mut Value,
}

unsafe impl Send for Handed {}

impl Handed {
    fn make(seed: u64, n: u64) -> Handed {
        let (v, mut r) = fresh(seed ^ 0x7777, n);
        let doc = Box::into_raw(Box::new(gen_doc(&v, &mut r)));
        let d: &'static Value = unsafe { &*doc };
        let text = render(&gen_query(&v, &mut r), &mut Style(None));
        let got = lib(|| JsonPath::parse(&text)).ok().map(|p| {
            let (m, l) = (lib(|| p.query(d)), lib(|| p.query_located(d)));
            (p, m, l)
        });
        Handed { got, doc }
    }
}

impl Drop for Handed {
    fn drop(&mut self) {
        if let Some((p, m, l)) = self.got.take() {
            lib(|| drop(p.query(unsafe { &*self.doc })));
            lib(|| drop(l.dedup()));
            lib(|| drop((m, p)));
        }
        drop(unsafe { Box::from_raw(self.doc) });
    }
}

/// p: [seed, flavours, threads (0: one that lives through it all), most rounds]
pub fn run(s: &Scenario, cfg: &Cfg) -> ! {
    let none = BTreeMap::new();
    begin(s, &none, cfg);
    let (seed, fl, th, most) = (s.p[0] as u64, s.p[1], s.p[2].clamp(0, 4) as u64, s.p[3] as u64);
    if th == 0 {
        let h = spawn(move || history(seed, fl, most, |a, b| (a..b).for_each(|i| round(seed, i, fl))));
        sched::run_all();
        let _ = h.join();
    } else {
        let mut left = 110u64;
        history(seed, fl, most, |a, b| {
            // As the history doubles, so does the number of threads that took part in it.
            let n = (th * (b / 64).max(1)).min(left / 3).max(1);
            left -= n;
            let hand = move |t: u64, k: u64| -> Vec<Handed> {
                let of = (a..b).filter(|i| fl & F_LISTS != 0 && i % n == t && i / n % 8 == k);
                of.map(|i| Handed::make(seed, i)).collect()
            };
            let keep: std::sync::Arc<std::sync::Mutex<Vec<Handed>>> = Default::default();
            let hs: Vec<_> = (0..n)
                .map(|t| {
                    let (theirs, keep) = (hand(t, 0), keep.clone());
                    spawn(move || {
                        drop(theirs);
                        (a..b).filter(|i| i % n == t).for_each(|i| round(seed, i, fl));
                        let mine = hand(t, 1);
                        keep.lock().unwrap().extend(mine);
                    })
                })
                .collect();
            sched::run_all();
            drop(std::mem::take(&mut *keep.lock().unwrap()));
            hs.into_iter().for_each(|h| {
                if let Err(p) = h.join() {
                    violation("library-panic", &format!("a call unwound with {}", payload_text(&*p)));
                }
            });
        });
    }
    end()
}

fn history(seed: u64, fl: i64, most: u64, mut go: impl FnMut(u64, u64)) {
    let mut at = vec![];
    let mut n = 32;
    go(0, n);
    at.push((n, alloc::lib_live()));
    loop {
        go(n, n * 2);
        n *= 2;
        bump(S_ROUNDS);
        at.push((n, alloc::lib_live()));
        let k = at.len();
        let settled = k >= 4 && at[k - 1].1 .0 <= at[k - 3].1 .0 && at[k - 1].1 .1 <= at[k - 3].1 .1;
        if settled {
            return;
        }
        if n >= most {
            break;
        }
    }
    let k = at.len();
    let grows = |f: &dyn Fn(&(i64, i64)) -> i64, least: i64| {
        let d: Vec<i64> = (0..3).map(|i| f(&at[k - 3 + i].1) - f(&at[k - 4 + i].1)).collect();
        d[0] > 0 && d[1] > 0 && d[2] >= least && d[2] * 5 >= d[1] * 6 && d[2] >= d[0] * 2
    };
    if grows(&|x| x.0, 8) || grows(&|x| x.1, 512) {
        let t: Vec<String> = at.iter().map(|(n, (b, y))| format!("{b} blocks / {y} bytes after {n} rounds")).collect();
        violation("memory-grows", &format!("seed {seed}, kinds {fl:#x}: {}", t.join(", ")));
    }
}
