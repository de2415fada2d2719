//! Result lists in the hands of several threads: every node exactly once, in order, with correct
//! remaining counts, whoever consumes them.

use crate::eval;
use crate::run::*;
use jprt::Rng;
use serde_json::Value;
use serde_json_path::{JsonPath, LocatedNode, LocatedNodeList, NodeList, NormalizedPath};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

/// What is expected of one node: its location and its address.
#[derive(Clone, PartialEq)]
pub struct Want {
    loc: String,
    ptr: String,
    at: usize,
    steps: eval::Loc,
}

pub trait Item {
    fn check(&self, w: &Want) -> Result<(), String>;
}

impl Item for &Value {
    fn check(&self, w: &Want) -> Result<(), String> {
        if *self as *const Value as usize == w.at {
            Ok(())
        } else {
            Err(format!("node {} instead of the one at {}", short(&self.to_string(), 80), w.loc))
        }
    }
}
impl Item for &NormalizedPath<'_> {
    fn check(&self, w: &Want) -> Result<(), String> {
        let t = lib(|| self.to_string());
        let p = lib(|| self.to_json_pointer());
        if t == w.loc && p == w.ptr {
            elements(self, w)
        } else {
            Err(format!("location {t} ({p}) instead of {} ({})", w.loc, w.ptr))
        }
    }
}
fn elements(p: &NormalizedPath<'_>, w: &Want) -> Result<(), String> {
    lib(|| {
        let n = w.steps.len();
        if p.len() != n || p.is_empty() != (n == 0) || p.iter().len() != n || p.get(n).is_some() || p.get(..n).map(|x| x.len()) != Some(n) {
            return Err(format!("location {} has {} elements instead of {n}", w.loc, p.len()));
        }
        for (i, e) in w.steps.iter().enumerate() {
            let Some(x) = p.get(i) else { return Err(format!("location {} has no element {i}", w.loc)) };
            let same = match e {
                eval::Elem::Name(s) => x.as_name() == Some(s.as_str()) && x.as_index().is_none() && x.is_name() && !x.is_index() && *x == s.as_str(),
                eval::Elem::Idx(k) => x.as_index() == Some(*k) && x.as_name().is_none() && x.is_index() && !x.is_name() && *x == *k,
            };
            if !same {
                return Err(format!("element {i} of {} is {x:?}", w.loc));
            }
        }
        if p.first() != p.get(0) || p.last() != n.checked_sub(1).and_then(|i| p.get(i)) || p.clone() != *p {
            return Err(format!("first(), last() or the clone of {}", w.loc));
        }
        Ok(())
    })
}

impl Item for LocatedNode<'_> {
    fn check(&self, w: &Want) -> Result<(), String> {
        Item::check(&self.node(), w)?;
        self.location().check(w)
    }
}
impl Item for &LocatedNode<'_> {
    fn check(&self, w: &Want) -> Result<(), String> {
        Item::check(&(*self).node(), w)?;
        (*self).location().check(w)
    }
}
impl Item for &&Value {
    fn check(&self, w: &Want) -> Result<(), String> {
        (**self).check(w)
    }
}

fn bad(m: String) -> ! {
    violation("delivery", &m)
}

/// Takes one item from an end and checks it and the counts around it.
fn step<I>(it: &mut I, want: &[Want], lo: &mut usize, hi: &mut usize, front: bool, what: &str) -> bool
where
    I: DoubleEndedIterator + ExactSizeIterator,
    I::Item: Item,
{
    let left = *hi - *lo;
    let n = lib(|| it.len());
    let h = lib(|| it.size_hint());
    if n != left || h != (left, Some(left)) {
        bad(format!("{what}: {left} of {} remain, len() says {n}, size_hint() {h:?}", want.len()));
    }
    let x = lib(|| if front { it.next() } else { it.next_back() });
    match x {
        None if left == 0 => false,
        None => bad(format!("{what}: ended with {left} of {} to come", want.len())),
        Some(_) if left == 0 => bad(format!("{what}: more than {} items", want.len())),
        Some(x) => {
            let i = if front { *lo } else { *hi - 1 };
            if let Err(e) = x.check(&want[i]) {
                bad(format!("{what}: item {i} of {} from the {}: {e}", want.len(), if front { "front" } else { "back" }));
            }
            if front {
                *lo += 1
            } else {
                *hi -= 1
            }
            true
        }
    }
}

struct Turn<I> {
    it: I,
    lo: usize,
    hi: usize,
}

/// Threads take turns at one iterator.
fn turns<I>(it: I, want: Arc<Vec<Want>>, helpers: usize, script: u64, what: &'static str)
where
    I: DoubleEndedIterator + ExactSizeIterator + Send + 'static,
    I::Item: Item,
{
    let m = Arc::new(Mutex::new(Turn { it, lo: 0, hi: want.len() }));
    let go = move |m: Arc<Mutex<Turn<I>>>, want: Arc<Vec<Want>>, salt: u64| {
        let mut r = Rng::new(script ^ salt);
        let bias = r.below(101);
        loop {
            let mut t = m.lock().unwrap();
            let front = r.pct(bias);
            let Turn { it, lo, hi } = &mut *t;
            if !step(it, &want, lo, hi, front, what) {
                // Ended is ended.
                step(it, &want, lo, hi, !front, what);
                return;
            }
        }
    };
    let hs: Vec<_> = (0..helpers)
        .map(|i| {
            bump(S_HELPERS);
            let (m, want) = (m.clone(), want.clone());
            spawn(move || go(m, want, 1 + i as u64))
        })
        .collect();
    go(m.clone(), want.clone(), 0);
    hs.into_iter().for_each(|h| h.join().unwrap());
    match Arc::try_unwrap(m) {
        Ok(m) => lib(|| drop(m)),
        Err(_) => unreachable!(),
    }
}

fn each<I>(it: I, want: &[Want], what: &str)
where
    I: Iterator,
    I::Item: Item,
{
    let v: Vec<I::Item> = lib(|| it.collect());
    if v.len() != want.len() {
        bad(format!("{what}: {} items instead of {}", v.len(), want.len()));
    }
    for (i, (x, w)) in v.iter().zip(want).enumerate() {
        if let Err(e) = x.check(w) {
            bad(format!("{what}: item {i}: {e}"));
        }
    }
}

/// One pass over an iterator, in a way the script picks.
fn solo_pass<I>(mk: impl Fn() -> I, want: &[Want], r: &mut Rng, what: &str)
where
    I: DoubleEndedIterator + ExactSizeIterator,
    I::Item: Item,
{
    let n = want.len();
    match r.below(14) {
        12 | 13 => skipping(mk(), want, r, what),
        0 => each(mk(), want, what),
        1 => {
            let w: Vec<Want> = want.iter().rev().cloned().collect();
            each(mk().rev(), &w, &format!("{what} reversed"));
        }
        2 => {
            let k = r.below(n + 2);
            each(mk().skip(k), &want[k.min(n)..], &format!("{what} skip({k})"));
        }
        3 => {
            let k = 1 + r.below(3);
            let w: Vec<Want> = want.iter().step_by(k).cloned().collect();
            each(mk().step_by(k), &w, &format!("{what} step_by({k})"));
        }
        4 => {
            let k = r.below(n + 2);
            let mut it = mk();
            let x = lib(|| it.nth(k));
            match (x, want.get(k)) {
                (None, None) => {}
                (Some(x), Some(w)) => {
                    if let Err(e) = x.check(w) {
                        bad(format!("{what} nth({k}): {e}"));
                    }
                    each(it, &want[k + 1..], &format!("{what} after nth({k})"));
                }
                (a, _) => bad(format!("{what} nth({k}) of {n}: {}", if a.is_some() { "something" } else { "nothing" })),
            }
        }
        5 => {
            let k = r.below(n + 2);
            let mut it = mk();
            let x = lib(|| it.nth_back(k));
            match (x, n.checked_sub(k + 1)) {
                (None, None) => {}
                (Some(x), Some(i)) => {
                    if let Err(e) = x.check(&want[i]) {
                        bad(format!("{what} nth_back({k}): {e}"));
                    }
                    each(it, &want[..i], &format!("{what} after nth_back({k})"));
                }
                (a, _) => bad(format!("{what} nth_back({k}) of {n}: {}", if a.is_some() { "something" } else { "nothing" })),
            }
        }
        6 => {
            let c = lib(|| mk().count());
            if c != n {
                bad(format!("{what} count() {c} instead of {n}"));
            }
            match (lib(|| mk().last()), want.last()) {
                (None, None) => {}
                (Some(x), Some(w)) => {
                    if let Err(e) = x.check(w) {
                        bad(format!("{what} last(): {e}"));
                    }
                }
                _ => bad(format!("{what} last() of {n}")),
            }
        }
        7 => {
            let k = r.below(n + 2);
            let mut it = mk();
            each(it.by_ref().take(k), &want[..k.min(n)], &format!("{what} take({k})"));
            each(it, &want[k.min(n)..], &format!("{what} after take({k})"));
        }
        8 => {
            let mut it = mk().peekable();
            if n > 0 {
                lib(|| it.peek().is_some());
            }
            let h = lib(|| it.len());
            if h != n {
                bad(format!("{what} peekable len() {h} instead of {n}"));
            }
            each(it, want, &format!("{what} peekable"));
        }
        9 => {
            let mut i = 0;
            lib(|| {
                mk().fold((), |(), x| {
                    if i >= n || x.check(&want[i]).is_err() {
                        bad(format!("{what} fold: item {i} of {n}"));
                    }
                    i += 1;
                })
            });
            if i != n {
                bad(format!("{what} fold: {i} items of {n}"));
            }
        }
        10 => {
            let mut i = n;
            lib(|| {
                mk().rfold((), |(), x| {
                    if i == 0 || x.check(&want[i - 1]).is_err() {
                        bad(format!("{what} rfold: item {i} of {n}"));
                    }
                    i -= 1;
                })
            });
            if i != 0 {
                bad(format!("{what} rfold: {i} items left of {n}"));
            }
        }
        _ => {
            let mut it = mk();
            let (mut lo, mut hi) = (0, n);
            while step(&mut it, want, &mut lo, &mut hi, r.one_in(2), what) {}
            for _ in 0..3 {
                if lib(|| it.next().is_some() || it.next_back().is_some()) {
                    bad(format!("{what}: an item after the end"));
                }
            }
        }
    }
}

/// Leaps from both ends, also over the end.
fn skipping<I>(mut it: I, want: &[Want], r: &mut Rng, what: &str)
where
    I: DoubleEndedIterator + ExactSizeIterator,
    I::Item: Item,
{
    let (mut lo, mut hi) = (0, want.len());
    let most = 1 + r.below(want.len() + 2);
    for _ in 0..want.len() + 6 {
        let k = r.below(most);
        let front = r.one_in(2);
        let (x, w) = if front {
            (lib(|| it.nth(k)), if lo + k < hi { Some(lo + k) } else { None })
        } else {
            (lib(|| it.nth_back(k)), if lo + k < hi { Some(hi - 1 - k) } else { None })
        };
        let end = if front { "nth" } else { "nth_back" };
        match (x, w) {
            (None, None) => lo = hi,
            (Some(x), Some(i)) => {
                if let Err(e) = x.check(&want[i]) {
                    bad(format!("{what} {end}({k}): {e}"));
                }
                if front {
                    lo = i + 1
                } else {
                    hi = i
                }
            }
            (a, _) => bad(format!("{what} {end}({k}) with {} left: {}", hi - lo, if a.is_some() { "something" } else { "nothing" })),
        }
        let (n, h) = lib(|| (it.len(), it.size_hint()));
        if n != hi - lo || h != (n, Some(n)) {
            bad(format!("{what} after {end}({k}): {} remain, len() says {n}, size_hint() {h:?}", hi - lo));
        }
        if r.one_in(6) && step(&mut it, want, &mut lo, &mut hi, r.one_in(2), what) {}
    }
}

fn accessors(l: &NodeList<'static>, ll: &LocatedNodeList<'static>, want: &[Want], r: &mut Rng) {
    let n = want.len();
    if l.len() != n || ll.len() != n || l.is_empty() != (n == 0) || ll.is_empty() != (n == 0) {
        bad(format!("len()/is_empty() wrong for {n}: {} {} {} {}", l.len(), ll.len(), l.is_empty(), ll.is_empty()));
    }
    fn opt<T: Item>(x: Option<T>, w: Option<&Want>, what: &str) {
        match (x, w) {
            (None, None) => {}
            (Some(x), Some(w)) => {
                if let Err(e) = x.check(w) {
                    bad(format!("{what}: {e}"));
                }
            }
            (x, _) => bad(format!("{what}: {}", if x.is_some() { "there is none" } else { "missing" })),
        }
    }
    opt(lib(|| l.first()), want.first(), "first()");
    opt(lib(|| l.last()), want.last(), "last()");
    opt(lib(|| ll.first()), want.first(), "located first()");
    opt(lib(|| ll.last()), want.last(), "located last()");
    for _ in 0..4 {
        let k = r.below(n + 2);
        opt(lib(|| l.get(k)), want.get(k), &format!("get({k})"));
        opt(lib(|| ll.get(k)), want.get(k), &format!("located get({k})"));
    }
    if l.get(usize::MAX).is_some() || ll.get(usize::MAX).is_some() {
        bad("get(usize::MAX) found something".into());
    }
    let single = if n == 1 { want.first() } else { None };
    match lib(|| l.exactly_one()) {
        Ok(v) => opt(Some(v), single, "exactly_one()"),
        Err(e) => {
            if n == 1 || e.is_empty() != (n == 0) || e.is_more_than_one() != (n > 1) || (n > 1 && e.as_more_than_one() != Some(n)) {
                bad(format!("exactly_one() of {n}: {e}"));
            }
        }
    }
    match lib(|| l.at_most_one()) {
        Ok(v) => {
            if n > 1 {
                bad(format!("at_most_one() of {n} succeeded"));
            }
            opt(v, single, "at_most_one()")
        }
        Err(e) => {
            if n <= 1 || e.0 != n {
                bad(format!("at_most_one() of {n}: {e}"));
            }
        }
    }
    match lib(|| ll.clone().exactly_one()) {
        Ok(v) => opt(Some(v), single, "located exactly_one()"),
        Err(e) => {
            if n == 1 || e.is_empty() != (n == 0) || (n > 1 && e.as_more_than_one() != Some(n)) {
                bad(format!("located exactly_one() of {n}: {e}"));
            }
        }
    }
    match lib(|| ll.clone().at_most_one()) {
        Ok(v) => {
            if n > 1 {
                bad(format!("located at_most_one() of {n} succeeded"));
            }
            opt(v, single, "located at_most_one()")
        }
        Err(e) => {
            if n <= 1 || e.0 != n {
                bad(format!("located at_most_one() of {n}: {e}"));
            }
        }
    }
}

fn check_dedup(l: &LocatedNodeList<'static>, want: &[Want], what: &str) {
    let mut w: BTreeMap<&str, &Want> = BTreeMap::new();
    for x in want {
        w.insert(&x.loc, x);
    }
    if l.len() != w.len() {
        bad(format!("{what}: {} entries for {} distinct locations", l.len(), w.len()));
    }
    for n in l.iter() {
        let t = lib(|| n.location().to_string());
        match w.remove(t.as_str()) {
            None => bad(format!("{what}: {t} is there twice or does not belong")),
            Some(x) => {
                if let Err(e) = n.check(x) {
                    bad(format!("{what}: {e}"));
                }
            }
        }
    }
}

/// A value that several threads can refer to until `take` brings it back.
struct Lent<T: 'static>(&'static T);
impl<T> Lent<T> {
    fn new(x: T) -> Lent<T> {
        Lent(Box::leak(Box::new(x)))
    }
    fn take(self) -> T {
        unsafe { *Box::from_raw(self.0 as *const T as *mut T) }
    }
}

/// The value with some of its arrays made objects and some of its objects made arrays.
fn turned(v: &Value, r: &mut Rng) -> Value {
    match v {
        Value::Array(a) if r.one_in(2) => Value::Object(a.iter().enumerate().map(|(i, x)| (i.to_string(), turned(x, r))).collect()),
        Value::Array(a) => a.iter().map(|x| turned(x, r)).collect(),
        Value::Object(m) if r.one_in(2) => m.values().map(|x| turned(x, r)).collect(),
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), turned(x, r))).collect()),
        x => x.clone(),
    }
}

pub fn run(q: usize, doc: usize, plan: u8, helpers: u8, script: u64) -> String {
    let w = world();
    let spec = &w.s.queries[q];
    let d: &'static Value = &w.docs[doc].v;
    let p = match lib(|| JsonPath::parse(&spec.text)) {
        Ok(p) => p,
        Err(e) => return format!("err {e}"),
    };
    let model = spec.ast.as_ref().and_then(|a| eval::eval(a, d).ok());
    let want: Vec<Want> = match model {
        Some(l) => {
            bump(S_MODEL);
            l.iter()
                .map(|l| Want {
                    loc: eval::loc_text(l),
                    ptr: eval::loc_pointer(l),
                    at: eval::at(d, l).map_or(0, |v| v as *const Value as usize),
                    steps: l.clone(),
                })
                .collect()
        }
        None => return "not modelled".into(),
    };
    let want = Arc::new(want);
    let n = want.len();
    let nl = || lib(|| p.query(d));
    let ll = || lib(|| p.query_located(d));
    let mut r = Rng::new(script);
    let h = helpers as usize;
    match plan {
        0 => {
            let l = nl();
            drop(p);
            turns(l.into_iter(), want.clone(), h, script, "NodeList::into_iter, shared")
        }
        1 => {
            let l = ll();
            drop(p);
            turns(l.into_iter(), want.clone(), h, script, "LocatedNodeList::into_iter, shared")
        }
        2 => {
            let l = Lent::new(ll());
            turns(l.0.locations(), want.clone(), h, script, "locations(), shared");
            drop(p);
            let l = l.take();
            lib(|| drop(l));
        }
        3 => {
            let l = Lent::new(ll());
            drop(p);
            turns(l.0.nodes(), want.clone(), h, script, "nodes(), shared");
            let l = l.take();
            lib(|| drop(l));
        }
        4 => {
            let (a, b) = (Lent::new(nl()), Lent::new(ll()));
            drop(p);
            turns(a.0.iter(), want.clone(), h, script, "NodeList::iter, shared");
            turns(b.0.iter(), want.clone(), h, script, "LocatedNodeList::iter, shared");
            let (a, b) = (a.take(), b.take());
            lib(|| drop((a, b)));
        }
        5 | 7 => {
            // Everybody has iterators of their own, over the same lists.
            let (a, b) = (Lent::new(nl()), Lent::new(ll()));
            drop(p);
            let (ra, rb) = (a.0, b.0);
            let go = move |want: Arc<Vec<Want>>, salt: u64| {
                let mut r = Rng::new(script ^ (salt << 32));
                for _ in 0..3 {
                    if plan == 7 {
                        accessors(ra, rb, &want, &mut r);
                        continue;
                    }
                    match r.below(4) {
                        0 => solo_pass(|| ra.iter(), &want, &mut r, "NodeList::iter"),
                        1 => solo_pass(|| rb.iter(), &want, &mut r, "LocatedNodeList::iter"),
                        2 => solo_pass(|| rb.locations(), &want, &mut r, "locations()"),
                        _ => solo_pass(|| rb.nodes(), &want, &mut r, "nodes()"),
                    }
                }
            };
            let hs: Vec<_> = (0..h)
                .map(|i| {
                    bump(S_HELPERS);
                    let w = want.clone();
                    spawn(move || go(w, 1 + i as u64))
                })
                .collect();
            go(want.clone(), 0);
            hs.into_iter().for_each(|h| h.join().unwrap());
            let (a, b) = (a.take(), b.take());
            lib(|| drop((a, b)));
        }
        6 => {
            // Clones, some deduplicated, outliving the original.
            let a = ll();
            let b = nl();
            drop(p);
            let hs: Vec<_> = (0..h)
                .map(|i| {
                    bump(S_HANDOFF);
                    let c = lib(|| a.clone());
                    let e = lib(|| b.clone());
                    if !lib(|| e == b) {
                        bad("a clone of a node list does not equal it".into());
                    }
                    let want = want.clone();
                    let k = r.below(4);
                    spawn(move || match k {
                        0 => {
                            let c = lib(|| c.dedup());
                            check_dedup(&c, &want, "dedup() of a clone");
                            lib(|| drop(c));
                        }
                        1 => {
                            let mut c = c;
                            lib(|| c.dedup_in_place());
                            check_dedup(&c, &want, "dedup_in_place() of a clone");
                        }
                        2 => each(c.into_iter(), &want, "a cloned LocatedNodeList"),
                        _ => {
                            let _ = i;
                            let v = lib(|| e.all());
                            each(v.into_iter(), &want, "a cloned NodeList")
                        }
                    })
                })
                .collect();
            if r.one_in(2) {
                lib(|| drop(a));
            } else {
                each(a.into_iter(), &want, "the original LocatedNodeList");
            }
            lib(|| drop(b));
            hs.into_iter().for_each(|h| h.join().unwrap());
        }
        8 => {
            // Handed from thread to thread, each takes some.
            let mut it = ll().into_iter();
            drop(p);
            let (mut lo, mut hi) = (0, n);
            for _ in 0..h.max(1) {
                let k = r.below(n + 1);
                let front = r.one_in(2);
                let want = want.clone();
                bump(S_HANDOFF);
                let slot = Arc::new(Mutex::new(None));
                let s2 = slot.clone();
                let hd = spawn(move || {
                    let mut it = it;
                    for _ in 0..k {
                        if !step(&mut it, &want, &mut lo, &mut hi, front, "LocatedNodeList::into_iter, handed over") {
                            break;
                        }
                    }
                    *s2.lock().unwrap() = Some((it, lo, hi));
                });
                hd.join().unwrap();
                let t = slot.lock().unwrap().take().unwrap();
                (it, lo, hi) = t;
            }
            each(it, &want[lo..hi], "the rest of a LocatedNodeList handed over");
        }
        10 => {
            // Lists of two documents put together: where one has a name, the other has an index.
            let Some(ast) = spec.ast.as_ref() else { return "not modelled".into() };
            let other = Lent::new(turned(d, &mut r));
            let Ok(m2) = eval::eval(ast, other.0) else {
                other.take();
                return "not modelled".into();
            };
            let mut v = lib(|| ll().all());
            v.extend(lib(|| p.query_located(other.0).all()));
            drop(p);
            let mut all: Vec<(String, usize)> = want.iter().map(|x| (x.loc.clone(), x.at)).collect();
            all.extend(m2.iter().map(|l| (eval::loc_text(l), eval::at(other.0, l).map_or(0, |v| v as *const Value as usize))));
            for i in (1..v.len()).rev() {
                let k = r.below(i + 1);
                v.swap(i, k);
            }
            let l = LocatedNodeList::from(v);
            let go = move |l: LocatedNodeList<'static>, all: Vec<(String, usize)>| {
                let l = lib(|| l.dedup());
                let mut left: BTreeMap<&(String, usize), usize> = BTreeMap::new();
                for x in &all {
                    *left.entry(x).or_default() += 1;
                }
                let mut seen = BTreeSet::new();
                for n in l.iter() {
                    let t = lib(|| n.location().to_string());
                    let at = lib(|| n.node()) as *const Value as usize;
                    match left.get_mut(&(t.clone(), at)) {
                        Some(k) if *k > 0 => *k -= 1,
                        _ => bad(format!("dedup() of two lists put together: {t} is there too often or does not belong")),
                    }
                    seen.insert(t);
                }
                for x in &all {
                    if !seen.contains(&x.0) {
                        bad(format!("dedup() of two lists put together: {} is gone", x.0));
                    }
                }
                lib(|| drop(l));
            };
            let c = lib(|| l.clone());
            let a2 = all.clone();
            let g2 = go;
            let hd = spawn(move || g2(c, a2));
            go(l, all);
            hd.join().unwrap();
            other.take();
        }
        _ => {
            // Duplicates, made by putting lists together.
            let mut v = lib(|| ll().all());
            let mut w2: Vec<Want> = want.to_vec();
            for _ in 0..1 + r.below(2) {
                let more = lib(|| ll().all());
                for (x, y) in more.into_iter().zip(want.iter()) {
                    if r.pct(60) {
                        v.push(x);
                        w2.push(y.clone());
                    }
                }
            }
            for i in (1..v.len()).rev() {
                if r.one_in(2) {
                    let k = r.below(i + 1);
                    v.swap(i, k);
                    w2.swap(i, k);
                }
            }
            drop(p);
            let l = LocatedNodeList::from(v);
            each(l.iter(), &w2, "LocatedNodeList::from");
            let c = lib(|| l.clone());
            let want2 = Arc::new(w2);
            let w3 = want2.clone();
            let hd = spawn(move || {
                let d = lib(|| c.dedup());
                check_dedup(&d, &w3, "dedup()");
                lib(|| drop(d));
            });
            let mut l = l;
            lib(|| l.dedup_in_place());
            check_dedup(&l, &want2, "dedup_in_place()");
            hd.join().unwrap();
            let one = lib(|| l.dedup());
            check_dedup(&one, &want2, "dedup() again");
        }
    }
    format!("checked {n}")
}
