//! Live documents: clients take turns to change them and to query them.

use crate::ast::{self, Vocab};
use crate::eval::{self, Elem, Loc};
use crate::run::*;
use jprt::Rng;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use serde_json_path::{JsonPath, JsonPathExt};
use std::sync::Mutex;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum LiveOp {
    /// Query the document as it is.
    Query { q: usize, own: bool, doc: usize, how: u8 },
    /// Select, then change what was selected, through the locations.
    Edit { q: usize, own: bool, doc: usize, via: u8, edit: u8, seed: u64 },
    /// Select and write the locations down.
    Note { q: usize, own: bool, doc: usize, via: u8 },
    /// Use a location somebody wrote down earlier.
    Use { doc: usize, pick: u32, edit: u8, seed: u64 },
    /// Somebody changes the document without the library.
    Mutate { doc: usize, seed: u64 },
}

pub struct Live {
    pub v: Value,
    notes: Vec<(u8, String, Loc)>,
}

impl Live {
    pub fn new(v: Value) -> Live {
        Live { v, notes: vec![] }
    }
}

fn bad(m: String) -> ! {
    violation("live-document", &m)
}

fn with<T>(q: usize, own: bool, f: impl FnOnce(&JsonPath) -> T) -> Option<T> {
    let w = world();
    if !own {
        if let Some(r) = &w.shared[q] {
            return r.as_ref().ok().map(f);
        }
    }
    let p = match lib(|| JsonPath::parse(&w.s.queries[q].text)) {
        Ok(p) => p,
        Err(e) => {
            if w.s.queries[q].ast.is_some() {
                bad(format!("{:?} is refused: {e}", w.s.queries[q].text));
            }
            return None;
        }
    };
    let r = f(&p);
    lib(|| drop(p));
    Some(r)
}

/// What the query selects now, by the model; None when the model does not say.
fn model(q: usize, v: &Value) -> Option<Vec<Loc>> {
    let a = world().s.queries[q].ast.as_ref()?;
    let r = eval::eval(a, v).ok()?;
    bump(S_MODEL);
    Some(r)
}

fn addr(v: &Value, l: &Loc) -> usize {
    eval::at(v, l).map_or(0, |x| x as *const Value as usize)
}

fn check(q: usize, v: &Value, want: &[Loc], got: &[usize], what: &str) {
    let w: Vec<usize> = want.iter().map(|l| addr(v, l)).collect();
    if w != got {
        let m = index(v);
        let g: Vec<String> = got.iter().map(|p| m.get(p).cloned().unwrap_or_else(|| "FOREIGN NODE".into())).collect();
        let e: Vec<String> = want.iter().map(|l| eval::loc_text(l)).collect();
        let (e, g) = diff(&format!("{e:?}"), &format!("{g:?}"));
        bad(format!(
            "{what} of {:?} on {}: expected {e}, got {g}",
            short(&world().s.queries[q].text, 300),
            short(&v.to_string(), 500)
        ));
    }
}

fn ptrs<'a>(it: impl IntoIterator<Item = &'a Value>) -> Vec<usize> {
    it.into_iter().map(|v| v as *const Value as usize).collect()
}

fn query(q: usize, own: bool, v: &Value, how: u8) {
    let want = model(q, v);
    with(q, own, |p| {
        let want = match want {
            Some(w) => w,
            None => return,
        };
        match how {
            0 => {
                let l = lib(|| p.query(v));
                let g = ptrs(l.iter().copied());
                lib(|| drop(l));
                check(q, v, &want, &g, "query");
            }
            1 => {
                let l = lib(|| v.json_path(p));
                let g = ptrs(lib(|| l.all()));
                check(q, v, &want, &g, "json_path");
            }
            2 => {
                // Twice in a row, and a clone of the query.
                let c = lib(|| p.clone());
                for p in [p, &c] {
                    let l = lib(|| p.query(v));
                    let g = ptrs(lib(|| l.into_iter()));
                    check(q, v, &want, &g, "query");
                }
                lib(|| drop(c));
            }
            _ => {
                let l = lib(|| p.query_located(v));
                check(q, v, &want, &ptrs(l.nodes()), "query_located");
                for (n, w) in l.iter().zip(&want) {
                    let t = lib(|| n.location().to_string());
                    let j = lib(|| n.location().to_json_pointer());
                    if t != eval::loc_text(w) || j != eval::loc_pointer(w) {
                        bad(format!("node {} was reported at {t} / {j}", eval::loc_text(w)));
                    }
                }
                lib(|| drop(l));
            }
        }
    });
}

/// The locations the library reports, each written the given way, and read back as elements if it
/// can be without the library.
fn locate(q: usize, own: bool, v: &Value, via: u8) -> Option<Vec<(u8, String, Loc)>> {
    let want = model(q, v)?;
    with(q, own, |p| {
        let l = lib(|| p.query_located(v));
        check(q, v, &want, &ptrs(l.nodes()), "query_located");
        let r = l
            .iter()
            .zip(&want)
            .map(|(n, w)| {
                let loc = n.location();
                let t = match via {
                    0 => lib(|| loc.to_json_pointer()),
                    1 => lib(|| loc.to_string()),
                    2 => lib(|| serde_json::to_string(loc).unwrap()),
                    _ => {
                        let mut e: Vec<Elem> = Vec::new();
                        for x in loc.iter() {
                            match (x.as_name(), x.as_index()) {
                                (Some(n), None) => e.push(Elem::Name(n.into())),
                                (None, Some(i)) => e.push(Elem::Idx(i)),
                                _ => bad("a path element that is neither a name nor an index".into()),
                            }
                        }
                        eval::loc_text(&e)
                    }
                };
                (via, t, w.clone())
            })
            .collect();
        lib(|| drop(l));
        r
    })
}

/// The node that a written-down location means in this document, as an address.
fn resolve(v: &Value, via: u8, text: &str) -> Option<usize> {
    let by_query = |t: &str| {
        let p = match lib(|| JsonPath::parse(t)) {
            Ok(p) => p,
            Err(e) => bad(format!("the location {t:?} does not parse as a query: {e}")),
        };
        let l = lib(|| p.query(v));
        let r = match l.at_most_one() {
            Ok(x) => x.map(|x| x as *const Value as usize),
            Err(e) => bad(format!("the location {t:?} selects more than one node: {e}")),
        };
        lib(|| drop(l));
        lib(|| drop(p));
        r
    };
    match via {
        0 => v.pointer(text).map(|x| x as *const Value as usize),
        1 => by_query(text),
        2 => match serde_json::from_str::<JsonPath>(text) {
            Ok(p) => {
                let l = lib(|| p.query(v));
                match l.at_most_one() {
                    Ok(x) => x.map(|x| x as *const Value as usize),
                    Err(e) => bad(format!("the location {text} selects more than one node: {e}")),
                }
            }
            Err(e) => bad(format!("the location {text} does not read back as a query: {e}")),
        },
        _ => {
            // Elements, which the harness wrote down itself.
            let mut r = None;
            eval::walk(v, &mut |l, x| {
                if r.is_none() && eval::loc_text(l) == text {
                    r = Some(x as *const Value as usize);
                }
            });
            r
        }
    }
}

fn apply(v: &mut Value, l: &Loc, edit: u8, r: &mut Rng) {
    bump(S_EDITS);
    match edit {
        0 => {
            if let Some(x) = eval::at_mut(v, l) {
                *x = Value::String(format!("edited{}", r.below(3)));
            }
        }
        1 => {
            if let Some(x) = eval::at_mut(v, l) {
                *x = serde_json::json!({"a": [1, {"b": "x"}], "b": r.below(3)});
            }
        }
        2 => {
            if let Some((last, up)) = l.split_last() {
                match (last, eval::at_mut(v, up)) {
                    (Elem::Idx(i), Some(Value::Array(a))) if *i < a.len() => {
                        a.remove(*i);
                    }
                    (Elem::Name(n), Some(Value::Object(m))) => {
                        m.remove(n);
                    }
                    _ => {}
                }
            } else {
                *v = Value::Null;
            }
        }
        3 => match eval::at_mut(v, l) {
            Some(Value::Array(a)) => a.insert(0, r.below(5).into()),
            Some(Value::Object(m)) => {
                m.insert("new".into(), r.below(5).into());
            }
            Some(x) => *x = Value::Null,
            None => {}
        },
        _ => {
            // The same content at another address.
            if let Some(x) = eval::at_mut(v, l) {
                let c = x.clone();
                *x = c;
            }
        }
    }
}

pub fn run(op: &LiveOp) -> String {
    let w = world();
    match op {
        LiveOp::Query { q, own, doc, how } => {
            let d = lock(&w.live[*doc]);
            query(*q, *own, &d.v, *how);
            String::new()
        }
        LiveOp::Note { q, own, doc, via } => {
            let mut d = lock(&w.live[*doc]);
            if let Some(n) = locate(*q, *own, &d.v, *via) {
                for x in n.into_iter().take(6) {
                    d.notes.push(x);
                }
            }
            String::new()
        }
        LiveOp::Use { doc, pick, edit, seed } => {
            let mut d = lock(&w.live[*doc]);
            if d.notes.is_empty() {
                return String::new();
            }
            let k = *pick as usize % d.notes.len();
            let (via, text, mut loc) = d.notes[k].clone();
            if via == 0 {
                loc = reread(&d.v, &loc);
            }
            edit_at(&mut d.v, via, &text, &loc, *edit, *seed, "noted earlier");
            String::new()
        }
        LiveOp::Edit { q, own, doc, via, edit, seed } => {
            let mut d = lock(&w.live[*doc]);
            let Some(mut n) = locate(*q, *own, &d.v, *via) else {
                return String::new();
            };
            let mut r = Rng::new(*seed);
            if r.one_in(2) && n.len() > 1 {
                let k = r.below(n.len());
                n = vec![n.swap_remove(k)];
            }
            // Deepest first, so that every location still means what it meant when it was reported.
            n.sort_by(|a, b| b.2.cmp(&a.2));
            n.dedup_by(|a, b| a.2 == b.2);
            let some = if n.len() > 1000 { 2 } else { 12 };
            for (i, (via, text, loc)) in n.iter().enumerate().take(some) {
                edit_at(&mut d.v, *via, text, loc, *edit, *seed + i as u64, "just selected");
            }
            String::new()
        }
        LiveOp::Mutate { doc, seed } => {
            let mut d = lock(&w.live[*doc]);
            mutate(&mut d.v, *seed);
            String::new()
        }
    }
}

/// A JSON pointer does not say whether a step is a name or an index: the document decides.
fn reread(v: &Value, l: &Loc) -> Loc {
    let mut at = Some(v);
    let mut o = vec![];
    for e in l {
        let e = match (e, at) {
            (Elem::Idx(i), Some(Value::Object(_))) => Elem::Name(i.to_string()),
            (Elem::Name(n), Some(Value::Array(_))) => match n.parse::<usize>() {
                Ok(i) if i.to_string() == *n => Elem::Idx(i),
                _ => e.clone(),
            },
            _ => e.clone(),
        };
        at = at.and_then(|v| eval::at(v, std::slice::from_ref(&e)));
        o.push(e);
    }
    o
}

fn edit_at(v: &mut Value, via: u8, text: &str, loc: &Loc, edit: u8, seed: u64, what: &str) {
    let want = eval::at(v, loc).map(|x| x as *const Value as usize);
    let got = resolve(v, via, text);
    if want != got {
        let m = index(v);
        let n = |p: Option<usize>| p.map_or("nothing".into(), |p| m.get(&p).cloned().unwrap_or("FOREIGN NODE".into()));
        bad(format!(
            "location {} written as {text:?} ({what}) means {} in {}",
            eval::loc_text(loc),
            n(got),
            short(&v.to_string(), 400)
        ));
    }
    if got.is_none() {
        return;
    }
    let mut model = v.clone();
    apply(&mut model, loc, edit, &mut Rng::new(seed));
    if via == 0 && edit < 2 {
        let x = v.pointer_mut(text).unwrap();
        let mut one = std::mem::take(x);
        apply(&mut one, &vec![], edit, &mut Rng::new(seed));
        *x = one;
    } else {
        apply(v, loc, edit, &mut Rng::new(seed));
    }
    if *v != model {
        bad(format!("an edit through {text:?} gave {} instead of {}", short(&v.to_string(), 400), short(&model.to_string(), 400)));
    }
}

pub fn lock(m: &Mutex<Live>) -> std::sync::MutexGuard<'_, Live> {
    m.lock().unwrap_or_else(|p| p.into_inner())
}

/// Other characters in the same bytes of memory.
pub fn rewrite(s: &mut String, r: &mut Rng) {
    let n = s.len();
    let mut t = String::new();
    while t.len() < n {
        let c = match r.below(6) {
            0 => 'é',
            1 => '☺',
            2 => '1',
            _ => *r.pick(&['a', 'b', 'c', 'X']),
        };
        if t.len() + c.len_utf8() <= n {
            t.push(c);
        }
    }
    s.replace_range(.., &t);
}

fn mutate(v: &mut Value, seed: u64) {
    bump(S_EDITS);
    let mut r = Rng::new(seed);
    let vocab = Vocab::gen(&mut Rng::new(world().s.p.first().copied().unwrap_or(1) as u64));
    let mut locs: Vec<Loc> = vec![];
    eval::walk(v, &mut |l, _| locs.push(l.clone()));
    let l = r.pick(&locs).clone();
    match r.below(15) {
        13 | 14 => {
            // The same places, other names: of the vocabulary, or anybody's.
            let mine = r.one_in(2);
            fn all(v: &mut Value, r: &mut Rng, names: Option<&Vocab>) {
                match v {
                    Value::Array(a) => a.iter_mut().for_each(|v| all(v, r, names)),
                    Value::Object(m) => {
                        for (mut k, mut v) in std::mem::take(m) {
                            all(&mut v, r, names);
                            if k != "re" {
                                match names {
                                    None => rewrite(&mut k, r),
                                    Some(n) => {
                                        let n: Vec<_> = n.names.iter().filter(|n| n.len() == k.len() && *n != "re").collect();
                                        if !n.is_empty() {
                                            k.replace_range(.., r.pick(&n));
                                        }
                                    }
                                }
                            }
                            m.insert(k, v);
                        }
                    }
                    _ => {}
                }
            }
            all(v, &mut r, mine.then_some(&vocab));
        }
        10 => {
            // The same places, other contents.
            fn all(v: &mut Value, r: &mut Rng) {
                match v {
                    Value::String(s) => rewrite(s, r),
                    Value::Array(a) => a.iter_mut().for_each(|v| all(v, r)),
                    Value::Object(m) => m.iter_mut().filter(|(k, _)| *k != "re").for_each(|(_, v)| all(v, r)),
                    Value::Number(n) if r.one_in(2) => *n = (r.below(4) as u32).into(),
                    _ => {}
                }
            }
            all(v, &mut r);
        }
        11 => {
            if let Some(Value::Array(a)) = eval::at_mut(v, &l) {
                if a.len() > 1 {
                    let (i, j) = (r.below(a.len()), r.below(a.len()));
                    a.swap(i, j);
                }
            }
        }
        0 => *v = ast::gen_doc(&vocab, &mut r),
        1 => {
            let c = v.clone();
            *v = c;
        }
        2 => apply(v, &l, 2, &mut r),
        3 => apply(v, &l, 3, &mut r),
        4 => {
            // Gone, and another of the same shape built in its place.
            let x = eval::at_mut(v, &l).unwrap();
            let t = x.to_string();
            *x = Value::Null;
            let t = t.replace("\"a\"", "\"b\"").replace('1', "2");
            *x = serde_json::from_str(&t).unwrap_or(Value::Null);
        }
        5 => {
            if let Some(Value::Array(a)) = eval::at_mut(v, &l) {
                a.reverse();
            }
        }
        6 => {
            if let Some(Value::Object(m)) = eval::at_mut(v, &l) {
                let k = vocab.name(&mut r);
                let x = if k == "re" { Value::String(r.pick(&vocab.patterns).clone()) } else { ast::gen_doc(&vocab, &mut r) };
                m.insert(k, x);
            }
        }
        7 => {
            if let Some(Value::Array(a)) = eval::at_mut(v, &l) {
                let x = ast::gen_doc(&vocab, &mut r);
                a.push(x);
            }
        }
        _ => {
            let x = ast::gen_scalar(&vocab, &mut r);
            let re = matches!(l.last(), Some(Elem::Name(n)) if n == "re");
            *eval::at_mut(v, &l).unwrap() = if re { Value::String(r.pick(&vocab.patterns).clone()) } else { x };
        }
    }
    if v.to_string().len() > 3000 {
        *v = ast::gen_doc(&vocab, &mut r);
    }
}
