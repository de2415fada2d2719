//! Long histories of cheap calls whose contents never repeat (or always do), judged one by one.

use crate::ast::*;
use crate::eval;
use crate::run::*;
use jprt::Rng;
use serde_json::{json, Value};
use serde_json_path::JsonPath;

pub const KINDS: u8 = 13;

fn nm(n: &str) -> Sel {
    Sel::Name(n.into())
}
fn child(s: Sel) -> Seg {
    Seg { desc: false, sels: vec![s] }
}
fn root(segs: Vec<Seg>) -> Query {
    Query { abs: true, segs }
}
fn cur(segs: Vec<Seg>) -> Operand {
    Operand::Query(Query { abs: false, segs })
}
fn call(name: &str, args: Vec<Operand>) -> Call {
    Call { name: name.into(), args }
}
fn text(s: String) -> Operand {
    Operand::Lit(Value::String(s))
}

fn make(kind: u8, i: u32, seed: u64) -> (Query, Value) {
    let k = (seed as u32).wrapping_mul(7919).wrapping_add(i);
    match kind {
        0 => (root(vec![child(nm(&format!("k{k}")))]), json!({ format!("k{k}"): 1, "k": 2 })),
        1 => (
            root(vec![child(Sel::Filter(Expr::Call(call("match", vec![cur(vec![]), text(format!("a{k}[bc]*"))]))))]),
            json!([format!("a{k}bc"), format!("a{k}"), "a", format!("a{}b", k + 1)]),
        ),
        2 => (
            root(vec![child(Sel::Filter(Expr::Call(call("search", vec![cur(vec![child(nm("a"))]), text(format!("{k}x?"))]))))]),
            json!([{"a": format!("-{k}-")}, {"a": format!("{}", k + 1)}, {"a": k}]),
        ),
        3 => (
            root(vec![child(Sel::Filter(Expr::Cmp(
                Operand::Call(call("vid", vec![cur(vec![child(nm("a"))])])),
                Cmp::Eq,
                Operand::Lit(k.into()),
            )))]),
            json!([{"a": k}, {"a": k + 1}, {"a": null}, k]),
        ),
        4 => (
            root(vec![Seg { desc: true, sels: vec![Sel::Index((k % 5) as i64), Sel::Slice(Some(-2), None, None)] }]),
            json!([[k], [k, k + 1, [k + 2]], {"b": [[], [k]]}]),
        ),
        5 => (
            root(vec![child(Sel::Filter(Expr::Cmp(
                Operand::Call(call("length", vec![cur(vec![])])),
                Cmp::Ge,
                Operand::Call(call("count", vec![cur(vec![child(Sel::Wild)])])),
            )))]),
            json!(["abc", [k], {"a": k, "b": []}, k, null]),
        ),
        // The same every time.
        6 => (root(vec![child(nm("a")), child(Sel::Index(1))]), json!({"a": [1, 2, 3]})),
        7 => (
            root(vec![child(Sel::Filter(Expr::Call(call("match", vec![cur(vec![]), text("a.*".into())]))))]),
            json!(["abc", "b", 1]),
        ),
        // Short expressions without a pattern to them, some of them once more.
        9 => {
            let word = |n: u64| {
                let mut r = Rng::new(seed ^ n.wrapping_mul(0x9e37_79b9));
                let l = 2 + r.below(4);
                (0..l).map(|_| *r.pick(&['a', 'b', 'c', 'x', '1', '7', 'Z', 'q'])).collect::<String>()
            };
            let mut r = Rng::new(seed ^ ((i as u64) << 24));
            let w = word(if r.one_in(3) { r.below(i as usize + 1) } else { i as usize } as u64);
            let f = *r.pick(&["match", "search", "search"]);
            let near = (0..3).map(|_| word(r.below(2000) as u64).into()).collect::<Vec<Value>>();
            let mut d = vec![Value::String(w.clone()), format!("-{w}").into(), w[1..].into()];
            d.extend(near);
            (root(vec![child(Sel::Filter(Expr::Call(call(f, vec![cur(vec![]), text(w)]))))]), d.into())
        }
        // Between many that fail.
        10 => (
            root(vec![child(Sel::Filter(Expr::Cmp(
                Operand::Call(call("plus", vec![Operand::Call(call("vid", vec![cur(vec![child(nm("a"))])])), Operand::Lit(1.into())])),
                Cmp::Eq,
                Operand::Lit((k % 3).into()),
            )))]),
            json!([{"a": 0}, {"a": 1}, {"a": 2}, 1]),
        ),
        // Long lists.
        11 => {
            let mut r = Rng::new(seed ^ ((k as u64) << 20));
            let n = 1 + r.log_uniform(2500);
            let d = (0..n).map(|i| if i % 13 == 5 { json!([i % 3, i]) } else { (i % 7).into() }).collect();
            let s = |r: &mut Rng| match r.below(4) {
                0 => Sel::Slice(None, None, Some(-1 - r.below(4) as i64)),
                1 => Sel::Slice(Some(r.below(70) as i64), None, None),
                2 => Sel::Index(r.below(9) as i64),
                _ => Sel::Wild,
            };
            let q = root(vec![Seg { desc: r.one_in(4), sels: (0..1 + r.below(3)).map(|_| s(&mut r)).collect() }]);
            (q, Value::Array(d))
        }
        _ => {
            let mut r = Rng::new(seed ^ ((k as u64) << 20));
            let v = Vocab::gen(&mut r);
            let d = gen_doc(&v, &mut r);
            (gen_query(&v, &mut r), d)
        }
    }
}

/// One document that stays where it is while its contents change.
fn in_place(doc: &mut Value, i: u32, seed: u64) -> Query {
    let mut r = Rng::new(seed ^ ((i as u64) << 16));
    for v in doc.as_array_mut().unwrap() {
        match v {
            Value::String(s) => crate::live::rewrite(s, &mut r),
            Value::Number(n) => *n = (r.below(4) as u32).into(),
            Value::Array(a) => {
                a.swap(0, 1);
                a[2] = (r.below(3) as u32).into();
            }
            Value::Object(m) => {
                for (_, v) in m.iter_mut() {
                    match v {
                        Value::String(s) => crate::live::rewrite(s, &mut r),
                        _ => *v = (r.below(3) as u32).into(),
                    }
                }
            }
            _ => {}
        }
    }
    let at = |r: &mut Rng| cur(if r.one_in(3) { vec![child(nm("s"))] } else { vec![] });
    let e = match r.below(6) {
        0 | 1 => Expr::Cmp(Operand::Call(call("length", vec![at(&mut r)])), Cmp::Le, Operand::Lit((3 + r.below(7)).into())),
        2 => Expr::Call(call("match", vec![at(&mut r), text("[abc]*".into())])),
        3 => Expr::Call(call("search", vec![at(&mut r), text(r.pick(&["a", "é", "1.?b"]).to_string())])),
        4 => Expr::Cmp(at(&mut r), *r.pick(&[Cmp::Eq, Cmp::Lt, Cmp::Ne]), Operand::Lit(if r.one_in(2) { json!("b") } else { json!(1) })),
        _ => Expr::Cmp(Operand::Call(call("vid", vec![cur(vec![child(Sel::Index(0))])])), Cmp::Eq, Operand::Lit(1.into())),
    };
    root(vec![child(Sel::Filter(e))])
}

pub fn run(kind: u8, from: u32, to: u32, seed: u64) -> String {
    let mut place = json!(["abcdefgh", 1, [1, "a", 2], "aaaaaaaaaaaa", {"s": "abcdefghij", "n": 1}, 2, "aa", [0, 1, 2], {"s": "xyzxyz"}]);
    let keep = [1, 2, 3, 9][(seed % 4) as usize];
    place.as_array_mut().unwrap().rotate_left((seed / 4 % 5) as usize);
    place.as_array_mut().unwrap().truncate(keep);
    for i in from..to {
        bump(S_HISTORY);
        let (q, doc) = if kind == 12 {
            let q = in_place(&mut place, i, seed);
            (q, std::mem::take(&mut place))
        } else {
            make(kind, i, seed)
        };
        let t = render(&q, &mut Style(None));
        if i % 3 == 2 {
            // Failures belong to a history, too.
            let broken = format!("{t}[");
            if lib(|| JsonPath::parse(&broken)).is_ok() {
                violation("history", &format!("{broken:?} parses after {i} calls"));
            }
        }
        if kind == 10 || i % 7 == 4 {
            let mut r = Rng::new(seed ^ i as u64);
            let cut: Vec<usize> = t.char_indices().map(|x| x.0).collect();
            for _ in 0..if kind == 10 { 3 } else { 1 } {
                let at = *r.pick(&cut);
                let broken = match r.below(3) {
                    0 => t[..at].to_string(),
                    1 => format!("{}{}{}", &t[..at], r.pick(&[")", "#", "]", ",", "'", " x"]), &t[at..]),
                    _ => format!("$[?{}(@.a, {}", r.pick(&["vid", "plus", "length", "nosuch"]), r.pick(&["", "@", "'", "vid(", "1 2", "@..", "#"])),
                };
                let _ = lib(|| JsonPath::parse(&broken));
            }
        }
        let p = match lib(|| JsonPath::parse(&t)) {
            Ok(p) => p,
            Err(e) => violation("history", &format!("{t:?} is refused after {i} calls: {e}")),
        };
        let Ok(want) = eval::eval(&q, &doc) else {
            if kind == 12 {
                place = doc;
            }
            continue;
        };
        let want: Vec<usize> = want.iter().map(|l| eval::at(&doc, l).map_or(0, |x| x as *const Value as usize)).collect();
        let got: Vec<usize> = if i % 2 == 0 {
            let l = lib(|| p.query(&doc));
            let g = l.iter().map(|x| *x as *const Value as usize).collect();
            lib(|| drop(l));
            g
        } else {
            let l = lib(|| p.query_located(&doc));
            let g = l.nodes().map(|x| x as *const Value as usize).collect();
            if kind == 11 {
                once_each(&t, &doc, l, i);
            } else {
                lib(|| drop(l));
            }
            g
        };
        if got != want {
            let m = index(&doc);
            let n = |v: &[usize]| v.iter().map(|p| m.get(p).cloned().unwrap_or("FOREIGN NODE".into())).collect::<Vec<_>>();
            violation("history", &format!("{t:?} on {doc} after {i} calls: expected {:?}, got {:?}", n(&want), n(&got)));
        }
        lib(|| drop(p));
        if kind == 12 {
            place = doc;
        }
    }
    "done".into()
}

/// Without its repetitions, a list holds every node once, in the order of the locations.
fn once_each(t: &str, doc: &Value, mut l: serde_json_path::LocatedNodeList<'_>, after: u32) {
    let mut want: Vec<(Vec<usize>, usize)> = l.iter().map(|x| (steps(x.location()), x.node() as *const Value as usize)).collect();
    want.sort();
    want.dedup();
    lib(|| l.dedup_in_place());
    let got: Vec<(Vec<usize>, usize)> = l.iter().map(|x| (steps(x.location()), x.node() as *const Value as usize)).collect();
    if got != want {
        let at = got.iter().zip(&want).take_while(|x| x.0 == x.1).count();
        violation(
            "history",
            &format!("{t:?} on a document of {} without repetitions, after {after} calls: {} nodes, expected {}; the first {at} agree", doc.to_string().len(), got.len(), want.len()),
        );
    }
    lib(|| drop(l));
}

fn steps(l: &serde_json_path::NormalizedPath<'_>) -> Vec<usize> {
    l.iter().filter_map(|e| e.as_index()).collect()
}
