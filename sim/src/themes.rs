//! Small worlds about one feature, in which every query selects something else: whoever gets another
//! caller's pattern, name, number, document or result gets a wrong answer.

use crate::ast::*;
use crate::mparse;
use crate::scn::QSpec;
use jprt::Rng;
use serde_json::{json, Map, Value};

const PATTERNS: &[&str] = &[
    "a.", "[ab]+", ".*c", "b|c", "1", "a*", "..", "[^a].*", "(ab)+", "c?1", "a.*", "b.*", "[a-c]{2}", "1+", ".", "x|a", ".1", "(a|b)1?", "c.c", "",
];
const KEYS: &[&str] = &["a", "b", "c", "d", "e", "f"];

fn word(r: &mut Rng) -> String {
    (0..1 + r.below(4)).map(|_| *r.pick(&['a', 'b', 'c', '1', 'a', 'b'])).collect()
}
fn pattern(r: &mut Rng) -> String {
    if r.one_in(8) {
        gen_pattern(r, 1).replace('\\', "\\\\").replace('\'', "\\'")
    } else {
        r.pick(PATTERNS).to_string()
    }
}
fn small(r: &mut Rng) -> i64 {
    r.below(7) as i64
}

fn quoted(w: &str, r: &mut Rng) -> String {
    let mut o = String::new();
    render_string(w, &mut o, &mut Style(if r.one_in(2) { Some(r) } else { None }));
    o
}

fn some_length(r: &mut Rng) -> usize {
    match r.below(40) {
        0..=24 => r.below(9),
        25..=36 => r.log_uniform(400) as usize,
        37 | 38 => *r.pick(&[31, 63, 127, 255, 511, 1023]) + r.below(4),
        _ => *r.pick(&[1000, 2047, 4095, 66_000]) + r.below(4),
    }
}

/// Contents that count and match in ways of their own.
fn words(r: &mut Rng) -> String {
    let n = some_length(r);
    let c = ['a', 'b', 'c', '1', 'é', '😀', '\n', '\r', '\u{2028}', ' ', '-', '\u{301}', 'a', 'b', '.', '\\', '\''];
    let few: Vec<char> = (0..1 + r.below(4)).map(|_| if r.one_in(5) { crate::ast::any_char(r) } else { *r.pick(&c) }).collect();
    (0..n).map(|_| *r.pick(&few)).collect()
}

fn long_name(r: &mut Rng) -> String {
    let n = some_length(r).min(6000);
    let c = ['a', 'b', '~', '/', '\'', '"', '\\', ']', '\n', '\u{1}', 'é', '😀', '0', '1', '.', ' ', '\t', '\u{7f}'];
    let few: Vec<char> = (0..2 + r.below(4)).map(|_| if r.one_in(5) { crate::ast::any_char(r) } else { *r.pick(&c) }).collect();
    let mut s: String = (0..n).map(|_| *r.pick(&few)).collect();
    // And something that matters at the end.
    s.push(*r.pick(&c));
    s
}

fn number(r: &mut Rng) -> Value {
    let k = r.below(9) as i64 - 4;
    match r.below(10) {
        0..=2 => k.into(),
        3 => (k as f64).into(),
        4 => (k as f64 + 0.5).into(),
        5 => (*r.pick(&[255, 256, 257, 65_535, 65_536, 2_147_483_647, 2_147_483_648i64, -2_147_483_649, 4_294_967_296, 9_007_199_254_740_991, -9_007_199_254_740_991])).into(),
        6 => (*r.pick(&[1e10, 1e21, 1e-7, -2.5e-3, 0.1, 0.3, 1e15, 123456.75])).into(),
        7 => (10i64.pow(r.below(16) as u32) * if r.one_in(3) { -1 } else { 1 }).into(),
        8 => 10f64.powi(r.below(19) as i32 - 4).into(),
        _ => (k * 100).into(),
    }
}

struct T<'a> {
    r: &'a mut Rng,
    /// Chance of a user function around an operand.
    user: usize,
}

impl T<'_> {
    /// A single value, perhaps through a user function.
    fn v(&mut self, s: &str) -> String {
        if self.r.pct(self.user) {
            match self.r.below(4) {
                0 => format!("first({s})"),
                1 => format!("lastv({s})"),
                _ => format!("vid({s})"),
            }
        } else {
            s.into()
        }
    }
    fn cmp(&mut self) -> &'static str {
        *self.r.pick(&["==", "==", "!=", "<", "<=", ">", ">="])
    }
    fn k(&mut self) -> i64 {
        small(self.r)
    }
    fn regex(&mut self, at: &str) -> String {
        let f = *self.r.pick(&["match", "match", "search"]);
        format!("{f}({},'{}')", self.v(at), pattern(self.r))
    }
    fn function(&mut self) -> String {
        let (k, m) = (self.k(), self.k());
        let c = self.cmp();
        match self.r.below(14) {
            0 => format!("vid(@) {c} {k}"),
            1 => format!("plus(@,{k}) {c} {m}"),
            2 => format!("first(@.*) {c} {k}"),
            3 => format!("size(@.*) {c} {}", k % 4),
            4 => "is_str(@)".into(),
            5 => format!("lastv(@.*) {c} {k}"),
            6 => format!("any_of(@.*,{k})"),
            7 => format!("length({}) {c} {}", self.v("@"), k % 4),
            8 => format!("count(@.*) {c} {}", k % 4),
            9 => format!("value(@.{}) {c} {k}", self.r.pick(KEYS)),
            10 => format!("pair(@[0],@[1]) == @ || vid(@.a) == {k}"),
            11 => format!("always() && plus(@.a,{k}) {c} {m}"),
            12 => format!("count(rest(@.*)) {c} {}", k % 3),
            _ => format!("plus(plus(@,{k}),vid(1)) {c} {m}"),
        }
    }
}

fn numbers(r: &mut Rng, n: usize) -> Vec<Value> {
    (0..n).map(|_| small(r).into()).collect()
}

fn mixed(r: &mut Rng) -> Value {
    match r.below(6) {
        0 => Value::String(word(r)),
        1 => Value::Array({
            let n = r.below(4);
            numbers(r, n)
        }),
        2 | 3 => {
            let mut m = Map::new();
            for _ in 0..r.below(4) {
                m.insert(r.pick(KEYS).to_string(), small(r).into());
            }
            Value::Object(m)
        }
        _ => small(r).into(),
    }
}

fn tree(r: &mut Rng, depth: usize) -> Value {
    if depth == 0 {
        return small(r).into();
    }
    let mut m = Map::new();
    for k in KEYS {
        if r.pct(55) {
            let d = r.below(depth);
            let v = tree(r, d);
            m.insert(k.to_string(), if r.one_in(4) { json!([v, small(r)]) } else { v });
        }
    }
    Value::Object(m)
}

fn chain(r: &mut Rng, n: usize) -> Value {
    let mut v = json!({"end": small(r)});
    for i in 0..n {
        v = match r.below(4) {
            0 => json!([v]),
            1 => json!([v, i]),
            2 => json!({ "a": v }),
            _ => json!({ "a": v, "b": i }),
        };
    }
    v
}

/// Documents in which different places read much the same, with few different values; or long ones.
pub fn twins(r: &mut Rng) -> (Value, Vec<String>) {
    fn one(r: &mut Rng, depth: usize) -> Value {
        if depth == 0 || r.one_in(5) {
            return if r.one_in(3) { r.pick(&["a", "", "/", "a/b"]).to_string().into() } else { (r.below(3) as i64).into() };
        }
        if r.one_in(3) {
            return Value::Array((0..1 + r.below(3)).map(|_| one(r, depth - 1)).collect());
        }
        let (x, y) = (*r.pick(&["a", "b", "0", "1"]), *r.pick(&["a", "b", "0", "1"]));
        let sep = r.pick(&["/", ".", "']['", "\"][\"", "][", "~1", "~0", "\\", "..", "", ",", " "]).to_string();
        let mut m = Map::new();
        m.insert(x.into(), one(r, depth - 1));
        if r.one_in(2) {
            // The same below the one step and behind the two.
            let leaf = one(r, 0);
            m.insert(x.into(), json!({ y: leaf }));
            m.insert(format!("{x}{sep}{y}"), leaf);
        } else {
            m.insert(format!("{x}{sep}{y}"), one(r, depth - 1));
        }
        match r.below(6) {
            0 => drop(m.insert(format!("{y}~"), one(r, depth - 1))),
            1 => drop(m.insert(format!("['{x}']"), one(r, 0))),
            2 => drop(m.insert(format!("{x} "), one(r, 0))),
            3 => drop(m.insert(x.to_uppercase(), one(r, 0))),
            _ => {}
        }
        Value::Object(m)
    }
    let d = if r.one_in(3) {
        let n = *r.pick(&[1, 2, 3, 5, 9]) * *r.pick(&[31, 60, 64, 67, 100, 130]) + r.below(4);
        let m = 1 + r.below(9) as u64;
        if r.one_in(3) {
            Value::Object((0..n).map(|i| (format!("{}{}", *r.pick(&["a", "a", "b", "a/"]), i), (i as u64 % m).into())).collect())
        } else {
            Value::Array((0..n as u64).map(|i| if i % 17 == 16 { json!([i % m, i % 2]) } else { (i % m).into() }).collect())
        }
    } else {
        one(r, 3)
    };
    let mut q = vec![];
    for t in ["$..*", "$..[*, *]", "$[*, *]", "$..[::-1, *]", "$[::-2, ::3]", "$..[?@ == 1]", "$..['a', 'b', 'a']", "$[?@ > 0, *]", "$..[0, -1, 0]"] {
        if r.one_in(2) {
            q.push(t.to_string());
        }
    }
    (d, q)
}

/// A list longer than counters of eight, twelve or sixteen bits go.
pub fn long_list(r: &mut Rng, k: u64) -> (Value, Vec<String>) {
    let d = if r.one_in(3) && k < 10_000 {
        Value::Object((0..k).map(|i| (format!("k{i}"), (i % 7).into())).collect())
    } else {
        Value::Array((0..k).map(|i| (i % 7).into()).collect())
    };
    let i = r.log_uniform(k) as i64;
    let mut qs: Vec<String> = vec![
        ["$[*]", "$.*", "$..*", "$[::-1]"][r.below(4)].into(),
        ["$[*]", "$.*", "$..*", "$[::-1]"][r.below(4)].into(),
        format!("$[{}]", if r.one_in(2) { i } else { -i - 1 }),
        format!("$[{}:{}]", k - 6, k + 9),
        format!("$[:{}]", k as i64 - i),
        format!("$[{}::{}]", k - 1, -(*r.pick(&[1, 13, 255, 256, 4096, 65_536i64]))),
        format!("$[?@ == {}]", r.below(7)),
        format!("$[?@ != {}]", r.below(7)),
        "$['k255','k256','k4097','k65536',*]".into(),
    ];
    if k < 1500 {
        qs.push(format!("$[?count($[:{i}]) {} {i} && @ == 6]", r.pick(&["==", "!="])));
    }
    (d, qs)
}

/// Documents and queries of one theme. `user` is how often user functions shall take part.
pub fn theme(r: &mut Rng, user: usize) -> (Vec<Value>, Vec<String>) {
    let kind = r.weighted(&[50, if user > 0 { 50 } else { 20 }, 30, 30, 30, 50, 30, 20, 20, 30, 25, 15, 15, 20, 2]);
    let n = 3 + r.below(4);
    let mut docs = vec![];
    let mut qs = vec![];
    let nd = 1 + r.below(2);
    let mut t = T { r, user: user * 6 / 10 };
    match kind {
        0 => {
            for _ in 0..nd {
                let obj = t.r.one_in(3);
                let k = 5 + t.r.below(9);
                docs.push(Value::Array(
                    (0..k)
                        .map(|_| {
                            let w = word(t.r);
                            if obj {
                                json!({ "s": w })
                            } else {
                                w.into()
                            }
                        })
                        .collect(),
                ));
            }
            for _ in 0..n {
                let at = *t.r.pick(&["@", "@", "@.s"]);
                qs.push(format!("$[?{}]", t.regex(at)));
            }
        }
        1 => {
            for _ in 0..nd {
                let k = 4 + t.r.below(8);
                docs.push(Value::Array((0..k).map(|_| mixed(t.r)).collect()));
            }
            for _ in 0..n {
                let f = t.function();
                qs.push(if t.r.one_in(4) { format!("$..[?{f}]") } else { format!("$[?{f}]") });
            }
        }
        2 => {
            for _ in 0..nd {
                docs.push(tree(t.r, 4));
            }
            for _ in 0..n {
                let (a, b, c) = (*t.r.pick(KEYS), *t.r.pick(KEYS), *t.r.pick(KEYS));
                qs.push(match t.r.below(6) {
                    0 => format!("$..{a}"),
                    1 => format!("$[*].{a}"),
                    2 => format!("$.{a}.{b}"),
                    3 => format!("$['{a}','{b}']..{c}"),
                    4 => format!("$..['{a}'][0,'{b}']"),
                    _ => format!("$..[?{} && !@.{b}]", if t.r.pct(user) { format!("vid(@.{a}) != vid(@.{c})") } else { format!("@.{a}") }),
                });
            }
        }
        3 => {
            for _ in 0..nd {
                let k = 5 + t.r.below(10);
                docs.push(Value::Array(
                    (0..k)
                        .map(|_| match t.r.below(4) {
                            0 => word(t.r).into(),
                            1 => (small(t.r) as f64 + 0.5).into(),
                            _ => small(t.r).into(),
                        })
                        .collect(),
                ));
            }
            for _ in 0..n {
                let lit = match t.r.below(4) {
                    0 => format!("'{}'", word(t.r)),
                    1 => format!("{}.5", t.k()),
                    _ => t.k().to_string(),
                };
                let (v, c) = (t.v("@"), t.cmp());
                qs.push(format!("$[?{v} {c} {lit}]"));
            }
        }
        4 => {
            for _ in 0..nd {
                let k = 4 + t.r.below(16);
                docs.push(Value::Array((0..k as u64).map(|i| if i % 5 == 4 { json!([i, [i], i + 1]) } else { i.into() }).collect()));
            }
            for _ in 0..n {
                let o = |r: &mut Rng| if r.one_in(3) { String::new() } else { (r.below(16) as i64 - 6).to_string() };
                let (a, b) = (o(t.r), o(t.r));
                let s = *t.r.pick(&["", ":", ":1", ":2", ":3", ":-1", ":-2", ":-3"]);
                let i = t.r.below(12) as i64 - 6;
                qs.push(match t.r.below(5) {
                    0 => format!("$[{i}]"),
                    1 => format!("$..[{i}]"),
                    2 => format!("$[{a}:{b}{s}, {i}]"),
                    3 => format!("$..[{a}:{b}{s}]"),
                    _ => format!("$[{a}:{b}{s}]"),
                });
            }
        }
        5 => {
            // The same shape, other contents: the same query gives something else in each.
            for _ in 0..2 + t.r.below(2) {
                let k = 4 + t.r.below(6);
                let list: Vec<Value> = (0..k)
                    .map(|_| {
                        let (n, s) = (small(t.r), word(t.r));
                        let mut m = json!({"k": n, "s": s});
                        if t.r.one_in(2) {
                            m["x"] = Value::Null;
                        }
                        m
                    })
                    .collect();
                let mut d = json!({"list": list, "limit": small(t.r), "re": pattern(t.r).replace('\\', ""), "w": word(t.r)});
                if t.r.one_in(2) {
                    d["flag"] = true.into();
                }
                docs.push(d);
            }
            for _ in 0..n {
                let (c, k) = (t.cmp(), t.k());
                let u = t.v("@.k");
                let w = t.v("$.limit");
                qs.push(match t.r.below(11) {
                    9 => format!("$.list[?{u} {c} {k} && $.flag]"),
                    10 => format!("$.list[?$.flag || {u} {c} {k}]"),
                    0 | 1 => format!("$.list[?{u} {c} {w}]"),
                    2 => format!("$.list[?match(@.s,$.re)]"),
                    3 => "$.list[?$.flag]".into(),
                    4 => format!("$.list[?$.list[?@.k == {w}]]"),
                    5 => format!("$.list[?count($.list[?@.k {c} $.limit]) > {}]", k % 3),
                    6 => format!("$.list[?!$.flag && {u} {c} {k}]"),
                    7 => format!("$.list[?$.flag || value($..limit) == {u}]"),
                    _ => format!("$.list[?search(@.s,$.w) || {u} == {w}].s"),
                });
            }
        }
        6 => {
            for _ in 0..nd {
                let k = match t.r.below(8) {
                    0..=3 => 4 + t.r.below(9),
                    4..=6 => 20 + t.r.below(75),
                    _ => 100 + t.r.below(300),
                };
                docs.push(chain(t.r, k));
            }
            for _ in 0..n {
                let e = t.v("@.end");
                qs.push(match t.r.below(7) {
                    0 | 1 => "$..end".into(),
                    2 => "$..[0]".into(),
                    3 => "$..a".into(),
                    4 => format!("$..[?{e} {} {}]", t.cmp(), t.k()),
                    5 => format!("$..[?@..end == {}]", t.k()).replace("@..end ==", "value(@..end) =="),
                    _ => (*t.r.pick(&["$..b", "$..*"])).into(),
                });
            }
        }
        7 => {
            for _ in 0..nd {
                let k = *t.r.pick(&[33, 63, 64, 65, 97, 127, 128, 131, 255, 256, 257, 300]) + t.r.below(3);
                docs.push(Value::Array((0..k as u64).map(|i| (i * 7 % 11).into()).collect()));
            }
            for _ in 0..n {
                let (u, c) = (t.v("@"), t.cmp());
                let k = t.r.below(12);
                qs.push(match t.r.below(6) {
                    0 => format!("$[::{}]", 1 + k),
                    1 => "$[*]".into(),
                    2 => format!("$[{}:]", k * 20),
                    3 => format!("$[::-{}]", 1 + k),
                    _ => format!("$[?{u} {c} {k}]"),
                });
            }
        }
        8 => {
            let (d, q) = twins(t.r);
            docs.push(d);
            qs.extend(q);
            for _ in 0..2 {
                let (u, c, k) = (t.v("@"), t.cmp(), t.k());
                qs.push(format!("$..[?{u} {c} {k}]"));
            }
        }
        10 => {
            // Contents of every length, with what patterns and lengths treat in a way of its own.
            for _ in 0..nd {
                let k = 4 + t.r.below(8);
                docs.push(Value::Array((0..k).map(|_| words(t.r).into()).collect()));
            }
            for _ in 0..n {
                let w = t.r.pick(docs[0].as_array().unwrap()).as_str().unwrap().to_string();
                let (v, c) = (t.v("@"), t.cmp());
                let len = w.chars().count();
                let p: String = w.chars().take(8).map(|c| if c.is_alphanumeric() && !t.r.one_in(3) { c } else { '.' }).collect();
                let f = *t.r.pick(&["match", "search"]);
                qs.push(match t.r.below(6) {
                    0 | 1 => format!("$[?length({v}) {c} {}]", len as i64 + if t.r.one_in(3) { t.r.below(3) as i64 - 1 } else { 0 }),
                    2 => format!("$[?{f}({v},'{p}')]"),
                    3 => format!("$[?{f}({v},'{p}.*')]"),
                    4 => format!("$[?{f}({v},'.*.{}')]", w.chars().last().filter(|c| c.is_alphanumeric()).unwrap_or('.')),
                    _ => format!("$[?{v} {c} {}]", quoted(&w, t.r)),
                });
            }
        }
        11 => {
            for _ in 0..nd {
                let k = 6 + t.r.below(10);
                docs.push(Value::Array((0..k).map(|_| number(t.r)).collect()));
            }
            for _ in 0..n {
                let x = number(t.r);
                let l = Operand::Lit(x);
                let mut lit = String::new();
                render_operand(&l, &mut lit, &mut Style(Some(t.r)));
                let (v, c) = (t.v("@"), t.cmp());
                qs.push(if t.r.one_in(4) { format!("$[?{lit}{c}{v}]") } else { format!("$[?{v}{c}{lit}]") });
            }
        }
        12 => {
            // Names of every length, with what locations escape in them.
            let mut names: Vec<String> = (0..2 + t.r.below(3)).map(|_| long_name(t.r)).collect();
            let mut near = names[0].clone();
            near.pop();
            names.push(format!("{near}~"));
            for _ in 0..nd {
                let mut m = Map::new();
                for k in &names {
                    let x: Value = small(t.r).into();
                    m.insert(k.clone(), if t.r.one_in(2) { x } else { json!({ t.r.pick(&names).clone(): x, "a": [x] }) });
                }
                docs.push(Value::Object(m));
            }
            qs.push("$..*".into());
            for _ in 0..n {
                let (a, b) = (t.r.below(names.len()), t.r.below(names.len()));
                let (a, b) = (quoted(&names[a], t.r), quoted(&names[b], t.r));
                let (c, k) = (t.cmp(), t.k());
                qs.push(match t.r.below(5) {
                    0 => format!("$[{a}]"),
                    1 => format!("$..[{a}]"),
                    2 => format!("$[{a},{b}].*"),
                    3 => format!("$[?@[{a}]]"),
                    _ => format!("$..[?@[{a}]{c}{k}]"),
                });
            }
        }
        13 => {
            // Queries with very many of something.
            let k = 5 + t.r.below(40) as u64;
            docs.push(Value::Array((0..k).map(|i| if i % 4 == 3 { json!([i, i % 3]) } else { i.into() }).collect()));
            let depth = 8 + t.r.below(70);
            docs.push((0..depth).fold(json!(1), |v, i| if i % 3 == 0 { json!([v]) } else { json!({ "a": v }) }));
            for _ in 0..n {
                let m = t.r.log_uniform(150) as usize + 1;
                let c = t.cmp();
                let few = m.min(40);
                qs.push(match t.r.below(6) {
                    0 => format!("$[{}]", (0..m).map(|_| (t.r.below(50) as i64 - 5).to_string()).collect::<Vec<_>>().join(",")),
                    1 => format!("$[?{}]", (0..m).map(|_| format!("@{}{}", c, t.r.below(50))).collect::<Vec<_>>().join("||")),
                    2 => format!("$[?{}]", (0..m).map(|_| format!("@!={}", t.r.below(50))).collect::<Vec<_>>().join(" && ")),
                    3 => format!("$[?{}@{c}{}{}]", "(".repeat(few), t.r.below(50), ")".repeat(few)),
                    4 => (0..m.min(depth)).rev().fold("$".into(), |q: String, i| q + if (depth - m.min(depth) + i) % 3 == 0 { "[0]" } else { ".a" }),
                    _ => format!("${}", ".*".repeat(m.min(depth))),
                });
            }
        }
        14 => {
            let k = *t.r.pick(&[1030, 4100, 4100, 66_000]) + t.r.below(40) as u64;
            let (d, q) = long_list(t.r, k);
            docs.push(d);
            qs.extend(q);
        }
        _ => {
            for _ in 0..nd {
                let k = 3 + t.r.below(5);
                docs.push(Value::Array((0..k).map(|_| tree(t.r, 3)).collect()));
            }
            for _ in 0..n {
                let (a, b) = (*t.r.pick(KEYS), *t.r.pick(KEYS));
                let (c, k) = (t.cmp(), t.k());
                let u = t.v(&format!("@.{b}"));
                qs.push(match t.r.below(6) {
                    0 => format!("$[?@.{a} && {u} {c} {k}]"),
                    1 => format!("$[?@[?@.{a}]]"),
                    2 => format!("$[?@.*[?@ {c} {k}]]"),
                    3 => format!("$..[?@.{a} || ({u} {c} {k} && !@.c)]"),
                    4 => format!("$[*][?{}]", t.function()),
                    _ => format!("$[?!(@.{a} && {u} {c} {k})].{b}"),
                });
            }
        }
    }
    (docs, qs)
}

pub fn specs(qs: Vec<String>) -> Vec<QSpec> {
    qs.into_iter()
        .filter_map(|t| {
            let ast = mparse::parse(&t).ok();
            // `first(@)` and the like are refused or undecided now and then.
            ast.is_some().then_some(QSpec { text: t, ast })
        })
        .collect()
}
