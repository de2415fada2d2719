//! How the work of a call grows with its input: the same kind of text or document at doubling sizes,
//! the caller's own steps counted. Twice the size may take several times the work; it must not take
//! hundreds of times the work.

use crate::run::*;
use jprt::sched;
use jprt::Rng;
use serde_json::{json, Value};
use serde_json_path::{JsonPath, JsonPathExt};

/// Twice the size: a cube takes eight times the work.
const FACTOR: u64 = 12;
/// What may come on top: first uses, waits, growing tables.
const SLACK: u64 = 30_000;

struct Meter {
    what: String,
    size: usize,
    factor: u64,
    before: Vec<(String, u64)>,
    now: Vec<(String, u64)>,
}

impl Meter {
    fn new(what: &str, factor: u64) -> Meter {
        Meter { what: what.into(), size: 0, factor, before: vec![], now: vec![] }
    }
    fn next(&mut self, size: usize) {
        self.size = size;
        self.before = std::mem::take(&mut self.now);
    }
    fn call<T>(&mut self, name: &str, f: impl FnOnce() -> T) -> T {
        let from = sched::own_steps();
        let r = lib(f);
        let n = sched::own_steps() - from;
        if let Some((_, b)) = self.before.iter().find(|b| b.0 == name) {
            if n > b * self.factor + SLACK {
                violation(
                    "work-growth",
                    &format!(
                        "{name} of {} took {b} steps at half the size and {n} at size {}",
                        short(&self.what, 400),
                        self.size
                    ),
                );
            }
        }
        self.now.push((name.into(), n));
        r
    }
    /// Where an error stands decides how much is read before it; no more than with a text that is right.
    fn wrong(&mut self, t: &str) {
        let right = self.now.iter().find(|b| b.0 == "parsing").map_or(0, |b| b.1);
        let from = sched::own_steps();
        let r = lib(|| JsonPath::parse(t).is_ok());
        let n = sched::own_steps() - from;
        if n > right * 6 + SLACK {
            violation(
                "work-growth",
                &format!("parsing {:?} took {n} steps (ok: {r}), and {right} with its error corrected", short(t, 400)),
            );
        }
    }
}

fn leaf(r: &mut Rng) -> &'static str {
    *r.pick(&["@", "@.a", "@[0]", "@.a == 'x'", "1 == 1", "match(@.a, 'x')", "!@.b", "$[0]", "length(@) > 0", "'x' == @.a", "!is_str(@)"])
}

/// Each puts the expression in another one, which goes at most one level down in the document.
const AROUND: &[&str] = &[
    "(#)",
    "!(#)",
    "@[?#]",
    "@[?(#)]",
    "!@[?#]",
    "count(@[?#]) == 1",
    "1 == count(@[?#])",
    "count(@[?#]) >= count(@[1])",
    "1 <= count( @[?#] )",
    "value(@[?#]) == 1",
    "value(@[?#]) != $[1]",
    "length(value(@[?#])) > 0",
    "is_str(first(@[?#]))",
    "first(@[?#]) == vid(@[0])",
    "vid(value(@[?#])) == 'x'",
    "rest(@[?#])",
    "!neg(@[?#])",
    "!neg(@[0, ?#])",
    "both(@[?#], @)",
    "both(is_str(first(@[?#])), @.a)",
    "match(value(@[?#]), 'x')",
    "(# && @)",
    "(@ && #)",
    "(@.b || #)",
    "(# || @.b)",
    "1 == 1 && (#)",
    "@[0, ?#]",
    "@[?@.b, ?#]",
    "@[?#, 'a']",
    "(  (  # ) )",
    "!(!(#))",
    "@['b', 'c', ?#]['d']",
    "@[?#] || $.b",
    "plus(1, value(@[?#])) > 2",
    "any_of(@[?#], 1)",
];

fn nested(around: &[&str], leaf: &str, n: usize) -> String {
    let mut t = leaf.to_string();
    for i in 0..n {
        t = around[i % around.len()].replacen('#', &t, 1);
    }
    format!("$[?{t}]")
}

fn spoiled(t: &str, leaf: &str, how: u8, with: char) -> String {
    let mut t = t.to_string();
    match how {
        1 => {
            t.pop();
        }
        2 => t.truncate(t.len() * 2 / 3),
        // What stands innermost is wrong.
        3 => t = t.replacen(leaf, "@.", 1),
        4 => t.push('x'),
        5 => t.insert(t.len() * 3 / 4, with),
        _ => t = t.replacen(leaf, "length(@.b)", 1),
    }
    t
}

/// One thing after the other.
fn in_a_row(kind: usize, n: usize) -> String {
    match kind {
        0 => format!("${}", ".a".repeat(n)),
        1 => format!("${}", "['a']".repeat(n)),
        2 => format!("$[{}0]", "0, ".repeat(n)),
        3 => format!("$['{}']", "a".repeat(n)),
        4 => format!("$[\"{}\"]", "\\u00e9\\n".repeat(n)),
        5 => format!("$[{}0]", " ".repeat(n)),
        6 => format!("$[?{}@]", "@.a && ".repeat(n)),
        7 => format!("$[?{}@]", "@.a == 1 || ".repeat(n)),
        8 => format!("$[?{}@]", "match(@, 'a') && !@.b || ".repeat(n)),
        9 => format!("$.{}", "ab_".repeat(n)),
        10 => format!("$[{}?@]", "?@.a == 1, ".repeat(n)),
        11 => format!("$[?@.a == '{}']", "b".repeat(n)),
        12 => format!("$[?match(@, '{}')]", "(a|b)".repeat(n)),
        13 => format!("${}", "[::2][-1]".repeat(n)),
        14 => format!("$.{}", "\u{e9}\u{4e2d}".repeat(n)),
        15 => format!("${}", "[?@.a]".repeat(n)),
        16 => format!("$[?{}@{}]", "(@.a) || !(@.b) && ".repeat(n), ".c".repeat(n)),
        17 => format!("$[?@{} == 1]", "[0]".repeat(n)),
        18 => format!("$[?1 == $.{}]", "a.".repeat(n) + "b"),
        19 => format!("$[?@.a == 1.{}]", "5".repeat(n)),
        _ => format!("$[?both(@.a{}, @)]", "['b']".repeat(n)),
    }
}
const ROWS: usize = 21;

fn chain(n: usize) -> Value {
    let mut v = json!("x");
    for i in 0..n {
        v = if i % 3 == 2 { json!({"a": "x", "c": v}) } else { json!([v, {"a": "x"}]) };
    }
    v
}

fn whole(m: &mut Meter, t: &str, docs: &[Value]) {
    let p = match m.call("parsing", || JsonPath::parse(t)) {
        Ok(p) => p,
        Err(e) => {
            m.call("writing out the error", || format!("{e} {e:?} {}", e.position()));
            lib(|| drop(e));
            return;
        }
    };
    let c = m.call("cloning", || p.clone());
    m.call("comparing", || c == p);
    m.call("dropping", || drop(c));
    m.call("writing out", || p.to_string());
    m.call("writing as JSON", || serde_json::to_string(&p).unwrap());
    for d in docs {
        let l = m.call("query", || p.query(d));
        let l2 = m.call("query_located", || p.query_located(d));
        if l.len() != l2.len() {
            violation("work-growth", &format!("{:?}: {} nodes and {} located nodes", short(t, 200), l.len(), l2.len()));
        }
        lib(|| drop((l, l2)));
    }
    lib(|| drop(p));
}

/// The queries to try on documents of growing size, and how many descendant segments they have.
const ON: &[(&str, u32)] = &[
    ("$[*]", 0),
    ("$.*.*", 0),
    ("$[::-1]", 0),
    ("$[1:, :9:2]", 0),
    ("$[*, *]", 0),
    ("$[?@.a > 3]", 0),
    ("$[?@.a == $[0].a || @.b]", 0),
    ("$[?count(@.*) > 1]", 0),
    ("$[?match(@.s, 'x.*') || search(@, 'y')]", 0),
    ("$[?size(@.b[*]) == 1 && !neg(@.a)]", 0),
    ("$[?@ == $[-1]]", 0),
    ("$[?length(@) > 1].a", 0),
    ("$..a", 1),
    ("$..*", 1),
    ("$..[0]", 1),
    ("$..[?@.a]", 1),
    ("$..[?@.a > 3]['a', 's']", 1),
    ("$..[::2, 0]", 1),
    ("$..[0]..a", 2),
    ("$..*..*", 2),
];

fn sized(kind: usize, n: usize) -> Value {
    match kind {
        0 => (0..n).map(|i| json!(i % 7)).collect(),
        1 => (0..n).map(|i| json!({"a": i % 9, "b": [i], "s": format!("x{i}")})).collect(),
        2 => Value::Object((0..n).map(|i| (format!("k{i}"), json!({"a": i % 5}))).collect()),
        3 => (0..n).map(|i| json!([i, [i]])).collect(),
        4 => (0..n).map(|i| Value::String("xy".repeat(i % 3))).collect(),
        5 => json!([{"a": vec![1; n], "s": "x".repeat(n)}, "x".repeat(n), vec!["y"; n]]),
        6 => json!([{"a": 4, "b": {"x".repeat(n): {"a": 1}}}]),
        _ => chain(n),
    }
}
const SIZED: usize = 8;

pub fn run(seed: u64, most: usize) -> String {
    let mut r = Rng::new(seed);
    match r.weighted(&[6, 2, 4]) {
        0 => {
            let mut around: Vec<&str> = (0..1 + r.below(3)).map(|_| *r.pick(AROUND)).collect();
            if r.one_in(4) {
                around.truncate(1);
            }
            let leaf = leaf(&mut r);
            let how = 1 + r.below(6) as u8;
            let with = *r.pick(&['=', '&', '!', '(', ')', '#', '?', ',', '1']);
            let mut m = Meter::new(&format!("{leaf:?} in {around:?}"), FACTOR);
            let mut n = 3;
            while n <= most {
                m.next(n);
                let t = nested(&around, leaf, n);
                whole(&mut m, &t, &[chain(n + 2)]);
                m.wrong(&spoiled(&t, leaf, how, with));
                n *= 2;
            }
        }
        1 => {
            let kind = r.below(ROWS);
            let mut m = Meter::new(&in_a_row(kind, 2), FACTOR);
            let mut n = 6;
            while n <= most * 4 {
                m.next(n);
                whole(&mut m, &in_a_row(kind, n), &[chain(9)]);
                n *= 2;
            }
        }
        _ => {
            let (t, desc) = *r.pick(ON);
            let kind = r.below(SIZED);
            let p = lib(|| JsonPath::parse(t)).unwrap();
            let mut m = Meter::new(&format!("{t:?} on documents of kind {kind}"), FACTOR << (2 * desc));
            let mut n = if desc > 1 { 3 } else { 8 };
            while n <= if desc > 1 { most / 2 } else { most * 4 } {
                m.next(n);
                let d = sized(kind, n);
                let l = m.call("query", || p.query(&d));
                m.call("json_path", || d.json_path(&p));
                m.call("reading the list", || l.iter().filter(|v| v.is_string()).count() + l.clone().all().len());
                m.call("writing the list as JSON", || serde_json::to_string(&l).unwrap());
                let l = m.call("query_located", || p.query_located(&d));
                m.call("reading the located list", || l.iter().map(|n| n.location().len()).sum::<usize>());
                m.call("writing the locations", || l.locations().map(|l| l.to_string().len() + l.to_json_pointer().len()).sum::<usize>());
                let l = m.call("dedup", || l.dedup());
                m.call("dropping", || drop(l));
                n *= 2;
            }
        }
    }
    "grown".into()
}
