//! One generator, one executor and one judgement per property.

use crate::ast::*;
use crate::driver::*;
use crate::live::LiveOp;
use crate::io::FORMS;
use crate::run::*;
use crate::scn::*;
use crate::{disk, eval, mparse, oom};
use jprt::Rng;
use serde_json::{json, Value};

// ---- building blocks ---------------------------------------------------------------------------

/// Documents and queries over one vocabulary.
pub fn base(prop: &str, r: &mut Rng, nd: usize, nq: usize, user_pct: usize) -> (Vocab, Scenario) {
    let v = Vocab::gen(r);
    let mut s = Scenario { prop: prop.into(), ..Scenario::default() };
    if r.pct(38) {
        // One feature, and every query selects something else.
        let (d, q) = crate::themes::theme(r, user_pct);
        s.docs = d;
        s.queries = crate::themes::specs(q);
        if r.one_in(3) {
            s.queries.truncate(2);
        }
        if r.one_in(4) || s.queries.is_empty() {
            s.queries.push(gen_spec(&v, r, user_pct));
        }
        keep_cheap(&mut s);
        return (v, s);
    }
    for _ in 0..nd {
        s.docs.push(gen_doc(&v, r));
    }
    for _ in 0..nq {
        s.queries.push(gen_spec(&v, r, user_pct));
    }
    if r.one_in(20) {
        let n = *r.pick(&[30, 60, 64, 100, 128, 170, 256, 512, 700, 1024]) + r.below(6);
        let k = r.below(s.queries.len());
        s.queries[k] = lengthy(r, n);
    }
    (v, s)
}

/// Leaves out the queries that take too long on these documents.
fn keep_cheap(s: &mut Scenario) {
    let Scenario { docs, queries, .. } = s;
    if docs.iter().all(|d| d.as_array().map_or(d.as_object().map_or(0, |m| m.len()), |a| a.len()) < 40) {
        return;
    }
    let most = if ["C11", "C13"].contains(&s.prop.as_str()) { 250_000 } else { 20_000 };
    if most == 20_000 {
        // The long lists that only those two take apart.
        docs.iter_mut().filter_map(|d| d.as_array_mut()).for_each(|a| a.truncate(5000));
    }
    queries.retain(|q| q.ast.as_ref().is_none_or(|a| docs.iter().all(|d| eval::cost(a, d) <= most)));
    if queries.is_empty() {
        queries.push(QSpec { text: "$[*]".into(), ast: mparse::parse("$[*]").ok() });
    }
}

fn gen_spec(v: &Vocab, r: &mut Rng, user_pct: usize) -> QSpec {
    let q = if r.pct(user_pct) { gen_user_query(v, r) } else { gen_query(v, r) };
    let text = if v.style { render(&q, &mut Style(Some(r))) } else { render(&q, &mut Style(None)) };
    QSpec { text, ast: Some(q) }
}

/// A text that is probably not a query.
pub fn gen_broken(v: &Vocab, r: &mut Rng) -> QSpec {
    let mut t = gen_spec(v, r, 30).text;
    if r.one_in(3) {
        return QSpec { text: decorated(v, r, &t), ast: None };
    }
    if r.one_in(3) {
        return QSpec { text: if r.one_in(3) { escapes(r) } else { misspelt(v, r) }, ast: None };
    }
    for _ in 0..1 + r.below(3) {
        t = mutate_text(&t, r);
    }
    QSpec { text: t, ast: None }
}

/// A query in the trimmings of other places where queries are written.
fn decorated(v: &Vocab, r: &mut Rng, t: &str) -> String {
    let blank = if r.one_in(2) { "" } else { *r.pick(&["", " ", "\t", "\n", "\r\n", "  ", "\u{a0}", "\u{2028}", "\u{b}", "\u{c}", "\u{85}", "\u{3000}", "\u{200b}"]) };
    match r.below(4) {
        0 => {
            let (a, b) = *r.pick(&[
                ("\"", "\""), ("'", "'"), ("`", "`"), ("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), ("/", "/"), ("\u{201c}", "\u{201d}"),
                ("${", "}"), ("$(", ")"), ("{{", "}}"), ("/*", "*/"), ("\\\"", "\\\""), ("\"\"", "\"\""), ("|", "|"), ("r\"", "\""), ("[\"", "\"]"),
            ]);
            format!("{a}{blank}{t}{blank}{b}")
        }
        1 => {
            let n = v.name(r).replace(['\'', '\\'], "");
            let more = [
                " //", "//", " # ", "#", " -- ", ";", ",", ".", "\0", "\\", "/", "?", "&", "~", "^", "!", "=", ":", " /* x */", " AS x", "..", "[", "]", "()",
                ".length()", " || $", "|$", ", $", " $", "\"", "'", "\u{feff}", "\u{1a}", "\u{4}", "%20", "+", "...", "@",
            ];
            let with = if r.one_in(2) { n.as_str() } else { "" };
            format!("{t}{blank}{}{with}{blank}", r.pick(&more))
        }
        2 => {
            let less = [
                "\u{feff}", "\u{200e}", "jsonpath:", "path:", "json:", "JSONPath ", "$=", "=", "lax ", "strict ", "#", "//", "--", ">", "- ", "\\", "\0", ",", ";", ".", "/", "&",
                "@", "$$", "!", "~", "v1:", "RFC9535:", "s:", "1:", "file:", "\"", "'", "%24", "&#36;", "\\u0024",
            ];
            let less = *r.pick(&less);
            let rest = if r.one_in(2) { t.strip_prefix('$').unwrap_or(t) } else { t };
            format!("{blank}{less}{blank}{rest}")
        }
        _ => match r.below(12) {
            0 => t.strip_prefix('$').unwrap_or(t).to_string(),
            1 => t.replacen('$', "@", 1),
            2 => t.replacen('$', "\u{ff04}", 1),
            3 => t.replacen('$', "&", 1),
            4 => t.replace(['[', ']'], "."),
            5 => format!("{blank}{t}{blank}"),
            6 => t.replace('\'', "\u{2019}"),
            7 => t.replace('.', "/").replacen('$', "", 1),
            8 => t.replace("==", "=").replace("&&", "&").replace("||", "|"),
            9 => t.replace("==", " eq ").replace("&&", " and ").replace("||", " or "),
            10 => t.replace("?", "?(").replace(']', ")]"),
            _ => t.to_uppercase(),
        },
    }
}

/// A string with escapes some of which are none.
fn escapes(r: &mut Rng) -> String {
    let quote = *r.pick(&["'", "\""]);
    let mut t = String::new();
    for _ in 0..1 + r.below(4) {
        let odd = ["\\ud83d", "\\uDE00", "\\ud83d\\u0041", "\\uD83D\\uD83D", "\\u12", "\\u", "\\x41", "\\0", "\\v", "\\", "\\u{41}", "\\U0041", "\\'", "\\\"", "\u{1}"];
        let good = ["a", "\\ud83d\\ude00", "\\uD800\\udC00", "\\udBFf\\uDfff", "\\u0061", "\\n", "\\\\", "\\/", "\\u0000", "é", "\u{ffff}", "\\uD7ff", "\\ue000"];
        t.push_str(if r.one_in(4) { r.pick(&odd) } else { r.pick(&good) });
    }
    match r.below(3) {
        0 => format!("$[?@ == {quote}{t}{quote}]"),
        _ => format!("$[{quote}{t}{quote}]"),
    }
}

/// A call of a function whose name is not quite right.
fn misspelt(v: &Vocab, r: &mut Rng) -> String {
    let known = ["length", "count", "value", "match", "search", "vid", "first", "size", "is_str", "plus"];
    let mut n: Vec<u8> = r.pick(&known).bytes().collect();
    let i = r.below(n.len());
    match r.below(4) {
        0 => n[i] = b'a' + r.below(26) as u8,
        1 => drop(n.remove(i)),
        2 => n.insert(i, *r.pick(b"_1ez")),
        _ => n.swap(i, r.below(2)),
    }
    let n = if r.one_in(6) { (0..1 + r.below(9)).map(|_| (b'a' + r.below(26) as u8) as char).collect() } else { String::from_utf8(n).unwrap() };
    let s = v.string(r).replace(['\'', '\\'], "");
    match r.below(4) {
        0 => format!("$[?{n}(@) == 1]"),
        1 => format!("$.a[?@.b && {n}(@.*, '{s}')]"),
        2 => format!("$..[?{n}() > {n}(@)]"),
        _ => format!("$[?vid({n}(@.a, 1)) == '{s}']"),
    }
}

/// A text of considerable length.
pub fn long_spec(r: &mut Rng) -> QSpec {
    let n = *r.pick(&[255, 256, 257, 1000, 4095, 4096, 8200, 32_769, 65_535, 65_536, 66_000, 70_000]) + r.below(3);
    lengthy(r, n)
}

/// A query of about this many bytes.
fn lengthy(r: &mut Rng, n: usize) -> QSpec {
    let w = *r.pick(&["a", "a", "é", "b1"]);
    let name = w.repeat(n / w.len() + 1);
    let t = match r.below(6) {
        5 => {
            // Many of them, and still nodes to be found.
            let mut t = "$".to_string();
            while t.len() < n.min(1100) {
                t.push_str(r.pick(&["[0, 'a', *]", "[?1 == 1 || @.a]", "['a', 'b', 0:]", "[*, ?@]"]));
                t.push_str(r.pick(&["[0]", ".a", "[:1]"]));
                if t.len() > 120 && r.one_in(2) {
                    break;
                }
            }
            t
        }
        0 => format!("$.{name}"),
        1 => format!("$['{name}', 'a']"),
        2 => format!("$[?@ == '{name}'].a"),
        3 => format!("${}", ".a[0]".repeat(n.min(4500) / 5)),
        _ => format!("$[{}1]", "0, ".repeat(n.min(4500) / 3)),
    };
    QSpec { ast: mparse::parse(&t).ok(), text: t }
}

fn op_query(s: &Scenario, r: &mut Rng, own_pct: usize) -> Op {
    let mode = r.below(8) as u8;
    Op::Query {
        q: r.below(s.queries.len()),
        own: r.pct(own_pct),
        doc: r.below(s.docs.len()),
        fresh: r.pct(15),
        located: r.one_in(2),
        mode: mode | if r.one_in(3) { 16 } else { 0 },
    }
}

fn op_show(s: &Scenario, r: &mut Rng, own_pct: usize) -> Op {
    let what = *r.pick(&[
        What::Display,
        What::Display,
        What::Json,
        What::Pretty,
        What::NodesJson,
        What::LocatedJson,
        What::LocationsDisplay,
        What::LocationsJson,
        What::ErrorDisplay,
    ]);
    let io = r.one_in(2);
    Op::Show { what, q: r.below(s.queries.len()), own: r.pct(own_pct), doc: r.below(s.docs.len()), sink: Sink { io, ..Sink::default() } }
}

fn op_de(s: &Scenario, r: &mut Rng) -> Op {
    let q = r.below(s.queries.len());
    Op::De { q, src: Src { form: if r.pct(55) { r.below(9) } else { r.below(FORMS as usize) } as u8, wrap: r.below(6) as u8, esc: r.one_in(4) as u8, chunk: 0, evs: vec![] } }
}

pub fn op_any(s: &Scenario, r: &mut Rng, own_pct: usize) -> Op {
    match r.weighted(&[10, 5, 4, 2, 2, 2]) {
        0 => op_query(s, r, own_pct),
        1 => Op::Parse { q: r.below(s.queries.len()), how: r.below(4) as u8 },
        2 => op_show(s, r, own_pct),
        3 if own_pct < 100 => Op::Ext { q: r.below(s.queries.len()), doc: r.below(s.docs.len()) },
        4 => op_de(s, r),
        _ => Op::Eq { a: r.below(s.queries.len()), b: r.below(s.queries.len()), own: r.pct(own_pct) },
    }
}

/// Each thread with a query and a document of its own, again and again.
fn each_its_own(s: &mut Scenario, r: &mut Rng, n: usize) {
    let own = *r.pick(&[0, 20, 100]);
    let always = r.pct(60);
    let alike = r.one_in(2).then(|| (r.pct(65), *r.pick(&[0, 1, 1, 2, 3, 4, 5, 5, 5, 6, 7])));
    let reps = 1 + r.below(6);
    for t in 0..n {
        let (q, doc) = (t % s.queries.len(), (t + r.below(2)) % s.docs.len());
        let mut ops = vec![];
        for _ in 0..reps {
            if always || r.pct(80) {
                let (located, mode) = alike.unwrap_or_else(|| (r.one_in(2), r.below(8) as u8));
                ops.push(plain(Op::Query { q, own: r.pct(own), doc, fresh: false, located, mode }));
            } else {
                let mut o = op_any(s, r, own);
                if let Op::Parse { q: x, .. } | Op::Show { q: x, .. } | Op::De { q: x, .. } | Op::Ext { q: x, .. } = &mut o {
                    *x = q;
                }
                ops.push(plain(o));
            }
        }
        s.threads.push(ops);
    }
}

fn plain(o: Op) -> OpX {
    OpX::plain(o)
}

pub fn gen_panic(r: &mut Rng) -> FaultKind {
    FaultKind::Panic { kind: r.below(5) as u8, id: r.below(50) as u32 }
}

/// A panic whose unwinding runs destructors that call the library, now and then.
fn gen_unwind(s: &Scenario, r: &mut Rng, own: usize) -> FaultKind {
    if !r.one_in(6) {
        return gen_panic(r);
    }
    let ops = (0..1 + r.below(2)).map(|_| plain(op_any(s, r, own))).collect();
    FaultKind::PanicCleanup { kind: r.below(5) as u8, id: r.below(50) as u32, above: r.one_in(2), ops }
}

pub fn at(r: &mut Rng) -> u32 {
    (r.log_uniform(12) - 1) as u32
}

fn sink_ev(r: &mut Rng, hard: bool) -> SinkEv {
    if hard {
        match r.below(3) {
            0 => SinkEv::Err,
            1 => SinkEv::Zero,
            _ => SinkEv::Panic(r.below(30) as u32),
        }
    } else {
        match r.below(4) {
            0 | 1 => SinkEv::Interrupt,
            2 => SinkEv::Yield,
            _ => SinkEv::Sleep,
        }
    }
}

/// A position in something about `n` long: its ends more often than its middle.
fn place(r: &mut Rng, n: usize) -> u32 {
    (match r.below(6) {
        0 => r.below(4),
        1 => n.saturating_sub(r.below(5)),
        _ => r.below(n + 2),
    }) as u32
}

fn src_ev(r: &mut Rng, hard: bool) -> SrcEv {
    if hard {
        match r.below(8) {
            0 => SrcEv::Err,
            1 => SrcEv::Panic(r.below(30) as u32),
            2 | 3 => SrcEv::Truncate,
            4 => SrcEv::Flip(1 << r.below(8)),
            5 => SrcEv::Flip(1 + r.below(255) as u8),
            6 => SrcEv::Drop(1 + r.below(6) as u8),
            _ => SrcEv::Dup(1 + r.below(8) as u8),
        }
    } else {
        match r.below(4) {
            0 | 1 => SrcEv::Interrupt,
            2 => SrcEv::Yield,
            _ => SrcEv::Sleep,
        }
    }
}

fn script_sink(s: &Scenario, r: &mut Rng, o: &mut Op, faults: usize) {
    if let Op::Show { what, q, doc, sink, .. } = o {
        let n = match what {
            What::Display | What::Json => s.queries[*q].text.len() + 4,
            What::Pretty => s.queries[*q].text.len() * 2 + 14,
            What::LocationsDisplay => 30,
            What::ErrorDisplay => 60,
            _ => s.docs[*doc].to_string().len().min(400) + 10,
        };
        sink.chunk = *r.pick(&[0, 0, 1, 2, 3, 7, 16]);
        for _ in 0..r.below(3) {
            sink.evs.push((place(r, n), sink_ev(r, false)));
        }
        for _ in 0..faults {
            sink.evs.push((place(r, n), sink_ev(r, true)));
        }
    }
}

fn script_src(s: &Scenario, r: &mut Rng, o: &mut Op, hard: bool) {
    if let Op::De { q, .. } = o {
        let n = s.queries[*q].text.len();
        script_src_for(r, o, n, hard);
    }
}

pub fn script_src_for(r: &mut Rng, o: &mut Op, len: usize, hard: bool) {
    if let Op::De { src, .. } = o {
        let n = len * if src.esc != 0 { 6 } else { 1 } + [2, 22, 9, 2, 9, 22][src.wrap as usize % 6];
        src.chunk = *r.pick(&[0, 1, 1, 2, 3, 5, 16]);
        for _ in 0..r.below(3) {
            src.evs.push((place(r, n), src_ev(r, false)));
        }
        if hard {
            for _ in 0..1 + r.one_in(4) as usize {
                src.evs.push((place(r, n), src_ev(r, true)));
            }
        }
    }
}

pub fn counts(o: &Op, s: &Scenario) -> bool {
    // Does the call run user functions?
    match o {
        Op::Query { q, .. } | Op::Ext { q, .. } => s.queries[*q].ast.as_ref().is_some_and(|a| a.calls_user_function()),
        Op::Show { what: What::NodesJson | What::LocatedJson | What::LocationsDisplay | What::LocationsJson, q, .. } => {
            s.queries[*q].ast.as_ref().is_some_and(|a| a.calls_user_function())
        }
        _ => false,
    }
}

// ---- scenarios ---------------------------------------------------------------------------------

fn nthreads(r: &mut Rng) -> usize {
    if r.one_in(14) {
        return 6 + r.below(14);
    }
    *r.pick(&[2, 2, 2, 3, 3, 4, 5])
}

fn c01(r: &mut Rng) -> Scenario {
    let (nd, nq) = (1 + r.below(3), 1 + r.below(5));
    let up = *r.pick(&[10, 40, 80]);
    let (v, mut s) = base("C01", r, nd, nq, up);
    if r.one_in(4) {
        s.queries.push(gen_broken(&v, r));
    }
    // Often everybody does much the same.
    let own = *r.pick(&[10, 50, 100]);
    let same = r.one_in(3);
    if r.one_in(12) {
        // A crowd that is in the same place at the same time.
        let ops = [op_query(&s, r, own), op_any(&s, r, own)];
        let mixed = r.one_in(3);
        let pause = r.one_in(2);
        for _ in 0..8 + r.log_uniform(60) {
            let mut x = plain(ops[if mixed { r.below(2) } else { 0 }].clone());
            if pause && counts(&x.op, &s) {
                x.faults.push(Fault { at: r.below(2) as u32, kind: FaultKind::Sleep { ns: 1_000_000 } });
            }
            s.threads.push(vec![x]);
        }
        return s;
    }
    let n = nthreads(r);
    if r.pct(35) {
        each_its_own(&mut s, r, n);
        if r.pct(60) {
            s.warm = (0..1 + r.below(3)).map(|_| plain(op_any(&s, r, 100))).collect();
        }
        return s;
    }
    let first: Vec<OpX> = (0..1 + r.below(4)).map(|_| plain(op_any(&s, r, own))).collect();
    for t in 0..n {
        let mut ops = if same && t > 0 { first.clone() } else { (0..1 + r.below(4)).map(|_| plain(op_any(&s, r, own))).collect() };
        for o in ops.iter_mut() {
            if counts(&o.op, &s) && r.one_in(5) {
                o.faults.push(Fault { at: at(r), kind: FaultKind::Yield { n: 1 + r.below(3) as u32 } });
            }
        }
        s.threads.push(ops);
    }
    if same {
        s.threads[0] = first;
    }
    if r.pct(60) {
        s.warm = (0..1 + r.below(3)).map(|_| plain(op_any(&s, r, 100))).collect();
    }
    s
}

fn c02(r: &mut Rng) -> Scenario {
    let (nd, nq) = (1 + r.below(2), 2 + r.below(4));
    let up = *r.pick(&[30, 60, 90]);
    let (v, mut s) = base("C02", r, nd, nq, up);
    // Every function that there is, well used.
    for t in [
        "$[?length(@) > 1]", "$[?count(@.*) >= 1]", "$[?value(@..a) == 1]", "$[?match(@, 'a.*')]", "$[?search(@.a, 'b')]",
        "$[?vid(@.a) == 1]", "$[?first(@.*) == 1]", "$[?size(@.*) > 1]", "$[?is_str(@)]", "$[?lastv(@.*) != 1]", "$[?plus(@, 1) == 2]",
        "$[?any_of(@.*, 1)]", "$[?pair(@, 1) == @]", "$[?always()]",
    ] {
        if r.one_in(6) {
            s.queries.push(QSpec { text: t.into(), ast: mparse::parse(t).ok() });
        }
    }
    // And calls that must be refused: no such function, the wrong number or kind of arguments.
    for t in ["$[?length(@.*) == 1]", "$[?count(1) == 1]", "$[?nosuch(@) == 1]", "$[?vid(@, @) == 1]", "$[?match(@, 'a') == true]", "$[?plus(@) == 1]"] {
        if r.one_in(10) {
            s.queries.push(QSpec { text: t.into(), ast: None });
        }
    }
    let _ = v;
    let n = nthreads(r);
    let focused = r.pct(25);
    if focused {
        each_its_own(&mut s, r, n);
    }
    for _ in 0..if focused { 0 } else { n } {
        let k = 1 + r.below(3);
        let mut ops = vec![];
        for _ in 0..k {
            let o = match r.below(8) {
                0 | 1 => Op::Parse { q: r.below(s.queries.len()), how: r.below(4) as u8 },
                2 => op_de(&s, r),
                3 => op_show(&s, r, 100),
                _ => op_query(&s, r, 100),
            };
            let mut x = plain(o);
            if counts(&x.op, &s) && r.pct(35) {
                let kind = match r.below(4) {
                    0 => gen_panic(r),
                    1 => FaultKind::Yield { n: 1 + r.below(3) as u32 },
                    _ => FaultKind::Reenter { ops: (0..1 + r.below(2)).map(|_| plain(op_query(&s, r, 100))).collect() },
                };
                x.faults.push(Fault { at: at(r) % 3, kind });
            }
            ops.push(x);
        }
        s.threads.push(ops);
    }
    // What makes the reference process warm.
    s.warm = (0..s.queries.len()).map(|q| plain(Op::Query { q, own: true, doc: 0, fresh: false, located: false, mode: 0 })).collect();
    s
}

fn c03(r: &mut Rng) -> Scenario {
    let (nd, nq) = (1 + r.below(2), 1 + r.below(4));
    let (v, mut s) = base("C03", r, nd, nq, 85);
    if r.one_in(4) {
        s.queries.push(gen_spec(&v, r, 0));
    }
    if r.one_in(8) {
        s.queries.push(gen_broken(&v, r));
    }
    let own = *r.pick(&[0, 30, 100]);
    let storm = r.one_in(10);
    let n = if storm { 1 + r.below(2) } else { *r.pick(&[1, 1, 2, 2, 3, 4]) };
    for _ in 0..n {
        let mut ops = vec![];
        if storm {
            // The same thing goes wrong again and again.
            let mut x = plain(op_query(&s, r, own));
            for _ in 0..6 {
                if counts(&x.op, &s) {
                    break;
                }
                x = plain(op_query(&s, r, own));
            }
            if counts(&x.op, &s) {
                x.faults.push(Fault { at: r.below(3) as u32, kind: gen_unwind(&s, r, own) });
                let most = *r.pick(&[500, 500, 3000]);
                let k = 10 + r.log_uniform(most) as usize;
                ops = vec![x; k];
            }
        }
        for _ in 0..2 + r.below(4) {
            let mut x = plain(op_any(&s, r, own));
            if counts(&x.op, &s) && r.pct(60) {
                x.faults.push(Fault { at: at(r), kind: gen_unwind(&s, r, own) });
                if r.one_in(4) {
                    // Somebody inside calls the library, is struck there, and goes on or is struck, too.
                    let mut y = plain(op_query(&s, r, own));
                    y.faults.push(Fault { at: at(r), kind: gen_unwind(&s, r, own) });
                    x.faults.insert(0, Fault { at: at(r) % 3, kind: FaultKind::Reenter { ops: vec![y] } });
                }
                let again = x.op.clone();
                ops.push(x);
                if r.one_in(2) {
                    ops.push(plain(again));
                }
                continue;
            }
            ops.push(x);
        }
        s.threads.push(ops);
    }
    if r.one_in(2) {
        s.warm = vec![plain(op_query(&s, r, 100))];
    }
    s
}

fn nested(s: &Scenario, r: &mut Rng, own: usize, depth: usize) -> Vec<OpX> {
    (0..1 + r.below(3))
        .map(|_| {
            let mut x = plain(op_any(s, r, own));
            if depth > 0 && counts(&x.op, s) && r.pct(40) {
                x.faults.push(Fault { at: at(r) % 4, kind: FaultKind::Reenter { ops: nested(s, r, own, depth - 1) } });
            }
            if depth > 0 && matches!(x.op, Op::Show { .. }) && r.pct(30) {
                if let Op::Show { sink, .. } = &mut x.op {
                    sink.evs.push((r.below(10) as u32, SinkEv::Reenter(nested(s, r, own, depth - 1))));
                }
            }
            x
        })
        .collect()
}

fn c04(r: &mut Rng, thorough: bool) -> Scenario {
    let (nd, nq) = (1 + r.below(2), 1 + r.below(4));
    let (_, mut s) = base("C04", r, nd, nq, 85);
    let own = *r.pick(&[0, 30, 100]);
    let n = *r.pick(&[1, 1, 1, 2, 3]);
    for _ in 0..n {
        let mut ops = vec![];
        for _ in 0..1 + r.below(3) {
            let mut x = plain(op_query(&s, r, own));
            if r.one_in(5) {
                x = plain(op_show(&s, r, own));
                if let Op::Show { sink, .. } = &mut x.op {
                    sink.evs.push((r.below(20) as u32, SinkEv::Reenter(nested(&s, r, own, 2))));
                }
            }
            if counts(&x.op, &s) {
                for _ in 0..1 + r.below(2) {
                    let kind = if r.one_in(4) {
                        // Every level that matches a pattern holds some megabytes.
                        let lean = !s.queries.iter().any(|q| q.text.contains("match(") || q.text.contains("search("));
                        FaultKind::Recurse { depth: if lean && r.one_in(12) { *r.pick(&[350, 350, 600, 1200]) } else { r.log_uniform(if thorough { 150 } else { 60 }) as u32 } }
                    } else {
                        let mut ops = nested(&s, r, own, 2);
                        if let (Op::Query { q, own, doc, fresh, .. }, true) = (&x.op, r.pct(40)) {
                            // The very query that is going on, on another document.
                            let doc = (*doc + r.below(s.docs.len())) % s.docs.len();
                            ops.insert(0, plain(Op::Query { q: *q, own: *own, doc, fresh: *fresh, located: r.one_in(2), mode: r.below(8) as u8 }));
                        }
                        FaultKind::Reenter { ops }
                    };
                    x.faults.push(Fault { at: at(r), kind });
                }
            }
            ops.push(x);
        }
        s.threads.push(ops);
    }
    if r.one_in(2) {
        s.warm = vec![plain(op_query(&s, r, 100))];
    }
    s
}

fn c05(r: &mut Rng) -> Scenario {
    let (nd, nq) = (1 + r.below(2), 1 + r.below(4));
    let (_, mut s) = base("C05", r, nd, nq, 75);
    let own = *r.pick(&[10, 50, 100]);
    // Now and then a crowd, all of whom are stuck but one.
    let crowd = r.one_in(8);
    let most = if r.one_in(6) { 100 } else { 30 };
    let n = if crowd { 6 + r.below(most) } else { nthreads(r) };
    let stalled = if crowd { n } else { r.below(n) };
    if r.one_in(5) {
        each_its_own(&mut s, r, n - 1);
    }
    // All of them stuck in the same place.
    let mut same = plain(op_query(&s, r, own));
    for _ in 0..6 {
        if !counts(&same.op, &s) {
            same = plain(op_query(&s, r, own));
        }
    }
    same.faults.push(Fault { at: at(r) % 2, kind: FaultKind::Stall });
    let alike = crowd && r.one_in(2) && counts(&same.op, &s);
    for t in s.threads.len()..n {
        if alike {
            s.threads.push(vec![if t > 0 { same.clone() } else { plain(healthy(&same.op)) }]);
            continue;
        }
        let some = if crowd { r.below(2) } else { r.below(3) };
        let mut ops: Vec<OpX> = (0..1 + some).map(|_| plain(op_any(&s, r, own))).collect();
        if if crowd { t > 0 } else { t + 1 == n || (t <= stalled && r.one_in(2)) } {
            let k = r.below(ops.len());
            match r.below(6) {
                0 => {
                    let mut o = op_show(&s, r, own);
                    if let Op::Show { sink, .. } = &mut o {
                        sink.chunk = r.below(4) as u32;
                        sink.evs.push((place(r, 20), SinkEv::Stall));
                    }
                    ops.insert(k, plain(o));
                }
                1 => {
                    let mut o = op_de(&s, r);
                    if let Op::De { src, .. } = &mut o {
                        src.form = 0;
                        src.chunk = 1;
                        src.evs.push((place(r, 20), SrcEv::Stall));
                    }
                    ops.insert(k, plain(o));
                }
                _ => {
                    // A query that does reach a user function, if there is one.
                    let mut x = plain(op_query(&s, r, own));
                    for _ in 0..4 {
                        if counts(&x.op, &s) {
                            break;
                        }
                        x = plain(op_query(&s, r, own));
                    }
                    x.faults.push(Fault { at: at(r) % 4, kind: FaultKind::Stall });
                    if r.one_in(5) {
                        x.faults.push(Fault { at: at(r), kind: FaultKind::Sleep { ns: 1_000_000 } });
                    }
                    ops.insert(k, x);
                }
            }
        }
        s.threads.push(ops);
    }
    // How much work a call may take is a matter of its input.
    if !crowd && r.one_in(3) {
        let t = r.below(n);
        let k = r.below(s.threads[t].len() + 1);
        let most = *r.pick(&[12, 24, 48]);
        s.threads[t].insert(k, plain(Op::Grow { seed: r.below(1 << 30) as u64, most }));
    }
    if r.pct(30) {
        s.warm = vec![plain(op_query(&s, r, 100))];
    }
    s
}

fn c06(r: &mut Rng, thorough: bool) -> Scenario {
    use crate::mem::*;
    let mut s = Scenario { prop: "C06".into(), ..Scenario::default() };
    let fl = match r.below(3) {
        0 => F_ALL,
        1 => 1 << r.below(KINDS),
        _ => (1 << r.below(KINDS)) | (1 << r.below(KINDS)),
    };
    let th = *r.pick(&[0, 0, 1, 2, 3]);
    // With threads either many rounds, or as many threads as the simulator has until the end.
    let most = match th {
        0 => 0,
        _ if r.one_in(3) => 0,
        1 => 2048,
        _ => 1024,
    };
    let most = if most > 0 { most } else if thorough { 16384 } else { 8192 };
    s.p = vec![(r.u64() >> 1) as i64, fl, th, most];
    s
}

fn c07(r: &mut Rng) -> Scenario {
    let (nd, nq) = (1 + r.below(2), 1 + r.below(3));
    let (v, mut s) = base("C07", r, nd, nq, 25);
    if r.one_in(5) {
        s.queries.push(gen_broken(&v, r));
    }
    if r.one_in(30) {
        s.queries.push(long_spec(r));
    }
    let n = *r.pick(&[1, 1, 1, 2]);
    for _ in 0..n {
        let mut ops = vec![];
        for _ in 0..3 + r.below(8) {
            let mut o = op_show(&s, r, 30);
            let k = r.weighted(&[2, 6, 1]);
            script_sink(&s, r, &mut o, k);
            ops.push(plain(o));
        }
        s.threads.push(ops);
    }
    s
}

fn c08(r: &mut Rng) -> Scenario {
    let (nd, nq) = (1 + r.below(2), 1 + r.below(4));
    let (v, mut s) = base("C08", r, nd, nq, 25);
    if r.one_in(2) {
        s.queries.push(gen_broken(&v, r));
    }
    if r.one_in(6) {
        for _ in 0..2 + r.below(3) {
            let t = if r.one_in(2) { "$.a".to_string() } else { s.queries[0].text.clone() };
            s.queries.push(QSpec { text: decorated(&v, r, &t), ast: None });
        }
    }
    if r.one_in(30) {
        s.queries.push(long_spec(r));
    }
    let n = *r.pick(&[1, 1, 1, 2]);
    for _ in 0..n {
        let mut ops = vec![];
        for _ in 0..3 + r.below(8) {
            let mut o = op_de(&s, r);
            let hard = r.pct(75);
            script_src(&s, r, &mut o, hard);
            ops.push(plain(o));
        }
        s.threads.push(ops);
    }
    s
}

fn c11(r: &mut Rng) -> Scenario {
    let (nd, nq) = (1 + r.below(2), 2 + r.below(5));
    let up = *r.pick(&[0, 20, 50]);
    let (_, mut s) = base("C11", r, nd, nq, up);
    s.p = vec![(r.u64() >> 1) as i64];
    if r.one_in(60) {
        let k = match r.below(16) {
            0 => 65_530 + r.below(60) as u64,
            1..=5 => 4090 + r.below(20) as u64,
            6 | 7 => 5000 + r.below(4000) as u64,
            _ => 20 + r.log_uniform(1100),
        };
        let (d, q) = crate::themes::long_list(r, k);
        s.docs = vec![d];
        s.queries = crate::themes::specs(q);
    }
    let n = *r.pick(&[1, 1, 2, 3]);
    let own = *r.pick(&[0, 30, 100]);
    for _ in 0..n {
        let mut ops = vec![];
        for _ in 0..3 + r.below(10) {
            let q = r.below(s.queries.len());
            let doc = r.below(s.docs.len());
            let own = r.pct(own);
            let l = match r.weighted(&[8, 5, 2, 2, 5]) {
                0 => LiveOp::Query { q, own, doc, how: r.below(4) as u8 },
                1 => LiveOp::Edit { q, own, doc, via: r.below(4) as u8, edit: r.below(8) as u8, seed: r.u64() },
                2 => LiveOp::Note { q, own, doc, via: r.below(4) as u8 },
                3 => LiveOp::Use { doc, pick: r.below(64) as u32, edit: r.below(8) as u8, seed: r.u64() },
                _ => LiveOp::Mutate { doc, seed: r.u64() },
            };
            ops.push(plain(Op::Live(l)));
        }
        s.threads.push(ops);
    }
    if s.docs.iter().any(|d| d.as_array().is_some_and(|a| a.len() > 10_000)) {
        s.threads.truncate(1);
        s.threads[0].truncate(4);
    }
    s
}

fn c12(r: &mut Rng, thorough: bool) -> Scenario {
    let (nd, nq) = (1 + r.below(2), 1 + r.below(4));
    let (v, mut s) = base("C12", r, nd, nq, 40);
    if r.one_in(3) {
        s.queries.push(gen_broken(&v, r));
    }
    let n = *r.pick(&[1, 1, 2, 3]);
    let mut long = false;
    for t in 0..n {
        let mut ops = vec![];
        for _ in 0..1 + r.below(3) {
            if r.pct(70) {
                let mut kind = r.below(crate::bulk::KINDS as usize) as u8;
                let len = if t == 0 && n == 1 && !long && r.one_in(if thorough { 20 } else { 60 }) {
                    // Past every counter of sixteen bits.
                    long = true;
                    kind = *r.pick(&[0, 0, 1, 3, 4, 6, 7]);
                    66_000 + r.below(2000) as u64
                } else {
                    r.log_uniform(match kind {
                        8 => 60,
                        11 => 8,
                        _ => 1500,
                    })
                };
                ops.push(plain(Op::Bulk { kind, from: 0, to: len as u32, seed: r.below(1 << 20) as u64 }));
            }
            for _ in 0..1 + r.below(3) {
                let mut x = plain(op_any(&s, r, 50));
                if counts(&x.op, &s) && r.pct(50) {
                    let kind = match r.below(4) {
                        0 => gen_panic(r),
                        1 => FaultKind::Sleep { ns: r.log_uniform(10_000_000_000) },
                        _ => FaultKind::Clock { ns: r.range(-4_000_000_000_000, 4_000_000_000_000) },
                    };
                    x.faults.push(Fault { at: at(r), kind });
                }
                ops.push(x);
            }
        }
        s.threads.push(ops);
    }
    s
}

fn c13(r: &mut Rng) -> Scenario {
    let (nd, nq) = (1 + r.below(2), 1 + r.below(4));
    let (_, mut s) = base("C13", r, nd, nq, 20);
    for t in ["$..*", "$[*]", "$..[0, 0]", "$['a','a']", "$..['a', *]", "$[*, *]"] {
        if r.one_in(3) {
            s.queries.push(QSpec { text: t.into(), ast: mparse::parse(t).ok() });
        }
    }
    if r.one_in(3) {
        let (d, q) = crate::themes::twins(r);
        s.docs.insert(0, d);
        s.queries.truncate(2);
        s.queries.extend(crate::themes::specs(q));
        keep_cheap(&mut s);
    }
    let mut most = 4;
    if r.one_in(40) {
        let k = match r.below(8) {
            0 => 65_530 + r.below(60) as u64,
            1..=3 => 4090 + r.below(20) as u64,
            _ => 20 + r.log_uniform(1100),
        };
        let (d, q) = crate::themes::long_list(r, k);
        s.docs = vec![d];
        s.queries = crate::themes::specs(q);
        s.queries.truncate(4);
        most = 1;
    }
    let n = *r.pick(&[1, 1, 2]);
    for _ in 0..n {
        let ops = (0..1 + r.below(most))
            .map(|_| {
                plain(Op::Lists {
                    q: r.below(s.queries.len()),
                    doc: r.below(s.docs.len()),
                    plan: r.below(11) as u8,
                    helpers: 1 + r.below(3) as u8,
                    script: r.u64(),
                })
            })
            .collect();
        s.threads.push(ops);
    }
    s
}

fn c10(r: &mut Rng) -> Scenario {
    let (v, mut s) = base("C10", r, 1, 2, 30);
    if r.one_in(12) {
        let k = 20 + r.log_uniform(5000);
        let (d, q) = crate::themes::long_list(r, k);
        s.docs = vec![d];
        s.queries = crate::themes::specs(q);
        let k = r.below(s.queries.len());
        s.queries = vec![s.queries.swap_remove(k)];
        keep_cheap(&mut s);
    }
    if r.one_in(4) {
        s.queries[0] = gen_broken(&v, r);
    }
    let o = match r.below(8) {
        0 | 1 => Op::Parse { q: 0, how: r.below(4) as u8 },
        2 => {
            let mut o = op_show(&s, r, 50);
            if let Op::Show { q, .. } = &mut o {
                *q = 0;
            }
            o
        }
        3 => op_de(&s, r),
        4 => Op::Eq { a: 0, b: 0, own: true },
        _ => op_query(&s, r, 50),
    };
    s.threads = vec![vec![plain(o)]];
    if r.one_in(2) {
        s.warm = vec![plain(op_query(&s, r, 100))];
    }
    s
}

/// Explores one scenario of this property. A violation comes with the scenario and the schedule that
/// show it.
pub fn one(ctx: &mut Ctx, prop: &str, r: &mut Rng, thorough: bool, stop: &dyn Fn() -> bool) -> Option<(Scenario, Violation, Cfg)> {
    let s = match prop {
        "C01" => c01(r),
        "C02" => c02(r),
        "C03" => c03(r),
        "C04" => c04(r, thorough),
        "C05" => c05(r),
        "C06" => c06(r, thorough),
        "C07" => c07(r),
        "C08" => c08(r),
        "C09" => disk::scenario(r, thorough),
        "C10" => c10(r),
        "C11" => c11(r),
        "C12" => c12(r, thorough),
        "C13" => c13(r),
        #[cfg(feature = "trace")]
        "C14" => crate::spans::scenario(r),
        _ => harness_fail(&format!("no check for {prop}")),
    };
    if std::env::var("VERIF_SHOW").is_ok() {
        let q: Vec<&str> = s.queries.iter().map(|q| q.text.as_str()).collect();
        eprintln!("{} {q:?} {:?}", serde_json::to_string(&s.threads).unwrap(), s.docs.iter().map(|d| d.to_string().len()).collect::<Vec<_>>());
    }
    if ctx.t.samples.len() < 2 {
        ctx.t.samples.push(short(&serde_json::to_string(&s).unwrap(), 900));
    }
    match prop {
        "C06" => {
            let mut c = Cfg::serial();
            c.max_steps = u64::MAX >> 2;
            ctx.t.runs += 1;
            if s.p[2] > 1 {
                c.serial = false;
                c.seed = r.u64();
                c.mean_gap = 50 + r.log_uniform(20_000);
                c.cb = *r.pick(&[0, 32, 128]);
            }
            let d = ctx.child(|| crate::mem::run(&s, &c));
            ctx.distinct.insert(d.digest ^ d.event_digest ^ s.p[0] as u64);
            d.violation.map(|v| (s, v, c))
        }
        "C09" => {
            let mut c = Cfg::serial();
            c.serial = s.p[2] < 2;
            c.seed = r.u64();
            c.mean_gap = 100 + r.log_uniform(50_000);
            disk::run(ctx, &s, &c).map(|(v, _)| (s, v, c))
        }
        "C10" => oom::explore(ctx, &s, r, thorough, stop).map(|(v, c)| (s, v, c)),
        _ => {
            let k = match prop {
                "C01" | "C02" => 10,
                "C03" | "C04" | "C05" => 6,
                "C13" | "C14" => 5,
                "C12" => 3,
                _ if s.threads.len() == 1 => 0,
                _ => 3,
            };
            let long = s.threads.iter().flatten().any(|o| matches!(o.op, Op::Bulk { to, .. } if to > 60_000));
            let k = match s.threads.len() {
                1 if long => 0,
                1 if prop != "C13" => k.min(1),
                _ => k,
            };
            scenario(ctx, &s, r, if thorough { k * 2 } else { k }, stop).map(|(v, c, _)| (s, v, c))
        }
    }
}

pub fn special_again(ctx: &mut Ctx, s: &Scenario, c: &Cfg) -> Option<Option<(Violation, Done)>> {
    match s.prop.as_str() {
        "C06" => {
            let d = ctx.child(|| crate::mem::run(s, c));
            Some(d.violation.clone().map(|v| (v, d)))
        }
        "C09" => Some(disk::run(ctx, s, c)),
        "C10" => Some(oom::once(ctx, s, c)),
        _ => None,
    }
}

/// Can a schedule of this property be written down as a list of decisions?
pub fn replayable(prop: &str) -> bool {
    !matches!(prop, "C06" | "C09" | "C10")
}

/// A judgement of what a call returns when it is alone, where the property makes one.
pub fn judge_alone(s: &Scenario, o: &Op, out: &str) -> Option<Violation> {
    let v = |class: &str, msg: String| Some(Violation { class: class.into(), msg });
    if out.starts_with("unwound with") && matches!(s.prop.as_str(), "C03" | "C08") {
        return v("library-panic", format!("{}: {out}", short(&key(o), 600)));
    }
    match (s.prop.as_str(), o) {
        // A query that a warm process must accept.
        ("C02", Op::Parse { q, .. }) if s.queries[*q].ast.is_some() && !out.starts_with("ok ") => {
            v("refused", format!("{:?}: {out}", s.queries[*q].text))
        }
        ("C02", Op::Query { q, .. }) if s.queries[*q].ast.is_some() && out.starts_with("err") => {
            v("refused", format!("{:?}: {out}", s.queries[*q].text))
        }
        // What the delivered text stands for.
        ("C08", Op::ParseText { text }) => match mparse::parse(text) {
            Ok(m) => {
                if !out.starts_with("ok ") {
                    return v("refused", format!("{text:?}: {out}"));
                }
                for (i, (d, got)) in s.docs.iter().zip(out.rsplit(" | ").take(s.docs.len()).collect::<Vec<_>>().into_iter().rev()).enumerate() {
                    if let Ok(want) = eval::eval(&m, d) {
                        let w = format!("n={}{}", want.len(), want.iter().map(|l| format!(" {}", eval::loc_text(l))).collect::<String>());
                        let w = capped(w);
                        if w != got && !w.contains(" | ") {
                            return v("another-query", format!("{text:?} on document {i}: expected {}, got {}", short(&w, 500), short(got, 500)));
                        }
                    }
                }
                None
            }
            Err(mparse::No::Unsure) => None,
            Err(_) => {
                if out.starts_with("ok ") {
                    return v("accepted", format!("{text:?} is no query and gives {}", short(out, 500)));
                }
                None
            }
        },
        _ => None,
    }
}

// ---- smaller scenarios -------------------------------------------------------------------------

/// Stretches of so many elements that may be left out: each one alone, or larger ones of a long list.
fn cuts(n: usize) -> Vec<(usize, usize)> {
    if n <= 24 {
        return (0..n).map(|k| (k, k + 1)).collect();
    }
    let mut v = vec![];
    for part in [2, 4, 8] {
        let w = n.div_ceil(part);
        v.extend((0..n).step_by(w).map(|k| (k, (k + w).min(n))));
    }
    v.extend([(0, n / 50 + 1), (n - n / 50 - 1, n), (0, 1), (n - 1, n)]);
    v
}

/// Variants of the scenario with something left out, the biggest omissions first.
pub fn smaller(s: &Scenario) -> Vec<Scenario> {
    let mut v = vec![];
    match s.prop.as_str() {
        "C06" => {
            for b in 0..7 {
                if s.p[1] & (1 << b) != 0 && s.p[1] != 1 << b {
                    let mut t = s.clone();
                    t.p[1] = 1 << b;
                    v.push(t);
                }
            }
            if s.p[2] > 0 {
                let mut t = s.clone();
                t.p[2] = 0;
                v.push(t);
            }
            if s.p[3] > 512 {
                let mut t = s.clone();
                t.p[3] /= 2;
                v.push(t);
            }
            return v;
        }
        "C09" => {
            for (i, least) in [(1usize, 1i64), (2, 1), (3, 1)] {
                if s.p[i] > least {
                    for x in [least, s.p[i] - 1] {
                        let mut t = s.clone();
                        t.p[i] = x;
                        v.push(t);
                    }
                }
            }
            for i in 0..s.queries.len() {
                if s.queries.len() > 1 {
                    let mut t = s.clone();
                    t.queries.remove(i);
                    t.warm.remove(i);
                    v.push(t);
                }
            }
        }
        _ => {}
    }
    if s.threads.len() > 1 {
        for i in 0..s.threads.len() {
            let mut t = s.clone();
            t.threads.remove(i);
            v.push(t);
        }
    }
    if !s.warm.is_empty() && s.prop != "C02" && s.prop != "C09" {
        let mut t = s.clone();
        t.warm.clear();
        v.push(t);
    }
    for i in 0..s.threads.len() {
        let k = s.threads[i].len();
        if k > 12 {
            for (a, b) in [(0, k / 2), (k / 2, k), (0, k / 8), (0, k / 40 + 1), (k - k / 8, k)] {
                let mut t = s.clone();
                t.threads[i].drain(a..b);
                v.push(t);
            }
        } else if k > 1 {
            for j in 0..s.threads[i].len() {
                let mut t = s.clone();
                t.threads[i].remove(j);
                v.push(t);
            }
        }
    }
    for i in 0..s.threads.len() {
        for j in 0..s.threads[i].len() {
            for k in 0..s.threads[i][j].faults.len() {
                let mut t = s.clone();
                t.threads[i][j].faults.remove(k);
                v.push(t);
                match &s.threads[i][j].faults[k].kind {
                    FaultKind::Reenter { ops } if ops.len() > 1 => {
                        for m in 0..ops.len() {
                            let mut t = s.clone();
                            if let FaultKind::Reenter { ops } = &mut t.threads[i][j].faults[k].kind {
                                ops.remove(m);
                            }
                            v.push(t);
                        }
                    }
                    FaultKind::Recurse { depth } if *depth > 1 => {
                        let mut t = s.clone();
                        t.threads[i][j].faults[k].kind = FaultKind::Recurse { depth: depth / 2 };
                        v.push(t);
                    }
                    _ => {}
                }
            }
            match &s.threads[i][j].op {
                Op::Show { sink, .. } => {
                    for m in 0..sink.evs.len() {
                        let mut t = s.clone();
                        if let Op::Show { sink, .. } = &mut t.threads[i][j].op {
                            sink.evs.remove(m);
                        }
                        v.push(t);
                    }
                }
                Op::De { src, .. } => {
                    for m in 0..src.evs.len() {
                        let mut t = s.clone();
                        if let Op::De { src, .. } = &mut t.threads[i][j].op {
                            src.evs.remove(m);
                        }
                        v.push(t);
                    }
                }
                Op::Grow { most, .. } if *most > 6 => {
                    let mut t = s.clone();
                    if let Op::Grow { most, .. } = &mut t.threads[i][j].op {
                        *most /= 2;
                    }
                    v.push(t);
                }
                Op::Bulk { from, to, .. } if to - from > 1 => {
                    for x in [(to - from) / 2, (to - from) * 7 / 8, to - from - 1] {
                        let mut t = s.clone();
                        if let Op::Bulk { to, from, .. } = &mut t.threads[i][j].op {
                            *to = *from + x;
                        }
                        v.push(t);
                    }
                }
                _ => {}
            }
        }
    }
    // Simpler queries and documents.
    for i in 0..s.queries.len() {
        if let Some(a) = &s.queries[i].ast {
            for k in 0..a.segs.len() {
                let mut q = a.clone();
                q.segs.remove(k);
                let mut t = s.clone();
                t.queries[i] = QSpec { text: render(&q, &mut Style(None)), ast: Some(q) };
                v.push(t);
            }
            let canon = render(a, &mut Style(None));
            if canon != s.queries[i].text {
                let mut t = s.clone();
                t.queries[i].text = canon;
                v.push(t);
            }
        }
    }
    for i in 0..s.docs.len() {
        match &s.docs[i] {
            Value::Array(a) => {
                for (x, y) in cuts(a.len()) {
                    let mut b = a.clone();
                    b.drain(x..y);
                    let mut t = s.clone();
                    t.docs[i] = Value::Array(b);
                    v.push(t);
                }
            }
            Value::Object(o) => {
                for (x, y) in cuts(o.len()) {
                    let b = o.iter().enumerate().filter(|(k, _)| *k < x || *k >= y).map(|(_, (k, v))| (k.clone(), v.clone())).collect();
                    let mut t = s.clone();
                    t.docs[i] = Value::Object(b);
                    v.push(t);
                }
            }
            Value::Null => {}
            _ => {
                let mut t = s.clone();
                t.docs[i] = Value::Null;
                v.push(t);
            }
        }
    }
    if s.prop == "C09" {
        v.iter_mut().for_each(|t| {
            t.warm = t.queries.iter().map(|q| OpX::plain(Op::ParseText { text: q.text.clone() })).collect();
        });
    }
    v
}

// ---- evidence ----------------------------------------------------------------------------------

pub fn evidence(p: &Plan, all: &[Totals], wall: f64, violated: bool) {
    let sum = |f: &dyn Fn(&Totals) -> u64| all.iter().map(f).sum::<u64>();
    let mut stats = serde_json::Map::new();
    for (i, n) in STAT_NAMES.iter().enumerate() {
        let x = sum(&|t| t.stats[i]);
        if x > 0 {
            stats.insert(n.to_string(), x.into());
        }
    }
    let or = |f: &dyn Fn(&Totals) -> &Vec<u8>| {
        let n = all.iter().map(|t| f(t).len()).max().unwrap_or(0);
        (0..n).map(|i| all.iter().fold(0u8, |a, t| a | f(t).get(i).copied().unwrap_or(0)).count_ones() as u64).sum::<u64>()
    };
    let mut strategies = std::collections::BTreeMap::<String, u64>::new();
    for t in all {
        for (k, n) in &t.strategies {
            *strategies.entry(k.clone()).or_default() += n;
        }
    }
    let runs = sum(&|t| t.runs);
    let hours = (wall / 3600.0).max(1e-9);
    let rule = match p.prop.as_str() {
        "C06" => "one evaluation = one simulated process living through a history of fresh calls that doubles until its live memory settles; distinct = distinct (history, schedule) digests",
        "C09" => "one evaluation = one generation (process) of the service, run to its end or to a crash; distinct = distinct histories of generations by digest of their schedules, steps and outcomes",
        "C10" => "one evaluation = one simulated process in which the k-th allocation (and, when sticky, every later one) fails; distinct = distinct (call, k, mode) that did fail an allocation",
        _ => "one evaluation = one simulated process running the scenario under one seeded schedule and fault script; distinct = distinct digests of all scheduling decisions and their places, per scenario",
    };
    let samples: Vec<Value> = all
        .iter()
        .flat_map(|t| t.samples.iter())
        .take(3)
        .map(|x| serde_json::from_str(x).unwrap_or_else(|_| Value::String(x.clone())))
        .collect();
    let e = json!({
        "property": p.prop,
        "tier": if p.thorough { "thorough" } else { "quick" },
        "seed": p.seed,
        "level": if p.prop == "C10" { "fault_enumeration" } else { "exploration" },
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(&|t| t.distinct),
            "rule": rule,
            "samples": samples,
            "scenarios": sum(&|t| t.scenarios),
            "simulated_processes": sum(&|t| t.processes),
            "runs_per_hour": (runs as f64 / hours) as u64,
            "seeds_per_hour": (sum(&|t| t.scenarios) as f64 / hours) as u64,
            "simulated_steps": sum(&|t| t.steps),
            "simulated_seconds": all.iter().map(|t| t.sim_ns / 1_000_000_000).sum::<u64>(),
            "context_switches": sum(&|t| t.switches),
            "distinct_switch_places": or(&|t| &t.pairs),
            "library_edges_reached": or(&|t| &t.edges),
            "instrumented_edges": jprt::hooks::guard_count(),
            "executions_repeated_to_check_determinism": sum(&|t| t.det_checks),
            "scenarios_left_out_as_too_expensive": sum(&|t| t.too_expensive),
            "strategies": strategies,
            "events_and_faults": stats,
            "real_code": "serde_json_path, serde_json_path_core, serde_json_path_macros, nom, regex, once_cell, inventory, serde, serde_json, std",
            "simulated": "thread scheduling, futexes, clocks, random numbers, processor count, allocator, user functions, sinks, sources, disk"
        },
        "assumptions": [
            "threads interleave sequentially consistently at instrumented edges, loads and stores of serde_json_path and serde_json_path_core, at allocations, at futex calls and at entries into caller code; weak memory orderings inside std, regex and once_cell are not simulated",
            "seeded search: what was not generated was not examined"
        ],
        "wall_s": wall,
        "violations": violated as u64,
    });
    let f = format!("{}/evidence/{}.json", p.verif, p.prop);
    let _ = std::fs::create_dir_all(format!("{}/evidence", p.verif));
    if std::fs::write(&f, serde_json::to_vec_pretty(&e).unwrap()).is_err() {
        harness_fail("cannot write the evidence file");
    }
}
