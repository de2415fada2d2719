//! Defects of the library that were found and could not be repaired: /verif/known-findings.txt names
//! them, here is what each is exactly. A defect counts only while it is listed and while the library,
//! tried on the sample below in a process of its own, still shows it. Then the model answers with it, so
//! that everything else about the calls it affects stays judged; without it the model is RFC 9535's.

use crate::ast::{Expr, Operand, Query, Sel};
use serde_json::{json, Value};
use serde_json_path::JsonPath;
use std::sync::atomic::{AtomicU32, Ordering};

/// A singular query with a negative index that is compared or passed to a function selects nothing.
pub const NEGATIVE: u32 = 1;
/// Numbers inside compared arrays and objects are equal only if they are written alike.
pub const NESTED: u32 = 2;
/// >, <= and >= on what has no order, and on absent operands.
pub const ORDER: u32 = 4;
/// `..name` and `..*` are written with three dots.
pub const DOTS: u32 = 8;
/// Names and strings are written without their escapes.
pub const ESCAPE: u32 = 16;
/// `!f()` is written as `f()`.
pub const NEGATION: u32 = 32;

const LIST: [(&str, u32, fn() -> bool); 6] = [
    ("negative-index", NEGATIVE, || found("$[?@[-1] == 2]", json!([[1, 2]])) == 0),
    ("nested-numbers", NESTED, || found("$[?@.a == @.b]", json!([{"a": [1], "b": [1.0]}])) == 0),
    ("ordering", ORDER, || found("$[?@ > false]", json!([true])) == 1 && found("$[?@.a <= @.b]", json!([1])) == 0),
    ("descendant", DOTS, || shown("$..a", "$...a")),
    ("escape", ESCAPE, || shown(r#"$["it's"]"#, "$['it's']")),
    ("negation", NEGATION, || shown("$[?!match(@, 'a')]", "$[?match(@,'a')]")),
];

fn found(q: &str, d: Value) -> usize {
    JsonPath::parse(q).map_or(9, |p| p.query(&d).len())
}

fn shown(q: &str, t: &str) -> bool {
    JsonPath::parse(q).is_ok_and(|p| p.to_string() == t)
}

static ON: AtomicU32 = AtomicU32::new(0);

pub fn on(d: u32) -> bool {
    ON.load(Ordering::Relaxed) & d != 0
}

fn listed(verif: &str) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(format!("{verif}/known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let (p, r) = l.strip_prefix("known: property=")?.split_once(' ')?;
            let (k, r) = r.strip_prefix('[')?.split_once("] ")?;
            Some((p.into(), k.into(), r.into()))
        })
        .collect()
}

pub fn init(verif: &str) {
    let l = listed(verif);
    // In a process of its own: the ones that are explored start cold.
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        let mut m = 0;
        for (_, bit, f) in LIST {
            if f() {
                m |= bit;
            }
        }
        unsafe { libc::_exit(m as i32) };
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let m = if pid > 0 && libc::WIFEXITED(st) { libc::WEXITSTATUS(st) as u32 } else { 0 };
    let m: u32 = LIST.iter().filter(|x| m & x.1 != 0 && l.iter().any(|y| y.1 == x.0)).map(|x| x.1).sum();
    ON.store(m, Ordering::Relaxed);
}

pub fn report(verif: &str, prop: &str) {
    for (p, k, t) in listed(verif) {
        if p == prop && LIST.iter().any(|x| x.0 == k && on(x.1)) {
            println!("KNOWN-FINDING: property={p} {t}");
        }
    }
}

/// Whether writing the query out is known to go wrong.
pub fn unwritable(text: &str, ast: Option<&Query>) -> bool {
    let Some(a) = ast else { return on(DOTS | ESCAPE | NEGATION) };
    on(DOTS) && short_descendant(text) || on(ESCAPE) && query(a, &|s| s.chars().any(|c| c < ' ' || c == '\'' || c == '\\'), &|_| false)
        || on(NEGATION) && query(a, &|_| false, &|e| matches!(e, Expr::Not(x) if matches!(**x, Expr::Call(_))))
}

/// Two dots outside a string with something else than a bracket behind them.
fn short_descendant(t: &str) -> bool {
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            q @ (b'\'' | b'"') => {
                i += 1;
                while i < b.len() && b[i] != q {
                    i += 1 + (b[i] == b'\\') as usize;
                }
            }
            b'.' if b.get(i + 1) == Some(&b'.') && b.get(i + 2) != Some(&b'[') => return true,
            _ => {}
        }
        i += 1;
    }
    false
}

fn query(q: &Query, s: &dyn Fn(&str) -> bool, x: &dyn Fn(&Expr) -> bool) -> bool {
    q.segs.iter().flat_map(|g| &g.sels).any(|sel| match sel {
        Sel::Name(n) => s(n),
        Sel::Filter(e) => expr(e, s, x),
        _ => false,
    })
}

fn expr(e: &Expr, s: &dyn Fn(&str) -> bool, x: &dyn Fn(&Expr) -> bool) -> bool {
    x(e) || match e {
        Expr::Or(v) | Expr::And(v) => v.iter().any(|e| expr(e, s, x)),
        Expr::Not(e) | Expr::Paren(e) => expr(e, s, x),
        Expr::Exist(q) => query(q, s, x),
        Expr::Cmp(a, _, b) => operand(a, s, x) || operand(b, s, x),
        Expr::Call(c) => c.args.iter().any(|o| operand(o, s, x)),
    }
}

fn operand(o: &Operand, s: &dyn Fn(&str) -> bool, x: &dyn Fn(&Expr) -> bool) -> bool {
    match o {
        Operand::Lit(Value::String(t)) => s(t),
        Operand::Lit(_) => false,
        Operand::Query(q) => query(q, s, x),
        Operand::Call(c) => c.args.iter().any(|o| operand(o, s, x)),
    }
}
