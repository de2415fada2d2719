//! The reference model: RFC 9535 evaluation of the simulator's own syntax tree over a JSON value.
//! Nothing here calls the library.

use crate::ast::*;
use crate::known;
use crate::regex_model as rx;
use serde_json::Value;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Elem {
    Name(String),
    Idx(usize),
}

pub type Loc = Vec<Elem>;

/// Why the model has no opinion.
#[derive(Debug)]
pub struct Unknown;
type R<T> = Result<T, Unknown>;

/// A location as RFC 9535 normalized-path text.
pub fn loc_text(l: &[Elem]) -> String {
    let mut o = String::from("$");
    for e in l {
        match e {
            Elem::Idx(i) => {
                o.push('[');
                o.push_str(&i.to_string());
                o.push(']');
            }
            Elem::Name(n) => {
                o.push_str("['");
                for c in n.chars() {
                    match c {
                        '\u{8}' => o.push_str("\\b"),
                        '\t' => o.push_str("\\t"),
                        '\n' => o.push_str("\\n"),
                        '\u{c}' => o.push_str("\\f"),
                        '\r' => o.push_str("\\r"),
                        '\'' => o.push_str("\\'"),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push_str("']");
            }
        }
    }
    o
}

/// A location as an RFC 6901 JSON pointer.
pub fn loc_pointer(l: &[Elem]) -> String {
    let mut o = String::new();
    for e in l {
        o.push('/');
        match e {
            Elem::Idx(i) => o.push_str(&i.to_string()),
            Elem::Name(n) => {
                for c in n.chars() {
                    match c {
                        '~' => o.push_str("~0"),
                        '/' => o.push_str("~1"),
                        c => o.push(c),
                    }
                }
            }
        }
    }
    o
}

/// The value at a location, found without the library and without JSON pointers.
pub fn at<'a>(v: &'a Value, l: &[Elem]) -> Option<&'a Value> {
    let mut v = v;
    for e in l {
        v = match (e, v) {
            (Elem::Name(n), Value::Object(m)) => m.get(n)?,
            (Elem::Idx(i), Value::Array(a)) => a.get(*i)?,
            _ => return None,
        };
    }
    Some(v)
}

pub fn at_mut<'a>(v: &'a mut Value, l: &[Elem]) -> Option<&'a mut Value> {
    let mut v = v;
    for e in l {
        v = match (e, v) {
            (Elem::Name(n), Value::Object(m)) => m.get_mut(n)?,
            (Elem::Idx(i), Value::Array(a)) => a.get_mut(*i)?,
            _ => return None,
        };
    }
    Some(v)
}

/// Every value of the document with its location, in document order.
pub fn walk<'a>(v: &'a Value, f: &mut impl FnMut(&Loc, &'a Value)) {
    fn go<'a>(v: &'a Value, l: &mut Loc, f: &mut impl FnMut(&Loc, &'a Value)) {
        f(l, v);
        match v {
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    l.push(Elem::Idx(i));
                    go(x, l, f);
                    l.pop();
                }
            }
            Value::Object(m) => {
                for (k, x) in m {
                    l.push(Elem::Name(k.clone()));
                    go(x, l, f);
                    l.pop();
                }
            }
            _ => {}
        }
    }
    go(v, &mut Vec::new(), f)
}

type Node<'a> = (Loc, &'a Value);

struct Ev<'a> {
    root: &'a Value,
    fuel: u64,
    /// Work that is not counted in nodes, like compiling patterns.
    extra: u64,
}

/// What it takes to evaluate the query, roughly in visited nodes.
pub fn cost(q: &Query, root: &Value) -> u64 {
    let mut e = Ev { root, fuel: FUEL, extra: 0 };
    match e.query(q, root, true) {
        Ok(_) => FUEL - e.fuel + e.extra,
        Err(_) => u64::MAX,
    }
}

const FUEL: u64 = 3_000_000;

/// What the query selects, as locations in order.
pub fn eval(q: &Query, root: &Value) -> R<Vec<Loc>> {
    let mut e = Ev { root, fuel: FUEL, extra: 0 };
    Ok(e.query(q, root, true)?.into_iter().map(|n| n.0).collect())
}

#[derive(Clone, Debug)]
enum V {
    Nothing,
    V(Value),
}

enum Arg<'a> {
    V(V),
    N(Vec<Node<'a>>),
    L(bool),
}

impl<'a> Ev<'a> {
    fn burn(&mut self, n: u64) -> R<()> {
        if self.fuel < n {
            return Err(Unknown);
        }
        self.fuel -= n;
        Ok(())
    }

    /// `locs`: whether anybody will look at the locations.
    fn query(&mut self, q: &Query, cur: &'a Value, locs: bool) -> R<Vec<Node<'a>>> {
        let start = if q.abs { self.root } else { cur };
        let mut nodes: Vec<Node<'a>> = vec![(vec![], start)];
        for s in &q.segs {
            let mut out = Vec::new();
            for (l, v) in nodes {
                if s.desc {
                    self.descend(s, l, v, locs, &mut out)?;
                } else {
                    self.sels(s, &l, v, locs, &mut out)?;
                }
            }
            nodes = out;
        }
        Ok(nodes)
    }

    fn descend(&mut self, s: &Seg, l: Loc, v: &'a Value, locs: bool, out: &mut Vec<Node<'a>>) -> R<()> {
        self.sels(s, &l, v, locs, out)?;
        match v {
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    self.descend(s, ext(&l, locs, || Elem::Idx(i)), x, locs, out)?;
                }
            }
            Value::Object(m) => {
                for (k, x) in m {
                    self.descend(s, ext(&l, locs, || Elem::Name(k.clone())), x, locs, out)?;
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn sels(&mut self, s: &Seg, l: &Loc, v: &'a Value, locs: bool, out: &mut Vec<Node<'a>>) -> R<()> {
        self.burn(1 + out.len() as u64 / 64)?;
        for sel in &s.sels {
            let before = out.len();
            match sel {
                Sel::Name(n) => {
                    if let Value::Object(m) = v {
                        if let Some(x) = m.get(n) {
                            out.push((ext(l, locs, || Elem::Name(n.clone())), x));
                        }
                    }
                }
                Sel::Wild => self.each(l, v, locs, out, |_, _| Ok(true))?,
                Sel::Filter(e) => self.each(l, v, locs, out, |ev, x| ev.expr(e, x))?,
                Sel::Index(i) => {
                    if let Value::Array(a) = v {
                        let n = a.len() as i64;
                        let k = if *i < 0 { n + *i } else { *i };
                        if k >= 0 && k < n {
                            out.push((ext(l, locs, || Elem::Idx(k as usize)), &a[k as usize]));
                        }
                    }
                }
                Sel::Slice(st, en, step) => {
                    if let Value::Array(a) = v {
                        let n = a.len() as i128;
                        let step = step.unwrap_or(1) as i128;
                        if step == 0 {
                            continue;
                        }
                        let (ds, de) = if step > 0 { (0, n) } else { (n - 1, -n - 1) };
                        let st = st.map_or(ds, |x| x as i128);
                        let en = en.map_or(de, |x| x as i128);
                        let norm = |x: i128| if x >= 0 { x } else { n + x };
                        let (ns, ne) = (norm(st), norm(en));
                        let (lower, upper) = if step > 0 {
                            (ns.clamp(0, n), ne.clamp(0, n))
                        } else {
                            (ne.clamp(-1, n - 1), ns.clamp(-1, n - 1))
                        };
                        let mut push = |i: i128| {
                            out.push((ext(l, locs, || Elem::Idx(i as usize)), &a[i as usize]));
                        };
                        if step > 0 {
                            let mut i = lower;
                            while i < upper {
                                push(i);
                                i += step;
                            }
                        } else {
                            let mut i = upper;
                            while lower < i {
                                push(i);
                                i += step;
                            }
                        }
                    }
                }
            }
            self.burn((out.len() - before) as u64 / 4)?;
        }
        Ok(())
    }

    fn each(
        &mut self,
        l: &Loc,
        v: &'a Value,
        locs: bool,
        out: &mut Vec<Node<'a>>,
        mut keep: impl FnMut(&mut Self, &'a Value) -> R<bool>,
    ) -> R<()> {
        match v {
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    if keep(self, x)? {
                        out.push((ext(l, locs, || Elem::Idx(i)), x));
                    }
                }
            }
            Value::Object(m) => {
                for (k, x) in m {
                    if keep(self, x)? {
                        out.push((ext(l, locs, || Elem::Name(k.clone())), x));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn expr(&mut self, e: &Expr, cur: &'a Value) -> R<bool> {
        self.burn(1)?;
        Ok(match e {
            Expr::Or(v) => {
                let mut r = false;
                for x in v {
                    // Every operand is looked at, so that an Unknown one is never overlooked; the
                    // operands have no effects.
                    r |= self.expr(x, cur)?;
                }
                r
            }
            Expr::And(v) => {
                let mut r = true;
                for x in v {
                    r &= self.expr(x, cur)?;
                }
                r
            }
            Expr::Not(x) => !self.expr(x, cur)?,
            Expr::Paren(x) => self.expr(x, cur)?,
            Expr::Exist(q) => !self.query(q, cur, false)?.is_empty(),
            Expr::Cmp(a, op, b) => {
                let a = self.value(a, cur)?;
                let b = self.value(b, cur)?;
                match op {
                    Cmp::Eq => eq(&a, &b),
                    Cmp::Ne => !eq(&a, &b),
                    Cmp::Lt => lt(&a, &b),
                    // What has no order: greater than what it does not equal, if it is of the same type.
                    Cmp::Gt if known::on(known::ORDER) => same_type(&a, &b) && !lt(&a, &b) && !eq(&a, &b),
                    Cmp::Ge if known::on(known::ORDER) => same_type(&a, &b) && !lt(&a, &b),
                    Cmp::Le if known::on(known::ORDER) => same_type(&a, &b) && (lt(&a, &b) || eq(&a, &b)),
                    Cmp::Le => lt(&a, &b) || eq(&a, &b),
                    Cmp::Gt => lt(&b, &a),
                    Cmp::Ge => lt(&b, &a) || eq(&a, &b),
                }
            }
            Expr::Call(c) => match self.call(c, cur)? {
                Arg::L(b) => b,
                Arg::N(n) => !n.is_empty(),
                Arg::V(_) => return Err(Unknown),
            },
        })
    }

    fn value(&mut self, o: &Operand, cur: &'a Value) -> R<V> {
        Ok(match o {
            Operand::Lit(v) => V::V(v.clone()),
            Operand::Query(q) if negative(q) => V::Nothing,
            Operand::Query(q) => match self.query(q, cur, false)?.first() {
                Some(n) => V::V(n.1.clone()),
                None => V::Nothing,
            },
            Operand::Call(c) => match self.call(c, cur)? {
                Arg::V(v) => v,
                _ => return Err(Unknown),
            },
        })
    }

    fn arg(&mut self, t: Ty, o: &Operand, cur: &'a Value) -> R<Arg<'a>> {
        Ok(match t {
            Ty::Value => Arg::V(self.value(o, cur)?),
            Ty::Nodes => match o {
                Operand::Query(q) if negative(q) => Arg::N(vec![]),
                Operand::Query(q) => Arg::N(self.query(q, cur, false)?),
                Operand::Call(c) => match self.call(c, cur)? {
                    Arg::N(n) => Arg::N(n),
                    _ => return Err(Unknown),
                },
                Operand::Lit(_) => return Err(Unknown),
            },
            Ty::Logical => match o {
                Operand::Query(q) if negative(q) => Arg::L(false),
                Operand::Query(q) => Arg::L(!self.query(q, cur, false)?.is_empty()),
                Operand::Call(c) => match self.call(c, cur)? {
                    Arg::N(n) => Arg::L(!n.is_empty()),
                    Arg::L(b) => Arg::L(b),
                    _ => return Err(Unknown),
                },
                Operand::Lit(_) => return Err(Unknown),
            },
        })
    }

    fn call(&mut self, c: &Call, cur: &'a Value) -> R<Arg<'a>> {
        self.burn(1)?;
        let f = func(&c.name).ok_or(Unknown)?;
        if f.1.len() != c.args.len() {
            return Err(Unknown);
        }
        let mut args = Vec::new();
        for (t, o) in f.1.iter().zip(&c.args) {
            args.push(self.arg(*t, o, cur)?);
        }
        let mut it = args.into_iter();
        let mut val = || match it.next() {
            Some(Arg::V(v)) => v,
            _ => V::Nothing,
        };
        Ok(match f.0 {
            "length" => Arg::V(match val() {
                V::V(Value::String(s)) => V::V(s.chars().count().into()),
                V::V(Value::Array(a)) => V::V(a.len().into()),
                V::V(Value::Object(m)) => V::V(m.len().into()),
                _ => V::Nothing,
            }),
            "match" | "search" => {
                let (s, p) = (val(), val());
                match (s, p) {
                    (V::V(Value::String(s)), V::V(Value::String(p))) => {
                        self.extra += 2_000;
                        let re = rx::compile(&p).ok_or(Unknown)?;
                        self.burn(s.len() as u64 * 8)?;
                        Arg::L(rx::matches(&re, &s, f.0 == "match"))
                    }
                    _ => Arg::L(false),
                }
            }
            "vid" => Arg::V(val()),
            "is_str" => Arg::L(matches!(val(), V::V(Value::String(_)))),
            "pair" => match (val(), val()) {
                (V::V(a), V::V(b)) => Arg::V(V::V(Value::Array(vec![a, b]))),
                _ => Arg::V(V::Nothing),
            },
            "plus" => {
                let i = |v: V| match v {
                    V::V(v) => v.as_i64(),
                    V::Nothing => None,
                };
                match (i(val()), i(val())) {
                    (Some(a), Some(b)) => Arg::V(V::V(a.wrapping_add(b).into())),
                    _ => Arg::V(V::Nothing),
                }
            }
            "always" => Arg::L(true),
            "neg" | "both" => {
                let l: Vec<bool> = it.map(|a| matches!(a, Arg::L(true))).collect();
                Arg::L(if f.0 == "neg" { !l[0] } else { l[0] && l[1] })
            }
            "any_of" => {
                let n = match it.next() {
                    Some(Arg::N(n)) => n,
                    _ => return Err(Unknown),
                };
                match it.next() {
                    Some(Arg::V(V::V(v))) => Arg::L(n.iter().any(|x| *x.1 == v)),
                    _ => Arg::L(false),
                }
            }
            name => {
                let n = match it.next() {
                    Some(Arg::N(n)) => n,
                    _ => return Err(Unknown),
                };
                let one = |x: Option<&Node>| Arg::V(x.map_or(V::Nothing, |x| V::V(x.1.clone())));
                match name {
                    "count" | "size" => Arg::V(V::V(n.len().into())),
                    "value" => one(if n.len() == 1 { n.first() } else { None }),
                    "first" => one(n.first()),
                    "lastv" => one(n.last()),
                    "rest" => Arg::N(n.into_iter().skip(1).collect()),
                    _ => return Err(Unknown),
                }
            }
        })
    }
}

fn ext(l: &Loc, locs: bool, e: impl FnOnce() -> Elem) -> Loc {
    if !locs {
        return Vec::new();
    }
    let mut n = Vec::with_capacity(l.len() + 1);
    n.extend_from_slice(l);
    n.push(e());
    n
}

fn eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Nothing, V::Nothing) => true,
        (V::V(a), V::V(b)) => veq(a, b),
        _ => false,
    }
}

fn veq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(a), Value::Number(b)) => a.as_f64() == b.as_f64(),
        (Value::Array(_), Value::Array(_)) | (Value::Object(_), Value::Object(_)) if known::on(known::NESTED) => a == b,
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| veq(a, b)),
        (Value::Object(a), Value::Object(b)) => {
            a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| veq(v, w)))
        }
        (a, b) => a == b,
    }
}

/// A singular query with a negative index, while the library makes nothing of those.
fn negative(q: &Query) -> bool {
    known::on(known::NEGATIVE) && q.singular() && q.segs.iter().any(|s| matches!(s.sels[..], [Sel::Index(i)] if i < 0))
}

fn same_type(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::V(a), V::V(b)) => std::mem::discriminant(a) == std::mem::discriminant(b),
        _ => false,
    }
}

fn lt(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::V(Value::Number(a)), V::V(Value::Number(b))) => match (a.as_f64(), b.as_f64()) {
            (Some(a), Some(b)) => a < b,
            _ => false,
        },
        (V::V(Value::String(a)), V::V(Value::String(b))) => a.chars().lt(b.chars()),
        _ => false,
    }
}
