//! The simulator's own view of a JSONPath query: syntax tree, text rendering, generators.
//! Nothing here calls the library.

use jprt::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Query {
    pub abs: bool,
    pub segs: Vec<Seg>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Seg {
    pub desc: bool,
    pub sels: Vec<Sel>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sel {
    Name(String),
    Wild,
    Index(i64),
    Slice(Option<i64>, Option<i64>, Option<i64>),
    Filter(Expr),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Expr {
    Or(Vec<Expr>),
    And(Vec<Expr>),
    Not(Box<Expr>),
    Paren(Box<Expr>),
    Exist(Query),
    Cmp(Operand, Cmp, Operand),
    Call(Call),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cmp {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Operand {
    Lit(Value),
    Query(Query),
    Call(Call),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Call {
    pub name: String,
    pub args: Vec<Operand>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    Value,
    Nodes,
    Logical,
}

/// The functions known to the simulated process: name, parameters, result.
pub const FUNCS: &[(&str, &[Ty], Ty)] = &[
    ("length", &[Ty::Value], Ty::Value),
    ("count", &[Ty::Nodes], Ty::Value),
    ("value", &[Ty::Nodes], Ty::Value),
    ("match", &[Ty::Value, Ty::Value], Ty::Logical),
    ("search", &[Ty::Value, Ty::Value], Ty::Logical),
    ("vid", &[Ty::Value], Ty::Value),
    ("first", &[Ty::Nodes], Ty::Value),
    ("size", &[Ty::Nodes], Ty::Value),
    ("is_str", &[Ty::Value], Ty::Logical),
    ("rest", &[Ty::Nodes], Ty::Nodes),
    ("pair", &[Ty::Value, Ty::Value], Ty::Value),
    ("always", &[], Ty::Logical),
    ("neg", &[Ty::Logical], Ty::Logical),
    ("lastv", &[Ty::Nodes], Ty::Value),
    ("plus", &[Ty::Value, Ty::Value], Ty::Value),
    ("any_of", &[Ty::Nodes, Ty::Value], Ty::Logical),
    ("both", &[Ty::Logical, Ty::Logical], Ty::Logical),
];

pub fn func(name: &str) -> Option<&'static (&'static str, &'static [Ty], Ty)> {
    FUNCS.iter().find(|f| f.0 == name)
}

impl Query {
    pub fn singular(&self) -> bool {
        self.segs.iter().all(|s| {
            !s.desc && s.sels.len() == 1 && matches!(s.sels[0], Sel::Name(_) | Sel::Index(_))
        })
    }
    pub fn calls_user_function(&self) -> bool {
        fn q(q: &Query) -> bool {
            q.segs.iter().any(|s| s.sels.iter().any(|s| matches!(s, Sel::Filter(x) if e(x))))
        }
        fn e(x: &Expr) -> bool {
            match x {
                Expr::Or(v) | Expr::And(v) => v.iter().any(e),
                Expr::Not(x) | Expr::Paren(x) => e(x),
                Expr::Exist(x) => q(x),
                Expr::Cmp(a, _, b) => o(a) || o(b),
                Expr::Call(x) => c(x),
            }
        }
        fn o(x: &Operand) -> bool {
            match x {
                Operand::Lit(_) => false,
                Operand::Query(x) => q(x),
                Operand::Call(x) => c(x),
            }
        }
        fn c(x: &Call) -> bool {
            FUNCS.iter().position(|f| f.0 == x.name).is_some_and(|i| i >= 5) || x.args.iter().any(o)
        }
        q(self)
    }
}

// ---- rendering -----------------------------------------------------------------------------

/// How a query is spelled: None is the plainest spelling.
pub struct Style<'a>(pub Option<&'a mut Rng>);

impl Style<'_> {
    fn sp(&mut self, o: &mut String) {
        if let Some(r) = &mut self.0 {
            if r.one_in(6) {
                for _ in 0..1 + r.below(2) {
                    o.push(*r.pick(&[' ', ' ', '\t', '\n', '\r']));
                }
            }
        }
    }
    fn coin(&mut self, n: usize) -> bool {
        match &mut self.0 {
            Some(r) => r.one_in(n),
            None => false,
        }
    }
    /// An operator and what is around it.
    fn around(&mut self, op: &str, o: &mut String) {
        let way = match &mut self.0 {
            Some(r) => r.below(4),
            None => 1,
        };
        for i in 0..3 {
            match (i, way) {
                (1, _) => o.push_str(op),
                (_, 0) => {}
                (_, 1) => o.push(' '),
                _ => self.sp(o),
            }
        }
    }
}

fn shorthand_ok(n: &str) -> bool {
    let mut it = n.chars();
    let first = |c: char| c.is_ascii_alphabetic() || c == '_' || c >= '\u{80}';
    match it.next() {
        Some(c) if first(c) => it.all(|c| first(c) || c.is_ascii_digit()),
        _ => false,
    }
}

pub fn render_string(s: &str, o: &mut String, st: &mut Style) {
    let q = if st.coin(2) { '"' } else { '\'' };
    o.push(q);
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            c if c == q => {
                o.push('\\');
                o.push(c)
            }
            '\u{8}' if !st.coin(3) => o.push_str("\\b"),
            '\t' if !st.coin(3) => o.push_str("\\t"),
            '\n' if !st.coin(3) => o.push_str("\\n"),
            '\u{c}' if !st.coin(3) => o.push_str("\\f"),
            '\r' if !st.coin(3) => o.push_str("\\r"),
            '/' if st.coin(3) => o.push_str("\\/"),
            c if (c as u32) < 0x20 || st.coin(25) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if st.coin(2) {
                        o.push_str(&format!("\\u{u:04X}"));
                    } else {
                        o.push_str(&format!("\\u{u:04x}"));
                    }
                }
            }
            c => o.push(c),
        }
    }
    o.push(q);
}

pub fn render(q: &Query, st: &mut Style) -> String {
    let mut o = String::new();
    render_query(q, &mut o, st);
    o
}

fn render_query(q: &Query, o: &mut String, st: &mut Style) {
    o.push(if q.abs { '$' } else { '@' });
    for s in &q.segs {
        st.sp(o);
        let short = s.sels.len() == 1 && !st.coin(3);
        match (&s.sels[0], short) {
            (Sel::Name(n), true) if shorthand_ok(n) => {
                o.push_str(if s.desc { ".." } else { "." });
                o.push_str(n);
            }
            (Sel::Wild, true) => o.push_str(if s.desc { "..*" } else { ".*" }),
            _ => {
                if s.desc {
                    o.push_str("..");
                }
                o.push('[');
                for (i, x) in s.sels.iter().enumerate() {
                    if i > 0 {
                        st.sp(o);
                        o.push(',');
                    }
                    st.sp(o);
                    render_sel(x, o, st);
                }
                st.sp(o);
                o.push(']');
            }
        }
    }
}

fn render_sel(s: &Sel, o: &mut String, st: &mut Style) {
    match s {
        Sel::Name(n) => render_string(n, o, st),
        Sel::Wild => o.push('*'),
        Sel::Index(i) => o.push_str(&i.to_string()),
        Sel::Slice(a, b, c) => {
            if let Some(a) = a {
                o.push_str(&a.to_string());
                st.sp(o);
            }
            o.push(':');
            st.sp(o);
            if let Some(b) = b {
                o.push_str(&b.to_string());
                st.sp(o);
            }
            if let Some(c) = c {
                o.push(':');
                st.sp(o);
                o.push_str(&c.to_string());
            } else if st.coin(4) {
                o.push(':');
            }
        }
        Sel::Filter(e) => {
            o.push('?');
            st.sp(o);
            render_expr(e, o, st);
        }
    }
}

fn render_list(v: &[Expr], op: &str, o: &mut String, st: &mut Style) {
    for (i, e) in v.iter().enumerate() {
        if i > 0 {
            st.around(op, o);
        }
        render_expr(e, o, st);
    }
}

fn render_expr(e: &Expr, o: &mut String, st: &mut Style) {
    match e {
        Expr::Or(v) => render_list(v, "||", o, st),
        Expr::And(v) => render_list(v, "&&", o, st),
        Expr::Not(e) => {
            o.push('!');
            st.sp(o);
            render_expr(e, o, st);
        }
        Expr::Paren(e) => {
            o.push('(');
            st.sp(o);
            render_expr(e, o, st);
            st.sp(o);
            o.push(')');
        }
        Expr::Exist(q) => render_query(q, o, st),
        Expr::Cmp(a, op, b) => {
            render_operand(a, o, st);
            let t = match op {
                Cmp::Eq => "==",
                Cmp::Ne => "!=",
                Cmp::Lt => "<",
                Cmp::Le => "<=",
                Cmp::Gt => ">",
                Cmp::Ge => ">=",
            };
            st.around(t, o);
            render_operand(b, o, st);
        }
        Expr::Call(c) => render_call(c, o, st),
    }
}

pub fn render_operand(a: &Operand, o: &mut String, st: &mut Style) {
    match a {
        Operand::Lit(Value::String(s)) => render_string(s, o, st),
        Operand::Lit(Value::Number(n)) if n.is_f64() => render_float(n.as_f64().unwrap(), o, st),
        Operand::Lit(v) => o.push_str(&v.to_string()),
        Operand::Query(q) => render_query(q, o, st),
        Operand::Call(c) => render_call(c, o, st),
    }
}

/// One of the ways to write a number that is not an integer, or is one by chance.
fn render_float(x: f64, o: &mut String, st: &mut Style) {
    let plain = Value::from(x).to_string();
    let way = match &mut st.0 {
        Some(r) if x != 0.0 => r.below(6),
        _ => 0,
    };
    match way {
        1 => o.push_str(&format!("{x:e}")),
        2 => o.push_str(&format!("{x:E}")),
        3 => o.push_str(&format!("{x:e}").replace("e", "e+").replace("+-", "-")),
        4 if !plain.contains('e') => {
            o.push_str(&plain);
            o.push_str("00");
        }
        5 => o.push_str(&format!("{x:E}").replace("E", "E+0").replace("+0-", "-00")),
        _ => o.push_str(&plain),
    }
}

fn render_call(c: &Call, o: &mut String, st: &mut Style) {
    o.push_str(&c.name);
    o.push('(');
    for (i, a) in c.args.iter().enumerate() {
        if i > 0 {
            st.sp(o);
            o.push(',');
        }
        st.sp(o);
        render_operand(a, o, st);
    }
    st.sp(o);
    o.push(')');
}

// ---- generators ----------------------------------------------------------------------------

/// What a run's documents and queries are made of (drawn per run: swarm testing).
#[derive(Clone, Debug)]
pub struct Vocab {
    pub names: Vec<String>,
    pub strings: Vec<String>,
    pub patterns: Vec<String>,
    pub doc_depth: usize,
    pub doc_width: usize,
    pub filter_pct: usize,
    pub desc_pct: usize,
    pub user_pct: usize,
    pub regex_pct: usize,
    pub style: bool,
}

const PLAIN: &[&str] = &["a", "b", "c", "d", "k", "n"];
const ODD: &[&str] = &[
    "x y", "", "'", "\"", "\\", "~", "/", "~1", "~0", "a/b", "a~b", "m~n/o", "é", "☺", "😀", "\n", "\t", "\u{8}",
    "\u{c}", "\r", "\u{1}", "\u{1f}", "\u{7f}", "\u{80}", "0", "1", "-1", "a.b", "$", "@", "*", "length", "it's", "\"q\"", "a\\b",
    "\\'", "'\"", "__", "_x9", "Ab", "ß", "日本", "\u{fffd}", "\u{d7ff}", "\u{e000}", "\u{10ffff}", "]", "['a']", "?", "a b c", " ",
    "\\n", "\u{0}", "\u{b}", "\u{2028}", "\u{2029}", "\u{feff}", "a\u{200b}b", "\u{a0}", "\u{85}", "e\u{301}", "\u{ad}", "\u{200d}", "ﬁ", "İ",
    "\u{202e}a", "\u{3000}", "Ａ", "\u{feff}a", "a\u{feff}", "\u{ffff}", "\u{1f468}\u{200d}\u{1f469}",
];
const STRS: &[&str] = &[
    "", "a", "b", "ab", "abc", "abcabc", "aXb", "x y", "1974-05-01", "é", "☺", "😀😀", "b\n", "\r\n", "a\nb", "'", "\\", "A", "Bob",
    "Rob", "Robert", "10", "0", "true", "null", "aaaa", "bbb", "cab", "abba", "\r", "\n", "a\rb", "b\r", "a\u{2028}b", "a\u{85}", "é😀a", "a😀", "e\u{301}",
];

/// What queries, stored forms and locations are made of, so that contents may look like them.
const TOKENS: &[&str] = &[
    " ", " ", "  ", "&&", "||", "!", "==", "!=", "<=", ">=", "<", ">", ",", ":", "..", "...", ".", "[", "]", "(", ")", "?", "@", "$", "*",
    "\u{feff}", "\u{200b}", "\u{a0}", "a", "b", "1", "-", "'", "\"", "\\", "null", "true", "1.0", "1e3", "-0", "/", "~", "'][", "é", "😀", "\\u0041", "{", "}",
];

/// Any character, those that are treated in a way of their own more often than others.
pub fn any_char(r: &mut Rng) -> char {
    let (from, to) = *r.pick(&[
        (0, 0x20), (0x20, 0x80), (0x20, 0x80), (0x80, 0x100), (0x100, 0x300), (0x300, 0x370), (0x370, 0x800), (0x800, 0xd800), (0x2000, 0x2070),
        (0xd700, 0xd800), (0xe000, 0xfe00), (0xfe00, 0xfe10), (0xff00, 0x10000), (0x10000, 0x110000), (0x1f000, 0x1fb00), (0xe0000, 0xe0200),
        (0x10ff00, 0x110000),
    ]);
    char::from_u32(from + r.below((to - from) as usize) as u32).unwrap_or('x')
}

pub fn gen_alike(r: &mut Rng) -> String {
    let t = if r.one_in(3) { r.pick(&[" && ", " || ", ", ", " == ", "..", " ", "'][", ": "]).to_string() } else { r.pick(TOKENS).to_string() };
    let mut s = if r.one_in(2) { r.pick(PLAIN).to_string() } else { String::new() };
    s.push_str(&t);
    for _ in 0..r.below(4) {
        s.push_str(r.pick(TOKENS));
    }
    if r.one_in(2) {
        s.push_str(r.pick(PLAIN));
    }
    s
}

impl Vocab {
    pub fn gen(r: &mut Rng) -> Vocab {
        let mut names: Vec<String> = Vec::new();
        for _ in 0..2 + r.below(4) {
            names.push(r.pick(PLAIN).to_string());
        }
        if r.pct(50) {
            for _ in 0..1 + r.below(4) {
                names.push(r.pick(ODD).to_string());
            }
        }
        if r.one_in(6) {
            let n = 1 + r.below(6);
            names.push((0..n).map(|_| any_char(r)).collect());
        }
        if r.one_in(4) {
            let s = gen_alike(r);
            names.push(s);
        }
        if r.one_in(4) {
            // Another of the same length.
            let mut s = r.pick(&names).clone();
            crate::live::rewrite(&mut s, r);
            names.push(s);
        }
        names.push("re".into());
        names.dedup();
        let mut strings: Vec<String> = (0..3 + r.below(6)).map(|_| r.pick(STRS).to_string()).collect();
        if r.pct(30) {
            strings.extend(names.iter().take(2).cloned());
        }
        if r.pct(30) {
            strings.push(r.pick(ODD).to_string());
        }
        if r.one_in(8) {
            let n = 1 + r.below(4);
            strings.push((0..n).map(|_| any_char(r)).collect());
        }
        if r.pct(25) {
            let s = gen_alike(r);
            strings.push(s);
        }
        for _ in 0..2 {
            let n = r.below(6);
            strings.push((0..n).map(|_| *r.pick(&['a', 'b', 'c', '1', 'X'])).collect());
        }
        let patterns = (0..2 + r.below(4)).map(|_| gen_pattern(r, 3)).collect();
        Vocab {
            names,
            strings,
            patterns,
            doc_depth: 1 + r.below(4),
            doc_width: 1 + r.below(5),
            filter_pct: *r.pick(&[15, 35, 60]),
            desc_pct: *r.pick(&[5, 20, 40]),
            user_pct: *r.pick(&[20, 50, 80]),
            regex_pct: *r.pick(&[5, 25, 60]),
            style: r.pct(60),
        }
    }
    pub fn name(&self, r: &mut Rng) -> String {
        if r.one_in(12) {
            if r.one_in(2) {
                r.pick(PLAIN).to_string()
            } else {
                r.pick(ODD).to_string()
            }
        } else {
            r.pick(&self.names).clone()
        }
    }
    pub fn string(&self, r: &mut Rng) -> String {
        r.pick(&self.strings).clone()
    }
}

/// An I-Regexp, in the part of the language where the model and RFC 9485 leave no doubt.
pub fn gen_pattern(r: &mut Rng, depth: usize) -> String {
    fn atom(r: &mut Rng, d: usize) -> String {
        match r.weighted(&[10, 4, 4, if d > 0 { 4 } else { 0 }, 1, 1]) {
            0 => r.pick(&["a", "b", "c", "1", "X", "ab", "B", "-"]).to_string(),
            1 => ".".into(),
            2 => r.pick(&["[abc]", "[a-c]", "[^a]", "[^b-c]", "[0-9]", "[a-zX]", "[BR]"]).to_string(),
            3 => format!("({})", alt(r, d - 1)),
            4 => r.pick(&["\\.", "\\*", "\\(", "\\\\", "\\n"]).to_string(),
            _ => r.pick(&["é", "☺", " "]).to_string(),
        }
    }
    fn piece(r: &mut Rng, d: usize) -> String {
        let a = atom(r, d);
        let q = r.pick(&["", "", "", "", "*", "+", "?", "{2}", "{1,2}", "{0,1}", "{2,}"]);
        if q.is_empty() || a.chars().count() == 1 || a.starts_with(['[', '(', '\\']) {
            format!("{a}{q}")
        } else {
            a
        }
    }
    fn seq(r: &mut Rng, d: usize) -> String {
        let n = r.below(4);
        (0..n).map(|_| piece(r, d)).collect()
    }
    fn alt(r: &mut Rng, d: usize) -> String {
        let mut s = seq(r, d);
        while r.one_in(4) {
            s.push('|');
            s.push_str(&seq(r, d));
        }
        s
    }
    alt(r, depth)
}

pub fn gen_scalar(v: &Vocab, r: &mut Rng) -> Value {
    match r.weighted(&[2, 2, 5, 2, 6]) {
        0 => Value::Null,
        1 => Value::Bool(r.one_in(2)),
        2 => match r.below(8) {
            0 => 0.into(),
            1 => (-1).into(),
            2 => 9_007_199_254_740_991i64.into(),
            3 => (r.below(200) as i64 - 100).into(),
            _ => (r.below(5) as i64).into(),
        },
        3 => {
            let f = *r.pick(&[0.0, -0.0, 1.0, 1.5, -2.5, 0.1, 2.0, 3.0, 1e10, 1e-7, 100.0]);
            serde_json::Number::from_f64(f).unwrap().into()
        }
        _ => Value::String(v.string(r)),
    }
}

pub fn gen_doc(v: &Vocab, r: &mut Rng) -> Value {
    let mut budget = 4 + r.below(40) as i64;
    if r.one_in(40) {
        // a long thin chain
        let mut d = gen_scalar(v, r);
        for _ in 0..10 + r.below(30) {
            d = if r.one_in(2) {
                Value::Array(vec![d])
            } else {
                let mut m = Map::new();
                m.insert(v.name(r), d);
                Value::Object(m)
            };
        }
        return d;
    }
    if r.one_in(40) {
        return gen_scalar(v, r);
    }
    gen_node(v, r, v.doc_depth, &mut budget, true)
}

fn gen_node(v: &Vocab, r: &mut Rng, depth: usize, budget: &mut i64, container: bool) -> Value {
    *budget -= 1;
    if depth == 0 || *budget < 0 || (!container && r.pct(45)) {
        return gen_scalar(v, r);
    }
    let n = r.below(v.doc_width + 2);
    if r.one_in(2) {
        let n = if r.one_in(12) { n + 4 + r.below(8) } else { n };
        Value::Array((0..n).map(|_| gen_node(v, r, depth - 1, budget, false)).collect())
    } else {
        let mut m = Map::new();
        for _ in 0..n {
            let k = v.name(r);
            let x = if k == "re" {
                Value::String(r.pick(&v.patterns).clone())
            } else {
                gen_node(v, r, depth - 1, budget, false)
            };
            m.insert(k, x);
        }
        Value::Object(m)
    }
}

pub fn gen_query(v: &Vocab, r: &mut Rng) -> Query {
    let n = r.weighted(&[1, 6, 8, 5, 2]);
    Query { abs: true, segs: (0..n).map(|_| gen_seg(v, r, 2)).collect() }
}

/// A query whose last segment filters by something that calls a user function.
pub fn gen_user_query(v: &Vocab, r: &mut Rng) -> Query {
    for _ in 0..50 {
        let mut q = gen_query(v, r);
        q.segs.truncate(2);
        if r.one_in(2) {
            q.segs.insert(0, Seg { desc: r.one_in(3), sels: vec![Sel::Wild] });
        }
        let mut v2 = v.clone();
        v2.user_pct = 100;
        let e = gen_expr(&v2, r, 2);
        q.segs.push(Seg { desc: r.pct(40), sels: vec![Sel::Filter(e)] });
        if q.calls_user_function() {
            return q;
        }
    }
    Query {
        abs: true,
        segs: vec![Seg {
            desc: true,
            sels: vec![Sel::Filter(Expr::Call(Call { name: "always".into(), args: vec![] }))],
        }],
    }
}

fn gen_index(r: &mut Rng) -> i64 {
    match r.below(12) {
        0 => *r.pick(&[100, -100, 9_007_199_254_740_991, -9_007_199_254_740_991]),
        1..=3 => -(1 + r.below(4) as i64),
        _ => r.below(5) as i64,
    }
}

pub fn gen_seg(v: &Vocab, r: &mut Rng, fdepth: usize) -> Seg {
    let desc = r.pct(v.desc_pct);
    let n = if r.pct(75) { 1 } else { 1 + r.below(3) };
    Seg { desc, sels: (0..n).map(|_| gen_sel(v, r, fdepth)).collect() }
}

fn gen_sel(v: &Vocab, r: &mut Rng, fdepth: usize) -> Sel {
    if fdepth > 0 && r.pct(v.filter_pct) {
        return Sel::Filter(gen_expr(v, r, fdepth));
    }
    match r.weighted(&[6, 4, 3, 3]) {
        0 => Sel::Name(v.name(r)),
        1 => Sel::Wild,
        2 => Sel::Index(gen_index(r)),
        _ => {
            let mut o = |r: &mut Rng, p: usize| if r.pct(p) { Some(gen_index(r)) } else { None };
            let a = o(r, 55);
            let b = o(r, 55);
            let c = match r.below(10) {
                0 => Some(0),
                1..=2 => Some(-1),
                3 => Some(-2),
                4 => Some(2),
                5 => o(r, 60),
                _ => None,
            };
            Sel::Slice(a, b, c)
        }
    }
}

pub fn gen_expr(v: &Vocab, r: &mut Rng, depth: usize) -> Expr {
    fn basic(v: &Vocab, r: &mut Rng, depth: usize) -> Expr {
        match r.weighted(&[4, 8, 6, if depth > 1 { 2 } else { 0 }]) {
            0 => {
                let e = Expr::Exist(gen_sub_query(v, r, depth, false));
                if r.one_in(4) {
                    Expr::Not(Box::new(e))
                } else {
                    e
                }
            }
            1 => {
                let op = *r.pick(&[Cmp::Eq, Cmp::Eq, Cmp::Ne, Cmp::Lt, Cmp::Le, Cmp::Gt, Cmp::Ge]);
                Expr::Cmp(gen_value_arg(v, r, depth), op, gen_value_arg(v, r, depth))
            }
            2 => {
                let e = Expr::Call(gen_call(v, r, depth, &[Ty::Logical, Ty::Nodes]));
                if r.one_in(4) {
                    Expr::Not(Box::new(e))
                } else {
                    e
                }
            }
            _ => {
                let e = Expr::Paren(Box::new(gen_expr(v, r, depth - 1)));
                if r.one_in(2) {
                    Expr::Not(Box::new(e))
                } else {
                    e
                }
            }
        }
    }
    fn and(v: &Vocab, r: &mut Rng, depth: usize) -> Expr {
        let n = r.weighted(&[0, 12, 3, 1]);
        let mut l: Vec<Expr> = (0..n).map(|_| basic(v, r, depth)).collect();
        if l.len() == 1 {
            l.pop().unwrap()
        } else {
            Expr::And(l)
        }
    }
    let n = r.weighted(&[0, 12, 3, 1]);
    let mut l: Vec<Expr> = (0..n).map(|_| and(v, r, depth)).collect();
    if l.len() == 1 {
        l.pop().unwrap()
    } else {
        Expr::Or(l)
    }
}

fn gen_sub_query(v: &Vocab, r: &mut Rng, depth: usize, singular: bool) -> Query {
    let abs = r.one_in(5);
    let n = r.weighted(&[3, 8, 3]);
    let segs = (0..n)
        .map(|_| {
            if singular {
                Seg {
                    desc: false,
                    sels: vec![if r.pct(75) { Sel::Name(v.name(r)) } else { Sel::Index(gen_index(r)) }],
                }
            } else {
                gen_seg(v, r, depth.saturating_sub(1).min(1))
            }
        })
        .collect();
    Query { abs, segs }
}

fn gen_lit(v: &Vocab, r: &mut Rng) -> Operand {
    let mut x = gen_scalar(v, r);
    if x.is_number() && r.one_in(8) {
        x = (*r.pick(&[10.0, 1e21, -1e15, 2.5e-3, 1e-7, 0.5, 1.0, 3.0, 123456.75])).into();
    }
    if x.as_f64().is_some_and(|f| f == 0.0 && f.is_sign_negative()) {
        x = 1.into();
    }
    Operand::Lit(x)
}

fn gen_value_arg(v: &Vocab, r: &mut Rng, depth: usize) -> Operand {
    match r.weighted(&[4, 7, if depth > 0 { 4 } else { 0 }]) {
        0 => gen_lit(v, r),
        1 => Operand::Query(gen_sub_query(v, r, depth, true)),
        _ => Operand::Call(gen_call(v, r, depth - 1, &[Ty::Value])),
    }
}

fn gen_call(v: &Vocab, r: &mut Rng, depth: usize, result: &[Ty]) -> Call {
    if result.contains(&Ty::Logical) && r.pct(v.regex_pct) {
        let a = if r.pct(85) {
            Operand::Query(gen_sub_query(v, r, 0, true))
        } else {
            gen_value_arg(v, r, depth)
        };
        let p = if r.pct(80) {
            Operand::Lit(Value::String(if r.pct(80) { r.pick(&v.patterns).clone() } else { gen_pattern(r, 2) }))
        } else {
            Operand::Query(Query {
                abs: r.one_in(2),
                segs: vec![Seg { desc: false, sels: vec![Sel::Name("re".into())] }],
            })
        };
        return Call { name: if r.one_in(2) { "match" } else { "search" }.into(), args: vec![a, p] };
    }
    let user = r.pct(v.user_pct);
    let c: Vec<_> = FUNCS
        .iter()
        .enumerate()
        .filter(|(i, f)| result.contains(&f.2) && (*i >= 5) == user && !(f.0 == "match" || f.0 == "search"))
        .map(|(_, f)| f)
        .collect();
    let c = if c.is_empty() {
        FUNCS.iter().filter(|f| result.contains(&f.2) && f.0 != "match" && f.0 != "search").collect()
    } else {
        c
    };
    let f = *r.pick(&c);
    let args = f
        .1
        .iter()
        .map(|t| match t {
            Ty::Value => gen_value_arg(v, r, depth),
            Ty::Nodes => {
                if depth > 0 && r.one_in(6) {
                    Operand::Call(gen_call(v, r, depth - 1, &[Ty::Nodes]))
                } else {
                    let s = r.one_in(4);
                    Operand::Query(gen_sub_query(v, r, depth, s))
                }
            }
            Ty::Logical => {
                if depth > 0 && r.one_in(2) {
                    Operand::Call(gen_call(v, r, depth - 1, &[Ty::Logical, Ty::Nodes]))
                } else {
                    let s = r.one_in(2);
                    Operand::Query(gen_sub_query(v, r, depth, s))
                }
            }
        })
        .collect();
    Call { name: f.0.into(), args }
}

/// A text that is a query, or was one before something happened to it.
pub fn mutate_text(t: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..1 + r.below(2) {
        let n = c.len();
        match r.below(7) {
            0 if n > 0 => {
                c.remove(r.below(n));
            }
            1 => {
                let x = *r.pick(&['$', '.', '[', ']', '\'', '"', '\\', '?', '@', '(', ')', ',', ':', '*', ' ', '0', '-', 'a', 'u', '!', '=', '<', '&', '|', '\n', 'é', '\u{1}']);
                c.insert(r.below(n + 1), x);
            }
            2 if n > 0 => c.truncate(r.below(n)),
            3 if n > 1 => {
                let i = r.below(n - 1);
                c.swap(i, i + 1);
            }
            4 if n > 0 => {
                let i = r.below(n);
                c[i] = *r.pick(&['$', '.', '[', ']', '\'', '"', '\\', '?', '@', '(', ')', ',', ':', '*', ' ', '1', '-', 'b', 'D', 'd', 'E', '!', '=', '>']);
            }
            5 if n > 0 => {
                let i = r.below(n);
                let j = (i + 1 + r.below(4)).min(n);
                let x: Vec<char> = c[i..j].to_vec();
                for (k, ch) in x.into_iter().enumerate() {
                    c.insert(j + k, ch);
                }
            }
            _ => {
                c.splice(0..0, r.pick(&[" ", "$", "\u{feff}", ""]).chars());
            }
        }
    }
    c.into_iter().collect()
}
