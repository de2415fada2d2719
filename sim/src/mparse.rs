//! The reference model's parser: RFC 9535 text to the simulator's syntax tree, with the type rules for
//! the registered functions. Nothing here calls the library.

use crate::ast::*;
use serde_json::Value;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum No {
    /// Not a query.
    Bad,
    /// A query, or not: the model does not say.
    Unsure,
}
type R<T> = Result<T, No>;

struct P {
    c: Vec<char>,
    i: usize,
    depth: usize,
}

pub fn parse(t: &str) -> R<Query> {
    let mut p = P { c: t.chars().collect(), i: 0, depth: 0 };
    if p.peek() != Some('$') {
        return Err(No::Bad);
    }
    let q = p.query()?;
    if p.i != p.c.len() {
        return Err(No::Bad);
    }
    Ok(q)
}

const MAX: i64 = 9_007_199_254_740_991;

impl P {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn at(&self, k: usize) -> Option<char> {
        self.c.get(self.i + k).copied()
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(No::Bad)
        }
    }
    fn lit(&mut self, s: &str) -> bool {
        let w: Vec<char> = s.chars().collect();
        if self.c[self.i..].starts_with(&w) {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn sp(&mut self) {
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
    }

    fn query(&mut self) -> R<Query> {
        self.depth += 1;
        if self.depth > 40 {
            return Err(No::Unsure);
        }
        let abs = match self.peek() {
            Some('$') => true,
            Some('@') => false,
            _ => return Err(No::Bad),
        };
        self.i += 1;
        let mut segs = Vec::new();
        loop {
            let save = self.i;
            self.sp();
            match self.peek() {
                Some('.' | '[') => segs.push(self.seg()?),
                _ => {
                    self.i = save;
                    break;
                }
            }
        }
        self.depth -= 1;
        Ok(Query { abs, segs })
    }

    fn seg(&mut self) -> R<Seg> {
        if self.eat('[') {
            return Ok(Seg { desc: false, sels: self.bracket()? });
        }
        self.need('.')?;
        let desc = self.eat('.');
        if desc && self.eat('[') {
            return Ok(Seg { desc, sels: self.bracket()? });
        }
        if self.eat('*') {
            return Ok(Seg { desc, sels: vec![Sel::Wild] });
        }
        let mut n = String::new();
        while let Some(c) = self.peek() {
            let first = c.is_ascii_alphabetic() || c == '_' || c >= '\u{80}';
            if first || (!n.is_empty() && c.is_ascii_digit()) {
                n.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        if n.is_empty() {
            return Err(No::Bad);
        }
        Ok(Seg { desc, sels: vec![Sel::Name(n)] })
    }

    fn bracket(&mut self) -> R<Vec<Sel>> {
        let mut v = Vec::new();
        loop {
            self.sp();
            v.push(self.sel()?);
            self.sp();
            if self.eat(']') {
                return Ok(v);
            }
            self.need(',')?;
        }
    }

    fn sel(&mut self) -> R<Sel> {
        match self.peek() {
            Some('*') => {
                self.i += 1;
                Ok(Sel::Wild)
            }
            Some('\'' | '"') => Ok(Sel::Name(self.string()?)),
            Some('?') => {
                self.i += 1;
                self.sp();
                Ok(Sel::Filter(self.or()?))
            }
            _ => {
                let a = self.int()?;
                let save = self.i;
                self.sp();
                if !self.eat(':') {
                    self.i = save;
                    return a.map(Sel::Index).ok_or(No::Bad);
                }
                self.sp();
                let b = self.int()?;
                let save = self.i;
                self.sp();
                let mut c = None;
                if self.eat(':') {
                    let save = self.i;
                    self.sp();
                    c = self.int()?;
                    if c.is_none() {
                        self.i = save;
                    }
                } else {
                    self.i = save;
                }
                Ok(Sel::Slice(a, b, c))
            }
        }
    }

    /// An integer, if one starts here.
    fn int(&mut self) -> R<Option<i64>> {
        let save = self.i;
        let neg = self.eat('-');
        let mut d = String::new();
        while let Some(c) = self.peek() {
            if c.is_ascii_digit() {
                d.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        if d.is_empty() {
            self.i = save;
            return if neg { Err(No::Bad) } else { Ok(None) };
        }
        if d.starts_with('0') && (d.len() > 1 || neg) {
            return Err(No::Bad);
        }
        match d.parse::<i64>() {
            Ok(n) if n <= MAX => Ok(Some(if neg { -n } else { n })),
            _ => Err(No::Bad),
        }
    }

    fn string(&mut self) -> R<String> {
        let q = self.peek().ok_or(No::Bad)?;
        self.i += 1;
        let mut o = String::new();
        loop {
            let c = self.peek().ok_or(No::Bad)?;
            self.i += 1;
            if c == q {
                return Ok(o);
            }
            if (c as u32) < 0x20 {
                return Err(No::Bad);
            }
            if c != '\\' {
                o.push(c);
                continue;
            }
            let e = self.peek().ok_or(No::Bad)?;
            self.i += 1;
            match e {
                'b' => o.push('\u{8}'),
                'f' => o.push('\u{c}'),
                'n' => o.push('\n'),
                'r' => o.push('\r'),
                't' => o.push('\t'),
                '/' | '\\' => o.push(e),
                e if e == q => o.push(e),
                'u' => {
                    let a = self.hex4()?;
                    if (0xdc00..0xe000).contains(&a) {
                        return Err(No::Bad);
                    }
                    if (0xd800..0xdc00).contains(&a) {
                        self.need('\\')?;
                        self.need('u')?;
                        let b = self.hex4()?;
                        if !(0xdc00..0xe000).contains(&b) {
                            return Err(No::Bad);
                        }
                        let v = 0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00);
                        o.push(char::from_u32(v).ok_or(No::Bad)?);
                    } else {
                        o.push(char::from_u32(a).ok_or(No::Bad)?);
                    }
                }
                _ => return Err(No::Bad),
            }
        }
    }

    fn hex4(&mut self) -> R<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let d = self.peek().and_then(|c| c.to_digit(16)).ok_or(No::Bad)?;
            self.i += 1;
            v = v * 16 + d;
        }
        Ok(v)
    }

    fn or(&mut self) -> R<Expr> {
        let mut v = vec![self.and()?];
        loop {
            let save = self.i;
            self.sp();
            if !self.lit("||") {
                self.i = save;
                break;
            }
            self.sp();
            v.push(self.and()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Expr::Or(v) })
    }

    fn and(&mut self) -> R<Expr> {
        let mut v = vec![self.basic()?];
        loop {
            let save = self.i;
            self.sp();
            if !self.lit("&&") {
                self.i = save;
                break;
            }
            self.sp();
            v.push(self.basic()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Expr::And(v) })
    }

    fn basic(&mut self) -> R<Expr> {
        self.depth += 1;
        if self.depth > 40 {
            return Err(No::Unsure);
        }
        let r = self.basic1();
        self.depth -= 1;
        r
    }

    fn basic1(&mut self) -> R<Expr> {
        if self.eat('!') {
            self.sp();
            if self.peek() == Some('(') {
                return Ok(Expr::Not(Box::new(self.paren()?)));
            }
            return match self.operand()? {
                Operand::Query(q) => Ok(Expr::Not(Box::new(Expr::Exist(q)))),
                Operand::Call(c) => Ok(Expr::Not(Box::new(test_call(c)?))),
                Operand::Lit(_) => Err(No::Bad),
            };
        }
        if self.peek() == Some('(') {
            return self.paren();
        }
        let a = self.operand()?;
        let save = self.i;
        self.sp();
        let op = if self.lit("==") {
            Some(Cmp::Eq)
        } else if self.lit("!=") {
            Some(Cmp::Ne)
        } else if self.lit("<=") {
            Some(Cmp::Le)
        } else if self.lit(">=") {
            Some(Cmp::Ge)
        } else if self.lit("<") {
            Some(Cmp::Lt)
        } else if self.lit(">") {
            Some(Cmp::Gt)
        } else {
            None
        };
        if let Some(op) = op {
            self.sp();
            let b = self.operand()?;
            for x in [&a, &b] {
                match x {
                    Operand::Lit(_) => {}
                    Operand::Query(q) => {
                        if !q.singular() {
                            return Err(No::Bad);
                        }
                    }
                    Operand::Call(c) => {
                        if func(&c.name).ok_or(No::Bad)?.2 != Ty::Value {
                            return Err(No::Bad);
                        }
                    }
                }
            }
            return Ok(Expr::Cmp(a, op, b));
        }
        self.i = save;
        match a {
            Operand::Query(q) => Ok(Expr::Exist(q)),
            Operand::Call(c) => test_call(c),
            Operand::Lit(_) => Err(No::Bad),
        }
    }

    fn paren(&mut self) -> R<Expr> {
        self.need('(')?;
        self.sp();
        let e = self.or()?;
        self.sp();
        self.need(')')?;
        Ok(Expr::Paren(Box::new(e)))
    }

    fn operand(&mut self) -> R<Operand> {
        match self.peek() {
            Some('$' | '@') => Ok(Operand::Query(self.query()?)),
            Some('\'' | '"') => Ok(Operand::Lit(Value::String(self.string()?))),
            Some('-' | '0'..='9') => self.number(),
            Some('a'..='z') => {
                let mut n = String::new();
                let mut k = 0;
                while let Some(c) = self.at(k) {
                    if c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_' {
                        n.push(c);
                        k += 1;
                    } else {
                        break;
                    }
                }
                if self.at(k) == Some('(') {
                    self.i += k + 1;
                    return self.call(n);
                }
                for (t, v) in [("true", Value::Bool(true)), ("false", Value::Bool(false)), ("null", Value::Null)] {
                    if self.lit(t) {
                        return Ok(Operand::Lit(v));
                    }
                }
                Err(No::Bad)
            }
            _ => Err(No::Bad),
        }
    }

    fn number(&mut self) -> R<Operand> {
        let mut t = String::new();
        if self.eat('-') {
            t.push('-');
        }
        let mut d = String::new();
        while let Some(c @ '0'..='9') = self.peek() {
            d.push(c);
            self.i += 1;
        }
        if d.is_empty() || (d.starts_with('0') && d.len() > 1) {
            return Err(No::Bad);
        }
        t.push_str(&d);
        let mut plain = true;
        if self.peek() == Some('.') && matches!(self.at(1), Some('0'..='9')) {
            plain = false;
            t.push('.');
            self.i += 1;
            while let Some(c @ '0'..='9') = self.peek() {
                t.push(c);
                self.i += 1;
            }
        }
        if matches!(self.peek(), Some('e' | 'E')) {
            let k = if matches!(self.at(1), Some('+' | '-')) { 2 } else { 1 };
            if matches!(self.at(k), Some('0'..='9')) {
                plain = false;
                for _ in 0..k {
                    t.push(self.peek().unwrap());
                    self.i += 1;
                }
                while let Some(c @ '0'..='9') = self.peek() {
                    t.push(c);
                    self.i += 1;
                }
            }
        }
        if plain && t != "-0" {
            if let Ok(i) = t.parse::<i64>() {
                return Ok(Operand::Lit(i.into()));
            }
        }
        // Where its value is exact it is known; how others are represented is not for the model to say.
        let (mantissa, exp) = t.split_once(['e', 'E']).unwrap_or((&t, "0"));
        let few = mantissa.chars().filter(char::is_ascii_digit).count() <= 15;
        if !plain && few && exp.parse::<i32>().is_ok_and(|e| (-7..=22).contains(&e)) {
            if let Some(n) = t.parse().ok().filter(|x| *x != 0.0).and_then(serde_json::Number::from_f64) {
                return Ok(Operand::Lit(n.into()));
            }
        }
        Err(No::Unsure)
    }

    fn call(&mut self, name: String) -> R<Operand> {
        let mut args = Vec::new();
        self.sp();
        if !self.eat(')') {
            loop {
                self.sp();
                let save = self.i;
                let a = if matches!(self.peek(), Some('!' | '(')) { Err(No::Bad) } else { self.operand() };
                let a = match a {
                    Ok(a) => {
                        let s2 = self.i;
                        self.sp();
                        match self.peek() {
                            Some(',' | ')') => {
                                self.i = s2;
                                Some(a)
                            }
                            _ => None,
                        }
                    }
                    Err(No::Unsure) => return Err(No::Unsure),
                    Err(No::Bad) => None,
                };
                match a {
                    Some(a) => args.push(a),
                    None => {
                        // A logical expression as an argument is well-formed; the model does not
                        // follow it.
                        self.i = save;
                        return match self.or() {
                            Ok(_) => Err(No::Unsure),
                            Err(e) => Err(e),
                        };
                    }
                }
                self.sp();
                if self.eat(')') {
                    break;
                }
                self.need(',')?;
            }
        }
        let f = func(&name).ok_or(No::Bad)?;
        if f.1.len() != args.len() {
            return Err(No::Bad);
        }
        for (t, a) in f.1.iter().zip(&args) {
            let ok = match (t, a) {
                (Ty::Value, Operand::Lit(_)) => true,
                (Ty::Value, Operand::Query(q)) => q.singular(),
                (Ty::Value, Operand::Call(c)) => func(&c.name).unwrap().2 == Ty::Value,
                (_, Operand::Lit(_)) => false,
                (_, Operand::Query(_)) => true,
                (Ty::Nodes, Operand::Call(c)) => func(&c.name).unwrap().2 == Ty::Nodes,
                (Ty::Logical, Operand::Call(c)) => func(&c.name).unwrap().2 != Ty::Value,
            };
            if !ok {
                return Err(No::Bad);
            }
        }
        Ok(Operand::Call(Call { name, args }))
    }
}

fn test_call(c: Call) -> R<Expr> {
    if func(&c.name).ok_or(No::Bad)?.2 == Ty::Value {
        return Err(No::Bad);
    }
    Ok(Expr::Call(c))
}
