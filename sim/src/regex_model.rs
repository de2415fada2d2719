//! A matcher for the part of I-Regexp (RFC 9485) on which the simulator judges. A pattern outside it
//! compiles to None, and the model then has no opinion.

pub enum Re {
    Empty,
    Set(bool, Vec<(char, char)>),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, Option<usize>),
}

struct P<'a> {
    c: std::iter::Peekable<std::str::Chars<'a>>,
    depth: usize,
}

enum I {
    Set(bool, Vec<(char, char)>),
    Split(usize, usize),
    Jmp(usize),
    Match,
}

pub struct Prog(Vec<I>);

pub fn compile(p: &str) -> Option<Prog> {
    let mut s = P { c: p.chars().peekable(), depth: 0 };
    let r = s.alt()?;
    if s.c.peek().is_some() {
        return None;
    }
    let mut prog = Vec::new();
    emit(&r, &mut prog)?;
    prog.push(I::Match);
    Some(Prog(prog))
}

impl P<'_> {
    fn alt(&mut self) -> Option<Re> {
        self.depth += 1;
        if self.depth > 40 {
            return None;
        }
        let mut v = vec![self.cat()?];
        while self.c.peek() == Some(&'|') {
            self.c.next();
            v.push(self.cat()?);
        }
        self.depth -= 1;
        Some(if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) })
    }
    fn cat(&mut self) -> Option<Re> {
        let mut v = Vec::new();
        loop {
            let c = match self.c.peek() {
                None | Some('|') | Some(')') => break,
                Some(c) => *c,
            };
            self.c.next();
            let a = match c {
                '(' => {
                    // `(?` starts something that is not I-Regexp.
                    let r = self.alt()?;
                    if self.c.next() != Some(')') {
                        return None;
                    }
                    r
                }
                '.' => Re::Set(true, vec![('\n', '\n'), ('\r', '\r')]),
                '[' => self.class()?,
                '\\' => one(self.esc()?),
                '*' | '+' | '?' | '{' | '}' | ']' | '^' | '$' => return None,
                c => one(c),
            };
            v.push(self.quant(a)?);
        }
        Some(match v.len() {
            0 => Re::Empty,
            1 => v.pop().unwrap(),
            _ => Re::Cat(v),
        })
    }
    fn quant(&mut self, a: Re) -> Option<Re> {
        let (lo, hi) = match self.c.peek() {
            Some('*') => (0, None),
            Some('+') => (1, None),
            Some('?') => (0, Some(1)),
            Some('{') => {
                self.c.next();
                let lo = self.num()?;
                let hi = if self.c.peek() == Some(&',') {
                    self.c.next();
                    if self.c.peek() == Some(&'}') {
                        None
                    } else {
                        Some(self.num()?)
                    }
                } else {
                    Some(lo)
                };
                if self.c.peek() != Some(&'}') || hi.is_some_and(|h| h < lo) || lo > 50 || hi.is_some_and(|h| h > 50) {
                    return None;
                }
                (lo, hi)
            }
            _ => return Some(a),
        };
        self.c.next();
        if matches!(self.c.peek(), Some('*' | '+' | '?' | '{')) {
            return None;
        }
        Some(Re::Rep(Box::new(a), lo, hi))
    }
    fn num(&mut self) -> Option<usize> {
        let mut n = None;
        while let Some(d) = self.c.peek().and_then(|c| c.to_digit(10)) {
            n = Some(n.unwrap_or(0) * 10 + d as usize);
            if n.unwrap() > 1000 {
                return None;
            }
            self.c.next();
        }
        n
    }
    fn esc(&mut self) -> Option<char> {
        Some(match self.c.next()? {
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            c @ ('(' | ')' | '*' | '+' | '-' | '.' | '?' | '[' | '\\' | ']' | '^' | '{' | '|' | '}') => c,
            _ => return None,
        })
    }
    fn class(&mut self) -> Option<Re> {
        let mut neg = false;
        if self.c.peek() == Some(&'^') {
            self.c.next();
            neg = true;
        }
        let mut v = Vec::new();
        loop {
            let a = match self.c.next()? {
                ']' => break,
                '\\' => self.esc()?,
                c if c.is_alphanumeric() => c,
                _ => return None,
            };
            if self.c.peek() == Some(&'-') {
                self.c.next();
                let b = match self.c.next()? {
                    '\\' => self.esc()?,
                    c if c.is_alphanumeric() => c,
                    _ => return None,
                };
                if b < a {
                    return None;
                }
                v.push((a, b));
            } else {
                v.push((a, a));
            }
        }
        if v.is_empty() {
            return None;
        }
        Some(Re::Set(neg, v))
    }
}

fn one(c: char) -> Re {
    Re::Set(false, vec![(c, c)])
}

fn emit(r: &Re, p: &mut Vec<I>) -> Option<()> {
    if p.len() > 3000 {
        return None;
    }
    match r {
        Re::Empty => {}
        Re::Set(n, v) => p.push(I::Set(*n, v.clone())),
        Re::Cat(v) => {
            for x in v {
                emit(x, p)?;
            }
        }
        Re::Alt(v) => {
            let mut ends = Vec::new();
            for (i, x) in v.iter().enumerate() {
                if i + 1 < v.len() {
                    let s = p.len();
                    p.push(I::Match);
                    emit(x, p)?;
                    ends.push(p.len());
                    p.push(I::Match);
                    p[s] = I::Split(s + 1, p.len());
                } else {
                    emit(x, p)?;
                }
            }
            let e = p.len();
            for x in ends {
                p[x] = I::Jmp(e);
            }
        }
        Re::Rep(x, lo, hi) => {
            for _ in 0..*lo {
                emit(x, p)?;
            }
            match hi {
                None => {
                    let s = p.len();
                    p.push(I::Match);
                    emit(x, p)?;
                    p.push(I::Jmp(s));
                    p[s] = I::Split(s + 1, p.len());
                }
                Some(h) => {
                    let mut splits = Vec::new();
                    for _ in *lo..*h {
                        splits.push(p.len());
                        p.push(I::Match);
                        emit(x, p)?;
                    }
                    let e = p.len();
                    for s in splits {
                        p[s] = I::Split(s + 1, e);
                    }
                }
            }
        }
    }
    Some(())
}

pub fn matches(p: &Prog, s: &str, whole: bool) -> bool {
    let p = &p.0;
    fn add(p: &[I], i: usize, set: &mut Vec<usize>, on: &mut [bool]) {
        let mut st = vec![i];
        while let Some(i) = st.pop() {
            if on[i] {
                continue;
            }
            on[i] = true;
            match p[i] {
                I::Split(a, b) => {
                    st.push(b);
                    st.push(a);
                }
                I::Jmp(a) => st.push(a),
                _ => set.push(i),
            }
        }
    }
    let mut cur = Vec::new();
    let mut on = vec![false; p.len()];
    add(p, 0, &mut cur, &mut on);
    let hit = |c: &[usize]| c.iter().any(|i| matches!(p[*i], I::Match));
    if !whole && hit(&cur) {
        return true;
    }
    for c in s.chars() {
        let mut next = Vec::new();
        let mut on = vec![false; p.len()];
        for i in &cur {
            if let I::Set(neg, v) = &p[*i] {
                if v.iter().any(|r| r.0 <= c && c <= r.1) != *neg {
                    add(p, i + 1, &mut next, &mut on);
                }
            }
        }
        if !whole {
            add(p, 0, &mut next, &mut on);
        }
        cur = next;
        if !whole && hit(&cur) {
            return true;
        }
    }
    hit(&cur)
}
