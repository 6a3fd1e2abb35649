//! Symbolic matcher for the patterns the code under test hands to the regex crate.
//! Byte-level Pike simulation with leftmost-first priorities; symbolic bytes are split into the cells
//! on which the simulation behaves identically, so every outcome is a conjunction of byte constraints.
use crate::expr::*;
use crate::unicode::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
enum A {
    Empty,
    Class(Vec<(u32, u32)>),
    Cat(Vec<A>),
    Alt(Vec<A>),
    Rep(Box<A>, u32, Option<u32>, bool),
    Cap(Box<A>, usize),
    Start,
    End,
}

#[derive(Clone, Debug)]
pub enum I {
    Set(Set, usize),
    Split(usize, usize),
    Save(usize, usize),
    Start(usize),
    End(usize),
    Match,
}

pub struct Prog {
    pub ins: Vec<I>,
    pub ncap: usize,
    pub anchored: bool,
    pub classes: Vec<(u8, Set)>,
}

struct Ps<'a> {
    c: Vec<char>,
    i: usize,
    ncap: usize,
    src: &'a str,
}

fn norm(mut v: Vec<(u32, u32)>) -> Vec<(u32, u32)> {
    v.sort();
    let mut o: Vec<(u32, u32)> = vec![];
    for (a, b) in v {
        if let Some(l) = o.last_mut() {
            if a <= l.1.saturating_add(1) {
                l.1 = l.1.max(b);
                continue;
            }
        }
        o.push((a, b));
    }
    o
}
fn negate(v: Vec<(u32, u32)>) -> Vec<(u32, u32)> {
    let v = norm(v);
    let mut o = vec![];
    let mut p = 0u32;
    for (a, b) in v {
        if a > p {
            o.push((p, a - 1));
        }
        p = b + 1;
    }
    if p <= 0x10FFFF {
        o.push((p, 0x10FFFF));
    }
    o
}
fn tbl(t: &[(char, char)]) -> Vec<(u32, u32)> {
    t.iter().map(|x| (x.0 as u32, x.1 as u32)).collect()
}

impl<'a> Ps<'a> {
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("regex `{}`: {} at {}", self.src, m, self.i))
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).cloned()
    }
    fn alt(&mut self) -> Result<A, String> {
        let mut v = vec![self.cat()?];
        while self.peek() == Some('|') {
            self.i += 1;
            v.push(self.cat()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { A::Alt(v) })
    }
    fn cat(&mut self) -> Result<A, String> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let a = self.atom()?;
            let a = self.reps(a)?;
            v.push(a);
        }
        Ok(match v.len() {
            0 => A::Empty,
            1 => v.pop().unwrap(),
            _ => A::Cat(v),
        })
    }
    fn reps(&mut self, mut a: A) -> Result<A, String> {
        loop {
            let (mn, mx) = match self.peek() {
                Some('*') => (0, None),
                Some('+') => (1, None),
                Some('?') => (0, Some(1)),
                Some('{') => {
                    let mut j = self.i + 1;
                    let mut s = String::new();
                    while j < self.c.len() && self.c[j] != '}' {
                        s.push(self.c[j]);
                        j += 1;
                    }
                    if j >= self.c.len() {
                        return self.err("bad {");
                    }
                    self.i = j; // at '}'
                    let p: Vec<&str> = s.split(',').collect();
                    let lo: u32 = match p[0].trim().parse() {
                        Ok(x) => x,
                        _ => return self.err("bad repeat"),
                    };
                    let hi = if p.len() == 1 {
                        Some(lo)
                    } else if p[1].trim().is_empty() {
                        None
                    } else {
                        match p[1].trim().parse() {
                            Ok(x) => Some(x),
                            _ => return self.err("bad repeat"),
                        }
                    };
                    (lo, hi)
                }
                _ => return Ok(a),
            };
            self.i += 1;
            let mut greedy = true;
            if self.peek() == Some('?') {
                greedy = false;
                self.i += 1;
            }
            a = A::Rep(Box::new(a), mn, mx, greedy);
        }
    }
    fn esc(&mut self) -> Result<Result<char, Vec<(u32, u32)>>, String> {
        // after the backslash
        let c = match self.peek() {
            Some(c) => c,
            None => return self.err("trailing backslash"),
        };
        self.i += 1;
        Ok(match c {
            'd' => Err(tbl(PERLD)),
            'D' => Err(negate(tbl(PERLD))),
            's' => Err(tbl(PERLS)),
            'S' => Err(negate(tbl(PERLS))),
            'w' => Err(tbl(PERLW)),
            'W' => Err(negate(tbl(PERLW))),
            'n' => Ok('\n'),
            't' => Ok('\t'),
            'r' => Ok('\r'),
            'f' => Ok('\x0c'),
            'v' => Ok('\x0b'),
            'a' => Ok('\x07'),
            'x' => {
                let mut s = String::new();
                if self.peek() == Some('{') {
                    self.i += 1;
                    while let Some(c) = self.peek() {
                        self.i += 1;
                        if c == '}' {
                            break;
                        }
                        s.push(c);
                    }
                } else {
                    for _ in 0..2 {
                        if let Some(c) = self.peek() {
                            s.push(c);
                            self.i += 1;
                        }
                    }
                }
                match u32::from_str_radix(&s, 16).ok().and_then(std::char::from_u32) {
                    Some(c) => Ok(c),
                    None => return self.err("bad hex"),
                }
            }
            c if c.is_ascii_punctuation() => Ok(c),
            _ => return self.err("unsupported escape"),
        })
    }
    fn class(&mut self) -> Result<Vec<(u32, u32)>, String> {
        // after '['
        let mut neg = false;
        if self.peek() == Some('^') {
            neg = true;
            self.i += 1;
        }
        let mut v = vec![];
        let mut first = true;
        loop {
            let c = match self.peek() {
                Some(c) => c,
                None => return self.err("unclosed class"),
            };
            if c == ']' && !first {
                self.i += 1;
                break;
            }
            first = false;
            self.i += 1;
            let lo = if c == '[' && self.peek() == Some(':') {
                let mut j = self.i + 1;
                let mut n = String::new();
                while j < self.c.len() && self.c[j] != ':' {
                    n.push(self.c[j]);
                    j += 1;
                }
                if self.c.get(j + 1) != Some(&']') {
                    return self.err("posix class");
                }
                self.i = j + 2;
                let r: &[(char, char)] = match n.as_str() {
                    "alpha" => &[('A', 'Z'), ('a', 'z')],
                    "digit" => &[('0', '9')],
                    "alnum" => &[('0', '9'), ('A', 'Z'), ('a', 'z')],
                    "upper" => &[('A', 'Z')],
                    "lower" => &[('a', 'z')],
                    "xdigit" => &[('0', '9'), ('A', 'F'), ('a', 'f')],
                    "space" => &[('\t', '\r'), (' ', ' ')],
                    "blank" => &[('\t', '\t'), (' ', ' ')],
                    "punct" => &[('!', '/'), (':', '@'), ('[', '`'), ('{', '~')],
                    "print" => &[(' ', '~')],
                    "graph" => &[('!', '~')],
                    "cntrl" => &[('\0', '\x1f'), ('\x7f', '\x7f')],
                    _ => return self.err("posix class"),
                };
                v.extend(tbl(r));
                continue;
            } else if c == '\\' {
                match self.esc()? {
                    Ok(c) => c,
                    Err(r) => {
                        v.extend(r);
                        continue;
                    }
                }
            } else {
                c
            };
            if self.peek() == Some('-') && self.c.get(self.i + 1).map_or(false, |x| *x != ']') {
                self.i += 1;
                let mut h = self.peek().unwrap();
                self.i += 1;
                if h == '\\' {
                    h = match self.esc()? {
                        Ok(c) => c,
                        Err(_) => return self.err("class range"),
                    };
                }
                if (h as u32) < lo as u32 {
                    return self.err("bad range");
                }
                v.push((lo as u32, h as u32));
            } else {
                v.push((lo as u32, lo as u32));
            }
        }
        Ok(if neg { negate(v) } else { norm(v) })
    }
    fn atom(&mut self) -> Result<A, String> {
        let c = self.peek().unwrap();
        self.i += 1;
        Ok(match c {
            '^' => A::Start,
            '$' => A::End,
            '.' => A::Class(vec![(0, 9), (11, 0x10FFFF)]),
            '(' => {
                if self.peek() == Some('?') {
                    self.i += 1;
                    if self.peek() == Some(':') {
                        self.i += 1;
                        let a = self.alt()?;
                        if self.peek() != Some(')') {
                            return self.err("unclosed group");
                        }
                        self.i += 1;
                        return Ok(a);
                    }
                    if self.peek() == Some('P') {
                        while let Some(c) = self.peek() {
                            self.i += 1;
                            if c == '>' {
                                break;
                            }
                        }
                    } else {
                        return self.err("unsupported group flags");
                    }
                }
                self.ncap += 1;
                let k = self.ncap;
                let a = self.alt()?;
                if self.peek() != Some(')') {
                    return self.err("unclosed group");
                }
                self.i += 1;
                A::Cap(Box::new(a), k)
            }
            '[' => A::Class(self.class()?),
            '\\' => {
                match self.peek() {
                    Some('A') => {
                        self.i += 1;
                        return Ok(A::Start);
                    }
                    Some('z') => {
                        self.i += 1;
                        return Ok(A::End);
                    }
                    _ => {}
                }
                match self.esc()? {
                    Ok(c) => A::Class(vec![(c as u32, c as u32)]),
                    Err(r) => A::Class(r),
                }
            }
            '*' | '+' | '?' | '{' => return self.err("dangling repeat"),
            c => A::Class(vec![(c as u32, c as u32)]),
        })
    }
}

fn enc(c: u32) -> Vec<u8> {
    let mut b = [0u8; 4];
    std::char::from_u32(c).unwrap().encode_utf8(&mut b).as_bytes().to_vec()
}

fn utf8_seqs(lo: u32, hi: u32, out: &mut Vec<Vec<(u8, u8)>>) {
    if lo > hi {
        return;
    }
    // skip surrogates
    if lo < 0xE000 && hi > 0xD7FF {
        if lo < 0xD800 {
            utf8_seqs(lo, 0xD7FF, out);
        }
        if hi > 0xDFFF {
            utf8_seqs(0xE000, hi, out);
        }
        return;
    }
    for lim in [0x7Fu32, 0x7FF, 0xFFFF] {
        if lo <= lim && hi > lim {
            utf8_seqs(lo, lim, out);
            utf8_seqs(lim + 1, hi, out);
            return;
        }
    }
    if hi <= 0x7F {
        out.push(vec![(lo as u8, hi as u8)]);
        return;
    }
    for i in 1..4 {
        let m = (1u32 << (6 * i)) - 1;
        if lo & !m != hi & !m {
            if lo & m != 0 {
                utf8_seqs(lo, lo | m, out);
                utf8_seqs((lo | m) + 1, hi, out);
                return;
            }
            if hi & m != m {
                utf8_seqs(lo, (hi & !m) - 1, out);
                utf8_seqs(hi & !m, hi, out);
                return;
            }
        }
    }
    let a = enc(lo);
    let b = enc(hi);
    out.push(a.iter().zip(b.iter()).map(|(x, y)| (*x, *y)).collect());
}

impl Prog {
    fn emit(&mut self, i: I) -> usize {
        self.ins.push(i);
        self.ins.len() - 1
    }
    // compile `a` so that it continues at `next`; returns entry
    fn comp(&mut self, a: &A, next: usize) -> Result<usize, String> {
        if self.ins.len() > 20000 {
            return Err("regex too large".into());
        }
        Ok(match a {
            A::Empty => next,
            A::Start => self.emit(I::Start(next)),
            A::End => self.emit(I::End(next)),
            A::Class(r) => {
                let mut ascii = [0u64; 4];
                let mut seqs: Vec<Vec<(u8, u8)>> = vec![];
                for (lo, hi) in r {
                    let mut v = vec![];
                    utf8_seqs(*lo, *hi, &mut v);
                    for s in v {
                        if s.len() == 1 {
                            for b in s[0].0..=s[0].1 {
                                ascii[(b >> 6) as usize] |= 1 << (b & 63);
                            }
                        } else {
                            seqs.push(s);
                        }
                    }
                }
                // trie over the multi-byte sequences, merging identical tails
                let mut entry: Option<usize> = None;
                let mut tails: Vec<(Vec<(u8, u8)>, Set)> = vec![];
                for s in seqs {
                    let mut set = [0u64; 4];
                    for b in s[0].0..=s[0].1 {
                        set[(b >> 6) as usize] |= 1 << (b & 63);
                    }
                    let t = s[1..].to_vec();
                    if let Some(e) = tails.iter_mut().find(|e| e.0 == t) {
                        for k in 0..4 {
                            e.1[k] |= set[k];
                        }
                    } else {
                        tails.push((t, set));
                    }
                }
                for (t, set) in tails.iter().rev() {
                    let mut n = next;
                    for (lo, hi) in t.iter().rev() {
                        let mut s2 = [0u64; 4];
                        for b in *lo..=*hi {
                            s2[(b >> 6) as usize] |= 1 << (b & 63);
                        }
                        n = self.emit(I::Set(s2, n));
                    }
                    let e = self.emit(I::Set(*set, n));
                    entry = Some(match entry {
                        None => e,
                        Some(x) => self.emit(I::Split(e, x)),
                    });
                }
                if !set_empty(&ascii) || entry.is_none() {
                    let e = self.emit(I::Set(ascii, next));
                    entry = Some(match entry {
                        None => e,
                        Some(x) => self.emit(I::Split(e, x)),
                    });
                }
                entry.unwrap()
            }
            A::Cat(v) => {
                let mut n = next;
                for x in v.iter().rev() {
                    n = self.comp(x, n)?;
                }
                n
            }
            A::Alt(v) => {
                let mut e = self.comp(v.last().unwrap(), next)?;
                for x in v[..v.len() - 1].iter().rev() {
                    let y = self.comp(x, next)?;
                    e = self.emit(I::Split(y, e));
                }
                e
            }
            A::Cap(x, k) => {
                let e = self.emit(I::Save(2 * k + 1, next));
                let b = self.comp(x, e)?;
                self.emit(I::Save(2 * k, b))
            }
            A::Rep(x, mn, mx, greedy) => {
                let mut n = next;
                match mx {
                    None => {
                        let sp = self.emit(I::Split(0, 0));
                        let b = self.comp(x, sp)?;
                        self.ins[sp] = if *greedy { I::Split(b, next) } else { I::Split(next, b) };
                        n = sp;
                    }
                    Some(m) => {
                        for _ in *mn..*m {
                            let b = self.comp(x, n)?;
                            n = self.emit(if *greedy { I::Split(b, next) } else { I::Split(next, b) });
                        }
                    }
                }
                for _ in 0..*mn {
                    n = self.comp(x, n)?;
                }
                n
            }
        })
    }
    pub fn new(src: &str) -> Result<(Prog, usize), String> {
        let mut p = Ps { c: src.chars().collect(), i: 0, ncap: 0, src };
        let a = p.alt()?;
        if p.i != p.c.len() {
            return p.err("trailing input");
        }
        let mut g = Prog { ins: vec![], ncap: p.ncap + 1, anchored: false, classes: vec![] };
        let m = g.emit(I::Match);
        let s1 = g.emit(I::Save(1, m));
        let b = g.comp(&a, s1)?;
        let st = g.emit(I::Save(0, b));
        g.anchored = is_anchored(&g, st);
        g.classes = classes(&g);
        Ok((g, st))
    }
}

pub type Caps = Rc<Vec<usize>>;

#[derive(Clone, Copy)]
pub enum Byte {
    C(u8),
    S(E),
}

type Th = (usize, Caps);

/// leftmost-first simulation, stopped at every symbolic byte
pub struct Sim<'a> {
    p: &'a Prog,
    start: usize,
    text: &'a [Byte],
    anchored: bool,
    keep: usize,
    from: usize,
    pos: usize,
    pre: Vec<Th>,
    th: Vec<Th>,
    best: Option<Caps>,
}

pub enum Ask {
    Done(Option<Caps>),
    Byte(E),
}

impl<'a> Sim<'a> {
    pub fn new(p: &'a Prog, start: usize, text: &'a [Byte], from: usize, keep: usize) -> Sim<'a> {
        Sim { p, start, text, anchored: p.anchored, keep: keep.min(p.ncap), from, pos: from, pre: vec![], th: vec![], best: None }
    }
    fn add(&self, pc: usize, pos: usize, caps: Caps, seen: &mut Vec<bool>, out: &mut Vec<Th>, stop: &mut bool) {
        if seen[pc] || *stop {
            return;
        }
        seen[pc] = true;
        match &self.p.ins[pc] {
            I::Split(a, b) => {
                self.add(*a, pos, caps.clone(), seen, out, stop);
                self.add(*b, pos, caps, seen, out, stop);
            }
            I::Save(k, n) => {
                let mut c = (*caps).clone();
                if *k < c.len() {
                    c[*k] = pos;
                }
                self.add(*n, pos, Rc::new(c), seen, out, stop);
            }
            I::Start(n) => {
                if pos == 0 {
                    self.add(*n, pos, caps, seen, out, stop);
                }
            }
            I::End(n) => {
                if pos == self.text.len() {
                    self.add(*n, pos, caps, seen, out, stop);
                }
            }
            I::Match => {
                out.push((pc, caps));
                *stop = true;
            }
            I::Set(..) => out.push((pc, caps)),
        }
    }
    /// run until the match is settled or the value of a symbolic byte matters
    pub fn advance(&mut self) -> Ask {
        loop {
            let mut seen = vec![false; self.p.ins.len()];
            let mut th: Vec<Th> = vec![];
            let mut stop = false;
            for (pc, c) in self.pre.iter() {
                self.add(*pc, self.pos, c.clone(), &mut seen, &mut th, &mut stop);
            }
            if self.best.is_none() && !stop && (self.pos == self.from || !self.anchored) {
                self.add(self.start, self.pos, Rc::new(vec![usize::MAX; 2 * self.keep]), &mut seen, &mut th, &mut stop);
            }
            if stop {
                let m = th.pop().unwrap();
                self.best = Some(m.1);
            }
            if self.pos == self.text.len() || (th.is_empty() && (self.best.is_some() || self.anchored)) {
                return Ask::Done(self.best.clone());
            }
            match self.text[self.pos] {
                Byte::C(b) => {
                    self.th = th;
                    self.take(b);
                }
                Byte::S(e) => {
                    if th.is_empty() {
                        self.th = th;
                        self.take(0);
                        continue;
                    }
                    self.th = th;
                    return Ask::Byte(e);
                }
            }
        }
    }
    /// byte values with the same effect on the current threads
    pub fn cells(&self) -> Vec<Set> {
        let mut cells: Vec<(Vec<&(usize, Caps)>, Set)> = vec![];
        let next: Vec<Option<Th>> = self
            .th
            .iter()
            .map(|(pc, c)| match &self.p.ins[*pc] {
                I::Set(_, n) => Some((*n, c.clone())),
                _ => None,
            })
            .collect();
        for (rep, class) in self.p.classes.iter() {
            // the threads the byte leaves; of those that meet only the first counts
            let mut sig: Vec<&Th> = vec![];
            for (i, (pc, _)) in self.th.iter().enumerate() {
                if let (I::Set(s, _), Some(t)) = (&self.p.ins[*pc], &next[i]) {
                    if set_has(s, *rep) && !sig.iter().any(|x| x.0 == t.0) {
                        sig.push(t);
                    }
                }
            }
            if let Some(c) = cells.iter_mut().find(|c| c.0 == sig) {
                for i in 0..4 {
                    c.1[i] |= class[i];
                }
            } else {
                cells.push((sig, *class));
            }
        }
        cells.into_iter().map(|c| c.1).collect()
    }
    /// the current byte is b (or any byte of the same cell)
    pub fn take(&mut self, b: u8) {
        let th = std::mem::take(&mut self.th);
        self.pre.clear();
        for (pc, c) in th {
            if let I::Set(s, n) = &self.p.ins[pc] {
                if set_has(s, b) {
                    self.pre.push((*n, c));
                }
            }
        }
        self.pos += 1;
    }
}

/// condition "byte e lies in s" and the values of a single-byte term's variable it stands for
pub fn in_cell(ar: &mut Arena, e: E, s: &Set) -> (E, Option<(u8, Set)>) {
    if let N::Tab { v, t: tid } = ar.n[e as usize] {
        let tb = ar.tabs[tid as usize].clone();
        let mut vs = [0u64; 4];
        for i in 0..256usize {
            if set_has(s, tb[i] as u8) {
                vs[i >> 6] |= 1 << (i & 63);
            }
        }
        return (ar.in_set(v, &vs), Some((v, vs)));
    }
    let mut acc = ar.c(0, 1);
    let mut i = 0usize;
    while i < 256 {
        if set_has(s, i as u8) {
            let st = i;
            while i < 256 && set_has(s, i as u8) {
                i += 1;
            }
            let lo = ar.c(st as u128, 8);
            let hi = ar.c(i as u128 - 1, 8);
            let a = ar.cmp(Cop::Ult, e, lo);
            let na = ar.not(a);
            let b = ar.cmp(Cop::Ult, hi, e);
            let nb = ar.not(b);
            let r = ar.and(na, nb);
            acc = ar.or(acc, r);
        } else {
            i += 1;
        }
    }
    (acc, None)
}

fn classes(p: &Prog) -> Vec<(u8, Set)> {
    let mut out: Vec<(Vec<bool>, u8, Set)> = vec![];
    let sets: Vec<&Set> = p
        .ins
        .iter()
        .filter_map(|i| match i {
            I::Set(s, _) => Some(s),
            _ => None,
        })
        .collect();
    for b in 0..=255u8 {
        let sig: Vec<bool> = sets.iter().map(|s| set_has(s, b)).collect();
        if let Some(c) = out.iter_mut().find(|c| c.0 == sig) {
            c.2[(b >> 6) as usize] |= 1 << (b & 63);
        } else {
            let mut s = [0u64; 4];
            s[(b >> 6) as usize] |= 1 << (b & 63);
            out.push((sig, b, s));
        }
    }
    out.into_iter().map(|c| (c.1, c.2)).collect()
}

fn is_anchored(p: &Prog, start: usize) -> bool {
    // every epsilon path from start meets Start before a Set/Match
    fn go(p: &Prog, pc: usize, seen: &mut Vec<bool>) -> bool {
        if seen[pc] {
            return true;
        }
        seen[pc] = true;
        match &p.ins[pc] {
            I::Start(_) => true,
            I::Split(a, b) => go(p, *a, seen) && go(p, *b, seen),
            I::Save(_, n) | I::End(n) => go(p, *n, seen),
            _ => false,
        }
    }
    go(p, start, &mut vec![false; p.ins.len()])
}

