//! Comparison of what the library says about a document with what the reference says.
use crate::refm::*;
use crate::sym::*;
use tomllib::types::*;
use tomllib::TOMLParser;

pub fn parse<'a>(s: &'a str) -> (TOMLParser<'a>, ParseResult<'a>) {
    TOMLParser::new().parse(s)
}
pub fn errors<'a>(r: &ParseResult<'a>) -> Vec<ParseError<'a>> {
    match *r {
        ParseResult::FullError(ref e) | ParseResult::PartialError(_, _, _, ref e) => e.borrow().clone(),
        _ => Vec::new(),
    }
}
pub fn rest<'r>(r: &'r ParseResult) -> &'r str {
    match *r {
        ParseResult::Partial(ref l, ..) | ParseResult::PartialError(ref l, ..) => l,
        _ => "",
    }
}
/// parsed to the end, with or without reported errors
pub fn complete(r: &ParseResult) -> bool {
    match *r {
        ParseResult::Full | ParseResult::FullError(_) => true,
        _ => false,
    }
}

/// 10: the document is read exactly as far as the grammar goes; 11: and classified accordingly; 12: errors
/// are announced only where there are some
pub fn syntax(d: &Doc, r: &ParseResult) {
    let whole = d.end == d.b.len();
    match *r {
        ParseResult::FullError(ref e) | ParseResult::PartialError(_, _, _, ref e) => check(e.borrow().len() > 0, 12),
        _ => {}
    }
    check(whole == complete(r), 10);
    if !whole {
        match *r {
            ParseResult::Partial(ref l, ..) | ParseResult::PartialError(ref l, ..) => check(&l[..] == &d.b[d.end..], 11),
            _ => check(false, 11),
        }
    }
}
/// 20: every value is found under its key, unchanged; 21: nothing that is no value has one
pub fn values(m: &Model, p: &TOMLParser) {
    for e in m.ents.iter() {
        let v = p.get_value(e.key.clone());
        match (e.val, v) {
            (Some(r), Some(ref v)) => check(same(m.s, r, v), 20),
            (Some(_), None) => check(false, 20),
            (None, v) => check(v.is_none(), 21),
        }
    }
}
fn same_kids(e: &Ent, c: &Children) -> bool {
    match *c {
        Children::Count(ref n) => match e.k {
            K::Aot => n.get() == e.cnt,
            K::Leaf => match e.val {
                Some(&RV::Inl(..)) => false,
                _ => n.get() == e.cnt,
            },
            _ => false,
        },
        Children::Keys(ref k) => {
            match e.k {
                K::Aot => return false,
                K::Leaf => match e.val {
                    Some(&RV::Inl(..)) => {}
                    _ => return false,
                },
                _ => {}
            }
            let k = k.borrow();
            if k.len() != e.kids.len() {
                return false;
            }
            for a in e.kids.iter() {
                if !k.iter().any(|b| a == b) {
                    return false;
                }
            }
            true
        }
    }
}
/// 30: every key lists its children, no fewer and no more
pub fn children(m: &Model, p: &TOMLParser) {
    for e in m.ents.iter() {
        match p.get_children(e.key.clone()) {
            Some(c) => check(same_kids(e, c), 30),
            None => check(false, 30),
        }
    }
}
fn matches(m: &Model, a: &Err, b: &ParseError, lines: bool) -> bool {
    match (a, b) {
        (&Err::Dup(ref k, l0, l1, v), &ParseError::DuplicateKey(ref k2, l, _, ref v2)) => {
            if lines {
                l >= l0 && l <= l1
            } else {
                k == k2 && same(m.s, v, v2)
            }
        }
        (&Err::Tab(ref k, l0, ref kvs), &ParseError::InvalidTable(ref k2, l, _, ref map)) => {
            if lines {
                return l == l0;
            }
            if k != k2 {
                return false;
            }
            let map = map.borrow();
            let mut n = 0;
            for i in 0..kvs.len() {
                let mut again = false;
                for j in i + 1..kvs.len() {
                    again = again || kvs[i].0 == kvs[j].0;
                }
                if again {
                    continue;
                }
                n += 1;
                match map.get(&kvs[i].0) {
                    Some(v) if same(m.s, kvs[i].1, v) => {}
                    _ => return false,
                }
            }
            n == map.len()
        }
        (&Err::Mix(ref k, l0, l1), &ParseError::MixedArray(ref k2, l, _)) => {
            if lines {
                l >= l0 && l <= l1
            } else {
                k == k2
            }
        }
        (&Err::Date(ref k, l0, x, y), &ParseError::InvalidDateTime(ref k2, l, _, ref t)) => {
            if lines {
                l == l0
            } else {
                k == k2 && &m.s[x..y] == &t[..]
            }
        }
        _ => false,
    }
}
pub fn sort(e: &ParseError) -> u8 {
    match *e {
        ParseError::DuplicateKey(..) => 0,
        ParseError::InvalidTable(..) => 1,
        ParseError::MixedArray(..) => 2,
        ParseError::InvalidDateTime(..) => 3,
        _ => 4,
    }
}
fn msort(e: &Err) -> u8 {
    match *e {
        Err::Dup(..) => 0,
        Err::Tab(..) => 1,
        Err::Mix(..) => 2,
        Err::Date(..) => 3,
    }
}
/// 40 + kind: exactly the errors of that kind that are due are reported; 50 + kind: on the right lines
pub fn errs(m: &Model, r: &ParseResult, kinds: u32, lines: bool) {
    let got = errors(r);
    let mut k = 0;
    while k < 5 {
        if kinds >> k & 1 == 1 {
            let want: Vec<&Err> = m.errs.iter().filter(|e| msort(e) == k).collect();
            let have: Vec<&ParseError> = got.iter().filter(|e| sort(e) == k).collect();
            let mut ok = want.len() == have.len();
            let mut used = vec![false; have.len()];
            for w in want.iter() {
                let mut hit = false;
                for i in 0..have.len() {
                    if !hit && !used[i] && matches(m, w, have[i], false) && (!lines || matches(m, w, have[i], true)) {
                        used[i] = true;
                        hit = true;
                    }
                }
                ok = ok && hit;
            }
            check(ok, if lines { 50 } else { 40 } + k as u32);
        }
        k += 1;
    }
}
pub fn tag(class: u32) {
    let mut k = 0;
    while k < 32 {
        if class >> k & 1 == 1 {
            finding(k + 1);
        }
        k += 1;
    }
}
pub const SYNTAX: u32 = 1;
pub const VALUES: u32 = 2;
pub const CHILDREN: u32 = 4;
pub const ERRORS: u32 = 8;
pub const LINES: u32 = 16;
pub const PRINT: u32 = 32;
pub const PARTIAL: u32 = 64;

/// a document that was not read to its end: 20, 30, 40 + kind: it is the document made of the part that was read;
/// 170: nothing but the keys of that part is there, 171: reading stopped on a line of the rest, 172: no column
pub fn partial(s: &str, d: &Doc, p: &TOMLParser, r: &ParseResult) {
    let (line, col) = match *r {
        ParseResult::Partial(_, l, c) | ParseResult::PartialError(_, l, c, _) | ParseResult::Failure(l, c) => (l, c),
        _ => return,
    };
    let first = lines(&s.as_bytes()[..d.end]);
    let last = lines(s.as_bytes());
    check(line > first && line <= last + 1, 171);
    check(first != last || line == first + 1, 171);
    check(col == 0, 172);
    let t = &s[..d.end];
    let e = read(t);
    if e.end != t.len() {
        check(false, 170);
        return;
    }
    let m = Model::new(&e);
    values(&m, p);
    children(&m, p);
    errs(&m, r, 15, false);
    let mut ks = Vec::new();
    crate::lay::go(p, "", &mut ks, 400);
    check(ks.len() == m.ents.len(), 170);
    // keys of the part that was not read
    let key = |b: u8| (b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z') || (b >= b'0' && b <= b'9') || b == b'-' || b == b'_';
    let u = &s.as_bytes()[d.end..];
    let mut i = 0;
    while i < u.len() && (u[i] == b' ' || u[i] == b'\t') {
        i += 1;
    }
    let from = i;
    while i < u.len() && key(u[i]) {
        i += 1;
    }
    if i > from {
        let k = &s[d.end + from..d.end + i];
        for n in 0..m.ents.len() + 1 {
            let base = if n == 0 { "" } else { &m.ents[n - 1].key[..] };
            for x in ["", "[0]", "[1]", ".x", ".y", "[0].x", "[0][0]", ".x[0]"].iter() {
                let mut k = join(base, k);
                k.push_str(x);
                if m.find(&k).is_none() {
                    check(p.get_value(k.clone()).is_none(), 170);
                    check(p.get_children(k.clone()).is_none(), 170);
                }
            }
        }
    }
}
fn lines(b: &[u8]) -> usize {
    let mut n = 0;
    for c in b.iter() {
        if *c == b'\n' {
            n += 1;
        }
    }
    n
}
/// the whole comparison; `what` picks the aspects
pub fn compare(s: &str, what: u32, kinds: u32) {
    observe(1, s);
    let (p, r) = parse(s);
    compare_with(s, &p, &r, what, kinds);
}
/// the same for a parser that has just read the document
pub fn compare_with(s: &str, p: &TOMLParser, r: &ParseResult, what: u32, kinds: u32) {
    let d = read(s);
    if what & PRINT != 0 {
        let o = format!("{}", p);
        observe(2, &o);
        match *r {
            ParseResult::Full | ParseResult::FullError(_) => check(o == s, 1),
            ParseResult::Partial(ref l, ..) | ParseResult::PartialError(ref l, ..) => {
                let mut t = o.clone();
                t.push_str(l);
                check(t == s, 2)
            }
            _ => check(o.is_empty(), 3),
        }
    }
    if what & SYNTAX != 0 {
        syntax(&d, r);
    }
    if what & PARTIAL != 0 {
        partial(s, &d, p, r);
    }
    if what & (VALUES | CHILDREN | ERRORS | LINES) == 0 {
        return;
    }
    if d.end != s.len() {
        return;
    }
    let m = Model::new(&d);
    tag(m.class);
    if what & VALUES != 0 {
        values(&m, p);
    }
    if what & CHILDREN != 0 {
        children(&m, p);
    }
    if what & ERRORS != 0 {
        errs(&m, r, kinds, false);
    }
    if what & LINES != 0 {
        errs(&m, r, kinds, true);
    }
}
