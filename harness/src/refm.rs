//! Reference reading of a document, written against the documented grammar and nothing of the
//! implementation: a recogniser over bytes (`read`) and the meaning of what it read (`Model`).
use tomllib::types::*;

pub enum RV {
    Int(usize, usize),
    Float(usize, usize),
    Bool(bool, usize),
    Date(usize, usize, usize),
    Str(StrType, usize, usize),
    /// elements, first and last line, extent
    Arr(Vec<RV>, usize, usize, usize, usize),
    Inl(Vec<(usize, usize, RV, usize, usize)>, usize, usize),
}
pub enum Item {
    Kv(usize, usize, RV, usize, usize),
    Std(Vec<(usize, usize)>, usize),
    Aot(Vec<(usize, usize)>, usize),
}

/// where the text of the value starts and ends
pub fn span(v: &RV) -> (usize, usize) {
    match *v {
        RV::Int(a, b) | RV::Float(a, b) | RV::Date(a, b, _) => (a, b),
        RV::Bool(x, a) => (a, a + if x { 4 } else { 5 }),
        RV::Str(StrType::Basic, a, b) | RV::Str(StrType::Literal, a, b) => (a - 1, b + 1),
        RV::Str(_, a, b) => (a - 3, b + 3),
        RV::Arr(_, _, _, a, b) | RV::Inl(_, a, b) => (a, b),
    }
}

pub struct P<'d> {
    pub b: &'d [u8],
    pub line: usize,
}
fn digit(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}
fn hex(c: u8) -> bool {
    digit(c) || c >= b'A' && c <= b'F' || c >= b'a' && c <= b'f'
}
fn bare(c: u8) -> bool {
    digit(c) || c >= b'A' && c <= b'Z' || c >= b'a' && c <= b'z' || c == b'-' || c == b'_'
}
impl<'d> P<'d> {
    pub fn at(&self, i: usize) -> Option<u8> {
        if i < self.b.len() {
            Some(self.b[i])
        } else {
            None
        }
    }
    fn is(&self, i: usize, c: u8) -> bool {
        i < self.b.len() && self.b[i] == c
    }
    fn three(&self, i: usize, c: u8) -> bool {
        self.is(i, c) && self.is(i + 1, c) && self.is(i + 2, c)
    }
    fn lit(&self, i: usize, s: &[u8]) -> bool {
        let mut k = 0;
        while k < s.len() {
            if !self.is(i + k, s[k]) {
                return false;
            }
            k += 1;
        }
        true
    }
    pub fn ws(&self, mut i: usize) -> usize {
        while self.is(i, b' ') || self.is(i, b'\t') {
            i += 1;
        }
        i
    }
    fn nl(&self, i: usize) -> Option<usize> {
        if self.is(i, b'\n') {
            Some(i + 1)
        } else if self.is(i, b'\r') && self.is(i + 1, b'\n') {
            Some(i + 2)
        } else {
            None
        }
    }
    fn comment(&self, mut i: usize) -> Option<usize> {
        if !self.is(i, b'#') {
            return None;
        }
        i += 1;
        while i < self.b.len() && (self.b[i] >= 0x20 || self.b[i] == 9) {
            i += 1;
        }
        Some(i)
    }
    /// whitespace, line breaks and comments between the parts of an array
    fn gap(&mut self, mut i: usize) -> usize {
        loop {
            i = self.ws(i);
            if let Some(j) = self.nl(i) {
                self.line += 1;
                i = j;
            } else if let Some(j) = self.comment(i) {
                i = j;
            } else {
                return i;
            }
        }
    }
    /// the length of the escape sequence at i (which holds a backslash), 0 if there is none
    fn escape(&self, i: usize) -> usize {
        match self.at(i + 1) {
            Some(b'"') | Some(b'\\') | Some(b'/') | Some(b'b') | Some(b'f') | Some(b'n') | Some(b'r') | Some(b't') => 2,
            Some(c) if c == b'u' || c == b'U' => {
                let n = if c == b'u' { 4 } else { 8 };
                let mut k = 0;
                while k < n {
                    match self.at(i + 2 + k) {
                        Some(h) if hex(h) => k += 1,
                        _ => return 0,
                    }
                }
                2 + n
            }
            _ => 0,
        }
    }
    /// inside of a basic string from i up to the closing quote
    fn basic(&self, mut i: usize) -> Option<usize> {
        loop {
            match self.at(i) {
                Some(b'"') => return Some(i),
                Some(b'\\') => {
                    let n = self.escape(i);
                    if n == 0 {
                        return None;
                    }
                    i += n;
                }
                Some(c) if c >= 0x20 => i += 1,
                _ => return None,
            }
        }
    }
    fn literal(&self, mut i: usize) -> Option<usize> {
        loop {
            match self.at(i) {
                Some(b'\'') => return Some(i),
                Some(c) if c >= 0x20 || c == 9 => i += 1,
                _ => return None,
            }
        }
    }
    /// inside of a multi-line string: (end, line breaks)
    fn ml(&self, mut i: usize, q: u8) -> Option<(usize, usize)> {
        let mut lines = 0;
        loop {
            if self.three(i, q) {
                return Some((i, lines));
            }
            if let Some(j) = self.nl(i) {
                lines += 1;
                i = j;
                continue;
            }
            match self.at(i) {
                Some(b'\\') if q == b'"' => {
                    if let Some(j) = self.nl(i + 1) {
                        lines += 1;
                        i = j;
                    } else {
                        let n = self.escape(i);
                        if n == 0 {
                            return None;
                        }
                        i += n;
                    }
                }
                Some(c) if c >= 0x20 || c == 9 => i += 1,
                _ => return None,
            }
        }
    }
    pub fn key(&self, i: usize) -> Option<usize> {
        if self.is(i, b'"') {
            match self.basic(i + 1) {
                Some(j) if j > i + 1 => return Some(j + 1),
                _ => return None,
            }
        }
        let mut j = i;
        while j < self.b.len() && bare(self.b[j]) {
            j += 1;
        }
        if j > i {
            Some(j)
        } else {
            None
        }
    }
    fn digits(&self, i: usize, n: usize) -> bool {
        let mut k = 0;
        while k < n {
            match self.at(i + k) {
                Some(c) if digit(c) => k += 1,
                _ => return false,
            }
        }
        true
    }
    fn date(&self, i: usize) -> Option<usize> {
        if !(self.digits(i, 4) && self.is(i + 4, b'-') && self.digits(i + 5, 2) && self.is(i + 7, b'-') && self.digits(i + 8, 2)) {
            return None;
        }
        let d = i + 10;
        if !(self.is(d, b'T') && self.digits(d + 1, 2) && self.is(d + 3, b':') && self.digits(d + 4, 2) && self.is(d + 6, b':') && self.digits(d + 7, 2)) {
            return Some(d);
        }
        let mut t = d + 9;
        if self.is(t, b'.') && self.digits(t + 1, 1) {
            t += 1;
            while self.digits(t, 1) {
                t += 1;
            }
        }
        if self.is(t, b'Z') {
            return Some(t + 1);
        }
        if (self.is(t, b'+') || self.is(t, b'-')) && self.digits(t + 1, 2) && self.is(t + 3, b':') && self.digits(t + 4, 2) {
            return Some(t + 6);
        }
        Some(t)
    }
    /// digits with single underscores between them
    fn run(&self, mut i: usize) -> usize {
        loop {
            if self.digits(i, 1) {
                i += 1;
            } else if self.is(i, b'_') && self.digits(i + 1, 1) {
                i += 2;
            } else {
                return i;
            }
        }
    }
    /// an optional sign and a whole number without leading zeros
    fn whole(&self, mut i: usize) -> Option<usize> {
        if self.is(i, b'+') || self.is(i, b'-') {
            i += 1;
        }
        if self.is(i, b'0') {
            return Some(i + 1);
        }
        if self.digits(i, 1) {
            return Some(self.run(i + 1));
        }
        None
    }
    fn number(&self, i: usize) -> Option<(usize, bool)> {
        let w = match self.whole(i) {
            Some(w) => w,
            None => return None,
        };
        let mut e = w;
        if self.is(e, b'.') && self.digits(e + 1, 1) {
            e = self.run(e + 2);
        }
        if self.is(e, b'e') || self.is(e, b'E') {
            if let Some(x) = self.whole(e + 1) {
                e = x;
            }
        }
        Some((e, e > w))
    }
    pub fn value(&mut self, i: usize) -> Option<(usize, RV)> {
        match self.at(i) {
            Some(b'[') => self.array(i),
            Some(b'{') => self.inline(i),
            Some(b'"') => {
                if self.three(i, b'"') {
                    if let Some((e, n)) = self.ml(i + 3, b'"') {
                        self.line += n;
                        return Some((e + 3, RV::Str(StrType::MLBasic, i + 3, e)));
                    }
                }
                self.basic(i + 1).map(|e| (e + 1, RV::Str(StrType::Basic, i + 1, e)))
            }
            Some(b'\'') => {
                if self.three(i, b'\'') {
                    if let Some((e, n)) = self.ml(i + 3, b'\'') {
                        self.line += n;
                        return Some((e + 3, RV::Str(StrType::MLLiteral, i + 3, e)));
                    }
                }
                self.literal(i + 1).map(|e| (e + 1, RV::Str(StrType::Literal, i + 1, e)))
            }
            Some(b't') if self.lit(i, b"true") => Some((i + 4, RV::Bool(true, i))),
            Some(b'f') if self.lit(i, b"false") => Some((i + 5, RV::Bool(false, i))),
            Some(c) if digit(c) || c == b'+' || c == b'-' => {
                if let Some(e) = self.date(i) {
                    return Some((e, RV::Date(i, e, self.line)));
                }
                self.number(i).map(|(e, f)| (e, if f { RV::Float(i, e) } else { RV::Int(i, e) }))
            }
            _ => None,
        }
    }
    fn sep(&self, i: usize) -> Option<usize> {
        let j = self.ws(i);
        if self.is(j, b',') {
            Some(j + 1)
        } else {
            None
        }
    }
    fn array(&mut self, i: usize) -> Option<(usize, RV)> {
        let l0 = self.line;
        let mut els = Vec::new();
        let mut j = self.gap(i + 1);
        let mut more = true;
        while more && !self.is(j, b']') {
            match self.value(j) {
                None => return None,
                Some((e, v)) => {
                    els.push(v);
                    j = e;
                }
            }
            more = false;
            if let Some(e) = self.sep(j) {
                j = e;
                more = true;
            }
            j = self.gap(j);
        }
        if self.is(j, b']') {
            Some((j + 1, RV::Arr(els, l0, self.line, i, j + 1)))
        } else {
            None
        }
    }
    fn inline(&mut self, i: usize) -> Option<(usize, RV)> {
        let mut kvs = Vec::new();
        let mut j = self.ws(i + 1);
        let mut more = true;
        while more && !self.is(j, b'}') {
            let l0 = self.line;
            match self.keyval(j) {
                None => return None,
                Some((e, k, v)) => {
                    kvs.push((j, k, v, l0, self.line));
                    j = e;
                }
            }
            more = false;
            if let Some(e) = self.sep(j) {
                j = e;
                more = true;
            }
            j = self.gap(j);
        }
        if self.is(j, b'}') {
            Some((j + 1, RV::Inl(kvs, i, j + 1)))
        } else {
            None
        }
    }
    /// (end, end of the key, value)
    fn keyval(&mut self, i: usize) -> Option<(usize, usize, RV)> {
        let k = match self.key(i) {
            Some(k) => k,
            None => return None,
        };
        let j = self.ws(k);
        if !self.is(j, b'=') {
            return None;
        }
        let j = self.ws(j + 1);
        self.value(j).map(|(e, v)| (e, k, v))
    }
    fn header(&self, i: usize) -> Option<(usize, Item)> {
        if !self.is(i, b'[') {
            return None;
        }
        let aot = self.is(i + 1, b'[');
        let mut keys = Vec::new();
        let mut j = if aot { i + 2 } else { i + 1 };
        loop {
            j = self.ws(j);
            match self.key(j) {
                None => return None,
                Some(e) => {
                    keys.push((j, e));
                    j = self.ws(e);
                }
            }
            if self.is(j, b'.') {
                j += 1;
            } else {
                break;
            }
        }
        if !self.is(j, b']') || aot && !self.is(j + 1, b']') {
            return None;
        }
        if aot {
            Some((j + 2, Item::Aot(keys, self.line)))
        } else {
            Some((j + 1, Item::Std(keys, self.line)))
        }
    }
}

pub struct Doc<'d> {
    pub b: &'d str,
    pub items: Vec<Item>,
    /// where reading stopped
    pub end: usize,
    /// the line the rest starts on
    pub line: usize,
}
pub fn read<'d>(s: &'d str) -> Doc<'d> {
    let mut p = P { b: s.as_bytes(), line: 1 };
    let mut items = Vec::new();
    let mut i = 0;
    loop {
        let w = p.ws(i);
        let l0 = p.line;
        let mut end = w;
        if let Some((e, h)) = p.header(w) {
            items.push(h);
            end = p.ws(e);
        } else if let Some((e, k, v)) = p.keyval(w) {
            items.push(Item::Kv(w, k, v, l0, p.line));
            end = p.ws(e);
        } else {
            p.line = l0;
        }
        if let Some(e) = p.comment(end) {
            end = e;
        }
        i = end;
        match p.nl(i) {
            Some(e) => {
                p.line += 1;
                i = e;
            }
            None => return Doc { b: s, items: items, end: i, line: p.line },
        }
    }
}

// ---------------------------------------------------------------- meaning

#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Implicit,
    Table,
    Aot,
    Elem,
    Leaf,
}
pub struct Ent<'m> {
    pub key: String,
    pub k: K,
    pub val: Option<&'m RV>,
    pub kids: Vec<String>,
    pub cnt: usize,
}
pub enum Err<'m> {
    Dup(String, usize, usize, &'m RV),
    /// key, line, pairs
    Tab(String, usize, Vec<(String, &'m RV)>),
    Mix(String, usize, usize),
    Date(String, usize, usize, usize),
}
pub struct Model<'m> {
    pub s: &'m str,
    pub ents: Vec<Ent<'m>>,
    pub errs: Vec<Err<'m>>,
    /// classes of documents the implementation is known to treat differently
    pub class: u32,
    cur: usize,
    bad: Option<usize>,
}
pub fn join(a: &str, b: &str) -> String {
    let mut r = String::with_capacity(a.len() + b.len() + 1);
    r.push_str(a);
    if !a.is_empty() {
        r.push('.');
    }
    r.push_str(b);
    r
}
pub fn index(a: &str, i: usize) -> String {
    let mut r = String::with_capacity(a.len() + 3);
    r.push_str(a);
    r.push('[');
    if i >= 100 {
        r.push((b'0' + (i / 100) as u8) as char);
    }
    if i >= 10 {
        r.push((b'0' + (i / 10 % 10) as u8) as char);
    }
    r.push((b'0' + (i % 10) as u8) as char);
    r.push(']');
    r
}
fn kind(v: &RV) -> u8 {
    match *v {
        RV::Int(..) => 0,
        RV::Float(..) => 1,
        RV::Bool(..) => 2,
        RV::Date(..) => 3,
        RV::Str(..) => 4,
        RV::Arr(..) => 5,
        RV::Inl(..) => 6,
    }
}
fn num(b: &[u8]) -> usize {
    let mut r = 0;
    for &c in b {
        r = r * 10 + (c - b'0') as usize;
    }
    r
}
/// whether calendar and clock have this moment (text already of the right shape)
pub fn date_ok(b: &[u8]) -> bool {
    let (y, m, d) = (num(&b[0..4]), num(&b[5..7]), num(&b[8..10]));
    if y == 0 || m == 0 || m > 12 || d == 0 {
        return false;
    }
    let days = if m == 2 {
        if y % 400 == 0 || y % 4 == 0 && y % 100 != 0 {
            29
        } else {
            28
        }
    } else if m == 4 || m == 6 || m == 9 || m == 11 {
        30
    } else {
        31
    };
    if d > days {
        return false;
    }
    if b.len() > 10 {
        if num(&b[11..13]) > 23 || num(&b[14..16]) > 59 || num(&b[17..19]) > 59 {
            return false;
        }
        let n = b.len();
        if n > 19 && (b[n - 6] == b'+' || b[n - 6] == b'-') {
            if num(&b[n - 5..n - 3]) > 23 || num(&b[n - 2..n]) > 59 {
                return false;
            }
        }
    }
    true
}

impl<'m> Model<'m> {
    pub fn new(d: &'m Doc<'m>) -> Model<'m> {
        let root = Ent { key: String::new(), k: K::Table, val: None, kids: Vec::new(), cnt: 0 };
        let mut m = Model { s: d.b, ents: vec![root], errs: Vec::new(), class: 0, cur: 0, bad: None };
        for it in d.items.iter() {
            match *it {
                Item::Kv(a, k, ref v, l0, l1) => m.keyval(a, k, v, l0, l1),
                Item::Std(ref ks, l) => m.std(ks, l),
                Item::Aot(ref ks, l) => m.aot(ks, l),
            }
        }
        m
    }
    pub fn find(&self, key: &str) -> Option<usize> {
        let mut i = 0;
        while i < self.ents.len() {
            if self.ents[i].key == key {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    fn kid(&mut self, parent: usize, key: &str) {
        for k in self.ents[parent].kids.iter() {
            if k == key {
                return;
            }
        }
        self.ents[parent].kids.push(key.to_string());
    }
    fn add(&mut self, key: String, k: K, val: Option<&'m RV>) -> usize {
        self.ents.push(Ent { key: key, k: k, val: val, kids: Vec::new(), cnt: 0 });
        self.ents.len() - 1
    }
    fn keyval(&mut self, a: usize, k: usize, v: &'m RV, l0: usize, l1: usize) {
        let key = &self.s[a..k];
        if let Some(e) = self.bad {
            let mut full = String::new();
            if let Err::Tab(ref t, _, ref mut kvs) = self.errs[e] {
                full = join(t, key);
                kvs.push((key.to_string(), v));
            }
            self.unstored(full, v);
            return;
        }
        let full = join(&self.ents[self.cur].key, key);
        match self.find(&full) {
            Some(_) => {
                self.unstored(full.clone(), v);
                self.errs.push(Err::Dup(full, l0, l1, v));
            }
            None => {
                let c = self.cur;
                self.kid(c, key);
                self.value(full, v);
            }
        }
    }
    fn mix(&mut self, key: String, l0: usize, l1: usize) {
        for e in self.errs.iter() {
            if let Err::Mix(ref k, ..) = *e {
                if *k == key {
                    return;
                }
            }
        }
        self.errs.push(Err::Mix(key, l0, l1));
    }
    /// a value that is not stored still has its dates and arrays looked at
    fn unstored(&mut self, key: String, v: &'m RV) {
        match *v {
            RV::Date(a, b, l) => {
                if !date_ok(&self.s.as_bytes()[a..b]) {
                    self.errs.push(Err::Date(key, l, a, b));
                }
            }
            RV::Arr(ref els, l0, l1, ..) => {
                let mut mixed = false;
                for i in 0..els.len() {
                    mixed = mixed || kind(&els[i]) != kind(&els[0]);
                    self.unstored(index(&key, i), &els[i]);
                }
                if mixed {
                    self.mix(key, l0, l1);
                }
            }
            RV::Inl(ref kvs, ..) => {
                for &(a, b, ref x, ..) in kvs.iter() {
                    let k = &self.s[a..b];
                    self.unstored(join(&key, k), x);
                }
            }
            _ => {}
        }
    }
    fn dates(&mut self, key: &str, v: &'m RV) {
        if let RV::Date(a, b, l) = *v {
            if !date_ok(&self.s.as_bytes()[a..b]) {
                self.errs.push(Err::Date(key.to_string(), l, a, b));
            }
        }
    }
    fn value(&mut self, key: String, v: &'m RV) {
        self.dates(&key, v);
        let me = self.add(key.clone(), K::Leaf, Some(v));
        match *v {
            RV::Arr(ref els, l0, l1, ..) => {
                let mut mixed = false;
                for i in 0..els.len() {
                    if kind(&els[i]) != kind(&els[0]) {
                        mixed = true;
                    }
                    self.value(index(&key, i), &els[i]);
                }
                self.ents[me].cnt = els.len();
                if mixed {
                    self.mix(key, l0, l1);
                }
            }
            RV::Inl(ref kvs, ..) => {
                for &(a, b, ref x, l0, l1) in kvs.iter() {
                    let k = &self.s[a..b];
                    let full = join(&key, k);
                    if self.find(&full).is_some() {
                        self.unstored(full.clone(), x);
                        self.errs.push(Err::Dup(full, l0, l1, x));
                    } else {
                        self.kid(me, k);
                        self.value(full, x);
                    }
                }
            }
            _ => {}
        }
    }
    fn bad_table(&mut self, full: String, line: usize) {
        self.errs.push(Err::Tab(full, line, Vec::new()));
        self.bad = Some(self.errs.len() - 1);
    }
    /// the table all but the last key lead to: (entry, whether they lead anywhere, full key of the parent)
    fn walk(&mut self, ks: &[(usize, usize)]) -> (usize, bool, String) {
        let s = self.s;
        let mut at = 0;
        let mut ok = true;
        let mut path = String::new();
        for i in 0..ks.len() - 1 {
            let k = &s[ks[i].0..ks[i].1];
            let full = join(&path, k);
            if !ok {
                path = full;
                continue;
            }
            match self.find(&full) {
                None => {
                    // made only if the whole header turns out to be fine
                    path = full;
                    at = usize::max_value();
                    let mut rest = path.clone();
                    for j in i + 1..ks.len() - 1 {
                        rest = join(&rest, &s[ks[j].0..ks[j].1]);
                    }
                    return (at, true, rest);
                }
                Some(e) => match self.ents[e].k {
                    K::Aot => {
                        path = index(&full, self.ents[e].cnt - 1);
                        at = self.find(&path).unwrap();
                    }
                    K::Leaf => {
                        ok = false;
                        path = full;
                    }
                    _ => {
                        path = full;
                        at = e;
                    }
                },
            }
        }
        (at, ok, path)
    }
    fn make_parents(&mut self, ks: &[(usize, usize)]) -> usize {
        let s = self.s;
        let mut at = 0;
        for i in 0..ks.len() - 1 {
            let k = &s[ks[i].0..ks[i].1];
            let full = join(&self.ents[at].key, k);
            at = match self.find(&full) {
                None => {
                    self.kid(at, k);
                    self.add(full, K::Implicit, None)
                }
                Some(e) if self.ents[e].k == K::Aot => {
                    let p = index(&full, self.ents[e].cnt - 1);
                    self.find(&p).unwrap()
                }
                Some(e) => e,
            };
        }
        at
    }
    fn std(&mut self, ks: &'m Vec<(usize, usize)>, line: usize) {
        self.bad = None;
        let (at, ok, path) = self.walk(ks);
        let last = ks[ks.len() - 1];
        let key = &self.s[last.0..last.1];
        let full = join(&path, key);
        let mut good = ok;
        // a table with pairs of its own takes no sub-tables (the elements of an array of tables do)
        if ok && at != usize::max_value() && at != 0 && self.ents[at].k != K::Elem && self.has_pairs(at) {
            good = false;
        }
        if good {
            if let Some(e) = self.find(&full) {
                good = self.ents[e].k == K::Implicit;
            }
        }
        if !good {
            return self.bad_table(full, line);
        }
        let p = self.make_parents(ks);
        self.kid(p, key);
        self.cur = match self.find(&full) {
            Some(e) => {
                self.ents[e].k = K::Table;
                e
            }
            None => self.add(full, K::Table, None),
        };
    }
    fn has_pairs(&self, at: usize) -> bool {
        for k in self.ents[at].kids.iter() {
            if let Some(e) = self.find(&join(&self.ents[at].key, k)) {
                if self.ents[e].k == K::Leaf {
                    return true;
                }
            }
        }
        false
    }
    fn aot(&mut self, ks: &'m Vec<(usize, usize)>, line: usize) {
        self.bad = None;
        let (_, ok, path) = self.walk(ks);
        let last = ks[ks.len() - 1];
        let key = &self.s[last.0..last.1];
        let full = join(&path, key);
        if !ok {
            return self.bad_table(index(&full, 0), line);
        }
        let e = match self.find(&full) {
            Some(e) => {
                if self.ents[e].k != K::Aot {
                    return self.bad_table(index(&full, 0), line);
                }
                e
            }
            None => {
                let p = self.make_parents(ks);
                self.kid(p, key);
                self.add(full.clone(), K::Aot, None)
            }
        };
        let n = self.ents[e].cnt;
        self.ents[e].cnt = n + 1;
        self.cur = self.add(index(&full, n), K::Elem, None);
    }
}

// ---------------------------------------------------------------- comparison

pub fn same(s: &str, r: &RV, v: &Value) -> bool {
    match (r, v) {
        (&RV::Int(a, b), &Value::Integer(ref t)) => &s[a..b] == &t[..],
        (&RV::Float(a, b), &Value::Float(ref t)) => &s[a..b] == &t[..],
        (&RV::Bool(x, _), &Value::Boolean(y)) => x == y,
        (&RV::Str(k, a, b), &Value::String(ref t, k2)) => k == k2 && &s[a..b] == &t[..],
        (&RV::Date(a, b, _), &Value::DateTime(ref d)) => same_date(&s[a..b], d),
        (&RV::Arr(ref x, ..), &Value::Array(ref y)) => {
            if x.len() != y.len() {
                return false;
            }
            for i in 0..x.len() {
                if !same(s, &x[i], &y[i]) {
                    return false;
                }
            }
            true
        }
        (&RV::Inl(ref x, ..), &Value::InlineTable(ref y)) => {
            if x.len() != y.len() {
                return false;
            }
            for i in 0..x.len() {
                let (a, b, ref v, ..) = x[i];
                if &s[a..b] != &y[i].0[..] || !same(s, v, &y[i].1) {
                    return false;
                }
            }
            true
        }
        _ => false,
    }
}
pub fn same_date(t: &str, d: &DateTime) -> bool {
    let n = t.len();
    if &t[0..4] != &d.date.year[..] || &t[5..7] != &d.date.month[..] || &t[8..10] != &d.date.day[..] {
        return false;
    }
    let tm = match d.time {
        None => return n == 10,
        Some(ref tm) => tm,
    };
    if n < 19 || &t[11..13] != &tm.hour[..] || &t[14..16] != &tm.minute[..] || &t[17..19] != &tm.second[..] {
        return false;
    }
    let b = t.as_bytes();
    let mut e = 19;
    if e < n && b[e] == b'.' {
        e += 1;
        while e < n && digit(b[e]) {
            e += 1;
        }
        match tm.fraction {
            Some(ref f) if &f[..] == &t[20..e] => {}
            _ => return false,
        }
    } else if tm.fraction.is_some() {
        return false;
    }
    match tm.offset {
        None => e == n,
        Some(TimeOffset::Zulu) => e + 1 == n && b[e] == b'Z',
        Some(TimeOffset::Time(ref o)) => e + 6 == n && (b[e] == if o.pos_neg == PosNeg::Pos { b'+' } else { b'-' }) && &t[e + 1..e + 3] == &o.hour[..] && &t[e + 4..e + 6] == &o.minute[..],
    }
}
