//! Stand-in for the regex crate in the symbolic build: same API, matching delegated to the engine.
extern "C" {
    fn __sym_regex(pat: *const u8, plen: usize, text: *const u8, tlen: usize, from: usize, caps: *mut usize, maxcaps: usize) -> usize;
}
#[derive(Debug)]
pub enum Error {
    Bad,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("bad regex")
    }
}
impl std::error::Error for Error {}

#[derive(Clone)]
pub struct Regex {
    p: String,
    n: usize,
}
pub fn is_match(p: &str, t: &str) -> Result<bool, Error> {
    Regex::new(p).map(|r| r.is_match(t))
}
impl Regex {
    pub fn new(p: &str) -> Result<Regex, Error> {
        let n = 1 + p.bytes().filter(|&b| b == b'(').count();
        Ok(Regex { p: p.to_string(), n: n })
    }
    pub fn as_str(&self) -> &str {
        &self.p
    }
    fn exec(&self, t: &str, from: usize, n: usize) -> Option<Vec<usize>> {
        let mut c = vec![usize::MAX; 2 * n];
        let r = unsafe { __sym_regex(self.p.as_ptr(), self.p.len(), t.as_ptr(), t.len(), from, c.as_mut_ptr(), n) };
        if r == 0 {
            None
        } else {
            c.truncate(2 * r);
            Some(c)
        }
    }
    pub fn is_match(&self, t: &str) -> bool {
        self.exec(t, 0, 1).is_some()
    }
    pub fn find(&self, t: &str) -> Option<(usize, usize)> {
        self.exec(t, 0, 1).map(|c| (c[0], c[1]))
    }
    pub fn captures<'t>(&self, t: &'t str) -> Option<Captures<'t>> {
        self.exec(t, 0, self.n).map(|c| Captures { t: t, locs: c })
    }
    pub fn find_iter<'r, 't>(&'r self, t: &'t str) -> FindMatches<'r, 't> {
        FindMatches { r: self, t: t, at: 0, last: None }
    }
    pub fn captures_iter<'r, 't>(&'r self, t: &'t str) -> FindCaptures<'r, 't> {
        FindCaptures { r: self, t: t, at: 0, last: None }
    }
    pub fn split<'r, 't>(&'r self, t: &'t str) -> std::vec::IntoIter<&'t str> {
        let mut v = vec![];
        let mut l = 0;
        for (a, b) in self.find_iter(t) {
            v.push(&t[l..a]);
            l = b;
        }
        v.push(&t[l..]);
        v.into_iter()
    }
    pub fn replace_all(&self, t: &str, rep: &str) -> String {
        let mut o = String::new();
        let mut l = 0;
        for (a, b) in self.find_iter(t) {
            o.push_str(&t[l..a]);
            o.push_str(rep);
            l = b;
        }
        o.push_str(&t[l..]);
        o
    }
    pub fn replace(&self, t: &str, rep: &str) -> String {
        match self.find(t) {
            None => t.to_string(),
            Some((a, b)) => format!("{}{}{}", &t[..a], rep, &t[b..]),
        }
    }
}
fn next_char(t: &str, i: usize) -> usize {
    match t[i..].chars().next() {
        Some(c) => i + c.len_utf8(),
        None => t.len() + 1,
    }
}
pub struct FindMatches<'r, 't> {
    r: &'r Regex,
    t: &'t str,
    at: usize,
    last: Option<usize>,
}
impl<'r, 't> Iterator for FindMatches<'r, 't> {
    type Item = (usize, usize);
    fn next(&mut self) -> Option<(usize, usize)> {
        loop {
            if self.at > self.t.len() {
                return None;
            }
            let c = match self.r.exec(self.t, self.at, 1) {
                None => return None,
                Some(c) => c,
            };
            if c[0] == c[1] {
                self.at = next_char(self.t, c[1]);
                if self.last == Some(c[1]) {
                    continue;
                }
            } else {
                self.at = c[1];
            }
            self.last = Some(c[1]);
            return Some((c[0], c[1]));
        }
    }
}
pub struct FindCaptures<'r, 't> {
    r: &'r Regex,
    t: &'t str,
    at: usize,
    last: Option<usize>,
}
impl<'r, 't> Iterator for FindCaptures<'r, 't> {
    type Item = Captures<'t>;
    fn next(&mut self) -> Option<Captures<'t>> {
        loop {
            if self.at > self.t.len() {
                return None;
            }
            let c = match self.r.exec(self.t, self.at, self.r.n) {
                None => return None,
                Some(c) => c,
            };
            if c[0] == c[1] {
                self.at = next_char(self.t, c[1]);
                if self.last == Some(c[1]) {
                    continue;
                }
            } else {
                self.at = c[1];
            }
            self.last = Some(c[1]);
            return Some(Captures { t: self.t, locs: c });
        }
    }
}
pub struct Captures<'t> {
    t: &'t str,
    locs: Vec<usize>,
}
impl<'t> Captures<'t> {
    pub fn pos(&self, i: usize) -> Option<(usize, usize)> {
        if 2 * i + 1 >= self.locs.len() || self.locs[2 * i] == usize::MAX {
            None
        } else {
            Some((self.locs[2 * i], self.locs[2 * i + 1]))
        }
    }
    pub fn at(&self, i: usize) -> Option<&'t str> {
        self.pos(i).map(|(a, b)| &self.t[a..b])
    }
    pub fn len(&self) -> usize {
        self.locs.len() / 2
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn iter(&self) -> SubCaptures<'t, '_> {
        SubCaptures { c: self, i: 0 }
    }
    pub fn iter_pos(&self) -> SubCapturesPos<'t, '_> {
        SubCapturesPos { c: self, i: 0 }
    }
}
pub struct SubCaptures<'t, 'c> {
    c: &'c Captures<'t>,
    i: usize,
}
impl<'t, 'c> Iterator for SubCaptures<'t, 'c> {
    type Item = Option<&'t str>;
    fn next(&mut self) -> Option<Option<&'t str>> {
        if self.i >= self.c.len() {
            None
        } else {
            self.i += 1;
            Some(self.c.at(self.i - 1))
        }
    }
}
pub struct SubCapturesPos<'t, 'c> {
    c: &'c Captures<'t>,
    i: usize,
}
impl<'t, 'c> Iterator for SubCapturesPos<'t, 'c> {
    type Item = Option<(usize, usize)>;
    fn next(&mut self) -> Option<Option<(usize, usize)>> {
        if self.i >= self.c.len() {
            None
        } else {
            self.i += 1;
            Some(self.c.pos(self.i - 1))
        }
    }
}
impl std::fmt::Display for Regex {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.p)
    }
}
impl std::fmt::Debug for Regex {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.p)
    }
}
