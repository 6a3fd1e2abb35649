//! Hash-consed bit-vector terms over symbolic input bytes.
//! Terms depending on a single input byte are kept in the normal form `Tab` (value for each of the
//! 256 byte values); every other term is structural.  All constructors are exact (no approximation).
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cop {
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Const(u128),
    Tab { v: u8, t: u32 },
    Bin(Bop, E, E),
    Cmp(Cop, E, E),
    Not(E),
    Concat(E, E), // hi, lo
    Extract(E, u8), // lo bit; width of the node
    SExt(E),
    Ite(E, E, E),
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn bin_c(op: Bop, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Bop::Add => a.wrapping_add(b),
        Bop::Sub => a.wrapping_sub(b),
        Bop::Mul => a.wrapping_mul(b),
        Bop::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Bop::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Bop::SDiv => {
            if b == 0 {
                m
            } else {
                sx(a, w).wrapping_div(sx(b, w)) as u128
            }
        }
        Bop::SRem => {
            if b == 0 {
                a
            } else {
                sx(a, w).wrapping_rem(sx(b, w)) as u128
            }
        }
        Bop::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Bop::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Bop::AShr => {
            if b >= w as u128 {
                (sx(a, w) >> 127) as u128
            } else {
                (sx(a, w) >> b) as u128
            }
        }
        Bop::And => a & b,
        Bop::Or => a | b,
        Bop::Xor => a ^ b,
    }) & m
}
pub fn cmp_c(op: Cop, w: u32, a: u128, b: u128) -> bool {
    match op {
        Cop::Eq => a == b,
        Cop::Ult => a < b,
        Cop::Slt => sx(a, w) < sx(b, w),
    }
}

pub type Set = [u64; 4];
pub const FULL: Set = [!0; 4];
pub fn set_has(s: &Set, v: u8) -> bool {
    s[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_not(a: &Set) -> Set {
    [!a[0], !a[1], !a[2], !a[3]]
}
pub fn set_empty(a: &Set) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn set_count(a: &Set) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn set_min(a: &Set) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i as u32 * 64 + a[i].trailing_zeros()) as u8;
        }
    }
    0
}

pub struct Arena {
    pub n: Vec<N>,
    pub w: Vec<u8>,
    pub supp: Vec<u128>,
    map: HashMap<(N, u8), E>,
    pub tabs: Vec<Rc<[u64; 256]>>,
    tmap: HashMap<Rc<[u64; 256]>, u32>,
    sets: HashMap<E, Set>,
    memo: Vec<(u32, u128)>,
    gen: u32,
    bmemo: HashMap<(u8, E, E, E), E>,
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            n: vec![],
            w: vec![],
            supp: vec![],
            map: HashMap::new(),
            tabs: vec![],
            tmap: HashMap::new(),
            sets: HashMap::new(),
            memo: vec![],
            gen: 0,
            bmemo: HashMap::new(),
        };
        a.mk(N::Const(0), 1, 0); // 0: false; id 0 doubles as "no symbolic byte" marker
        a
    }
    fn mk(&mut self, n: N, w: u32, s: u128) -> E {
        if let Some(e) = self.map.get(&(n, w as u8)) {
            return *e;
        }
        let id = self.n.len() as E;
        self.n.push(n);
        self.w.push(w as u8);
        self.supp.push(s);
        self.memo.push((0, 0));
        self.map.insert((n, w as u8), id);
        id
    }
    pub fn width(&self, e: E) -> u32 {
        self.w[e as usize] as u32
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(N::Const(v & mask(w)), w, 0)
    }
    pub fn as_c(&self, e: E) -> Option<u128> {
        match self.n[e as usize] {
            N::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn tab(&mut self, v: u8, t: [u64; 256], w: u32) -> E {
        let f = t[0];
        if t.iter().all(|x| *x == f) {
            return self.c(f as u128, w);
        }
        let rc = Rc::new(t);
        let id = match self.tmap.get(&rc) {
            Some(i) => *i,
            None => {
                let i = self.tabs.len() as u32;
                self.tabs.push(rc.clone());
                self.tmap.insert(rc, i);
                i
            }
        };
        self.mk(N::Tab { v, t: id }, w, 1u128 << v)
    }
    pub fn var(&mut self, v: u8) -> E {
        let mut t = [0u64; 256];
        for i in 0..256 {
            t[i] = i as u64;
        }
        self.tab(v, t, 8)
    }
    pub fn in_set(&mut self, v: u8, s: &Set) -> E {
        let mut t = [0u64; 256];
        for i in 0..256 {
            t[i] = set_has(s, i as u8) as u64;
        }
        self.tab(v, t, 1)
    }
    /// truth set of a 1-bit Tab
    pub fn truth(&mut self, e: E) -> Option<(u8, Set)> {
        if let N::Tab { v, t } = self.n[e as usize] {
            if self.w[e as usize] != 1 {
                return None;
            }
            if let Some(s) = self.sets.get(&e) {
                return Some((v, *s));
            }
            let tb = &self.tabs[t as usize];
            let mut s = [0u64; 4];
            for i in 0..256 {
                if tb[i] != 0 {
                    s[i >> 6] |= 1 << (i & 63);
                }
            }
            self.sets.insert(e, s);
            Some((v, s))
        } else {
            None
        }
    }
    fn unary_of(&self, e: E) -> Option<(u8, u32)> {
        match self.n[e as usize] {
            N::Tab { v, t } => Some((v, t)),
            _ => None,
        }
    }
    /// pointwise combination when both depend on (at most) the same single byte
    fn pw2(&mut self, a: E, b: E, w: u32, f: &dyn Fn(u128, u128) -> u128) -> Option<E> {
        let (ca, cb) = (self.as_c(a), self.as_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return Some(self.c(f(x, y), w));
        }
        if w > 64 || self.width(a) > 64 || self.width(b) > 64 {
            return None;
        }
        let (ua, ub) = (self.unary_of(a), self.unary_of(b));
        let mut t = [0u64; 256];
        let v = match (ua, ub, ca, cb) {
            (Some((v, x)), Some((v2, y)), _, _) if v == v2 => {
                let (x, y) = (&self.tabs[x as usize], &self.tabs[y as usize]);
                for i in 0..256 {
                    t[i] = f(x[i] as u128, y[i] as u128) as u64;
                }
                v
            }
            (Some((v, x)), None, _, Some(k)) => {
                let x = &self.tabs[x as usize];
                for i in 0..256 {
                    t[i] = f(x[i] as u128, k) as u64;
                }
                v
            }
            (None, Some((v, y)), Some(k), _) => {
                let y = &self.tabs[y as usize];
                for i in 0..256 {
                    t[i] = f(k, y[i] as u128) as u64;
                }
                v
            }
            _ => return None,
        };
        Some(self.tab(v, t, w))
    }
    fn pw1(&mut self, a: E, w: u32, f: &dyn Fn(u128) -> u128) -> Option<E> {
        if let Some(x) = self.as_c(a) {
            return Some(self.c(f(x), w));
        }
        if w > 64 || self.width(a) > 64 {
            return None;
        }
        if let Some((v, x)) = self.unary_of(a) {
            let mut t = [0u64; 256];
            let x = &self.tabs[x as usize];
            for i in 0..256 {
                t[i] = f(x[i] as u128) as u64;
            }
            return Some(self.tab(v, t, w));
        }
        None
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.width(a);
        if let Some(r) = self.pw1(a, w, &|x| !x & mask(w)) {
            return r;
        }
        if let N::Not(x) = self.n[a as usize] {
            return x;
        }
        let s = self.supp[a as usize];
        self.mk(N::Not(a), w, s)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        self.bin(Bop::And, w, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        self.bin(Bop::Or, w, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.cmp(Cop::Eq, a, b)
    }

    fn flatten(&self, e: E, out: &mut Vec<E>) {
        match self.n[e as usize] {
            N::Concat(h, l) => {
                self.flatten(h, out);
                self.flatten(l, out);
            }
            _ => out.push(e),
        }
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.width(a);
        if aw >= w {
            return a;
        }
        let z = self.c(0, w - aw);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.width(a);
        if aw >= w {
            return a;
        }
        if let Some(r) = self.pw1(a, w, &|x| sx(x, aw) as u128 & mask(w)) {
            return r;
        }
        if self.top_zero(a) {
            return self.zext(a, w);
        }
        let s = self.supp[a as usize];
        self.mk(N::SExt(a), w, s)
    }
    fn top_zero(&self, a: E) -> bool {
        match self.n[a as usize] {
            N::Concat(h, _) => self.top_zero(h),
            N::Const(k) => k >> (self.width(a) - 1) & 1 == 0,
            N::Tab { t, .. } => {
                let w = self.width(a);
                w <= 64 && self.tabs[t as usize].iter().all(|x| x >> (w - 1) & 1 == 0)
            }
            N::Ite(_, x, y) => self.top_zero(x) && self.top_zero(y),
            _ => false,
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.width(h), self.width(l));
        let w = hw + lw;
        assert!(w <= 128);
        if let Some(r) = self.pw2(h, l, w, &|x, y| x << lw | y) {
            return r;
        }
        // normalise to right-nested with merged neighbours
        if let N::Concat(hh, hl) = self.n[h as usize] {
            let t = self.concat(hl, l);
            return self.concat(hh, t);
        }
        if let N::Concat(lh, ll) = self.n[l as usize] {
            // try merging h with lh
            if let Some(m) = self.merge(h, lh) {
                return self.concat(m, ll);
            }
        } else if let Some(m) = self.merge(h, l) {
            return m;
        }
        let s = self.supp[h as usize] | self.supp[l as usize];
        self.mk(N::Concat(h, l), w, s)
    }
    fn merge(&mut self, h: E, l: E) -> Option<E> {
        let (hw, lw) = (self.width(h), self.width(l));
        match (self.n[h as usize], self.n[l as usize]) {
            (N::Const(a), N::Const(b)) => Some(self.c(a << lw | b, hw + lw)),
            (N::Extract(x, p), N::Extract(y, q)) if x == y && p as u32 == q as u32 + lw => Some(self.extract(x, q as u32, hw + lw)),
            _ => {
                if hw + lw <= 64 {
                    self.pw2(h, l, hw + lw, &|x, y| x << lw | y)
                } else {
                    None
                }
            }
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.width(a);
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw);
        if let Some(r) = self.pw1(a, w, &|x| x >> lo & mask(w)) {
            return r;
        }
        match self.n[a as usize] {
            N::Concat(h, l) => {
                let lw = self.width(l);
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                let x = self.extract(h, 0, lo + w - lw);
                let y = self.extract(l, lo, lw - lo);
                return self.concat(x, y);
            }
            N::Extract(x, p) => return self.extract(x, lo + p as u32, w),
            N::Ite(c, x, y) => {
                let x2 = self.extract(x, lo, w);
                let y2 = self.extract(y, lo, w);
                return self.ite(c, x2, y2);
            }
            N::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), x, y) => {
                let x2 = self.extract(x, lo, w);
                let y2 = self.extract(y, lo, w);
                return self.bin(op, w, x2, y2);
            }
            N::Bin(op @ (Bop::Add | Bop::Sub | Bop::Mul), x, y) if lo == 0 => {
                let x2 = self.extract(x, 0, w);
                let y2 = self.extract(y, 0, w);
                return self.bin(op, w, x2, y2);
            }
            N::Not(x) => {
                let x2 = self.extract(x, lo, w);
                return self.not(x2);
            }
            N::SExt(x) => {
                let xw = self.width(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
            }
            _ => {}
        }
        let s = self.supp[a as usize];
        self.mk(N::Extract(a, lo as u8), w, s)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(k) = self.as_c(c) {
            return if k != 0 { a } else { b };
        }
        let w = self.width(a);
        if w <= 64 {
            if let Some((v, s)) = self.truth(c) {
                let ok = |n: &N| match n {
                    N::Const(_) => true,
                    N::Tab { v: v2, .. } => *v2 == v,
                    _ => false,
                };
                if ok(&self.n[a as usize]) && ok(&self.n[b as usize]) {
                    let mut t = [0u64; 256];
                    for i in 0..256 {
                        let e = if set_has(&s, i as u8) { a } else { b };
                        t[i] = match self.n[e as usize] {
                            N::Const(k) => k as u64,
                            N::Tab { t, .. } => self.tabs[t as usize][i],
                            _ => unreachable!(),
                        };
                    }
                    return self.tab(v, t, w);
                }
            }
        }
        if w == 1 {
            match (self.as_c(a), self.as_c(b)) {
                (Some(1), Some(_)) => return c,
                (Some(0), Some(_)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let N::Not(x) = self.n[c as usize] {
            return self.ite(x, b, a);
        }
        let s = self.supp[a as usize] | self.supp[b as usize] | self.supp[c as usize];
        self.mk(N::Ite(c, a, b), w, s)
    }
    fn ite_consts(&self, e: E) -> Option<(E, u128, u128)> {
        if let N::Ite(c, a, b) = self.n[e as usize] {
            if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
                return Some((c, x, y));
            }
        }
        None
    }
    /// nested ite whose leaves are constants (bounded size)
    fn ite_leaves(&self, e: E, d: u32) -> bool {
        match self.n[e as usize] {
            N::Const(_) => true,
            N::Ite(_, a, b) if d > 0 => self.ite_leaves(a, d - 1) && self.ite_leaves(b, d - 1),
            _ => false,
        }
    }
    fn map_leaves(&mut self, e: E, f: &mut dyn FnMut(&mut Arena, E) -> E) -> E {
        if let N::Ite(c, a, b) = self.n[e as usize] {
            let x = self.map_leaves(a, f);
            let y = self.map_leaves(b, f);
            self.ite(c, x, y)
        } else {
            f(self, e)
        }
    }

    pub fn bin(&mut self, op: Bop, w: u32, a: E, b: E) -> E {
        let key = (op as u8, a, b, w);
        if let Some(r) = self.bmemo.get(&key) {
            return *r;
        }
        let r = self.bin0(op, w, a, b);
        self.bmemo.insert(key, r);
        r
    }
    fn bin0(&mut self, op: Bop, w: u32, a: E, b: E) -> E {
        if let Some(r) = self.pw2(a, b, w, &|x, y| bin_c(op, w, x, y)) {
            return r;
        }
        let (ca, cb) = (self.as_c(a), self.as_c(b));
        // commutative: constant on the right
        if ca.is_some() && matches!(op, Bop::Add | Bop::Mul | Bop::And | Bop::Or | Bop::Xor) {
            return self.bin(op, w, b, a);
        }
        let full = mask(w);
        if let Some(k) = cb {
            match op {
                Bop::Add | Bop::Sub | Bop::Or | Bop::Xor | Bop::Shl | Bop::LShr | Bop::AShr if k == 0 => return a,
                Bop::Mul if k == 0 => return b,
                Bop::Mul if k == 1 => return a,
                Bop::UDiv if k == 1 => return a,
                Bop::And if k == 0 => return b,
                Bop::And if k == full => return a,
                Bop::Or if k == full => return b,
                Bop::Xor if k == full => return self.not(a),
                Bop::Sub => {
                    let nk = self.c(k.wrapping_neg(), w);
                    return self.bin(Bop::Add, w, a, nk);
                }
                Bop::Mul | Bop::UDiv | Bop::URem if k.is_power_of_two() => {
                    let sh = k.trailing_zeros();
                    match op {
                        Bop::Mul => {
                            let s = self.c(sh as u128, w);
                            return self.bin(Bop::Shl, w, a, s);
                        }
                        Bop::UDiv => {
                            let s = self.c(sh as u128, w);
                            return self.bin(Bop::LShr, w, a, s);
                        }
                        _ => {
                            let x = self.extract(a, 0, sh.max(1));
                            return if sh == 0 { self.c(0, w) } else { self.zext(x, w) };
                        }
                    }
                }
                Bop::Shl => {
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let x = self.extract(a, 0, w - k as u32);
                    let z = self.c(0, k as u32);
                    return self.concat(x, z);
                }
                Bop::LShr => {
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let x = self.extract(a, k as u32, w - k as u32);
                    return self.zext(x, w);
                }
                Bop::AShr => {
                    if self.top_zero(a) {
                        return self.bin(Bop::LShr, w, a, b);
                    }
                    if k < w as u128 {
                        let x = self.extract(a, k as u32, w - k as u32);
                        return self.sext(x, w);
                    }
                }
                Bop::Add => {
                    if let N::Bin(Bop::Add, x, y) = self.n[a as usize] {
                        if let Some(k2) = self.as_c(y) {
                            let s = self.c(k.wrapping_add(k2), w);
                            return self.bin(Bop::Add, w, x, s);
                        }
                    }
                }
                _ => {}
            }
            if self.ite_leaves(a, 6) {
                return self.map_leaves(a, &mut |ar, e| ar.bin(op, w, e, b));
            }
        }
        if let Some(k) = ca {
            if k == 0 && matches!(op, Bop::Shl | Bop::LShr | Bop::AShr | Bop::UDiv | Bop::URem) {
                if !matches!(op, Bop::UDiv | Bop::URem) {
                    return a;
                }
            }
            if self.ite_leaves(b, 6) {
                return self.map_leaves(b, &mut |ar, e| ar.bin(op, w, a, e));
            }
        }
        if a == b {
            match op {
                Bop::And | Bop::Or => return a,
                Bop::Xor | Bop::Sub => return self.c(0, w),
                _ => {}
            }
        }
        if w == 1 {
            // absorption with complement
            let na = self.not(a);
            if na == b {
                match op {
                    Bop::And => return self.c(0, 1),
                    Bop::Or | Bop::Xor => return self.c(1, 1),
                    _ => {}
                }
            }
            match op {
                Bop::Add | Bop::Sub => return self.bin(Bop::Xor, 1, a, b),
                Bop::Mul => return self.bin(Bop::And, 1, a, b),
                _ => {}
            }
        }
        if w > 1 && matches!(op, Bop::And | Bop::Or | Bop::Xor) {
            // piecewise when some operand is a concatenation or a constant
            let is_c = |ar: &Arena, e: E| matches!(ar.n[e as usize], N::Concat(..) | N::Const(_));
            if is_c(self, a) || is_c(self, b) {
                let mut cuts: Vec<u32> = vec![];
                for e in [a, b] {
                    if let Some(k) = self.as_c(e) {
                        for i in 1..w {
                            if (k >> i & 1) != (k >> (i - 1) & 1) {
                                cuts.push(i);
                            }
                        }
                    } else {
                        let mut ps = vec![];
                        self.flatten(e, &mut ps);
                        let mut o = 0;
                        for p in ps.iter().rev() {
                            o += self.width(*p);
                            if o < w {
                                cuts.push(o);
                            }
                        }
                    }
                }
                cuts.sort();
                cuts.dedup();
                if !cuts.is_empty() && cuts.len() <= 16 {
                    cuts.push(w);
                    let mut lo = 0;
                    let mut acc: Option<E> = None;
                    for hi in cuts {
                        let x = self.extract(a, lo, hi - lo);
                        let y = self.extract(b, lo, hi - lo);
                        let r = self.bin(op, hi - lo, x, y);
                        acc = Some(match acc {
                            None => r,
                            Some(l) => self.concat(r, l),
                        });
                        lo = hi;
                    }
                    return acc.unwrap();
                }
            }
        }
        if matches!(op, Bop::And | Bop::Or | Bop::Xor | Bop::Add | Bop::Mul) && a > b && cb.is_none() {
            return self.bin(op, w, b, a);
        }
        let s = self.supp[a as usize] | self.supp[b as usize];
        self.mk(N::Bin(op, a, b), w, s)
    }

    pub fn cmp(&mut self, op: Cop, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if let Some(r) = self.pw2(a, b, 1, &|x, y| cmp_c(op, w, x, y) as u128) {
            return r;
        }
        if a == b {
            return self.c((op == Cop::Eq) as u128, 1);
        }
        let (ca, cb) = (self.as_c(a), self.as_c(b));
        if op == Cop::Eq {
            if ca.is_some() {
                return self.cmp(op, b, a);
            }
            if w == 1 {
                if let Some(k) = cb {
                    return if k == 1 { a } else { self.not(a) };
                }
            }
            // piecewise
            let mut pa = vec![];
            let mut pb = vec![];
            self.flatten(a, &mut pa);
            self.flatten(b, &mut pb);
            if pa.len() > 1 || pb.len() > 1 {
                let mut cuts = vec![];
                let mut ok = true;
                let mut bounds = |ps: &Vec<E>, ar: &Arena| {
                    let mut o = 0;
                    let mut v = vec![];
                    for p in ps.iter().rev() {
                        o += ar.width(*p);
                        v.push(o);
                    }
                    v
                };
                let ba = bounds(&pa, self);
                let bb = bounds(&pb, self);
                if cb.is_some() {
                    cuts = ba;
                } else if ba == bb {
                    cuts = ba;
                } else {
                    // cut constants only where needed
                    let mut all: Vec<u32> = ba.iter().chain(bb.iter()).cloned().collect();
                    all.sort();
                    all.dedup();
                    if all.len() <= 20 {
                        cuts = all;
                    } else {
                        ok = false;
                    }
                }
                if ok && cuts.len() > 1 {
                    let mut lo = 0;
                    let mut acc = self.c(1, 1);
                    for hi in cuts {
                        let x = self.extract(a, lo, hi - lo);
                        let y = self.extract(b, lo, hi - lo);
                        let r = self.cmp(Cop::Eq, x, y);
                        acc = self.and(acc, r);
                        if self.as_c(acc) == Some(0) {
                            return acc;
                        }
                        lo = hi;
                    }
                    return acc;
                }
            }
            if let Some(k) = cb {
                if let N::Bin(Bop::Add, x, y) = self.n[a as usize] {
                    if let Some(k2) = self.as_c(y) {
                        let c = self.c(k.wrapping_sub(k2), w);
                        return self.cmp(op, x, c);
                    }
                }
                if let N::Not(x) = self.n[a as usize] {
                    let c = self.c(!k, w);
                    return self.cmp(op, x, c);
                }
                if let N::SExt(x) = self.n[a as usize] {
                    let xw = self.width(x);
                    let t = self.c(k, xw);
                    if sx(k & mask(xw), xw) as u128 & mask(w) == k {
                        return self.cmp(op, x, t);
                    }
                    return self.c(0, 1);
                }
            }
        } else {
            if op == Cop::Slt {
                if self.top_zero(a) && self.top_zero(b) {
                    return self.cmp(Cop::Ult, a, b);
                }
                if cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if let Some(k) = ca {
                    if k == mask(w) {
                        // -1 < b
                        let t = self.extract(b, w - 1, 1);
                        return self.not(t);
                    }
                }
            } else {
                // Ult
                if cb == Some(0) {
                    return self.c(0, 1);
                }
                if cb == Some(1) {
                    let z = self.c(0, w);
                    return self.cmp(Cop::Eq, a, z);
                }
                if ca == Some(0) {
                    let z = self.c(0, w);
                    let e = self.cmp(Cop::Eq, b, z);
                    return self.not(e);
                }
                // strip common zero extension
                let za = self.zlen(a);
                let zb = self.zlen(b);
                if ca.is_none() && cb.is_none() {
                    let z = za.min(zb);
                    if z > 0 {
                        let x = self.extract(a, 0, w - z);
                        let y = self.extract(b, 0, w - z);
                        return self.cmp(Cop::Ult, x, y);
                    }
                } else if let Some(k) = cb {
                    if za > 0 {
                        if k >> (w - za) != 0 {
                            return self.c(1, 1);
                        }
                        let x = self.extract(a, 0, w - za);
                        let y = self.c(k, w - za);
                        return self.cmp(Cop::Ult, x, y);
                    }
                } else if let Some(k) = ca {
                    if zb > 0 {
                        if k >> (w - zb) != 0 {
                            return self.c(0, 1);
                        }
                        let y = self.extract(b, 0, w - zb);
                        let x = self.c(k, w - zb);
                        return self.cmp(Cop::Ult, x, y);
                    }
                }
            }
        }
        if cb.is_some() && self.ite_leaves(a, 6) {
            return self.map_leaves(a, &mut |ar, e| ar.cmp(op, e, b));
        }
        if ca.is_some() && self.ite_leaves(b, 6) {
            return self.map_leaves(b, &mut |ar, e| ar.cmp(op, a, e));
        }
        if op == Cop::Eq && a > b && cb.is_none() {
            return self.cmp(op, b, a);
        }
        let s = self.supp[a as usize] | self.supp[b as usize];
        self.mk(N::Cmp(op, a, b), 1, s)
    }
    fn zlen(&self, e: E) -> u32 {
        match self.n[e as usize] {
            N::Concat(h, _) => {
                if self.as_c(h) == Some(0) {
                    self.width(h)
                } else {
                    self.zlen(h)
                }
            }
            _ => 0,
        }
    }

    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 {
            for m in self.memo.iter_mut() {
                m.0 = 0;
            }
            self.gen = 1;
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u128 {
        let n = self.n[e as usize];
        match n {
            N::Const(k) => return k,
            N::Tab { v, t } => return self.tabs[t as usize][*m.get(v as usize).unwrap_or(&0) as usize] as u128,
            _ => {}
        }
        if self.memo[e as usize].0 == self.gen {
            return self.memo[e as usize].1;
        }
        let w = self.width(e);
        let r = match n {
            N::Bin(op, a, b) => {
                let x = self.ev(a, m);
                if w == 1 {
                    if op == Bop::And && x == 0 {
                        0
                    } else if op == Bop::Or && x == 1 {
                        1
                    } else {
                        let y = self.ev(b, m);
                        bin_c(op, w, x, y)
                    }
                } else {
                    let y = self.ev(b, m);
                    bin_c(op, w, x, y)
                }
            }
            N::Cmp(op, a, b) => {
                let x = self.ev(a, m);
                let y = self.ev(b, m);
                cmp_c(op, self.width(a), x, y) as u128
            }
            N::Not(a) => !self.ev(a, m) & mask(w),
            N::Concat(h, l) => {
                let x = self.ev(h, m);
                let y = self.ev(l, m);
                x << self.width(l) | y
            }
            N::Extract(a, lo) => self.ev(a, m) >> lo & mask(w),
            N::SExt(a) => {
                let x = self.ev(a, m);
                sx(x, self.width(a)) as u128 & mask(w)
            }
            N::Ite(c, a, b) => {
                if self.ev(c, m) != 0 {
                    self.ev(a, m)
                } else {
                    self.ev(b, m)
                }
            }
            _ => unreachable!(),
        };
        let g = self.gen;
        self.memo[e as usize] = (g, r);
        r
    }
    #[allow(dead_code)]
    pub fn ite_c(&self, e: E) -> Option<(E, u128, u128)> {
        self.ite_consts(e)
    }
    /// conjuncts of (e == want)
    pub fn conj(&mut self, e: E, want: bool, out: &mut Vec<E>) {
        if self.w[e as usize] == 1 {
            match self.n[e as usize] {
                N::Bin(Bop::And, a, b) if want => {
                    self.conj(a, true, out);
                    self.conj(b, true, out);
                    return;
                }
                N::Bin(Bop::Or, a, b) if !want => {
                    self.conj(a, false, out);
                    self.conj(b, false, out);
                    return;
                }
                N::Not(a) => {
                    self.conj(a, !want, out);
                    return;
                }
                _ => {}
            }
        }
        let x = if want { e } else { self.not(e) };
        out.push(x);
    }
}
