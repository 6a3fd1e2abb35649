//! Path conditions and the decision procedure: exact finite-domain layer per input byte, z3 (QF_BV)
//! for everything that relates several bytes.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::c_void;
use std::os::raw::{c_char, c_int, c_uint};
use std::rc::Rc;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
}

#[derive(Clone)]
pub struct Pc {
    pub dom: Rc<Vec<Set>>,
    pub multi: Rc<Vec<E>>,
    pub msupp: u128,
    pub model: Rc<Vec<u8>>,
}

impl Pc {
    pub fn new() -> Pc {
        Pc { dom: Rc::new(vec![]), multi: Rc::new(vec![]), msupp: 0, model: Rc::new(vec![]) }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub fast: u64,
    pub z3: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub z3_us: u64,
    pub z3_max_us: u64,
    pub cache: u64,
    pub eq: u64,
    pub audits: u64,
}

pub struct Solver {
    ctx: P,
    sol: P,
    ast: HashMap<E, P>,  // bit-vector terms
    bast: HashMap<E, P>, // boolean terms (1 bit)
    vars: Vec<P>,
    pub st: Stats,
    pub tick: u64,
    pub audit_every: u64,
    cache: HashMap<Vec<u64>, Option<Vec<(u8, u8)>>>,
}

pub enum R {
    Sat(Rc<Vec<u8>>),
    Unsat,
    Unknown,
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, b"timeout\0".as_ptr() as *const c_char, b"60000\0".as_ptr() as *const c_char);
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            let l = Z3_mk_string_symbol(ctx, b"QF_BV\0".as_ptr() as *const c_char);
            let sol = Z3_mk_solver_for_logic(ctx, l);
            Z3_solver_inc_ref(ctx, sol);
            Solver { ctx, sol, ast: HashMap::new(), bast: HashMap::new(), vars: vec![], st: Stats::default(), tick: 0, audit_every: 128, cache: HashMap::new() }
        }
    }
    fn var(&mut self, v: u8) -> P {
        unsafe {
            while self.vars.len() <= v as usize {
                let s = Z3_mk_int_symbol(self.ctx, self.vars.len() as c_int);
                let t = Z3_mk_bv_sort(self.ctx, 8);
                self.vars.push(Z3_mk_const(self.ctx, s, t));
            }
        }
        self.vars[v as usize]
    }
    fn num(&mut self, k: u128, w: u32) -> P {
        unsafe {
            if w <= 64 {
                let t = Z3_mk_bv_sort(self.ctx, w);
                Z3_mk_unsigned_int64(self.ctx, k as u64, t)
            } else {
                let h = self.num(k >> 64, w - 64);
                let l = self.num(k & mask(64), 64);
                Z3_mk_concat(self.ctx, h, l)
            }
        }
    }
    fn set_ast(&mut self, v: u8, s: &Set) -> P {
        let x = self.var(v);
        let mut parts = vec![];
        let mut i = 0usize;
        while i < 256 {
            if set_has(s, i as u8) {
                let st = i;
                while i < 256 && set_has(s, i as u8) {
                    i += 1;
                }
                let lo = self.num(st as u128, 8);
                let hi = self.num(i as u128 - 1, 8);
                unsafe {
                    if st + 1 == i {
                        parts.push(Z3_mk_eq(self.ctx, x, lo));
                    } else {
                        let a = Z3_mk_bvule(self.ctx, lo, x);
                        let b = Z3_mk_bvule(self.ctx, x, hi);
                        parts.push(Z3_mk_and(self.ctx, 2, [a, b].as_ptr()));
                    }
                }
            } else {
                i += 1;
            }
        }
        unsafe { Z3_mk_or(self.ctx, parts.len() as c_uint, parts.as_ptr()) }
    }
    fn boolean(&mut self, ar: &mut Arena, e: E) -> P {
        if let Some(a) = self.bast.get(&e) {
            return *a;
        }
        let c = self.ctx;
        let r = unsafe {
            match ar.n[e as usize] {
                N::Tab { .. } => {
                    let (v, s) = ar.truth(e).unwrap();
                    self.set_ast(v, &s)
                }
                N::Bin(Bop::And, a, b) => {
                    let x = self.boolean(ar, a);
                    let y = self.boolean(ar, b);
                    Z3_mk_and(c, 2, [x, y].as_ptr())
                }
                N::Bin(Bop::Or, a, b) => {
                    let x = self.boolean(ar, a);
                    let y = self.boolean(ar, b);
                    Z3_mk_or(c, 2, [x, y].as_ptr())
                }
                N::Not(a) => {
                    let x = self.boolean(ar, a);
                    Z3_mk_not(c, x)
                }
                N::Cmp(op, a, b) => {
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    match op {
                        Cop::Eq => Z3_mk_eq(c, x, y),
                        Cop::Ult => Z3_mk_bvult(c, x, y),
                        Cop::Slt => Z3_mk_bvslt(c, x, y),
                    }
                }
                N::Ite(k, a, b) => {
                    let k = self.boolean(ar, k);
                    let x = self.boolean(ar, a);
                    let y = self.boolean(ar, b);
                    Z3_mk_ite(c, k, x, y)
                }
                _ => {
                    let x = self.bv(ar, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.bast.insert(e, r);
        r
    }
    fn bv(&mut self, ar: &mut Arena, e: E) -> P {
        if let Some(a) = self.ast.get(&e) {
            return *a;
        }
        let c = self.ctx;
        let w = ar.width(e);
        let r = unsafe {
            match ar.n[e as usize] {
                N::Const(k) => self.num(k, w),
                N::Tab { v, t } => {
                    // piecewise: constant or (x + k) runs
                    let tb = ar.tabs[t as usize].clone();
                    let x = self.var(v);
                    let m = mask(w) as u64;
                    let wide = if w > 8 {
                        let z = self.num(0, w - 8);
                        Z3_mk_concat(c, z, x)
                    } else if w < 8 {
                        Z3_mk_extract(c, w - 1, 0, x)
                    } else {
                        x
                    };
                    let mut runs: Vec<(usize, bool, u64)> = vec![]; // start, affine?, k
                    let mut i = 0usize;
                    while i < 256 {
                        let k = tb[i];
                        let d = tb[i].wrapping_sub(i as u64) & m;
                        let mut jc = i;
                        while jc < 256 && tb[jc] == k {
                            jc += 1;
                        }
                        let mut ja = i;
                        while ja < 256 && (tb[ja].wrapping_sub(ja as u64) & m) == d {
                            ja += 1;
                        }
                        if ja > jc {
                            runs.push((i, true, d));
                            i = ja;
                        } else {
                            runs.push((i, false, k));
                            i = jc;
                        }
                    }
                    let mut acc: Option<P> = None;
                    for (st, aff, k) in runs.iter().rev() {
                        let kk = self.num(*k as u128, w);
                        let val = if *aff {
                            if *k == 0 {
                                wide
                            } else {
                                Z3_mk_bvadd(c, wide, kk)
                            }
                        } else {
                            kk
                        };
                        acc = Some(match acc {
                            None => val,
                            Some(rest) => {
                                // x < start of the following run ?
                                let nxt = runs.iter().map(|r| r.0).find(|s| s > st).unwrap();
                                let b = self.num(nxt as u128, 8);
                                let cnd = Z3_mk_bvult(c, x, b);
                                Z3_mk_ite(c, cnd, val, rest)
                            }
                        });
                    }
                    acc.unwrap()
                }
                N::Bin(op, a, b) => {
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    match op {
                        Bop::Add => Z3_mk_bvadd(c, x, y),
                        Bop::Sub => Z3_mk_bvsub(c, x, y),
                        Bop::Mul => Z3_mk_bvmul(c, x, y),
                        Bop::UDiv => Z3_mk_bvudiv(c, x, y),
                        Bop::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Bop::URem => Z3_mk_bvurem(c, x, y),
                        Bop::SRem => Z3_mk_bvsrem(c, x, y),
                        Bop::Shl => Z3_mk_bvshl(c, x, y),
                        Bop::LShr => Z3_mk_bvlshr(c, x, y),
                        Bop::AShr => Z3_mk_bvashr(c, x, y),
                        Bop::And => Z3_mk_bvand(c, x, y),
                        Bop::Or => Z3_mk_bvor(c, x, y),
                        Bop::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
                N::Cmp(..) => {
                    let b = self.boolean(ar, e);
                    let one = self.num(1, 1);
                    let z = self.num(0, 1);
                    Z3_mk_ite(c, b, one, z)
                }
                N::Not(a) => {
                    let x = self.bv(ar, a);
                    Z3_mk_bvnot(c, x)
                }
                N::Concat(h, l) => {
                    let x = self.bv(ar, h);
                    let y = self.bv(ar, l);
                    Z3_mk_concat(c, x, y)
                }
                N::Extract(a, lo) => {
                    let x = self.bv(ar, a);
                    Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, x)
                }
                N::SExt(a) => {
                    let x = self.bv(ar, a);
                    Z3_mk_sign_ext(c, w - ar.width(a), x)
                }
                N::Ite(k, a, b) => {
                    let k = self.boolean(ar, k);
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    Z3_mk_ite(c, k, x, y)
                }
            }
        };
        self.ast.insert(e, r);
        r
    }

    /// is pc /\ e satisfiable?  returns a model of the whole path condition
    pub fn check(&mut self, ar: &mut Arena, pc: &Pc, e: E) -> R {
        let f0 = self.st.fast;
        let r = self.check0(ar, pc, e);
        if self.st.fast != f0 {
            self.tick += 1;
            if self.tick % self.audit_every == 1 {
                let z = self.full(ar, pc, e);
                let mine = match r {
                    R::Sat(_) => 1,
                    R::Unsat => -1,
                    R::Unknown => 0,
                };
                if z != 0 {
                    self.st.audits += 1;
                    assert!(z == mine, "finite-domain layer and z3 disagree");
                }
            }
        }
        r
    }
    /// the undivided query, decided by z3 alone: 1 sat, -1 unsat, 0 no answer
    fn full(&mut self, ar: &mut Arena, pc: &Pc, e: E) -> c_int {
        let t0 = std::time::Instant::now();
        let k;
        unsafe {
            Z3_solver_push(self.ctx, self.sol);
            for v in 0..pc.dom.len() {
                let d = pc.dom[v];
                if d != FULL {
                    let a = self.set_ast(v as u8, &d);
                    Z3_solver_assert(self.ctx, self.sol, a);
                }
            }
            for x in pc.multi.iter() {
                let a = self.boolean(ar, *x);
                Z3_solver_assert(self.ctx, self.sol, a);
            }
            let a = self.boolean(ar, e);
            Z3_solver_assert(self.ctx, self.sol, a);
            k = Z3_solver_check(self.ctx, self.sol);
            Z3_solver_pop(self.ctx, self.sol, 1);
        }
        self.st.z3_us += t0.elapsed().as_micros() as u64;
        k
    }
    fn check0(&mut self, ar: &mut Arena, pc: &Pc, e: E) -> R {
        let mut cj = vec![];
        ar.conj(e, true, &mut cj);
        let mut dom: Vec<(u8, Set)> = vec![];
        let mut rest: Vec<E> = vec![];
        let mut supp = 0u128;
        for x in cj {
            if let Some(k) = ar.as_c(x) {
                if k == 0 {
                    return R::Unsat;
                }
                continue;
            }
            supp |= ar.supp[x as usize];
            if let Some((v, s)) = ar.truth(x) {
                if let Some(d) = dom.iter_mut().find(|d| d.0 == v) {
                    d.1 = set_and(&d.1, &s);
                } else {
                    dom.push((v, set_and(&pc.dom[v as usize], &s)));
                }
            } else {
                rest.push(x);
            }
        }
        for d in &dom {
            if set_empty(&d.1) {
                self.st.fast += 1;
                return R::Unsat;
            }
        }
        let mut model: Option<Vec<u8>> = None;
        for d in &dom {
            let cur = pc.model[d.0 as usize];
            if !set_has(&d.1, cur) {
                let m = model.get_or_insert_with(|| (*pc.model).clone());
                m[d.0 as usize] = set_min(&d.1);
            }
        }
        let m0: Rc<Vec<u8>> = match model {
            Some(m) => Rc::new(m),
            None => pc.model.clone(),
        };
        if rest.is_empty() && supp & pc.msupp == 0 {
            self.st.fast += 1;
            return R::Sat(m0);
        }
        // connected component of multi constraints
        let mut comp: Vec<E> = vec![];
        let mut used = vec![false; pc.multi.len()];
        let mut s2 = supp;
        loop {
            let mut ch = false;
            for (i, x) in pc.multi.iter().enumerate() {
                if !used[i] && ar.supp[*x as usize] & s2 != 0 {
                    used[i] = true;
                    ch = true;
                    s2 |= ar.supp[*x as usize];
                    comp.push(*x);
                }
            }
            if !ch {
                break;
            }
        }
        comp.extend(rest.iter());
        // does the patched model already work?
        if comp.iter().all(|x| ar.eval(*x, &m0) != 0) {
            self.st.fast += 1;
            return R::Sat(m0);
        }
        let domof = |v: u8| -> Set {
            if let Some(d) = dom.iter().find(|d| d.0 == v) {
                d.1
            } else {
                pc.dom[v as usize]
            }
        };
        let mut cv: Vec<u8> = vec![];
        for v in 0..128u8 {
            if s2 >> v & 1 == 1 {
                cv.push(v);
            }
        }
        // cache
        let mut key: Vec<u64> = vec![];
        let mut ck = comp.clone();
        ck.sort();
        ck.dedup();
        for x in &ck {
            key.push(*x as u64);
        }
        key.push(u64::MAX);
        for v in &cv {
            let d = domof(*v);
            if d != FULL {
                key.push(*v as u64);
                key.extend_from_slice(&d);
            }
        }
        if let Some(r) = self.cache.get(&key) {
            self.st.cache += 1;
            return match r {
                None => R::Unsat,
                Some(d) => {
                    let mut m = (*m0).clone();
                    for (v, x) in d {
                        m[*v as usize] = *x;
                    }
                    R::Sat(Rc::new(m))
                }
            };
        }
        // single-byte patch search (sat side only)
        if cv.len() <= 6 {
            let mut m = (*m0).clone();
            for v in &cv {
                let d = domof(*v);
                let old = m[*v as usize];
                for x in 0..=255u8 {
                    if set_has(&d, x) && x != old {
                        m[*v as usize] = x;
                        if ck.iter().all(|c| ar.eval(*c, &m) != 0) {
                            self.st.fast += 1;
                            return R::Sat(Rc::new(m));
                        }
                    }
                }
                m[*v as usize] = old;
            }
        }
        if let Some(r) = equalities(ar, &ck, &cv, &domof) {
            self.st.fast += 1;
            self.st.eq += 1;
            self.cache.insert(key, r.clone());
            return match r {
                None => R::Unsat,
                Some(d) => {
                    let mut m = (*m0).clone();
                    for (v, x) in &d {
                        m[*v as usize] = *x;
                    }
                    for x in &ck {
                        assert!(ar.eval(*x, &m) != 0, "equality layer model does not satisfy the query");
                    }
                    R::Sat(Rc::new(m))
                }
            };
        }
        if std::env::var("SYMX_Q").is_ok() {
            for x in &ck {
                eprintln!("Q {}", show(ar, *x, 0));
            }
            eprintln!("Q --");
        }
        let t0 = std::time::Instant::now();
        let r;
        unsafe {
            Z3_solver_push(self.ctx, self.sol);
            for v in &cv {
                let d = domof(*v);
                if d != FULL {
                    let a = self.set_ast(*v, &d);
                    Z3_solver_assert(self.ctx, self.sol, a);
                }
            }
            for x in &ck {
                let a = self.boolean(ar, *x);
                Z3_solver_assert(self.ctx, self.sol, a);
            }
            let k = Z3_solver_check(self.ctx, self.sol);
            r = match k {
                1 => {
                    let md = Z3_solver_get_model(self.ctx, self.sol);
                    Z3_model_inc_ref(self.ctx, md);
                    let mut m = (*m0).clone();
                    let mut delta = vec![];
                    for v in &cv {
                        let x = self.var(*v);
                        let mut out: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, md, x, true, &mut out);
                        let mut u = 0u64;
                        Z3_get_numeral_uint64(self.ctx, out, &mut u);
                        m[*v as usize] = u as u8;
                        delta.push((*v, u as u8));
                    }
                    Z3_model_dec_ref(self.ctx, md);
                    for x in &ck {
                        assert!(ar.eval(*x, &m) != 0, "z3 model does not satisfy the query");
                    }
                    self.st.z3_sat += 1;
                    self.cache.insert(key, Some(delta));
                    R::Sat(Rc::new(m))
                }
                -1 => {
                    self.st.z3_unsat += 1;
                    self.cache.insert(key, None);
                    R::Unsat
                }
                _ => {
                    self.st.z3_unknown += 1;
                    R::Unknown
                }
            };
            Z3_solver_pop(self.ctx, self.sol, 1);
        }
        let us = t0.elapsed().as_micros() as u64;
        self.st.z3 += 1;
        self.st.z3_us += us;
        self.st.z3_max_us = self.st.z3_max_us.max(us);
        r
    }

    /// add e (known consistent with `model`) to the path condition
    pub fn assume(&mut self, ar: &mut Arena, pc: &mut Pc, e: E, model: Rc<Vec<u8>>) {
        let mut cj = vec![];
        ar.conj(e, true, &mut cj);
        pc.model = model;
        for x in cj {
            if ar.as_c(x).is_some() {
                continue;
            }
            if let Some((v, s)) = ar.truth(x) {
                let d = set_and(&pc.dom[v as usize], &s);
                if d != pc.dom[v as usize] {
                    Rc::make_mut(&mut pc.dom)[v as usize] = d;
                }
            } else if !pc.multi.contains(&x) {
                pc.msupp |= ar.supp[x as usize];
                Rc::make_mut(&mut pc.multi).push(x);
            }
        }
    }
}

fn show(ar: &Arena, e: E, d: u32) -> String {
    if d > 5 {
        return "..".into();
    }
    match &ar.n[e as usize] {
        N::Const(k) => format!("{}", k),
        N::Tab { v, t } => {
            let tb = &ar.tabs[*t as usize];
            let (a, b, z) = (tb[b'a' as usize], tb[b'b' as usize], tb[b'z' as usize]);
            format!("T{}#{}<{},{},{},{}>", v, t, tb[0], a, b, z)
        }
        N::Bin(op, a, b) => format!("({:?} {} {})", op, show(ar, *a, d + 1), show(ar, *b, d + 1)),
        N::Cmp(op, a, b) => format!("({:?} {} {})", op, show(ar, *a, d + 1), show(ar, *b, d + 1)),
        N::Not(a) => format!("!{}", show(ar, *a, d + 1)),
        N::Concat(a, b) => format!("{}++{}", show(ar, *a, d + 1), show(ar, *b, d + 1)),
        N::Extract(a, lo) => format!("{}[{}]", show(ar, *a, d + 1), lo),
        N::SExt(a) => format!("sx{}", show(ar, *a, d + 1)),
        N::Ite(k, a, b) => format!("({} ? {} : {})", show(ar, *k, d + 1), show(ar, *a, d + 1), show(ar, *b, d + 1)),
    }
}

/// Exact decision of conjunctions of x = y and x != y between input bytes with finite domains:
/// equality classes, then graph colouring with domains.  None if the query is not of that shape.
fn equalities(ar: &Arena, ck: &[E], cv: &[u8], domof: &dyn Fn(u8) -> Set) -> Option<Option<Vec<(u8, u8)>>> {
    let ident = |e: E| -> Option<u8> {
        if let N::Tab { v, t } = ar.n[e as usize] {
            if ar.width(e) >= 8 && ar.tabs[t as usize].iter().enumerate().all(|(i, x)| *x == i as u64) {
                return Some(v);
            }
        }
        None
    };
    let n = cv.len();
    let ix = |v: u8| cv.iter().position(|c| *c == v).unwrap();
    let mut rep: Vec<usize> = (0..n).collect();
    fn find(r: &Vec<usize>, mut x: usize) -> usize {
        while r[x] != x {
            x = r[x];
        }
        x
    }
    let mut ne = vec![];
    for e in ck {
        let (pos, c) = match ar.n[*e as usize] {
            N::Not(a) => (false, a),
            _ => (true, *e),
        };
        let (a, b) = match ar.n[c as usize] {
            N::Cmp(Cop::Eq, a, b) => (ident(a)?, ident(b)?),
            _ => return None,
        };
        if ar.width(c) != 1 {
            return None;
        }
        let (a, b) = (ix(a), ix(b));
        if pos {
            let (x, y) = (find(&rep, a), find(&rep, b));
            rep[x] = y;
        } else {
            ne.push((a, b));
        }
    }
    let mut dom: Vec<Set> = vec![FULL; n];
    for i in 0..n {
        let r = find(&rep, i);
        dom[r] = set_and(&dom[r], &domof(cv[i]));
    }
    let mut adj: Vec<Vec<usize>> = vec![vec![]; n];
    for (a, b) in ne {
        let (x, y) = (find(&rep, a), find(&rep, b));
        if x == y {
            return Some(None);
        }
        if !adj[x].contains(&y) {
            adj[x].push(y);
            adj[y].push(x);
        }
    }
    let size = |s: &Set| s.iter().map(|w| w.count_ones() as usize).sum::<usize>();
    let mut live: Vec<usize> = (0..n).filter(|i| find(&rep, *i) == *i).collect();
    for i in &live {
        if set_empty(&dom[*i]) {
            return Some(None);
        }
    }
    // classes with more values than live neighbours can always be coloured last
    let mut later = vec![];
    loop {
        let k = live.iter().position(|i| size(&dom[*i]) > adj[*i].iter().filter(|j| live.contains(j)).count());
        match k {
            Some(k) => later.push(live.remove(k)),
            None => break,
        }
    }
    let mut col: Vec<Option<u8>> = vec![None; n];
    fn go(k: usize, live: &Vec<usize>, adj: &Vec<Vec<usize>>, dom: &Vec<Set>, col: &mut Vec<Option<u8>>, fuel: &mut u32) -> Option<bool> {
        if k == live.len() {
            return Some(true);
        }
        if *fuel == 0 {
            return None;
        }
        *fuel -= 1;
        let i = live[k];
        for x in 0..=255u8 {
            if set_has(&dom[i], x) && !adj[i].iter().any(|j| col[*j] == Some(x)) {
                col[i] = Some(x);
                match go(k + 1, live, adj, dom, col, fuel) {
                    Some(false) => {}
                    r => return r,
                }
                col[i] = None;
            }
        }
        Some(false)
    }
    let mut fuel = 20000;
    if !go(0, &live, &adj, &dom, &mut col, &mut fuel)? {
        return Some(None);
    }
    for i in later.iter().rev() {
        let x = (0..=255u8).find(|x| set_has(&dom[*i], *x) && !adj[*i].iter().any(|j| col[*j] == Some(*x))).unwrap();
        col[*i] = Some(x);
    }
    Some(Some((0..n).map(|i| (cv[i], col[find(&rep, i)].unwrap())).collect()))
}
