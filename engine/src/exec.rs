//! Symbolic executor for the parsed LLVM IR.
use crate::expr::*;
use crate::ir::{self, Callee, CastK, Inst, Module, Op, Ty, B, P as Pred};
use crate::mem::{Fault, Mem, HBASE, SBASE};
use crate::regex;
use crate::solver::{Pc, Solver, R};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    W(Rc<u128>),
    S(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub b: u32,
    pub prev: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub sp: u64,
    pub ret: Option<u32>,
    /// `exit` returns from this frame
    pub catch: bool,
}

pub struct Link<T> {
    pub v: T,
    pub next: Option<Rc<Link<T>>>,
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub rest: Option<Rc<Link<Frame>>>,
    pub nframes: u32,
    pub mem: Mem,
    pub pc: Pc,
    pub depth: u32,
    /// decisions below this depth are replayed from the donated model
    pub until: u32,
    /// for every decision taken: was its condition added to the path condition
    pub trail: Rc<Vec<bool>>,
    pub script: Rc<Vec<bool>>,
    /// path condition, depth and known values at the first decision of the current instruction
    pub snap: Option<Rc<(u64, Pc, u32, Rc<HashMap<E, u64>>)>>,
    pub sp: u64,
    pub hp: u64,
    pub steps: u64,
    pub obs: Option<Rc<Link<(u32, Rc<Vec<V>>)>>>,
    pub known: Rc<HashMap<E, u64>>,
    pub asserts: u32,
    pub io: Rc<Io>,
    pub findings: Rc<Vec<u32>>,
}

/// modelled environment of the process (command line tool)
#[derive(Clone, Default)]
pub struct Io {
    pub out: Vec<V>,
    pub files: Vec<(Vec<u8>, Vec<V>)>,
    pub fds: Vec<Option<(usize, usize)>>,
    pub exit: Option<i64>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    Pruned,
    Panic(String, String),
    Limit,
    Unsupported(String),
}

pub enum Stop {
    End(End),
}
type Res<T> = Result<T, Stop>;
impl From<Fault> for Stop {
    fn from(f: Fault) -> Stop {
        Stop::End(End::Unsupported(format!("memory access outside the address space at {:#x}", f.0)))
    }
}
fn uns<T>(s: impl Into<String>) -> Res<T> {
    Err(Stop::End(End::Unsupported(s.into())))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Ir,
    Nop,
    SymByte,
    SymAssume,
    SymAssert,
    SymObserve,
    SymConc,
    SymRegex,
    SymFinding,
    SymNative,
    SymCatch,
    SymArgs,
    Exit,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Memchr,
    MemchrAligned,
    MemrchrAligned,
    Panic,
    Trap,
    HashOne,
    Zero,
    MinusOne,
    Write,
    Writev,
    Errno,
    GetRandom,
    Umax,
    Umin,
    Smax,
    Smin,
    Abs,
    Ctpop,
    Cttz,
    Ctlz,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UaddS,
    UsubS,
    SaddS,
    SsubS,
    Ucmp,
    Scmp,
    IsConst,
    Id,
    LoadRel,
    FAbs,
    CountChars,
    Utf8Check,
    VRed(u8),
    FSat(bool),
    PtrMask,
    Unknown,
}

fn kind(name: &str, decl: bool) -> K {
    if let Some(r) = name.strip_prefix("llvm.") {
        let h = r.split('.').next().unwrap();
        let two: String = r.split('.').take(2).collect::<Vec<_>>().join(".");
        return match h {
            "lifetime" | "assume" | "dbg" | "experimental" | "prefetch" | "va_start" | "va_end" | "sideeffect" | "donothing" | "invariant" => K::Nop,
            "memcpy" | "memmove" => K::Memcpy,
            "memset" => K::Memset,
            "umax" => K::Umax,
            "umin" => K::Umin,
            "smax" => K::Smax,
            "smin" => K::Smin,
            "abs" => K::Abs,
            "ctpop" => K::Ctpop,
            "cttz" => K::Cttz,
            "ctlz" => K::Ctlz,
            "bswap" => K::Bswap,
            "bitreverse" => K::Bitrev,
            "fshl" => K::Fshl,
            "fshr" => K::Fshr,
            "uadd" if two == "uadd.with" => K::UaddO,
            "usub" if two == "usub.with" => K::UsubO,
            "umul" if two == "umul.with" => K::UmulO,
            "sadd" if two == "sadd.with" => K::SaddO,
            "ssub" if two == "ssub.with" => K::SsubO,
            "smul" if two == "smul.with" => K::SmulO,
            "uadd" => K::UaddS,
            "usub" => K::UsubS,
            "sadd" => K::SaddS,
            "ssub" => K::SsubS,
            "ucmp" => K::Ucmp,
            "scmp" => K::Scmp,
            "is" if r.starts_with("is.constant") => K::IsConst,
            "expect" | "threadlocal" | "launder" | "strip" => K::Id,
            "load" => K::LoadRel,
            "trap" | "debugtrap" | "ubsantrap" => K::Trap,
            "fabs" => K::FAbs,
            "x86" => K::Nop,
            "vector" => {
                if two == "vector.reduce" {
                    match r.split('.').nth(2).unwrap() {
                        "or" => K::VRed(b'o'),
                        "and" => K::VRed(b'a'),
                        "add" => K::VRed(b'+'),
                        "xor" => K::VRed(b'x'),
                        "umax" => K::VRed(b'M'),
                        "umin" => K::VRed(b'm'),
                        _ => K::Unknown,
                    }
                } else {
                    K::Unknown
                }
            }
            "fptoui" => K::FSat(false),
            "fptosi" => K::FSat(true),
            "ptrmask" => K::PtrMask,
            _ => K::Unknown,
        };
    }
    match name {
        "__sym_byte" => return K::SymByte,
        "__sym_assume" => return K::SymAssume,
        "__sym_assert" => return K::SymAssert,
        "__sym_observe" => return K::SymObserve,
        "__sym_conc" => return K::SymConc,
        "__sym_regex" => return K::SymRegex,
        "__sym_finding" => return K::SymFinding,
        "__sym_native" => return K::SymNative,
        "__sym_catch" => return K::SymCatch,
        "__sym_args" => return K::SymArgs,
        "exit" | "_exit" => return K::Exit,
        "malloc" => return K::Malloc,
        "calloc" => return K::Calloc,
        "realloc" => return K::Realloc,
        "free" => return K::Free,
        "posix_memalign" => return K::PosixMemalign,
        "memcpy" | "memmove" => return K::Memcpy,
        "memset" => return K::Memset,
        "bcmp" => return K::Bcmp,
        "memcmp" => return K::Memcmp,
        "strlen" => return K::Strlen,
        "memchr" => return K::Memchr,
        "abort" => return K::Trap,
        _ => {}
    }
    if name.contains("hash_one") {
        return K::HashOne;
    }
    if name.contains("memchr14memchr_aligned") {
        return K::MemchrAligned;
    }
    if name.contains("memchr7memrchr") {
        return K::MemrchrAligned;
    }
    if name.contains("5count14do_count_chars") || name.contains("5count23char_count_general_case") {
        return K::CountChars;
    }
    let pan = name.contains("4core9panicking") || name.contains("9panicking11begin_panic") || name.contains("9panicking15begin_panic_fmt") || name.contains("rust_panic") || name.contains("rust_begin_unwind") || name.contains("16slice_error_fail") || name.contains("18handle_alloc_error") || name.contains("20___rust_abort") || name.contains("begin_panic_handler");
    if pan && !name.contains("drop_glue") {
        return K::Panic;
    }
    if decl {
        match name {
            "write" => return K::Write,
            "writev" => return K::Writev,
            "__errno_location" => return K::Errno,
            "getrandom" | "getentropy" => return K::GetRandom,
            "getenv" | "close" | "pthread_mutex_lock" | "sched_yield" | "gettid" => return K::Zero,
            "open64" | "open" | "read" | "stat64" | "fstat64" | "statx" | "syscall" | "readlink" | "lseek64" | "_Unwind_Backtrace" => return K::MinusOne,
            _ => K::Unknown,
        }
    } else {
        K::Ir
    }
}

pub struct Prog {
    pub m: Module,
    pub kinds: Vec<K>,
    /// stores the arguments of the process
    pub args_init: Option<u32>,
}
impl Prog {
    pub fn new(m: Module) -> Prog {
        let kinds = m.funcs.iter().map(|f| kind(&f.name, f.decl)).collect();
        let args_init = m.funcs.iter().position(|f| f.name.contains("ARGV_INIT_ARRAY") && !f.decl).map(|i| i as u32);
        Prog { m, kinds, args_init }
    }
}

pub struct Cex {
    pub kind: String,
    pub id: u32,
    pub info: String,
    pub model: Vec<u8>,
    pub findings: Vec<u32>,
}

#[derive(Default, Clone, Debug)]
pub struct Counts {
    pub paths: u64,
    pub done: u64,
    pub pruned: u64,
    pub panics: u64,
    pub limit: u64,
    pub unsupported: u64,
    pub steps: u64,
    pub forks: u64,
    pub decisions: u64,
    pub assert_checks: u64,
    pub assert_const: u64,
    pub assert_queries: u64,
    pub regex_calls: u64,
    pub max_vars: u64,
}

pub struct Sample {
    pub model: Vec<u8>,
    pub obs: Vec<(u32, Vec<u8>)>,
    pub end: End,
}

pub struct Eng<'p> {
    pub p: &'p Prog,
    pub ar: Arena,
    pub sol: Solver,
    pub stack: Vec<State>,
    pub cnt: Counts,
    pub cex: Vec<Cex>,
    pub cex_seen: HashMap<(String, u32, String), u32>,
    pub reached: HashMap<u32, u64>,
    pub uns: HashMap<String, u64>,
    pub rx: HashMap<Vec<u8>, Rc<(regex::Prog, usize)>>,
    pub max_steps: u64,
    pub samples: Vec<Sample>,
    pub sample_every: u64,
    pub base: Mem,
    pub max_steps_seen: u64,
}

fn m64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn bop(b: B) -> Bop {
    match b {
        B::Add => Bop::Add,
        B::Sub => Bop::Sub,
        B::Mul => Bop::Mul,
        B::UDiv => Bop::UDiv,
        B::SDiv => Bop::SDiv,
        B::URem => Bop::URem,
        B::SRem => Bop::SRem,
        B::Shl => Bop::Shl,
        B::LShr => Bop::LShr,
        B::AShr => Bop::AShr,
        B::And => Bop::And,
        B::Or => Bop::Or,
        B::Xor => Bop::Xor,
    }
}
fn cmp64(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sx64(a, w) > sx64(b, w),
        Pred::Sge => sx64(a, w) >= sx64(b, w),
        Pred::Slt => sx64(a, w) < sx64(b, w),
        Pred::Sle => sx64(a, w) <= sx64(b, w),
    }
}

impl<'p> Eng<'p> {
    pub fn new(p: &'p Prog) -> Eng<'p> {
        let base = Mem::new(&p.m.image);
        Eng {
            p,
            ar: Arena::new(),
            sol: Solver::new(),
            stack: vec![],
            cnt: Counts::default(),
            cex: vec![],
            cex_seen: HashMap::new(),
            reached: HashMap::new(),
            uns: HashMap::new(),
            rx: HashMap::new(),
            max_steps: 60_000_000,
            samples: vec![],
            sample_every: 1,
            base,
            max_steps_seen: 0,
        }
    }
    pub fn start(&self, f: u32, args: &[u64], model: Vec<u8>, script: Vec<bool>) -> State {
        let fu = &self.p.m.funcs[f as usize];
        let mut regs = vec![V::I(0); fu.nregs as usize];
        for (i, a) in args.iter().enumerate() {
            if i < fu.nparams as usize {
                regs[i] = V::I(*a);
            }
        }
        let mut pc = Pc::new();
        pc.model = Rc::new(model);
        State {
            top: Frame { f, b: 0, prev: 0, ip: 0, regs, sp: SBASE, ret: None, catch: false },
            rest: None,
            nframes: 1,
            mem: self.base.clone(),
            pc,
            depth: 0,
            until: script.len() as u32,
            trail: Rc::new(vec![]),
            script: Rc::new(script),
            snap: None,
            sp: SBASE,
            hp: HBASE,
            steps: 0,
            obs: None,
            known: Rc::new(HashMap::new()),
            asserts: 0,
            io: Rc::new(Io::default()),
            findings: Rc::new(vec![]),
        }
    }

    // ------------------------------------------------------------ values
    #[inline]
    fn op(&self, st: &State, o: &Op) -> V {
        match o {
            Op::R(r) => st.top.regs[*r as usize].clone(),
            Op::K(k) => V::I(*k),
            Op::W(k) => V::W(Rc::new(*k)),
            Op::Agg(v) => V::A(Rc::new(v.iter().map(|x| self.op(st, x)).collect())),
        }
    }
    pub fn ex(&mut self, v: &V, w: u32) -> E {
        match v {
            V::I(k) => self.ar.c(*k as u128, w),
            V::W(k) => self.ar.c(**k, w),
            V::S(e) => *e,
            V::A(a) => {
                // vector seen as one integer
                let ew = w / a.len() as u32;
                let mut acc: Option<E> = None;
                for x in a.iter() {
                    let e = self.ex(x, ew);
                    acc = Some(match acc {
                        None => e,
                        Some(l) => self.ar.concat(e, l),
                    });
                }
                acc.unwrap()
            }
        }
    }
    pub fn val(&self, e: E) -> V {
        match self.ar.as_c(e) {
            Some(k) => {
                if self.ar.width(e) > 64 {
                    V::W(Rc::new(k))
                } else {
                    V::I(k as u64)
                }
            }
            None => V::S(e),
        }
    }
    fn is_sym(v: &V) -> bool {
        matches!(v, V::S(_))
    }
    fn wide(&self, v: &V) -> u128 {
        match v {
            V::I(k) => *k as u128,
            V::W(k) => **k,
            _ => 0,
        }
    }
    fn mkw(&self, x: u128, w: u32) -> V {
        if w > 64 {
            V::W(Rc::new(x & mask(w)))
        } else {
            V::I((x & mask(w)) as u64)
        }
    }
    fn bin(&mut self, op: B, w: u32, a: &V, b: &V) -> Res<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = m64(w);
                let r = match op {
                    B::Add => x.wrapping_add(y),
                    B::Sub => x.wrapping_sub(y),
                    B::Mul => x.wrapping_mul(y),
                    B::And => x & y,
                    B::Or => x | y,
                    B::Xor => x ^ y,
                    B::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    B::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    _ => bin_c(bop(op), w, x as u128, y as u128) as u64,
                };
                return Ok(V::I(r & m));
            }
        }
        if !Self::is_sym(a) && !Self::is_sym(b) {
            let r = bin_c(bop(op), w, self.wide(a), self.wide(b));
            return Ok(self.mkw(r, w));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = self.ar.bin(bop(op), w, x, y);
        Ok(self.val(r))
    }
    fn cmp_e(&mut self, p: Pred, x: E, y: E) -> E {
        match p {
            Pred::Eq => self.ar.cmp(Cop::Eq, x, y),
            Pred::Ne => {
                let r = self.ar.cmp(Cop::Eq, x, y);
                self.ar.not(r)
            }
            Pred::Ult => self.ar.cmp(Cop::Ult, x, y),
            Pred::Ugt => self.ar.cmp(Cop::Ult, y, x),
            Pred::Uge => {
                let r = self.ar.cmp(Cop::Ult, x, y);
                self.ar.not(r)
            }
            Pred::Ule => {
                let r = self.ar.cmp(Cop::Ult, y, x);
                self.ar.not(r)
            }
            Pred::Slt => self.ar.cmp(Cop::Slt, x, y),
            Pred::Sgt => self.ar.cmp(Cop::Slt, y, x),
            Pred::Sge => {
                let r = self.ar.cmp(Cop::Slt, x, y);
                self.ar.not(r)
            }
            Pred::Sle => {
                let r = self.ar.cmp(Cop::Slt, y, x);
                self.ar.not(r)
            }
        }
    }
    fn cmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            return V::I(cmp64(p, w, *x, *y) as u64);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = self.cmp_e(p, x, y);
        self.val(r)
    }

    // ------------------------------------------------------------ decisions
    /// choose one of mutually exclusive, jointly exhaustive conditions; forks the others
    fn decide(&mut self, st: &mut State, opts: &[E]) -> Res<usize> {
        self.cnt.decisions += 1;
        self.snapshot(st);
        if st.depth < st.until {
            let bit = st.script[st.depth as usize];
            st.depth += 1;
            Rc::make_mut(&mut st.trail).push(bit);
            for (i, o) in opts.iter().enumerate() {
                if self.ar.eval(*o, &st.pc.model) != 0 {
                    if bit {
                        let m = st.pc.model.clone();
                        self.sol.assume(&mut self.ar, &mut st.pc, *o, m);
                    }
                    return Ok(i);
                }
            }
            return uns("replay divergence: no option holds");
        }
        let mut first: Option<(usize, Rc<Vec<u8>>)> = None;
        let mut more = vec![];
        for (i, o) in opts.iter().enumerate() {
            if self.ar.as_c(*o) == Some(0) {
                continue;
            }
            let m = if self.ar.eval(*o, &st.pc.model) != 0 {
                Some(st.pc.model.clone())
            } else {
                match self.sol.check(&mut self.ar, &st.pc, *o) {
                    R::Sat(m) => Some(m),
                    R::Unsat => None,
                    R::Unknown => return uns("solver gave no answer"),
                }
            };
            if let Some(m) = m {
                if first.is_none() {
                    first = Some((i, m));
                } else {
                    more.push((i, m));
                }
            }
        }
        let (i, m) = match first {
            Some(x) => x,
            None => return uns("no feasible option"),
        };
        for (j, mj) in more.iter() {
            // the sibling restarts the instruction and follows its model up to and including this decision
            let mut s2 = st.clone();
            let sn = st.snap.clone().unwrap();
            s2.pc = sn.1.clone();
            s2.pc.model = mj.clone();
            s2.known = sn.3.clone();
            s2.depth = sn.2;
            s2.steps -= 1;
            s2.snap = None;
            let mut script = (*st.trail).clone();
            Rc::make_mut(&mut s2.trail).truncate(sn.2 as usize);
            script.push(true);
            s2.until = script.len() as u32;
            s2.script = Rc::new(script);
            self.cnt.forks += 1;
            self.stack.push(s2);
        }
        if !more.is_empty() {
            self.sol.assume(&mut self.ar, &mut st.pc, opts[i], m);
        }
        self.note(st, !more.is_empty());
        Ok(i)
    }
    fn snapshot(&mut self, st: &mut State) {
        if st.snap.as_ref().map_or(true, |s| s.0 != st.steps) {
            st.snap = Some(Rc::new((st.steps, st.pc.clone(), st.depth, st.known.clone())));
        }
    }
    /// record a decision that was taken outside replay
    fn note(&mut self, st: &mut State, bit: bool) {
        st.depth += 1;
        Rc::make_mut(&mut st.trail).push(bit);
    }
    /// a function of one byte that takes a single value on this path is that value
    fn norm(&self, st: &State, v: V) -> V {
        if let V::S(e) = &v {
            if let N::Tab { v: x, t } = self.ar.n[*e as usize] {
                let d = &st.pc.dom[x as usize];
                let tb = &self.ar.tabs[t as usize];
                let mut first = None;
                for i in 0..4 {
                    let mut w = d[i];
                    while w != 0 {
                        let k = tb[i * 64 + w.trailing_zeros() as usize];
                        match first {
                            None => first = Some(k),
                            Some(f) if f != k => return v,
                            _ => {}
                        }
                        w &= w - 1;
                    }
                }
                if let Some(k) = first {
                    return V::I(k);
                }
            }
        }
        v
    }
    fn decide_bool(&mut self, st: &mut State, v: &V) -> Res<bool> {
        match v {
            V::I(k) => Ok(*k & 1 == 1),
            V::S(e) => {
                let e = *e;
                // quick exact answer from the domain of a single byte
                if let Some((v, s)) = self.ar.truth(e) {
                    let d = &st.pc.dom[v as usize];
                    let t = set_and(d, &s);
                    if set_empty(&t) {
                        return Ok(false);
                    }
                    if t == *d {
                        return Ok(true);
                    }
                }
                let n = self.ar.not(e);
                Ok(self.decide(st, &[e, n])? == 0)
            }
            _ => uns("boolean aggregate"),
        }
    }
    /// concrete value of v on this path; forks over every feasible value
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> Res<u64> {
        match v {
            V::I(k) => Ok(*k),
            V::W(k) => Ok(**k as u64),
            V::A(_) => uns("aggregate where a scalar is needed"),
            V::S(e) => {
                let e = *e;
                if let Some(k) = st.known.get(&e) {
                    return Ok(*k);
                }
                let w = self.ar.width(e).min(w.max(1)).max(self.ar.width(e));
                let mut opts = vec![];
                let mut vals = vec![];
                if let N::Tab { v, t } = self.ar.n[e as usize] {
                    let tb = self.ar.tabs[t as usize].clone();
                    let d = st.pc.dom[v as usize];
                    let mut groups: Vec<(u64, Set)> = vec![];
                    for i in 0..256usize {
                        if set_has(&d, i as u8) {
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == tb[i]) {
                                g.1[i >> 6] |= 1 << (i & 63);
                            } else {
                                let mut s = [0u64; 4];
                                s[i >> 6] |= 1 << (i & 63);
                                groups.push((tb[i], s));
                            }
                        }
                    }
                    groups.sort();
                    if groups.len() == 1 {
                        return Ok(groups[0].0);
                    }
                    for (k, s) in groups {
                        opts.push(self.ar.in_set(v, &s));
                        vals.push(k);
                    }
                } else if st.depth < st.until {
                    let k = self.ar.eval(e, &st.pc.model);
                    let kc = self.ar.c(k, w);
                    opts.push(self.ar.eq(e, kc));
                    vals.push(k as u64);
                } else {
                    let mut pc = st.pc.clone();
                    loop {
                        let k = self.ar.eval(e, &pc.model);
                        let kc = self.ar.c(k, w);
                        let q = self.ar.eq(e, kc);
                        opts.push(q);
                        vals.push(k as u64);
                        if opts.len() > 300 {
                            return uns("too many values for a size, index or address");
                        }
                        let nq = self.ar.not(q);
                        match self.sol.check(&mut self.ar, &pc, nq) {
                            R::Sat(m) => self.sol.assume(&mut self.ar, &mut pc, nq, m),
                            R::Unsat => break,
                            R::Unknown => return uns("solver gave no answer"),
                        }
                    }
                    if opts.len() == 1 {
                        self.snapshot(st);
                        self.note(st, false);
                        Rc::make_mut(&mut st.known).insert(e, vals[0]);
                        return Ok(vals[0]);
                    }
                }
                let tab = matches!(self.ar.n[e as usize], N::Tab { .. });
                let i = self.decide(st, &opts)?;
                if !tab {
                    Rc::make_mut(&mut st.known).insert(e, vals[i]);
                }
                Ok(vals[i])
            }
        }
    }

    // ------------------------------------------------------------ memory
    fn load_int(&mut self, st: &State, a: u64, w: u32) -> Res<V> {
        let n = ((w + 7) / 8) as usize;
        if n <= 8 {
            if let Some(k) = st.mem.read(a, n)? {
                return Ok(V::I(k & m64(w)));
            }
        } else if let (Some(l), Some(h)) = (st.mem.read(a, 8)?, st.mem.read(a + 8, n - 8)?) {
            return Ok(V::W(Rc::new((l as u128 | (h as u128) << 64) & mask(w))));
        }
        let mut acc: Option<E> = None;
        for k in 0..n {
            let (b, s) = st.mem.byte(a + k as u64)?;
            let e = if s != 0 { s } else { self.ar.c(b as u128, 8) };
            acc = Some(match acc {
                None => e,
                Some(l) => self.ar.concat(e, l),
            });
        }
        let mut e = acc.unwrap();
        if w % 8 != 0 {
            e = self.ar.extract(e, 0, w);
        }
        Ok(self.val(e))
    }
    fn load(&mut self, st: &State, ty: &Ty, a: u64) -> Res<V> {
        match ty {
            Ty::Int(w) => self.load_int(st, a, *w),
            Ty::Ptr | Ty::Double => self.load_int(st, a, 64),
            Ty::Float => self.load_int(st, a, 32),
            Ty::Vec(n, t) if **t == Ty::Int(1) => {
                let v = self.load_int(st, a, *n)?;
                let mut o = vec![];
                for i in 0..*n {
                    let e = self.ex(&v, *n);
                    let b = self.ar.extract(e, i, 1);
                    o.push(self.val(b));
                }
                Ok(V::A(Rc::new(o)))
            }
            t if t.is_agg() => {
                let mut v = vec![];
                for i in 0..t.nelem() {
                    v.push(self.load(st, t.elem(i), a + t.field_off(i))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => uns("load type"),
        }
    }
    fn store_int(&mut self, st: &mut State, a: u64, w: u32, v: &V) -> Res<()> {
        let n = ((w + 7) / 8) as usize;
        match v {
            V::I(k) => {
                if n <= 8 {
                    st.mem.write(a, n, *k)?;
                } else {
                    st.mem.write(a, 8, *k)?;
                    st.mem.write(a + 8, n - 8, 0)?;
                }
            }
            V::W(k) => {
                st.mem.write(a, 8, **k as u64)?;
                st.mem.write(a + 8, n - 8, (**k >> 64) as u64)?;
            }
            V::S(e) => {
                let e = if w % 8 != 0 { self.ar.zext(*e, n as u32 * 8) } else { *e };
                for k in 0..n {
                    let b = self.ar.extract(e, 8 * k as u32, 8);
                    match self.ar.as_c(b) {
                        Some(x) => st.mem.set_byte(a + k as u64, x as u8, 0)?,
                        None => st.mem.set_byte(a + k as u64, 0, b)?,
                    }
                }
            }
            V::A(_) => {
                let e = self.ex(v, w);
                let x = self.val(e);
                return self.store_int(st, a, w, &x);
            }
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, ty: &Ty, a: u64, v: &V) -> Res<()> {
        match ty {
            Ty::Int(w) => self.store_int(st, a, *w, v),
            Ty::Ptr | Ty::Double => self.store_int(st, a, 64, v),
            Ty::Float => self.store_int(st, a, 32, v),
            Ty::Vec(n, t) if **t == Ty::Int(1) => {
                let e = self.ex(v, *n);
                let x = self.val(e);
                self.store_int(st, a, *n, &x)
            }
            t if t.is_agg() => {
                if let V::A(x) = v {
                    let x = x.clone();
                    for i in 0..t.nelem() {
                        self.store(st, t.elem(i), a + t.field_off(i), &x[i])?;
                    }
                    Ok(())
                } else {
                    uns("store aggregate")
                }
            }
            _ => uns("store type"),
        }
    }
    fn alloc(&mut self, st: &mut State, n: u64, al: u64) -> Res<u64> {
        if n > 1 << 26 {
            return uns(format!("allocation of {} bytes", n));
        }
        let al = al.max(16);
        let a = (st.hp + 8 + al - 1) / al * al;
        st.mem.write(a - 8, 8, n)?;
        st.hp = a + n;
        if st.hp > HBASE + (1 << 28) {
            return uns("heap limit");
        }
        Ok(a)
    }
    pub fn bytes(&mut self, st: &State, a: u64, n: u64) -> Res<Vec<V>> {
        let mut v = Vec::with_capacity(n as usize);
        for k in 0..n {
            let (b, s) = st.mem.byte(a + k)?;
            v.push(if s != 0 { V::S(s) } else { V::I(b as u64) });
        }
        Ok(v)
    }
    fn cstr(&mut self, st: &State, a: u64, n: u64) -> Option<String> {
        let mut o = vec![];
        for k in 0..n {
            match st.mem.byte(a + k) {
                Ok((b, 0)) => o.push(b),
                Ok(_) => o.push(b'?'),
                _ => return None,
            }
        }
        Some(String::from_utf8_lossy(&o).into_owned())
    }

    pub fn trace(&self, st: &State) -> String {
        let mut v = vec![];
        let name = |f: u32| -> Option<String> {
            let id = ir::idents(&self.p.m.funcs[f as usize].name);
            if id.is_empty() {
                None
            } else {
                Some(id.join("::"))
            }
        };
        let n = &self.p.m.funcs[st.top.f as usize].name;
        v.push(name(st.top.f).unwrap_or(n.clone()));
        let mut r = st.rest.clone();
        while let Some(l) = r {
            let n = &self.p.m.funcs[l.v.f as usize].name;
            v.push(name(l.v.f).unwrap_or(n.clone()));
            r = l.next.clone();
        }
        v.join(" < ")
    }
    fn panic_loc(&mut self, st: &State, args: &[V]) -> String {
        for a in args.iter().rev() {
            if let V::I(p) = a {
                if *p < ir::GBASE || *p >= self.p.m.gend {
                    continue;
                }
                if let (Ok(Some(fp)), Ok(Some(fl)), Ok(Some(ln)), Ok(Some(col))) = (st.mem.read(*p, 8), st.mem.read(*p + 8, 8), st.mem.read(*p + 16, 4), st.mem.read(*p + 20, 4)) {
                    if fp >= ir::GBASE && fp < self.p.m.gend && fl > 2 && fl < 200 {
                        if let Some(s) = self.cstr(st, fp, fl) {
                            let s = s.trim_end_matches('\0').to_string();
                            if s.ends_with(".rs") {
                                return format!("{}:{}:{}", s, ln, col);
                            }
                        }
                    }
                }
            }
        }
        String::new()
    }

    // ------------------------------------------------------------ run
    /// run a state until its path ends; forked siblings are left on self.stack
    pub fn run(&mut self, mut st: State) -> (State, End) {
        loop {
            match self.step(&mut st) {
                Ok(false) => {}
                Ok(true) => return (st, End::Done),
                Err(Stop::End(e)) => return (st, e),
            }
            if st.steps > self.max_steps {
                return (st, End::Limit);
            }
        }
    }

    fn goto(&mut self, st: &mut State, b: u32) {
        let p = self.p;
        let from = st.top.b;
        let blk = &p.m.funcs[st.top.f as usize].blocks[b as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let ph = &blk.phis[0];
                let o = &ph.inc.iter().find(|x| x.0 == from).expect("phi").1;
                let v = self.op(st, o);
                st.top.regs[ph.dst as usize] = v;
            } else {
                let vals: Vec<V> = blk.phis.iter().map(|ph| self.op(st, &ph.inc.iter().find(|x| x.0 == from).expect("phi").1)).collect();
                for (ph, v) in blk.phis.iter().zip(vals) {
                    st.top.regs[ph.dst as usize] = v;
                }
            }
        }
        st.top.prev = from;
        st.top.b = b;
        st.top.ip = 0;
    }

    fn step(&mut self, st: &mut State) -> Res<bool> {
        let p = self.p;
        let f = &p.m.funcs[st.top.f as usize];
        let inst = &f.blocks[st.top.b as usize].insts[st.top.ip as usize];
        st.steps += 1;
        if st.snap.is_some() {
            st.snap = None;
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.top.regs[*$d as usize] = v;
                st.top.ip += 1;
            }};
        }
        match inst {
            Inst::Bin { op, w, lanes, dst, a, b } => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                if *lanes > 0 {
                    let (x, y) = match (&x, &y) {
                        (V::A(x), V::A(y)) => (x.clone(), y.clone()),
                        _ => return uns("vector operand"),
                    };
                    let mut o = vec![];
                    for i in 0..*lanes as usize {
                        o.push(self.bin(*op, *w, &x[i], &y[i])?);
                    }
                    set!(dst, V::A(Rc::new(o)));
                } else {
                    if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) {
                        if let V::I(0) = y {
                            return uns("division by zero in IR");
                        }
                    }
                    let r = self.bin(*op, *w, &x, &y)?;
                    let r = self.norm(st, r);
                    set!(dst, r);
                }
            }
            Inst::Cmp { p: pr, w, lanes, dst, a, b } => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                if *lanes > 0 {
                    let (x, y) = match (&x, &y) {
                        (V::A(x), V::A(y)) => (x.clone(), y.clone()),
                        _ => return uns("vector operand"),
                    };
                    let o: Vec<V> = (0..*lanes as usize).map(|i| self.cmp(*pr, *w, &x[i], &y[i])).collect();
                    set!(dst, V::A(Rc::new(o)));
                } else {
                    let r = self.cmp(*pr, *w, &x, &y);
                    let r = self.norm(st, r);
                    set!(dst, r);
                }
            }
            Inst::Cast { k, from, to, dst, a } => {
                let x = self.op(st, a);
                let r = self.cast(st, *k, from, to, &x)?;
                let r = self.norm(st, r);
                set!(dst, r);
            }
            Inst::Load { dst, ty, ptr } => {
                let pv = self.op(st, ptr);
                let r = match &pv {
                    V::I(a) => self.load(st, ty, *a)?,
                    V::S(e) => {
                        let e = *e;
                        let mut done = None;
                        if let (N::Tab { v, t }, false) = (self.ar.n[e as usize], ty.is_agg()) {
                            let tb = self.ar.tabs[t as usize].clone();
                            let d = st.pc.dom[v as usize];
                            let mut out = [0u64; 256];
                            let mut ok = true;
                            let mut first: Option<u64> = None;
                            for i in 0..256usize {
                                if set_has(&d, i as u8) {
                                    match self.load(st, ty, tb[i])? {
                                        V::I(k) => {
                                            out[i] = k;
                                            if first.is_none() {
                                                first = Some(k);
                                            }
                                        }
                                        _ => {
                                            ok = false;
                                            break;
                                        }
                                    }
                                }
                            }
                            if ok {
                                for i in 0..256usize {
                                    if !set_has(&d, i as u8) {
                                        out[i] = first.unwrap_or(0);
                                    }
                                }
                                let r = self.ar.tab(v, out, ty.bits());
                                done = Some(self.val(r));
                            }
                        }
                        match done {
                            Some(v) => v,
                            None => {
                                let a = self.conc(st, &pv, 64)?;
                                self.load(st, ty, a)?
                            }
                        }
                    }
                    _ => return uns("pointer"),
                };
                set!(dst, r);
            }
            Inst::Store { ty, val, ptr } => {
                let pv = self.op(st, ptr);
                let a = self.conc(st, &pv, 64)?;
                let v = self.op(st, val);
                self.store(st, ty, a, &v)?;
                st.top.ip += 1;
            }
            Inst::Gep { dst, base, off, idx } => {
                let b = self.op(st, base);
                let mut acc = if *off != 0 { self.bin(B::Add, 64, &b, &V::I(*off))? } else { b };
                for (o, w, sc) in idx.iter() {
                    let i = self.op(st, o);
                    let i = match i {
                        V::I(k) => V::I(sx64(k, *w) as u64),
                        V::S(e) => {
                            let x = self.ar.sext(e, 64);
                            self.val(x)
                        }
                        _ => return uns("gep index"),
                    };
                    let s = self.bin(B::Mul, 64, &i, &V::I(*sc))?;
                    acc = self.bin(B::Add, 64, &acc, &s)?;
                }
                set!(dst, acc);
            }
            Inst::Alloca { dst, size, align, n } => {
                let cnt = match n {
                    None => 1,
                    Some(o) => {
                        let v = self.op(st, o);
                        self.conc(st, &v, 64)?
                    }
                };
                let al = (*align).max(8);
                let a = (st.sp + al - 1) / al * al;
                st.sp = a + size * cnt;
                if st.sp > SBASE + (1 << 25) {
                    return Err(Stop::End(End::Panic("stack overflow".into(), self.trace(st))));
                }
                set!(dst, V::I(a));
            }
            Inst::Select { dst, c, a, b, w, vec, ptr } => {
                let cv = self.op(st, c);
                let x = self.op(st, a);
                let y = self.op(st, b);
                let r = if *vec {
                    match (&cv, &x, &y) {
                        (V::A(c), V::A(x), V::A(y)) => {
                            let mut o = vec![];
                            for i in 0..c.len() {
                                o.push(match &c[i] {
                                    V::I(k) => {
                                        if k & 1 == 1 {
                                            x[i].clone()
                                        } else {
                                            y[i].clone()
                                        }
                                    }
                                    _ => return uns("symbolic vector select"),
                                });
                            }
                            V::A(Rc::new(o))
                        }
                        _ => return uns("vector select"),
                    }
                } else {
                    let cv = self.norm(st, cv);
                    match &cv {
                        V::I(k) => {
                            if k & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        V::S(e) => {
                            if *ptr || *w == 0 {
                                if self.decide_bool(st, &cv)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                let e = *e;
                                let xe = self.ex(&x, *w);
                                let ye = self.ex(&y, *w);
                                let r = self.ar.ite(e, xe, ye);
                                self.val(r)
                            }
                        }
                        _ => return uns("select"),
                    }
                };
                set!(dst, r);
            }
            Inst::Call { dst, callee, args, rty, fty } => {
                let fi = match callee {
                    Callee::Direct(i) => *i,
                    Callee::Indirect(o) => {
                        let v = self.op(st, o);
                        let a = self.conc(st, &v, 64)?;
                        match p.m.func_at(a) {
                            Some(i) => i,
                            None => return uns(format!("indirect call to {:#x}", a)),
                        }
                    }
                };
                let mut fi = fi;
                let mut k = p.kinds[fi as usize];
                let mut av: Vec<V> = args.iter().map(|a| self.op(st, a)).collect();
                let mut catch = false;
                match k {
                    K::SymCatch => {
                        // calls its argument; `exit` inside ends that call with the exit code
                        let a = self.conc(st, &av[0], 64)?;
                        fi = match p.m.func_at(a) {
                            Some(i) => i,
                            None => return uns(format!("indirect call to {:#x}", a)),
                        };
                        k = p.kinds[fi as usize];
                        av.clear();
                        catch = true;
                    }
                    K::SymArgs => match p.args_init {
                        Some(i) => {
                            fi = i;
                            k = K::Ir;
                        }
                        None => k = K::Nop,
                    },
                    K::Exit => {
                        let code = av[0].clone();
                        loop {
                            let l = match st.rest.take() {
                                None => return Err(Stop::End(End::Panic("exit".into(), self.trace(st)))),
                                Some(l) => l,
                            };
                            let fr = std::mem::replace(&mut st.top, l.v.clone());
                            st.rest = l.next.clone();
                            st.nframes -= 1;
                            if fr.catch {
                                st.sp = fr.sp;
                                if let Some(d) = fr.ret {
                                    st.top.regs[d as usize] = code;
                                }
                                break;
                            }
                        }
                        return Ok(false);
                    }
                    _ => {}
                }
                if k == K::Ir {
                    let fu = &p.m.funcs[fi as usize];
                    let mut regs = vec![V::I(0); fu.nregs as usize];
                    for (i, a) in av.into_iter().enumerate() {
                        if i < fu.nparams as usize {
                            regs[i] = a;
                        }
                    }
                    st.top.ip += 1;
                    let nf = Frame { f: fi, b: 0, prev: 0, ip: 0, regs, sp: st.sp, ret: *dst, catch };
                    let old = std::mem::replace(&mut st.top, nf);
                    st.rest = Some(Rc::new(Link { v: old, next: st.rest.take() }));
                    st.nframes += 1;
                    if st.nframes > 12000 {
                        return Err(Stop::End(End::Panic("stack overflow (recursion)".into(), String::new())));
                    }
                } else {
                    let r = self.model(st, k, fi, &av, rty, fty)?;
                    if let Some(d) = dst {
                        st.top.regs[*d as usize] = r;
                    }
                    st.top.ip += 1;
                }
            }
            Inst::Extract { dst, a, idx } => {
                let mut v = self.op(st, a);
                for i in idx.iter() {
                    v = match &v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => return uns("extractvalue"),
                    };
                }
                set!(dst, v);
            }
            Inst::Insert { dst, a, v, idx } => {
                fn ins(a: &V, idx: &[u32], v: V) -> V {
                    if idx.is_empty() {
                        return v;
                    }
                    match a {
                        V::A(x) => {
                            let mut y = (**x).clone();
                            y[idx[0] as usize] = ins(&x[idx[0] as usize], &idx[1..], v);
                            V::A(Rc::new(y))
                        }
                        _ => v,
                    }
                }
                let x = self.op(st, a);
                let y = self.op(st, v);
                set!(dst, ins(&x, idx, y));
            }
            Inst::ExtractEl { dst, a, i } => {
                let x = self.op(st, a);
                let iv = self.op(st, i);
                let k = self.conc(st, &iv, 64)?;
                match &x {
                    V::A(v) => {
                        let r = v[k as usize].clone();
                        set!(dst, r)
                    }
                    _ => return uns("extractelement"),
                }
            }
            Inst::InsertEl { dst, a, v, i } => {
                let x = self.op(st, a);
                let iv = self.op(st, i);
                let k = self.conc(st, &iv, 64)?;
                let nv = self.op(st, v);
                match &x {
                    V::A(o) => {
                        let mut o = (**o).clone();
                        o[k as usize] = nv;
                        set!(dst, V::A(Rc::new(o)))
                    }
                    _ => return uns("insertelement"),
                }
            }
            Inst::Shuffle { dst, a, b, mask, n } => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                match (&x, &y) {
                    (V::A(x), V::A(y)) => {
                        let o: Vec<V> = mask
                            .iter()
                            .map(|m| match m {
                                None => V::I(0),
                                Some(k) if k < n => x[*k as usize].clone(),
                                Some(k) => y[(*k - n) as usize].clone(),
                            })
                            .collect();
                        set!(dst, V::A(Rc::new(o)))
                    }
                    _ => return uns("shufflevector"),
                }
            }
            Inst::Rmw { op, dst, ptr, val, ty } => {
                let pv = self.op(st, ptr);
                let a = self.conc(st, &pv, 64)?;
                let old = self.load(st, ty, a)?;
                let v = self.op(st, val);
                let w = ty.bits();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(B::Add, w, &old, &v)?,
                    "sub" => self.bin(B::Sub, w, &old, &v)?,
                    "and" => self.bin(B::And, w, &old, &v)?,
                    "or" => self.bin(B::Or, w, &old, &v)?,
                    "xor" => self.bin(B::Xor, w, &old, &v)?,
                    _ => return uns("atomicrmw"),
                };
                self.store(st, ty, a, &new)?;
                set!(dst, old);
            }
            Inst::CmpXchg { dst, ptr, cmp, new, ty } => {
                let pv = self.op(st, ptr);
                let a = self.conc(st, &pv, 64)?;
                let old = self.load(st, ty, a)?;
                let c = self.op(st, cmp);
                let n = self.op(st, new);
                let e = self.cmp(Pred::Eq, ty.bits(), &old, &c);
                let ok = self.decide_bool(st, &e)?;
                if ok {
                    self.store(st, ty, a, &n)?;
                }
                set!(dst, V::A(Rc::new(vec![old, V::I(ok as u64)])));
            }
            Inst::Copy { dst, a } => {
                let x = self.op(st, a);
                set!(dst, x);
            }
            Inst::Nop => st.top.ip += 1,
            Inst::Br(b) => self.goto(st, *b),
            Inst::CondBr { c, t, f } => {
                let v = self.op(st, c);
                let k = match v {
                    V::I(k) => k & 1 == 1,
                    _ => {
                        if t == f {
                            true
                        } else {
                            self.decide_bool(st, &v)?
                        }
                    }
                };
                self.goto(st, if k { *t } else { *f });
            }
            Inst::Switch { v, w, def, cases } => {
                let x = self.op(st, v);
                let b = match x {
                    V::I(k) => cases.iter().find(|c| c.0 == k).map_or(*def, |c| c.1),
                    V::S(e) => {
                        // group by destination
                        let mut opts: Vec<(u32, E)> = vec![];
                        let mut none = self.ar.c(1, 1);
                        for (k, b) in cases.iter() {
                            let kc = self.ar.c(*k as u128, *w);
                            let q = self.ar.eq(e, kc);
                            let nq = self.ar.not(q);
                            none = self.ar.and(none, nq);
                            if *b == *def {
                                continue;
                            }
                            if let Some(o) = opts.iter_mut().find(|o| o.0 == *b) {
                                o.1 = self.ar.or(o.1, q);
                            } else {
                                opts.push((*b, q));
                            }
                        }
                        let mut d = none;
                        for (k, b) in cases.iter() {
                            if *b == *def {
                                let kc = self.ar.c(*k as u128, *w);
                                let q = self.ar.eq(e, kc);
                                d = self.ar.or(d, q);
                            }
                        }
                        opts.push((*def, d));
                        let es: Vec<E> = opts.iter().map(|o| o.1).collect();
                        let i = self.decide(st, &es)?;
                        opts[i].0
                    }
                    _ => return uns("switch"),
                };
                self.goto(st, b);
            }
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| self.op(st, o));
                st.sp = st.top.sp;
                match st.rest.take() {
                    None => return Ok(true),
                    Some(l) => {
                        let ret = st.top.ret;
                        match Rc::try_unwrap(l) {
                            Ok(l) => {
                                st.top = l.v;
                                st.rest = l.next;
                            }
                            Err(l) => {
                                st.top = l.v.clone();
                                st.rest = l.next.clone();
                            }
                        }
                        st.nframes -= 1;
                        if let (Some(d), Some(v)) = (ret, v) {
                            st.top.regs[d as usize] = v;
                        }
                    }
                }
            }
            Inst::Unreachable => {
                return uns(format!("unreachable reached in {}", self.trace(st)));
            }
            Inst::Resume => return uns("resume"),
            Inst::FBin { op, dbl, dst, a, b } => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                let x = self.conc(st, &x, 64)?;
                let y = self.conc(st, &y, 64)?;
                let r = if *dbl {
                    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                    match op {
                        b'a' => x + y,
                        b's' => x - y,
                        b'm' => x * y,
                        b'd' => x / y,
                        b'r' => x % y,
                        _ => -x,
                    }
                    .to_bits()
                } else {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match op {
                        b'a' => x + y,
                        b's' => x - y,
                        b'm' => x * y,
                        b'd' => x / y,
                        b'r' => x % y,
                        _ => -x,
                    })
                    .to_bits() as u64
                };
                set!(dst, V::I(r));
            }
            Inst::FCmp { p: pr, dbl, dst, a, b } => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                let x = self.conc(st, &x, 64)?;
                let y = self.conc(st, &y, 64)?;
                let (x, y) = if *dbl { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match pr.as_str() {
                    "oeq" => x == y,
                    "one" => !un && x != y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "une" => un || x != y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "true" => true,
                    _ => false,
                };
                set!(dst, V::I(r as u64));
            }
        }
        Ok(false)
    }

    fn cast(&mut self, st: &mut State, k: CastK, from: &Ty, to: &Ty, x: &V) -> Res<V> {
        let (fw, tw) = (from.bits(), to.bits());
        match k {
            CastK::Trunc | CastK::ZExt | CastK::SExt => {
                if let Ty::Vec(n, fe) = from {
                    let te = to.elem(0);
                    if let V::A(v) = x {
                        let v = v.clone();
                        let mut o = vec![];
                        for i in 0..*n as usize {
                            o.push(self.cast(st, k, fe, te, &v[i])?);
                        }
                        return Ok(V::A(Rc::new(o)));
                    }
                    return uns("vector cast");
                }
                match x {
                    V::I(v) => Ok(match k {
                        CastK::Trunc => V::I(*v & m64(tw)),
                        CastK::ZExt => {
                            if tw > 64 {
                                V::W(Rc::new(*v as u128))
                            } else {
                                V::I(*v)
                            }
                        }
                        _ => self.mkw(sx(*v as u128, fw) as u128, tw),
                    }),
                    V::W(v) => Ok(match k {
                        CastK::SExt => self.mkw(sx(**v, fw) as u128, tw),
                        _ => self.mkw(**v, tw),
                    }),
                    V::S(e) => {
                        let e = *e;
                        let r = match k {
                            CastK::Trunc => self.ar.extract(e, 0, tw),
                            CastK::ZExt => self.ar.zext(e, tw),
                            _ => self.ar.sext(e, tw),
                        };
                        Ok(self.val(r))
                    }
                    _ => uns("cast"),
                }
            }
            CastK::Bit => {
                if from == to {
                    return Ok(x.clone());
                }
                match (from, to) {
                    (Ty::Vec(..), Ty::Vec(n, te)) => {
                        let w = from.bits();
                        let ew = te.bits();
                        let e = self.ex(x, w);
                        let mut o = vec![];
                        for i in 0..*n {
                            let b = self.ar.extract(e, i * ew, ew);
                            o.push(self.val(b));
                        }
                        Ok(V::A(Rc::new(o)))
                    }
                    (Ty::Vec(..), _) => {
                        let e = self.ex(x, fw);
                        Ok(self.val(e))
                    }
                    (_, Ty::Vec(n, te)) => {
                        let ew = te.bits();
                        let e = self.ex(x, fw);
                        let mut o = vec![];
                        for i in 0..*n {
                            let b = self.ar.extract(e, i * ew, ew);
                            o.push(self.val(b));
                        }
                        Ok(V::A(Rc::new(o)))
                    }
                    _ => match x {
                        V::I(v) => Ok(V::I(*v & m64(tw))),
                        V::S(e) if tw < fw => {
                            let r = self.ar.extract(*e, 0, tw);
                            Ok(self.val(r))
                        }
                        V::S(e) if tw > fw => {
                            let r = self.ar.zext(*e, tw);
                            Ok(self.val(r))
                        }
                        v => Ok(v.clone()),
                    },
                }
            }
            _ => {
                let v = self.conc(st, x, fw)?;
                let isd = |t: &Ty| *t == Ty::Double;
                Ok(match k {
                    CastK::UiToFp => {
                        if isd(to) {
                            V::I((v as f64).to_bits())
                        } else {
                            V::I((v as f32).to_bits() as u64)
                        }
                    }
                    CastK::SiToFp => {
                        let s = sx64(v, fw);
                        if isd(to) {
                            V::I((s as f64).to_bits())
                        } else {
                            V::I((s as f32).to_bits() as u64)
                        }
                    }
                    CastK::FpToUi | CastK::FpToSi => {
                        let f = if isd(from) { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 };
                        if k == CastK::FpToUi {
                            V::I((f as u64) & m64(tw))
                        } else {
                            V::I((f as i64 as u64) & m64(tw))
                        }
                    }
                    CastK::FpExt => V::I((f32::from_bits(v as u32) as f64).to_bits()),
                    _ => V::I((f64::from_bits(v) as f32).to_bits() as u64),
                })
            }
        }
    }

    // ------------------------------------------------------------ models of external / intercepted functions
    fn bytes_eq(&mut self, a: &[V], b: &[V]) -> E {
        let mut acc = self.ar.c(1, 1);
        for (x, y) in a.iter().zip(b.iter()) {
            let x = self.ex(x, 8);
            let y = self.ex(y, 8);
            let e = self.ar.eq(x, y);
            acc = self.ar.and(acc, e);
            if self.ar.as_c(acc) == Some(0) {
                break;
            }
        }
        acc
    }

    pub fn record(&mut self, st: &State, kind: &str, id: u32, info: String, model: Vec<u8>) {
        let mut fs = (*st.findings).clone();
        fs.sort();
        fs.dedup();
        let key = (kind.to_string(), id, format!("{} {:?}", info, fs));
        let c = self.cex_seen.entry(key).or_insert(0);
        *c += 1;
        if *c <= 3 && self.cex.len() < 200 {
            self.cex.push(Cex { kind: kind.into(), id, info, model, findings: fs });
        }
    }

    fn model(&mut self, st: &mut State, k: K, fi: u32, a: &[V], rty: &Ty, fty: &[Ty]) -> Res<V> {
        let w = rty.bits();
        match k {
            K::Nop => Ok(V::I(0)),
            K::Ir => unreachable!(),
            K::SymByte => {
                // __sym_byte(set: *const [u64;4]) -> u8
                let p = self.conc(st, &a[0], 64)?;
                let mut s = [0u64; 4];
                for i in 0..4 {
                    s[i] = match st.mem.read(p + 8 * i as u64, 8)? {
                        Some(x) => x,
                        None => return uns("symbolic domain"),
                    };
                }
                if set_empty(&s) {
                    return Err(Stop::End(End::Pruned));
                }
                let v = st.pc.dom.len();
                if v >= 128 {
                    return uns("more than 128 symbolic bytes");
                }
                Rc::make_mut(&mut st.pc.dom).push(s);
                self.cnt.max_vars = self.cnt.max_vars.max(v as u64 + 1);
                if st.pc.model.len() <= v {
                    Rc::make_mut(&mut st.pc.model).push(set_min(&s));
                }
                if set_count(&s) == 1 {
                    return Ok(V::I(set_min(&s) as u64));
                }
                let e = self.ar.var(v as u8);
                Ok(V::S(e))
            }
            K::SymAssume => match &a[0] {
                V::I(k) => {
                    if k & 1 == 0 {
                        Err(Stop::End(End::Pruned))
                    } else {
                        Ok(V::I(0))
                    }
                }
                V::S(e) => {
                    let e = *e;
                    if st.depth < st.until {
                        let m = st.pc.model.clone();
                        self.sol.assume(&mut self.ar, &mut st.pc, e, m);
                        return Ok(V::I(0));
                    }
                    match self.sol.check(&mut self.ar, &st.pc, e) {
                        R::Sat(m) => {
                            self.sol.assume(&mut self.ar, &mut st.pc, e, m);
                            Ok(V::I(0))
                        }
                        R::Unsat => Err(Stop::End(End::Pruned)),
                        R::Unknown => uns("solver gave no answer"),
                    }
                }
                _ => uns("assume"),
            },
            K::SymAssert => {
                let id = self.conc(st, &a[1], 32)? as u32;
                st.asserts += 1;
                if st.depth >= st.until {
                    self.cnt.assert_checks += 1;
                    *self.reached.entry(id).or_insert(0) += 1;
                }
                match &a[0] {
                    V::I(k) => {
                        if st.depth >= st.until {
                            self.cnt.assert_const += 1;
                        }
                        if k & 1 == 0 {
                            if st.depth >= st.until {
                                let m = (*st.pc.model).clone();
                                self.record(st, "assert", id, String::new(), m);
                            }
                            Err(Stop::End(End::Pruned))
                        } else {
                            Ok(V::I(0))
                        }
                    }
                    V::S(e) => {
                        let e = *e;
                        if st.depth >= st.until {
                            self.cnt.assert_queries += 1;
                            let n = self.ar.not(e);
                            match self.sol.check(&mut self.ar, &st.pc, n) {
                                R::Sat(m) => {
                                    let mv = (*m).clone();
                                    self.record(st, "assert", id, String::new(), mv);
                                }
                                R::Unsat => return Ok(V::I(0)),
                                R::Unknown => return uns("solver gave no answer"),
                            }
                            match self.sol.check(&mut self.ar, &st.pc, e) {
                                R::Sat(m) => {
                                    self.sol.assume(&mut self.ar, &mut st.pc, e, m);
                                    Ok(V::I(0))
                                }
                                R::Unsat => Err(Stop::End(End::Pruned)),
                                R::Unknown => uns("solver gave no answer"),
                            }
                        } else {
                            let m = st.pc.model.clone();
                            self.sol.assume(&mut self.ar, &mut st.pc, e, m);
                            Ok(V::I(0))
                        }
                    }
                    _ => uns("assert"),
                }
            }
            K::SymFinding => {
                let id = self.conc(st, &a[0], 32)? as u32;
                Rc::make_mut(&mut st.findings).push(id);
                Ok(V::I(0))
            }
            K::SymNative | K::SymCatch | K::SymArgs | K::Exit => Ok(V::I(0)),
            K::SymObserve => {
                let tag = self.conc(st, &a[0], 32)? as u32;
                let p = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                let b = self.bytes(st, p, n)?;
                st.obs = Some(Rc::new(Link { v: (tag, Rc::new(b)), next: st.obs.take() }));
                Ok(V::I(0))
            }
            K::SymConc => {
                let v = self.conc(st, &a[0], 64)?;
                Ok(V::I(v & m64(w)))
            }
            K::SymRegex => self.do_regex(st, a),
            K::Malloc => {
                let n = self.conc(st, &a[0], 64)?;
                Ok(V::I(self.alloc(st, n, 16)?))
            }
            K::Calloc => {
                let n = self.conc(st, &a[0], 64)?;
                let m = self.conc(st, &a[1], 64)?;
                let p = self.alloc(st, n.wrapping_mul(m), 16)?;
                st.mem.fill(p, 0, n * m)?;
                Ok(V::I(p))
            }
            K::Realloc => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                let q = self.alloc(st, n, 16)?;
                if p != 0 {
                    let o = st.mem.read(p - 8, 8)?.unwrap_or(0);
                    st.mem.copy(q, p, o.min(n))?;
                }
                Ok(V::I(q))
            }
            K::Free => Ok(V::I(0)),
            K::PosixMemalign => {
                let out = self.conc(st, &a[0], 64)?;
                let al = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                let p = self.alloc(st, n, al)?;
                st.mem.write(out, 8, p)?;
                Ok(V::I(0))
            }
            K::Memcpy => {
                let d = self.conc(st, &a[0], 64)?;
                let s = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                if n > 1 << 26 {
                    return uns("huge copy");
                }
                st.mem.copy(d, s, n)?;
                Ok(V::I(d))
            }
            K::Memset => {
                let d = self.conc(st, &a[0], 64)?;
                let v = self.conc(st, &a[1], 8)?;
                let n = self.conc(st, &a[2], 64)?;
                if n > 1 << 26 {
                    return uns("huge fill");
                }
                st.mem.fill(d, v as u8, n)?;
                Ok(V::I(d))
            }
            K::Bcmp | K::Memcmp => {
                let p = self.conc(st, &a[0], 64)?;
                let q = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                let x = self.bytes(st, p, n)?;
                let y = self.bytes(st, q, n)?;
                if k == K::Bcmp {
                    let e = self.bytes_eq(&x, &y);
                    let ne = self.ar.not(e);
                    let r = self.ar.zext(ne, 32);
                    return Ok(self.val(r));
                }
                let mut acc = self.ar.c(0, 32);
                for (x, y) in x.iter().zip(y.iter()).rev() {
                    if let (V::I(p), V::I(q)) = (x, y) {
                        if p != q {
                            acc = self.ar.c(if p < q { !0 } else { 1 }, 32);
                        }
                        continue;
                    }
                    let xe = self.ex(x, 8);
                    let ye = self.ex(y, 8);
                    let eq = self.ar.eq(xe, ye);
                    let lt = self.ar.cmp(Cop::Ult, xe, ye);
                    let m1 = self.ar.c(!0, 32);
                    let p1 = self.ar.c(1, 32);
                    let d = self.ar.ite(lt, m1, p1);
                    acc = self.ar.ite(eq, acc, d);
                }
                Ok(self.val(acc))
            }
            K::Strlen => {
                let p = self.conc(st, &a[0], 64)?;
                let mut n = 0;
                loop {
                    let (b, s) = st.mem.byte(p + n)?;
                    n += 1;
                    if s == 0 && b == 0 {
                        break;
                    }
                    if n > 100000 {
                        return uns("strlen");
                    }
                }
                let b = self.bytes(st, p, n)?;
                match self.find_byte(st, 0, &b, false)? {
                    Some(i) => Ok(V::I(i as u64)),
                    None => uns("strlen"),
                }
            }
            K::Memchr => {
                let p = self.conc(st, &a[0], 64)?;
                let c = self.conc(st, &a[1], 32)? & 255;
                let n = self.conc(st, &a[2], 64)?;
                let b = self.bytes(st, p, n)?;
                Ok(match self.find_byte(st, c, &b, false)? {
                    Some(i) => V::I(p + i as u64),
                    None => V::I(0),
                })
            }
            K::MemchrAligned | K::MemrchrAligned => {
                // (x: u8, ptr, len) -> Option<usize>
                let c = self.conc(st, &a[0], 8)?;
                let p = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                let b = self.bytes(st, p, n)?;
                let r = self.find_byte(st, c, &b, k == K::MemrchrAligned)?;
                if !matches!(rty, Ty::Struct(..)) {
                    return uns("memchr signature");
                }
                Ok(V::A(Rc::new(match r {
                    Some(i) => vec![V::I(1), V::I(i as u64)],
                    None => vec![V::I(0), V::I(0)],
                })))
            }
            K::CountChars => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                let b = self.bytes(st, p, n)?;
                let mut c = self.ar.c(0, 64);
                for x in b {
                    let e = self.ex(&x, 8);
                    let hi = self.ar.extract(e, 6, 2);
                    let two = self.ar.c(2, 2);
                    let cont = self.ar.eq(hi, two);
                    let nc = self.ar.not(cont);
                    let z = self.ar.zext(nc, 64);
                    c = self.ar.bin(Bop::Add, 64, c, z);
                }
                let v = self.val(c);
                let v = self.conc(st, &v, 64)?;
                Ok(V::I(v))
            }
            K::Utf8Check => uns("utf8"),
            K::Panic => {
                let loc = self.panic_loc(st, a);
                let name = ir::idents(&self.p.m.funcs[fi as usize].name).join("::");
                Err(Stop::End(End::Panic(if loc.is_empty() { name } else { loc }, self.trace(st))))
            }
            K::Trap => Err(Stop::End(End::Panic("abort".into(), self.trace(st)))),
            K::HashOne => Ok(V::I(0)),
            K::Zero => Ok(V::I(0)),
            K::MinusOne => Ok(V::I(m64(w))),
            K::Write => {
                let fd = self.conc(st, &a[0], 32)?;
                let p = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                let b = self.bytes(st, p, n)?;
                if fd == 1 {
                    Rc::make_mut(&mut st.io).out.extend(b);
                }
                Ok(V::I(n))
            }
            K::Writev => uns("writev"),
            K::Errno => {
                // a fixed scratch cell at the end of the globals
                Ok(V::I(self.p.m.gend - 16))
            }
            K::GetRandom => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                st.mem.fill(p, 0x5a, n)?;
                Ok(V::I(n))
            }
            K::Umax | K::Umin | K::Smax | K::Smin => {
                if let Ty::Vec(n, e) = rty {
                    if let (V::A(x), V::A(y)) = (&a[0], &a[1]) {
                        let (x, y) = (x.clone(), y.clone());
                        let mut o = vec![];
                        for i in 0..*n as usize {
                            o.push(self.model(st, k, fi, &[x[i].clone(), y[i].clone()], e, fty)?);
                        }
                        return Ok(V::A(Rc::new(o)));
                    }
                }
                let p = match k {
                    K::Umax => Pred::Ugt,
                    K::Umin => Pred::Ult,
                    K::Smax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.cmp(p, w, &a[0], &a[1]);
                match c {
                    V::I(1) => Ok(a[0].clone()),
                    V::I(_) => Ok(a[1].clone()),
                    V::S(e) => {
                        let x = self.ex(&a[0], w);
                        let y = self.ex(&a[1], w);
                        let r = self.ar.ite(e, x, y);
                        Ok(self.val(r))
                    }
                    _ => uns("min/max"),
                }
            }
            K::Abs => {
                let z = self.cmp(Pred::Slt, w, &a[0], &V::I(0));
                let n = self.bin(B::Sub, w, &V::I(0), &a[0])?;
                match z {
                    V::I(1) => Ok(n),
                    V::I(_) => Ok(a[0].clone()),
                    V::S(e) => {
                        let x = self.ex(&n, w);
                        let y = self.ex(&a[0], w);
                        let r = self.ar.ite(e, x, y);
                        Ok(self.val(r))
                    }
                    _ => uns("abs"),
                }
            }
            K::Ctpop | K::Cttz | K::Ctlz | K::Bitrev => {
                if w > 64 {
                    return uns("wide bit count");
                }
                let f = move |v: u64| -> u64 {
                    match k {
                        K::Ctpop => v.count_ones() as u64,
                        K::Cttz => {
                            if v == 0 {
                                w as u64
                            } else {
                                v.trailing_zeros() as u64
                            }
                        }
                        K::Ctlz => {
                            if v == 0 {
                                w as u64
                            } else {
                                (v.leading_zeros() - (64 - w)) as u64
                            }
                        }
                        _ => v.reverse_bits() >> (64 - w),
                    }
                };
                match &a[0] {
                    V::I(v) => Ok(V::I(f(*v))),
                    V::S(e) => {
                        if let N::Tab { v, t } = self.ar.n[*e as usize] {
                            let tb = self.ar.tabs[t as usize].clone();
                            let mut o = [0u64; 256];
                            for i in 0..256 {
                                o[i] = f(tb[i]);
                            }
                            let r = self.ar.tab(v, o, w);
                            return Ok(self.val(r));
                        }
                        let v = self.conc(st, &a[0], w)?;
                        Ok(V::I(f(v)))
                    }
                    _ => uns("bit count"),
                }
            }
            K::Bswap => match &a[0] {
                V::I(v) => Ok(V::I(v.swap_bytes() >> (64 - w))),
                V::S(e) => {
                    let e = *e;
                    let mut acc: Option<E> = None;
                    for i in 0..w / 8 {
                        let b = self.ar.extract(e, 8 * i, 8);
                        acc = Some(match acc {
                            None => b,
                            Some(h) => self.ar.concat(h, b),
                        });
                    }
                    Ok(self.val(acc.unwrap()))
                }
                _ => uns("bswap"),
            },
            K::Fshl | K::Fshr => {
                let s = self.conc(st, &a[2], w)? % w as u64;
                let (hi, lo) = (&a[0], &a[1]);
                if s == 0 {
                    return Ok(if k == K::Fshl { hi.clone() } else { lo.clone() });
                }
                let (l, r) = if k == K::Fshl { (s, w as u64 - s) } else { (w as u64 - s, s) };
                let x = self.bin(B::Shl, w, hi, &V::I(l))?;
                let y = self.bin(B::LShr, w, lo, &V::I(r))?;
                self.bin(B::Or, w, &x, &y)
            }
            K::UaddO | K::UsubO | K::UmulO | K::SaddO | K::SsubO | K::SmulO => {
                let w = fty[0].bits();
                let op = match k {
                    K::UaddO | K::SaddO => B::Add,
                    K::UsubO | K::SsubO => B::Sub,
                    _ => B::Mul,
                };
                let signed = matches!(k, K::SaddO | K::SsubO | K::SmulO);
                let r = self.bin(op, w, &a[0], &a[1])?;
                let o = match k {
                    K::UaddO => self.cmp(Pred::Ult, w, &r, &a[0]),
                    K::UsubO => self.cmp(Pred::Ult, w, &a[0], &a[1]),
                    _ => {
                        if w > 64 {
                            return uns("wide overflow check");
                        }
                        if let (V::I(x), V::I(y)) = (&a[0], &a[1]) {
                            let of = if signed {
                                let (x, y) = (sx64(*x, w) as i128, sx64(*y, w) as i128);
                                let t = match op {
                                    B::Add => x + y,
                                    B::Sub => x - y,
                                    _ => x * y,
                                };
                                t != sx(t as u128 & mask(w), w)
                            } else {
                                (*x as u128) * (*y as u128) > mask(w)
                            };
                            V::I(of as u64)
                        } else {
                            let x = self.ex(&a[0], w);
                            let y = self.ex(&a[1], w);
                            let (x2, y2) = if signed { (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w)) } else { (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w)) };
                            let t = self.ar.bin(bop(op), 2 * w, x2, y2);
                            let lo = self.ar.extract(t, 0, w);
                            let back = if signed { self.ar.sext(lo, 2 * w) } else { self.ar.zext(lo, 2 * w) };
                            let e = self.ar.eq(t, back);
                            let n = self.ar.not(e);
                            self.val(n)
                        }
                    }
                };
                Ok(V::A(Rc::new(vec![r, o])))
            }
            K::UaddS | K::UsubS | K::SaddS | K::SsubS => {
                let (x, y) = (&a[0], &a[1]);
                let add = matches!(k, K::UaddS | K::SaddS);
                let r = self.bin(if add { B::Add } else { B::Sub }, w, x, y)?;
                if matches!(k, K::SaddS | K::SsubS) {
                    let (x, y) = (self.conc(st, x, w)?, self.conc(st, y, w)?);
                    let (x, y) = (sx64(x, w) as i128, sx64(y, w) as i128);
                    let t = if add { x + y } else { x - y };
                    let lim = 1i128 << (w - 1);
                    return Ok(V::I((t.max(-lim).min(lim - 1) as u64) & m64(w)));
                }
                let o = if add { self.cmp(Pred::Ult, w, &r, x) } else { self.cmp(Pred::Ult, w, x, y) };
                let sat = V::I(if add { m64(w) } else { 0 });
                match o {
                    V::I(1) => Ok(sat),
                    V::I(_) => Ok(r),
                    V::S(e) => {
                        let s = self.ex(&sat, w);
                        let re = self.ex(&r, w);
                        let t = self.ar.ite(e, s, re);
                        Ok(self.val(t))
                    }
                    _ => uns("sat"),
                }
            }
            K::Ucmp | K::Scmp => {
                let ow = fty[0].bits();
                let (lt, gt) = if k == K::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.cmp(lt, ow, &a[0], &a[1]);
                let g = self.cmp(gt, ow, &a[0], &a[1]);
                let le = self.ex(&l, 1);
                let ge = self.ex(&g, 1);
                let m1 = self.ar.c(!0, w);
                let z = self.ar.c(0, w);
                let p1 = self.ar.c(1, w);
                let t = self.ar.ite(ge, p1, z);
                let r = self.ar.ite(le, m1, t);
                Ok(self.val(r))
            }
            K::IsConst => Ok(V::I(0)),
            K::Id => Ok(a[0].clone()),
            K::LoadRel => {
                let p = self.conc(st, &a[0], 64)?;
                let o = self.conc(st, &a[1], 64)?;
                let r = match st.mem.read(p.wrapping_add(o), 4)? {
                    Some(r) => r as u32 as i32,
                    None => return uns("load.relative"),
                };
                Ok(V::I(p.wrapping_add(r as i64 as u64)))
            }
            K::FAbs => {
                let v = self.conc(st, &a[0], w)?;
                Ok(V::I(v & !(1u64 << (w - 1))))
            }
            K::FSat(sg) => {
                let v = self.conc(st, &a[0], 64)?;
                let f = if fty[0] == Ty::Double { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 };
                if w > 64 {
                    return uns("fpto.sat width");
                }
                let lim = if sg { 2f64.powi(w as i32 - 1) } else { 2f64.powi(w as i32) };
                let r = if f.is_nan() {
                    0
                } else if sg {
                    if f >= lim {
                        (m64(w)) >> 1
                    } else if f < -lim {
                        1u64 << (w - 1)
                    } else {
                        f as i64 as u64
                    }
                } else if f >= lim {
                    m64(w)
                } else {
                    f as u64
                };
                Ok(V::I(r & m64(w)))
            }
            K::PtrMask => self.bin(B::And, 64, &a[0], &a[1]),
            K::VRed(o) => {
                if let V::A(v) = &a[0] {
                    let v = v.clone();
                    let mut acc = v[0].clone();
                    for x in v[1..].iter() {
                        acc = match o {
                            b'o' => self.bin(B::Or, w, &acc, x)?,
                            b'a' => self.bin(B::And, w, &acc, x)?,
                            b'x' => self.bin(B::Xor, w, &acc, x)?,
                            b'+' => self.bin(B::Add, w, &acc, x)?,
                            _ => self.model(st, if o == b'M' { K::Umax } else { K::Umin }, fi, &[acc.clone(), x.clone()], rty, fty)?,
                        };
                    }
                    return Ok(acc);
                }
                uns("vector.reduce")
            }
            K::Unknown => uns(format!("call to {}", self.p.m.funcs[fi as usize].name)),
        }
    }

    /// position of the first (last) byte equal to c; forks over the outcomes
    fn find_byte(&mut self, st: &mut State, c: u64, b: &[V], rev: bool) -> Res<Option<usize>> {
        let mut order: Vec<usize> = (0..b.len()).collect();
        if rev {
            order.reverse();
        }
        let cc = self.ar.c(c as u128, 8);
        let mut opts = vec![];
        let mut pos = vec![];
        let mut none = self.ar.c(1, 1);
        for i in order {
            let x = self.ex(&b[i], 8);
            let e = self.ar.eq(x, cc);
            if self.ar.as_c(e) == Some(0) {
                continue;
            }
            let o = self.ar.and(none, e);
            opts.push(o);
            pos.push(Some(i));
            let ne = self.ar.not(e);
            none = self.ar.and(none, ne);
            if self.ar.as_c(none) == Some(0) {
                break;
            }
        }
        if self.ar.as_c(none) != Some(0) {
            opts.push(none);
            pos.push(None);
        }
        if opts.len() == 1 {
            return Ok(pos[0]);
        }
        let k = self.decide(st, &opts)?;
        Ok(pos[k])
    }

    // __sym_regex(pat, plen, text, tlen, from, caps: *mut usize, maxcaps) -> 0 no match, else number of capture slots
    fn do_regex(&mut self, st: &mut State, a: &[V]) -> Res<V> {
        let mut x = [0u64; 7];
        for i in 0..7 {
            x[i] = self.conc(st, &a[i], 64)?;
        }
        let [pp, pl, tp, tl, from, caps, maxc] = x;
        let mut pat = vec![];
        for k in 0..pl {
            match st.mem.byte(pp + k)? {
                (b, 0) => pat.push(b),
                _ => return uns("symbolic pattern"),
            }
        }
        let prog = match self.rx.get(&pat) {
            Some(r) => r.clone(),
            None => {
                let s = String::from_utf8_lossy(&pat).into_owned();
                match regex::Prog::new(&s) {
                    Ok(r) => {
                        let r = Rc::new(r);
                        self.rx.insert(pat.clone(), r.clone());
                        r
                    }
                    Err(e) => return uns(e),
                }
            }
        };
        self.cnt.regex_calls += 1;
        let text = self.bytes(st, tp, tl)?;
        let t: Vec<regex::Byte> = text
            .iter()
            .map(|v| match v {
                V::I(k) => regex::Byte::C(*k as u8),
                V::S(e) => regex::Byte::S(*e),
                _ => unreachable!(),
            })
            .collect();
        let mut sim = regex::Sim::new(&prog.0, prog.1, &t, from as usize, maxc as usize);
        let caps_found = loop {
            match sim.advance() {
                regex::Ask::Done(c) => break c,
                regex::Ask::Byte(b) => {
                    let mut opts = vec![];
                    let mut reps = vec![];
                    for s in sim.cells() {
                        let (c, nd) = regex::in_cell(&mut self.ar, b, &s);
                        if let Some((v, vs)) = nd {
                            if set_empty(&set_and(&vs, &st.pc.dom[v as usize])) {
                                continue;
                            }
                        }
                        if self.ar.as_c(c) == Some(0) {
                            continue;
                        }
                        opts.push(c);
                        reps.push(set_min(&s));
                    }
                    let k = if opts.len() == 1 { 0 } else { self.decide(st, &opts)? };
                    sim.take(reps[k]);
                }
            }
        };
        match &caps_found {
            None => Ok(V::I(0)),
            Some(c) => {
                for (i, v) in c.iter().enumerate() {
                    if (i as u64) < 2 * maxc {
                        st.mem.write(caps + 8 * i as u64, 8, *v as u64)?;
                    }
                }
                Ok(V::I(prog.0.ncap as u64))
            }
        }
    }

    /// close a finished path: bookkeeping and sampling
    pub fn finish(&mut self, st: State, end: End) {
        self.cnt.paths += 1;
        self.cnt.steps += st.steps;
        self.max_steps_seen = self.max_steps_seen.max(st.steps);
        match &end {
            End::Done => self.cnt.done += 1,
            End::Pruned => self.cnt.pruned += 1,
            End::Panic(m, t) => {
                self.cnt.panics += 1;
                let model = (*st.pc.model).clone();
                self.record(&st, "panic", 0, format!("{} | {}", m, t), model);
            }
            End::Limit => {
                self.cnt.limit += 1;
                let model = (*st.pc.model).clone();
                self.record(&st, "limit", 0, String::new(), model);
            }
            End::Unsupported(s) => {
                self.cnt.unsupported += 1;
                let model = (*st.pc.model).clone();
                self.record(&st, "unsupported", 0, s.clone(), model);
                *self.uns.entry(s.clone()).or_insert(0) += 1;
            }
        }
        if end == End::Done && (self.cnt.done % self.sample_every == 0) {
            let model = (*st.pc.model).clone();
            let mut obs = vec![];
            let mut r = st.obs.clone();
            while let Some(l) = r {
                let b: Vec<u8> = l
                    .v
                    .1
                    .iter()
                    .map(|v| match v {
                        V::I(k) => *k as u8,
                        V::S(e) => self.ar.eval(*e, &model) as u8,
                        _ => 0,
                    })
                    .collect();
                obs.push((l.v.0, b));
                r = l.next.clone();
            }
            obs.reverse();
            self.samples.push(Sample { model, obs, end });
        }
    }
}
