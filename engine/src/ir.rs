//! LLVM IR text (.ll) -> compact in-memory program.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Box<Ty>),
    Vec(u32, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => ((*n as u64) * t.size()).next_power_of_two(),
            Ty::Struct(v, p) => {
                if *p {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => ((*n as u64) + 7) / 8,
                _ => (*n as u64) * t.size(),
            },
            Ty::Struct(v, p) => {
                let mut o = 0u64;
                for t in v {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(v, p) => {
                let mut o = 0u64;
                for (k, t) in v.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(v, _) => &v[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => self,
        }
    }
    pub fn nelem(&self) -> usize {
        match self {
            Ty::Struct(v, _) => v.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(u64),
    W(u128),
    Agg(Box<[Op]>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum P {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit, // bitcast / ptrtoint / inttoptr
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Op),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: B, w: u32, lanes: u32, dst: u32, a: Op, b: Op },
    Cmp { p: P, w: u32, lanes: u32, dst: u32, a: Op, b: Op },
    FBin { op: u8, dbl: bool, dst: u32, a: Op, b: Op },
    FCmp { p: String, dbl: bool, dst: u32, a: Op, b: Op },
    Cast { k: CastK, from: Ty, to: Ty, dst: u32, a: Op },
    Load { dst: u32, ty: Ty, ptr: Op },
    Store { ty: Ty, val: Op, ptr: Op },
    Gep { dst: u32, base: Op, off: u64, idx: Box<[(Op, u32, u64)]> },
    Alloca { dst: u32, size: u64, align: u64, n: Option<Op> },
    Select { dst: u32, c: Op, a: Op, b: Op, w: u32, vec: bool, ptr: bool },
    Call { dst: Option<u32>, callee: Callee, args: Box<[Op]>, rty: Ty, fty: Box<[Ty]> },
    Extract { dst: u32, a: Op, idx: Box<[u32]> },
    Insert { dst: u32, a: Op, v: Op, idx: Box<[u32]> },
    ExtractEl { dst: u32, a: Op, i: Op },
    InsertEl { dst: u32, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, a: Op, b: Op, mask: Box<[Option<u32>]>, n: u32 },
    Rmw { op: String, dst: u32, ptr: Op, val: Op, ty: Ty },
    CmpXchg { dst: u32, ptr: Op, cmp: Op, new: Op, ty: Ty },
    Copy { dst: u32, a: Op },
    Nop,
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { v: Op, w: u32, def: u32, cases: Box<[(u64, u32)]> },
    Ret(Option<Op>),
    Unreachable,
    Resume,
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Op)>,
}
#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}
#[derive(Clone, Debug, Default)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Block>,
    pub decl: bool,
    pub vararg: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub gaddr: HashMap<String, u64>,
    pub image: Vec<u8>, // bytes of the global region, starting at GBASE
    pub gend: u64,
}

pub const FBASE: u64 = 0x10000;
pub const FSTEP: u64 = 16;
pub const GBASE: u64 = 0x100_0000;

impl Module {
    pub fn faddr(i: u32) -> u64 {
        FBASE + FSTEP * i as u64
    }
    pub fn func_at(&self, a: u64) -> Option<u32> {
        if a < FBASE || (a - FBASE) % FSTEP != 0 {
            return None;
        }
        let i = ((a - FBASE) / FSTEP) as usize;
        if i < self.funcs.len() {
            Some(i as u32)
        } else {
            None
        }
    }
}

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    Loc(&'a str),
    Glob(&'a str),
    Num(&'a str),
    Word(&'a str),
    Str(&'a str),
    CStr(&'a str),
    P(u8),
    Meta(&'a str),
    Attr(&'a str),
    End,
}

struct Lex<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self {
        Lex { s, b: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.b.len() {
            let c = self.b[self.i];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.i += 1;
            } else if c == b';' {
                while self.i < self.b.len() && self.b[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
    }
    fn name(&mut self) -> &'a str {
        if self.i < self.b.len() && self.b[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.b[self.i] != b'"' {
                self.i += 1;
            }
            let r = &self.s[st..self.i];
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.b.len() && is_id(self.b[self.i]) {
                self.i += 1;
            }
            &self.s[st..self.i]
        }
    }
    fn next(&mut self) -> T<'a> {
        self.ws();
        if self.i >= self.b.len() {
            return T::End;
        }
        let c = self.b[self.i];
        match c {
            b'%' => {
                self.i += 1;
                T::Loc(self.name())
            }
            b'@' => {
                self.i += 1;
                T::Glob(self.name())
            }
            b'!' => {
                self.i += 1;
                let st = self.i;
                while self.i < self.b.len() && is_id(self.b[self.i]) {
                    self.i += 1;
                }
                T::Meta(&self.s[st..self.i])
            }
            b'#' => {
                self.i += 1;
                T::Attr(self.name())
            }
            b'"' => {
                let n = self.name();
                T::Str(n)
            }
            b'c' if self.i + 1 < self.b.len() && self.b[self.i + 1] == b'"' => {
                self.i += 1;
                let n = self.name();
                T::CStr(n)
            }
            b'0'..=b'9' | b'+' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.b.len() && (is_id(self.b[self.i]) || self.b[self.i] == b'+') {
                    self.i += 1;
                }
                T::Num(&self.s[st..self.i])
            }
            b'-' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.b.len() && (is_id(self.b[self.i]) || self.b[self.i] == b'+') {
                    self.i += 1;
                }
                T::Num(&self.s[st..self.i])
            }
            b'.' => {
                // "..."
                self.i += 1;
                while self.i < self.b.len() && self.b[self.i] == b'.' {
                    self.i += 1;
                }
                T::Word("...")
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.i;
                while self.i < self.b.len() && is_id(self.b[self.i]) {
                    self.i += 1;
                }
                T::Word(&self.s[st..self.i])
            }
            _ => {
                self.i += 1;
                T::P(c)
            }
        }
    }
    fn peek(&mut self) -> T<'a> {
        let i = self.i;
        let t = self.next();
        self.i = i;
        t
    }
    fn eat(&mut self, c: u8) -> bool {
        let i = self.i;
        if self.next() == T::P(c) {
            true
        } else {
            self.i = i;
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        let i = self.i;
        if self.next() == T::Word(w) {
            true
        } else {
            self.i = i;
            false
        }
    }
    fn expect(&mut self, c: u8) {
        let i = self.i;
        let t = self.next();
        if t != T::P(c) {
            panic!("expected {:?} got {:?} at ...{}", c as char, t, &self.s[i.saturating_sub(80)..(i + 80).min(self.s.len())]);
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::End => panic!("unbalanced"),
                _ => {}
            }
        }
    }
}

const VALWORDS: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "inttoptr", "ptrtoint",
    "bitcast", "trunc", "splat", "add", "sub", "xor", "blockaddress", "dso_local_equivalent", "no_cfi", "asm", "ptrtoaddr",
];

fn parse_ty(l: &mut Lex, named: &HashMap<String, Ty>) -> Ty {
    let t = l.next();
    let base = match t {
        T::Word("void") => Ty::Void,
        T::Word("ptr") => {
            if l.eatw("addrspace") {
                l.skip_parens();
            }
            Ty::Ptr
        }
        T::Word("float") => Ty::Float,
        T::Word("double") => Ty::Double,
        T::Word("label") | T::Word("metadata") | T::Word("token") | T::Word("x86_fp80") | T::Word("half") | T::Word("fp128") => Ty::Other,
        T::Word("opaque") => Ty::Other,
        T::Word(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
        T::P(b'[') => {
            let n = match l.next() {
                T::Num(n) => n.parse().unwrap(),
                x => panic!("arr {:?}", x),
            };
            assert!(l.eatw("x"));
            let e = parse_ty(l, named);
            l.expect(b']');
            Ty::Arr(n, Box::new(e))
        }
        T::P(b'<') => {
            if l.eat(b'{') {
                let mut v = vec![];
                if !l.eat(b'}') {
                    loop {
                        v.push(parse_ty(l, named));
                        if !l.eat(b',') {
                            break;
                        }
                    }
                    l.expect(b'}');
                }
                l.expect(b'>');
                Ty::Struct(v, true)
            } else {
                let n = match l.next() {
                    T::Num(n) => n.parse().unwrap(),
                    x => panic!("vec {:?}", x),
                };
                assert!(l.eatw("x"));
                let e = parse_ty(l, named);
                l.expect(b'>');
                Ty::Vec(n, Box::new(e))
            }
        }
        T::P(b'{') => {
            let mut v = vec![];
            if !l.eat(b'}') {
                loop {
                    v.push(parse_ty(l, named));
                    if !l.eat(b',') {
                        break;
                    }
                }
                l.expect(b'}');
            }
            Ty::Struct(v, false)
        }
        T::Loc(n) => named.get(n).cloned().unwrap_or(Ty::Other),
        x => panic!("type? {:?} near {}", x, &l.s[l.i.saturating_sub(60)..(l.i + 60).min(l.s.len())]),
    };
    base
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

fn parse_int(s: &str, w: u32) -> Op {
    let v: u128 = if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap()).wrapping_neg()
    } else if let Some(r) = s.strip_prefix("0x") {
        u128::from_str_radix(r, 16).unwrap()
    } else {
        s.parse::<u128>().unwrap_or_else(|_| panic!("int {}", s))
    } & mask(w);
    if w <= 64 {
        Op::K(v as u64)
    } else {
        Op::W(v)
    }
}

struct Ctx<'m> {
    named: &'m HashMap<String, Ty>,
    gaddr: &'m HashMap<String, u64>,
}

pub fn zero(ty: &Ty) -> Op {
    match ty {
        Ty::Int(w) if *w > 64 => Op::W(0),
        t if t.is_agg() => Op::Agg((0..t.nelem()).map(|i| zero(t.elem(i))).collect()),
        _ => Op::K(0),
    }
}

/// parse a value of the given type; `loc` maps local names to registers
fn parse_val<'a>(l: &mut Lex<'a>, ty: &Ty, cx: &Ctx, loc: &mut dyn FnMut(&'a str) -> u32) -> Op {
    match l.next() {
        T::Loc(n) => Op::R(loc(n)),
        T::Glob(n) => Op::K(*cx.gaddr.get(n).unwrap_or_else(|| panic!("unknown global {}", n))),
        T::Num(n) => match ty {
            Ty::Double | Ty::Float if n.ends_with("inf") || n.contains("nan") => {
                if l.eat(b'(') {
                    while !l.eat(b')') {
                        l.next();
                    }
                }
                let k = if n.ends_with("inf") { f64::INFINITY } else { f64::NAN };
                let k = if n.starts_with('-') { -k } else { k };
                Op::K(if *ty == Ty::Double { k.to_bits() } else { (k as f32).to_bits() as u64 })
            }
            Ty::Double => {
                if let Some(h) = n.strip_prefix("0x") {
                    Op::K(u64::from_str_radix(h, 16).unwrap())
                } else {
                    Op::K(n.parse::<f64>().unwrap().to_bits())
                }
            }
            Ty::Float => {
                if let Some(h) = n.strip_prefix("0x") {
                    Op::K((f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits() as u64)
                } else {
                    Op::K(n.parse::<f32>().unwrap().to_bits() as u64)
                }
            }
            Ty::Int(w) => parse_int(n, *w),
            t => panic!("num for {:?}", t),
        },
        T::Word("true") => Op::K(1),
        T::Word("false") | T::Word("null") | T::Word("none") => Op::K(0),
        T::Word("undef") | T::Word("poison") | T::Word("zeroinitializer") => zero(ty),
        T::Word("splat") => {
            l.expect(b'(');
            let t = parse_ty(l, cx.named);
            let v = parse_val(l, &t, cx, loc);
            l.expect(b')');
            Op::Agg((0..ty.nelem()).map(|_| v.clone()).collect())
        }
        T::CStr(s) => Op::Agg(unescape(s).into_iter().map(|b| Op::K(b as u64)).collect()),
        T::P(b'[') => parse_agg(l, b']', cx, loc),
        T::P(b'{') => parse_agg(l, b'}', cx, loc),
        T::P(b'<') => {
            if l.eat(b'{') {
                let r = parse_agg(l, b'}', cx, loc);
                l.expect(b'>');
                r
            } else {
                parse_agg(l, b'>', cx, loc)
            }
        }
        T::Word("getelementptr") => {
            while let T::Word(w) = l.peek() {
                if w == "inbounds" || w == "nuw" || w == "nusw" {
                    l.next();
                } else if w == "inrange" {
                    l.next();
                    l.skip_parens();
                } else {
                    break;
                }
            }
            l.expect(b'(');
            let ety = parse_ty(l, cx.named);
            l.expect(b',');
            let bt = parse_ty(l, cx.named);
            let base = match parse_val(l, &bt, cx, loc) {
                Op::K(k) => k,
                x => panic!("gep base {:?}", x),
            };
            let mut cur = ety;
            let mut off = 0u64;
            let mut first = true;
            while l.eat(b',') {
                let t = parse_ty(l, cx.named);
                let k = match parse_val(l, &t, cx, loc) {
                    Op::K(k) => sext(k, t.bits()),
                    x => panic!("gep idx {:?}", x),
                };
                if first {
                    off = off.wrapping_add(k.wrapping_mul(cur.size()));
                    first = false;
                } else {
                    off = off.wrapping_add(cur.field_off(k as usize));
                    cur = cur.elem(k as usize).clone();
                }
            }
            l.expect(b')');
            Op::K(base.wrapping_add(off))
        }
        T::Word("inttoptr") | T::Word("ptrtoint") | T::Word("bitcast") | T::Word("trunc") | T::Word("ptrtoaddr") => {
            l.expect(b'(');
            let t = parse_ty(l, cx.named);
            let v = parse_val(l, &t, cx, loc);
            assert!(l.eatw("to"));
            let t2 = parse_ty(l, cx.named);
            l.expect(b')');
            match v {
                Op::K(k) => Op::K((k as u128 & mask(t2.bits().max(1))) as u64),
                v => v,
            }
        }
        T::Word(w @ ("sub" | "add" | "xor")) => {
            while let T::Word("nuw") | T::Word("nsw") = l.peek() {
                l.next();
            }
            l.expect(b'(');
            let t = parse_ty(l, cx.named);
            let a = parse_val(l, &t, cx, loc);
            l.expect(b',');
            let t2 = parse_ty(l, cx.named);
            let b = parse_val(l, &t2, cx, loc);
            l.expect(b')');
            match (a, b) {
                (Op::K(a), Op::K(b)) => {
                    let r = match w {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        _ => a ^ b,
                    };
                    Op::K((r as u128 & mask(t.bits())) as u64)
                }
                _ => panic!("constexpr"),
            }
        }
        x => panic!("value? {:?} near {}", x, &l.s[l.i.saturating_sub(100)..(l.i + 60).min(l.s.len())]),
    }
}

fn sext(k: u64, w: u32) -> u64 {
    if w >= 64 {
        k
    } else {
        (((k << (64 - w)) as i64) >> (64 - w)) as u64
    }
}

fn parse_agg<'a>(l: &mut Lex<'a>, end: u8, cx: &Ctx, loc: &mut dyn FnMut(&'a str) -> u32) -> Op {
    let mut v = vec![];
    if l.eat(end) {
        return Op::Agg(v.into());
    }
    loop {
        let t = parse_ty(l, cx.named);
        v.push(parse_val(l, &t, cx, loc));
        if l.eat(b',') {
            continue;
        }
        l.expect(end);
        break;
    }
    Op::Agg(v.into())
}

fn skip_attrs(l: &mut Lex) {
    loop {
        match l.peek() {
            T::Word(w) if !VALWORDS.contains(&w) => {
                l.next();
                if w == "align" && matches!(l.peek(), T::Num(_)) {
                    l.next();
                } else if l.peek() == T::P(b'(') {
                    l.skip_parens();
                }
            }
            T::Str(_) => {
                l.next();
                if l.eat(b'=') {
                    l.next();
                }
            }
            T::Attr(_) => {
                l.next();
            }
            _ => break,
        }
    }
}

/// attributes before a type (return attributes, calling conventions, ...)
fn skip_pre_type(l: &mut Lex) {
    loop {
        match l.peek() {
            T::Word(w) => {
                let isty = matches!(w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "x86_fp80" | "half" | "fp128")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()));
                if isty {
                    return;
                }
                l.next();
                if w == "align" && matches!(l.peek(), T::Num(_)) {
                    l.next();
                } else if l.peek() == T::P(b'(') {
                    l.skip_parens();
                }
            }
            T::Str(_) => {
                l.next();
            }
            _ => return,
        }
    }
}

fn write_const(img: &mut [u8], off: usize, ty: &Ty, v: &Op) {
    match (ty, v) {
        (t, Op::Agg(a)) => {
            for (i, x) in a.iter().enumerate() {
                write_const(img, off + t.field_off(i) as usize, t.elem(i), x);
            }
        }
        (t, Op::K(k)) => {
            let n = t.size().min(8) as usize;
            img[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
        }
        (t, Op::W(k)) => {
            let n = t.size().min(16) as usize;
            img[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
        }
        _ => {}
    }
}

pub fn load(text: &str) -> Module {
    let mut named: HashMap<String, Ty> = HashMap::new();
    let mut fidx: HashMap<String, u32> = HashMap::new();
    let mut funcs: Vec<Func> = vec![];
    let mut gaddr: HashMap<String, u64> = HashMap::new();
    let lines: Vec<&str> = text.lines().collect();
    // pass 1: types, functions, global sizes
    struct G<'a> {
        addr: u64,
        ty: Ty,
        init: Option<&'a str>,
    }
    let mut globals: Vec<G> = vec![];
    let mut gcur = GBASE;
    for ln in &lines {
        if ln.starts_with('%') && ln.contains(" = type ") {
            let p = ln.find(" = type ").unwrap();
            let mut l = Lex::new(&ln[p + 8..]);
            let t = parse_ty(&mut l, &named);
            let n = ln[1..p].trim_matches('"').to_string();
            named.insert(n, t);
        }
    }
    let mut aliases: Vec<(String, &str)> = vec![];
    for ln in &lines {
        if ln.starts_with("define ") || ln.starts_with("declare ") {
            let mut l = Lex::new(ln);
            let name = loop {
                match l.next() {
                    T::Glob(n) => break n,
                    T::End => panic!("fn {}", ln),
                    _ => {}
                }
            };
            let i = funcs.len() as u32;
            fidx.insert(name.to_string(), i);
            gaddr.insert(name.to_string(), Module::faddr(i));
            funcs.push(Func { name: name.to_string(), decl: ln.starts_with("declare"), ..Default::default() });
        } else if ln.starts_with('@') {
            let mut l = Lex::new(ln);
            let name = match l.next() {
                T::Glob(n) => n,
                _ => continue,
            };
            l.expect(b'=');
            let mut ext = false;
            let mut is_alias = false;
            loop {
                match l.next() {
                    T::Word("global") | T::Word("constant") => break,
                    T::Word("alias") => {
                        is_alias = true;
                        break;
                    }
                    T::Word("external") | T::Word("extern_weak") => ext = true,
                    T::Word(_) => {
                        if l.peek() == T::P(b'(') {
                            l.skip_parens();
                        }
                    }
                    T::End => panic!("{}", ln),
                    _ => {}
                }
            }
            if is_alias {
                aliases.push((name.to_string(), ln));
                continue;
            }
            let ty = parse_ty(&mut l, &named);
            let a = ty.align().max(16);
            gcur = (gcur + a - 1) / a * a;
            gaddr.insert(name.to_string(), gcur);
            globals.push(G { addr: gcur, ty: ty.clone(), init: if ext { None } else { Some(&ln[l.i..]) } });
            gcur += ty.size().max(1);
        }
    }
    for (n, ln) in aliases {
        // last @name on the line before metadata
        let mut l = Lex::new(ln);
        let mut last = None;
        l.next();
        loop {
            match l.next() {
                T::Glob(x) => last = Some(x.to_string()),
                T::End => break,
                _ => {}
            }
        }
        if let Some(a) = last.and_then(|x| gaddr.get(&x).cloned()) {
            gaddr.insert(n.clone(), a);
            if a >= FBASE && a < GBASE {
                fidx.insert(n, ((a - FBASE) / FSTEP) as u32);
            }
        }
    }
    let mut image = vec![0u8; (gcur - GBASE) as usize + 64];
    for g in &globals {
        if let Some(s) = g.init {
            let mut l = Lex::new(s);
            let cx = Ctx { named: &named, gaddr: &gaddr };
            let v = parse_val(&mut l, &g.ty, &cx, &mut |_| 0);
            write_const(&mut image, (g.addr - GBASE) as usize, &g.ty, &v);
        }
    }
    // pass 2: bodies
    let mut i = 0;
    while i < lines.len() {
        let ln = lines[i];
        if ln.starts_with("define ") {
            let st = i;
            while lines[i] != "}" {
                i += 1;
            }
            // a body with something unknown in it: paths that call it are left out as unsupported
            let body = &lines[st..i];
            match std::panic::catch_unwind(|| parse_func(body, &named, &gaddr, &fidx)) {
                Ok((name, f)) => {
                    let k = fidx[&name] as usize;
                    funcs[k] = f;
                }
                Err(_) => {
                    let mut l = Lex::new(body[0]);
                    let name = loop {
                        match l.next() {
                            T::Glob(n) => break n.to_string(),
                            T::End => panic!("define without a name"),
                            _ => {}
                        }
                    };
                    eprintln!("not read: {}", name);
                    funcs[fidx[&name] as usize].decl = true;
                }
            }
        }
        i += 1;
    }
    Module { funcs, fidx, gaddr, image, gend: gcur + 64 }
}

fn parse_func(lines: &[&str], named: &HashMap<String, Ty>, gaddr: &HashMap<String, u64>, fidx: &HashMap<String, u32>) -> (String, Func) {
    let cx = Ctx { named, gaddr };
    let mut regs: HashMap<&str, u32> = HashMap::new();
    let mut nregs = 0u32;
    let mut bbs: HashMap<&str, u32> = HashMap::new();
    let mut l = Lex::new(lines[0]);
    let name = loop {
        match l.next() {
            T::Glob(n) => break n.to_string(),
            _ => {}
        }
    };
    let mut f = Func { name: name.clone(), ..Default::default() };
    // params
    l.expect(b'(');
    let mut np = 0;
    if !l.eat(b')') {
        loop {
            if let T::Word("...") = l.peek() {
                l.next();
                f.vararg = true;
                l.expect(b')');
                break;
            }
            let _t = parse_ty(&mut l, named);
            skip_attrs(&mut l);
            match l.next() {
                T::Loc(n) => {
                    regs.insert(n, nregs);
                    nregs += 1;
                    np += 1;
                }
                x => panic!("param {:?} in {}", x, lines[0]),
            }
            if l.eat(b',') {
                continue;
            }
            l.expect(b')');
            break;
        }
    }
    f.nparams = np;
    // block labels: first pass
    let mut nb = 0u32;
    let mut first_label_seen = false;
    for ln in &lines[1..] {
        if ln.is_empty() {
            continue;
        }
        if !ln.starts_with(' ') && !ln.starts_with(']') {
            // label
            let mut ll = Lex::new(ln);
            let lab = if ln.starts_with('"') {
                match ll.next() {
                    T::Str(s) => s,
                    _ => unreachable!(),
                }
            } else {
                let e = ln.find(':').unwrap();
                &ln[..e]
            };
            bbs.insert(lab, nb);
            nb += 1;
            first_label_seen = true;
        } else if !first_label_seen {
            // entry block without explicit label
            bbs.insert("\0entry", nb);
            nb += 1;
            first_label_seen = true;
        }
    }
    // the implicit entry label may be referenced in phis by number = np (only if unnamed); map it
    let entry_num = np.to_string();
    let entry_num: &str = Box::leak(entry_num.into_boxed_str());
    if !bbs.contains_key(entry_num) {
        bbs.insert(entry_num, 0);
    }
    f.blocks = vec![Block::default(); nb as usize];
    let mut cur = 0usize;
    let mut idx = 1;
    // join logical lines
    let mut started = false;
    while idx < lines.len() {
        let ln = lines[idx];
        idx += 1;
        if ln.is_empty() {
            continue;
        }
        if !ln.starts_with(' ') {
            let mut ll = Lex::new(ln);
            let lab = if ln.starts_with('"') {
                match ll.next() {
                    T::Str(s) => s,
                    _ => unreachable!(),
                }
            } else {
                let e = ln.find(':').unwrap();
                &ln[..e]
            };
            cur = bbs[lab] as usize;
            started = true;
            continue;
        }
        if !started {
            started = true;
            cur = 0;
        }
        // join
        let tl = ln.trim_start();
        let is_switch = tl.starts_with("switch ");
        let has_invoke = tl.starts_with("invoke ") || tl.contains("= invoke ");
        let is_lp = tl.contains("= landingpad ");
        let joined;
        let text: &str = if is_switch {
            let mut s = ln.to_string();
            while !lines[idx].trim_start().starts_with(']') {
                s.push_str(lines[idx]);
                idx += 1;
            }
            s.push_str(lines[idx]);
            idx += 1;
            joined = s;
            Box::leak(joined.into_boxed_str())
        } else if has_invoke {
            let mut s = ln.to_string();
            s.push_str(lines[idx]);
            idx += 1;
            joined = s;
            Box::leak(joined.into_boxed_str())
        } else if is_lp {
            while idx < lines.len() && lines[idx].starts_with("          ") {
                idx += 1;
            }
            ln
        } else {
            ln
        };
        let mut l = Lex::new(text);
        let mut reg = |n: &'_ str| -> u32 {
            if let Some(r) = regs.get(n) {
                return *r;
            }
            let n2: &'static str = Box::leak(n.to_string().into_boxed_str());
            let r = nregs;
            nregs += 1;
            regs.insert(n2, r);
            r
        };
        let mut dst: Option<u32> = None;
        if let T::Loc(n) = l.peek() {
            l.next();
            l.expect(b'=');
            dst = Some(reg(n));
        }
        let op = match l.next() {
            T::Word(w) => w,
            x => panic!("inst {:?} in {}", x, text),
        };
        macro_rules! lab {
            () => {
                match l.next() {
                    T::Loc(n) => *bbs.get(n).unwrap_or_else(|| panic!("label {} in {}", n, text)),
                    x => panic!("label {:?}", x),
                }
            };
        }
        let inst = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                let b = match op {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "sdiv" => B::SDiv,
                    "urem" => B::URem,
                    "srem" => B::SRem,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    "ashr" => B::AShr,
                    "and" => B::And,
                    "or" => B::Or,
                    _ => B::Xor,
                };
                skip_pre_type(&mut l);
                let t = parse_ty(&mut l, named);
                let a = parse_val(&mut l, &t, &cx, &mut reg);
                l.expect(b',');
                let c = parse_val(&mut l, &t, &cx, &mut reg);
                let (w, lanes) = match &t {
                    Ty::Vec(n, e) => (e.bits(), *n),
                    t => (t.bits(), 0),
                };
                Inst::Bin { op: b, w, lanes, dst: dst.unwrap(), a, b: c }
            }
            "icmp" => {
                if l.eatw("samesign") {}
                let p = match l.next() {
                    T::Word("eq") => P::Eq,
                    T::Word("ne") => P::Ne,
                    T::Word("ugt") => P::Ugt,
                    T::Word("uge") => P::Uge,
                    T::Word("ult") => P::Ult,
                    T::Word("ule") => P::Ule,
                    T::Word("sgt") => P::Sgt,
                    T::Word("sge") => P::Sge,
                    T::Word("slt") => P::Slt,
                    T::Word("sle") => P::Sle,
                    x => panic!("pred {:?}", x),
                };
                let t = parse_ty(&mut l, named);
                let a = parse_val(&mut l, &t, &cx, &mut reg);
                l.expect(b',');
                let c = parse_val(&mut l, &t, &cx, &mut reg);
                let (w, lanes) = match &t {
                    Ty::Vec(n, e) => (e.bits(), *n),
                    t => (t.bits(), 0),
                };
                Inst::Cmp { p, w, lanes, dst: dst.unwrap(), a, b: c }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                skip_pre_type(&mut l);
                let t = parse_ty(&mut l, named);
                let a = parse_val(&mut l, &t, &cx, &mut reg);
                l.expect(b',');
                let c = parse_val(&mut l, &t, &cx, &mut reg);
                Inst::FBin { op: op.as_bytes()[1], dbl: t == Ty::Double, dst: dst.unwrap(), a, b: c }
            }
            "fneg" => {
                skip_pre_type(&mut l);
                let t = parse_ty(&mut l, named);
                let a = parse_val(&mut l, &t, &cx, &mut reg);
                Inst::FBin { op: b'n', dbl: t == Ty::Double, dst: dst.unwrap(), a, b: Op::K(0) }
            }
            "fcmp" => {
                let mut p = "";
                while let T::Word(w) = l.peek() {
                    if w == "double" || w == "float" {
                        break;
                    }
                    p = w;
                    l.next();
                }
                let t = parse_ty(&mut l, named);
                let a = parse_val(&mut l, &t, &cx, &mut reg);
                l.expect(b',');
                let c = parse_val(&mut l, &t, &cx, &mut reg);
                Inst::FCmp { p: p.to_string(), dbl: t == Ty::Double, dst: dst.unwrap(), a, b: c }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
                skip_pre_type(&mut l);
                let t = parse_ty(&mut l, named);
                let a = parse_val(&mut l, &t, &cx, &mut reg);
                assert!(l.eatw("to"));
                let t2 = parse_ty(&mut l, named);
                let k = match op {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "fptoui" => CastK::FpToUi,
                    "fptosi" => CastK::FpToSi,
                    "uitofp" => CastK::UiToFp,
                    "sitofp" => CastK::SiToFp,
                    "fpext" => CastK::FpExt,
                    "fptrunc" => CastK::FpTrunc,
                    _ => CastK::Bit,
                };
                Inst::Cast { k, from: t, to: t2, dst: dst.unwrap(), a }
            }
            "load" => {
                while l.eatw("atomic") || l.eatw("volatile") {}
                let t = parse_ty(&mut l, named);
                l.expect(b',');
                let pt = parse_ty(&mut l, named);
                let p = parse_val(&mut l, &pt, &cx, &mut reg);
                Inst::Load { dst: dst.unwrap(), ty: t, ptr: p }
            }
            "store" => {
                while l.eatw("atomic") || l.eatw("volatile") {}
                let t = parse_ty(&mut l, named);
                let v = parse_val(&mut l, &t, &cx, &mut reg);
                l.expect(b',');
                let pt = parse_ty(&mut l, named);
                let p = parse_val(&mut l, &pt, &cx, &mut reg);
                Inst::Store { ty: t, val: v, ptr: p }
            }
            "getelementptr" => {
                while let T::Word(w) = l.peek() {
                    if w == "inbounds" || w == "nuw" || w == "nusw" {
                        l.next();
                    } else if w == "inrange" {
                        l.next();
                        l.skip_parens();
                    } else {
                        break;
                    }
                }
                let ety = parse_ty(&mut l, named);
                l.expect(b',');
                let bt = parse_ty(&mut l, named);
                let base = parse_val(&mut l, &bt, &cx, &mut reg);
                let mut cur_t = ety;
                let mut off = 0u64;
                let mut ix = vec![];
                let mut first = true;
                while l.eat(b',') {
                    if let T::Meta(_) = l.peek() {
                        break;
                    }
                    let t = parse_ty(&mut l, named);
                    let v = parse_val(&mut l, &t, &cx, &mut reg);
                    let (scale, nt) = if first {
                        (cur_t.size(), cur_t.clone())
                    } else {
                        match &cur_t {
                            Ty::Struct(..) => {
                                let k = match v {
                                    Op::K(k) => k as usize,
                                    _ => panic!("struct gep"),
                                };
                                off = off.wrapping_add(cur_t.field_off(k));
                                let nt = cur_t.elem(k).clone();
                                cur_t = nt;
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size(), (**e).clone()),
                            t => panic!("gep into {:?}", t),
                        }
                    };
                    first = false;
                    cur_t = nt;
                    match v {
                        Op::K(k) => off = off.wrapping_add(sext(k, t.bits()).wrapping_mul(scale)),
                        v => ix.push((v, t.bits(), scale)),
                    }
                }
                Inst::Gep { dst: dst.unwrap(), base, off, idx: ix.into() }
            }
            "alloca" => {
                l.eatw("inalloca");
                let t = parse_ty(&mut l, named);
                let mut n = None;
                let mut al = t.align();
                while l.eat(b',') {
                    if l.eatw("align") {
                        if let T::Num(x) = l.next() {
                            al = x.parse().unwrap();
                        }
                    } else if let T::Meta(_) = l.peek() {
                        break;
                    } else {
                        let t = parse_ty(&mut l, named);
                        n = Some(parse_val(&mut l, &t, &cx, &mut reg));
                    }
                }
                Inst::Alloca { dst: dst.unwrap(), size: t.size(), align: al, n }
            }
            "select" => {
                skip_pre_type(&mut l);
                let ct = parse_ty(&mut l, named);
                let c = parse_val(&mut l, &ct, &cx, &mut reg);
                l.expect(b',');
                let t = parse_ty(&mut l, named);
                let a = parse_val(&mut l, &t, &cx, &mut reg);
                l.expect(b',');
                let t2 = parse_ty(&mut l, named);
                let b = parse_val(&mut l, &t2, &cx, &mut reg);
                Inst::Select { dst: dst.unwrap(), c, a, b, w: if t.is_agg() { 0 } else { t.bits() }, vec: matches!(ct, Ty::Vec(..)), ptr: t == Ty::Ptr }
            }
            "phi" => {
                skip_pre_type(&mut l);
                let t = parse_ty(&mut l, named);
                let mut inc = vec![];
                loop {
                    l.expect(b'[');
                    let v = parse_val(&mut l, &t, &cx, &mut reg);
                    l.expect(b',');
                    let b = lab!();
                    l.expect(b']');
                    inc.push((b, v));
                    if !(l.eat(b',') && l.peek() == T::P(b'[')) {
                        break;
                    }
                }
                f.blocks[cur].phis.push(Phi { dst: dst.unwrap(), inc });
                continue;
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    assert!(l.eatw("call"));
                }
                skip_pre_type(&mut l);
                let rty = parse_ty(&mut l, named);
                // optional function type
                if l.peek() == T::P(b'(') {
                    l.skip_parens();
                }
                let mut is_asm = false;
                let callee = match l.peek() {
                    T::Glob(n) => {
                        l.next();
                        match fidx.get(n) {
                            Some(i) => Callee::Direct(*i),
                            None => Callee::Indirect(Op::K(gaddr[n])),
                        }
                    }
                    T::Loc(n) => {
                        l.next();
                        Callee::Indirect(Op::R(reg(n)))
                    }
                    T::Word("asm") => {
                        is_asm = true;
                        l.next();
                        while l.peek() != T::P(b'(') {
                            l.next();
                        }
                        Callee::Indirect(Op::K(0))
                    }
                    _ => Callee::Indirect(parse_val(&mut l, &Ty::Ptr, &cx, &mut reg)),
                };
                l.expect(b'(');
                let mut args = vec![];
                let mut fty = vec![];
                if !l.eat(b')') {
                    loop {
                        let t = parse_ty(&mut l, named);
                        if t == Ty::Other {
                            // metadata argument: skip to ',' or ')'
                            let mut d = 0;
                            loop {
                                match l.peek() {
                                    T::P(b'(') => d += 1,
                                    T::P(b')') if d == 0 => break,
                                    T::P(b')') => d -= 1,
                                    T::P(b',') if d == 0 => break,
                                    T::End => break,
                                    _ => {}
                                }
                                l.next();
                            }
                            args.push(Op::K(0));
                        } else {
                            skip_attrs(&mut l);
                            args.push(parse_val(&mut l, &t, &cx, &mut reg));
                        }
                        fty.push(t);
                        if l.eat(b',') {
                            continue;
                        }
                        l.expect(b')');
                        break;
                    }
                }
                let call = if is_asm { Inst::Nop } else { Inst::Call { dst, callee, args: args.into(), rty, fty: fty.into() } };
                if op == "invoke" {
                    f.blocks[cur].insts.push(call);
                    // find "to label %x"
                    loop {
                        match l.next() {
                            T::Word("to") => {
                                assert!(l.eatw("label"));
                                break;
                            }
                            T::End => panic!("invoke"),
                            _ => {}
                        }
                    }
                    let b = lab!();
                    Inst::Br(b)
                } else {
                    call
                }
            }
            "br" => {
                if l.eatw("label") {
                    Inst::Br(lab!())
                } else {
                    let t = parse_ty(&mut l, named);
                    let c = parse_val(&mut l, &t, &cx, &mut reg);
                    l.expect(b',');
                    assert!(l.eatw("label"));
                    let a = lab!();
                    l.expect(b',');
                    assert!(l.eatw("label"));
                    let b = lab!();
                    Inst::CondBr { c, t: a, f: b }
                }
            }
            "switch" => {
                let t = parse_ty(&mut l, named);
                let v = parse_val(&mut l, &t, &cx, &mut reg);
                l.expect(b',');
                assert!(l.eatw("label"));
                let def = lab!();
                l.expect(b'[');
                let mut cases = vec![];
                while !l.eat(b']') {
                    let ct = parse_ty(&mut l, named);
                    let k = match parse_val(&mut l, &ct, &cx, &mut reg) {
                        Op::K(k) => k,
                        x => panic!("case {:?}", x),
                    };
                    l.expect(b',');
                    assert!(l.eatw("label"));
                    let b = lab!();
                    cases.push((k, b));
                }
                Inst::Switch { v, w: t.bits(), def, cases: cases.into() }
            }
            "ret" => {
                let t = parse_ty(&mut l, named);
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(parse_val(&mut l, &t, &cx, &mut reg)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => Inst::Resume,
            "landingpad" => Inst::Nop,
            "fence" => Inst::Nop,
            "freeze" => {
                let t = parse_ty(&mut l, named);
                Inst::Copy { dst: dst.unwrap(), a: parse_val(&mut l, &t, &cx, &mut reg) }
            }
            "extractvalue" => {
                let t = parse_ty(&mut l, named);
                let a = parse_val(&mut l, &t, &cx, &mut reg);
                let mut ix = vec![];
                while l.eat(b',') {
                    match l.next() {
                        T::Num(n) => ix.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::Extract { dst: dst.unwrap(), a, idx: ix.into() }
            }
            "insertvalue" => {
                let t = parse_ty(&mut l, named);
                let a = parse_val(&mut l, &t, &cx, &mut reg);
                l.expect(b',');
                let t2 = parse_ty(&mut l, named);
                let v = parse_val(&mut l, &t2, &cx, &mut reg);
                let mut ix = vec![];
                while l.eat(b',') {
                    match l.next() {
                        T::Num(n) => ix.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::Insert { dst: dst.unwrap(), a, v, idx: ix.into() }
            }
            "extractelement" => {
                let t = parse_ty(&mut l, named);
                let a = parse_val(&mut l, &t, &cx, &mut reg);
                l.expect(b',');
                let t2 = parse_ty(&mut l, named);
                let i = parse_val(&mut l, &t2, &cx, &mut reg);
                Inst::ExtractEl { dst: dst.unwrap(), a, i }
            }
            "insertelement" => {
                let t = parse_ty(&mut l, named);
                let a = parse_val(&mut l, &t, &cx, &mut reg);
                l.expect(b',');
                let t2 = parse_ty(&mut l, named);
                let v = parse_val(&mut l, &t2, &cx, &mut reg);
                l.expect(b',');
                let t3 = parse_ty(&mut l, named);
                let i = parse_val(&mut l, &t3, &cx, &mut reg);
                Inst::InsertEl { dst: dst.unwrap(), a, v, i }
            }
            "shufflevector" => {
                let t = parse_ty(&mut l, named);
                let a = parse_val(&mut l, &t, &cx, &mut reg);
                l.expect(b',');
                let t2 = parse_ty(&mut l, named);
                let b = parse_val(&mut l, &t2, &cx, &mut reg);
                l.expect(b',');
                let t3 = parse_ty(&mut l, named);
                let m = parse_val(&mut l, &t3, &cx, &mut reg);
                let mask = match m {
                    Op::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            Op::K(k) => Some(*k as u32),
                            _ => None,
                        })
                        .collect::<Vec<_>>(),
                    _ => panic!("mask"),
                };
                Inst::Shuffle { dst: dst.unwrap(), a, b, mask: mask.into(), n: t.nelem() as u32 }
            }
            "atomicrmw" => {
                l.eatw("volatile");
                let o = match l.next() {
                    T::Word(w) => w.to_string(),
                    _ => panic!(),
                };
                let pt = parse_ty(&mut l, named);
                let p = parse_val(&mut l, &pt, &cx, &mut reg);
                l.expect(b',');
                let t = parse_ty(&mut l, named);
                let v = parse_val(&mut l, &t, &cx, &mut reg);
                Inst::Rmw { op: o, dst: dst.unwrap(), ptr: p, val: v, ty: t }
            }
            "cmpxchg" => {
                while l.eatw("weak") || l.eatw("volatile") {}
                let pt = parse_ty(&mut l, named);
                let p = parse_val(&mut l, &pt, &cx, &mut reg);
                l.expect(b',');
                let t = parse_ty(&mut l, named);
                let c = parse_val(&mut l, &t, &cx, &mut reg);
                l.expect(b',');
                let t2 = parse_ty(&mut l, named);
                let n = parse_val(&mut l, &t2, &cx, &mut reg);
                Inst::CmpXchg { dst: dst.unwrap(), ptr: p, cmp: c, new: n, ty: t }
            }
            x => panic!("unknown instruction {} in {}", x, text),
        };
        f.blocks[cur].insts.push(inst);
    }
    f.nregs = nregs;
    (name, f)
}

/// crude v0-demangling: the sequence of identifiers in a mangled name
pub fn idents(m: &str) -> Vec<String> {
    let b = m.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b's' && i > 0 && b[i - 1] == b'C' {
            // crate disambiguator: skip to '_'
            while i < b.len() && b[i] != b'_' {
                i += 1;
            }
            i += 1;
            continue;
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let n: usize = m[st..i].parse().unwrap_or(0);
            let mut s = i;
            if s < b.len() && b[s] == b'_' {
                s += 1;
            }
            if s + n <= b.len() && n > 0 && n < 100 {
                out.push(m[s..s + n].to_string());
                i = s + n;
                continue;
            }
        }
        i += 1;
    }
    out
}
