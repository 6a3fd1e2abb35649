//! Changing values of a parsed document.
use crate::cmp::*;
use crate::refm::*;
use crate::sym::*;
use std::rc::Rc;
use tomllib::types::*;
use tomllib::TOMLParser;

/// the text of a value in the default layout
pub fn render(v: &Value, o: &mut String) {
    match *v {
        Value::Integer(ref t) | Value::Float(ref t) => o.push_str(t),
        Value::Boolean(b) => o.push_str(if b { "true" } else { "false" }),
        Value::String(ref t, k) => {
            let q = match k {
                StrType::Basic => "\"",
                StrType::MLBasic => "\"\"\"",
                StrType::Literal => "'",
                StrType::MLLiteral => "'''",
            };
            o.push_str(q);
            o.push_str(t);
            o.push_str(q);
        }
        Value::DateTime(ref d) => {
            o.push_str(&d.date.year);
            o.push('-');
            o.push_str(&d.date.month);
            o.push('-');
            o.push_str(&d.date.day);
            if let Some(ref t) = d.time {
                o.push('T');
                o.push_str(&t.hour);
                o.push(':');
                o.push_str(&t.minute);
                o.push(':');
                o.push_str(&t.second);
                if let Some(ref f) = t.fraction {
                    o.push('.');
                    o.push_str(f);
                }
                match t.offset {
                    None => {}
                    Some(TimeOffset::Zulu) => o.push('Z'),
                    Some(TimeOffset::Time(ref a)) => {
                        o.push(if a.pos_neg == PosNeg::Pos { '+' } else { '-' });
                        o.push_str(&a.hour);
                        o.push(':');
                        o.push_str(&a.minute);
                    }
                }
            }
        }
        Value::Array(ref a) => {
            o.push('[');
            for i in 0..a.len() {
                if i > 0 {
                    o.push_str(", ");
                }
                render(&a[i], o);
            }
            o.push(']');
        }
        Value::InlineTable(ref a) => {
            o.push('{');
            for i in 0..a.len() {
                if i > 0 {
                    o.push_str(", ");
                }
                o.push_str(&a[i].0);
                o.push_str(" = ");
                render(&a[i].1, o);
            }
            o.push('}');
        }
    }
}
/// whether the value can be written down: its text is read wholly as this very value
pub fn valid(v: &Value) -> bool {
    match *v {
        Value::Boolean(_) => true,
        Value::Array(ref a) => {
            for x in a.iter() {
                if !valid(x) {
                    return false;
                }
            }
            true
        }
        Value::InlineTable(ref a) => {
            for x in a.iter() {
                let p = P { b: x.0.as_bytes(), line: 1 };
                if p.key(0) != Some(x.0.len()) || !valid(&x.1) {
                    return false;
                }
            }
            true
        }
        Value::DateTime(ref d) => {
            if !two(&d.date.month) || !two(&d.date.day) || d.date.year.len() != 4 {
                return false;
            }
            if let Some(ref t) = d.time {
                if !two(&t.hour) || !two(&t.minute) || !two(&t.second) {
                    return false;
                }
                if let Some(TimeOffset::Time(ref a)) = t.offset {
                    if !two(&a.hour) || !two(&a.minute) {
                        return false;
                    }
                }
            }
            let mut t = String::new();
            render(v, &mut t);
            wholly(&t, v) && date_ok(t.as_bytes())
        }
        _ => {
            let mut t = String::new();
            render(v, &mut t);
            wholly(&t, v)
        }
    }
}
fn two(s: &str) -> bool {
    s.len() == 2
}
pub fn wholly(t: &str, v: &Value) -> bool {
    let mut p = P { b: t.as_bytes(), line: 1 };
    match p.value(0) {
        Some((e, ref r)) => e == t.len() && same(t, r, v),
        None => false,
    }
}
pub fn eqv(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (&Value::Integer(ref x), &Value::Integer(ref y)) | (&Value::Float(ref x), &Value::Float(ref y)) => &x[..] == &y[..],
        (&Value::Boolean(x), &Value::Boolean(y)) => x == y,
        (&Value::String(ref x, k), &Value::String(ref y, l)) => k == l && &x[..] == &y[..],
        (&Value::DateTime(..), &Value::DateTime(..)) => {
            let (mut s, mut t) = (String::new(), String::new());
            render(a, &mut s);
            render(b, &mut t);
            s == t
        }
        (&Value::Array(ref x), &Value::Array(ref y)) => {
            if x.len() != y.len() {
                return false;
            }
            for i in 0..x.len() {
                if !eqv(&x[i], &y[i]) {
                    return false;
                }
            }
            true
        }
        (&Value::InlineTable(ref x), &Value::InlineTable(ref y)) => {
            if x.len() != y.len() {
                return false;
            }
            for i in 0..x.len() {
                if x[i].0 != y[i].0 || !eqv(&x[i].1, &y[i].1) {
                    return false;
                }
            }
            true
        }
        _ => false,
    }
}
/// whether the value has the shape of the one in the document, so that the layout stays
fn shape(s: &str, r: &RV, v: &Value) -> bool {
    match (r, v) {
        (&RV::Arr(ref x, ..), &Value::Array(ref y)) => {
            if x.len() != y.len() {
                return false;
            }
            for i in 0..x.len() {
                if !shape(s, &x[i], &y[i]) {
                    return false;
                }
            }
            true
        }
        (&RV::Inl(ref x, ..), &Value::InlineTable(ref y)) => {
            if x.len() != y.len() {
                return false;
            }
            for i in 0..x.len() {
                if &s[x[i].0..x[i].1] != &y[i].0[..] || !shape(s, &x[i].2, &y[i].1) {
                    return false;
                }
            }
            true
        }
        (&RV::Arr(..), _) | (&RV::Inl(..), _) | (_, &Value::Array(_)) | (_, &Value::InlineTable(_)) => false,
        _ => true,
    }
}
/// the text of r with the scalars replaced; `at` is how far s has been copied
fn splice(s: &str, r: &RV, v: &Value, at: &mut usize, o: &mut String) {
    match (r, v) {
        (&RV::Arr(ref x, ..), &Value::Array(ref y)) => {
            for i in 0..x.len() {
                splice(s, &x[i], &y[i], at, o);
            }
        }
        (&RV::Inl(ref x, ..), &Value::InlineTable(ref y)) => {
            for i in 0..x.len() {
                splice(s, &x[i].2, &y[i].1, at, o);
            }
        }
        _ => {
            let (a, b) = span(r);
            o.push_str(&s[*at..a]);
            render(v, o);
            *at = b;
        }
    }
}
/// t read from i on as v in the default layout (inside of braces there may be a blank)
fn laid(t: &[u8], i: usize, v: &Value) -> Option<usize> {
    match *v {
        Value::Array(ref a) => {
            let mut j = lit(t, i, b"[")?;
            for k in 0..a.len() {
                if k > 0 {
                    j = lit(t, j, b", ")?;
                }
                j = laid(t, j, &a[k])?;
            }
            lit(t, j, b"]")
        }
        Value::InlineTable(ref a) => {
            let mut j = blanks(t, lit(t, i, b"{")?);
            for k in 0..a.len() {
                if k > 0 {
                    j = lit(t, j, b", ")?;
                }
                j = lit(t, j, a[k].0.as_bytes())?;
                j = lit(t, j, b" = ")?;
                j = laid(t, j, &a[k].1)?;
            }
            lit(t, blanks(t, j), b"}")
        }
        _ => {
            let mut o = String::new();
            render(v, &mut o);
            lit(t, i, o.as_bytes())
        }
    }
}
fn lit(t: &[u8], i: usize, w: &[u8]) -> Option<usize> {
    if i + w.len() <= t.len() && &t[i..i + w.len()] == w {
        Some(i + w.len())
    } else {
        None
    }
}
fn blanks(t: &[u8], mut i: usize) -> usize {
    while i < t.len() && t[i] == b' ' {
        i += 1;
    }
    i
}
pub const S_SCALAR: u32 = 1;
pub const S_FAIL: u32 = 2;
pub const S_COHERENT: u32 = 4;
pub const S_LAYOUT: u32 = 8;

/// one change, `o0` being the text before it and m its meaning; true if it was carried out
pub fn change<'a>(o0: &str, m: &Model, p: &mut TOMLParser<'a>, key: &str, v: Value<'a>, what: u32) -> bool {
    let mut old = None;
    if let Some(e) = m.find(key) {
        if m.ents[e].k == K::Leaf {
            old = m.ents[e].val;
        }
    }
    let ok = old.is_some() && valid(&v);
    let scalar = match v {
        Value::Array(_) | Value::InlineTable(_) => false,
        _ => true,
    };
    let keep = match old {
        Some(r) if ok => shape(o0, r, &v),
        _ => false,
    };
    let r = p.set_value(key, v.clone());
    let o1 = format!("{}", p);
    observe(3, key);
    observe(4, &o1);
    if !ok {
        if what & S_FAIL != 0 {
            check(!r, 60);
            check(o1 == o0, 61);
            values(m, p);
            children(m, p);
        }
        return r;
    }
    if keep && what & S_SCALAR != 0 || !keep && what & S_LAYOUT != 0 {
        check(r, if keep { 70 } else { 80 });
        check(p.get_value(key).map_or(false, |x| eqv(&x, &v)), if keep { 71 } else { 81 });
    }
    let old = old.unwrap();
    if keep && what & S_SCALAR != 0 {
        let mut want = String::new();
        let mut at = 0;
        splice(o0, old, &v, &mut at, &mut want);
        want.push_str(&o0[at..]);
        check(o1 == want, 72);
        let _ = scalar;
    }
    if !keep && what & S_LAYOUT != 0 {
        let (a, b) = span(old);
        let tail = &o0[b..];
        let mut good = o1.len() >= a + tail.len() && &o1[..a] == &o0[..a];
        if good {
            let e = o1.len() - tail.len();
            good = &o1[e..] == tail && laid(o1.as_bytes(), a, &v) == Some(e);
        }
        check(good, 82);
    }
    r
}
/// p says about every key what the text it prints says; keys of the old model that are gone have nothing
pub fn coherent(m: &Model, p: &TOMLParser, o1: &str) {
    let d = read(o1);
    check(d.end == o1.len(), 90);
    if d.end != o1.len() {
        return;
    }
    let n = Model::new(&d);
    values(&n, p);
    children(&n, p);
    for e in m.ents.iter() {
        if n.find(&e.key).is_none() {
            check(p.get_value(e.key.clone()).is_none(), 91);
            check(p.get_children(e.key.clone()).is_none(), 92);
        }
    }
}
fn text(n: usize, set: &Set) -> String {
    let mut s = String::new();
    push(&mut s, n, set);
    s
}
fn st(k: usize) -> StrType {
    match k {
        0 => StrType::Basic,
        1 => StrType::MLBasic,
        2 => StrType::Literal,
        _ => StrType::MLLiteral,
    }
}
fn two_of(set: &Set) -> String {
    text(2, set)
}
pub fn date<'a>(k: usize) -> Value<'a> {
    let dg = set_range(b'0', b'9');
    let near = set_or(dg, set_of("+-:. a"));
    let mut d = Date { year: "2000".into(), month: "02".into(), day: "28".into() };
    let mut t = Time { hour: "10".into(), minute: "20".into(), second: "30".into(), fraction: None, offset: None };
    let mut timed = true;
    match k {
        0 => {
            timed = false;
            d.day = two_of(&dg).into();
            d.month = ["01", "02", "04", "12", "13", "2", ""][choice(7)].into();
            d.year = ["2000", "1900", "2001", "2004", "0000", "200", "02000"][choice(7)].into();
        }
        1 => {
            timed = false;
            d.year = {
                let mut y = two_of(&near);
                y.push_str("00");
                y
            }
            .into();
            d.day = ["29", "28", "1", "001", ""][choice(5)].into();
        }
        2 => {
            timed = false;
            d.month = two_of(&near).into();
            d.day = ["30", "31", "00"][choice(3)].into();
        }
        3 => t.hour = text(choice(4), &near).into(),
        4 => t.minute = text(choice(4), &near).into(),
        5 => t.second = text(choice(4), &near).into(),
        6 => t.fraction = Some(text(choice(4), &near).into()),
        _ => {
            if choice(2) == 1 {
                t.fraction = Some(text(1, &dg).into());
            }
            let h = text(if k == 7 { choice(4) } else { 2 }, if k == 7 { &near } else { &dg });
            let m = text(if k == 8 { choice(4) } else { 2 }, if k == 8 { &near } else { &dg });
            t.offset = Some(if k > 8 {
                TimeOffset::Zulu
            } else {
                TimeOffset::Time(TimeOffsetAmount { pos_neg: if choice(2) == 0 { PosNeg::Pos } else { PosNeg::Neg }, hour: h.into(), minute: m.into() })
            });
        }
    }
    Value::DateTime(DateTime { date: d, time: if timed { Some(t) } else { None } })
}
/// values of at most `depth` levels; keys of inline tables distinct
pub fn shaped<'a>(depth: usize, width: usize) -> Value<'a> {
    match choice(if depth == 0 { 2 } else { 4 }) {
        0 => Value::Integer(text(1, &set_range(b'0', b'9')).into()),
        1 => Value::String("t".into(), StrType::Literal),
        2 => {
            let n = choice(width as u8 + 1);
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(shaped(depth - 1, width));
            }
            Value::Array(Rc::new(v))
        }
        _ => {
            let n = choice(width as u8 + 1);
            let mut v = Vec::new();
            for i in 0..n {
                v.push((["x", "y", "z"][i].into(), shaped(depth - 1, width)));
            }
            Value::InlineTable(Rc::new(v))
        }
    }
}
/// values with free parts, valid and invalid ones alike
pub fn any_value<'a>(kind: u64, n: usize) -> Value<'a> {
    let ascii = set_range(0, 127);
    match kind {
        0 => Value::Integer(text(n, &set_of("0129_+-.eE a")).into()),
        1 => Value::Float(text(n, &set_of("0129_+-.eE a")).into()),
        2 => Value::Boolean(choice(2) == 1),
        3..=6 => Value::String(text(n, &ascii).into(), st(kind as usize - 3)),
        7..=10 => {
            let mut s = String::new();
            for _ in 0..n {
                let k = 1 + choice(4);
                push_char(&mut s, k);
            }
            Value::String(s.into(), st(kind as usize - 7))
        }
        11..=20 => date(kind as usize - 11),
        21 => shaped(1, n),
        22 => shaped(2, n),
        23 => Value::InlineTable(Rc::new(vec![(text(n, &ascii).into(), Value::Integer("1".into()))])),
        24 => {
            let i = choice(3);
            let mut v = vec![Value::Integer("1".into()), Value::Integer("2".into()), Value::Integer("3".into())];
            v[i] = Value::Integer(text(n, &set_of("01_+a")).into());
            Value::Array(Rc::new(v))
        }
        25 => {
            let s = Value::String(text(n, &set_of("a\"'\\\n")).into(), st(choice(4)));
            let a = Value::Array(Rc::new(vec![Value::Array(Rc::new(vec![s]))]));
            Value::InlineTable(Rc::new(vec![("x".into(), Value::Integer("1".into())), ("y".into(), a)]))
        }
        26 => Value::Array(Rc::new(vec![date(choice(9))])),
        27 => Value::Integer(text(n, &ascii).into()),
        28 => Value::Float(text(n, &ascii).into()),
        29 => {
            let k = text(n, &set_of("\"ab\\ .="));
            Value::InlineTable(Rc::new(vec![(k.into(), Value::Array(Rc::new(vec![])))]))
        }
        _ => Value::String(text(n, &set_of("\"'\\\n\r\tutb0a")).into(), st(choice(4))),
    }
}
pub const D: &'static [&'static str] = &[
    "a=1",
    " a =\t'x' # c\r\nb=2\n",
    "a=[ 1 , #c\n 2,\n 3] # d\nb=2",
    "a={ x = 1 ,y = 2 } # d\r\nb=3",
    "a=[[1,2],[],[ 3 ]]\n[t]\nb=[{x=1},{y = [4]}]",
    "a = {x={y={z=1}},w=[1]}",
    "[t]\na=1\n[t.u]\nb=2\n[[v]]\nc=3\n[[v]]\n d=[4]\n[v.w]\ne={}",
    "a=1\na=[2,3]\n[b]\nx={y=1,y=[2]}\n[b]\nz=1",
    "a=2000-01-01T10:10:10.5Z\nb=\"\"\"x\ny\"\"\"\nc='''\nz'''\nd=true\ne=-1.5e3",
    "[a.b.c]\nd=1\n[a]\n[[a.e]]\n[[a.e.f]]\ng=[[]]",
    "a=[]\nb={}\nc=[ ]\nd={ \t}\n",
    "\"k.k\"=1\n[\"t t\"]\nk-1=[{\"q\" = 1}]",
    "a=[1,2,3,4,5,6,7,8,9,10,11,12]",
    "a=[{x=1},{x=2}]\n[a.b]\nc=1\n[c]\na=2",
    "a='x'#\nb=[1,\n\n2,]#e\nc={x=1,}",
    "[[a]]\nb=1\n[[a.c]]\nd=1\n[[a.c]]\nd=2\n[[a]]\n[[a.c]]\nd=[3]",
    // 16
    "[[a]]\nx=0\n[[a]]\nx=0\n[[a]]\nx=0\n[[a]]\nx=0\n[[a]]\nx=0\n[[a]]\nx=0\n[[a]]\nx=0\n[[a]]\nx=0\n[[a]]\nx=0\n[[a]]\nx=0\n[[a]]\nx={y=1}\n[[a]]\nx=[1]\n[a.b]\nc=1\n",
    "a=[{x=1},{x=2},{x=3},{x=4},{x=5},{x=6},{x=7},{x=8},{x=9},{x=10},{x=[1]},{x=12}]\nb={a=1,b=2}",
    "a=[{b=[{c=[{d=1},{d=2}]},{e=3}]}]\nb=[[[[1]]]]",
    "ab=1\na=[1,2]\naa={a=1,aa=2}\n[abc]\na=[[1]]\n[ab-c]\na={b=1}\nab=2",
    "\"a.b\"=[1,{x=1}]\n[a]\nb=[2]\n[\"a.c\".c]\n\"d\"={\"e.f\"=1}\n[\"a[0]\"]\nx=1",
    "a='''\n x''' # c\r\n\tb = [ # x\r\n\t1,\r\n# y\r\n\t2\r\n]\t# z\r\n",
    "a={ x = { y = 1 , z = [ 1 , { w = 2 } ] } ,\n# c\n v=[[3 ] ] }\nb=1\n\n",
    "a=1\n[b]\na=1\n[b.c]\na=1\n[[b.d]]\na=1\n[[b.d]]\na=[1]\n[b.d.e]\na={f=1}\n#end",
    // 24: read in part
    "a=1\n[t]\nb=[1,{x=1}] # c\nc={y=2}\n?",
    "a=[1,'x']\na=2\nb=2001-02-30\n[[t]]\nc=1\nd=[1,{x=2001-31-31,x=[1,2.5",
];
const MISSING: [&'static str; 8] = ["", "zz", "a[9]", "a.zz", "$Root$", "a[0", "a.", "A"];
fn target(m: &Model, n: usize) -> String {
    if n < m.ents.len() {
        m.ents[n].key.clone()
    } else {
        MISSING[n - m.ents.len()].to_string()
    }
}
/// document t, value kind k with n free bytes, aspects w: every key is set
harness!(s_set, |t, k, n, w| {
    let s = D[t as usize];
    observe(1, s);
    let (mut p, _) = parse(s);
    let s = &s[..read(s).end];
    let d = read(s);
    let m = Model::new(&d);
    let i = choice((m.ents.len() + MISSING.len()) as u8);
    let key = target(&m, i);
    let v = any_value(k, n as usize);
    if change(s, &m, &mut p, &key, v, w as u32) && w as u32 & S_COHERENT != 0 {
        coherent(&m, &p, &format!("{}", p));
    }
});
/// a document with free parts (template t of gen.rs), value kind k with n free bytes
harness!(s_doc, |t, k, n, w| {
    let mut s = String::new();
    crate::gen::fill(&mut s, crate::gen::T[t as usize]);
    observe(1, &s);
    let d = read(&s);
    if d.end != s.len() {
        return;
    }
    let m = Model::new(&d);
    let (mut p, _) = parse(&s);
    let i = choice(m.ents.len() as u8);
    let key = m.ents[i].key.clone();
    let v = any_value(k, n as usize);
    if change(&s, &m, &mut p, &key, v, w as u32) && w as u32 & S_COHERENT != 0 {
        coherent(&m, &p, &format!("{}", p));
    }
});
pub fn small<'a>(k: usize) -> Value<'a> {
    let one = || Value::Integer("7".into());
    let arr = |v: Vec<Value<'a>>| Value::Array(Rc::new(v));
    let inl = |v: Vec<(&'static str, Value<'a>)>| Value::InlineTable(Rc::new(v.into_iter().map(|(k, x)| (k.into(), x)).collect()));
    match k {
        0 => one(),
        1 => arr(vec![]),
        2 => arr(vec![one(), one()]),
        3 => inl(vec![("x", one())]),
        4 => arr(vec![inl(vec![("x", one()), ("y", arr(vec![one()]))])]),
        5 => inl(vec![("x", arr(vec![one(), one(), one()])), ("z", inl(vec![("y", one())]))]),
        6 => Value::String("s\n".into(), StrType::MLBasic),
        _ => inl(vec![]),
    }
}
/// histories: k changes in a row on document t, every key and one of n values each time
harness!(s_hist, |t, k, n, w| {
    let s = D[t as usize];
    observe(1, s);
    let (mut p, _) = parse(s);
    let mut o = s[..read(s).end].to_string();
    for _ in 0..k {
        let next;
        {
            let d = read(&o);
            let m = Model::new(&d);
            let i = choice(m.ents.len() as u8);
            let key = m.ents[i].key.clone();
            let c = choice(n as u8);
            change(&o, &m, &mut p, &key, small(c), w as u32);
            next = format!("{}", p);
            if w as u32 & S_COHERENT != 0 {
                coherent(&m, &p, &next);
            }
        }
        o = next;
    }
});
/// histories: one key of document t is changed k times, one of n values each time
harness!(s_same, |t, k, n, w| {
    let s = D[t as usize];
    observe(1, s);
    let (mut p, _) = parse(s);
    let mut o = s[..read(s).end].to_string();
    let key = {
        let d = read(&o);
        let m = Model::new(&d);
        m.ents[choice(m.ents.len() as u8)].key.clone()
    };
    for _ in 0..k {
        let next;
        {
            let d = read(&o);
            let m = Model::new(&d);
            let c = choice(n as u8);
            change(&o, &m, &mut p, &key, small([1, 3, 0, 5, 4, 2, 6, 7][c]), w as u32);
            next = format!("{}", p);
            if w as u32 & S_COHERENT != 0 {
                coherent(&m, &p, &next);
            }
        }
        o = next;
    }
});
