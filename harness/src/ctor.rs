//! Values made by the library's constructors.
use crate::cmp::*;
use crate::refm::*;
use crate::set::{eqv, render, valid};
use crate::sym::*;
use tomllib::types::*;
use tomllib::TOMLParser;

fn b(lo: u8, hi: u8) -> usize {
    byte(&set_range(lo, hi)) as usize
}
/// the decimal digits of n, at least w of them
fn dec(mut n: u64, w: usize) -> String {
    let mut t = Vec::new();
    loop {
        t.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    let mut s = String::new();
    for _ in t.len()..w {
        s.push('0');
    }
    for i in 0..t.len() {
        s.push(t[t.len() - 1 - i] as char);
    }
    s
}
/// the parts a constructor takes, as text
struct Parts {
    /// year, month, day, hour, minute, second, fraction, sign, offset hour, offset minute
    t: Vec<String>,
}
/// which parts constructor f takes, and whether it means Zulu
fn takes(f: u64) -> (bool, bool, bool, bool) {
    // time, fraction, offset, zulu
    match f {
        0 => (false, false, false, false),
        1 => (true, false, false, false),
        2 => (true, true, false, false),
        3 => (true, false, true, false),
        4 => (true, false, false, true),
        5 => (true, true, false, true),
        _ => (true, true, true, false),
    }
}
/// the value these parts stand for; None if the sign is none
fn build<'a>(f: u64, p: &Parts) -> Option<Value<'a>> {
    let (time, frac, off, zulu) = takes(f);
    let c = |i: usize| p.t[i].clone().into();
    let pos_neg = if p.t[7] == "+" {
        PosNeg::Pos
    } else if p.t[7] == "-" {
        PosNeg::Neg
    } else if off {
        return None;
    } else {
        PosNeg::Pos
    };
    let o = if off {
        Some(TimeOffset::Time(TimeOffsetAmount { pos_neg: pos_neg, hour: c(8), minute: c(9) }))
    } else if zulu {
        Some(TimeOffset::Zulu)
    } else {
        None
    };
    let t = if time { Some(Time { hour: c(3), minute: c(4), second: c(5), fraction: if frac { Some(c(6)) } else { None }, offset: o }) } else { None };
    Some(Value::DateTime(DateTime { date: Date { year: c(0), month: c(1), day: c(2) }, time: t }))
}
fn from_str<'a>(f: u64, p: &Parts) -> Option<Value<'a>> {
    let c = |i: usize| p.t[i].clone();
    match f {
        0 => Value::date_from_str(c(0), c(1), c(2)),
        1 => Value::datetime_from_str(c(0), c(1), c(2), c(3), c(4), c(5)),
        2 => Value::datetime_frac_from_str(c(0), c(1), c(2), c(3), c(4), c(5), c(6)),
        3 => Value::datetime_offset_from_str(c(0), c(1), c(2), c(3), c(4), c(5), c(7), c(8), c(9)),
        4 => Value::datetime_zulu_from_str(c(0), c(1), c(2), c(3), c(4), c(5)),
        5 => Value::datetime_full_zulu_from_str(c(0), c(1), c(2), c(3), c(4), c(5), c(6)),
        _ => Value::datetime_full_from_str(c(0), c(1), c(2), c(3), c(4), c(5), c(6), c(7), c(8), c(9)),
    }
    .ok()
}
fn from_int<'a>(f: u64, n: &[usize; 10], sign: char) -> Option<Value<'a>> {
    match f {
        0 => Value::date_from_int(n[0], n[1], n[2]),
        1 => Value::datetime_from_int(n[0], n[1], n[2], n[3], n[4], n[5]),
        2 => Value::datetime_frac_from_int(n[0], n[1], n[2], n[3], n[4], n[5], n[6]),
        3 => Value::datetime_offset_from_int(n[0], n[1], n[2], n[3], n[4], n[5], sign, n[8], n[9]),
        4 => Value::datetime_zulu_from_int(n[0], n[1], n[2], n[3], n[4], n[5]),
        5 => Value::datetime_full_zulu_from_int(n[0], n[1], n[2], n[3], n[4], n[5], n[6] as u64),
        _ => Value::datetime_full_from_int(n[0], n[1], n[2], n[3], n[4], n[5], n[6] as u64, sign, n[8], n[9]),
    }
    .ok()
}
fn show(v: &Value) -> String {
    format!("{}", v)
}
/// 100: made if and only if there is such a moment; 101: with exactly these parts; 102: which is how it prints
fn made(want: &Option<Value>, got: &Option<Value>) {
    let ok = match *want {
        Some(ref v) => valid(v),
        None => false,
    };
    check(ok == got.is_some(), 100);
    if let (true, &Some(ref w), &Some(ref g)) = (ok, want, got) {
        check(eqv(w, g), 101);
        let mut t = String::new();
        render(w, &mut t);
        check(show(g) == t, 102);
    }
}
const PLAIN: [usize; 10] = [2001, 2, 3, 4, 5, 6, 7, 0, 8, 9];
fn texts(n: &[usize; 10], sign: char) -> Parts {
    let mut t = Vec::new();
    for i in 0..10 {
        t.push(if i == 7 {
            let mut s = String::new();
            s.push(sign);
            s
        } else {
            dec(n[i] as u64, if i == 0 {
                4
            } else if i == 6 {
                1
            } else {
                2
            })
        });
    }
    Parts { t: t }
}
fn ints(f: u64, n: &[usize; 10], sign: char) {
    let p = texts(n, sign);
    let want = build(f, &p);
    let got = from_int(f, n, sign);
    made(&want, &got);
    // 103: the same moment from text
    let other = from_str(f, &p);
    check(
        match (&got, &other) {
            (&Some(ref x), &Some(ref y)) => eqv(x, y),
            (&None, &None) => true,
            _ => false,
        },
        103,
    );
}
/// calendar dates: year base + 0..255, month 0..20, day 0..40, by constructor f
harness!(c_date, |f, base, c, d| {
    let mut n = PLAIN;
    n[0] = base as usize + b(0, 255);
    n[1] = b(0, 20);
    n[2] = b(0, 40);
    ints(f, &n, '+');
});
/// number i of constructor f free: base + 0..255
harness!(c_int, |f, i, base, d| {
    let mut n = PLAIN;
    n[i as usize] = (base as usize).wrapping_add(b(0, 255));
    ints(f, &n, ['+', '-'][choice(2)]);
});
/// hour, minute and second (or offset hour and minute) all free
harness!(c_clock, |f, i, c, d| {
    let mut n = PLAIN;
    for k in 0..(if i == 8 { 2 } else { 3 }) {
        n[i as usize + k] = b(0, 110);
    }
    ints(f, &n, ['+', '-'][choice(2)]);
});
/// any sign character
harness!(c_sign, |f, k, c, d| {
    let mut s = String::new();
    push_char(&mut s, k as usize);
    let sign = s.chars().next().unwrap();
    ints(f, &PLAIN, sign);
});
/// part i of constructor f is any ASCII text of n bytes
harness!(c_str, |f, i, n, w| {
    let mut p = texts(&PLAIN, '+');
    let mut s = String::new();
    let set = if w == 0 { set_range(0, 127) } else { set_or(set_range(b'0', b'9'), set_of("+-: .")) };
    push(&mut s, n as usize, &set);
    p.t[i as usize] = s;
    let want = build(f, &p);
    let got = from_str(f, &p);
    made(&want, &got);
});
/// parts i and j of constructor f are free digits
harness!(c_two, |f, i, j, d| {
    let mut p = texts(&PLAIN, '-');
    for &k in [i, j].iter() {
        let mut s = String::new();
        push(&mut s, if k == 0 { 4 } else { 2 }, &set_range(b'0', b'9'));
        p.t[k as usize] = s;
    }
    let want = build(f, &p);
    let got = from_str(f, &p);
    made(&want, &got);
});
/// the types themselves: from_str and validate
harness!(c_part, |k, i, n, d| {
    let near = set_or(set_range(b'0', b'9'), set_of("+-: .a"));
    let mut f = String::new();
    push(&mut f, n as usize, &near);
    let at = |j: u64, t: &str| if i == j { f.clone() } else { t.to_string() };
    match k {
        0 => {
            let (y, m, d) = (at(0, "2004"), at(1, "12"), at(2, "29"));
            let raw = Date { year: y.clone().into(), month: m.clone().into(), day: d.clone().into() };
            let want = valid(&Value::DateTime(DateTime { date: raw.clone(), time: None }));
            check(raw.validate() == want, 104);
            check(DateTime::new(raw.clone(), None).validate() == want, 104);
            check(Value::DateTime(DateTime::new(raw.clone(), None)).validate() == want, 104);
            check(Date::from_str(y, m, d).map(|x| x == raw).unwrap_or(false) == want, 105);
        }
        1 => {
            let (h, m, s, q) = (at(0, "23"), at(1, "59"), at(2, "00"), at(3, "5"));
            let raw = Time { hour: h.clone().into(), minute: m.clone().into(), second: s.clone().into(), fraction: Some(q.clone().into()), offset: None };
            let date = Date { year: "2000".into(), month: "01".into(), day: "01".into() };
            let dt = DateTime { date: date, time: Some(raw.clone()) };
            let want = valid(&Value::DateTime(dt.clone()));
            check(raw.validate() == want, 104);
            check(dt.validate() == want, 104);
            check(Time::from_str(h, m, s, Some(q), None).map(|x| x == raw).unwrap_or(false) == want, 105);
        }
        _ => {
            let (s, h, m) = (at(0, "-"), at(1, "23"), at(2, "59"));
            let sign = s == "+" || s == "-";
            let raw = TimeOffsetAmount { pos_neg: if s == "+" { PosNeg::Pos } else { PosNeg::Neg }, hour: h.clone().into(), minute: m.clone().into() };
            let time = Time { hour: "01".into(), minute: "02".into(), second: "03".into(), fraction: None, offset: Some(TimeOffset::Time(raw.clone())) };
            let date = Date { year: "2000".into(), month: "01".into(), day: "01".into() };
            let want = valid(&Value::DateTime(DateTime { date: date, time: Some(time.clone()) }));
            check(raw.validate() == want, 104);
            check(time.validate() == want, 104);
            check(TimeOffset::Time(raw.clone()).validate() == want, 104);
            check(TimeOffset::Zulu.validate(), 104);
            check(TimeOffsetAmount::from_str(s, h, m).map(|x| x == raw).unwrap_or(false) == (want && sign), 105);
        }
    }
});
/// date and time from one text: template t of gen.rs without its key
harness!(c_parse, |t, k, c, d| {
    let mut s = String::new();
    crate::gen::fill(&mut s, crate::gen::T[t as usize]);
    whole_text(&s[2..]);
});
/// any text of n bytes after a prefix
harness!(c_text, |k, n, c, d| {
    let mut s = ["", "2000-01-01", "2000-01-01T01:02:03", "2000-01-01T01:02:03.4"][k as usize].to_string();
    push(&mut s, n as usize, &set_range(0, 127));
    whole_text(&s);
});
/// 106: exactly the texts that are a date are taken; 107: as what they say
pub fn whole_text(s: &str) {
    observe(1, s);
    let t: &str = unsafe { &*(s as *const str) };
    let mut p = P { b: t.as_bytes(), line: 1 };
    let want = match p.value(0) {
        Some((e, RV::Date(..))) => e == t.len() && date_ok(t.as_bytes()),
        _ => false,
    };
    let got = Value::datetime_parse(t);
    check(got.is_ok() == want, 106);
    if let (true, Ok(v)) = (want, got) {
        check(show(&v) == s, 107);
        match v {
            Value::DateTime(ref d) => check(same_date(s, d), 107),
            _ => check(false, 107),
        }
    }
}

// ---------------------------------------------------------------- everything but dates

/// 110: the value is accepted exactly if it can be written down; 111: it prints as its text; 112: which a
/// document holding it gives back
fn accepted(v: &Value, got: bool) {
    let ok = valid(v);
    check(got == ok, 110);
    if ok {
        let mut t = String::new();
        render(v, &mut t);
        check(show(v) == t, 111);
        reread(v, &t);
    }
}
fn reread(v: &Value, t: &str) {
    let mut doc = "v=".to_string();
    doc.push_str(t);
    observe(1, &doc);
    let (p, r) = TOMLParser::new().parse(&doc);
    check(complete(&r), 112);
    check(p.get_value("v").map_or(false, |x| eqv(&x, v)), 112);
}
/// constructor k from a text of n bytes
harness!(c_from, |k, n, w, d| {
    let mut s = String::new();
    match w {
        0 => push(&mut s, n as usize, &set_range(0, 127)),
        1 => push(&mut s, n as usize, &set_of("0129_+-.eE a")),
        2 => push(&mut s, n as usize, &set_of("\"'\\\n\r\tutbU0a/")),
        3 => {
            for _ in 0..n {
                let j = 1 + choice(4);
                push_char(&mut s, j)
            }
        }
        4 => {
            s.push_str(["\\u", "\\U", "\\U0000", "\\\\u"][choice(4)]);
            push(&mut s, n as usize, &set_or(set_range(b'0', b'9'), set_of("aAfFgG\\\"")))
        }
        _ => {
            for _ in 0..n {
                s.push_str(["\"", "\"\"", "'", "''", "\\\"", "\\", "\n", "\r\n", "a", "\\\n"][choice(10)]);
            }
        }
    }
    from(k, s);
});
fn from(k: u64, s: String) {
    let v = match k {
        0 => Value::Integer(s.clone().into()),
        1 => Value::Float(s.clone().into()),
        2 => Value::String(s.clone().into(), StrType::Basic),
        3 => Value::String(s.clone().into(), StrType::MLBasic),
        4 => Value::String(s.clone().into(), StrType::Literal),
        _ => Value::String(s.clone().into(), StrType::MLLiteral),
    };
    let got = match k {
        0 => Value::int_from_str(s),
        1 => Value::float_from_str(s),
        2 => Value::basic_string(s),
        3 => Value::ml_basic_string(s),
        4 => Value::literal_string(s),
        _ => Value::ml_literal_string(s),
    };
    check(v.validate() == got.is_ok(), 113);
    if let Ok(ref g) = got {
        check(eqv(&v, g), 114);
    }
    accepted(&v, got.is_ok());
}
/// validity of any value of kind k (see set.rs) with n free bytes
harness!(c_valid, |k, n, c, d| {
    let v = crate::set::any_value(k, n as usize);
    let got = v.validate();
    accepted(&v, got);
});
/// whole numbers base .. base + 255 (mod 2^64)
harness!(c_i64, |base, c, d, e| {
    let n = (base as i64).wrapping_add(b(0, 255) as i64);
    let v = Value::int(n);
    let mut t = String::new();
    if n < 0 {
        t.push('-');
    }
    t.push_str(&dec(n.unsigned_abs(), 1));
    check(
        match v {
            Value::Integer(ref x) => &x[..] == &t[..],
            _ => false,
        },
        115,
    );
    accepted(&v, true);
});
/// truth values from any text of n bytes; with w, from the words in any case
harness!(c_bool, |n, w, c, d| {
    let mut s = String::new();
    if w == 0 {
        push(&mut s, n as usize, &set_range(0, 127));
    } else {
        for ch in (if choice(2) == 0 { "true" } else { "false" }).bytes() {
            let set = set_or(set_range(ch, ch), set_range(ch - 32, ch - 32));
            push(&mut s, 1, &if n == 1 { set_or(set, set_of("x")) } else { set });
        }
    }
    let word = |w: &str| {
        let mut eq = s.len() == w.len();
        if eq {
            for i in 0..w.len() {
                let (x, y) = (s.as_bytes()[i], w.as_bytes()[i]);
                eq = eq && (x == y || x + 32 == y);
            }
        }
        eq
    };
    let (t, f) = (word("true"), word("false"));
    match Value::bool_from_str(s.clone()) {
        Ok(Value::Boolean(x)) => check(t && x || f && !x, 116),
        Ok(_) => check(false, 116),
        Err(_) => check(!t && !f, 116),
    }
    let x = choice(2) == 1;
    accepted(&Value::bool(x), true);
});
