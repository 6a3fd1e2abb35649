use crate::cmp::*;
use crate::sym::*;

/// n free bytes of ASCII: b picks the aspects
harness!(h_ascii, |n, b, c, d| {
    let mut s = String::new();
    push(&mut s, n as usize, &set_range(0, 127));
    compare(&s, b as u32, 15);
});
/// any UTF-8 text of n bytes
harness!(h_any, |n, b, c, d| {
    let mut s = String::new();
    let mut left = n as usize;
    while left > 0 {
        let k = 1 + choice(if left < 4 { left as u8 } else { 4 });
        push_char(&mut s, k);
        left -= k;
    }
    compare(&s, b as u32, 15);
});
/// everything there is to do with a document, read to the end or not: nothing may panic
pub fn exercise(s: &str) {
    observe(1, s);
    let (mut p, r) = parse(s);
    let mut o = format!("{}", p);
    observe(2, &o);
    for e in errors(&r) {
        match e {
            tomllib::types::ParseError::DuplicateKey(_, _, _, ref v) => o = format!("{}", v),
            tomllib::types::ParseError::InvalidTable(_, _, _, ref m) => {
                for v in m.borrow().values() {
                    o = format!("{}", v);
                }
            }
            _ => {}
        }
    }
    let mut ks = Vec::new();
    crate::lay::go(&p, "", &mut ks, 5);
    for k in ks.iter() {
        if let Some(v) = p.get_value(k.clone()) {
            v.validate();
            o = format!("{}", v);
        }
    }
    let i = choice(ks.len() as u8);
    let n = [0, 1, 4, 6, 7][choice(5)];
    let done = p.set_value(ks[i].clone(), crate::set::small(n));
    o = format!("{}", p);
    observe(3, &o);
    check(!done || p.get_value(ks[i].clone()).is_some(), 150);
    for k in ks.iter() {
        if let Some(v) = p.get_value(k.clone()) {
            o = format!("{}", v);
        }
        p.get_children(k.clone());
    }
}
harness!(r_ascii, |n, b, c, d| {
    let mut s = String::new();
    push(&mut s, n as usize, &set_range(0, 127));
    exercise(&s);
});
/// template t cut off after its first n bytes (n = 0: whole) with one more free byte
harness!(r_doc, |t, n, c, d| {
    let mut s = String::new();
    crate::gen::fill(&mut s, crate::gen::T[t as usize]);
    if n > 0 {
        if s.len() < n as usize {
            return;
        }
        let mut k = n as usize;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        push(&mut s, 1, &set_range(0, 127));
    }
    exercise(&s);
});
harness!(r_lines, |n, k, c, d| {
    let kinds: Vec<usize> = (0..9).filter(|i| k >> i & 1 == 1).collect();
    let mut s = String::new();
    for _ in 0..n {
        let c = choice(kinds.len() as u8);
        crate::tab::line(&mut s, kinds[c]);
    }
    exercise(&s);
});
/// document t of set.rs cut off anywhere (its first n bytes stay), then k free bytes
harness!(p_cut, |t, n, k, w| {
    let d = crate::set::D[t as usize];
    let mut s = String::new();
    let left = if d.len() > n as usize { d.len() - n as usize } else { 0 };
    let mut at = n as usize + if left == 0 { 0 } else { choice(if left > 250 { 250 } else { left as u8 }) };
    while at > d.len() || !d.is_char_boundary(at) {
        at -= 1;
    }
    s.push_str(&d[..at]);
    push(&mut s, k as usize, &set_range(0, 127));
    compare(&s, w as u32, 15);
});
/// template t cut off after n bytes, then k free bytes
harness!(p_doc, |t, n, k, w| {
    let mut s = String::new();
    crate::gen::fill(&mut s, crate::gen::T[t as usize]);
    if s.len() < n as usize || !s.is_char_boundary(n as usize) {
        return;
    }
    s.truncate(n as usize);
    push(&mut s, k as usize, &set_range(0, 127));
    compare(&s, w as u32, 15);
});
