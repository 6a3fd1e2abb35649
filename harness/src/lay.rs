//! Layout independence, lookups with any key, walks over the whole tree of keys.
use crate::cmp::*;
use crate::refm::*;
use crate::set::{eqv, D};
use crate::sym::*;
use tomllib::types::*;
use tomllib::TOMLParser;

/// blanks and tabs, up to two
fn blank(s: &mut String) {
    let n = 1 + choice(2);
    push(s, n, &set_of(" \t"));
}
fn comment(s: &mut String) {
    s.push('#');
    match choice(4) {
        0 => {}
        1 => push(s, 2, &set_or(set_range(32, 127), set_of("\t"))),
        2 => push_char(s, 2),
        _ => push_char(s, 3),
    }
}
fn gaps(t: &str) -> usize {
    t.bytes().filter(|&c| c > 1 && c < 8).count()
}
/// the template in its plainest layout (a) and in another layout (b) that differs in the chosen gaps; free
/// letters are the same in both
fn two(t: &str, a: &mut String, b: &mut String, pick: &[usize]) {
    let mut eol = "\n";
    let mut g = 0;
    for c in t.bytes() {
        let mut on = false;
        if c > 1 && c < 8 {
            on = pick.contains(&g);
            g += 1;
        }
        match c {
            1 => {
                let x = byte(&set_range(b'a', b'z'));
                unsafe {
                    a.as_mut_vec().push(x);
                    b.as_mut_vec().push(x);
                }
            }
            // between tokens of a line
            2 if on => blank(b),
            // within arrays and after the commas of inline tables
            3 if on => match choice(4) {
                0 => blank(b),
                1 => b.push_str(["\n", "\r\n"][choice(2)]),
                2 => {
                    comment(b);
                    b.push_str(["\n", "\r\n"][choice(2)]);
                }
                _ => {
                    blank(b);
                    b.push_str("\n#,[\n");
                    blank(b);
                }
            },
            // end of a line
            4 => {
                a.push('\n');
                if on {
                    match choice(3) {
                        0 => blank(b),
                        1 => comment(b),
                        _ => {
                            blank(b);
                            comment(b);
                        }
                    }
                }
                b.push_str(eol);
            }
            // between lines
            5 if on => {
                match choice(4) {
                    0 => {}
                    1 => blank(b),
                    2 => comment(b),
                    _ => b.push_str(" # a\n\n#[a]"),
                }
                b.push_str(["\n", "\r\n"][choice(2)]);
            }
            // line ends of this document
            6 if on => eol = "\r\n",
            // a comma after the last entry
            7 if on => b.push_str([",", " ,"][choice(2)]),
            2..=7 => {}
            _ => unsafe {
                a.as_mut_vec().push(c);
                b.as_mut_vec().push(c);
            },
        }
    }
}
const L: &'static [&'static str] = &[
    "\x06\x05\x02\x01\x02=\x021\x04\x05\x02\x01\x02=\x02'x'\x04",
    "\x06\x02[\x02\x01\x02]\x04\x02k\x02=\x021\x04\x05",
    "\x06\x02[[\x02\x01\x02.\x02\x01\x02]]\x04k=1\x04\x05",
    "a=[\x031\x02,\x032\x07\x03]\x04b=1\x04",
    "a={\x02x\x02=\x021\x02,\x03y\x02=\x022\x07\x03}\x04b=1\x04",
    "a=[\x03[\x03]\x02,\x03[\x031\x03]\x03]\x04",
    "\x06\x05[\x01]\x04\x05\x01=1\x04\x05[\x01.\x01]\x04\x05\x01=2\x04",
    "\x06\x05[[\x01]]\x04\x05\x01=1\x04\x05[[\x01]]\x04\x05\x01=[\x031\x03]\x04",
    "\x01=1\x04\x05\x01=2\x04\x05[\x01]\x04\x05x=1\x04\x05\x01=3\x04",
    "\x06a=[{x=1\x02,\x03y=[\x03]}\x02,\x03{x=\x022}]\x04\x05[b]\x04\x05c=2001-02-30\x04",
];
pub fn go(p: &TOMLParser, key: &str, out: &mut Vec<String>, depth: usize) {
    out.push(key.to_string());
    if depth == 0 {
        return;
    }
    if let Some(c) = p.get_children(key) {
        for k in c.combine_child_keys(key) {
            go(p, &k, out, depth - 1);
        }
    }
}
fn kids(p: &TOMLParser, key: &str) -> Option<(bool, Vec<String>)> {
    p.get_children(key).map(|c| {
        let names = match *c {
            Children::Keys(_) => true,
            Children::Count(_) => false,
        };
        (names, c.combine_child_keys(key))
    })
}
/// template t, at most b gaps laid out differently
/// 120: read to the end alike; 121: the same values; 122: the same children; 123: the same errors
harness!(w_two, |t, b, c, d| {
    let (mut x, mut y) = (String::new(), String::new());
    let n = gaps(L[t as usize]);
    let mut pick = Vec::new();
    for _ in 0..b {
        let from = pick.last().map_or(0, |x| x + 1);
        if from < n {
            pick.push(from + choice((n - from) as u8));
        }
    }
    two(L[t as usize], &mut x, &mut y, &pick);
    observe(1, &x);
    observe(2, &y);
    let (p, r) = parse(&x);
    let (q, s) = parse(&y);
    check(complete(&r) && complete(&s), 120);
    let mut ks = Vec::new();
    go(&p, "", &mut ks, 400);
    go(&q, "", &mut ks, 400);
    for k in ks.iter() {
        check(
            match (p.get_value(k.clone()), q.get_value(k.clone())) {
                (Some(ref u), Some(ref v)) => eqv(u, v),
                (None, None) => true,
                _ => false,
            },
            121,
        );
        check(kids(&p, k) == kids(&q, k), 122);
    }
    let (e, f) = (errors(&r), errors(&s));
    let mut same = e.len() == f.len();
    if same {
        for i in 0..e.len() {
            same = same && sort(&e[i]) == sort(&f[i]) && place(&e[i]) == place(&f[i]);
        }
    }
    check(same, 123);
});
fn place(e: &ParseError) -> String {
    match *e {
        ParseError::DuplicateKey(ref k, ..) | ParseError::InvalidTable(ref k, ..) | ParseError::MixedArray(ref k, ..) | ParseError::InvalidDateTime(ref k, ..) => k.clone(),
        _ => String::new(),
    }
}
/// 130: the tree of keys reaches every key of the document and nothing else, 131: once; 132: every key it
/// reaches can be looked up; 133: the ways to make a key agree
pub fn tree(m: &Model, p: &TOMLParser) {
    let mut ks = Vec::new();
    go(p, "", &mut ks, 400);
    check(ks.len() == m.ents.len(), 131);
    for e in m.ents.iter() {
        check(ks.iter().any(|k| *k == e.key), 130);
    }
    for k in ks.iter() {
        check(m.find(k).is_some(), 130);
        let c = p.get_children(k.clone());
        check(c.is_some(), 132);
        if let Some(c) = c {
            let all = c.combine_child_keys(k.clone());
            match *c {
                Children::Count(ref n) => {
                    check(all.len() == n.get(), 133);
                    for i in 0..all.len() {
                        check(all[i] == Children::combine_keys_index(k.clone(), i), 133);
                        check(all[i] == index(k, i), 133);
                    }
                }
                Children::Keys(ref v) => {
                    let v = v.borrow();
                    check(all.len() == v.len(), 133);
                    for i in 0..all.len() {
                        check(all[i] == Children::combine_keys(k.clone(), v[i].clone()), 133);
                        check(all[i] == join(k, &v[i]), 133);
                    }
                }
            }
        }
    }
}
pub fn walk(s: &str) {
    observe(1, s);
    let d = read(s);
    if d.end != s.len() {
        return;
    }
    let m = Model::new(&d);
    let (p, _) = parse(s);
    tree(&m, &p);
}
harness!(k_doc, |t, b, c, d| {
    let mut s = String::new();
    crate::gen::fill(&mut s, crate::gen::T[t as usize]);
    walk(&s);
});
harness!(k_lines, |n, k, c, d| {
    let kinds: Vec<usize> = (0..9).filter(|i| k >> i & 1 == 1).collect();
    let mut s = String::new();
    for _ in 0..n {
        let c = choice(kinds.len() as u8);
        crate::tab::line(&mut s, kinds[c]);
    }
    walk(&s);
});
harness!(k_names, |n, k, f, d| {
    walk(&crate::tab::lines(n, k, f));
});
/// combining keys: any base of n bytes, any child of k bytes, any index up to 255
harness!(k_join, |n, k, c, d| {
    let (mut x, mut y) = (String::new(), String::new());
    push(&mut x, n as usize, &set_range(0, 127));
    push(&mut y, k as usize, &set_range(0, 127));
    check(Children::combine_keys(x.clone(), y.clone()) == join(&x, &y), 133);
    let i = byte(&set_range(0, 255)) as usize;
    let mut w = x.clone();
    w.push('[');
    if i >= 100 {
        w.push((b'0' + (i / 100) as u8) as char);
    }
    if i >= 10 {
        w.push((b'0' + (i / 10 % 10) as u8) as char);
    }
    w.push((b'0' + (i % 10) as u8) as char);
    w.push(']');
    check(Children::combine_keys_index(x.clone(), i) == w, 133);
});
/// any key of n bytes looked up in document t: 140, 141 found exactly if the document has it
harness!(n_key, |t, n, w, d| {
    let s = D[t as usize];
    observe(1, s);
    let (p, _) = parse(s);
    let s = &s[..read(s).end];
    let doc = read(s);
    let m = Model::new(&doc);
    let mut k = String::new();
    match w {
        0 => push(&mut k, n as usize, &set_range(0, 127)),
        1 => push(&mut k, n as usize, &set_of("abctvwxyz.[]012\"$ -")),
        _ => {
            let i = choice(m.ents.len() as u8);
            k.push_str(&m.ents[i].key);
            push(&mut k, n as usize, &set_range(0, 127));
        }
    }
    observe(3, &k);
    let e = m.find(&k);
    let want = match e {
        Some(i) => m.ents[i].val.is_some(),
        None => false,
    };
    check(p.get_value(k.clone()).is_some() == want, 140);
    check(p.get_children(k.clone()).is_some() == e.is_some(), 141);
    // 142: and looking changes nothing
    check(format!("{}", p) == s, 142);
    values(&m, &p);
    children(&m, &p);
});
const E: &'static [&'static str] = &[
    "\x06\x05a=1\x04\x05a=2\x04\x05b=1\x04\x05a=3\x04",
    "\x06\x05[a]\x04\x05[b]\x04\x05[a]\x04\x05x=1\x04\x05[b]\x04",
    "\x05a=[\x031,\x03'x'\x03]\x04\x05b=[1,\x032.5]\x04",
    "\x05a=2001-02-30\x04\x05b=[\x032001-13-01,\x032000-00-00]\x04",
    "a=[\x03[\x03]\x03]\x04\x05a=[\x031,\x032]\x04\x05a=1\x04",
    "a={x=1,\x03y=2}\x04\x05a={x=1,\x03x=2,\x03x=3}\x04\x05a=1\x04",
    "a='''\n\n'''\x04a=\"\"\"\r\n\n\\\n\"\"\"\x04\x05a=2000-00-00\x04\x05[a]\x04",
    "a={x=[\x03{x=1,\x03y=[\x031]},\x03{x=[1,\x03'x']}]}\x04\x05[a]\x04\x05[[a.x]]\x04",
    "[[a]]\x04\x05[a]\x04\x05q=[\x03]\x04\x05[[a.b]]\x04\x05c=2\x04\x05c=3\x04\x05[a.b]\x04",
    "a={\x02x='''\n'''\x02,\x03d=2001-31-31}\x04b=[\x03'''\r\n''',\x032]\x04\x05b=1\x04",
];
/// error template t, at most b gaps laid out differently: the lines of the errors
harness!(e_lines, |t, b, c, d| {
    let (mut x, mut y) = (String::new(), String::new());
    let n = gaps(E[t as usize]);
    let mut pick = Vec::new();
    for _ in 0..b {
        let from = pick.last().map_or(0, |x| x + 1);
        if from < n {
            pick.push(from + choice((n - from) as u8));
        }
    }
    two(E[t as usize], &mut x, &mut y, &pick);
    compare(&y, LINES, 15);
});
