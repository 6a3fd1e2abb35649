//! Long, wide and deep documents: a size is given, a few bytes and the place of an error are free.
use crate::cmp::*;
use crate::set::*;
use crate::sym::*;
use std::rc::Rc;
use tomllib::types::*;

fn rep(s: &mut String, n: u64, t: &str) {
    for _ in 0..n {
        s.push_str(t);
    }
}
fn letter(s: &mut String) {
    push(s, 1, &set_range(b'a', b'z'))
}
fn digit(s: &mut String) {
    push(s, 1, &set_range(b'0', b'9'))
}
/// the first, the last, one in the middle of n
fn some(n: u64) -> u64 {
    [0, n - 1, n / 2, n - 2][choice(4)]
}
/// one error of each kind, lines apart; one name and one digit are free
fn errors_here(s: &mut String) {
    s.push_str("\n[er]\nx=1\nx=2\ny=2001-02-3");
    digit(s);
    s.push_str("\nz=[1,'x']\n[er]\n[e");
    letter(s);
    s.push_str("]\n");
}
pub fn big(s: &mut String, kind: u64, n: u64) {
    let i = kind % 100;
    match i {
        0 => {
            s.push_str("a=");
            rep(s, n - 2, "7");
            digit(s);
            s.push_str("3\nb=-");
            rep(s, n - 1, "1_0");
            digit(s);
        }
        1 => {
            s.push_str("a=1.");
            rep(s, n - 1, "5");
            digit(s);
            s.push_str("e-");
            rep(s, n - 1, "2");
            digit(s);
            s.push_str("\nb=");
            rep(s, n - 1, "3");
            digit(s);
            s.push_str("E1");
        }
        2 => {
            s.push_str("a=\"");
            rep(s, n / 2, "x");
            push(s, 1, &set_range(0, 127));
            rep(s, n / 2, "y");
            s.push_str("\"\nb='");
            rep(s, n - 1, "\u{e9}");
            push(s, 1, &set_range(0, 127));
            s.push_str("'\nc=1");
        }
        3 => {
            s.push_str("a='''");
            rep(s, n, "x\n");
            push(s, 1, &set_range(0, 127));
            s.push_str("'''\nb=\"\"\"");
            rep(s, n, "\\\r\n y\n");
            push(s, 1, &set_range(0, 127));
            s.push_str("\"\"\"\n");
        }
        4 => {
            rep(s, n - 1, "k");
            letter(s);
            s.push_str("=1\n[");
            rep(s, n - 1, "t");
            letter(s);
            s.push_str("]\na=1\n[[");
            rep(s, n - 1, "t");
            letter(s);
            s.push_str("]]\na=1");
        }
        5 => {
            s.push('"');
            rep(s, n - 1, "k ");
            letter(s);
            s.push_str("\"=1\n[\"");
            rep(s, n - 1, "\u{20ac}");
            letter(s);
            s.push_str("\".x]\na={\"");
            rep(s, n - 1, "q");
            letter(s);
            s.push_str("\"=1}");
        }
        6 => {
            let c = choice(3);
            rep(s, n, ["\n", "\r\n", " \t\n"][c]);
        }
        7 => {
            let c = choice(3);
            rep(s, n, ["#\n", "# comment\r\n", " \t#=[\u{e9}\n"][c]);
        }
        8 => {
            s.push_str("a=[");
            for k in 0..n - 1 {
                s.push_str(&k.to_string());
                s.push(',');
            }
            s.push_str("[]");
            s.truncate(s.len() - 2 * choice(2));
            push(s, 1, &set_range(b'0', b'9'));
            s.push(']');
        }
        9 => {
            s.push_str("a={");
            let d = some(n);
            for k in 0..n {
                s.push_str(&format!("k{}={},", k, k));
            }
            s.push_str(&format!("k{}=", d));
            digit(s);
            s.push('}');
        }
        10 => {
            let d = some(n);
            for k in 0..n {
                s.push_str(&format!("k{}={}\n", k, k));
            }
            s.push_str(&format!("k{}=", d));
            digit(s);
        }
        11 => {
            let d = some(n);
            for k in 0..n {
                s.push_str(&format!("[t{}]\nx={}\n", k, k));
            }
            s.push_str(&format!("[t{}]\nx=", d));
            digit(s);
        }
        12 => {
            for k in 0..n {
                s.push_str(&format!("[[t]]\nx={}\n", k));
            }
            s.push_str(["[[t]]\nx=1\nx=2", "[t]\nx=1", "[t.u]\nx=1", "[[t.u]]\nx=1\n[[t.u]]\nx=2"][choice(4)]);
        }
        13 => {
            let d = some(n);
            for k in 0..n {
                s.push_str(&format!("[[t{}]]\n", k));
            }
            s.push_str(&format!("[t{}.u]\nx=", d));
            digit(s);
        }
        14 => {
            let d = some(n);
            for k in 0..n {
                s.push_str(&format!("[t.u{}]\nx={}\n", k, k));
            }
            s.push_str(&format!("[t.u{}]\nx=1", d));
        }
        15 => {
            s.push_str("a=");
            rep(s, n, "[");
            push(s, 1, &set_of("1 ]"));
            rep(s, n, "]");
            s.push_str("\nb=1");
        }
        16 => {
            s.push_str("a=");
            rep(s, n, "{x=");
            digit(s);
            rep(s, n, "}");
            s.push_str("\nb=1");
        }
        17 => {
            s.push_str("[a");
            rep(s, n - 2, ".a");
            s.push('.');
            letter(s);
            s.push_str("]\nx=1\n[a");
            rep(s, n / 2, ".a");
            s.push('.');
            letter(s);
            s.push_str("]\nx=1\n");
        }
        18 => {
            let o = choice(2) == 1;
            for k in 0..n {
                s.push_str(if o { "[[a" } else { "[a" });
                rep(s, k, ".a");
                s.push_str(if o { "]]\n" } else { "]\n" });
            }
            letter(s);
            s.push_str("=1\n");
        }
        19 => {
            rep(s, n, "a=1\n");
            letter(s);
            s.push_str("=2");
        }
        20 => {
            let c = choice(3);
            rep(s, n, ["[t]\n", "[t.u]\nx=1\n", "[\"t\"]\nx=1\n"][c]);
            s.push_str("[t]\nx=2");
        }
        21 => {
            let c = choice(3);
            for k in 0..n {
                s.push_str(&format!("k{}={}\n", k, ["[1,'x']", "2001-02-30", "[[1],2,{x=1,x=2}]"][c]));
            }
        }
        22 => {
            rep(s, n, "[[a]]\n[[a.b]]\nx=1\n[[a.b]]\n");
            letter(s);
            s.push_str("=1\n");
        }
        23 => {
            s.push_str("a=");
            rep(s, n, "{x=[");
            digit(s);
            rep(s, n, "]}");
        }
        24 => {
            let c = choice(2);
            let b = [" ", "\t"][c];
            rep(s, n, b);
            s.push('a');
            rep(s, n, b);
            s.push('=');
            rep(s, n, b);
            digit(s);
            rep(s, n, b);
            s.push_str("# c\n");
            rep(s, n, b);
            s.push('[');
            rep(s, n, b);
            s.push('t');
            rep(s, n, b);
            s.push('.');
            rep(s, n, b);
            s.push('u');
            rep(s, n, b);
            s.push(']');
            rep(s, n, b);
        }
        25 => {
            let c = choice(3);
            let b = ["\n", "\r\n", " # c,]\n"][c];
            s.push_str("a=[");
            rep(s, n, b);
            s.push('1');
            s.push_str(", ");
            rep(s, n, b);
            digit(s);
            s.push(' ');
            s.push_str(["]", "\n]", ",]"][choice(3)]);
        }
        26 => {
            s.push_str("a=[");
            rep(s, n, "[1,{x='y'}],");
            s.push_str("[");
            digit(s);
            s.push_str("]]");
        }
        27 => {
            rep(s, n, "[[a]]\n[a.b]\nx=1\n");
            s.push_str(["[a.b]", "[a.b.c]\ny=1", "[[a.c]]", "[a.c]\nx=1"][choice(4)]);
        }
        28 => {
            s.push_str("a=2000-01-01T10:10:10.");
            rep(s, n - 1, "1");
            digit(s);
            s.push_str("Z\nb=2000-01-0");
            digit(s);
        }
        29 => {
            s.push_str("a=1 #");
            rep(s, n, "c\u{20ac}");
            push(s, 1, &set_range(0, 127));
            s.push_str("\n#");
            rep(s, n, "=");
            push(s, 1, &set_range(0, 127));
        }
        30 => {
            s.push_str("a=\"");
            rep(s, n, "\\n");
            s.push_str("\\u00e");
            digit(s);
            s.push_str("\"\nb=\"\"\"");
            rep(s, n, "\\\\");
            push(s, 1, &set_range(0, 127));
            s.push_str("\"\"\"");
        }
        31 => {
            s.push_str("a=");
            rep(s, n, "[1,");
            s.push_str("[1,'x']");
            rep(s, n, "]");
        }
        32 => {
            for k in 0..n {
                s.push_str(&format!("[a.b{}.c]\nx={}\n", k, k));
            }
            s.push_str("[a]\ny=1\n");
        }
        33 => {
            s.push_str("a={x=[");
            rep(s, n, "2001-02-03,");
            s.push_str("2001-02-3");
            digit(s);
            s.push_str("],y=[");
            rep(s, n, "1,");
            s.push_str(["1", "1.5", "'x'", "[]"][choice(4)]);
            s.push_str("]}");
        }
        _ => {
            rep(s, n, "[[a]]\nx={y=[1,2]}\n");
            s.push_str("[[a.b]]\nx={y=[");
            digit(s);
            s.push_str("]}\n[[a.b.c]]");
        }
    }
    if kind >= 100 {
        errors_here(s);
    }
}
/// the sizes of the documents, by kind of size
pub const N: [u64; 12] = [9, 10, 11, 12, 17, 33, 65, 100, 129, 257, 300, 20];
/// kind + 100: errors follow
harness!(b_doc, |kind, n, w, k| {
    let mut s = String::new();
    big(&mut s, kind, N[n as usize]);
    compare(&s, w as u32, k as u32);
});
/// every lookup and one change
harness!(b_use, |kind, n, c, d| {
    let mut s = String::new();
    big(&mut s, kind, N[n as usize]);
    crate::doc::exercise(&s);
});
/// one of the first, last, middle entries is set to value v
harness!(b_set, |kind, n, v, w| {
    let mut s = String::new();
    big(&mut s, kind, N[n as usize]);
    observe(1, &s);
    let d = crate::refm::read(&s);
    if d.end != s.len() {
        return;
    }
    let m = crate::refm::Model::new(&d);
    let (mut p, _) = parse(&s);
    let l = m.ents.len();
    if l < 4 {
        return;
    }
    let key = m.ents[[0, 1, l / 2, l - 2, l - 1][choice(5)]].key.clone();
    let v = if v < 8 { small(v as usize) } else { large(v - 8) };
    if change(&s, &m, &mut p, &key, v, w as u32) && w as u32 & S_COHERENT != 0 {
        coherent(&m, &p, &format!("{}", p));
    }
});
/// values with many parts, some of them free
fn large<'a>(k: u64) -> Value<'a> {
    let int = |s: String| Value::Integer(s.into());
    let mut t = String::new();
    digit(&mut t);
    match k {
        0 => Value::Array(Rc::new((0..130).map(|i| int(format!("{}", i))).chain(vec![int(t)].into_iter()).collect())),
        1 => Value::InlineTable(Rc::new((0..130).map(|i| (format!("k{}", i).into(), int(format!("{}{}", i, t)))).collect())),
        2 => {
            let mut v = int(t);
            for _ in 0..24 {
                v = Value::Array(Rc::new(vec![v]));
            }
            v
        }
        3 => {
            let mut v = int(t);
            for _ in 0..24 {
                v = Value::InlineTable(Rc::new(vec![("x".into(), v)]));
            }
            v
        }
        4 => {
            let mut s = "xyz ".repeat(80);
            s.push_str(&t);
            push(&mut s, 1, &set_range(0, 127));
            Value::String(s.into(), StrType::MLBasic)
        }
        _ => {
            let mut s = "12".repeat(70);
            s.push_str(&t);
            int(s)
        }
    }
}
/// every key reached through the listed children is there, no other
harness!(b_tree, |kind, n, c, d| {
    let mut s = String::new();
    big(&mut s, kind, N[n as usize]);
    crate::lay::walk(&s);
});
/// cut off: followed by something that is no TOML
harness!(b_rest, |kind, n, w, d| {
    let mut s = String::new();
    big(&mut s, kind, N[n as usize]);
    if !s.ends_with('\n') {
        s.push('\n');
    }
    s.push_str(["?", "q=[1,\nx=2", "q={x=1\n[u]", "[q\nx=1", "[[q]\nx=1", "q=[1,'x'],\nr=1", "q=\"\\z\"\nr=1"][choice(7)]);
    push(&mut s, 1, &set_range(0, 127));
    compare(&s, w as u32, 15);
});
/// a parser that has read a large document, and then a small one, and the reverse
harness!(b_again, |kind, n, w, d| {
    let (mut a, mut b) = (String::new(), String::new());
    big(&mut a, kind, N[n as usize]);
    crate::tab::line(&mut b, choice(9));
    if d == 1 {
        std::mem::swap(&mut a, &mut b);
    }
    observe(1, &a);
    observe(2, &b);
    let (p, _) = parse(&a);
    let (p, r) = p.parse(&b);
    compare_with(&b, &p, &r, w as u32, 15);
});
/// keys with any number of three digits looked up: 140, 141 found exactly if the document has it
harness!(b_key, |kind, n, c, d| {
    let mut s = String::new();
    big(&mut s, kind, N[n as usize]);
    observe(1, &s);
    let (p, _) = parse(&s);
    let doc = crate::refm::read(&s);
    if doc.end != s.len() {
        return;
    }
    let m = crate::refm::Model::new(&doc);
    let (a, b) = [("a[", "]"), ("a[", "][0]"), ("a[", "].x"), ("t[", "].x"), ("a.k", ""), ("t", ".x"), ("a.b", ".c.x")][choice(7)];
    let mut k = a.to_string();
    push(&mut k, 1 + c as usize, &set_range(b'0', b'9'));
    k.push_str(b);
    observe(3, &k);
    let e = m.find(&k);
    let want = match e {
        Some(i) => m.ents[i].val.is_some(),
        None => false,
    };
    check(p.get_value(k.clone()).is_some() == want, 140);
    check(p.get_children(k.clone()).is_some() == e.is_some(), 141);
});
