//! Documents built from templates with free parts, and from free shapes.
use crate::cmp::*;
use crate::sym::*;

/// Appends a template: the control codes below are free parts, everything else is literal.
pub fn fill(s: &mut String, t: &str) {
    for c in t.bytes() {
        match c {
            1 => push(s, 1, &set_range(0, 127)),
            2 => push(s, 1, &set_range(b'0', b'9')),
            3 => push(s, 1, &set_of("0123456789_.eE+-")),
            4 => push(s, 1, &set_range(b'a', b'z')),
            5 => {
                let k = 1 + choice(4);
                push_char(s, k)
            }
            6 => push(s, 1, &set_or(set_range(b'0', b'9'), set_of("abcdefABCDEFgGzZ_-"))),
            7 => scalar(s),
            8 => s.push_str(["", " ", "\t ", "  "][choice(4)]),
            0x0b => s.push_str(["\n", "\r\n"][choice(2)]),
            0x0c => s.push_str(["", "#", " # x", "#\u{e9}=[\"\t"][choice(4)]),
            0x0e => s.push_str(["", " ", "\n", "#c\n", " \r\n\t", "\n# [\n\n"][choice(6)]),
            0x0f => key(s),
            0x10 => push(s, 1, &set_of("0123456789:-.TZ+ a")),
            0x11 => s.push_str(["\"", "'", "\"\"\"", "'''"][choice(4)]),
            0x12 => push(s, 1, &set_of("0129")),
            0x13 => value(s, 1, 1),
            0x14 => value(s, 1, 2),
            0x15 => value(s, 2, 2),
            0x16 => push_char(s, 2),
            0x17 => push_char(s, 3),
            0x18 => push_char(s, 4),
            0x19 => s.push_str(["", ",", " ,", ", ", " "][choice(5)]),
            0x1a => push(s, 1, &set_of("\"'\\\n\r\tntuUb/ a#")),
            0x1b => push(s, 1, &set_of("abc")),
            0x1c => value(s, 2, 1),
            0x1d => push(s, 1, &set_of("[]{}=,.\n\" 1a#")),
            // up to four blanks, blank lines, comments in a row
            0x1e => {
                for _ in 0..choice(5) {
                    s.push_str([" ", "\n", "#x\n"][choice(3)]);
                }
            }
            // a run of them
            0x1f => {
                let k = choice(4);
                for _ in 0..[5, 9, 17][choice(3)] {
                    s.push_str([" ", "\n", "#x\n", " # \u{e9}\r\n"][k]);
                }
            }
            // nothing special
            0x7f => push(s, 1, &set_or(set_or(set_range(b'(', b'['), set_range(b']', b'~')), set_of(" !$%&"))),
            _ => unsafe { s.as_mut_vec().push(c) },
        }
    }
}
/// a key: bare or quoted, one free letter
pub fn key(s: &mut String) {
    let q = choice(2) == 1;
    if q {
        s.push('"');
    }
    push(s, 1, &set_range(b'a', b'z'));
    if q {
        s.push('"');
    }
}
pub const SCALARS: [&'static str; 8] = ["1", "2.5", "true", "\"s\"", "'t'", "2001-01-31", "1e3", "\"\"\"u\n\"\"\""];
pub fn scalar(s: &mut String) {
    s.push_str(SCALARS[choice(8)]);
}
/// every value of at most `depth` levels with at most `width` entries per array and inline table; the
/// keys of inline tables are free letters
pub fn value(s: &mut String, depth: usize, width: usize) {
    let k = choice(if depth == 0 { 3 } else { 5 });
    match k {
        0 => s.push_str("1"),
        1 => s.push_str("'t'"),
        2 => s.push_str("2.5"),
        3 => {
            s.push('[');
            let n = choice(width as u8 + 1);
            for i in 0..n {
                if i > 0 {
                    s.push(',');
                }
                value(s, depth - 1, width);
            }
            s.push(']');
        }
        _ => {
            s.push('{');
            let n = choice(width as u8 + 1);
            for i in 0..n {
                if i > 0 {
                    s.push(',');
                }
                push(s, 1, &set_range(b'a', b'z'));
                s.push('=');
                value(s, depth - 1, width);
            }
            s.push('}');
        }
    }
}

/// 0..: one value after `v=`; the templates are grouped by what they exercise
pub const T: &'static [&'static str] = &[
    // 0: integers and floats
    "v=\x03\x03\x03\x03",
    "v=1\x03\x03\x03\x03",
    "v=+\x03\x03\x03",
    "v=-\x03\x03\x03",
    "v=0\x03\x03\x03",
    "v=1.\x03\x03\x03\x03",
    "v=1e\x03\x03\x03\x03",
    "v=1.5e\x03\x03\x03",
    "v=12_\x03\x03\x03",
    "v=9\x03_0\x03.\x03\x03",
    // 10: dates and times
    "v=\x02\x02\x02\x02-\x02\x02-\x02\x02",
    "v=2000-02-\x02\x02",
    "v=1900-02-\x02\x02",
    "v=20\x02\x02-02-29",
    "v=\x02\x0200-02-29",
    "v=2001-\x02\x02-3\x02",
    "v=2001-01-01T\x02\x02:\x02\x02:\x02\x02",
    "v=2001-01-01T10:10:10\x10\x10\x10",
    "v=2001-01-01T10:10:10.5\x10\x10",
    "v=2001-01-01T10:10:10+\x02\x02:\x02\x02",
    // 20
    "v=2001-01-01T10:10:10.25-\x02\x02:\x02\x02",
    "v=2001-01-01\x10\x10\x10",
    "v=200\x10-0\x10-0\x10",
    "v=2001\x10\x10\x10\x10",
    "v=2001-01-01T1\x10:\x1010\x10\x10",
    "v=2001-01-01T10:10:10+0\x10\x100\x10",
    "v=2001-01-01T10:10:10.\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02Z",
    // 27: strings
    "v=\"\x01\x01\x01\"",
    "v='\x01\x01\x01'",
    "v=\"\"\"\x01\x01\x01\"\"\"",
    // 30
    "v='''\x01\x01\x01'''",
    "v=\"\x05\x05\"",
    "v='\x05\x05'",
    "v=\"\"\"\x05\x05\"\"\"",
    "v='''\x05\x05'''",
    "v=\"\\u\x06\x06\x06\x06\"",
    "v=\"\\U\x06\x06\x06\x06\x06\x06\x06\x06\"",
    "v=\"\"\"\\u\x06\x06\x06\x06\\\"\"\"\"",
    "v=\"\\\x01\x01\"",
    "v=\"\"\"\\\x01\x01\"\"\"",
    // 40
    "v=\"\"\"\x1a\x1a\x1a\x1a\"\"\"",
    "v='''\x1a\x1a\x1a\x1a'''",
    "v=\x11\x1a\x1a\x1a\x11",
    "v=\"\"\"\n\x1a\x1a\"\"\"\nw='''\r\n\x1a'''",
    // 44: booleans
    "v=t\x01ue",
    "v=\x01rue",
    "v=fals\x01",
    "v=true\x01",
    "v=false\x01\x01",
    "v=\x04\x04\x04\x04",
    // 50: arrays and inline tables
    "v=\x13",
    "v=\x14",
    "v=\x15",
    "v=[\x07,\x07]",
    "v=[\x07,\x07,\x07]",
    "v=[[\x07,\x07],[\x07]]",
    "v={\x0f=\x07,\x0f=\x07}",
    "v=[{\x0f=\x13},{\x0f=1}]",
    "v={a=[\x07,{\x0f=2}]}",
    "v=[1\x19\x0e2\x19\x0e]",
    // 60
    "v=[\x0e1\x0e,\x0e2\x0e]",
    "v={\x08a\x08=\x081\x08,\x08b=2\x08}",
    "v={a=1\x19b=2\x19}",
    "v=\x1d\x1d\x1d\x1d",
    "v=[1\x1d\x1d\x1d",
    "v={a=1\x1d\x1d\x1d",
    "v=[[1],\x1d\x1d]",
    "v=[[],\x13,[\x07]]",
    "v=[1,2,3,4,5,6,7,8,9,0,1,\x07]",
    "v=[\x1c,\x1c]",
    // 70: keys and headers
    "\x01\x01\x01=1",
    "\"\x01\x01\x01\"=1",
    "\"\x05\"=1",
    "\x05=1",
    "[\x01\x01]\nk=1",
    "[[\x01\x01]]\nk=1",
    "[a.\x01\x01]\nk=1",
    "[\"\x05\".\x0f]\nk=1",
    "[\x08\x0f\x08.\x08\x0f\x08]\nk=1",
    "[[\x08\x0f\x08.\x08\x0f\x08]]\nk=1",
    // 80
    "\x08\x0f\x08=\x081\x08\x0c\x0bb=2\x0c\x0b",
    "a=1\x01\x01b=2",
    "[a]\x01\x01\x01=2",
    "#\x05\n\x05",
    "a=1#\x05\nb=2",
    "a=1\n\x01\x01\x01\nb=2",
    "[\x0f]\n\x0f=\x07\n[[\x0f]]\n\x0f=\x07",
    "\x0f=\x07\n[\x0f.\x0f]\n\x0f=\x13",
    "[[\x0f]]\n\x0f=\x07\n[[\x0f]]\n\x0f=\x07",
    "[[a]]\n[a.\x0f]\n\x0f=1\n[[a]]\n[a.\x0f]\n\x0f=1",
    // 90: errors
    "\x04=1\n\x04=\x13\n\x04=3",
    "[a]\nx=1\n[\x04]\n\x04=\x14\n\x04=2001-02-3\x02",
    "a=[1,\x07]\n[b]\nc=[\x07,[1,\x07]]",
    "a=2001-13-01\nb=[2001-02-3\x02,1979-0\x02-01]\nc={d=1999-99-99}",
    "\n\x0ea=1\n\x0b\x04=2\x0b\x04=3",
    "a='''\x0b'''\n\x04=[\x0e1,\x0e2\x0e]\nb=1",
    "[\x04]\x0b\x0b[\x04]\x0bx={a=1,\x04=2}\x0b[\x04]",
    "a={\x04=1,\x04=[1,\x07]}\na=\x13",
    "[[\x04]]\n\x04=[1,\x07]\n[\x04]\n\x04=[1,\x07]\n\x04=1",
    "[x.y]\n\x04=1\n[x]\n\x04=\x13\n[x.\x04]\n[[x]]\nq=2001-00-01",
    // 100: blank lines and comments in a row
    "a=[\x1e1]\nb=2",
    "a=[1\x1e]\nb=2",
    "a=[1,\x1e2]\nb=2",
    "a=[1\x1e,2]\nb=2",
    "a=[\x1e]\nb=2",
    "a={x=1,\x1ey=2}\nb=2",
    "a={x=1,\x1e}\nb=2",
    "a={\x1ex=1}\nb=2",
    "\x1ea=2001-02-30\n",
    "[a]\n\x1eb=[1,'x']\n[a]",
    // 110
    "a=1\x1e\nb=2\n[[b]]",
    "a=[{x=1},\x1e{x=2}]\nb=2\nb=3",
    "a=[[1],\x1e[2],]\nb=2\nb=3",
    "a={x=[1,2],y={z=1,\x1ew=[3]}}\nb=2\nb=3",
    "a=[\x1f1,\x1f2]\nb=2001-02-30",
    "\x1fa=1\n\x1fa=2\n",
    "a={x=1,\x1fy=2}\n[a]\n\x1f[a]",
    "[a] \x1f[[a]]\nb=1",
    // 118: long texts
    "v=1\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02",
    "v=-1\x02\x02\x02_\x02\x02\x02_\x02\x02\x02.\x02\x02\x02\x02\x02\x02_\x02\x02e+\x02\x02_\x02\x02",
    // 120
    "v=1979-05-27T07:32:00.\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02-07:\x02\x02",
    "v=\"\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\"\nw=1",
    "v='\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f'\nw=1",
    "v=\"\"\"\x7f\x7f\x7f\x7f\x7f\n\x7f\x7f\x7f\x7f\x7f\\\n  \x7f\x7f\x7f\x7f\"\"\"\nw=1\nw=2",
    "v='''\x7f\x7f\x7f\x7f\x7f\n\x7f\x7f\x7f\x7f\x7f\\\r\n \x7f\x7f\x7f''\x7f'''\nw=1\nw=2",
    "v=\"\\u00\x06\x06\x7f\\t\x7f\\n\x7f\\\\\x7f\\U000\x06\x06\x06\x06\x06\"\nw=1",
    "\x04\x04\x04\x04\x04\x04\x04\x04\x04\x04\x04\x04\x04\x04-_9=1\nab=2",
    "\"\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\"=1\nab=2",
    "[\"\x7f\x7f.\x7f\x7f]\x7f\x7f\".\x04\x04\x04\x04\x04\x04\x04\x04]\nab=2\n[ab]",
    "#\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\na=1#\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f",
    // 130: many entries
    "a=[\x02,1,2,3,4,5,6,7,8,9,\x02,11,12,13]\nb=1",
    "a={a=1,b=2,c=3,d=4,e=5,f=6,g=7,h=8,i=9,j=10,k=11,\x04=12}\nb=1",
    "a=1\nb=2\nc=3\nd=4\ne=5\nf=6\ng=7\nh=8\ni=9\nj=10\nk=11\n\x04=12\n[\x04]",
    "[[a]]\nx=0\n[[a]]\nx=1\n[[a]]\nx=2\n[[a]]\nx=3\n[[a]]\nx=4\n[[a]]\nx=5\n[[a]]\nx=6\n[[a]]\nx=7\n[[a]]\nx=8\n[[a]]\nx=9\n[[a]]\nx=10\n[[a]]\nx=11\n[\x04.\x04]\ny=1",
    "[[t]]\n[[t.a]]\n[[t.a]]\n[[t.a]]\n[[t.a]]\n[[t.a]]\n[[t.a]]\n[[t.a]]\n[[t.a]]\n[[t.a]]\n[[t.a]]\n[[t.a]]\nx=10\n[t.a.\x04]\ny=1\n[[t]]\n[[t.\x04]]\nx=3",
    "a=[{x=1},{x=2},{x=3},{x=4},{x=5},{x=6},{x=7},{x=8},{x=9},{x=10},{x=11,\x04=12}]",
    "a=[[1],[2],[3],[4],[5],[6],[7],[8],[9],[10],[11,12,13,14,15,16,17,18,19,20,21,22],[\x02]]",
    "[a]\nx=1\n[b]\nx=1\n[c]\nx=1\n[d]\nx=1\n[e]\nx=1\n[f]\nx=1\n[\x04]\nx=1\n[\x04.x]\ny=1",
    // 138: deep nesting
    "a=[[[[[\x02],[1]]],[[[2]]]]]\nb=1",
    "a={b={c={d={e=\x02,\x04=1},\x04=2}}}\nb=1",
    // 140
    "a=[{b=[{c=[{d=\x02},{\x04=1}]}]}]\nb=1",
    "[a.b.c.d.\x04]\nx=1\n[a.b.c.\x04]\ny=1\n[a.b.\x04]\nz=1",
    "[[a]]\n[[a.b]]\n[[a.b.c]]\n[[a.b.c.d]]\nk=1\n[[a.b.c.\x04]]\nk=2\n[[a.b.\x04]]\nk=3",
    "[[a.b.c.d]]\nk=1\n[[a.b.c.d]]\nk=2\n[a.b.\x04.\x04]\nk=3\n[a.b]\n\x04=1",
    "[a]\nb=1\n[c.d.e.f]\ng={h=[{i=1}]}\n[c.d]\n\x04={j=1}\n[c.\x04.e.g]\nk=1",
    // 145: line ends, characters
    "a=1\x0b[b]\x0bc=[1,\x0b2\x0b]\x0b#x\x0b\x0bc='''\x0b'''\x0b",
    "\x18a=1",
    "a='\x17\x16'#\x18\n\"\x16\"=\"\x17\"\n[\"\x17\".\x04]\nb=1",
    "a=\"\"\"\x16\r\n\x17\"\"\"\r\n[[\"\x16\"]]\r\nb={\"\x16\"=1}\r\n",
    "a=1\n\r\n\r\n\tb=2\n \n\t\n[c]\r\n\n\n\x04=1\n\n",
];
/// document t of the table: w picks the aspects
/// (and k the error kinds, 0 being all of them)
harness!(t_doc, |t, w, k, d| {
    let mut s = String::new();
    fill(&mut s, T[t as usize]);
    compare(&s, w as u32, if k == 0 { 15 } else { k as u32 });
});
/// a parser that has read document i of set.rs (and was changed since) reads template t
harness!(t_again, |i, t, w, d| {
    let first = crate::set::D[i as usize];
    let mut s = String::new();
    fill(&mut s, T[t as usize]);
    observe(1, &s);
    let b: &str = unsafe { &*(&s[..] as *const str) };
    let (mut p, r0) = parse(first);
    p.set_value(["a", "t.a", "v[0].c", "b"][choice(4)], crate::set::small(5));
    let n = errors(&r0).len();
    let (p, r) = p.parse(b);
    compare_with(b, &p, &r, w as u32, 15);
    // what was said about the first document stays
    check(errors(&r0).len() == n, 160);
});
/// a parser that has read any k ASCII bytes reads any n ASCII bytes
harness!(h_again, |k, n, w, d| {
    let (mut a, mut s) = (String::new(), String::new());
    push(&mut a, k as usize, &set_range(0, 127));
    push(&mut s, n as usize, &set_range(0, 127));
    observe(1, &a);
    observe(2, &s);
    let (p, _) = parse(&a);
    let (p, r) = p.parse(&s);
    compare_with(&s, &p, &r, w as u32, 15);
});
/// a parser that has read k lines (kinds in the mask m) reads n lines
harness!(l_again, |k, n, m, w| {
    let kinds: Vec<usize> = (0..9).filter(|i| m >> i & 1 == 1).collect();
    let (mut a, mut s) = (String::new(), String::new());
    for i in 0..k + n {
        let c = choice(kinds.len() as u8);
        crate::tab::line(if i < k { &mut a } else { &mut s }, kinds[c]);
    }
    observe(1, &a);
    observe(2, &s);
    let (p, _) = parse(&a);
    let (p, r) = p.parse(&s);
    compare_with(&s, &p, &r, w as u32, 15);
});
const KINDS: [&'static str; 9] = ["1", "2.5", "true", "'s'", "2001-01-01", "[1]", "{x=1}", "\"s\"", "[]"];
/// where a value may stand: kept, nested, thrown away, next to other errors
const PLACES: [&'static str; 12] = [
    "a=@",
    "[t]\na=@\nb=1",
    "a={x=@,y=1}",
    "a=[@,[1]]",
    "[[t]]\n[[t]]\na=@",
    "a=@\nb=[1,'x']",
    "b=[1,'x']\na=@\nc=[[1,'x']]",
    "a=1\na=@",
    "[x]\n[x]\na=@",
    "a=[[[@]]]",
    "a=[{x=@},{x=1}]",
    "a={x=1,x=@}",
];
fn place(s: &mut String, i: usize, v: &str) {
    for c in PLACES[i].chars() {
        if c == '@' {
            s.push_str(v);
        } else {
            s.push(c);
        }
    }
}
/// an array of n entries of any types in place i
harness!(t_mixed, |i, n, c, d| {
    let mut v = "[".to_string();
    for k in 0..n {
        if k > 0 {
            v.push(',');
        }
        v.push_str(KINDS[choice(9)]);
    }
    v.push(']');
    let mut s = String::new();
    place(&mut s, i as usize, &v);
    compare(&s, ERRORS, 4);
});
/// dates with every digit free in place i (from 12 on: two of them)
harness!(t_date, |i, b, c, d| {
    let mut v = String::new();
    fill(&mut v, "\x02\x02\x02\x02-\x02\x02-\x02\x02");
    if i >= 12 {
        let w = v;
        v = "[".to_string();
        v.push_str(&w);
        v.push_str(",2001-");
        fill(&mut v, "\x02\x02-\x02\x02");
        v.push(']');
    }
    let mut s = String::new();
    place(&mut s, i as usize % 12, &v);
    compare(&s, ERRORS, 8);
});
/// a parser reads n documents of one line each (kinds in the mask m), one after the other; after each there is a change
harness!(l_chain, |n, m, w, d| {
    let kinds: Vec<usize> = (0..9).filter(|i| m >> i & 1 == 1).collect();
    let mut docs = Vec::new();
    for _ in 0..n {
        let mut s = String::new();
        crate::tab::line(&mut s, kinds[choice(kinds.len() as u8)]);
        docs.push(s);
    }
    let (mut p, mut r) = parse("");
    for s in docs.iter() {
        observe(1, s);
        if d == 1 {
            p.set_value("a", crate::set::small(5));
        }
        let x = p.parse(s);
        p = x.0;
        r = x.1;
    }
    compare_with(&docs[docs.len() - 1], &p, &r, w as u32, 15);
});
