//! Documents near a given one: something put in, left out, exchanged at any place.
use crate::cmp::*;
use crate::sym::*;

pub const B: &'static [&'static str] = &[
    // dates and times
    "a=2001-02-03T04:05:06.70-08:09\nb=1",
    "a=2000-02-29T23:59:59+00:00#c",
    "a=1987-07-05T17:45:00Z\n[t]",
    "a=[2001-12-31, 2001-01-01T00:00:00.5]",
    // 4: numbers, booleans
    "a=-1_230.4_5e+6_7 # c\nb=+98",
    "a=10\nb=0\nc=0.1\nd=1e5\ne=-2E-3",
    "a=true\nb = false\nc=[true,false]",
    // 7: strings
    "a=\"x\\n\\u00e9\\U0001F600\\\"y\" # c",
    "a='x\"\\y'\nb=''\nc=\"\"",
    "a=\"\"\"\nx\\\n  \"y\"\\t\"\"\"\nb='''\n'x'\n'''",
    // 10: keys
    "ab-C_9 = 1\n\"k \\\" k\" = 2\n\t\"\" = 3",
    "[a.\"b c\". d ]\nx=1\n[ \"e.f\" ]",
    "[[a]]\n[[ a . b ]]\r\nx=1\n[a.b.c]\n",
    // 13: arrays, inline tables
    "a=[1,2, 3 ] # c\nb=[]",
    "a = [ [1] , # c\n [ 'x',\"y\" ],\n]\r\nb=1",
    "a={x=1,y=[2,3]}#c\nb={}",
    "a = { x = {y=1} , \"z z\" = 'v' } \n c=1",
    "a=[{x=1},{x=2,y=[1.5]}]",
    // 18: layout
    "# c\n\n  # d\r\n a=1\n\t\n#\nb=2\r\n\r\n",
    "a=1\n[t] # c\nb=2\n[[u]]#d\n\n c=3\n[u.v]\t\nd=4 ",
    // 20: names again, errors
    "a=1\na=2\n[b]\nc=1\n[b]\nd=1\n",
    "[[a]]\nx=1\n[[a]]\nx=2\n[a]\n[a.b]\ny=[1,'x']\n[a.b]\n",
    "[a.b]\nc=1\n[a]\nb=2\n[a.b.c]\n",
    "ab=1\n[a]\nb=1\n[ab]\n[a.b]\n\"a\"=1",
    "a={b=1,c={b=2}}\n[a]\nb=3\n[a.b]",
    "a=[{b=1},{b=[2]}]\n[[a]]\nb=1\n[a.b]\nc=1",
];
/// document t changed: 0 k free bytes put in, 1 k bytes left out, 2 k bytes exchanged, 3 k bytes put in that
/// matter somewhere, 4 a byte twice, 5 two neighbours the other way round, 6 one left out and one put in
pub fn edit(t: usize, op: u64, k: usize) -> Option<String> {
    edited(B[t], op, k)
}
pub fn edited(b: &str, op: u64, k: usize) -> Option<String> {
    let mut o = b.as_bytes().to_vec();
    let n = o.len();
    let any = set_range(0, 127);
    let some = set_of(" \t\n\r\"'#,.=[]{}+-:_\\0129aeEfTtuZ");
    let far = match op {
        0 | 3 => n + 1,
        5 => n - 1,
        4 | 6 => n,
        _ => n + 1 - k,
    };
    let i = choice(far as u8);
    match op {
        0 | 3 => {
            let s = if op == 0 { any } else { some };
            for j in 0..k {
                o.insert(i + j, byte(&s));
            }
        }
        1 => {
            o.drain(i..i + k);
        }
        2 => {
            for j in 0..k {
                o[i + j] = byte(&any);
            }
        }
        4 => {
            for _ in 0..k {
                let c = o[i];
                o.insert(i, c);
            }
        }
        5 => o.swap(i, i + 1),
        _ => {
            o.remove(i);
            let j = choice(n as u8);
            o.insert(j, byte(&some));
        }
    }
    String::from_utf8(o).ok()
}
harness!(e_doc, |t, op, k, w| {
    if let Some(s) = edit(t as usize, op, k as usize) {
        compare(&s, w as u32 & 0xff, (w >> 8) as u32);
    }
});
/// every lookup and one change
harness!(e_use, |t, op, k, d| {
    if let Some(s) = edit(t as usize, op, k as usize) {
        crate::doc::exercise(&s);
    }
});
/// every key reached through the children
harness!(e_tree, |t, op, k, d| {
    if let Some(s) = edit(t as usize, op, k as usize) {
        crate::lay::walk(&s);
    }
});
/// texts near a date and time
harness!(e_date, |t, op, k, d| {
    let b = ["2001-02-03T04:05:06.70-08:09", "2000-02-29T23:59:59+00:00", "1987-07-05T17:45:00Z", "2001-12-31"][t as usize];
    if let Some(s) = edited(b, op, k as usize) {
        crate::ctor::whole_text(&s);
    }
});
/// the first, the last or one in the middle of the entries is set to value v
harness!(e_set, |t, op, v, w| {
    use crate::set::*;
    let s = match edit(t as usize, op, 1) {
        Some(s) => s,
        None => return,
    };
    let d = crate::refm::read(&s);
    if d.end != s.len() {
        return;
    }
    observe(1, &s);
    let m = crate::refm::Model::new(&d);
    let (mut p, _) = parse(&s);
    let l = m.ents.len();
    let key = m.ents[choice(l as u8)].key.clone();
    if change(&s, &m, &mut p, &key, small(v as usize), w as u32) && w as u32 & S_COHERENT != 0 {
        coherent(&m, &p, &format!("{}", p));
    }
});
