use crate::cmp::*;
use crate::sym::*;

pub fn name(s: &mut String) {
    push(s, 1, &set_range(b'a', b'z'));
}
/// one line of kind k, names free
pub fn line(s: &mut String, k: usize) {
    let (open, n, tail) = match k {
        0 => ("[", 1, "]"),
        1 => ("[[", 1, "]]"),
        2 => ("", 1, "=1"),
        3 => ("[", 2, "]"),
        4 => ("[[", 2, "]]"),
        5 => ("", 1, "=[1]"),
        6 => ("", 1, "={z=1}"),
        7 => ("[", 3, "]"),
        _ => ("[[", 3, "]]"),
    };
    s.push_str(open);
    for i in 0..n {
        if i > 0 {
            s.push('.');
        }
        name(s);
    }
    s.push_str(tail);
    s.push('\n');
}
/// n lines of the kinds in the mask k, all names free; w picks the aspects, e the error kinds
harness!(t_lines, |n, k, w, e| {
    let kinds: Vec<usize> = (0..9).filter(|i| k >> i & 1 == 1).collect();
    let mut s = String::new();
    for _ in 0..n {
        let c = choice(kinds.len() as u8);
        line(&mut s, kinds[c]);
    }
    compare(&s, w as u32, e as u32);
});
/// a name of one of the forms in the mask f
fn named(s: &mut String, f: u64) {
    let forms: Vec<usize> = (0..7).filter(|i| f >> i & 1 == 1).collect();
    let c = forms[choice(forms.len() as u8)];
    if c >= 2 && c < 6 {
        s.push('"');
    }
    name(s);
    match c {
        1 => name(s),
        2 => s.push('"'),
        3 => {
            s.push('.');
            name(s);
            s.push('"');
        }
        4 => s.push_str("[0]\""),
        5 => s.push_str("\\\"\""),
        6 => {
            s.push('-');
            push(s, 1, &set_range(b'0', b'9'));
        }
        _ => {}
    }
}
const SHAPES: [&'static str; 12] = [
    "[@]", "[[@]]", "@=1", "[@.@]", "[[@.@]]", "@={@=1}", "@=[{@=1}]", "@={@={@=1}}", "[@.@.@]", "@=[1,[2]]", "@={@=1,@=2}", "@=2001-02-30",
];
/// n lines of the shapes in the mask k, the names of the forms in the mask f
pub fn lines(n: u64, k: u64, f: u64) -> String {
    let kinds: Vec<usize> = (0..12).filter(|i| k >> i & 1 == 1).collect();
    let mut s = String::new();
    for _ in 0..n {
        let c = kinds[choice(kinds.len() as u8)];
        for b in SHAPES[c].chars() {
            if b == '@' {
                named(&mut s, f);
            } else {
                s.push(b);
            }
        }
        s.push('\n');
    }
    s
}
/// n lines of the shapes in the mask k, the names of the forms in the mask e >> 4; w picks the aspects, e the
/// error kinds
harness!(t_names, |n, k, w, e| {
    compare(&lines(n, k, e >> 4), w as u32, e as u32 & 15);
});
