
//! The command line tool: the whole program is run, with its arguments and files in memory.
use crate::cmp::*;
use crate::refm::*;
use crate::sym::*;
use tomllib::types::*;

pub struct Run {
    pub code: i32,
    pub out: String,
    /// in.toml and out.toml afterwards
    pub input: Option<String>,
    pub output: Option<String>,
}

#[cfg(feature = "ir")]
pub fn kit(args: &[&str], stdin: &str, input: &str) -> Run {
    use crate::libc_model::*;
    extern "C" {
        fn __sym_args(argc: i32, argv: *const *const u8, envp: *const *const u8);
        fn __sym_catch(f: extern "C" fn() -> i32) -> i32;
    }
    extern "C" fn go() -> i32 {
        glue::run_main();
        0
    }
    unsafe {
        (*(&raw mut FS)).push((b"in.toml".to_vec(), input.as_bytes().to_vec()));
        (*(&raw mut DIR)).extend_from_slice(b"dir");
        (*(&raw mut STDIN)).0.extend_from_slice(stdin.as_bytes());
        let mut v: Vec<Vec<u8>> = vec![b"tomlkit\0".to_vec()];
        for a in args {
            let mut x = a.as_bytes().to_vec();
            x.push(0);
            v.push(x);
        }
        let mut p: Vec<*const u8> = v.iter().map(|x| x.as_ptr()).collect();
        p.push(std::ptr::null());
        __sym_args(v.len() as i32, p.as_ptr(), std::ptr::null());
        let code = __sym_catch(go) & 255;
        let get = |n: &[u8]| (*(&raw const FS)).iter().find(|f| f.0 == n).map(|f| String::from_utf8_unchecked(f.1.clone()));
        Run { code, out: String::from_utf8_unchecked((*(&raw const OUT)).clone()), input: get(b"in.toml"), output: get(b"out.toml") }
    }
}
#[cfg(not(feature = "ir"))]
pub fn kit(args: &[&str], stdin: &str, input: &str) -> Run {
    use std::io::Write;
    use std::process::{Command, Stdio};
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let d = std::env::temp_dir().join(format!("tomlkit-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    std::fs::create_dir(&d).unwrap();
    std::fs::create_dir(d.join("dir")).unwrap();
    std::fs::write(d.join("in.toml"), input).unwrap();
    let bin = std::env::var("TOMLKIT").expect("TOMLKIT");
    let mut c = Command::new(bin).args(args).current_dir(&d).env_remove("RUST_LOG").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    c.stdin.take().unwrap().write_all(stdin.as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap();
    let r = Run {
        code: o.status.code().unwrap_or(101),
        out: String::from_utf8(o.stdout).unwrap(),
        input: std::fs::read_to_string(d.join("in.toml")).ok(),
        output: std::fs::read_to_string(d.join("out.toml")).ok(),
    };
    for f in ["in.toml", "out.toml"] {
        let _ = std::fs::remove_file(d.join(f));
    }
    let _ = std::fs::remove_dir(d.join("dir"));
    let _ = std::fs::remove_dir(&d);
    if r.code == 101 {
        panic!("{}", String::from_utf8_lossy(&o.stderr));
    }
    r
}


/// documents, in the language of gen::fill
const X: [&'static str; 11] = [
    // 0
    "\x1b=\x07\n[t]\n\x1b='\x7f\x7f'\n",
    "a=[\x02,\x02]\nb={x=2.5,y=[1]}\n[[c]]\n[[c]]\nd=1\n",
    "[\x1b.\x1b]\n\x1b=1\n[e]\n",
    "[[\x1b]]\n\x1b=[]\n[[\x1b]]\n\x1b={}\n",
    "\"a b\"=1\n[\"p.q\"]\nr=\"\x7f\x05\"\n",
    // 5: errors and texts that are read in part
    "\x1b=1\n\x1b=2\n",
    "a=1\nb=\x01\x01\n",
    "a=1\n[\x01\x01\n",
    "a=[1,'x']\n",
    "a=1 # c\n\n  b = 2 \n[t] #\n x = 2001-01-01T10:10:10\n",
    // 10
    "a='\x02'\n[t]\n",
];
/// no comma, no line end, no NUL: characters of an entry of a list
fn plain() -> Set {
    let s = set_range(0, 127);
    let n = set_of(",\n\r\0");
    [s[0] & !n[0], s[1] & !n[1], 0, 0]
}
fn list(v: &[String]) -> String {
    let mut o = String::new();
    for i in 0..v.len() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&v[i]);
    }
    o
}
/// n keys: those of the document, one that is not there, a free one
fn keys(m: &Model, n: usize, free: usize) -> Vec<String> {
    let mut v = Vec::new();
    let mut all: Vec<&str> = Vec::new();
    for e in m.ents.iter() {
        if e.key != "" {
            all.push(&e.key);
        }
    }
    for _ in 0..n {
        let c = choice(all.len() as u8 + 1 + (free > 0) as u8);
        v.push(if c < all.len() {
            all[c].to_string()
        } else if c == all.len() {
            "zz".to_string()
        } else {
            let mut s = String::new();
            push(&mut s, free, &plain());
            s
        });
    }
    v
}
struct Opt {
    sep: String,
    tv: Vec<String>,
    fv: Vec<String>,
    begin: String,
    end: String,
    asep: String,
    len: bool,
    strip: bool,
}
fn word(n: usize, set: &Set) -> String {
    let mut s = String::new();
    push(&mut s, n, set);
    s
}
/// the options of kind k for n keys
fn options(k: u64, n: usize, a: &mut Vec<String>) -> Opt {
    let mut o = Opt { sep: ", ".into(), tv: vec!["true".into()], fv: vec!["false".into()], begin: "[".into(), end: "]".into(), asep: ", ".into(), len: false, strip: false };
    let any = set_range(1, 127);
    let mut put = |n: &str, v: &str| {
        a.push(n.into());
        a.push(v.into());
    };
    match k {
        1 => {
            o.sep = word(choice(3), &any);
            put(["-p", "--separator"][choice(2)], &o.sep);
        }
        2 => {
            o.tv = vec![word(1, &plain())];
            put("--set-true", &o.tv[0]);
        }
        3 => {
            o.fv = vec![word(1, &plain())];
            put("--set-false", &o.fv[0]);
        }
        4 => {
            o.tv = (0..n).map(|_| word(1, &plain())).collect();
            o.fv = (0..n).map(|_| word(1, &plain())).collect();
            put("--set-true", &list(&o.tv));
            put("--set-false", &list(&o.fv));
        }
        5 => {
            o.begin = word(choice(3), &any);
            o.end = word(choice(2), &any);
            put("--array-begin", &o.begin);
            put("--array-end", &o.end);
        }
        6 => {
            o.asep = word(choice(3), &any);
            put("--array-separator", &o.asep);
        }
        7 => {
            o.len = true;
            a.push("--array-length".into());
        }
        8 => {
            o.strip = true;
            a.push("--strip-quotes".into());
        }
        9 => {
            // lists of any length
            let c = choice(2);
            let v: Vec<String> = (0..choice(4)).map(|_| word(1, &plain())).collect();
            put(["--set-true", "--set-false"][c], &list(&v));
            *[&mut o.tv, &mut o.fv][c] = v;
        }
        10 => {
            o.len = true;
            o.asep = word(1, &any);
            a.push("--array-length".into());
            a.push("--array-separator".into());
            a.push(o.asep.clone());
            o.sep = "\n".into();
            a.push("-p".into());
            a.push(o.sep.clone());
            o.strip = true;
            a.push("--strip-quotes".into());
        }
        _ => {}
    }
    o
}
/// what is printed for the value of a key
fn shown(m: &Model, p: &tomllib::TOMLParser, k: &str, strip: bool) -> Option<String> {
    let e = &m.ents[m.find(k)?];
    let r = e.val?;
    Some(match *r {
        RV::Arr(..) | RV::Inl(..) => {
            let mut o = String::new();
            crate::set::render(&p.get_value(k)?, &mut o);
            o
        }
        _ => {
            let (a, b) = span(r);
            let t = &m.s[a..b];
            if strip && (t.starts_with('"') || t.starts_with('\'')) {
                let q = if t.starts_with("\"\"\"") || t.starts_with("\'\'\'") { 3 } else { 1 };
                let u = &t[q..t.len() - q];
                // quotes of the contents are another matter
                assume(!u.starts_with('"') && !u.starts_with('\'') && !u.ends_with('"') && !u.ends_with('\''));
                u.to_string()
            } else {
                t.to_string()
            }
        }
    })
}
fn kids(p: &tomllib::TOMLParser, k: &str, o: &Opt) -> Option<String> {
    match p.get_children(k)? {
        &Children::Count(ref n) => {
            if n.get() == 0 {
                None
            } else {
                Some(format!("{}", n.get()))
            }
        }
        &Children::Keys(ref v) => {
            let v = v.borrow();
            let mut t = String::new();
            if o.len {
                t.push_str(&format!("{}", v.len()));
                t.push_str(&o.asep);
            } else {
                t.push_str(&o.begin);
            }
            for i in 0..v.len() {
                if i > 0 {
                    t.push_str(&o.asep);
                }
                t.push_str(&v[i]);
            }
            if !o.len {
                t.push_str(&o.end);
            }
            Some(t)
        }
    }
}
/// the i-th of the values to print for true or false
fn pick(v: &[String], i: usize) -> Option<&String> {
    v.get(if v.len() > 1 { i } else { 0 })
}
/// what each query has to print: the text, or nothing if it has to fail
fn want(cmd: usize, keys: &[String], from: usize, m: &Model, p: &tomllib::TOMLParser, o: &Opt) -> Option<String> {
    let mut out = String::new();
    for i in 0..keys.len() {
        let k = &keys[i][..];
        if i > 0 {
            out.push_str(&o.sep);
        }
        let t = match cmd {
            0 => shown(m, p, k, o.strip)?,
            2 => kids(p, k, o)?,
            c => {
                let yes = match c {
                    1 => m.find(k).map_or(false, |e| m.ents[e].val.is_some()),
                    _ => match p.get_children(k) {
                        Some(&Children::Count(ref n)) => n.get() > 0,
                        Some(&Children::Keys(ref v)) => v.borrow().len() > 0,
                        None => false,
                    },
                };
                // a list of values has to be long enough for all keys
                pick(&o.tv, from + keys.len() - 1)?;
                pick(&o.fv, from + keys.len() - 1)?;
                pick(if yes { &o.tv } else { &o.fv }, from + i)?.clone()
            }
        };
        out.push_str(&t);
    }
    Some(out)
}
const NAMES: [[&'static str; 2]; 4] = [["-g", "--get-value"], ["--has-value", "--has-value"], ["-c", "--get-children"], ["--has-children", "--has-children"]];
/// document t, the queries in the mask c, n & 15 keys each (n >> 4 characters of a free one), options o
harness!(x_get, |t, c, n, o| {
    let mut s = String::new();
    crate::gen::fill(&mut s, X[t as usize]);
    observe(1, &s);
    let d = read(&s);
    let (p, r) = parse(&s);
    let whole = d.end == s.len();
    let m = Model::new(&d);
    let per = n as usize & 15;
    let mut args: Vec<String> = Vec::new();
    let cmds: Vec<usize> = (0..4).filter(|i| c >> i & 1 == 1).collect();
    let opt = options(o, per * cmds.iter().filter(|c| **c & 1 == 1).count(), &mut args);
    let mut asked: Vec<Vec<String>> = Vec::new();
    for c in cmds.iter() {
        let k = keys(&m, per, n as usize >> 4);
        args.push(NAMES[*c][if o == 0 { choice(2) } else { 0 }].into());
        args.push(list(&k));
        asked.push(k);
    }
    let stdin = if o == 0 && choice(2) == 1 {
        "in.toml\n"
    } else {
        args.push("-i".into());
        args.push("in.toml".into());
        ""
    };
    for a in args.iter() {
        observe(5, a);
    }
    let a: Vec<&str> = args.iter().map(|x| &x[..]).collect();
    let run = kit(&a, stdin, &s);
    observe(6, &run.out);
    check(run.input.map_or(false, |x| x == s) && run.output.is_none(), 200);
    match r {
        ParseResult::Full if whole && m.errs.is_empty() => {}
        _ => {
            check(run.out.starts_with("Error") && run.code != 0, 201);
            return;
        }
    }
    let mut exp = String::new();
    let mut from = 0;
    for i in 0..cmds.len() {
        if i > 0 {
            exp.push_str(&opt.sep);
        }
        match want(cmds[i], &asked[i], from, &m, &p, &opt) {
            Some(t) => exp.push_str(&t),
            None => {
                exp.push_str("Error");
                check(run.out.starts_with(&exp[..]) && run.out.len() > exp.len(), 202);
                return;
            }
        }
        if cmds[i] == 1 {
            from = asked[i].len();
        }
    }
    exp.push('\n');
    check(run.out == exp, 203);
    check(run.code == 0, 204);
});

/// the names of the types, and one that is none
const TYPES: [[&'static str; 2]; 9] = [
    ["basic-string", "bs"],
    ["ml-basic-string", "mbs"],
    ["literal-string", "ls"],
    ["ml-literal-string", "mls"],
    ["integer", "int"],
    ["float", "flt"],
    ["boolean", "bool"],
    ["datetime", "dt"],
    ["str", "date"],
];
fn made<'a>(t: usize, v: &'a str) -> Option<Value<'a>> {
    let r: Result<Value<'a>, TOMLError> = match t {
        0 => Value::basic_string(v),
        1 => Value::ml_basic_string(v),
        2 => Value::literal_string(v),
        3 => Value::ml_literal_string(v),
        4 => Value::int_from_str(v),
        5 => Value::float_from_str(v),
        6 => Value::bool_from_str(v),
        7 => Value::datetime_parse(v),
        _ => return None,
    };
    r.ok()
}
/// a text for the type t: shape k
fn given(t: usize, k: usize) -> String {
    let mut s = String::new();
    let dg = set_range(b'0', b'9');
    match t {
        0..=3 => match k {
            0 => push(&mut s, choice(3), &plain()),
            _ => push_char(&mut s, 2 + choice(3)),
        },
        4 | 5 => match k {
            0 => push(&mut s, 1 + choice(2), &set_of("019_+-.eE a")),
            _ => {
                s.push_str("1.5e");
                push(&mut s, 1, &set_of("019_+-.eE a"));
            }
        },
        6 => {
            s.push_str(["true", "false", "True", "1", ""][choice(5)]);
        }
        7 => {
            s.push_str("2000-02-");
            if k == 0 {
                push(&mut s, 2, &dg);
            } else {
                s.push_str("2");
                push(&mut s, 1, &dg);
                s.push_str("T10:10:");
                push(&mut s, 2, &dg);
                if choice(2) == 1 {
                    s.push_str(".");
                    push(&mut s, 1, &dg);
                }
                match choice(4) {
                    0 => {}
                    1 => s.push('Z'),
                    2 => {
                        push(&mut s, 1, &set_of("+-"));
                        push(&mut s, 1, &dg);
                        s.push_str("3:10");
                    }
                    _ => push(&mut s, 1, &plain()),
                }
            }
        }
        _ => s.push('1'),
    }
    s
}
/// document t, n & 15 changes in one go, types in the mask w, n >> 4: shape of the texts; o: 0 nothing else,
/// 1 another output file, 2 no words, 3 the document printed, 4 queries before it, 5 an output file that cannot be
/// written, 6 the number of entries is wrong, 7 the file named twice, 8 queries and no words
harness!(x_set, |t, n, w, o| {
    let mut s = String::new();
    crate::gen::fill(&mut s, X[t as usize]);
    observe(1, &s);
    let d = read(&s);
    let (mut p, r) = parse(&s);
    let m = Model::new(&d);
    let types: Vec<usize> = (0..9).filter(|i| w >> i & 1 == 1).collect();
    let mut trip: Vec<String> = Vec::new();
    let mut kinds = Vec::new();
    for _ in 0..n & 15 {
        let k = keys(&m, 1, 0);
        let c = types[choice(types.len() as u8)];
        let v = given(c, n as usize >> 4);
        trip.push(k[0].clone());
        trip.push(v);
        trip.push(TYPES[c][if o == 0 || c > 7 { choice(2) } else { 1 }].into());
        kinds.push(c);
    }
    let mut args: Vec<String> = Vec::new();
    let mut put = |v: &[&str]| {
        for x in v {
            args.push(x.to_string());
        }
    };
    if o == 6 {
        if choice(2) == 0 {
            trip.pop();
        } else {
            trip.push("1".into());
        }
    }
    put(&["-s", &list(&trip)]);
    let mut out = "in.toml";
    let mut stdin = "";
    match o {
        1 => {
            out = "out.toml";
            put(&["-o", out]);
        }
        2 => put(&[["-q", "--quiet"][choice(2)]]),
        3 => put(&["--print-doc"]),
        4 => put(&["-g", &trip[0]]),
        8 => put(&["-g", &trip[0], "-q"]),
        5 => put(&["-o", "dir"]),
        7 => {
            stdin = "in.toml\nin.toml\n";
            put(&["--print-doc"]);
        }
        _ => {}
    }
    if o != 7 {
        put(&["-i", "in.toml"]);
    }
    for a in args.iter() {
        observe(5, a);
    }
    let a: Vec<&str> = args.iter().map(|x| &x[..]).collect();
    let run = kit(&a, stdin, &s);
    observe(6, &run.out);
    if let Some(ref x) = run.input {
        observe(7, x);
    }
    if let Some(ref x) = run.output {
        observe(8, x);
    }
    let keep = run.input.as_ref().map_or(false, |x| *x == s) && run.output.is_none();
    match r {
        ParseResult::Full if d.end == s.len() && m.errs.is_empty() => {}
        _ => {
            check(keep, 210);
            check(run.out.starts_with("Error") && run.code != 0, 201);
            return;
        }
    }
    let mut pre = String::new();
    let mut good = o != 6;
    if o == 4 || o == 8 {
        match shown(&m, &p, &trip[0], false) {
            Some(t) => {
                pre = t;
                pre.push_str(", ");
            }
            None => good = false,
        }
    }
    for i in 0..kinds.len() {
        if !good {
            break;
        }
        good = match made(kinds[i], &trip[3 * i + 1]) {
            Some(v) => p.set_value(&trip[3 * i][..], v),
            None => false,
        };
    }
    if !good {
        check(keep, 211);
        check(run.out.starts_with(&pre[..]) && run.out[pre.len()..].starts_with("Error"), 212);
        return;
    }
    let mut new = format!("{}", p);
    if o == 5 {
        check(keep, 211);
        check(run.out.starts_with("Error") && run.code != 0, 212);
        return;
    }
    check(run.code == 0, 204);
    if o == 7 {
        // the second round finds what the first has left
        let mid = new.clone();
        let (mut p, _) = parse(&mid);
        good = true;
        for i in 0..kinds.len() {
            good = good && made(kinds[i], &trip[3 * i + 1]).map_or(false, |v| p.set_value(&trip[3 * i][..], v));
        }
        if !good {
            return;
        }
        new = format!("{}", p);
    }
    if out == "in.toml" {
        check(run.input.map_or(false, |x| x == new) && run.output.is_none(), 213);
    } else {
        check(run.input.map_or(false, |x| x == s) && run.output.map_or(false, |x| x == new), 213);
    }
    let done = run.out.matches("Success").count();
    check(run.out.starts_with(&pre[..]) && !run.out[pre.len()..].contains("Error \"in"), 214);
    if o == 2 || o == 8 {
        check(run.out[pre.len()..].trim().is_empty(), 214);
    } else {
        check(done == kinds.len() * if o == 7 { 2 } else { 1 }, 214);
    }
    if o < 2 {
        check(run.out.trim() == vec!["Success"; kinds.len()].join(", "), 214);
    }
    if o == 3 || o == 7 {
        let mut x = String::from("\n");
        x.push_str(&new);
        check(run.out.ends_with(&x[..]) || run.out.ends_with({ x.push('\n'); &x[..] }), 215);
    }
});
