//! Equality of values
use crate::cmp::*;
use crate::sym::*;

pub const Q: &'static [&'static str] = &[
    "1\x02", "-1\x02", "0.\x02\x02", "1e\x02", "true", "false",
    "200\x02-0\x02-1\x02", "2001-01-01T0\x02:1\x02:2\x02", "2001-01-01T01:02:03.\x02\x02", "2001-01-01T01:02:03.\x02",
    "2001-01-01T01:02:03Z", "2001-01-01T01:02:03.\x02Z", "2001-01-01T01:02:03", "2001-01-01",
    "2001-01-01T01:02:03+0\x02:0\x02", "2001-01-01T01:02:03-0\x02:0\x02",
    "\"\x7f\x7f\"", "'\x7f\x7f'", "\"\"\"\x7f\x7f\"\"\"", "'''\x7f\x7f'''", "\"\"", "''",
    "[]", "[1,\x02]", "[1]", "[[\x02],[]]", "['\x7f']", "[\"\x7f\"]",
    "{}", "{a=1\x02}", "{\x1b=1}", "{a=1,b=\x02}", "{b=1,a=1}", "{a={\x1b=[\x02]}}",
];

/// two values: they are equal exactly if they are written alike, whichever way one asks
harness!(q_two, |i, j, c, d| {
    let mut a = String::new();
    let mut b = String::new();
    crate::gen::fill(&mut a, Q[i as usize]);
    crate::gen::fill(&mut b, Q[j as usize]);
    let s = format!("a={}\nb={}\nc=[{}]\nd={{x={}}}", a, b, b, b);
    observe(1, &s);
    let (p, _) = parse(&s);
    let alike = a == b;
    match (p.get_value("a"), p.get_value("b"), p.get_value("c[0]"), p.get_value("d.x")) {
        (Some(x), Some(y), Some(z), Some(w)) => {
            check((x == y) == alike, 190);
            check((y == x) == alike, 191);
            check((x != y) != alike, 192);
            check(x == x.clone() && y == z && z == w, 193);
            check((p.get_value("c").unwrap() == tomllib::types::Value::Array(std::rc::Rc::new(vec![x]))) == alike, 194);
        }
        _ => check(false, 195),
    }
});
