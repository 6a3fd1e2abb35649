//! Primitives shared by the symbolic and the native build of the harnesses.
extern "C-unwind" {
    fn __sym_byte(set: *const u64) -> u8;
    fn __sym_assume(c: bool);
    fn __sym_assert(c: bool, id: u32);
    fn __sym_observe(tag: u32, p: *const u8, n: usize);
    fn __sym_conc(x: u64) -> u64;
    fn __sym_finding(id: u32);
}
pub type Set = [u64; 4];

pub fn set_of(s: &str) -> Set {
    let mut r = [0u64; 4];
    for b in s.bytes() {
        r[(b >> 6) as usize] |= 1 << (b & 63);
    }
    r
}
pub fn set_range(lo: u8, hi: u8) -> Set {
    let mut r = [0u64; 4];
    let mut b = lo as usize;
    while b <= hi as usize {
        r[b >> 6] |= 1 << (b & 63);
        b += 1;
    }
    r
}
pub fn set_or(a: Set, b: Set) -> Set {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
/// one free byte out of the set
pub fn byte(s: &Set) -> u8 {
    unsafe { __sym_byte(s.as_ptr()) }
}
/// a free choice among 0..n, explored value by value
pub fn choice(n: u8) -> usize {
    if n <= 1 {
        return 0;
    }
    let s = set_range(0, n - 1);
    let b = byte(&s);
    unsafe { __sym_conc(b as u64) as usize }
}
pub fn conc(x: u64) -> u64 {
    unsafe { __sym_conc(x) }
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { __sym_assert(c, id) }
}
pub fn observe(tag: u32, s: &str) {
    unsafe { __sym_observe(tag, s.as_ptr(), s.len()) }
}
pub fn finding(id: u32) {
    unsafe { __sym_finding(id) }
}
/// n free bytes out of the set appended to s (the set must keep s valid UTF-8: ASCII)
pub fn push(s: &mut String, n: usize, set: &Set) {
    for _ in 0..n {
        let b = byte(set);
        unsafe { s.as_mut_vec().push(b) }
    }
}
/// one free character of exactly k UTF-8 bytes
pub fn push_char(s: &mut String, k: usize) {
    let tail = set_range(0x80, 0xbf);
    unsafe {
        let v = s.as_mut_vec();
        match k {
            1 => v.push(byte(&set_range(0, 127))),
            2 => {
                v.push(byte(&set_range(0xc2, 0xdf)));
                v.push(byte(&tail));
            }
            3 => {
                let a = byte(&set_range(0xe0, 0xef));
                let b = byte(&tail);
                assume(a != 0xe0 || b >= 0xa0);
                assume(a != 0xed || b <= 0x9f);
                v.push(a);
                v.push(b);
                v.push(byte(&tail));
            }
            _ => {
                let a = byte(&set_range(0xf0, 0xf4));
                let b = byte(&tail);
                assume(a != 0xf0 || b >= 0x90);
                assume(a != 0xf4 || b <= 0x8f);
                v.push(a);
                v.push(b);
                v.push(byte(&tail));
                v.push(byte(&tail));
            }
        }
    }
}
