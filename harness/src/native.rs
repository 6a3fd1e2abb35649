//! Native replay: reads "harness args... hexmodel" lines, runs them on the real crate.
use std::cell::RefCell;
use std::io::{BufRead, Write};

#[cfg(not(feature = "cli"))]
include!("all.rs");
#[cfg(feature = "cli")]
include!("cli_all.rs");

thread_local! {
    static MODEL: RefCell<(Vec<u8>, usize)> = RefCell::new((vec![], 0));
    static FAILED: RefCell<Vec<u32>> = RefCell::new(vec![]);
}
struct Prune;

fn say(s: String) {
    let so = std::io::stdout();
    let mut l = so.lock();
    let _ = l.write_all(s.as_bytes());
    let _ = l.write_all(b"\n");
    let _ = l.flush();
}

#[no_mangle]
pub unsafe extern "C" fn __sym_byte(set: *const u64) -> u8 {
    let s = std::slice::from_raw_parts(set, 4);
    MODEL.with(|m| {
        let mut m = m.borrow_mut();
        let i = m.1;
        m.1 += 1;
        let has = |b: u8| s[(b >> 6) as usize] >> (b & 63) & 1 == 1;
        if let Some(b) = m.0.get(i) {
            if has(*b) {
                return *b;
            }
        }
        (0..=255u8).find(|b| has(*b)).unwrap_or(0)
    })
}
#[no_mangle]
pub extern "C-unwind" fn __sym_assume(c: bool) {
    if !c {
        std::panic::resume_unwind(Box::new(Prune));
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_assert(c: bool, id: u32) {
    if !c {
        FAILED.with(|f| {
            if !f.borrow().contains(&id) {
                f.borrow_mut().push(id);
                say(format!("FAIL {}", id));
            }
        });
        // like the engine, which goes on only with the inputs that satisfy the assertion
        std::panic::resume_unwind(Box::new(Prune));
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sym_observe(tag: u32, p: *const u8, n: usize) {
    let b = std::slice::from_raw_parts(p, n);
    let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    say(format!("OBS {} {}", tag, h));
}
#[no_mangle]
pub extern "C" fn __sym_conc(x: u64) -> u64 {
    x
}
#[no_mangle]
pub extern "C" fn __sym_finding(id: u32) {
    say(format!("FINDING {}", id));
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        say(format!("PANIC {} at {}", m.replace('\n', " "), loc));
    }));
    let si = std::io::stdin();
    let lines: Vec<String> = si.lock().lines().map(|l| l.unwrap_or_default()).collect();
    // a roomy stack: what overflows it does not terminate
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        for l in lines {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() < 2 {
                continue;
            }
            let hex = w[w.len() - 1];
            let model: Vec<u8> = if hex == "-" { vec![] } else { (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap_or(0)).collect() };
            let mut a = [0u64; 4];
            for (i, x) in w[1..w.len() - 1].iter().enumerate().take(4) {
                a[i] = x.parse().unwrap_or(0);
            }
            MODEL.with(|m| *m.borrow_mut() = (model, 0));
            FAILED.with(|f| f.borrow_mut().clear());
            let name = w[0].to_string();
            let r = std::panic::catch_unwind(move || dispatch(&name, a));
            match r {
                Ok(true) => {}
                Ok(false) => say("PANIC no such harness".to_string()),
                Err(e) => {
                    if e.is::<Prune>() {
                        say("PRUNED".to_string());
                    }
                }
            }
            say("END".to_string());
        }
    });
    let _ = h.unwrap().join();
}
