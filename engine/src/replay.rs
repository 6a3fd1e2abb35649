//! Runs harnesses natively (the real crate, the real regex engine) on concrete inputs.
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub fails: Vec<u32>,
    pub panic: Option<String>,
    pub hang: bool,
    pub crash: bool,
    pub pruned: bool,
    pub done: bool,
    pub obs: Vec<(u32, Vec<u8>)>,
    pub findings: Vec<u32>,
}
impl Rec {
    pub fn bad(&self) -> bool {
        !self.fails.is_empty() || self.panic.is_some() || self.hang || self.crash
    }
}

#[derive(Clone)]
pub struct Case {
    pub f: String,
    pub args: Vec<u64>,
    pub model: Vec<u8>,
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.as_bytes();
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(std::str::from_utf8(&s[2 * i..2 * i + 2]).ok()?, 16).ok()).collect()
}
pub fn line(c: &Case) -> String {
    let mut s = c.f.clone();
    for a in &c.args {
        s.push_str(&format!(" {}", a));
    }
    format!("{} {}", s, if c.model.is_empty() { "-".to_string() } else { hex(&c.model) })
}

/// run every case, several at a time; `secs` without an answer for one case means it hangs
pub fn run(bin: &str, cases: &[Case], secs: u64) -> Vec<Rec> {
    let n = std::thread::available_parallelism().map_or(8, |x| x.get());
    let size = (cases.len() + n - 1) / n;
    if size < 4 {
        return run_some(bin, cases, secs);
    }
    std::thread::scope(|s| {
        // neighbours cost about the same: deal them out
        let hands: Vec<_> = (0..n).map(|k| s.spawn(move || run_some(bin, &cases.iter().skip(k).step_by(n).cloned().collect::<Vec<_>>(), secs))).collect();
        let mut got: Vec<_> = hands.into_iter().map(|h| h.join().unwrap().into_iter()).collect();
        (0..cases.len()).map(|i| got[i % n].next().unwrap()).collect()
    })
}
fn run_some(bin: &str, cases: &[Case], secs: u64) -> Vec<Rec> {
    let mut out: Vec<Rec> = vec![];
    while out.len() < cases.len() {
        let start = out.len();
        let mut child = match Command::new(bin).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            Ok(c) => c,
            Err(e) => crate::die(&format!("cannot start {}: {}", bin, e)),
        };
        let mut inp = child.stdin.take().unwrap();
        let text: String = cases[start..].iter().map(|c| line(c) + "\n").collect();
        let w = std::thread::spawn(move || {
            let _ = inp.write_all(text.as_bytes());
        });
        let (tx, rx) = mpsc::channel::<String>();
        let so = child.stdout.take().unwrap();
        let r = std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            return;
                        }
                    }
                    Err(_) => return,
                }
            }
        });
        let mut cur = Rec::default();
        loop {
            if out.len() == cases.len() {
                break;
            }
            match rx.recv_timeout(Duration::from_secs(secs)) {
                Ok(l) => {
                    let mut w = l.split(' ');
                    match w.next().unwrap_or("") {
                        "OBS" => {
                            let t = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                            cur.obs.push((t, unhex(w.next().unwrap_or(""))));
                        }
                        "FAIL" => cur.fails.push(w.next().and_then(|x| x.parse().ok()).unwrap_or(0)),
                        "FINDING" => cur.findings.push(w.next().and_then(|x| x.parse().ok()).unwrap_or(0)),
                        "PANIC" => cur.panic = Some(l[6..].to_string()),
                        "PRUNED" => cur.pruned = true,
                        "END" => {
                            cur.done = true;
                            out.push(std::mem::take(&mut cur));
                        }
                        _ => {}
                    }
                }
                Err(mpsc::RecvTimeoutError::Timeout) => {
                    cur.hang = true;
                    out.push(std::mem::take(&mut cur));
                    break;
                }
                Err(_) => {
                    cur.crash = true;
                    out.push(std::mem::take(&mut cur));
                    break;
                }
            }
        }
        let _ = child.kill();
        let _ = child.wait();
        let _ = w.join();
        let _ = r.join();
    }
    out
}
