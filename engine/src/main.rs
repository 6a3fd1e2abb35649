//! Driver: runs the jobs of one property on all cores, replays what the solver returns against the
//! natively compiled crate, writes evidence.
#![allow(clippy::all)]
mod exec;
mod expr;
mod ir;
mod mem;
mod regex;
mod replay;
mod report;
mod solver;
mod unicode;
use exec::{Counts, End, Eng, Prog, State};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Job {
    pub f: String,
    pub args: Vec<u64>,
    pub bound: String,
    pub tier: char,
}

pub struct Item {
    job: usize,
    model: Vec<u8>,
    script: Vec<bool>,
}

#[derive(Default)]
pub struct JobRes {
    pub cnt: Counts,
    pub st: solver::Stats,
    pub reached: HashMap<u32, u64>,
    pub uns: HashMap<String, u64>,
    pub cex: Vec<exec::Cex>,
    pub samples: Vec<exec::Sample>,
    pub left: u64,
    pub busy_us: u64,
    pub max_path_steps: u64,
    pub started: bool,
}

struct Shared {
    q: Mutex<(VecDeque<Item>, usize)>, // queue, active workers
    cv: Condvar,
    idle: AtomicUsize,
    qlen: AtomicUsize,
    stop: AtomicBool,
}

fn add(a: &mut Counts, b: &Counts, z: &Counts) {
    macro_rules! f { ($($x:ident),*) => { $( a.$x += b.$x - z.$x; )* } }
    f!(paths, done, pruned, panics, limit, unsupported, steps, forks, decisions, assert_checks, assert_const, assert_queries, regex_calls);
    a.max_vars = a.max_vars.max(b.max_vars);
}
fn adds(a: &mut solver::Stats, b: &solver::Stats, z: &solver::Stats) {
    macro_rules! f { ($($x:ident),*) => { $( a.$x += b.$x - z.$x; )* } }
    f!(fast, z3, z3_sat, z3_unsat, z3_unknown, z3_us, cache, audits);
    a.z3_max_us = a.z3_max_us.max(b.z3_max_us);
}

fn worker(prog: &Prog, jobs: &[(usize, u32, Vec<u64>)], sh: &Shared, res: &Mutex<Vec<JobRes>>, nthreads: usize, deadline: Instant, cap: u64) {
    let mut eng = Eng::new(prog);
    loop {
        let item = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::Relaxed) {
                    g.0.clear();
                }
                if let Some(i) = g.0.pop_front() {
                    g.1 += 1;
                    sh.qlen.store(g.0.len(), Ordering::Relaxed);
                    break Some(i);
                }
                if g.1 == 0 {
                    sh.cv.notify_all();
                    break None;
                }
                sh.idle.fetch_add(1, Ordering::Relaxed);
                g = sh.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                sh.idle.fetch_sub(1, Ordering::Relaxed);
            }
        };
        let item = match item {
            Some(i) => i,
            None => return,
        };
        let t0 = Instant::now();
        if eng.ar.n.len() > 8_000_000 {
            eng = Eng::new(prog);
        }
        let c0 = eng.cnt.clone();
        let s0 = eng.sol.st.clone();
        eng.max_steps_seen = 0;
        eng.cnt.max_vars = 0;
        eng.sample_every = 1;
        let (ji, f, args) = &jobs[item.job];
        let s = eng.start(*f, args, item.model, item.script);
        eng.stack.clear();
        eng.stack.push(s);
        let mut left = 0u64;
        let mut n = 0u64;
        let mut panic_msg = None;
        while let Some(s) = eng.stack.pop() {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let (s, e) = eng.run(s);
                eng.finish(s, e);
            }));
            if r.is_err() {
                panic_msg = Some("engine failure");
                left += 1;
                break;
            }
            n += 1;
            if eng.samples.len() >= 24 {
                eng.sample_every *= 4;
                let mut k = 0;
                eng.samples.retain(|_| {
                    k += 1;
                    k % 4 == 0
                });
            }
            if sh.stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                sh.stop.store(true, Ordering::Relaxed);
                left += eng.stack.len() as u64;
                eng.stack.clear();
                break;
            }
            let big = eng.ar.n.len() > 12_000_000;
            if (big || sh.idle.load(Ordering::Relaxed) > 0 && sh.qlen.load(Ordering::Relaxed) < nthreads) && eng.stack.len() > 1 {
                let take = if big { eng.stack.len() } else { (eng.stack.len() / 2).min(8).max(1) };
                let mut g = sh.q.lock().unwrap();
                for s in eng.stack.drain(0..take) {
                    g.0.push_back(Item { job: item.job, model: (*s.pc.model).clone(), script: (*s.script).clone() });
                }
                sh.qlen.store(g.0.len(), Ordering::Relaxed);
                drop(g);
                sh.cv.notify_all();
            }
            let _ = n;
        }
        {
            let mut g = res.lock().unwrap();
            let r = &mut g[*ji];
            r.started = true;
            add(&mut r.cnt, &eng.cnt, &c0);
            adds(&mut r.st, &eng.sol.st, &s0);
            for (k, v) in eng.reached.drain() {
                *r.reached.entry(k).or_insert(0) += v;
            }
            for (k, v) in eng.uns.drain() {
                *r.uns.entry(k).or_insert(0) += v;
            }
            r.cex.append(&mut eng.cex);
            eng.cex_seen.clear();
            r.samples.append(&mut eng.samples);
            if r.samples.len() > 240 {
                let mut k = 0;
                r.samples.retain(|_| {
                    k += 1;
                    k % 2 == 0
                });
            }
            r.left += left;
            r.busy_us += t0.elapsed().as_micros() as u64;
            r.max_path_steps = r.max_path_steps.max(eng.max_steps_seen);
            if let Some(m) = panic_msg {
                *r.uns.entry(m.to_string()).or_insert(0) += 1;
                r.cnt.unsupported += 1;
            }
            // enough distinct counterexamples: no need to enumerate the rest
            if cap > 0 && g.iter().map(|r| r.cex.iter().filter(|c| c.kind != "unsupported").count() as u64).sum::<u64>() > cap {
                sh.stop.store(true, Ordering::Relaxed);
            }
        }
        if panic_msg.is_some() {
            eng = Eng::new(prog);
        }
        let mut g = sh.q.lock().unwrap();
        g.1 -= 1;
        if g.1 == 0 && g.0.is_empty() {
            sh.cv.notify_all();
        }
    }
}

pub struct Opts {
    pub m: BTreeMap<String, String>,
}
impl Opts {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.m.get(k).map(|s| s.as_str())
    }
    pub fn req(&self, k: &str) -> &str {
        self.get(k).unwrap_or_else(|| panic!("--{} missing", k))
    }
}

pub fn die(s: &str) -> ! {
    eprintln!("symx: {}", s);
    std::process::exit(3)
}

fn expand(a: &str) -> Vec<u64> {
    let mut v = vec![];
    for p in a.split('+') {
        if let Some((x, y)) = p.split_once("..") {
            let (x, y): (u64, u64) = (x.parse().expect("range"), y.parse().expect("range"));
            v.extend(x..=y);
        } else {
            v.push(p.parse().expect("integer argument"));
        }
    }
    v
}

fn main() {
    let mut m = BTreeMap::new();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < a.len() {
        let k = a[i].trim_start_matches("--").to_string();
        m.insert(k, a.get(i + 1).cloned().unwrap_or_default());
        i += 2;
    }
    let o = Opts { m };
    let t0 = Instant::now();
    let prop = o.req("prop").to_string();
    let tier = o.req("tier").to_string();
    let secs: u64 = o.get("deadline").map_or(500, |s| s.parse().unwrap());
    let text = match std::fs::read_to_string(o.req("ll")) {
        Ok(t) => t,
        Err(e) => die(&format!("cannot read IR: {}", e)),
    };
    let module = ir::load(&text);
    drop(text);
    let prog = Prog::new(module);
    let t_load = t0.elapsed();

    // plan
    let plan = std::fs::read_to_string(o.req("plan")).unwrap_or_else(|e| die(&format!("plan: {}", e)));
    let mut jobs: Vec<Job> = vec![];
    let mut texts: BTreeMap<u32, String> = BTreeMap::new();
    for l in plan.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let (head, bound) = l.split_once('|').unwrap_or((l, ""));
        let w: Vec<&str> = head.split_whitespace().collect();
        if w[0] == "A" {
            if w[1] == prop {
                texts.insert(w[2].parse().unwrap(), bound.trim().to_string());
            }
            continue;
        }
        if w[0] != "J" || w[1] != prop {
            continue;
        }
        let t = w[2].chars().next().unwrap();
        if (tier == "quick" && t == 't') || (tier == "thorough" && t == 'Q') {
            continue;
        }
        let mut combos: Vec<Vec<u64>> = vec![vec![]];
        for x in &w[4..] {
            let vs = expand(x);
            combos = combos
                .into_iter()
                .flat_map(|c| {
                    vs.iter().map(move |v| {
                        let mut d = c.clone();
                        d.push(*v);
                        d
                    })
                })
                .collect();
        }
        for c in combos {
            jobs.push(Job { f: w[3].to_string(), args: c, bound: bound.trim().to_string(), tier: t });
        }
    }
    if let Some(only) = o.get("only") {
        // --only fn,arg,arg
        let w: Vec<&str> = only.split(',').collect();
        jobs = vec![Job { f: w[0].into(), args: w[1..].iter().map(|x| x.parse().unwrap()).collect(), bound: String::new(), tier: 'q' }];
    }
    if jobs.is_empty() {
        die("no jobs for this property");
    }
    let mut run: Vec<(usize, u32, Vec<u64>)> = vec![];
    for (i, j) in jobs.iter().enumerate() {
        match prog.m.fidx.get(&j.f) {
            Some(f) => run.push((i, *f, j.args.clone())),
            None => die(&format!("harness {} is not in the IR", j.f)),
        }
    }
    let n = o.get("threads").map_or_else(|| std::thread::available_parallelism().map_or(8, |x| x.get()), |s| s.parse().unwrap());
    let sh = Shared { q: Mutex::new((VecDeque::new(), 0)), cv: Condvar::new(), idle: AtomicUsize::new(0), qlen: AtomicUsize::new(0), stop: AtomicBool::new(false) };
    for (k, _) in run.iter().enumerate() {
        sh.q.lock().unwrap().0.push_back(Item { job: k, model: vec![], script: vec![] });
    }
    let res: Mutex<Vec<JobRes>> = Mutex::new(jobs.iter().map(|_| JobRes::default()).collect());
    let deadline = Instant::now() + Duration::from_secs(secs);
    let cap: u64 = o.get("cexcap").map_or(400, |s| s.parse().unwrap());
    let t1 = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..n {
            let (prog, run, sh, res) = (&prog, &run, &sh, &res);
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || worker(prog, run, sh, res, n, deadline, cap)).unwrap();
        }
    });
    let explore = t1.elapsed();
    let res = res.into_inner().unwrap();
    let code = report::report(&o, &prop, &tier, &prog, &jobs, res, &texts, t_load.as_secs_f64(), explore.as_secs_f64(), t0);
    std::process::exit(code);
}

#[allow(dead_code)]
fn _unused(_: &State, _: End) {}
