//! Verdict, known findings, evidence.
macro_rules! out { ($($x:tt)*) => { { use std::io::Write as _; let _ = writeln!(std::io::stdout(), $($x)*); } } }
macro_rules! outp { ($($x:tt)*) => { { use std::io::Write as _; let _ = write!(std::io::stdout(), $($x)*); } } }
use crate::exec::{Cex, Prog, Sample};
use crate::replay::{self, Case, Rec};
use crate::{Job, JobRes, Opts};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::time::Instant;

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

struct Known {
    kind: String,
    id: u32,
    finding: u32,
    info: String,
    witness: String,
    what: String,
}

/// names of the tomllib functions reachable from the harnesses in the unoptimised IR
fn encoded(path: &str, roots: &[String]) -> (Vec<String>, usize) {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(_) => return (vec![], 0),
    };
    let mut names: HashMap<&str, usize> = HashMap::new();
    let mut list: Vec<&str> = vec![];
    let mut body: Vec<Vec<&str>> = vec![];
    let mut globals: HashMap<&str, Vec<&str>> = HashMap::new();
    fn refs(l: &str) -> Vec<&str> {
        let mut v = vec![];
        let b = l.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'@' {
                let s = i + 1;
                let mut j = s;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'.' || b[j] == b'$') {
                    j += 1;
                }
                v.push(&l[s..j]);
                i = j;
            } else {
                i += 1;
            }
        }
        v
    }
    let mut cur: Option<usize> = None;
    for l in text.lines() {
        if l.starts_with("define ") {
            let r = refs(l);
            if r.is_empty() {
                continue;
            }
            names.insert(r[0], list.len());
            list.push(r[0]);
            body.push(vec![]);
            cur = Some(list.len() - 1);
        } else if l.starts_with('}') {
            cur = None;
        } else if let Some(c) = cur {
            if l.contains('@') {
                body[c].extend(refs(l));
            }
        } else if l.starts_with('@') {
            let mut r = refs(l);
            if r.len() > 1 {
                let n = r.remove(0);
                globals.insert(n, r);
            }
        }
    }
    let mut seen: HashSet<&str> = HashSet::new();
    let mut todo: Vec<&str> = roots.iter().map(|s| s.as_str()).collect();
    let mut fns = BTreeSet::new();
    let mut total = 0;
    while let Some(n) = todo.pop() {
        if !seen.insert(n) {
            continue;
        }
        if let Some(i) = names.get(n) {
            total += 1;
            let id = crate::ir::idents(n);
            if let Some(p) = id.iter().position(|x| x == "tomllib") {
                let q: Vec<String> = id[p + 1..].iter().filter(|x| !(x.len() == 17 && x.starts_with('h'))).cloned().collect();
                if !q.is_empty() && !q.iter().any(|x| x.starts_with("drop_glue")) {
                    fns.insert(q.join("::"));
                }
            }
            for r in &body[*i] {
                todo.push(r);
            }
        }
        if let Some(g) = globals.get(n) {
            for r in g {
                todo.push(r);
            }
        }
    }
    (fns.into_iter().collect(), total)
}

#[allow(clippy::too_many_arguments)]
pub fn report(o: &Opts, prop: &str, tier: &str, prog: &Prog, jobs: &[Job], mut res: Vec<JobRes>, texts: &BTreeMap<u32, String>, t_load: f64, t_explore: f64, t0: Instant) -> i32 {
    let bin = o.req("replay");
    let quiet = o.get("evidence").is_none();
    // ------------------------------------------------ known findings
    let mut known: Vec<Known> = vec![];
    if let Some(p) = o.get("known") {
        for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
            // KNOWN ¦ property ¦ kind ¦ assertion ¦ class ¦ place ¦ witness ¦ description
            let w: Vec<&str> = l.split('¦').map(|x| x.trim()).collect();
            if w.len() == 8 && w[0] == "KNOWN" && w[1] == prop {
                known.push(Known { kind: w[2].into(), id: w[3].parse().unwrap_or(0), finding: w[4].parse().unwrap_or(0), info: w[5].into(), witness: w[6].into(), what: w[7].into() });
            }
        }
    }
    let matches = |k: &Known, kind: &str, id: u32, info: &str, fs: &[u32]| -> bool { k.kind == kind && (kind != "assert" || k.id == id) && (k.finding == 0 || fs.contains(&k.finding)) && (k.info == "-" || info.contains(&k.info)) };

    // ------------------------------------------------ replay
    let mut cases: Vec<Case> = vec![];
    let mut meta: Vec<(usize, Cex)> = vec![];
    let mut per: HashMap<(String, u32, String), u32> = HashMap::new();
    let mut raw_cex = 0u64;
    for (i, r) in res.iter_mut().enumerate() {
        for c in r.cex.drain(..) {
            raw_cex += 1;
            let key = (c.kind.clone(), c.id, format!("{}{:?}", c.info, c.findings));
            let n = per.entry(key).or_insert(0);
            *n += 1;
            if *n > 4 || cases.len() >= 400 {
                continue;
            }
            cases.push(Case { f: jobs[i].f.clone(), args: jobs[i].args.clone(), model: c.model.clone() });
            meta.push((i, c));
        }
    }
    let ncex = cases.len();
    let mut smeta: Vec<(usize, Sample)> = vec![];
    for (i, r) in res.iter_mut().enumerate() {
        for s in r.samples.drain(..) {
            cases.push(Case { f: jobs[i].f.clone(), args: jobs[i].args.clone(), model: s.model.clone() });
            smeta.push((i, s));
        }
    }
    let recs: Vec<Rec> = if cases.is_empty() { vec![] } else { replay::run(bin, &cases, 10) };

    let mut violations: Vec<(String, usize)> = vec![];
    let mut seen_v: HashSet<String> = HashSet::new();
    let mut hit: HashSet<usize> = HashSet::new();
    let mut irrepro: Vec<String> = vec![];
    let mut uns_examples: Vec<String> = vec![];
    let atext = |id: u32| texts.get(&id).cloned().unwrap_or_else(|| format!("assertion {}", id));
    for (k, (_, c)) in meta.iter().enumerate() {
        let r = &recs[k];
        // what the real code did on this input
        let mut evs: Vec<(String, u32, String)> = vec![];
        for f in &r.fails {
            evs.push(("assert".into(), *f, String::new()));
        }
        if let Some(p) = &r.panic {
            evs.push(("panic".into(), 0, p.clone()));
        }
        if r.hang {
            evs.push(("limit".into(), 0, "no answer within 10 s".into()));
        }
        if r.crash {
            evs.push(("limit".into(), 0, "the process died (stack or memory exhausted)".into()));
        }
        let expected = match c.kind.as_str() {
            "assert" => r.fails.contains(&c.id),
            "panic" => r.panic.is_some(),
            "limit" => r.hang || r.crash,
            _ => true,
        };
        if !expected && !(c.kind == "limit") {
            irrepro.push(format!("{} {} {} on {} (real code: {:?})", c.kind, c.id, c.info, replay::line(&cases[k]), evs));
        }
        if c.kind == "unsupported" || (c.kind == "limit" && !expected) {
            if uns_examples.len() < 5 {
                uns_examples.push(format!("{} {}: {}", c.kind, c.info, replay::line(&cases[k])));
            }
        }
        for (kind, id, info) in evs {
            let info2 = if kind == "panic" { format!("{} | {}", info, c.info) } else { info.clone() };
            let mut kn = false;
            for (x, kf) in known.iter().enumerate() {
                if matches(kf, &kind, id, &info2, &r.findings) {
                    hit.insert(x);
                    kn = true;
                }
            }
            if kn {
                continue;
            }
            let msg = match kind.as_str() {
                "assert" => format!("{} [assertion {}]", atext(id), id),
                "panic" => format!("the library panicked: {}", info),
                _ => format!("the call does not return: {}", info),
            };
            if seen_v.insert(msg.clone()) {
                violations.push((msg, k));
            }
        }
    }
    // ------------------------------------------------ sampled paths: prediction against the real run
    let mut validated = 0u64;
    let mut mismatches: Vec<String> = vec![];
    let mut sample_lines: Vec<String> = vec![];
    for (k, (ji, s)) in smeta.iter().enumerate() {
        let r = &recs[ncex + k];
        let ok = !r.bad() && !r.pruned && r.obs.len() == s.obs.len() && r.obs.iter().zip(&s.obs).all(|(a, b)| a == b);
        if ok {
            validated += 1;
        } else if mismatches.len() < 10 {
            mismatches.push(format!("{} predicted {:?} real {:?}", replay::line(&cases[ncex + k]), s.obs.iter().map(|x| (x.0, String::from_utf8_lossy(&x.1).into_owned())).collect::<Vec<_>>(), r.obs.iter().map(|x| (x.0, String::from_utf8_lossy(&x.1).into_owned())).collect::<Vec<_>>()));
        }
        if sample_lines.len() < 12 && k % (smeta.len() / 12 + 1) == 0 {
            let obs: Vec<String> = s.obs.iter().map(|x| format!("{}:{}", x.0, js(&String::from_utf8_lossy(&x.1)))).collect();
            sample_lines.push(format!("{}({}) {}", jobs[*ji].f, jobs[*ji].args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), obs.join(" ")));
        }
    }

    // ------------------------------------------------ known findings: replay their witnesses
    let mut stale = vec![];
    for (x, k) in known.iter().enumerate() {
        let w: Vec<&str> = k.witness.split_whitespace().collect();
        if w.len() >= 2 {
            let c = Case { f: w[0].into(), args: w[1..w.len() - 1].iter().map(|a| a.parse().unwrap_or(0)).collect(), model: replay::unhex(w[w.len() - 1]) };
            let r = &replay::run(bin, &[c], 10)[0];
            let ok = match k.kind.as_str() {
                "assert" => r.fails.contains(&k.id),
                "panic" => r.panic.as_ref().map_or(false, |p| k.info == "-" || p.contains(&k.info)),
                _ => r.hang || r.crash,
            };
            if ok {
                out!("KNOWN-FINDING: property={} {}", prop, k.what);
            } else if hit.contains(&x) {
                out!("KNOWN-FINDING: property={} {}", prop, k.what);
                stale.push(k.what.clone());
            } else {
                stale.push(k.what.clone());
            }
        }
    }

    // ------------------------------------------------ totals
    let mut c = crate::exec::Counts::default();
    let mut st = crate::solver::Stats::default();
    let z = crate::exec::Counts::default();
    let zs = crate::solver::Stats::default();
    let mut reached: BTreeMap<u32, u64> = BTreeMap::new();
    let mut uns: BTreeMap<String, u64> = BTreeMap::new();
    let mut left = 0;
    let mut unstarted = 0;
    let mut max_path = 0;
    for r in &res {
        crate::add(&mut c, &r.cnt, &z);
        crate::adds(&mut st, &r.st, &zs);
        for (k, v) in &r.reached {
            *reached.entry(*k).or_insert(0) += v;
        }
        for (k, v) in &r.uns {
            *uns.entry(k.clone()).or_insert(0) += v;
        }
        left += r.left;
        max_path = max_path.max(r.max_path_steps);
        if !r.started {
            unstarted += 1;
        }
    }
    let unreached: Vec<String> = texts.keys().filter(|k| !reached.contains_key(k)).map(|k| format!("{}: {}", k, atext(*k))).collect();
    out!(
        "{} {}: {} jobs, {} paths ({} finished, {} pruned by assumptions, {} panics, {} over the step limit, {} unsupported), {} branch points, {} assertion checks ({} needing the solver), queries: {} finite-domain, {} z3 ({} sat, {} unsat, {} unknown, {:.1} s, longest {:.2} s), {} cached, {} audited; {} counterexamples, {} sampled paths agree with the real code of {}; load {:.1} s, exploration {:.1} s, left unexplored {} states + {} jobs",
        prop, tier, jobs.len(), c.paths, c.done, c.pruned, c.panics, c.limit, c.unsupported, c.forks, c.assert_checks, c.assert_queries, st.fast, st.z3, st.z3_sat, st.z3_unsat, st.z3_unknown, st.z3_us as f64 / 1e6, st.z3_max_us as f64 / 1e6, st.cache, st.audits, raw_cex, validated, smeta.len(), t_load, t_explore, left, unstarted
    );
    if o.get("verbose").is_some() {
        for (j, r) in jobs.iter().zip(&res) {
            out!("  job {} {:?}: {} paths, {} pruned, busy {:.1} s, {} vars, left {}, longest path {} steps, z3 {} ({:.1}s)", j.f, j.args, r.cnt.paths, r.cnt.pruned, r.busy_us as f64 / 1e6, r.cnt.max_vars, r.left, r.max_path_steps, r.st.z3, r.st.z3_us as f64/1e6);
        }
        for (k, v) in &uns {
            out!("  unsupported x{}: {}", v, k);
        }
        for l in &sample_lines {
            out!("  sample {}", l);
        }
        out!("  reached {:?}", reached);
    }
    for l in &irrepro {
        out!("NOT-REPRODUCED {}", l);
    }
    for l in &mismatches {
        out!("MISMATCH {}", l);
    }
    for l in &stale {
        out!("note: listed finding not reproduced by its witness: {}", l);
    }
    for l in &unreached {
        out!("note: assertion never reached: {}", l);
    }
    for (k, v) in &uns {
        out!("note: {} paths not followed to the end: {}", v, k);
    }
    for l in &uns_examples {
        out!("note: e.g. {}", l);
    }

    // ------------------------------------------------ replay files
    let outdir = o.get("out").unwrap_or("/verif/replay").to_string();
    let _ = std::fs::create_dir_all(&outdir);
    let mut vlines = vec![];
    for (n, (msg, k)) in violations.iter().enumerate().take(8) {
        let p = format!("{}/{}-{}.txt", outdir, prop, n + 1);
        let r = &recs[*k];
        let mut t = String::new();
        let _ = writeln!(t, "property {}: {}", prop, msg);
        let _ = writeln!(t, "case: {}", replay::line(&cases[*k]));
        let _ = writeln!(t, "reproduce: sh /verif/run.sh replay '{}'", replay::line(&cases[*k]));
        let _ = writeln!(t, "engine: {} {} {}", meta[*k].1.kind, meta[*k].1.id, meta[*k].1.info);
        let _ = writeln!(t, "observed while running the real code:");
        for (tag, b) in &r.obs {
            let _ = writeln!(t, "  {}: {:?}", tag, String::from_utf8_lossy(b));
        }
        if let Some(x) = &r.panic {
            let _ = writeln!(t, "  panic: {}", x);
        }
        for f in &r.fails {
            let _ = writeln!(t, "  failed: {} [{}]", atext(*f), f);
        }
        let _ = std::fs::write(&p, &t);
        if o.get("verbose").is_some() {
            outp!("{}", t);
        }
        vlines.push((msg.clone(), p));
    }

    // ------------------------------------------------ evidence
    if !quiet {
        let roots: Vec<String> = jobs.iter().map(|j| j.f.clone()).collect::<BTreeSet<_>>().into_iter().collect();
        let (fns, total) = o.get("full").map_or((vec![], 0), |p| encoded(p, &roots));
        let bounds: Vec<String> = {
            let mut m: Vec<String> = vec![];
            for j in jobs {
                if !j.bound.is_empty() && !m.contains(&j.bound) {
                    m.push(j.bound.clone());
                }
            }
            m
        };
        let complete = left == 0 && unstarted == 0 && c.unsupported == 0 && st.z3_unknown == 0 && c.limit == 0;
        let mut e = String::new();
        let _ = write!(e, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n", js(prop), js(tier), std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1), js("model_checking"));
        let _ = write!(e, " \"coverage\": {{\n");
        let _ = write!(e, "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"samples\": {},\n", c.paths, c.steps, validated, arr(&sample_lines));
        let _ = write!(e, "  \"explanation\": {},\n", js("states = execution paths of the compiled crate followed to their end; transitions = LLVM IR instructions executed symbolically; every path stands for all inputs satisfying its path condition. traces_validated = paths whose solver model was run through the native build with exactly the predicted observations."));
        let _ = write!(e, "  \"exhaustive_within_bounds\": {},\n", complete);
        let _ = write!(e, "  \"bounds\": {},\n", arr(&bounds));
        let _ = write!(e, "  \"jobs\": {},\n  \"harnesses\": {},\n", jobs.len(), arr(&roots));
        let _ = write!(e, "  \"functions_encoded\": {},\n  \"functions_encoded_total_with_std\": {},\n  \"function_names\": {},\n", fns.len(), total, arr(&fns));
        let _ = write!(e, "  \"paths\": {{\"finished\": {}, \"assumption_pruned\": {}, \"panicked\": {}, \"step_limit\": {}, \"unsupported\": {}, \"left_unexplored_states\": {}, \"jobs_not_started\": {}, \"longest_path_steps\": {}}},\n", c.done, c.pruned, c.panics, c.limit, c.unsupported, left, unstarted, max_path);
        let _ = write!(e, "  \"max_symbolic_bytes\": {},\n", c.max_vars);
        let _ = write!(e, "  \"queries\": {{\"branch_decisions\": {}, \"finite_domain\": {}, \"z3\": {}, \"z3_sat\": {}, \"z3_unsat\": {}, \"z3_unknown\": {}, \"cached\": {}, \"finite_domain_verdicts_rechecked_by_z3\": {}, \"symbolic_regex_matches\": {}}},\n", c.decisions, st.fast, st.z3, st.z3_sat, st.z3_unsat, st.z3_unknown, st.cache, st.audits, c.regex_calls);
        let _ = write!(e, "  \"solver_seconds\": {:.3},\n  \"longest_query_seconds\": {:.3},\n  \"exploration_seconds\": {:.1},\n", st.z3_us as f64 / 1e6, st.z3_max_us as f64 / 1e6, t_explore);
        let _ = write!(e, "  \"assertions\": {{\"checked\": {}, \"decided_by_constant_folding\": {}, \"decided_by_query\": {}}},\n", c.assert_checks, c.assert_const, c.assert_queries);
        let rs: Vec<String> = texts.iter().map(|(k, t)| format!("{}: {}", js(&format!("{} {}", k, t)), reached.get(k).unwrap_or(&0))).collect();
        let _ = write!(e, "  \"assertion_reachability\": {{{}}},\n", rs.join(", "));
        let us: Vec<String> = uns.iter().map(|(k, v)| format!("{} x{}", k, v)).collect();
        let _ = write!(e, "  \"not_followed\": {},\n", arr(&us));
        let _ = write!(e, "  \"prediction_mismatches\": {},\n", arr(&mismatches));
        let _ = write!(e, "  \"known_findings_hit\": {}\n }},\n", hit.len());
        let asm = vec![
            "The IR is what rustc's stable toolchain emits for /repo's working tree with overflow checks on, optimised by LLVM -O2; the native replay uses the same harness source.".to_string(),
            "The regex crate is replaced by the engine's own symbolic leftmost-first matcher; sampled paths are compared with the real regex crate.".to_string(),
            "Hash values are the constant 0 (iteration order of maps is one of the possible orders); memory allocation never fails; logging is off.".to_string(),
            "memchr, memcmp, memcpy and char counting are modelled by their contracts.".to_string(),
        ];
        let _ = write!(e, " \"assumptions\": {},\n \"wall_s\": {:.1},\n", arr(&asm), t0.elapsed().as_secs_f64() + o.get("prep").and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0));
        let vs: Vec<String> = vlines.iter().map(|(m, p)| format!("{{\"what\": {}, \"replay\": {}}}", js(m), js(p))).collect();
        let _ = write!(e, " \"violations\": [{}]\n}}\n", vs.join(", "));
        if let Err(x) = std::fs::write(o.req("evidence"), e) {
            crate::die(&format!("evidence: {}", x));
        }
    }
    let _ = prog;
    for (m, p) in &vlines {
        out!("VIOLATION property={} replay={} {}", prop, p, m.replace('\n', " "));
    }
    if !vlines.is_empty() {
        return 1;
    }
    if !irrepro.is_empty() || !mismatches.is_empty() {
        out!("error: the symbolic run and the real code disagree");
        return 3;
    }
    if !unreached.is_empty() && left == 0 && unstarted == 0 && o.get("only").is_none() {
        out!("error: some assertions are unreachable, the check would be vacuous");
        return 4;
    }
    0
}
