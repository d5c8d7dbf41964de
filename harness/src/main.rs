//! verif-harness check <PROP> <quick|thorough>   run one property's monitors, write its evidence
//! verif-harness replay <FILE>                   run the one scenario a violation file names
//! verif-harness explore <PROP|dec|float> <N>    print what the monitors see
mod amm;
mod big;
mod bitmap;
mod chain;
mod checks;
mod fresh;
mod same;
mod hist;
mod math;
mod num;
mod refamm;
mod report;
mod sim;
mod util;
use checks::*;
use std::io::Write;
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

const STALL: u64 = 240; // seconds one scenario may take before it counts as not terminating

/// the code under test prints: its stdout goes to /dev/null, ours is kept aside
fn quiet() -> std::fs::File {
    unsafe {
        let keep = dup(1);
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        dup2(null.as_raw_fd(), 1);
        std::fs::File::from_raw_fd(keep)
    }
}

pub struct RunResult {
    pub cov: Cov,
    pub wall: f64,
    pub scenarios: u64,
    pub cut: bool,
}

fn run(c: &'static Check, seed: u64, n: u64, only: Option<u64>, limit: f64) -> RunResult {
    let t0 = Instant::now();
    // C33 captures the standard output, of which there is one
    let w = if only.is_some() || c.id == "C33" { 1 } else { 8u64 };
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(only.unwrap_or(0)));
    let end = only.map(|o| o + 1).unwrap_or(n);
    // what each worker is doing: scenario + 1 and when it started (ms)
    let doing: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..w).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    let result: Arc<Mutex<Vec<Cov>>> = Arc::new(Mutex::new(vec![]));
    let done = Arc::new(AtomicU64::new(0));
    let count = Arc::new(AtomicU64::new(0));
    for k in 0..w {
        let (stop, next, doing, result, done, count) = (stop.clone(), next.clone(), doing.clone(), result.clone(), done.clone(), count.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let mut cov = Cov::new();
                let mut vio = 0;
                while !stop.load(Ordering::Relaxed) {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= end {
                        break;
                    }
                    doing[k as usize].1.store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                    doing[k as usize].0.store(i + 1, Ordering::Relaxed);
                    if let Err(e) = attempt(|| (c.scen)(c.id, seed, i, &mut cov)) {
                        cov.fail(&format!("{}:monitored code or monitor broke down", c.id), e, &[], i);
                    }
                    count.fetch_add(1, Ordering::Relaxed);
                    doing[k as usize].0.store(0, Ordering::Relaxed);
                    let v = cov.nviol;
                    if v > vio {
                        vio = v;
                        if v >= 200 {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                result.lock().unwrap().push(cov);
                done.fetch_add(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    let mut stalled = vec![];
    let mut cut = false;
    loop {
        if done.load(Ordering::SeqCst) == w {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        if now as f64 / 1000.0 > limit && !cut {
            cut = true;
            stop.store(true, Ordering::Relaxed);
        }
        for d in doing.iter() {
            let s = d.0.load(Ordering::Relaxed);
            if s > 0 && now.saturating_sub(d.1.load(Ordering::Relaxed)) > STALL * 1000 && !stalled.contains(&(s - 1)) {
                stalled.push(s - 1);
                stop.store(true, Ordering::Relaxed);
            }
        }
        if !stalled.is_empty() && done.load(Ordering::SeqCst) + stalled.len() as u64 >= w {
            break;
        }
    }
    let mut tot = Cov::new();
    for c in result.lock().unwrap().drain(..) {
        tot.merge(c);
    }
    for s in stalled {
        tot.fail(&format!("{}:does not terminate", c.id), format!("scenario still running after {} s", STALL), &[], s);
    }
    tot.violations.sort_by_key(|v| (v.scenario, v.class.clone()));
    RunResult { cov: tot, wall: t0.elapsed().as_secs_f64(), scenarios: count.load(Ordering::Relaxed), cut }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(c: &Check, tier: &str, seed: u64, r: &RunResult, known: &[String], bad: usize) {
    let mut counts = String::new();
    for (k, v) in &r.cov.counts {
        if !counts.is_empty() {
            counts.push_str(", ");
        }
        counts.push_str(&format!("{}: {}", js(k), v));
    }
    let mut mx = String::new();
    for (k, v) in &r.cov.max {
        if !mx.is_empty() {
            mx.push_str(", ");
        }
        mx.push_str(&format!("{}: {}", js(k), if v.is_finite() { format!("{:e}", v) } else { "null".into() }));
    }
    let samples: Vec<String> = r.cov.samples.iter().map(|s| js(s)).collect();
    let ass: Vec<String> = c.assumptions.iter().map(|s| js(s)).collect();
    let kn: Vec<String> = known.iter().map(|s| js(s)).collect();
    let txt = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"scenarios\": {}, \"cut_short_by_time\": {}, \"rule\": {}, \"samples\": [{}], \"observed\": {{{}}}, \"extremes\": {{{}}}, \"known_findings\": [{}]}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
        js(c.id), js(tier), seed, r.cov.evaluations, r.cov.distinct.len(), r.scenarios, r.cut, js(c.rule), samples.join(", "), counts, mx, kn.join(", "), ass.join(", "), r.wall, bad
    );
    std::fs::create_dir_all("/verif/evidence").unwrap();
    std::fs::write(format!("/verif/evidence/{}.json", c.id), txt).unwrap();
}

fn main() {
    install_panic_hook();
    let mut out = quiet();
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in CHECKS {
                writeln!(out, "{}", c.id).unwrap();
            }
        }
        Some("check") => {
            let c = find(&args[2]);
            let tier = args.get(3).map(|s| s.as_str()).unwrap_or("quick");
            let (n, limit) = if tier == "thorough" { (c.thorough, 600.0) } else { (c.quick, 150.0) };
            let r = run(c, seed, n, None, limit);
            let known_file = std::fs::read_to_string("/verif/KNOWN_FINDINGS.txt").unwrap_or_default();
            let mut known: Vec<String> = vec![];
            for k in r.cov.findings.iter() {
                let key = format!("finding: property={} key={}", c.id, k.0);
                if known_file.lines().any(|l| l.starts_with(&key)) {
                    known.push(format!("{}: {}", k.0, k.1));
                }
            }
            let bad: Vec<&Violation> = r.cov.violations.iter().collect();
            // a finding the file does not list is a violation like any other
            let unlisted: Vec<Violation> = r.cov.findings.iter().filter(|k| !known.iter().any(|n| n.starts_with(&format!("{}: ", k.0))))
                .map(|k| Violation { what: k.1.clone(), class: format!("{}:{}", c.id, k.0), trace: vec![], scenario: 0 }).collect();
            let bad: Vec<&Violation> = bad.into_iter().chain(unlisted.iter()).collect();
            evidence(c, tier, seed, &r, &known, bad.len());
            for k in &known {
                writeln!(out, "KNOWN-FINDING: property={} {}", c.id, k).unwrap();
            }
            writeln!(out, "{}: {} evaluations, {} distinct, {} scenarios in {:.1} s", c.id, r.cov.evaluations, r.cov.distinct.len(), r.scenarios, r.wall).unwrap();
            if r.cov.evaluations == 0 {
                writeln!(out, "nothing was evaluated").unwrap();
                std::process::exit(2);
            }
            if !bad.is_empty() {
                std::fs::create_dir_all("/verif/evidence/replays").unwrap();
                let mut seen: Vec<String> = vec![];
                for v in bad {
                    if seen.contains(&v.class) || seen.len() >= 5 {
                        continue;
                    }
                    let p = format!("/verif/evidence/replays/{}-{}.txt", c.id, seen.len());
                    seen.push(v.class.clone());
                    let mut t = format!("property {}\nseed {}\nscenario {}\nclass {}\n{}\n", c.id, seed, v.scenario, v.class, v.what);
                    for l in &v.trace {
                        t.push_str(l);
                        t.push('\n');
                    }
                    std::fs::write(&p, t).unwrap();
                    writeln!(out, "{}: {}", v.class, v.what.chars().take(600).collect::<String>()).unwrap();
                    writeln!(out, "VIOLATION property={} replay={}", c.id, p).unwrap();
                }
                std::process::exit(1);
            }
            std::process::exit(0);
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&args[2]).unwrap();
            let get = |k: &str| t.lines().find(|l| l.starts_with(k)).map(|l| l[k.len()..].trim().to_string()).unwrap();
            let c = find(&get("property "));
            let r = run(c, get("seed ").parse().unwrap(), 0, Some(get("scenario ").parse().unwrap()), 600.0);
            for v in &r.cov.violations {
                writeln!(out, "{}: {}", v.class, v.what).unwrap();
                for l in &v.trace {
                    writeln!(out, "    {}", l).unwrap();
                }
            }
            std::process::exit(if r.cov.violations.is_empty() { 0 } else { 1 });
        }
        Some("explore") => {
            let c = find(&args[2]);
            let n = args[3].parse().unwrap();
            let only = std::env::var("ONLY").ok().and_then(|s| s.parse().ok());
            let r = run(c, seed, n, only, 1e9);
            writeln!(out, "{}: {} evaluations {} distinct in {:.1} s", c.id, r.cov.evaluations, r.cov.distinct.len(), r.wall).unwrap();
            for (k, v) in &r.cov.counts {
                writeln!(out, "{:>9} {}", v, k).unwrap();
            }
            for (k, v) in &r.cov.max {
                writeln!(out, "max {} = {}", k, v).unwrap();
            }
            for k in &r.cov.findings {
                writeln!(out, "finding {}: {}", k.0, k.1).unwrap();
            }
            let mut seen = std::collections::BTreeMap::new();
            for v in &r.cov.violations {
                let c = seen.entry(v.class.clone()).or_insert(0);
                *c += 1;
                if *c <= 3 {
                    writeln!(out, "--- {} (scenario {}): {}", v.class, v.scenario, v.what).unwrap();
                    if *c == 1 && args.len() > 4 {
                        for t in &v.trace {
                            writeln!(out, "      {}", t).unwrap();
                        }
                    }
                }
            }
        }
        _ => {
            eprintln!("usage: verif-harness list | check PROP TIER | replay FILE | explore PROP N [v]");
            std::process::exit(2);
        }
    }
}
