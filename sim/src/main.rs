//! vsim: deterministic simulation with fault injection for cbindgen.
mod engine;
mod gen;
mod props;
mod rng;
mod util;

use engine::*;
use props::{all, DynProp};
use rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Env {
    pub corpus: gen::Corpus,
    pub thorough: bool,
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub runs: u64,
    pub steps: u64,
    pub sim_ns: i64,
    pub injected: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub ops: BTreeMap<&'static str, u64>,
    /// hash over all event logs of the current case
    pub case_hash: u64,
    pub case_faults: u64,
    pub last_trace: Vec<String>,
    pub keep_trace: bool,
    /// the random schedules of the current case, made explicit
    pub scheds: Vec<Sched>,
}
impl Stats {
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_insert(0) += 1;
    }
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.runs += o.runs;
        self.steps += o.steps;
        self.sim_ns += o.sim_ns;
        for (k, v) in o.injected {
            *self.injected.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.ops {
            *self.ops.entry(k).or_insert(0) += v;
        }
        self.hashes.extend(o.hashes);
        self.nontrivial.extend(o.nontrivial);
    }
    /// Run under a plan and account for it.
    pub fn run(&mut self, w: &mut World, jobs: &[Job], plan: &Plan, stubs: &mut dyn StubModel) -> R<RunOut> {
        let o = w.run(jobs, plan, stubs)?;
        self.runs += 1;
        self.steps += o.events.len() as u64;
        self.sim_ns += o.sim_ns;
        let mut disturb = 0;
        for (k, v) in &o.injected {
            *self.injected.entry(k.to_string()).or_insert(0) += v;
            disturb += v;
        }
        if !o.switches.is_empty() {
            *self.injected.entry("actor switch".into()).or_insert(0) += o.switches.len() as u64;
            disturb += o.switches.len() as u64;
        }
        let pre = o.events.iter().filter(|e| e.op == op::PREEMPT).count() as u64;
        if pre > 0 {
            *self.injected.entry("preemption inside a computation".into()).or_insert(0) += pre;
            disturb += pre;
        }
        for e in &o.events {
            *self.ops.entry(op::name(e.op)).or_insert(0) += 1;
        }
        self.hashes.insert(o.log_hash);
        rng::fnv(&mut self.case_hash, &o.log_hash.to_ne_bytes());
        for j in &o.jobs {
            rng::fnv(&mut self.case_hash, format!("{:?}", j.exit).as_bytes());
        }
        self.case_faults += disturb;
        if let Sched::Random { .. } = plan.sched {
            self.scheds.push(Sched::Fixed {
                switches: o.switches.clone(),
                preempts: o.preempts.clone(),
            });
        }
        if self.keep_trace {
            self.last_trace = o.trace();
        }
        Ok(o)
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub fn violation(class: &str, detail: impl Into<String>) -> Option<Violation> {
    Some(Violation {
        class: class.into(),
        detail: detail.into(),
    })
}

fn run_case(p: &dyn DynProp, env: &Env, w: &mut World, case: &Value, st: &mut Stats) -> R<(Option<Violation>, u64)> {
    st.case_hash = 0xcbf29ce484222325;
    st.case_faults = 0;
    st.last_trace.clear();
    st.scheds.clear();
    w.reset()?;
    // a case that the harness cannot handle is an error of the harness, never an answer
    let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.run(env, w, case, st)))
        .unwrap_or_else(|_| Err(HarnessError("panic".into())))?;
    st.cases += 1;
    if st.case_faults > 0 || p.always_nontrivial() {
        st.nontrivial.insert(st.case_hash);
    }
    Ok((v, st.case_hash))
}

fn minimise(p: &dyn DynProp, env: &Env, w: &mut World, mut case: Value, v: Violation, budget: Duration) -> (Value, Violation, u64) {
    let t0 = Instant::now();
    let mut best = v.clone();
    let mut tries = 0;
    // first turn seeded schedules into explicit ones
    let mut st = Stats::default();
    if run_case(p, env, w, &case, &mut st).is_ok() && !st.scheds.is_empty() && t0.elapsed() < budget / 4 {
        if let Some(c2) = p.explicit(&case, &st.scheds) {
            let mut st = Stats::default();
            if let Ok((Some(v2), _)) = run_case(p, env, w, &c2, &mut st) {
                if v2.class == v.class {
                    case = c2;
                    best = v2;
                }
            }
        }
    }
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        for cand in p.shrink(&case) {
            if t0.elapsed() >= budget {
                break;
            }
            tries += 1;
            let mut st = Stats::default();
            match run_case(p, env, w, &cand, &mut st) {
                Ok((Some(v2), _)) if v2.class == v.class => {
                    case = cand;
                    best = v2;
                    progress = true;
                    break;
                }
                _ => {}
            }
        }
    }
    (case, best, tries)
}

struct Args {
    cmd: String,
    rest: Vec<String>,
    tools: Tools,
    verif: PathBuf,
}
fn parse_args() -> Result<Args, String> {
    let mut cmd = String::new();
    let mut rest = vec![];
    let mut bin = PathBuf::new();
    let mut cb = PathBuf::new();
    let mut dr = PathBuf::new();
    let mut verif = PathBuf::from("/verif");
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--shimdir" => bin = it.next().ok_or("--shimdir")?.into(),
            "--cbindgen" => cb = it.next().ok_or("--cbindgen")?.into(),
            "--driver" => dr = it.next().ok_or("--driver")?.into(),
            "--verif" => verif = it.next().ok_or("--verif")?.into(),
            _ if cmd.is_empty() => cmd = a,
            _ => rest.push(a),
        }
    }
    Ok(Args {
        cmd,
        rest,
        tools: Tools {
            cbindgen: cb,
            driver: dr,
            shim: bin.join("libvsim.so"),
            stub: bin.join("stub"),
        },
        verif,
    })
}

/// All scratch lives here; removed at the end, and stale ones of dead processes at the start.
fn scratch_base() -> PathBuf {
    let root = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    if let Ok(rd) = std::fs::read_dir(root) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if let Some(p) = n.strip_prefix("vsim.") {
                if let Ok(pid) = p.parse::<u32>() {
                    if !Path::new(&format!("/proc/{pid}")).exists() {
                        let _ = std::fs::remove_dir_all(e.path());
                    }
                }
            }
        }
    }
    PathBuf::from(format!("{root}/vsim.{:08}", std::process::id()))
}

struct Found {
    n: u64,
    case: Value,
    v: Violation,
}

fn main() {
    unsafe {
        // the same memory layout in every run; varied explicitly where it matters
        libc::personality(0x0040000);
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
    }
    let args = match parse_args() {
        Ok(a) => a,
        Err(e) => {
            eprintln!("vsim: {e}");
            std::process::exit(3)
        }
    };
    let code = match args.cmd.as_str() {
        "check" => check(&args),
        "replay" => replay(&args),
        "selftest" => selftest(&args),
        "trace" => trace(&args),
        c => Err(HarnessError(format!("unknown command {c}"))),
    };
    match code {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            eprintln!("vsim: harness error: {}", e.0);
            std::process::exit(3)
        }
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
fn tier_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

fn find_prop(id: &str) -> R<Box<dyn DynProp>> {
    all().into_iter().find(|p| p.id() == id).ok_or_else(|| HarnessError(format!("no property {id}")))
}

fn workers() -> usize {
    std::env::var("VSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
    })
}

fn check(a: &Args) -> R<i32> {
    let id = a.rest.first().ok_or_else(|| HarnessError("property id".into()))?.clone();
    let prop = find_prop(&id)?;
    let thorough = tier_thorough();
    let env = Env {
        corpus: gen::Corpus::load(&a.verif.join("corpus"))?,
        thorough,
    };
    let seed = seed();
    let t0 = Instant::now();
    let (mut max_cases, mut secs) = prop.budget(thorough);
    if let Some(s) = std::env::var("VSIM_SECS").ok().and_then(|s| s.parse().ok()) {
        secs = s;
        max_cases = u64::MAX;
    }
    if let Some(s) = std::env::var("VSIM_CASES").ok().and_then(|s| s.parse().ok()) {
        max_cases = s;
    }
    println!("vsim: property {id} seed {seed} tier {} budget {max_cases} cases / {secs} s", if thorough { "thorough" } else { "quick" });
    let base = scratch_base();
    let nw = workers();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let stats = Mutex::new(Stats::default());
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let rechecked = AtomicU64::new(0);
    let diverged = AtomicU64::new(0);
    let deadline = t0 + Duration::from_secs(secs);
    std::thread::scope(|sc| {
        for wk in 0..nw {
            let (prop, env, base, next, stop, found, stats, errors, rechecked, diverged) =
                (&prop, &env, &base, &next, &stop, &found, &stats, &errors, &rechecked, &diverged);
            let tools = &a.tools;
            sc.spawn(move || {
                let mut w = match World::new(tools, base, wk) {
                    Ok(w) => w,
                    Err(e) => {
                        errors.lock().unwrap().push(e.0);
                        stop.store(true, Ordering::SeqCst);
                        return;
                    }
                };
                let mut st = Stats::default();
                let mut consecutive = 0;
                while !stop.load(Ordering::SeqCst) && Instant::now() < deadline {
                    let n = next.fetch_add(1, Ordering::SeqCst);
                    if n >= max_cases {
                        break;
                    }
                    let mut r = Rng::derive(seed, prop.id(), n);
                    let case = prop.gen(env, &mut r, n);
                    match run_case(prop.as_ref(), env, &mut w, &case, &mut st) {
                        Ok((None, h)) => {
                            consecutive = 0;
                            if n % 64 == 5 {
                                // determinism: the same case again must give the same event logs
                                let mut s2 = Stats::default();
                                if let Ok((v2, h2)) = run_case(prop.as_ref(), env, &mut w, &case, &mut s2) {
                                    rechecked.fetch_add(1, Ordering::SeqCst);
                                    if h2 != h || v2.is_some() {
                                        diverged.fetch_add(1, Ordering::SeqCst);
                                        eprintln!("vsim: case {n}: a second run took another course");
                                    }
                                }
                            }
                        }
                        Ok((Some(v), _)) => {
                            // only what reproduces is reported
                            let (mut again, t1) = (0, Instant::now());
                            for k in 0..2 {
                                // one that takes this long (a hang) is run once more only
                                if k == 1 && t1.elapsed() > Duration::from_secs(15) {
                                    again *= 2;
                                    break;
                                }
                                let mut s2 = Stats::default();
                                if let Ok((Some(v2), _)) = run_case(prop.as_ref(), env, &mut w, &case, &mut s2) {
                                    if v2.class == v.class {
                                        again += 1;
                                    }
                                }
                            }
                            if again == 2 {
                                found.lock().unwrap().push(Found { n, case, v });
                                stop.store(true, Ordering::SeqCst);
                            } else {
                                st.probe("violation that did not reproduce");
                                eprintln!("vsim: case {n}: {} did not reproduce: {}", v.class, v.detail);
                            }
                        }
                        Err(e) => {
                            consecutive += 1;
                            errors.lock().unwrap().push(format!("case {n}: {}", e.0));
                            if consecutive >= 3 {
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                }
                stats.lock().unwrap().merge(st);
            });
        }
    });
    let st = stats.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    let errors = errors.into_inner().unwrap();
    found.sort_by_key(|f| f.n);
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = found.into_iter().next() {
        violations = 1;
        let mut w = World::new(&a.tools, &base, 90)?;
        let (case, v, tries) = minimise(prop.as_ref(), &env, &mut w, f.case, f.v, Duration::from_secs(if thorough { 120 } else { 40 }));
        let mut s2 = Stats { keep_trace: true, ..Stats::default() };
        let (_, h) = run_case(prop.as_ref(), &env, &mut w, &case, &mut s2)?;
        let dir = a.verif.join("replays");
        std::fs::create_dir_all(&dir)?;
        let path = dir.join(format!("{id}-{seed}-{}.json", f.n));
        let doc = json!({
            "property": id, "seed": seed, "case_number": f.n, "class": v.class, "detail": v.detail,
            "minimisation_runs": tries, "log_hash": format!("{h:016x}"), "case": case,
            "trace_of_last_run": s2.last_trace,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc)?)?;
        println!("vsim: seed {seed} case {}: {}: {}", f.n, v.class, v.detail);
        println!("VIOLATION property={id} replay={}", path.display());
        code = 1;
    }
    for e in errors.iter().take(5) {
        eprintln!("vsim: harness error: {e}");
    }
    if code == 0 && (!errors.is_empty() && (errors.len() as u64 * 20 > st.cases || st.cases == 0)) {
        let _ = std::fs::remove_dir_all(&base);
        return Err(HarnessError(format!("{} errors in {} cases", errors.len(), st.cases)));
    }
    // evidence
    let mut samples = vec![];
    {
        let mut w = World::new(&a.tools, &base, 91)?;
        for n in 0..2u64 {
            let mut r = Rng::derive(seed, prop.id(), n);
            let case = prop.gen(&env, &mut r, n);
            let mut s2 = Stats { keep_trace: true, ..Stats::default() };
            if run_case(prop.as_ref(), &env, &mut w, &case, &mut s2).is_ok() {
                let mut tr = s2.last_trace.clone();
                tr.truncate(25);
                samples.push(json!({"case": n, "summary": prop.summary(&case), "runs": s2.runs, "trace_of_last_run_head": tr}));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&base);
    let ev = json!({
        "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": prop.level(),
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": prop.rule(),
            "samples": samples,
            "cases": st.cases,
            "runs_per_hour": (st.runs as f64 / search_s * 3600.0) as u64,
            "cases_per_hour": (st.cases as f64 / search_s * 3600.0) as u64,
            "simulated_time": {"logical_steps": st.steps, "virtual_ns_slept": st.sim_ns, "note": "cbindgen sets no timers; time is the scheduler step counter, the virtual clock only answers clock reads"},
            "faults_fired": st.injected,
            "distinct_event_logs": st.hashes.len(),
            "operations_intercepted": st.ops,
            "probes": st.probes,
            "determinism": {"cases_run_twice": rechecked.load(Ordering::SeqCst), "diverged": diverged.load(Ordering::SeqCst)},
            "harness_errors": errors.len(),
            "components": {
                "real": ["cbindgen command-line program and library, unmodified, built from /repo's working tree", "Rust standard library", "the kernel's file system (tmpfs) for completed operations"],
                "stub": ["cargo and rustc child processes (scripted, through the CARGO and RUSTC variables)", "editor, enclosing cargo and user (the simulator)"],
                "simulated": ["scheduling of processes and threads", "system-call outcomes", "randomness, clock, process id, directory order, heap layout"]
            }
        },
        "assumptions": prop.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let evdir = a.verif.join("evidence");
    std::fs::create_dir_all(&evdir)?;
    std::fs::write(evdir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev)?)?;
    for f in util::known_findings(&a.verif, &id) {
        println!("KNOWN-FINDING: property={id} {f}");
    }
    println!(
        "vsim: {id}: {} cases, {} runs, {} steps, {} distinct logs, {} faults, {:.1} s; determinism {}/{} ok; probes {:?}",
        st.cases, st.runs, st.steps, st.hashes.len(), st.injected.values().sum::<u64>(), t0.elapsed().as_secs_f64(),
        rechecked.load(Ordering::SeqCst) - diverged.load(Ordering::SeqCst), rechecked.load(Ordering::SeqCst), st.probes
    );
    Ok(code)
}

fn replay(a: &Args) -> R<i32> {
    let f = a.rest.first().ok_or_else(|| HarnessError("file".into()))?;
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(f)?)?;
    let id = doc["property"].as_str().unwrap_or("").to_string();
    let prop = find_prop(&id)?;
    let env = Env {
        corpus: gen::Corpus::load(&a.verif.join("corpus"))?,
        thorough: false,
    };
    let base = scratch_base();
    let r = {
        let mut w = World::new(&a.tools, &base, 90)?;
        let mut st = Stats { keep_trace: true, ..Stats::default() };
        run_case(prop.as_ref(), &env, &mut w, &doc["case"], &mut st).map(|r| (r, st))
    };
    let _ = std::fs::remove_dir_all(&base);
    let ((v, h), st) = r?;
    for l in &st.last_trace {
        println!("  {l}");
    }
    println!("log hash {h:016x} (recorded {})", doc["log_hash"].as_str().unwrap_or("-"));
    match v {
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("VIOLATION property={id} replay={f}");
            Ok(1)
        }
        None => {
            println!("no violation");
            Ok(0)
        }
    }
}

/// Print what one generated case does.
fn trace(a: &Args) -> R<i32> {
    let id = &a.rest[0];
    let n: u64 = a.rest[1].parse()?;
    let prop = find_prop(id)?;
    let env = Env {
        corpus: gen::Corpus::load(&a.verif.join("corpus"))?,
        thorough: tier_thorough(),
    };
    let base = scratch_base();
    let r = (|| -> R<()> {
        let mut w = World::new(&a.tools, &base, 90)?;
        let mut st = Stats { keep_trace: true, ..Stats::default() };
        let mut r = Rng::derive(seed(), prop.id(), n);
        let case = prop.gen(&env, &mut r, n);
        println!("{}", serde_json::to_string_pretty(&case)?);
        let (v, h) = run_case(prop.as_ref(), &env, &mut w, &case, &mut st)?;
        for l in &st.last_trace {
            println!("  {l}");
        }
        println!("{h:016x} {v:?} {:?}", st.probes);
        if a.rest.get(2).map(|s| s == "-e").unwrap_or(false) {
            println!("{}", std::fs::read_to_string(w.dir.join("o/0.err")).unwrap_or_default());
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&base);
    r?;
    Ok(0)
}

/// Determinism: the event logs of many cases must be identical in another process, at another
/// worker count.  Prints one hash per case; the caller diffs.
fn selftest(a: &Args) -> R<i32> {
    let id = a.rest[0].clone();
    let count: u64 = a.rest.get(1).and_then(|s| s.parse().ok()).unwrap_or(64);
    let prop = find_prop(&id)?;
    let env = Env {
        corpus: gen::Corpus::load(&a.verif.join("corpus"))?,
        thorough: false,
    };
    let base = scratch_base();
    let next = AtomicU64::new(0);
    let out: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
    let seed = seed();
    std::thread::scope(|sc| {
        for wk in 0..workers() {
            let (prop, env, base, next, out) = (&prop, &env, &base, &next, &out);
            let tools = &a.tools;
            sc.spawn(move || {
                let Ok(mut w) = World::new(tools, base, wk) else { return };
                loop {
                    let n = next.fetch_add(1, Ordering::SeqCst);
                    if n >= count {
                        break;
                    }
                    let mut r = Rng::derive(seed, prop.id(), n);
                    let case = prop.gen(env, &mut r, n);
                    let mut st = Stats::default();
                    let s = match run_case(prop.as_ref(), env, &mut w, &case, &mut st) {
                        Ok((v, h)) => format!("{n} {h:016x} {}", v.map(|v| v.class).unwrap_or_default()),
                        Err(e) => format!("{n} error {}", e.0),
                    };
                    out.lock().unwrap().insert(n, s);
                }
            });
        }
    });
    let _ = std::fs::remove_dir_all(&base);
    for s in out.into_inner().unwrap().values() {
        println!("{s}");
    }
    Ok(0)
}
