//! What is said about a run that fails.
use super::common::*;
use super::{c06, Prop};
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};

/// What goes wrong.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Wrong {
    /// the k-th (modulo) operation on inputs or outputs, for good
    Op(u32, i32),
    /// a source: cut off, spoiled, a directory, gone
    Source(u32, u32),
    /// the configuration: unknown key, wrong type, not TOML, not text, a directory, gone
    Config(u32),
    /// manifest or metadata file
    Manifest(u32),
    /// the disk is full after this many bytes
    Disk(i64),
    /// the k-th (modulo) child
    Child(u32, c06::Bad),
    /// the command line
    Usage(u32),
    /// the header differs from what is to be verified
    Verify,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Trial {
    wrong: Vec<Wrong>,
    /// of the environment the second time
    seed: u64,
    /// there is a header of old
    stale: bool,
    sched: Sched,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    base: Base,
    trials: Vec<Trial>,
}
pub struct C25;

const USAGE: u32 = 12;
impl Wrong {
    fn job(&self, b: &Base, mut j: Job) -> Job {
        let Wrong::Usage(k) = self else {
            if *self == Wrong::Verify {
                j.args.insert(0, "--verify".into());
            }
            return j;
        };
        let drop = |a: &mut Vec<String>, o: &[&str]| {
            while let Some(i) = a.iter().position(|x| o.contains(&x.as_str())) {
                a.drain(i..(i + 2).min(a.len()));
            }
        };
        match k % USAGE {
            0 => {
                // nothing to compare with
                drop(&mut j.args, &["-o", "--output", "--out"]);
                j.args.insert(0, "--verify".into());
            }
            1 => j.args = ["--lang", "Pascal"].iter().map(|s| s.to_string()).chain(j.args).collect(),
            2 => j.args.insert(0, "--no-such-option".into()),
            3 => *j.args.last_mut().unwrap() = "@ROOT@/nowhere".into(),
            4 => *j.args.last_mut().unwrap() = "@ROOT@/nowhere/lib.rs".into(),
            5 => {
                drop(&mut j.args, &["-c", "--config"]);
                j.args.splice(0..0, ["-c".into(), "@ROOT@/nowhere.toml".into()]);
            }
            6 => {
                drop(&mut j.args, &["--metadata"]);
                j.args.splice(0..0, ["--metadata".into(), "@ROOT@/nowhere.json".into()]);
            }
            7 => {
                drop(&mut j.args, &["--crate"]);
                j.args.splice(0..0, ["--crate".into(), "no-such-crate".into()]);
            }
            8 => {
                drop(&mut j.args, &["--lockfile"]);
                j.args.splice(0..0, ["--lockfile".into(), "@ROOT@/nowhere.lock".into()]);
            }
            9 => {
                // a directory without a crate in it
                j.args.pop();
                j.cwd = "tmp".into();
            }
            10 => j.args.push("@ROOT@/a-second-input".into()),
            _ => {
                // an output that is a directory
                drop(&mut j.args, &["-o", "--output", "--out"]);
                j.args.splice(0..0, ["-o".into(), "@ROOT@/tmp".into()]);
            }
        }
        let _ = b;
        j
    }
    /// Make it so; the file that must be named, if any.
    fn lay(&self, b: &Base, w: &World) -> R<Option<String>> {
        let spoil = |f: &str, how: u32| -> R<()> {
            let p = w.abs(f);
            if p.is_dir() {
                return Ok(());
            }
            match how % 6 {
                0 => w.put(f, b"\nfn broken( {\n")?,
                1 => {
                    let mut d = std::fs::read(&p).unwrap_or_default();
                    d.extend_from_slice(b"\n// \xff\n");
                    w.put(f, &d)?;
                }
                2 => {
                    let _ = std::fs::remove_file(&p);
                    std::fs::create_dir_all(&p)?;
                }
                3 => {
                    let _ = std::fs::remove_file(&p);
                }
                4 => w.put(f, b"no_such_key = 1\n")?,
                _ => w.put(f, b"language = 3\n")?,
            }
            Ok(())
        };
        Ok(match self {
            Wrong::Source(k, how) if !b.project.sources.is_empty() => {
                let f = b.project.sources[*k as usize % b.project.sources.len()].clone();
                spoil(&f, how % 4)?;
                // what is there but cannot be used has to be named
                Some(f)
            }
            Wrong::Config(how) => match &b.project.config {
                Some(f) => {
                    spoil(f, *how)?;
                    // the text of a configuration is quoted instead
                    if matches!(how % 6, 1..=3) { Some(f.clone()) } else { None }
                }
                None => None,
            },
            Wrong::Manifest(how) if b.project.is_crate() => {
                let d = b.project.input.trim_start_matches("@ROOT@/").trim_end_matches('/').to_string();
                let f = if how / 4 % 2 == 0 { format!("{d}/Cargo.toml") } else { "meta.json".into() };
                if w.abs(&f).is_file() {
                    spoil(&f, how % 4)?;
                }
                None
            }
            Wrong::Verify => {
                if let Some(o) = &b.out {
                    w.put(o, b"/* something else */\n")?;
                }
                None
            }
            _ => None,
        })
    }
}

/// The messages, without what differs between any two processes.
fn said(w: &World, j: &JobOut) -> Vec<String> {
    let thread = |l: &str| -> String {
        // "thread 'main' (1234) panicked at"
        if let (Some(a), Some(p)) = (l.find(" ("), l.find(") panicked at")) {
            if l.starts_with("thread '") && a < p {
                return format!("{}{}", &l[..a], &l[p + 1..]);
            }
        }
        l.to_string()
    };
    // and the random names of temporary directories
    let mut text = String::new();
    for (i, x) in w.unsubst(&j.err()).split("@ROOT@/tmp/").enumerate() {
        if i > 0 {
            text.push_str("@ROOT@/tmp/");
        }
        let n = if i == 0 { 0 } else { x.find(|c: char| matches!(c, '/' | '"' | '\'' | '`') || c.is_whitespace()).unwrap_or(x.len()) };
        text.push_str(&x[n..]);
    }
    text.lines().map(|l| thread(l).trim_end().to_string()).filter(|l| !l.is_empty() && !l.starts_with("Usage:")).collect()
}
/// Is the one, in order, part of the other?
fn within(a: &[String], b: &[String]) -> bool {
    let mut it = b.iter();
    a.iter().all(|x| it.any(|y| y == x))
}
/// The place where it happened is not a message.
fn is_message(l: &str) -> bool {
    let l = l.trim();
    l.chars().any(|c| c.is_alphanumeric()) && !(l.starts_with("thread '") && l.contains("panicked at")) && !l.starts_with("note: run with `RUST_BACKTRACE") && l != "ERROR:" && l != "WARN:"
}

const MARKS: &[&str] = &["warning: unused variable", "error: the child failed", "error: could not compile"];

impl Prop for C25 {
    type Case = Case;
    const ID: &'static str = "C25";
    fn gen(&self, env: &Env, r: &mut Rng, n: u64) -> Case {
        let per = if n % 32 == 9 { 30 } else { *r.pick(&[1, 2, 4, 8]) };
        let mut p = if r.chance(1, 2) {
            let d = r.chance(1, 2);
            let clean = r.chance(1, 4);
            workspace(r, per, d, if d { &["@root", "@deps"] } else { &["@root"] }, clean).0
        } else {
            any_project(r, &env.corpus, per)
        };
        p.args.retain(|a| !matches!(a.as_str(), "-q" | "--quiet" | "-v" | "-vv"));
        if p.is_crate() && r.chance(1, 4) {
            let m = p.metadata.clone().unwrap();
            p.files.insert("meta.json".into(), m);
            p.args.extend(["--metadata".into(), "@ROOT@/meta.json".into()]);
        }
        let base = with_outputs(r, p, Want { stdout: true, dep: true, sym: true });
        let trials = (0..r.range(2, 6))
            .map(|_| {
                let one = |r: &mut Rng| match r.below(14) {
                    0..=3 => {
                        let errs = if r.chance(1, 2) { READ_ERRS } else { WRITE_ERRS };
                        Wrong::Op(r.below(1_000_000) as u32, *r.pick(errs))
                    }
                    4 | 5 => Wrong::Source(r.below(1000) as u32, r.below(1000) as u32),
                    6 | 7 => Wrong::Config(r.below(1000) as u32),
                    8 => Wrong::Manifest(r.below(1000) as u32),
                    9 => Wrong::Disk(*r.pick(&[0, 1, 100, 1000, 4000])),
                    10 => Wrong::Child(r.below(1000) as u32, c06::bad(r)),
                    11 => Wrong::Child(r.below(1000) as u32, c06::Bad::Partial(*r.pick(&[0, 0, 500, 990]), *r.pick(&[1, 2, 101]))),
                    12 => Wrong::Usage(r.below(1000) as u32),
                    _ => Wrong::Verify,
                };
                let mut wrong = vec![one(r)];
                if r.chance(1, 6) {
                    wrong.push(one(r));
                }
                Trial { wrong, seed: r.next(), stale: r.chance(1, 2), sched: if r.chance(1, 2) { Sched::default() } else { Sched::Random { seed: r.next(), inv: *r.pick(&[1, 2, 5]), allocs: 0 } } }
            })
            .collect();
        Case { base, trials }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        let b = &c.base;
        w.reset()?;
        let (ro, _) = b.reference(w, st)?;
        if !ro.jobs[0].ok() {
            // at fault is something else
            st.probe("input rejected");
            return Ok(None);
        }
        for (i, t) in c.trials.iter().enumerate() {
            let mut named = vec![];
            let mut cands: Vec<Fault> = vec![];
            let mut nchild = 0;
            let mut got: Vec<(String, JobOut, Vec<String>, Outs, Option<usize>)> = vec![];
            let mut hit: Vec<(u32, String)> = vec![];
            // a rehearsal, then every degree of loudness, then once more elsewhere
            for v in ["rehearsal", "", "--quiet", "-v", "-vv", "again", "again loud"] {
                if v == "rehearsal" && !t.wrong.iter().any(|x| matches!(x, Wrong::Op(..) | Wrong::Child(..))) {
                    continue;
                }
                w.reset()?;
                b.project.materialise(w)?;
                let mut j = b.job();
                named.clear();
                if let (Some(o), true) = (&b.out, t.stale) {
                    w.put(o, b"/* of old */\n")?;
                }
                for x in &t.wrong {
                    named.extend(x.lay(b, w)?);
                    j = x.job(b, j);
                }
                if v.starts_with('-') {
                    j.args.insert(0, v.into());
                }
                if v == "again loud" {
                    j.args.insert(0, "-vv".into());
                }
                let again = v.starts_with("again");
                if again {
                    let mut r = Rng::new(t.seed);
                    j.hash_seed = r.next();
                    j.heap = r.next();
                    j.dirseed = r.next();
                    j.pid = 1000 + r.below(20000) as u32;
                }
                let disk = t.wrong.iter().find_map(|x| if let Wrong::Disk(n) = x { Some(*n) } else { None });
                let mut m = c06::BadCargo { good: GoodCargo::new(&b.project, w), bad: vec![], filtered: false, fired: 0, failed: false };
                let mut plan = Plan { disk, sched: t.sched.clone(), ..Plan::default() };
                if v != "rehearsal" {
                    plan.faults = cands.clone();
                    if nchild > 0 {
                        m.bad = t.wrong.iter().filter_map(|x| if let Wrong::Child(k, b) = x { Some((*k as usize % nchild, b.clone())) } else { None }).collect();
                    }
                }
                let o = st.run(w, &[j], &plan, &mut m)?;
                if v == "rehearsal" {
                    nchild = o.stubs.len();
                    let evs: Vec<&Event> = o
                        .events
                        .iter()
                        .filter(|e| e.actor == 0 && e.at != u32::MAX && !matches!(e.op, op::SLEEP | op::FORK) && e.ret >= 0 && !e.path.starts_with("tmp"))
                        .collect();
                    let picks: Vec<Pick> = t.wrong.iter().filter_map(|x| if let Wrong::Op(k, e) = x { Some(Pick { k: *k, act: Act::Fail(*e), sticky: true }) } else { None }).collect();
                    cands = place_on(&picks, &evs);
                    for f in &mut cands {
                        // pipes that are waited for do not answer so
                        if f.act == Act::Fail(libc::EAGAIN) && f.on.as_ref().map(|x| x.0 == op::POLL || x.1.starts_with('<')) == Some(true) {
                            f.act = Act::Fail(libc::EIO);
                        }
                    }
                    continue;
                }
                if m.fired > 0 {
                    *st.injected.entry("child misbehaviour".into()).or_insert(0) += m.fired;
                    st.case_faults += m.fired;
                }
                let jo = o.jobs[0].clone();
                if no_termination(&jo) {
                    return Ok(violation("no termination", format!("trial {i}: {:?}: {}", t.wrong, exit_text(&jo))));
                }
                let what = format!("trial {i} ({v}): {:?} {:?}", t.wrong, o.events.iter().filter(|e| e.act != Act::Proceed).map(|e| e.line()).take(2).collect::<Vec<_>>());
                let lines = said(w, &jo);
                let now: Vec<(u32, String)> = o.events.iter().filter(|e| e.act != Act::Proceed).map(|e| (e.op, e.path.clone())).collect();
                if v.is_empty() {
                    hit = now;
                } else if again && now != hit {
                    // the order of things may be another one, and the fault then misses
                    st.probe("not the same fault again");
                    continue;
                }
                if !jo.ok() {
                    st.probe("failed");
                    if !matches!(jo.exit, Some(Exit::Code(_))) {
                        return Ok(violation("killed", format!("{what}: {}", exit_text(&jo))));
                    }
                    if !lines.iter().any(|l| is_message(l)) {
                        return Ok(violation("fails without a message", format!("{what}: {:?}, stderr: {:?}", jo.exit, jo.err())));
                    }
                    // a source, manifest or configuration file that could not be opened or read
                    if let [Wrong::Op(..)] = t.wrong[..] {
                        for e in &o.events {
                            if e.act != Act::Proceed && matches!(e.op, op::OPEN | op::READ) && !e.writes() && (b.project.sources.contains(&e.path) || b.project.config.as_ref() == Some(&e.path) || e.path.ends_with("Cargo.toml")) {
                                named.push(e.path.clone());
                            }
                        }
                    }
                    // why an output could not be written
                    if let [Wrong::Op(..)] = t.wrong[..] {
                        for e in o.events.iter().filter(|e| e.writes()) {
                            let Act::Fail(n) = e.act else { continue };
                            st.probe("reason given");
                            let why = std::io::Error::from_raw_os_error(n).to_string();
                            let why = why.split(" (os error").next().unwrap().to_string();
                            if !lines.iter().any(|l| l.contains(&why) || l.contains(&format!("code: {n},")) || l.contains(&format!("os error {n})"))) {
                                return Ok(violation("reason not given", format!("{what}: {}", exit_text(&jo))));
                            }
                        }
                    }
                    if t.wrong.len() == 1 {
                        for f in &named {
                            let name = std::path::Path::new(f).file_name().unwrap().to_string_lossy().into_owned();
                            st.probe("culprit named");
                            if !lines.iter().any(|l| l.contains(&name)) {
                                return Ok(violation("culprit not named", format!("{what}: {f} is at fault; {}", exit_text(&jo))));
                            }
                        }
                    }
                    if let [Wrong::Child(_, c06::Bad::Status(_) | c06::Bad::Partial(..))] = t.wrong[..] {
                        // that an expansion failed is a warning, as the run goes on
                        // (and what is cut in the middle of a character is not text)
                        if m.failed && v != "--quiet" && !lines.iter().any(|l| l.contains("Utf8Error")) {
                            st.probe("child quoted");
                            if !MARKS.iter().all(|m| lines.iter().any(|l| l.contains(m))) {
                                return Ok(violation("what the child said is lost", format!("{what}: {}", exit_text(&jo))));
                            }
                        }
                    }
                } else {
                    st.probe("succeeded");
                }
                let outs = b.outs(w, &jo.stdout);
                got.push((what, jo, lines, outs, match v { "again" => Some(0), "again loud" => Some(3), _ => None }));
            }
            if !t.wrong.iter().any(|x| matches!(x, Wrong::Op(..) | Wrong::Child(..))) {
                *st.injected.entry("unusable input or command line".into()).or_insert(0) += 1;
                st.case_faults += 1;
            }
            let (_, plain, _, po, _) = &got[0];
            for (what, jo, lines, outs, again) in &got[1..] {
                if jo.exit != plain.exit {
                    return Ok(violation("exit status differs", format!("{what}: {:?} instead of {:?}", jo.exit, plain.exit)));
                }
                if let Some(d) = outs_diff(outs, po) {
                    return Ok(violation("outputs differ", format!("{what}: {d}")));
                }
                // (but for the names of temporary directories)
                if let Some(k) = again {
                    let pl = &got[*k].2;
                    if lines != pl {
                        return Ok(violation("messages differ", format!("{what}: {}", diff(lines.join("\n").as_bytes(), pl.join("\n").as_bytes()))));
                    }
                }
            }
            for k in [(1, 0), (0, 2), (2, 3)] {
                let (x, y) = (&got[k.0], &got[k.1]);
                if !within(&x.2, &y.2) {
                    let l = x.2.iter().find(|l| !y.2.contains(l)).cloned().unwrap_or_default();
                    return Ok(violation("more said when less is asked for", format!("{} but not {}: {l:?}", x.0, y.0)));
                }
            }
        }
        Ok(None)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for t in shrink_vec(&c.trials) {
            v.push(Case { trials: t, ..c.clone() });
        }
        for i in 0..c.trials.len() {
            let t = &c.trials[i];
            let mut put = |x: Trial| {
                let mut d = c.clone();
                d.trials[i] = x;
                v.push(d);
            };
            for p in shrink_vec(&t.wrong) {
                put(Trial { wrong: p, ..t.clone() });
            }
            for s in shrink_sched(&t.sched) {
                put(Trial { sched: s, ..t.clone() });
            }
        }
        for b in c.base.shrink() {
            v.push(Case { base: b, ..c.clone() });
        }
        v
    }
    fn summary(&self, c: &Case) -> String {
        format!("{}; {:?}", c.base.summary(), c.trials.iter().map(|t| &t.wrong).collect::<Vec<_>>())
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of cases in which something went wrong: a failing operation, an unusable input, a misbehaving child, a full disk, a bad command line or a header that does not match; each is run at four degrees of verbosity and once more with other hash seeds, heap layout, directory order and process number"
    }
}
