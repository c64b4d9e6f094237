//! Where the cargo that expands macros builds.
use super::common::*;
use super::Prop;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Good,
    /// exit status after a share (per mille) of the text
    Status(u32, i32),
    Signal(u32, i32),
    Garbage,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Proc {
    driver: bool,
    seed: u64,
    pid: u32,
    /// --clean (not for the driver)
    clean: bool,
    /// the override variable
    over: Option<String>,
    /// runs in a build script of an enclosing cargo
    script: bool,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    project: Project,
    ws_root: String,
    /// parse.clean
    clean: bool,
    /// the enclosing cargo's target directory (None: the default) and build directory
    target: Option<String>,
    build: Option<String>,
    /// cargo's messages reach this size
    noise: i64,
    procs: Vec<Proc>,
    ends: Vec<End>,
    /// directories of the names that would be chosen are already there
    squat: u32,
    faults: Vec<Pick>,
    scheds: Vec<Sched>,
}
pub struct C13;

/// Without `.` and `..` (there are no symbolic links on the way).
fn lexical(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}

struct Child {
    tag: usize,
    target: Option<String>,
    build: Option<String>,
    /// (command, what it tells)
    marks: Vec<(usize, &'static str)>,
    rets: Vec<(usize, i64)>,
    index: usize,
    /// children of other processes that were at work in the same directory when this one started
    shares: bool,
}
struct Cargo13<'a> {
    good: GoodCargo<'a>,
    c: &'a Case,
    root: String,
    locked: Vec<String>,
    children: Vec<Child>,
    n: usize,
}
impl StubModel for Cargo13<'_> {
    fn start(&mut self, h: &StubHello) -> Vec<StubCmd> {
        if !h.is_expand() {
            return self.good.start(h);
        }
        let env = |k: &str| h.env.get(k).cloned();
        let abs = |p: &str| lexical(&if p.starts_with('/') { p.to_string() } else { format!("{}/{p}", h.cwd) });
        let target = h.opt("--target-dir").map(|s| s.to_string()).or_else(|| env("CARGO_TARGET_DIR"));
        let build = env("CARGO_BUILD_BUILD_DIR");
        let t = abs(target.as_deref().unwrap_or(&format!("{}/{}/target", self.root, self.c.ws_root)));
        let b = abs(build.as_deref().unwrap_or(&t));
        let f = format!("expand-{}.rs", expand_target(h));
        let n = self.good.len(&f);
        let end = if self.c.ends.is_empty() { End::Good } else { self.c.ends[self.n % self.c.ends.len()].clone() };
        self.n += 1;
        let share = match end {
            End::Status(k, _) | End::Signal(k, _) => n * k as i64 / 1000,
            _ => n,
        };
        let mut v = vec![StubCmd::Stat(t.clone())];
        let mut marks = vec![(0, "start")];
        v.push(StubCmd::Lock(b.clone()));
        if b != t {
            v.push(StubCmd::Lock(t.clone()));
        }
        v.push(StubCmd::Mk1(format!("{t}/one")));
        marks.push((v.len() - 1, "mkdir"));
        v.push(StubCmd::Mkdirs(format!("{t}/debug/deps/.x")));
        v.push(StubCmd::Touch(format!("{t}/debug/deps/lib.rmeta")));
        if self.c.noise > 0 {
            v.push(StubCmd::Fill(2, self.c.noise));
        }
        if end == End::Garbage {
            v.push(StubCmd::Raw(1, "pub fn {{{ not rust".into()));
        } else if share > 0 {
            v.push(StubCmd::Out(1, f.clone(), 0, share / 2));
            v.push(StubCmd::Touch(format!("{t}/debug/.lock")));
            marks.push((v.len() - 1, "middle"));
            v.push(StubCmd::Out(1, f, share / 2, share - share / 2));
        }
        v.push(StubCmd::Stat(t.clone()));
        marks.push((v.len() - 1, "end"));
        v.push(match end {
            End::Status(_, c) => StubCmd::Exit(c),
            End::Signal(_, s) => StubCmd::Kill(s),
            _ => StubCmd::Exit(0),
        });
        let tag = env("PROC_TAG").and_then(|t| t.parse().ok()).unwrap_or(0);
        let shares = self.children.iter().any(|c| {
            let last = c.marks.last().unwrap().0;
            c.tag != tag && c.target == target && !c.rets.iter().any(|r| r.0 == last)
        });
        self.children.push(Child { tag, target, build, marks, rets: vec![], index: h.index, shares });
        v
    }
    fn result(&mut self, stub: usize, cmd: usize, ret: i64) {
        if let Some(c) = self.children.iter_mut().find(|c| c.index == stub) {
            c.rets.push((cmd, ret));
        }
    }
    fn locked(&self, dir: &str) -> bool {
        self.locked.iter().any(|l| l == dir)
    }
}

impl Prop for C13 {
    type Case = Case;
    const ID: &'static str = "C13";
    fn gen(&self, _env: &Env, r: &mut Rng, n: u64) -> Case {
        let per = if n % 16 == 7 { 60 } else { *r.pick(&[1, 2, 4]) };
        let clean = r.chance(1, 3);
        let deps = r.chance(1, 2);
        let ex: &[&str] = match r.below(3) {
            0 => &["@root", "@deps"],
            _ => &["@root"],
        };
        let (mut project, ws) = workspace(r, per, deps, ex, clean);
        voice(r, &mut project);
        let script = r.chance(2, 3);
        let procs = (0..r.range(1, 3))
            .map(|i| {
                let driver = r.chance(1, 3);
                Proc {
                    driver,
                    seed: if r.chance(2, 3) { 99 } else { r.next() },
                    pid: if r.chance(1, 2) { 4242 } else { 5000 + i as u32 },
                    clean: !driver && r.chance(1, 3),
                    over: if r.chance(1, 3) { Some(r.pick(&["@ROOT@/elsewhere/x y", "@ROOT@/exp", "rel/exp"]).to_string()) } else { None },
                    script,
                }
            })
            .collect();
        Case {
            project,
            ws_root: ws.ws_root,
            clean,
            target: if r.chance(1, 3) { Some("shared target".into()) } else { None },
            build: if r.chance(1, 4) { Some("shared build".into()) } else { None },
            noise: *r.pick(&[0, 0, 5000, 200_000]),
            procs,
            ends: if r.chance(1, 2) {
                vec![]
            } else {
                (0..r.range(1, 3))
                    .map(|_| match r.below(5) {
                        0 => End::Status(r.below(1001) as u32, *r.pick(&[1, 101])),
                        1 => End::Signal(r.below(1001) as u32, *r.pick(&[9, 11, 15])),
                        2 => End::Garbage,
                        _ => End::Good,
                    })
                    .collect()
            },
            squat: if r.chance(1, 3) { r.range(1, 4) as u32 } else { 0 },
            faults: if r.chance(1, 4) {
                vec![Pick { k: r.below(1000) as u32, act: Act::Fail(*r.pick(&[libc::ENOSPC, libc::EACCES, libc::EIO, libc::EROFS, libc::EMFILE])), sticky: r.chance(1, 2) }]
            } else {
                vec![]
            },
            scheds: (0..r.range(1, 4)).map(|_| Sched::Random { seed: r.next(), inv: *r.pick(&[1, 2, 4, 10]), allocs: 0 }).collect(),
        }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        let root = w.root.to_string_lossy().into_owned();
        // what the enclosing cargo holds
        let target = c.target.clone().map(|t| format!("{root}/{t}"));
        let build = c.build.clone().map(|t| format!("{root}/{t}"));
        let tdir = target.clone().unwrap_or(format!("{root}/{}/target", c.ws_root));
        let bdir = build.clone().unwrap_or(tdir.clone());
        let script = c.procs.iter().any(|p| p.script);
        let locked = if script { vec![tdir.clone(), bdir.clone()] } else { vec![] };
        let out_dir = format!("{bdir}/debug/build/my app-12/out");
        let jobs = |w: &World| -> R<Vec<Job>> {
            let mut v = vec![];
            for (i, p) in c.procs.iter().enumerate() {
                let out = format!("out/h{i}.h");
                let mut j = if p.driver {
                    let g = driver_gen(&c.project, serde_json::json!([{"do": "file", "path": abs_or(&out)}]));
                    let t = w.subst(&serde_json::json!({"threads": [[g]]}).to_string());
                    std::fs::write(w.side().join(format!("spec{i}.json")), t)?;
                    let mut j = driver_job(w, &serde_json::json!([[]]))?;
                    j.args = vec![format!("@SIDE@/spec{i}.json")];
                    j.cwd = c.project.cwd.clone();
                    j
                } else {
                    let x: &[&str] = if p.clean { &["--clean"] } else { &[] };
                    c.project.job(Some(&out), None, None, x)
                };
                j.hash_seed = p.seed;
                j.pid = p.pid;
                j.env.push(("PROC_TAG".into(), i.to_string()));
                if let Some(o) = &p.over {
                    j.env.push(("CARGO_EXPAND_TARGET_DIR".into(), w.subst(o)));
                }
                if p.script {
                    j.env.push(("OUT_DIR".into(), out_dir.clone()));
                    if let Some(t) = &target {
                        j.env.push(("CARGO_TARGET_DIR".into(), t.clone()));
                    }
                    if let Some(t) = &build {
                        j.env.push(("CARGO_BUILD_BUILD_DIR".into(), t.clone()));
                    }
                }
                v.push(j);
            }
            Ok(v)
        };
        let mut squats: Vec<String> = vec![];
        let mut cands: Vec<Event> = vec![];
        for pass in 0..=c.scheds.len() {
            w.reset()?;
            c.project.materialise(w)?;
            std::fs::create_dir_all(&out_dir)?;
            for (k, s) in squats.iter().enumerate().take(c.squat as usize) {
                // somebody else's directory (or file) of that very name
                if k % 2 == 0 {
                    w.put(&format!("{s}/precious"), b"keep me")?;
                } else {
                    w.put(s, b"keep me")?;
                }
                st.probe("name already taken");
            }
            let before = w.snapshot()?;
            let js = jobs(w)?;
            let mut m = Cargo13 { good: GoodCargo::new(&c.project, w), c, root: root.clone(), locked: locked.clone(), children: vec![], n: 0 };
            let plan = if pass == 0 {
                Plan::default()
            } else {
                let refs: Vec<&Event> = cands.iter().collect();
                Plan { sched: c.scheds[pass - 1].clone(), faults: place_on(&c.faults, &refs), ..Plan::default() }
            };
            let o = st.run(w, &js, &plan, &mut m)?;
            if pass == 0 {
                squats = o.events.iter().filter(|e| e.op == op::MKDIR && e.path.starts_with("tmp/") && e.ret == 0).map(|e| e.path.clone()).collect();
                let mut seen = BTreeSet::new();
                squats.retain(|s| seen.insert(s.clone()));
                cands = o.events.iter().filter(|e| e.at != u32::MAX && matches!(e.op, op::MKDIR) && e.path.starts_with("tmp/")).cloned().collect();
                if cands.is_empty() {
                    // fail somewhere else
                    cands = o.events.iter().filter(|e| e.at != u32::MAX && e.actor == 0 && e.op == op::READ && !e.path.starts_with('<')).cloned().collect();
                }
            }
            let at = format!("run {pass}");
            for (k, j) in o.jobs.iter().enumerate() {
                if no_termination(j) {
                    return Ok(violation("no progress", format!("{at}, process {k} ({:?}): {}; {}", c.procs[k], exit_text(j), o.events.last().map(|e| e.line()).unwrap_or_default())));
                }
            }
            let mut private: Vec<(usize, String)> = vec![];
            for ch in &m.children {
                let p = &c.procs[ch.tag % c.procs.len()];
                let show = format!("{at}, process {}: child with CARGO_TARGET_DIR={:?} CARGO_BUILD_BUILD_DIR={:?}", ch.tag, ch.target.as_deref().map(|t| w.unsubst(t)), ch.build.as_deref().map(|t| w.unsubst(t)));
                let ret = |what: &str| ch.marks.iter().find(|m| m.1 == what).and_then(|m| ch.rets.iter().find(|r| r.0 == m.0)).map(|r| r.1);
                let t = ch.target.clone().unwrap_or_default();
                if p.script && [&ch.target, &ch.build].iter().any(|d| d.as_deref().map(|d| locked.iter().any(|l| *l == lexical(d))).unwrap_or(false)) {
                    return Ok(violation("held build directory", show));
                }
                if p.clean || c.clean {
                    st.probe("private temporary directory");
                    let rel = t.strip_prefix(&format!("{root}/")).unwrap_or(&t).to_string();
                    if t.is_empty() || before.contains_key(&rel) || p.over.as_ref().map(|o| w.subst(o)) == Some(t.clone()) || t.starts_with(&out_dir) {
                        return Ok(violation("not a fresh directory in clean mode", show));
                    }
                    if ret("start") != Some(2) || ret("mkdir") != Some(0) || ret("middle").map(|r| r < 0).unwrap_or(false) || ret("end") != Some(2) {
                        return Ok(violation("temporary directory not there for the child", format!("{show}: {:?}", ch.rets)));
                    }
                    if ch.shares {
                        return Ok(violation("shared temporary directory", show));
                    }
                    private.push((ch.tag, t));
                } else if let Some(x) = &p.over {
                    st.probe("override variable");
                    if t != w.subst(x) {
                        return Ok(violation("override ignored", format!("{show} instead of {x}")));
                    }
                } else if p.script {
                    st.probe("below OUT_DIR");
                    if !lexical(&t).starts_with(&format!("{out_dir}/")) {
                        return Ok(violation("not below OUT_DIR", show));
                    }
                } else {
                    st.probe("outside of a build script");
                }
            }
            for (k, t) in &private {
                if std::path::Path::new(t).exists() && !o.jobs[*k].exit.as_ref().map(|e| matches!(e, Exit::Crashed)).unwrap_or(false) {
                    return Ok(violation("temporary directory left behind", format!("{at}, process {k}: {}", w.unsubst(t))));
                }
            }
            let after = w.snapshot()?;
            for (p, what) in changes(&before, &after, false) {
                if p.starts_with("tmp/") {
                    return Ok(violation("temporary directory left behind", format!("{at}: {p} {what}")));
                }
            }
            // with healthy children and no fault everything succeeds
            if c.ends.iter().all(|e| *e == End::Good) && !o.events.iter().any(|e| e.act != Act::Proceed) {
                for (k, j) in o.jobs.iter().enumerate() {
                    if !j.ok() || w.get(&format!("out/h{k}.h")).is_none() {
                        return Ok(violation("a healthy run failed", format!("{at}, process {k}: {}", exit_text(j))));
                    }
                }
            }
        }
        Ok(None)
    }
    fn explicit(&self, c: &Case, s: &[Sched]) -> Option<Case> {
        let mut d = c.clone();
        for (a, b) in d.scheds.iter_mut().zip(s) {
            *a = b.clone();
        }
        Some(d)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for x in shrink_vec(&c.procs) {
            if !x.is_empty() {
                v.push(Case { procs: x, ..c.clone() });
            }
        }
        for x in shrink_vec(&c.scheds) {
            v.push(Case { scheds: x, ..c.clone() });
        }
        for i in 0..c.scheds.len() {
            for s in shrink_sched(&c.scheds[i]) {
                let mut d = c.clone();
                d.scheds[i] = s;
                v.push(d);
            }
        }
        for x in shrink_vec(&c.ends) {
            v.push(Case { ends: x, ..c.clone() });
        }
        if !c.faults.is_empty() {
            v.push(Case { faults: vec![], ..c.clone() });
        }
        if c.squat > 0 {
            v.push(Case { squat: 0, ..c.clone() });
        }
        if c.noise > 0 {
            v.push(Case { noise: 0, ..c.clone() });
        }
        for p in shrink_project(&c.project) {
            v.push(Case { project: p, ..c.clone() });
        }
        v
    }
    fn summary(&self, c: &Case) -> String {
        format!("{} processes, parse.clean {}, enclosing target {:?} build {:?}, children end {:?}", c.procs.len(), c.clean, c.target, c.build, c.ends)
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of cases with at least one process switch, fault or failing child; a case is 1-3 processes expanding the same crate, run once in order and then under 1-4 seeded schedules, with the enclosing cargo's directories held, names taken and failing directory creation"
    }
}
