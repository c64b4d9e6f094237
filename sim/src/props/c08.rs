//! Several cbindgen processes at the same time.
use super::common::*;
use super::Prop;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
pub struct Set {
    out: Option<String>,
    dep: Option<String>,
    sym: Option<String>,
    extra: Vec<String>,
    olds: [Old; 3],
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Proc {
    /// which set of outputs (modulo)
    set: u32,
    seed: u64,
    pid: u32,
    dirseed: u64,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    project: Project,
    sets: Vec<Set>,
    procs: Vec<Proc>,
    scheds: Vec<Sched>,
}
pub struct C08;

impl Case {
    fn base(&self, s: &Set) -> Base {
        let mut p = self.project.clone();
        p.args.extend(s.extra.iter().cloned());
        Base { project: p, out: s.out.clone(), dep: s.dep.clone(), sym: s.sym.clone(), sure: false }
    }
}

impl Prop for C08 {
    type Case = Case;
    const ID: &'static str = "C08";
    fn gen(&self, env: &Env, r: &mut Rng, n: u64) -> Case {
        let per = match n % 16 {
            3 => 300,
            9 => 80,
            _ => *r.pick(&[1, 2, 4, 10]),
        };
        let mut project = if r.chance(1, 4) {
            let d = r.chance(1, 2);
            workspace(r, per, d, &["@root"], true).0
        } else {
            any_project(r, &env.corpus, per)
        };
        voice(r, &mut project);
        let lang = project.args.iter().any(|a| a == "-l" || a == "--lang");
        let ns = r.range(1, 3);
        let dirs = ["out", "out/a", "out/a/b", "inc"];
        let d0 = *r.pick(&dirs);
        let sets = (0..ns)
            .map(|k| {
                let d = |r: &mut Rng| if r.chance(1, 2) { d0 } else { *r.pick(&dirs) };
                let so = k > 0 && r.chance(1, 6);
                Set {
                    out: if so { None } else { Some(format!("{}/h{k}.h", d(r))) },
                    dep: if !so && r.chance(2, 3) { Some(format!("{}/h{k}.d", d(r))) } else { None },
                    sym: if !so && r.chance(2, 3) { Some(format!("{}/h{k}.sym", d(r))) } else { None },
                    extra: if !lang && k > 0 && r.chance(1, 2) { vec!["--lang".into(), r.pick(&["C", "C++", "Cython"]).to_string()] } else { vec![] },
                    olds: [old(r), old(r), old(r)],
                }
            })
            .collect();
        let same_seed = r.chance(1, 2);
        let s0 = r.next();
        let procs = (0..r.range(2, 4))
            .map(|i| Proc {
                set: if i == 0 { 0 } else { r.below(3) as u32 },
                seed: if same_seed { s0 } else { r.next() },
                pid: if r.chance(1, 2) { 4242 } else { 5000 + i as u32 },
                dirseed: r.below(3),
            })
            .collect();
        let scheds = (0..r.range(2, 6)).map(|_| Sched::Random { seed: r.next(), inv: *r.pick(&[1, 2, 4, 10, 40]), allocs: 0 }).collect();
        Case { project, sets, procs, scheds }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        let mut wants = vec![];
        for s in &c.sets {
            let b = c.base(s);
            w.reset()?;
            let (o, outs) = b.reference(w, st)?;
            if !o.jobs[0].ok() {
                st.probe("input rejected");
                return Ok(None);
            }
            wants.push(outs);
        }
        for (i, sched) in c.scheds.iter().enumerate() {
            w.reset()?;
            c.project.materialise(w)?;
            for (s, want) in c.sets.iter().zip(&wants) {
                c.base(s).lay_old(w, &s.olds, want)?;
            }
            let jobs: Vec<Job> = c
                .procs
                .iter()
                .map(|p| {
                    let mut j = c.base(&c.sets[p.set as usize % c.sets.len()]).job();
                    j.hash_seed = p.seed;
                    j.pid = p.pid;
                    j.dirseed = p.dirseed;
                    j
                })
                .collect();
            let before = w.snapshot()?;
            let mut m = GoodCargo::new(&c.project, w);
            let o = st.run(w, &jobs, &Plan { sched: sched.clone(), ..Plan::default() }, &mut m)?;
            for (k, j) in o.jobs.iter().enumerate() {
                if no_termination(j) {
                    return Ok(violation("no termination", format!("schedule {i} process {k}: {}", exit_text(j))));
                }
                if !j.ok() {
                    return Ok(violation("a process failed", format!("schedule {i} process {k}: {}", exit_text(j))));
                }
            }
            for (k, p) in c.procs.iter().enumerate() {
                let x = p.set as usize % c.sets.len();
                let b = c.base(&c.sets[x]);
                let got = b.outs(w, &o.jobs[k].stdout);
                if let Some(d) = outs_diff(&got, &wants[x]) {
                    return Ok(violation("wrong final output", format!("schedule {i} process {k}: {d}")));
                }
            }
            let after = w.snapshot()?;
            for (p, what) in changes(&before, &after, false) {
                if !c.sets.iter().any(|s| c.base(s).output_or_parent(&p)) {
                    return Ok(violation("something else changed", format!("schedule {i}: {p} {what}")));
                }
            }
            // did they really get in each other's way?
            let mut writers: std::collections::BTreeMap<&str, Vec<(u32, u32)>> = Default::default();
            for e in o.events.iter().filter(|e| e.writes() && e.ret >= 0) {
                writers.entry(&e.path).or_default().push((e.actor, e.step));
            }
            if writers.values().any(|v| v.windows(3).any(|x| x[0].0 == x[2].0 && x[0].0 != x[1].0)) {
                st.probe("interleaved writes to one file");
            }
            if o.events.iter().any(|e| e.op == op::MKDIR && e.ret == -(libc::EEXIST as i64)) {
                st.probe("lost a race to create a directory");
            }
        }
        Ok(None)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        if c.scheds.len() > 1 {
            for x in shrink_vec(&c.scheds) {
                v.push(Case { scheds: x, ..c.clone() });
            }
        }
        if c.procs.len() > 1 {
            for x in shrink_vec(&c.procs) {
                v.push(Case { procs: x, ..c.clone() });
            }
        }
        if c.sets.len() > 1 {
            for x in shrink_vec(&c.sets) {
                v.push(Case { sets: x, ..c.clone() });
            }
        }
        for i in 0..c.sets.len() {
            for o in shrink_olds(&c.sets[i].olds) {
                let mut d = c.clone();
                d.sets[i].olds = o;
                v.push(d);
            }
            for k in 0..2 {
                let mut d = c.clone();
                let x = if k == 0 { &mut d.sets[i].dep } else { &mut d.sets[i].sym };
                if x.take().is_some() {
                    v.push(d);
                }
            }
        }
        for i in 0..c.scheds.len() {
            for s in shrink_sched(&c.scheds[i]) {
                let mut d = c.clone();
                d.scheds[i] = s;
                v.push(d);
            }
        }
        for p in shrink_project(&c.project) {
            v.push(Case { project: p, ..c.clone() });
        }
        v
    }
    fn explicit(&self, c: &Case, s: &[Sched]) -> Option<Case> {
        let mut d = c.clone();
        for (t, s) in d.scheds.iter_mut().zip(s) {
            *t = s.clone();
        }
        Some(d)
    }
    fn summary(&self, c: &Case) -> String {
        format!("project {} ({} files); {} processes on {} sets of outputs; {} schedules", c.project.name, c.project.files.len(), c.procs.len(), c.sets.len(), c.scheds.len())
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of cases with at least one switch between processes; a case is one project bound by 2-4 processes together under 2-6 seeded interleavings at system-call granularity"
    }
}
