//! Nothing but the named outputs is modified.
use super::common::*;
use super::Prop;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Proc {
    out: Option<String>,
    dep: Option<String>,
    sym: Option<String>,
    driver: bool,
    verify: bool,
    seed: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trial {
    picks: Vec<(u32, Pick)>,
    disk: Option<i64>,
    crash: Option<u32>,
    /// every n-th child fails (0: none), with this status
    bad: (u32, i32),
    sched: Sched,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    project: Project,
    procs: Vec<Proc>,
    /// unrelated files, some with names close to the outputs'
    decoys: BTreeMap<String, String>,
    prior: bool,
    trials: Vec<Trial>,
}
pub struct C12;

struct Cargo12<'a> {
    good: GoodCargo<'a>,
    bad: (u32, i32),
    n: u32,
    tmp: String,
}
impl StubModel for Cargo12<'_> {
    fn start(&mut self, h: &StubHello) -> Vec<StubCmd> {
        self.n += 1;
        let mut v = self.good.start(h);
        if let Some(t) = h.env.get("CARGO_TARGET_DIR") {
            if h.is_expand() && t.starts_with(&self.tmp) {
                // a build leaves things behind there
                let mut pre = vec![
                    StubCmd::Mkdirs(format!("{t}/debug/deps/x")),
                    StubCmd::Touch(format!("{t}/debug/deps/x/lib.rmeta")),
                    StubCmd::Touch(format!("{t}/debug/.cargo-lock")),
                ];
                pre.append(&mut v);
                v = pre;
            }
        }
        if self.bad.0 > 0 && self.n % self.bad.0 == 0 {
            v.pop();
            if self.bad.1 < 0 {
                v = vec![StubCmd::Kill(-self.bad.1)];
            } else {
                v.push(StubCmd::Exit(self.bad.1));
            }
        }
        v
    }
}

impl Prop for C12 {
    type Case = Case;
    const ID: &'static str = "C12";
    fn gen(&self, env: &Env, r: &mut Rng, n: u64) -> Case {
        let per = if n % 32 == 9 { 100 } else { *r.pick(&[1, 2, 4, 8]) };
        let mut project = match r.below(3) {
            0 => {
                let d = r.chance(1, 2);
                let x: &[&str] = if r.chance(1, 2) { &["@root"] } else { &["@root", "@deps"] };
                let cl = r.chance(3, 4);
                workspace(r, per, d, x, cl).0
            }
            _ => any_project(r, &env.corpus, per),
        };
        voice(r, &mut project);
        let nprocs = if r.chance(1, 3) { 2 } else { 1 };
        let procs: Vec<Proc> = (0..nprocs)
            .map(|i| {
                let dir = |r: &mut Rng| r.pick(OUT_DIRS).to_string();
                let d0 = dir(r);
                let so = r.chance(1, 6);
                Proc {
                    out: if so { None } else { Some(format!("{d0}/h{i}.h")) },
                    dep: if r.chance(2, 3) { Some(format!("{}/h{i}.d", if r.chance(1, 2) { d0.clone() } else { dir(r) })) } else { None },
                    sym: if r.chance(2, 3) { Some(format!("{}/h{i}.sym", if r.chance(1, 2) { d0.clone() } else { dir(r) })) } else { None },
                    driver: r.chance(1, 4),
                    verify: r.chance(1, 6),
                    seed: if r.chance(1, 2) { 7 } else { r.next() },
                }
            })
            .collect();
        let mut decoys = BTreeMap::new();
        for p in &procs {
            for o in [&p.out, &p.dep, &p.sym].into_iter().flatten() {
                if r.chance(1, 2) {
                    let s = *r.pick(&[".tmp", "~", ".bak", ".new", ".orig", ".d", ".lock"]);
                    decoys.insert(format!("{o}{s}"), "unrelated\n".into());
                }
                if r.chance(1, 3) {
                    let d = o.rsplit_once('/').unwrap().0;
                    decoys.insert(format!("{d}/.other"), "unrelated\n".into());
                }
            }
        }
        decoys.insert("tmp/cbindgen-expandOLD/file".into(), "somebody else's\n".into());
        decoys.insert("tmp/notes.txt".into(), "notes\n".into());
        let trials = (0..r.range(2, 6))
            .map(|_| {
                let nf = *r.pick(&[0, 1, 1, 1, 2, 4]);
                Trial {
                    picks: (0..nf)
                        .map(|_| {
                            let act = match r.below(10) {
                                0..=3 => Act::Fail(*r.pick(WRITE_ERRS)),
                                4 | 5 => Act::Fail(*r.pick(READ_ERRS)),
                                6 => Act::Die,
                                7 => Act::Torn(*r.pick(&[1, 10, 1000])),
                                8 => Act::Short(*r.pick(&[1, 10, 1000])),
                                _ => Act::Corrupt(r.below(500) as i64, r.below(256) as u8),
                            };
                            (r.below(2) as u32, Pick { k: r.below(1_000_000) as u32, act, sticky: r.chance(1, 3) })
                        })
                        .collect(),
                    disk: if r.chance(1, 8) { Some(r.below(5000) as i64) } else { None },
                    crash: if r.chance(1, 8) { Some(r.below(1000) as u32) } else { None },
                    bad: if r.chance(1, 4) { (r.range(1, 3) as u32, *r.pick(&[1, 101, -9, 0])) } else { (0, 0) },
                    sched: if nprocs > 1 || r.chance(1, 3) { Sched::Random { seed: r.next(), inv: *r.pick(&[1, 3, 10]), allocs: 0 } } else { Sched::default() },
                }
            })
            .collect();
        Case { project, procs, decoys, prior: r.chance(1, 2), trials }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        let outputs: Vec<String> = c.procs.iter().flat_map(|p| [&p.out, &p.dep, &p.sym]).flatten().cloned().collect();
        let may = |p: &str| outputs.iter().any(|o| o == p || o.starts_with(&format!("{p}/")));
        let lay = |w: &mut World| -> R<Snap> {
            w.reset()?;
            c.project.materialise(w)?;
            for (p, t) in &c.decoys {
                if !outputs.contains(p) {
                    w.put_text(p, t)?;
                }
            }
            if c.prior {
                for o in &outputs {
                    w.put_text(o, "old content\n")?;
                }
            }
            w.age()?;
            w.snapshot()
        };
        let jobs = |w: &World| -> R<Vec<Job>> {
            let mut v = vec![];
            for (i, p) in c.procs.iter().enumerate() {
                let mut j = if p.driver {
                    let mut acts = vec![];
                    match &p.out {
                        Some(o) => {
                            acts.push(serde_json::json!({"do": "file", "path": abs_or(o)}));
                            if let Some(d) = &p.dep {
                                acts.push(serde_json::json!({"do": "dep", "header": abs_or(o), "path": abs_or(d)}));
                            }
                        }
                        None => acts.push(serde_json::json!({"do": "mem"})),
                    }
                    if let Some(s) = &p.sym {
                        acts.push(serde_json::json!({"do": "sym", "path": abs_or(s)}));
                    }
                    acts.push(serde_json::json!({"do": "symbols"}));
                    let g = driver_gen(&c.project, serde_json::Value::Array(acts));
                    let t = w.subst(&serde_json::json!({"threads": [[g]]}).to_string());
                    std::fs::write(w.side().join(format!("spec{i}.json")), t)?;
                    let mut j = driver_job(w, &serde_json::json!([[]]))?;
                    j.args = vec![format!("@SIDE@/spec{i}.json")];
                    j.cwd = c.project.cwd.clone();
                    j.env = c.project.env.clone();
                    j
                } else {
                    let mut x = vec![];
                    if p.verify {
                        x.push("--verify");
                    }
                    c.project.job(p.out.as_deref(), p.dep.as_deref(), p.sym.as_deref(), &x)
                };
                j.hash_seed = p.seed;
                v.push(j);
            }
            Ok(v)
        };
        let tmp = w.abs("tmp").to_string_lossy().into_owned();
        lay(w)?;
        let js = jobs(w)?;
        let mut m = Cargo12 { good: GoodCargo::new(&c.project, w), bad: (0, 0), n: 0, tmp: tmp.clone() };
        let rehearsal = st.run(w, &js, &Plan::default(), &mut m)?;
        let steps = rehearsal.events.last().map(|e| e.step).unwrap_or(0);
        let first = c.procs.len() as u32;
        for pass in 0..=c.trials.len() {
            let before = lay(w)?;
            let js = jobs(w)?;
            let mut plan = Plan::default();
            let mut bad = (0, 0);
            if pass > 0 {
                let t = &c.trials[pass - 1];
                for (a, p) in &t.picks {
                    let a = a % first;
                    let cands: Vec<&Event> = rehearsal
                        .events
                        .iter()
                        .filter(|e| e.actor == a && e.at != u32::MAX)
                        // nor the pipes to a child: giving up on it would leave it at work
                        .filter(|e| !(e.op == op::POLL || e.op == op::READ && e.path.starts_with('<')) || matches!(p.act, Act::Die | Act::Short(_)))
                        // the clean-up itself is not disturbed
                        .filter(|e| !e.path.starts_with("tmp/") || e.op == op::MKDIR || matches!(p.act, Act::Die))
                        .collect();
                    // half of the disturbances go to operations on outputs
                    let on_outs: Vec<&Event> = cands.iter().filter(|e| may(&e.path)).cloned().collect();
                    let pool = if p.k % 2 == 0 && !on_outs.is_empty() { on_outs } else { cands };
                    plan.faults.extend(place_on(&[p.clone()], &pool));
                }
                plan.disk = t.disk;
                plan.crash_at = t.crash.map(|k| steps * k / 1000);
                plan.sched = t.sched.clone();
                bad = t.bad;
            }
            let mut m = Cargo12 { good: GoodCargo::new(&c.project, w), bad, n: 0, tmp: tmp.clone() };
            let o = st.run(w, &js, &plan, &mut m)?;
            let fired: Vec<String> = o.events.iter().filter(|e| e.act != Act::Proceed).map(|e| e.line()).take(4).collect();
            let at = format!("run {pass} ({})", fired.join(", "));
            for (k, j) in o.jobs.iter().enumerate() {
                if no_termination(j) {
                    return Ok(violation("no termination", format!("{at}, process {k}: {}", exit_text(j))));
                }
                if pass > 0 {
                    st.probe(match j.exit {
                        Some(Exit::Code(0)) => "succeeded",
                        Some(Exit::Crashed) => "killed",
                        Some(Exit::Signal(_)) => "died",
                        _ => "failed",
                    });
                }
            }
            let killed = o.jobs.iter().any(|j| matches!(j.exit, Some(Exit::Crashed | Exit::Signal(_))));
            for e in &o.events {
                let main = o.actors.get(e.actor as usize).map(|a| matches!(a.kind, Kind::Main | Kind::Thread)).unwrap_or(false);
                if !main || !e.writes() || e.ret < 0 || e.path.starts_with('<') || e.act == Act::Die {
                    continue;
                }
                for p in [&e.path, &e.path2] {
                    if !p.is_empty() && before.contains_key(p.as_str()) && !may(p) && !(e.op == op::MKDIR) {
                        return Ok(violation("something else opened for writing", format!("{at}: {}", e.line())));
                    }
                    // what is made for a while belongs with the temporary files or the outputs
                    let with = |d: &str| outputs.iter().any(|o| std::path::Path::new(o).starts_with(d));
                    let dir = p.rsplit_once('/').map(|x| x.0).unwrap_or("");
                    if !p.is_empty() && !p.starts_with('/') && !before.contains_key(p.as_str()) && !may(p) && dir != "tmp" && !p.starts_with("tmp/") && !with(dir) && e.op != op::UNLINK && e.op != op::RMDIR {
                        return Ok(violation("created elsewhere", format!("{at}: {}", e.line())));
                    }
                }
            }
            let excused = killed || o.events.iter().any(|e| e.act != Act::Proceed && e.path.starts_with("tmp/") && e.op != op::MKDIR);
            let after = w.snapshot()?;
            for (p, what) in changes(&before, &after, true) {
                if may(&p) {
                    if what == "removed" || what == "kind changed" {
                        return Ok(violation("output removed", format!("{at}: {p} {what}")));
                    }
                    continue;
                }
                if what == "created" && excused {
                    st.probe("left behind by a killed run");
                    continue;
                }
                return Ok(violation(if what == "created" { "left behind" } else { "something else changed" }, format!("{at}: {p} {what}")));
            }
        }
        Ok(None)
    }
    fn explicit(&self, c: &Case, s: &[Sched]) -> Option<Case> {
        let mut d = c.clone();
        let mut k = 0;
        for t in &mut d.trials {
            if matches!(t.sched, Sched::Random { .. }) {
                t.sched = s.get(k)?.clone();
                k += 1;
            }
        }
        if k == 0 {
            None
        } else {
            Some(d)
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for t in shrink_vec(&c.trials) {
            v.push(Case { trials: t, ..c.clone() });
        }
        for t in shrink_vec(&c.procs) {
            if !t.is_empty() {
                v.push(Case { procs: t, ..c.clone() });
            }
        }
        for i in 0..c.trials.len() {
            let t = &c.trials[i];
            let mut put = |x: Trial| {
                let mut d = c.clone();
                d.trials[i] = x;
                v.push(d);
            };
            for p in shrink_vec(&t.picks) {
                put(Trial { picks: p, ..t.clone() });
            }
            if t.disk.is_some() {
                put(Trial { disk: None, ..t.clone() });
            }
            if t.crash.is_some() {
                put(Trial { crash: None, ..t.clone() });
            }
            if t.bad.0 > 0 {
                put(Trial { bad: (0, 0), ..t.clone() });
            }
            for s in shrink_sched(&t.sched) {
                put(Trial { sched: s, ..t.clone() });
            }
        }
        if c.prior {
            v.push(Case { prior: false, ..c.clone() });
        }
        for k in c.decoys.keys() {
            let mut d = c.clone();
            d.decoys.remove(k);
            v.push(d);
        }
        for p in shrink_project(&c.project) {
            v.push(Case { project: p, ..c.clone() });
        }
        v
    }
    fn summary(&self, c: &Case) -> String {
        format!("project {}, {} processes, {} trials", c.project.name, c.procs.len(), c.trials.len())
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of cases with at least one fault or process switch; a case is 1-2 processes over one project among decoy files, run undisturbed and then 2-6 times with failing calls, torn and short writes, a full disk, crashes and failing children"
    }
}
