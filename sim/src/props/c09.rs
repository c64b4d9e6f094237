//! Several generations in one process, one after another and in threads.
use super::common::*;
use super::Prop;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;
use serde_json::{json, Value};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Break {
    No,
    /// a source that does not parse (index modulo)
    Syntax(u32),
    /// a source that is not there
    Missing(u32),
    Config,
    Expansion,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Gen {
    pub project: Project,
    pub broken: Break,
    /// "builder", "generate", "with_config"
    pub api: String,
    header: Option<String>,
    prefix: Option<String>,
    std_types: bool,
    /// as two sources
    twice: bool,
    /// paths as seen from the working directory
    #[serde(default)]
    rel: bool,
}
/// A change made just before a generation (by the same thread).
#[derive(Clone, Serialize, Deserialize)]
pub enum Edit {
    /// append a function to the k-th source (modulo)
    Source(u32),
    /// change a name in the k-th source; its length and times stay the same
    Same(u32),
    /// prepend a setting to the configuration
    Config,
    /// append a function to what the expansion gives
    Expansion(u32),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Use {
    pub gen: u32,
    file: bool,
    dep: bool,
    sym: bool,
    #[serde(default)]
    pub edits: Vec<Edit>,
    /// last, to a writer that fails for good after this many bytes
    #[serde(default)]
    fuss: Option<u32>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    pub gens: Vec<Gen>,
    pub threads: Vec<Vec<Use>>,
    pub seed: u64,
    pub sched: Sched,
}
pub struct C09;

impl Case {
    pub fn spec(&self, t: usize, k: usize) -> Value {
        let u = &self.threads[t][k];
        let gi = u.gen as usize % self.gens.len();
        let g = &self.gens[gi];
        let mut acts = vec![json!({"do": "mem"}), json!({"do": "symbols"})];
        let d = format!("@ROOT@/out/{t}/{k}");
        if u.file {
            acts.push(json!({"do": "file", "path": format!("{d}/x.h")}));
            acts.push(json!({"do": "file", "path": format!("{d}/x.h")}));
        }
        if u.dep {
            acts.push(json!({"do": "dep", "header": format!("{d}/x.h"), "path": format!("{d}/x.d")}));
        }
        if u.sym {
            acts.push(json!({"do": "sym", "path": format!("{d}/x.sym")}));
        }
        if let Some(n) = u.fuss {
            acts.push(json!({"do": "writer", "fail_at": n, "kind": n % 4}));
        }
        let mut s = driver_gen(&g.project, json!(acts));
        s["api"] = json!(g.api);
        if let Some(h) = &g.header {
            s["header"] = json!(h);
        }
        if let Some(p) = &g.prefix {
            s["prefix"] = json!(p);
        }
        if !g.std_types {
            s["std_types"] = json!(false);
        }
        if g.rel {
            for k in ["crate", "config"] {
                if let Some(p) = s[k].as_str() {
                    s[k] = json!(p.replacen("@ROOT@/", "", 1));
                }
            }
        }
        if g.twice && g.project.sources.len() > 1 && !g.project.is_crate() {
            s["src"] = json!([g.project.input, format!("@ROOT@/{}", g.project.sources[0])]);
        }
        s
    }
    /// The texts that change before generation `k` of the only thread, given what was before.
    fn edited(&self, ps: &mut [(String, Project)], k: usize) -> Vec<(String, String)> {
        let u = &self.threads[0][k];
        let gi = u.gen as usize % self.gens.len();
        let mut v = vec![];
        for (n, e) in u.edits.iter().enumerate() {
            let p = &mut ps[gi].1;
            let f = format!("\n#[no_mangle]\npub extern \"C\" fn edited_{k}_{n}() {{}}\n");
            let path = match e {
                Edit::Source(i) | Edit::Same(i) if !p.sources.is_empty() => p.sources[*i as usize % p.sources.len()].clone(),
                Edit::Config if p.config.is_some() => p.config.clone().unwrap(),
                Edit::Expansion(i) if !p.expand.is_empty() => {
                    let key = p.expand.keys().nth(*i as usize % p.expand.len()).unwrap().clone();
                    let t = p.expand.get_mut(&key).unwrap();
                    t.push_str(&f);
                    let t = t.clone();
                    // projects sharing the directory are answered for by the first of them
                    let own = self.dir(gi);
                    for q in ps.iter_mut().enumerate().filter(|q| self.dir(q.0) == own) {
                        q.1 .1.expand.insert(key.clone(), t.clone());
                    }
                    v.push((format!("@SIDE@/{own}-expand-{key}.rs"), t));
                    continue;
                }
                _ => continue,
            };
            let Some(t) = p.files.get_mut(&path) else { continue };
            if matches!(e, Edit::Config) {
                if t.contains("after_includes") {
                    continue;
                }
                t.insert_str(0, &format!("after_includes = \"/* edited {k} */\"\n"));
            } else if matches!(e, Edit::Same(_)) {
                let Some(j) = (0..8).find(|j| t.contains(&state(*j))) else { continue };
                *t = t.replace(&state(j), &state(j + 1));
            } else {
                t.push_str(&f);
            }
            let t = t.clone();
            for q in ps.iter_mut() {
                if let Some(x) = q.1.files.get_mut(&path) {
                    *x = t.clone();
                }
            }
            v.push((format!("@ROOT@/{path}"), t));
        }
        v
    }
    /// The directory (first component) of an input.
    pub fn dir(&self, gi: usize) -> String {
        self.gens[gi].project.input.trim_start_matches("@ROOT@/").split('/').next().unwrap_or("").to_string()
    }
    pub fn lay(&self, w: &World) -> R<Vec<(String, Project)>> {
        let mut v: Vec<(String, Project)> = vec![];
        for (i, g) in self.gens.iter().enumerate() {
            let mut p = g.project.clone();
            match &g.broken {
                Break::Syntax(k) if !p.sources.is_empty() => {
                    let f = p.sources[*k as usize % p.sources.len()].clone();
                    p.files.get_mut(&f).map(|t| t.push_str("\npub fn broken( {\n"));
                }
                Break::Missing(k) if !p.sources.is_empty() => {
                    let f = p.sources[*k as usize % p.sources.len()].clone();
                    p.files.remove(&f);
                }
                Break::Config => {
                    if let Some(f) = &p.config {
                        p.files.get_mut(f).map(|t| t.insert_str(0, "no_such_key = 1\n"));
                    }
                }
                _ => {}
            }
            for q in &mut v {
                for (f, t) in &p.files {
                    if let Some(x) = q.1.files.get_mut(f) {
                        *x = t.clone();
                    }
                }
            }
            p.materialise(w)?;
            v.push((self.dir(i), p));
        }
        Ok(v)
    }
    fn files(&self, w: &World, t: usize, k: usize) -> [Option<Vec<u8>>; 3] {
        let d = format!("out/{t}/{k}");
        [w.get(&format!("{d}/x.h")), w.get(&format!("{d}/x.d")), w.get(&format!("{d}/x.sym"))]
    }
    pub fn broken(&self) -> Vec<String> {
        self.gens.iter().enumerate().filter(|(_, g)| g.broken == Break::Expansion).map(|(i, _)| self.dir(i)).collect()
    }
}

/// The name of what every source has one of.
fn state(j: usize) -> String {
    format!("in_state_{j}_of_file")
}
/// Give every source something that can change without changing its length.
fn with_state(p: &mut Project) {
    for (i, s) in p.sources.clone().iter().enumerate() {
        if let Some(t) = p.files.get_mut(s) {
            let _ = write!(t, "\n#[no_mangle]\npub extern \"C\" fn {}_{i}() {{}}\n", state(0));
        }
    }
}

fn dir_of(p: &Project) -> String {
    let i = p.input.trim_start_matches("@ROOT@/");
    if p.is_crate() {
        i.to_string()
    } else {
        i.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default()
    }
}

impl Prop for C09 {
    type Case = Case;
    const ID: &'static str = "C09";
    fn gen(&self, env: &Env, r: &mut Rng, n: u64) -> Case {
        let per = if n % 16 == 9 { 25 } else { *r.pick(&[1, 2, 4, 8]) };
        let ng = r.range(1, 4);
        let mut gens: Vec<Gen> = vec![];
        for i in 0..ng {
            if i > 0 && r.chance(1, 3) {
                // the same input once more, under another configuration
                let mut g = gens[r.us(gens.len())].clone();
                let deps = g.project.config.as_ref().map(|c| g.project.files[c].contains("parse_deps = true")).unwrap_or(false);
                let co = CfgOpt { parse_deps: deps, expand: g.project.expand.keys().cloned().collect(), clean: r.chance(1, 4), ..CfgOpt::default() };
                let t = config(r, &co);
                let f = format!("{}/twin{i}.toml", dir_of(&g.project));
                g.project.files.insert(f.clone(), t);
                g.project.config = Some(f);
                g.project.args = lang_args(r);
                g.api = if g.project.is_crate() { r.pick(&["builder", "with_config"]).to_string() } else { "builder".into() };
                g.header = Some(format!("/* twin {i} */"));
                g.prefix = if r.chance(1, 4) { Some(format!("t{i}_")) } else { None };
                g.rel = r.chance(1, 3);
                gens.push(g);
                continue;
            }
            gens.push({
                let p = if r.chance(1, 5) {
                    let d = r.chance(1, 2);
                    workspace(r, per, d, if d { &["@root", "@deps"] } else { &["@root"] }, false).0
                } else {
                    any_project(r, &env.corpus, per)
                };
                let mut p = relocate(&p, &format!("g{i}"));
                if r.chance(1, 2) {
                    with_state(&mut p);
                }
                let broken = if r.chance(1, 4) {
                    match r.below(4) {
                        0 => Break::Syntax(r.below(100) as u32),
                        1 => Break::Missing(r.below(100) as u32),
                        2 => Break::Config,
                        _ => Break::Expansion,
                    }
                } else {
                    Break::No
                };
                Gen {
                    api: if p.is_crate() { r.pick(&["builder", "builder", "generate", "with_config"]).to_string() } else { "builder".into() },
                    project: p,
                    broken,
                    header: if r.chance(1, 3) { Some(format!("/* generation {i} */")) } else { None },
                    prefix: if r.chance(1, 4) { Some(format!("g{i}_")) } else { None },
                    std_types: !r.chance(1, 6),
                    twice: r.chance(1, 6),
                    rel: r.chance(1, 3),
                }
            });
        }
        let nt = if r.chance(1, 3) { 1 } else { r.range(2, 4) };
        let threads: Vec<Vec<Use>> = (0..nt)
            .map(|_| {
                let len = if nt == 1 { r.range(2, 6) } else { r.range(1, 3) };
                (0..len)
                    .map(|_| Use {
                        gen: r.below(ng) as u32,
                        file: r.chance(2, 3),
                        dep: r.chance(1, 3),
                        sym: r.chance(1, 3),
                        fuss: if r.chance(1, 6) { Some(*r.pick(&[0, 1, 30, 200, 500])) } else { None },
                        edits: if nt == 1 && r.chance(1, 2) {
                            (0..r.range(1, 2))
                                .map(|_| match r.below(5) {
                                    0 | 1 => Edit::Source(r.below(100) as u32),
                                    4 => Edit::Same(r.below(100) as u32),
                                    2 => Edit::Config,
                                    _ => Edit::Expansion(r.below(100) as u32),
                                })
                                .collect()
                        } else {
                            vec![]
                        },
                    })
                    .collect()
            })
            .collect();
        let sched = if nt == 1 {
            Sched::default()
        } else {
            Sched::Random { seed: r.next(), inv: *r.pick(&[1, 2, 5, 20]), allocs: *r.pick(&[0, 200, 2000, 20000]) }
        };
        Case { gens, threads, seed: r.next(), sched }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        // every use on its own
        let mut alone = vec![];
        for t in 0..c.threads.len() {
            for k in 0..c.threads[t].len() {
                w.reset()?;
                let mut ps = c.lay(w)?;
                if c.threads.len() == 1 {
                    for i in 0..=k {
                        for (p, t) in c.edited(&mut ps, i) {
                            if let Some(p) = p.strip_prefix("@ROOT@/") {
                                w.put_text(p, &t)?;
                            }
                        }
                    }
                }
                let mut m = ManyCargo::new(&ps, w)?;
                m.broken = c.broken();
                let j = driver_job(w, &json!([[c.spec(t, k)]]))?;
                let o = st.run(w, &[j], &Plan::default(), &mut m)?;
                let Some(r) = driver_result(&o.jobs[0]) else {
                    return Err(HarnessError(format!("no result alone: {}", exit_text(&o.jobs[0]))));
                };
                let text = r["threads"][0][0].clone();
                if text.get("actions").is_some() {
                    st.probe("generation succeeds");
                } else {
                    st.probe("generation fails");
                }
                alone.push((t, k, text, c.files(w, t, k)));
            }
        }
        w.reset()?;
        let ps = c.lay(w)?;
        let mut m = ManyCargo::new(&ps, w)?;
        m.broken = c.broken();
        let mut specs: Vec<Vec<Value>> = (0..c.threads.len()).map(|t| (0..c.threads[t].len()).map(|k| c.spec(t, k)).collect()).collect();
        if c.threads.len() == 1 {
            let mut qs = ps.clone();
            for k in 0..specs[0].len() {
                let v = c.edited(&mut qs, k);
                if !v.is_empty() {
                    st.probe("edited between generations");
                }
                specs[0][k]["before"] = v.into_iter().map(|(p, t)| json!({"path": p, "text": t})).collect();
            }
        }
        let mut j = driver_job(w, &json!(specs))?;
        j.hash_seed = c.seed;
        let o = st.run(w, &[j], &Plan { sched: c.sched.clone(), ..Plan::default() }, &mut m)?;
        let j = &o.jobs[0];
        if no_termination(j) {
            return Ok(violation("no termination", exit_text(j)));
        }
        let Some(r) = driver_result(j) else {
            return Ok(violation("process died", exit_text(j)));
        };
        if r["env_same"] != true {
            return Ok(violation("environment changed", "the process environment or working directory is not what it was".to_string()));
        }
        if c.threads.len() == 1 {
            // a history counts as a disturbance of all but its first generation
            st.case_faults += c.threads[0].len() as u64 - 1;
            *st.injected.entry("earlier generation in the process".into()).or_insert(0) += c.threads[0].len() as u64 - 1;
        }
        for (t, k, want, files) in &alone {
            let got = &r["threads"][*t][*k];
            if got != want {
                let (a, b) = (got.to_string(), want.to_string());
                return Ok(violation("result depends on others", format!("thread {t} generation {k}: {}", diff(a.as_bytes(), b.as_bytes()))));
            }
            let gf = c.files(w, *t, *k);
            for (n, (g, f)) in ["header", "depfile", "symfile"].iter().zip(gf.iter().zip(files.iter())) {
                if g != f {
                    return Ok(violation("file depends on others", format!("thread {t} generation {k}: {n}: {}", diff(g.as_deref().unwrap_or(b""), f.as_deref().unwrap_or(b"")))));
                }
            }
        }
        if c.threads.len() > 1 {
            st.probe("threads");
        } else {
            st.probe("history");
        }
        Ok(None)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        if c.threads.len() > 1 {
            for x in shrink_vec(&c.threads) {
                if !x.is_empty() {
                    v.push(Case { threads: x, ..c.clone() });
                }
            }
        }
        for i in 0..c.threads.len() {
            for x in shrink_vec(&c.threads[i]) {
                if !x.is_empty() {
                    let mut d = c.clone();
                    d.threads[i] = x;
                    v.push(d);
                }
            }
        }
        for i in 0..c.threads.len() {
            for k in 0..c.threads[i].len() {
                for x in shrink_vec(&c.threads[i][k].edits) {
                    let mut d = c.clone();
                    d.threads[i][k].edits = x;
                    v.push(d);
                }
            }
        }
        for s in shrink_sched(&c.sched) {
            v.push(Case { sched: s, ..c.clone() });
        }
        for (i, g) in c.gens.iter().enumerate() {
            for p in shrink_project(&g.project) {
                let mut d = c.clone();
                d.gens[i].project = p;
                v.push(d);
            }
        }
        v
    }
    fn explicit(&self, c: &Case, s: &[Sched]) -> Option<Case> {
        Some(Case { sched: s.first()?.clone(), ..c.clone() })
    }
    fn summary(&self, c: &Case) -> String {
        format!("{} inputs; threads x generations {:?}", c.gens.len(), c.threads.iter().map(|t| t.len()).collect::<Vec<_>>())
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of cases with at least one thread switch, preemption inside a computation, or earlier generation in the same process; each use of the library is compared with the same use alone in a fresh process"
    }
}
