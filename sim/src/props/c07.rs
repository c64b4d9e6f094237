//! cbindgen runs underneath the cargo process that another cbindgen started for macro expansion.
use super::common::*;
use super::Prop;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Nest {
    /// during which expansion (modulo), after which share of its output
    when: (u32, u32),
    driver: bool,
    /// as a single source file instead of the crate
    src: bool,
    verify: bool,
    /// header, depfile, symbol file (None: not asked for; header None: standard output)
    outs: [Option<String>; 3],
    /// prior content of those (when they are not the outer run's own)
    prior: [bool; 3],
    clean: bool,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    base: Base,
    outer_driver: bool,
    olds: [Old; 3],
    nests: Vec<Nest>,
    sched: Sched,
}
pub struct C07;

struct NestCargo<'a> {
    good: GoodCargo<'a>,
    nests: &'a [Nest],
    args: &'a [Vec<String>],
    expand_calls: usize,
    of: usize,
    marks: Vec<(usize, usize, usize)>,
    results: Vec<(usize, i64)>,
}
impl StubModel for NestCargo<'_> {
    fn start(&mut self, h: &StubHello) -> Vec<StubCmd> {
        if !h.is_expand() {
            return self.good.start(h);
        }
        let k = self.expand_calls;
        self.expand_calls += 1;
        let f = format!("expand-{}.rs", expand_target(h));
        let n = self.good.len(&f);
        let mut due: Vec<(u32, usize)> = self.nests.iter().enumerate().filter(|(_, x)| x.when.0 as usize % self.of.max(1) == k).map(|(i, x)| (x.when.1, i)).collect();
        due.sort();
        let mut v = vec![];
        let mut off = 0;
        for (share, i) in due {
            let to = n * share as i64 / 1000;
            if to > off {
                v.push(StubCmd::Out(1, f.clone(), off, to - off));
                off = to;
            }
            self.marks.push((h.index, v.len(), i));
            v.push(StubCmd::Spawn(h.cwd.clone(), vec![format!("VSIM_STDOUT=@SIDE@/nested-{i}.out")], self.args[i].clone()));
        }
        v.push(StubCmd::Out(1, f, off, n - off));
        v.push(StubCmd::Exit(0));
        v
    }
    fn result(&mut self, stub: usize, cmd: usize, ret: i64) {
        if let Some(m) = self.marks.iter().find(|m| m.0 == stub && m.1 == cmd) {
            self.results.push((m.2, ret));
        }
    }
}

impl C07 {
    fn outer(&self, w: &World, c: &Case) -> R<Job> {
        let b = &c.base;
        if !c.outer_driver {
            return Ok(b.job());
        }
        let mut acts = vec![];
        if let Some(o) = &b.out {
            acts.push(json!({"do": "file", "path": abs_or(o)}));
            if let Some(d) = &b.dep {
                acts.push(json!({"do": "dep", "header": abs_or(o), "path": abs_or(d)}));
            }
            if let Some(s) = &b.sym {
                acts.push(json!({"do": "sym", "path": abs_or(s)}));
            }
        } else {
            acts.push(json!({"do": "mem"}));
        }
        let mut j = driver_job(w, &json!([[driver_gen(&b.project, json!(acts))]]))?;
        j.cwd = b.project.cwd.clone();
        Ok(j)
    }
    fn outs(&self, w: &World, c: &Case, j: &JobOut) -> Outs {
        let t = if c.outer_driver {
            driver_result(j).map(|r| r["threads"][0][0]["actions"][0]["text"].as_str().unwrap_or("").as_bytes().to_vec()).unwrap_or_default()
        } else {
            j.stdout.clone()
        };
        c.base.outs(w, &t)
    }
}

impl Prop for C07 {
    type Case = Case;
    const ID: &'static str = "C07";
    fn gen(&self, _env: &Env, r: &mut Rng, n: u64) -> Case {
        let per = if n % 16 == 9 { 40 } else { *r.pick(&[1, 2, 4, 8]) };
        let deps = r.chance(1, 2);
        let clean = r.chance(1, 4);
        let ex: &[&str] = if r.chance(2, 3) { &["@root"] } else { &["@root", "@deps"] };
        let (mut p, ws) = workspace(r, per, deps, ex, clean);
        voice(r, &mut p);
        if r.chance(1, 2) {
            p.env.push(("OUT_DIR".into(), format!("@ROOT@/{}/target/debug/build/x/out", ws.base)));
        }
        let outer_driver = r.chance(1, 2);
        let base = with_outputs(r, p, Want { stdout: true, dep: true, sym: true });
        let nests = (0..r.range(1, 3))
            .map(|i| {
                let mut outs = [None, None, None];
                let same = r.chance(1, 3);
                if r.chance(5, 6) {
                    outs[0] = if same { base.out.clone() } else { Some(format!("nested{i}/deep/n.h")) };
                    if r.chance(2, 3) {
                        outs[1] = if same { base.dep.clone() } else { Some(format!("nested{i}/d/n.d")) };
                    }
                    if r.chance(2, 3) {
                        outs[2] = if same { base.sym.clone() } else { Some(format!("nested{i}/s/n.sym")) };
                    }
                }
                Nest {
                    when: (r.below(100) as u32, if r.chance(1, 2) { *r.pick(&[0, 500, 999]) } else { r.below(1000) as u32 }),
                    driver: r.chance(1, 2),
                    src: r.chance(1, 4),
                    verify: r.chance(1, 3),
                    outs,
                    prior: [r.chance(1, 2), r.chance(1, 2), r.chance(1, 2)],
                    clean: r.chance(1, 4),
                }
            })
            .collect();
        Case {
            base,
            outer_driver,
            olds: [old(r), old(r), old(r)],
            nests,
            sched: Sched::Random { seed: r.next(), inv: *r.pick(&[1, 3, 1000]), allocs: 0 },
        }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        let b = &c.base;
        b.project.materialise(w)?;
        let mut m = GoodCargo::new(&b.project, w);
        let ro = st.run(w, &[self.outer(w, c)?], &Plan::default(), &mut m)?;
        let want = self.outs(w, c, &ro.jobs[0]);
        if !ro.jobs[0].ok() || (c.outer_driver && want.header.is_none() && want.stdout.is_empty()) {
            st.probe("input rejected");
            return Ok(None);
        }
        let nexp = ro.stubs.iter().filter(|s| s.is_expand()).count();
        if nexp == 0 {
            st.probe("no expansion");
            return Ok(None);
        }
        w.reset()?;
        b.project.materialise(w)?;
        b.lay_old(w, &c.olds, &want)?;
        let own = |p: &str| b.is_output(p);
        let mut args = vec![];
        for (i, n) in c.nests.iter().enumerate() {
            for (k, o) in n.outs.iter().enumerate() {
                if let Some(o) = o {
                    if n.prior[k] && !own(o) {
                        w.put(o, b"/* somebody's */\n")?;
                    }
                }
            }
            let mut p = b.project.clone();
            if n.src {
                if let Some(s) = b.project.sources.iter().find(|s| s.ends_with("src/lib.rs")) {
                    p.input = format!("@ROOT@/{s}");
                    p.metadata = None;
                }
            }
            if n.driver {
                let mut acts = vec![json!({"do": "mem"}), json!({"do": "symbols"}), json!({"do": "writer", "chunks": [3]})];
                if let Some(o) = &n.outs[0] {
                    acts.push(json!({"do": "file", "path": abs_or(o)}));
                    if let Some(d) = &n.outs[1] {
                        acts.push(json!({"do": "dep", "header": abs_or(o), "path": abs_or(d)}));
                    }
                }
                if let Some(s) = &n.outs[2] {
                    acts.push(json!({"do": "sym", "path": abs_or(s)}));
                }
                let g = driver_gen(&p, json!(acts));
                std::fs::write(w.side().join(format!("nested-{i}.json")), w.subst(&json!({"threads": [[g]]}).to_string()))?;
                args.push(vec!["@DRIVER@".to_string(), format!("@SIDE@/nested-{i}.json")]);
            } else {
                let mut extra = vec![];
                if n.verify && n.outs[0].is_some() {
                    extra.push("--verify");
                }
                if n.clean {
                    extra.push("--clean");
                }
                let j = p.job(n.outs[0].as_deref(), n.outs[1].as_deref(), n.outs[2].as_deref(), &extra);
                let mut v = vec!["@CBINDGEN@".to_string()];
                v.extend(j.args);
                args.push(v);
            }
        }
        w.age()?;
        let before = w.snapshot()?;
        let job = self.outer(w, c)?;
        let mut m = NestCargo { good: GoodCargo::new(&b.project, w), nests: &c.nests, args: &args, expand_calls: 0, of: nexp, marks: vec![], results: vec![] };
        let plan = Plan { sched: c.sched.clone(), ..Plan::default() };
        let o = st.run(w, &[job], &plan, &mut m)?;
        let after = w.snapshot()?;
        let j = &o.jobs[0];
        let nested = o.actors.iter().filter(|a| a.kind == Kind::Nested).count();
        st.case_faults += nested as u64;
        *st.injected.entry("nested run".into()).or_insert(0) += nested as u64;
        if no_termination(j) {
            return Ok(violation("no termination", exit_text(j)));
        }
        // the nested processes themselves; threads of theirs count, too (none expected)
        for e in &o.events {
            let a = &o.actors[e.actor as usize];
            if a.kind == Kind::Nested && e.writes() && e.ret >= 0 && e.path != "<stderr>" && !(e.path.starts_with('<') && e.n == 0) {
                return Ok(violation("nested run writes", e.line()));
            }
        }
        let exps = o.stubs.iter().filter(|s| s.is_expand()).count();
        if exps > nexp {
            return Ok(violation("nested run expands", format!("{exps} expansions instead of {nexp}")));
        }
        if m.results.len() != c.nests.len() {
            return Err(HarnessError(format!("{} of {} nested runs", m.results.len(), c.nests.len())));
        }
        for (i, ret) in &m.results {
            let out = std::fs::read(w.side().join(format!("nested-{i}.out"))).unwrap_or_default();
            let err = String::from_utf8_lossy(&std::fs::read(w.side().join(format!("nested-{i}.out.err"))).unwrap_or_default()).into_owned();
            if *ret != 0 {
                return Ok(violation("nested run fails", format!("nested {i}: status {ret}: {}", err.chars().take(300).collect::<String>())));
            }
            if !out.is_empty() {
                return Ok(violation("nested run prints", format!("nested {i}: {:?}", String::from_utf8_lossy(&out).chars().take(100).collect::<String>())));
            }
            if c.nests[*i].driver {
                let fake = JobOut { exit: None, stdout: vec![], stderr: err.into_bytes() };
                let Some(r) = driver_result(&fake) else {
                    return Ok(violation("nested run fails", format!("nested {i}: no result: {}", fake.err())));
                };
                let g = &r["threads"][0][0];
                let Some(acts) = g["actions"].as_array() else {
                    return Ok(violation("nested run fails", format!("nested {i}: {g}")));
                };
                for a in acts {
                    let bad = a["changed"] == true || a["text"].as_str().map(|t| !t.is_empty()).unwrap_or(false) || a.get("panic").is_some() || a["symbols"].as_array().map(|s| !s.is_empty()).unwrap_or(false) || a["returned"] == false;
                    if bad {
                        return Ok(violation("nested run is not a no-op", format!("nested {i}: {a}")));
                    }
                }
            }
            st.probe(if c.nests[*i].driver { "nested library" } else { "nested program" });
        }
        if !j.ok() {
            return Ok(violation("outer run fails", exit_text(j)));
        }
        let got = self.outs(w, c, j);
        if let Some(d) = outs_diff(&got, &want) {
            return Ok(violation("outer output differs", d));
        }
        for (p, what) in changes(&before, &after, true) {
            if !b.output_or_parent(&p) && !p.starts_with("tmp/") {
                return Ok(violation("something else changed", format!("{p} {what}")));
            }
        }
        Ok(None)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        if c.nests.len() > 1 {
            for x in shrink_vec(&c.nests) {
                v.push(Case { nests: x, ..c.clone() });
            }
        }
        for (i, n) in c.nests.iter().enumerate() {
            for k in 0..3 {
                if n.outs[k].is_some() {
                    let mut d = c.clone();
                    d.nests[i].outs[k] = None;
                    v.push(d);
                }
            }
        }
        for s in shrink_sched(&c.sched) {
            v.push(Case { sched: s, ..c.clone() });
        }
        for o in shrink_olds(&c.olds) {
            v.push(Case { olds: o, ..c.clone() });
        }
        for b in c.base.shrink() {
            v.push(Case { base: b, ..c.clone() });
        }
        v
    }
    fn explicit(&self, c: &Case, s: &[Sched]) -> Option<Case> {
        Some(Case { sched: s.first()?.clone(), ..c.clone() })
    }
    fn summary(&self, c: &Case) -> String {
        format!("{}; outer {}; nested {:?}", c.base.summary(), if c.outer_driver { "library" } else { "program" }, c.nests)
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of cases in which at least one nested run (program or library) happened during an expansion of the outer run; 1-3 nested runs at seeded points of the expansion output, under a seeded schedule of outer run, cargo and nested runs"
    }
}
