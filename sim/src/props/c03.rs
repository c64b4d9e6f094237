//! Exit 0 means all outputs are complete: create, mkdir and write operations on the outputs fail.
use super::common::*;
use super::Prop;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Serialize, Deserialize)]
pub struct Trial {
    olds: [Old; 3],
    picks: Vec<Pick>,
    /// bytes left on the disk, as a share (per mille) of what the undisturbed run writes
    disk: Option<u32>,
    /// through the library instead of the program
    library: bool,
    verify: bool,
    /// faults on one of the outputs only (modulo)
    #[serde(default)]
    only: Option<u32>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    base: Base,
    trials: Vec<Trial>,
}
pub struct C03;

pub fn write_faults(r: &mut Rng, n: u64) -> Vec<Pick> {
    (0..n)
        .map(|_| {
            let act = if r.chance(1, 4) { Act::Short(1 + r.below(64) as i64) } else { Act::Fail(*r.pick(WRITE_ERRS)) };
            // early operations (mkdir, open) are few and writes are many: weigh both ends
            let k = match r.below(4) {
                0 => r.below(6) as u32,
                1 => u32::MAX - r.below(8) as u32,
                _ => r.below(1_000_000) as u32,
            };
            Pick { k, act, sticky: r.chance(1, 3) }
        })
        .collect()
}
/// Like `place`, but counting from the end for k near u32::MAX.
pub fn place_ends(picks: &[Pick], cands: &[u32]) -> Vec<Fault> {
    let n = cands.len() as u32;
    let p: Vec<Pick> = picks
        .iter()
        .map(|p| {
            let mut p = p.clone();
            if p.k > u32::MAX - 1000 && n > 0 {
                p.k = n - 1 - (u32::MAX - p.k) % n;
            }
            p
        })
        .collect();
    place(&p, cands)
}

/// Symbols the symbol file must list, judged from the generator's knowledge.
pub fn symfile_ok(sym: &[u8], want: &[String]) -> Option<String> {
    let t = String::from_utf8_lossy(sym);
    let mut got: Vec<&str> = t
        .trim_start_matches('{')
        .trim_end_matches("};")
        .lines()
        .map(|l| l.trim().trim_end_matches(';'))
        .filter(|l| !l.is_empty())
        .collect();
    let mut want: Vec<&str> = want.iter().map(|s| s.as_str()).collect();
    got.sort();
    want.sort();
    if !t.starts_with("{\n") || !t.ends_with("};") {
        return Some(format!("malformed: {:?}", &t[..t.len().min(60)]));
    }
    if got != want {
        let miss: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(3).collect();
        let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(3).collect();
        return Some(format!("missing {miss:?}, unexpected {extra:?}"));
    }
    None
}

impl Prop for C03 {
    type Case = Case;
    const ID: &'static str = "C03";
    fn gen(&self, env: &Env, r: &mut Rng, n: u64) -> Case {
        let per = if n % 32 == 7 { 150 } else { *r.pick(&[1, 2, 4, 10, 30]) };
        let big = n % 8 == 3;
        let mut base = if big {
            let p = huge(r);
            let mut b = with_outputs(r, p, ALL);
            b.sym.get_or_insert("out/b.sym".into());
            b.dep.get_or_insert("out/b.d".into());
            b
        } else {
            base(r, env, per, Want { stdout: true, ..ALL })
        };
        voice(r, &mut base.project);
        let trials = (0..r.range(2, 8))
            .map(|_| {
                let disk = if r.chance(1, 4) { Some(r.below(1050) as u32) } else { None };
                let nf = if disk.is_some() { r.below(2) } else { r.range(1, 3) };
                Trial {
                    olds: [old(r), old(r), old(r)],
                    picks: write_faults(r, nf),
                    disk,
                    library: r.chance(1, 5),
                    verify: r.chance(1, 10),
                    only: if big { Some(1 + r.below(2) as u32) } else if r.chance(1, 2) { Some(r.below(100) as u32) } else { None },
                }
            })
            .collect();
        Case { base, trials }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        let b = &c.base;
        let (ro, want) = b.reference(w, st)?;
        if !ro.jobs[0].ok() {
            st.probe("input rejected");
            return Ok(None);
        }
        // the undisturbed run itself: the header is what standard output gets, the symbols are all there
        if b.out.is_some() {
            let mut m = GoodCargo::new(&b.project, w);
            let o = st.run(w, &[b.project.job(None, None, None, &[])], &Plan::default(), &mut m)?;
            if want.header.as_deref() != Some(o.jobs[0].stdout.as_slice()) {
                return Ok(violation("header incomplete", format!("file and standard output differ: {}", diff(want.header.as_deref().unwrap_or(b""), &o.jobs[0].stdout))));
            }
        }
        for (p, g, n) in [(&b.dep, &want.dep, "depfile"), (&b.sym, &want.sym, "symfile")] {
            if p.is_some() && g.is_none() {
                return Ok(violation("output missing", format!("{n} was not written")));
            }
        }
        if let (Some(s), Some(sy)) = (&want.sym, &b.project.symbols) {
            st.probe("symbols checked");
            if let Some(d) = symfile_ok(s, sy) {
                return Ok(violation("symfile incomplete", d));
            }
        }
        let total: i64 = ro.events.iter().filter(|e| e.op == op::WRITE).map(|e| e.n).sum();
        for (i, t) in c.trials.iter().enumerate() {
            let library = t.library && b.out.is_some();
            let verify = t.verify && b.out.is_some() && !library;
            let jobs = |w: &World| -> R<Job> {
                if library {
                    let mut acts = vec![json!({"do": "file", "path": abs_or(b.out.as_ref().unwrap())})];
                    if let Some(d) = &b.dep {
                        acts.push(json!({"do": "dep", "path": abs_or(d), "header": abs_or(b.out.as_ref().unwrap())}));
                    }
                    if let Some(s) = &b.sym {
                        acts.push(json!({"do": "sym", "path": abs_or(s)}));
                    }
                    driver_job(w, &json!([[driver_gen(&b.project, json!(acts))]]))
                } else if verify {
                    Ok(b.project.job(b.out.as_deref(), b.dep.as_deref(), b.sym.as_deref(), &["--verify"]))
                } else {
                    Ok(b.job())
                }
            };
            // rehearsal: which operations are there to fail?
            w.reset()?;
            b.project.materialise(w)?;
            b.lay_old(w, &t.olds, &want)?;
            let mut m = GoodCargo::new(&b.project, w);
            let j = jobs(w)?;
            let o = st.run(w, &[j], &Plan::default(), &mut m)?;
            let ps = b.paths();
            let only = t.only.filter(|_| !ps.is_empty()).map(|k| ps[k as usize % ps.len()].clone());
            let cands: Vec<u32> = o
                .events
                .iter()
                .filter(|e| e.actor == 0 && e.at != u32::MAX)
                .filter(|e| only.as_ref().map(|p| *p == e.path || p.starts_with(&format!("{}/", e.path))).unwrap_or(true))
                .filter(|e| (e.writes() && (b.output_or_parent(&e.path) || e.path == "<stdout>")) || (!e.writes() && b.is_output(&e.path)))
                .map(|e| e.at)
                .collect();
            // what the library writes (its language options may differ from the command line's)
            let want = if library { b.outs(w, b"") } else { want.clone() };
            w.reset()?;
            b.project.materialise(w)?;
            b.lay_old(w, &t.olds, &want)?;
            let plan = Plan {
                faults: place_ends(&t.picks, &cands),
                disk: t.disk.map(|d| total * d as i64 / 1000),
                ..Plan::default()
            };
            let mut m = GoodCargo::new(&b.project, w);
            let j = jobs(w)?;
            let o = st.run(w, &[j], &plan, &mut m)?;
            let j = &o.jobs[0];
            let fired: Vec<String> = o.events.iter().filter(|e| e.act != Act::Proceed).map(|e| e.line()).take(4).collect();
            let at = format!("trial {i}{}: {}", if library { " (library)" } else { "" }, fired.join(", "));
            if no_termination(j) {
                return Ok(violation("no termination", format!("{at}: {}", exit_text(j))));
            }
            let got = b.outs(w, &j.stdout);
            if library {
                let Some(res) = driver_result(j) else {
                    st.probe("driver died");
                    continue;
                };
                let a = &res["threads"][0][0]["actions"];
                let mut k = 0;
                for (p, g, wa, n) in [(&b.out, &got.header, &want.header, "header"), (&b.dep, &got.dep, &want.dep, "depfile"), (&b.sym, &got.sym, &want.sym, "symfile")] {
                    if p.is_none() {
                        continue;
                    }
                    let ok = !a[k].is_null() && a[k]["panic"].is_null();
                    k += 1;
                    if ok && g != wa {
                        return Ok(violation("incomplete output reported as success", format!("{at}: {n}: {}", diff(g.as_deref().unwrap_or(b""), wa.as_deref().unwrap_or(b"")))));
                    }
                }
                st.probe("library trial");
            } else if j.ok() {
                st.probe("survived");
                if let Some(d) = outs_diff(&got, &want) {
                    return Ok(violation("incomplete output reported as success", format!("{at}: {d}")));
                }
            } else {
                st.probe("failed visibly");
            }
        }
        Ok(None)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for t in shrink_vec(&c.trials) {
            v.push(Case { trials: t, ..c.clone() });
        }
        for i in 0..c.trials.len() {
            let t = &c.trials[i];
            let mut put = |x: Trial| {
                let mut d = c.clone();
                d.trials[i] = x;
                v.push(d);
            };
            for p in shrink_vec(&t.picks) {
                put(Trial { picks: p, ..t.clone() });
            }
            if t.disk.is_some() {
                put(Trial { disk: None, ..t.clone() });
            }
            for o in shrink_olds(&t.olds) {
                put(Trial { olds: o, ..t.clone() });
            }
        }
        for b in c.base.shrink() {
            v.push(Case { base: b, trials: c.trials.clone() });
        }
        v
    }
    fn summary(&self, c: &Case) -> String {
        format!("{}; {} trials", c.base.summary(), c.trials.len())
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of cases in which at least one fault fired; a case is one project run undisturbed and then 2-8 times with create/mkdir/write failures, short writes or a finite disk on its outputs"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a write the kernel reported as complete is complete; errors reported only by close() are not injected (the standard library does not report them)", "operations that are not faulted behave as the kernel's tmpfs does"]
    }
}
