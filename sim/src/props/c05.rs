//! Inputs that cannot be examined, opened, read or decoded.
use super::common::*;
use super::Prop;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
pub struct Trial {
    olds: [Old; 3],
    picks: Vec<Pick>,
    /// invalid bytes in the k-th (modulo) input file, at a share of its length
    invalid: Option<(u32, u32)>,
    verify: bool,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    base: Base,
    /// metadata from a file instead of from cargo
    metadata_file: bool,
    trials: Vec<Trial>,
}
pub struct C05;

/// Does this message name that file, by its name or as a module?
fn names(line: &str, path: &str) -> bool {
    let l = line.to_lowercase();
    let p = std::path::Path::new(path);
    let part = |x: Option<&std::ffi::OsStr>| x.map(|s| s.to_string_lossy().to_lowercase()).unwrap_or_default();
    let stem = part(p.file_stem());
    if part(p.file_name()) == "cargo.lock" {
        return l.contains("lock");
    }
    let s = match stem.as_str() {
        "mod" | "lib" => part(p.parent().and_then(|d| d.file_name())),
        s => s.to_string(),
    };
    !s.is_empty() && (l.contains(&s) || l.contains(&path.to_lowercase()))
}

impl Prop for C05 {
    type Case = Case;
    const ID: &'static str = "C05";
    fn gen(&self, env: &Env, r: &mut Rng, n: u64) -> Case {
        let per = if n % 32 == 9 { 60 } else { *r.pick(&[1, 2, 4, 8]) };
        let mut base = base(r, env, per, ALL);
        let metadata_file = base.project.is_crate() && r.chance(1, 3);
        if metadata_file {
            let m = base.project.metadata.clone().unwrap();
            base.project.files.insert("meta.json".into(), m);
            base.project.args.extend(["--metadata".into(), "@ROOT@/meta.json".into()]);
        }
        let trials = (0..r.range(2, 8))
            .map(|_| {
                let invalid = if r.chance(1, 6) { Some((r.below(1000) as u32, r.below(1000) as u32)) } else { None };
                let nf = if invalid.is_some() { 0 } else { r.range(1, 2) };
                Trial {
                    olds: [old(r), old(r), old(r)],
                    picks: (0..nf)
                        .map(|_| Pick {
                            k: r.below(1_000_000) as u32,
                            act: if r.chance(1, 8) { Act::Corrupt(r.below(2000) as i64, *r.pick(&[0xffu8, 0xc0, 0xfe])) } else { Act::Fail(*r.pick(READ_ERRS)) },
                            sticky: r.chance(1, 2),
                        })
                        .collect(),
                    invalid,
                    verify: r.chance(1, 8),
                }
            })
            .collect();
        Case { base, metadata_file, trials }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        let b = &c.base;
        let (ro, want) = b.reference(w, st)?;
        if !ro.jobs[0].ok() {
            st.probe("input rejected");
            return Ok(None);
        }
        for (i, t) in c.trials.iter().enumerate() {
            let job = b.project.job(b.out.as_deref(), b.dep.as_deref(), b.sym.as_deref(), if t.verify { &["--verify"] } else { &[] });
            w.reset()?;
            b.project.materialise(w)?;
            b.lay_old(w, &t.olds, &want)?;
            let mut m = GoodCargo::new(&b.project, w);
            let o = st.run(w, &[job.clone()], &Plan::default(), &mut m)?;
            let reference = o.jobs[0].clone();
            let rehearsal = o.events.clone();
            let cands: Vec<&Event> = rehearsal
                .iter()
                .filter(|e| e.actor == 0 && e.at != u32::MAX && !e.writes() && !e.path.starts_with('<'))
                .filter(|e| !matches!(e.op, op::SPAWN | op::POLL | op::SLEEP | op::FORK) && !e.path.starts_with("tmp"))
                // what does not exist is not an unreadable input
                .filter(|e| e.ret >= 0)
                .collect();
            w.reset()?;
            b.project.materialise(w)?;
            b.lay_old(w, &t.olds, &want)?;
            let mut spoiled = String::new();
            if let Some((k, at)) = t.invalid {
                let mut read: Vec<&str> = o.events.iter().filter(|e| e.op == op::READ && !b.is_output(&e.path) && !e.path.starts_with('<')).map(|e| e.path.as_str()).collect();
                read.sort();
                read.dedup();
                if read.is_empty() {
                    continue;
                }
                // every other time not a source, if there is something else
                let other: Vec<&str> = read.iter().filter(|f| !f.ends_with(".rs")).copied().collect();
                let f = if k % 2 == 1 && !other.is_empty() { other[k as usize / 2 % other.len()] } else { read[k as usize / 2 % read.len()] };
                let mut d = w.get(f).unwrap_or_default();
                let mut at = d.len() * at as usize / 1000;
                // every other time at the start of a string, preferably one that matters
                let text = String::from_utf8_lossy(&d).into_owned();
                let keys: Vec<usize> = ["\"target\":\"", "\"name\":\"", "\"version\":\"", "\"src_path\":\"", "\"kind\":[\""]
                    .iter()
                    .flat_map(|s| text.match_indices(s).map(|m| m.0 + s.len()).collect::<Vec<_>>())
                    .collect();
                if k / 2 % 4 == 3 && !keys.is_empty() {
                    at = keys[at % keys.len()];
                } else if k / 2 % 2 == 1 {
                    at = d[at..].iter().position(|b| *b == b'"').map(|x| at + x + 1).unwrap_or(at);
                }
                d.insert(at, 0xff);
                w.put(f, &d)?;
                spoiled = format!("invalid byte in {f}");
                st.probe("invalid text");
            }
            let before = b.outs(w, b"");
            let plan = Plan { faults: place_on(&t.picks, &cands), ..Plan::default() };
            let mut m = GoodCargo::new(&b.project, w);
            let o = st.run(w, &[job], &plan, &mut m)?;
            let j = &o.jobs[0];
            let fired: Vec<String> = o.events.iter().filter(|e| e.act != Act::Proceed).map(|e| e.line()).take(4).collect();
            let at = format!("trial {i}: {}{}", spoiled, fired.join(", "));
            if no_termination(j) {
                return Ok(violation("no termination", format!("{at}: {}", exit_text(j))));
            }
            let got = b.outs(w, b"");
            // verify mode: status 2 says "written, because it differed"
            if j.ok() || (t.verify && j.exit == Some(Exit::Code(2))) {
                let mut should = Outs { stdout: vec![], ..want.clone() };
                if !j.ok() {
                    // then the other outputs are not brought up to date
                    should.dep = if got.dep == before.dep { before.dep.clone() } else { should.dep };
                    should.sym = if got.sym == before.sym { before.sym.clone() } else { should.sym };
                }
                if let Some(d) = outs_diff(&got, &should) {
                    let news = new_diagnostics(w, j, &reference);
                    // what was skipped has to be said, not only what is missing as a consequence
                    let mut about: Vec<String> = o.events.iter().filter(|e| e.act != Act::Proceed).map(|e| e.path.clone()).collect();
                    about.extend(spoiled.strip_prefix("invalid byte in ").map(|s| s.to_string()));
                    let said = news.iter().any(|l| about.iter().any(|p| names(l, p)));
                    if !said {
                        return Ok(violation("silent difference", format!("{at}: {:?}, no diagnostic about it, {d}; {news:?}", j.exit)));
                    }
                    st.probe("skipped with a diagnostic");
                } else {
                    st.probe("undisturbed output");
                }
            } else {
                st.probe("failed visibly");
                // what one of the faults alone leads to (a module left out with a warning, say)
                // is a complete update, too, when the other one then fails the run
                let mut alt: Vec<Outs> = vec![];
                let bad = |g: &Option<Vec<u8>>, be: &Option<Vec<u8>>, wa: &Option<Vec<u8>>| be.is_some() && g != be && g != wa;
                if (t.picks.len() > 1 || t.picks.iter().any(|p| p.sticky)) && (bad(&got.header, &before.header, &want.header) || bad(&got.dep, &before.dep, &want.dep) || bad(&got.sym, &before.sym, &want.sym)) {
                    for p in &t.picks {
                        w.reset()?;
                        b.project.materialise(w)?;
                        b.lay_old(w, &t.olds, &want)?;
                        let plan = Plan { faults: place_on(&[Pick { sticky: false, ..p.clone() }], &cands), ..Plan::default() };
                        let mut m = GoodCargo::new(&b.project, w);
                        let o = st.run(w, &[b.job()], &plan, &mut m)?;
                        if o.jobs[0].ok() {
                            alt.push(b.outs(w, b""));
                        }
                    }
                }
                for (n, g, be, wa) in [("header", &got.header, &before.header, &want.header), ("depfile", &got.dep, &before.dep, &want.dep), ("symfile", &got.sym, &before.sym, &want.sym)] {
                    if bad(g, be, wa) && !alt.iter().any(|a| (n == "header" && a.header == *g) || (n == "depfile" && a.dep == *g) || (n == "symfile" && a.sym == *g)) {
                        return Ok(violation("failed run damaged an output", format!("{at}: {n}: {}", diff(g.as_deref().unwrap_or(b""), be.as_deref().unwrap_or(b"")))));
                    }
                }
                if j.exit != Some(Exit::Code(2)) && j.stderr.is_empty() {
                    st.probe("failed without a message");
                }
            }
        }
        Ok(None)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for t in shrink_vec(&c.trials) {
            v.push(Case { trials: t, ..c.clone() });
        }
        for i in 0..c.trials.len() {
            let t = &c.trials[i];
            let mut put = |x: Trial| {
                let mut d = c.clone();
                d.trials[i] = x;
                v.push(d);
            };
            for p in shrink_vec(&t.picks) {
                put(Trial { picks: p, ..t.clone() });
            }
            for (k, p) in t.picks.iter().enumerate() {
                if p.sticky {
                    let mut q = t.picks.clone();
                    q[k].sticky = false;
                    put(Trial { picks: q, ..t.clone() });
                }
            }
            for o in shrink_olds(&t.olds) {
                put(Trial { olds: o, ..t.clone() });
            }
        }
        for b in c.base.shrink() {
            v.push(Case { base: b, ..c.clone() });
        }
        v
    }
    fn summary(&self, c: &Case) -> String {
        format!("{}; {} trials", c.base.summary(), c.trials.len())
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of cases in which at least one fault fired; a case is one project run undisturbed and then 2-8 times with failing stat/open/read/realpath operations, or invalid bytes, on its inputs"
    }
}
