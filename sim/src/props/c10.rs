//! Interrupted calls and short transfers.
use super::common::*;
use super::Prop;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Noise {
    /// the k-th (modulo) interruptible operation of the rehearsal ...
    k: u32,
    /// ... plus this many operations
    off: u32,
    /// 0: interrupted, otherwise: at most so many bytes
    len: i64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trial {
    olds: [Old; 3],
    noise: Vec<Noise>,
    /// the child's answers come in pieces of at most this size, with this much noise between them
    pieces: Option<(i64, i64)>,
    sched: Sched,
    verify: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WriterSpec {
    /// >0 at most so many bytes, 0 everything, <0 interrupted
    chunks: Vec<i64>,
    /// fails for good after this share (per mille) of the text, in this way
    fail: Option<(u32, i64)>,
    flush_fails: bool,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    base: Base,
    trials: Vec<Trial>,
    writers: Vec<WriterSpec>,
}
pub struct C10;

/// A correct child that answers in pieces.
struct Pieces<'a> {
    good: GoodCargo<'a>,
    pieces: Option<(i64, i64)>,
}
impl StubModel for Pieces<'_> {
    fn start(&mut self, h: &StubHello) -> Vec<StubCmd> {
        let v = self.good.start(h);
        let Some((size, noise)) = self.pieces else { return v };
        let mut out = vec![];
        for c in v {
            match c {
                StubCmd::Out(s, f, o, n) => {
                    let size = size.max(n / 60).max(1);
                    let mut o = o;
                    let end = o + n;
                    while o < end {
                        let k = size.min(end - o);
                        out.push(StubCmd::Out(s, f.clone(), o, k));
                        if noise > 0 {
                            out.push(StubCmd::Fill(2, noise));
                        }
                        o += k;
                    }
                }
                c => out.push(c),
            }
        }
        out
    }
}

fn interruptible(e: &Event) -> bool {
    e.at != u32::MAX && matches!(e.op, op::READ | op::WRITE | op::OPEN | op::POLL)
}
fn noise(r: &mut Rng) -> Vec<Noise> {
    let n = match r.below(4) {
        0 => r.range(1, 3),
        1 => r.range(4, 20),
        2 => r.range(20, 120),
        _ => r.range(100, 600),
    };
    let tail = r.chance(1, 4);
    let mut v = vec![];
    for _ in 0..n {
        let k = if tail { u32::MAX - r.below(60) as u32 } else { r.below(1_000_000) as u32 };
        let burst = if r.chance(1, 6) { r.range(2, 6) } else { 1 };
        for b in 0..burst {
            v.push(Noise { k, off: b as u32, len: if r.chance(1, 2) { 0 } else { *r.pick(&[1, 1, 2, 3, 5, 17, 64, 500, 1023, 4095]) } });
        }
    }
    v
}
fn faults(n: &[Noise], ev: &[Event]) -> Vec<Fault> {
    let c: Vec<&Event> = ev.iter().filter(|e| interruptible(e) && e.actor == 0).collect();
    if c.is_empty() {
        return vec![];
    }
    n.iter()
        .map(|x| {
            let i = if x.k > u32::MAX - 1000 { c.len() - 1 - ((u32::MAX - x.k) as usize).min(c.len() - 1) } else { x.k as usize % c.len() };
            Fault { actor: 0, at: c[i].at + x.off, act: if x.len == 0 { Act::Fail(libc::EINTR) } else { Act::Short(x.len) }, sticky: false, on: None }
        })
        .collect()
}

impl Prop for C10 {
    type Case = Case;
    const ID: &'static str = "C10";
    fn gen(&self, env: &Env, r: &mut Rng, n: u64) -> Case {
        let per = match n % 16 {
            3 => 200,
            9 => 60,
            _ => *r.pick(&[1, 2, 4, 10]),
        };
        let mut base = if n % 8 == 5 {
            let d = r.chance(1, 2);
            let cl = r.chance(1, 2);
            let x: &[&str] = if r.chance(1, 2) { &["@root"] } else { &["@deps"] };
            let p = workspace(r, per, d, x, cl).0;
            with_outputs(r, p, Want { stdout: true, dep: true, sym: true })
        } else {
            base(r, env, per, Want { stdout: true, dep: true, sym: true })
        };
        if base.project.is_crate() && !base.project.uses_expand() && r.chance(1, 3) {
            let m = base.project.metadata.clone().unwrap();
            base.project.files.insert("meta.json".into(), m);
            base.project.args.extend(["--metadata".into(), "@ROOT@/meta.json".into()]);
        }
        voice(r, &mut base.project);
        let child = base.project.is_crate();
        let trials = (0..r.range(2, 6))
            .map(|_| Trial {
                olds: [old(r), old(r), old(r)],
                noise: noise(r),
                pieces: if child && r.chance(1, 2) { Some((*r.pick(&[1, 7, 100, 4096]), *r.pick(&[0, 0, 10, 3000, 70000]))) } else { None },
                sched: if child && r.chance(2, 3) { Sched::Random { seed: r.next(), inv: *r.pick(&[1, 2, 5]), allocs: 0 } } else { Sched::default() },
                verify: r.chance(1, 8),
            })
            .collect();
        let writers = (0..r.range(1, 4))
            .map(|_| {
                let mut chunks: Vec<i64> = (0..r.range(0, 6)).map(|_| *r.pick(&[-1, -1, 1, 1, 2, 3, 10, 100, 0])).collect();
                if chunks.iter().all(|c| *c < 0) {
                    chunks.push(1);
                }
                WriterSpec {
                    chunks,
                    fail: if r.chance(1, 2) { Some((if r.chance(1, 4) { 1000 } else { r.below(1000) as u32 }, r.below(4) as i64)) } else { None },
                    flush_fails: r.chance(1, 8),
                }
            })
            .collect();
        Case { base, trials, writers }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        let b = &c.base;
        let (ro, want) = b.reference(w, st)?;
        if !ro.jobs[0].ok() {
            if b.sure {
                return Ok(violation("clean run fails", exit_text(&ro.jobs[0])));
            }
            st.probe("input rejected");
            return Ok(None);
        }
        for (i, t) in c.trials.iter().enumerate() {
            let job = b.project.job(b.out.as_deref(), b.dep.as_deref(), b.sym.as_deref(), if t.verify { &["--verify"] } else { &[] });
            let mut res = vec![];
            let mut fs = vec![];
            for pass in 0..2 {
                w.reset()?;
                b.project.materialise(w)?;
                b.lay_old(w, &t.olds, &want)?;
                let mut m = Pieces { good: GoodCargo::new(&b.project, w), pieces: if pass == 1 { t.pieces } else { None } };
                let plan = Plan { faults: std::mem::take(&mut fs), sched: if pass == 1 { t.sched.clone() } else { Sched::default() }, ..Plan::default() };
                let o = st.run(w, &[job.clone()], &plan, &mut m)?;
                fs = faults(&t.noise, &o.events);
                let outs = b.outs(w, &o.jobs[0].stdout);
                res.push((o, outs));
            }
            let (o, got) = &res[1];
            let (r, should) = &res[0];
            let first = o.events.iter().find(|e| e.act != Act::Proceed).map(|e| e.line()).unwrap_or_default();
            let at = format!("trial {i} ({} disturbances, first {first})", o.events.iter().filter(|e| e.act != Act::Proceed).count());
            if o.jobs[0].exit != r.jobs[0].exit {
                return Ok(violation("different outcome", format!("{at}: {:?} instead of {:?}: {}", o.jobs[0].exit, r.jobs[0].exit, exit_text(&o.jobs[0]))));
            }
            if let Some(d) = outs_diff(got, should) {
                return Ok(violation("different output", format!("{at}: {d}")));
            }
            if t.pieces.is_none() {
                let news = new_diagnostics(w, &o.jobs[0], &r.jobs[0]);
                if !news.is_empty() {
                    return Ok(violation("new diagnostics", format!("{at}: {}", news.join(" | "))));
                }
            }
        }
        // the library's writer interface
        if !c.writers.is_empty() {
            w.reset()?;
            b.project.materialise(w)?;
            let len = {
                let g = driver_gen(&b.project, serde_json::json!([{"do": "mem"}]));
                let j = driver_job(w, &serde_json::json!([[g]]))?;
                let mut m = GoodCargo::new(&b.project, w);
                let o = st.run(w, &[j], &Plan::default(), &mut m)?;
                driver_result(&o.jobs[0]).and_then(|v| v["threads"][0][0]["actions"][0]["text"].as_str().map(|s| s.to_string()))
            };
            let Some(text) = len else {
                st.probe("library use rejected");
                return Ok(None);
            };
            let whole = text.as_bytes();
            let mut acts = vec![];
            for s in &c.writers {
                acts.push(serde_json::json!({
                    "do": "writer", "chunks": s.chunks, "flush_fails": s.flush_fails,
                    "fail_at": s.fail.map(|f| whole.len() * f.0 as usize / 1000), "kind": s.fail.map(|f| f.1)
                }));
            }
            acts.push(serde_json::json!({"do": "mem"}));
            let g = driver_gen(&b.project, serde_json::Value::Array(acts));
            let j = driver_job(w, &serde_json::json!([[g]]))?;
            let mut m = GoodCargo::new(&b.project, w);
            let o = st.run(w, &[j], &Plan::default(), &mut m)?;
            let Some(v) = driver_result(&o.jobs[0]) else {
                return Ok(violation("no result", exit_text(&o.jobs[0])));
            };
            let a = &v["threads"][0][0]["actions"];
            for (i, s) in c.writers.iter().enumerate() {
                st.probe("caller-supplied writer");
                let got: Vec<u8> = a[i]["bytes"].as_str().unwrap_or("?").chars().map(|c| c as u32 as u8).collect();
                let failed = a[i]["failed"] == true;
                let returned = a[i]["returned"] == true;
                if s.flush_fails && !failed {
                    st.probe("writer fails when flushed");
                    if returned || got != whole {
                        return Ok(violation("failing flush", format!("writer {i}: returned {returned}, {}", diff(&got, whole))));
                    }
                } else if failed {
                    st.probe("writer fails for good");
                    if returned {
                        return Ok(violation("returns normally", format!("writer {i} ({s:?}) failed after {} bytes of {}", got.len(), whole.len())));
                    }
                    if !whole.starts_with(&got) {
                        return Ok(violation("not a prefix", format!("writer {i} ({s:?}): {}", diff(&got, whole))));
                    }
                } else if !returned || got != whole {
                    return Ok(violation("writer got something else", format!("writer {i} ({s:?}): returned {returned}, {}", diff(&got, whole))));
                }
            }
            if a[c.writers.len()]["text"].as_str() != Some(&text) {
                return Ok(violation("later write differs", "the same bindings written to memory after the others".to_string()));
            }
        }
        Ok(None)
    }
    fn explicit(&self, c: &Case, s: &[Sched]) -> Option<Case> {
        let mut d = c.clone();
        let mut k = 0;
        for t in &mut d.trials {
            if matches!(t.sched, Sched::Random { .. }) {
                t.sched = s.get(k)?.clone();
                k += 1;
            }
        }
        if k == 0 {
            None
        } else {
            Some(d)
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for t in shrink_vec(&c.trials) {
            v.push(Case { trials: t, ..c.clone() });
        }
        for t in shrink_vec(&c.writers) {
            v.push(Case { writers: t, ..c.clone() });
        }
        for i in 0..c.trials.len() {
            let t = &c.trials[i];
            let mut put = |x: Trial| {
                let mut d = c.clone();
                d.trials[i] = x;
                v.push(d);
            };
            for p in shrink_vec(&t.noise) {
                put(Trial { noise: p, ..t.clone() });
            }
            if t.pieces.is_some() {
                put(Trial { pieces: None, ..t.clone() });
            }
            for s in shrink_sched(&t.sched) {
                put(Trial { sched: s, ..t.clone() });
            }
            for o in shrink_olds(&t.olds) {
                put(Trial { olds: o, ..t.clone() });
            }
        }
        for b in c.base.shrink() {
            v.push(Case { base: b, ..c.clone() });
        }
        v
    }
    fn summary(&self, c: &Case) -> String {
        format!("{}; {} trials, {} writers", c.base.summary(), c.trials.len(), c.writers.len())
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of cases in which at least one interruption, short transfer or process switch happened; a case is one project run undisturbed and then 2-6 times with up to hundreds of interruptions and short transfers, plus 1-4 caller-supplied writers"
    }
}
