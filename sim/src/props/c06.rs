//! cargo and rustc children that fail, die, talk nonsense or talk a lot.
use super::common::*;
use super::Prop;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};

/// How one child invocation behaves.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    /// complete answer, then this status
    Status(i32),
    /// a share (in thousandths) of the answer, then this status (never 0)
    Partial(u32, i32),
    /// a share of the answer, then killed by this signal
    Signal(u32, i32),
    /// nothing, status 0
    Empty,
    /// nothing, this status
    Mute(i32),
    /// the answer with an invalid byte at a share of its length, status 0
    Invalid(u32),
    /// something else entirely, status 0
    Nonsense(u32),
    /// metadata: any proper prefix; expansion: cut inside the last item; status 0
    Cut(u32),
    /// the complete answer in chunks, with this much on standard error in between
    Chatty(Vec<(u32, i64)>),
    /// standard output closed first, then noise, then status
    CloseThen(i64, i32),
    /// complete answer, invalid bytes on standard error, status 0
    BadStderr,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Trial {
    olds: [Old; 3],
    /// (which invocation, modulo their number; behaviour)
    bad: Vec<(u32, Bad)>,
    /// failures of the parent's own calls about the child
    picks: Vec<Pick>,
    sched: Sched,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    base: Base,
    /// the package left out of the answer filtered for this platform
    filtered: Option<String>,
    trials: Vec<Trial>,
}
pub struct C06;

pub struct BadCargo<'a> {
    pub good: GoodCargo<'a>,
    pub bad: Vec<(usize, Bad)>,
    pub filtered: bool,
    pub fired: u64,
    /// a metadata or expansion command failed or was killed
    pub failed: bool,
}
pub const NONSENSE: &[&str] = &[
    "{}", "null", "[]", "{\"packages\":[]}", "{\"packages\":[],\"target_directory\":\"x\"}", "error: could not compile\n", "<html></html>", "\u{0}\u{1}", "{\"version\":2}", "fn (", "}", "pub struct {", "\"",
];
impl StubModel for BadCargo<'_> {
    fn start(&mut self, h: &StubHello) -> Vec<StubCmd> {
        let side = self.good.side.clone();
        if h.is_metadata() && h.opt("--filter-platform").map(|t| t != "x86_64-unknown-linux-gnu").unwrap_or(false) {
            // as cargo does for a platform it does not know
            return vec![StubCmd::Raw(2, "error: failed to run `rustc` to learn about target-specific information\n".into()), StubCmd::Exit(101)];
        }
        let f = if h.is_metadata() {
            if self.filtered && h.opt("--filter-platform") == Some("x86_64-unknown-linux-gnu") {
                "metadata-f.json".to_string()
            } else {
                "metadata.json".to_string()
            }
        } else if h.is_expand() {
            format!("expand-{}.rs", expand_target(h))
        } else {
            let _ = std::fs::write(side.join("rustc-vv"), RUSTC_VV);
            "rustc-vv".to_string()
        };
        let n = self.good.len(&f);
        let all = StubCmd::Out(1, f.clone(), 0, n);
        let part = |k: u32| StubCmd::Out(1, f.clone(), 0, n * k as i64 / 1000);
        let Some((_, b)) = self.bad.iter().find(|b| b.0 == h.index) else {
            return vec![all, StubCmd::Exit(0)];
        };
        self.fired += 1;
        if h.is_metadata() || h.is_expand() {
            self.failed |= match b {
                Bad::Status(_) | Bad::Partial(..) | Bad::Signal(..) | Bad::Mute(_) => true,
                Bad::CloseThen(_, c) => *c != 0,
                _ => false,
            };
        }
        let say = StubCmd::Raw(2, "warning: unused variable\nerror: the child failed\n  --> src/lib.rs:1:1\n\nerror: could not compile\n".into());
        match b {
            Bad::Status(c) => vec![all, say, StubCmd::Exit(*c)],
            Bad::Partial(k, c) => vec![part(*k), say, StubCmd::Exit(*c)],
            Bad::Signal(k, s) => vec![part(*k), StubCmd::Kill(*s)],
            Bad::Empty => vec![StubCmd::Exit(0)],
            Bad::Mute(c) => vec![StubCmd::Exit(*c)],
            Bad::Invalid(k) => {
                let mut d = std::fs::read(side.join(&f)).unwrap_or_default();
                d.insert(d.len() * *k as usize / 1000, 0xff);
                let g = format!("bad-{}", h.index);
                let _ = std::fs::write(side.join(&g), &d);
                vec![StubCmd::Out(1, g, 0, d.len() as i64), StubCmd::Exit(0)]
            }
            Bad::Nonsense(k) => vec![StubCmd::Raw(1, NONSENSE[*k as usize % NONSENSE.len()].into()), StubCmd::Exit(0)],
            Bad::Cut(k) => {
                let d = std::fs::read(side.join(&f)).unwrap_or_default();
                let cut = if h.is_expand() {
                    let t = String::from_utf8_lossy(&d).into_owned();
                    let s = t.rfind("#[no_mangle]").unwrap_or(0);
                    let e = t.trim_end().len().max(s + 2);
                    s as i64 + 1 + (*k as i64 % (e - s - 1) as i64)
                } else {
                    (d.len() as i64 - 1).max(0) * *k as i64 / 1000
                };
                vec![StubCmd::Out(1, f, 0, cut), StubCmd::Exit(0)]
            }
            Bad::Chatty(chunks) => {
                let mut v = vec![];
                let mut off = 0;
                for (k, noise) in chunks {
                    let to = (n * *k as i64 / 1000).max(off);
                    v.push(StubCmd::Out(1, f.clone(), off, to - off));
                    v.push(StubCmd::Fill(2, *noise));
                    off = to;
                }
                v.push(StubCmd::Out(1, f.clone(), off, n - off));
                v.push(StubCmd::Exit(0));
                v
            }
            Bad::CloseThen(noise, c) => vec![StubCmd::Close(1), StubCmd::Fill(2, *noise), StubCmd::Exit(*c)],
            Bad::BadStderr => {
                let _ = std::fs::write(side.join("bad-err"), [b'x', 0xff, b'\n']);
                vec![all, StubCmd::Out(2, "bad-err".into(), 0, 3), StubCmd::Exit(0)]
            }
        }
    }
}

pub fn bad(r: &mut Rng) -> Bad {
    let code = if r.chance(1, 4) { r.range(1, 255) as i32 } else { *r.pick(&[1, 2, 3, 101, 126, 127, 128, 137, 254, 255]) };
    let sig = *r.pick(&[libc::SIGKILL, libc::SIGTERM, libc::SIGSEGV, libc::SIGABRT, libc::SIGPIPE, libc::SIGINT, libc::SIGHUP, libc::SIGBUS, libc::SIGXCPU]);
    let k = r.below(1000) as u32;
    match r.below(12) {
        0 => Bad::Status(code),
        1 => Bad::Partial(k, code),
        2 => Bad::Signal(*r.pick(&[0, k, 1000]), sig),
        3 => Bad::Empty,
        4 => Bad::Mute(code),
        5 => Bad::Invalid(k),
        6 => Bad::Nonsense(k),
        7 | 8 => Bad::Cut(k),
        9 => {
            let mut ks: Vec<u32> = (0..r.range(1, 4)).map(|_| r.below(1001) as u32).collect();
            ks.sort();
            Bad::Chatty(ks.into_iter().map(|k| (k, *r.pick(&[1i64, 100, 4096, 65_536, 70_000, 200_000]))).collect())
        }
        10 => Bad::CloseThen(*r.pick(&[0i64, 70_000]), *r.pick(&[0, code])),
        _ => Bad::BadStderr,
    }
}

impl Prop for C06 {
    type Case = Case;
    const ID: &'static str = "C06";
    fn gen(&self, _env: &Env, r: &mut Rng, n: u64) -> Case {
        let per = if n % 16 == 9 { 60 } else { *r.pick(&[1, 2, 4, 8]) };
        let deps = r.chance(1, 2);
        let ex: &[&str] = match r.below(5) {
            0 => &[],
            1 | 2 | 3 => &["@root"],
            _ => &["@root", "@deps"],
        };
        let clean = r.chance(1, 4);
        let (mut p, ws) = workspace(r, per, deps, ex, clean);
        let mut filtered = None;
        if r.chance(1, 3) {
            p.args.push("--only-target-dependencies".into());
            if ws.pkgs.len() > 1 {
                let gone = ws.pkgs.len() - 1;
                let order: Vec<usize> = ws.order.iter().copied().filter(|k| *k != gone).collect();
                filtered = Some(metadata_json(&ws.pkgs, &order, &ws.ws_root));
            }
        }
        let base = with_outputs(r, p, Want { stdout: true, dep: true, sym: true });
        let trials = (0..r.range(2, 6))
            .map(|_| {
                let faults = r.chance(1, 5);
                Trial {
                    olds: [old(r), old(r), old(r)],
                    bad: if faults { vec![] } else { (0..r.range(1, 2)).map(|_| (r.below(1000) as u32, bad(r))).collect() },
                    picks: if faults {
                        vec![Pick {
                            k: r.below(1_000_000) as u32,
                            act: Act::Fail(*r.pick(&[libc::EIO, libc::ENOMEM, libc::EAGAIN, libc::ENOENT, libc::EACCES, libc::E2BIG, libc::EMFILE])),
                            sticky: r.chance(1, 4),
                        }]
                    } else {
                        vec![]
                    },
                    sched: Sched::Random { seed: r.next(), inv: *r.pick(&[1, 2, 5, 1000]), allocs: 0 },
                }
            })
            .collect();
        Case { base, filtered, trials }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        let b = &c.base;
        let lay = |w: &mut World| -> R<()> {
            w.reset()?;
            b.project.materialise(w)?;
            if let Some(f) = &c.filtered {
                std::fs::write(w.side().join("metadata-f.json"), w.subst(f))?;
            }
            Ok(())
        };
        lay(w)?;
        let mut m = BadCargo { good: GoodCargo::new(&b.project, w), bad: vec![], filtered: c.filtered.is_some(), fired: 0, failed: false };
        let ro = st.run(w, &[b.job()], &Plan::default(), &mut m)?;
        let want = b.outs(w, &ro.jobs[0].stdout);
        if !ro.jobs[0].ok() {
            st.probe("input rejected");
            return Ok(None);
        }
        let nchild = ro.stubs.len();
        // tidying up after the child is not about its answer
        let cands: Vec<&Event> = ro
            .events
            .iter()
            .filter(|e| e.actor == 0 && (e.op == op::SPAWN || e.op == op::POLL || (e.op == op::READ && e.path.starts_with("<pipe"))))
            .collect();
        if nchild == 0 {
            return Ok(None);
        }
        for (i, t) in c.trials.iter().enumerate() {
            lay(w)?;
            b.lay_old(w, &t.olds, &want)?;
            let before = b.outs(w, b"");
            let mut faults = place_on(&t.picks, &cands);
            for f in &mut faults {
                // only a spawn can be refused this way
                if f.act == Act::Fail(libc::EAGAIN) && f.on.as_ref().map(|x| x.0) != Some(op::SPAWN) {
                    f.act = Act::Fail(libc::EIO);
                }
            }
            let plan = Plan { faults, sched: t.sched.clone(), ..Plan::default() };
            let mut m = BadCargo {
                good: GoodCargo::new(&b.project, w),
                bad: t.bad.iter().map(|(k, x)| (*k as usize % nchild, x.clone())).collect(),
                filtered: c.filtered.is_some(),
                fired: 0,
                failed: false,
            };
            let o = st.run(w, &[b.job()], &plan, &mut m)?;
            if m.fired > 0 {
                *st.injected.entry("child misbehaviour".into()).or_insert(0) += m.fired;
                st.case_faults += m.fired;
            }
            let j = &o.jobs[0];
            let what = format!("trial {i}: {:?} {:?}", t.bad, o.events.iter().filter(|e| e.act != Act::Proceed).map(|e| e.line()).take(3).collect::<Vec<_>>());
            if no_termination(j) {
                return Ok(violation("no termination", format!("{what}: {}", exit_text(j))));
            }
            let got = b.outs(w, &j.stdout);
            if j.ok() {
                if m.failed && new_diagnostics(w, j, &ro.jobs[0]).is_empty() {
                    return Ok(violation("failure of a child ignored", format!("{what}: exit 0, no diagnostic")));
                }
                if let Some(d) = outs_diff(&got, &want) {
                    if new_diagnostics(w, j, &ro.jobs[0]).is_empty() {
                        return Ok(violation("silent difference", format!("{what}: exit 0, no diagnostic, {d}")));
                    }
                    st.probe("went on with a diagnostic");
                } else {
                    st.probe("complete output");
                }
                let chatty_only = t.picks.is_empty() && t.bad.iter().all(|x| matches!(x.1, Bad::Chatty(_)));
                if chatty_only {
                    st.probe("chatty child");
                }
            } else {
                st.probe("failed visibly");
                if let Some(d) = outs_diff(&Outs { stdout: vec![], ..got }, &before) {
                    return Ok(violation("failed run touched an output", format!("{what}: {}; {d}", exit_text(j))));
                }
                let harmless = t.picks.is_empty() && t.bad.iter().all(|x| matches!(x.1, Bad::Chatty(_)));
                if harmless {
                    return Ok(violation("healthy child rejected", format!("{what}: {}", exit_text(j))));
                }
            }
        }
        Ok(None)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for t in shrink_vec(&c.trials) {
            v.push(Case { trials: t, ..c.clone() });
        }
        for i in 0..c.trials.len() {
            let t = &c.trials[i];
            let mut put = |x: Trial| {
                let mut d = c.clone();
                d.trials[i] = x;
                v.push(d);
            };
            if t.bad.len() > 1 {
                for p in shrink_vec(&t.bad) {
                    put(Trial { bad: p, ..t.clone() });
                }
            }
            for (k, (_, x)) in t.bad.iter().enumerate() {
                if let Bad::Chatty(ch) = x {
                    for p in shrink_vec(ch) {
                        let mut q = t.bad.clone();
                        q[k].1 = Bad::Chatty(p);
                        put(Trial { bad: q, ..t.clone() });
                    }
                }
            }
            for o in shrink_olds(&t.olds) {
                put(Trial { olds: o, ..t.clone() });
            }
            for s in shrink_sched(&t.sched) {
                put(Trial { sched: s, ..t.clone() });
            }
        }
        for b in c.base.shrink() {
            v.push(Case { base: b, ..c.clone() });
        }
        v
    }
    fn explicit(&self, c: &Case, s: &[Sched]) -> Option<Case> {
        let mut d = c.clone();
        for (t, s) in d.trials.iter_mut().zip(s) {
            t.sched = s.clone();
        }
        Some(d)
    }
    fn summary(&self, c: &Case) -> String {
        format!("{}; {:?}", c.base.summary(), c.trials.iter().map(|t| &t.bad).collect::<Vec<_>>())
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of cases in which at least one child misbehaved or one call about a child failed; a case is one crate bound undisturbed and then 2-6 times with misbehaving children under a seeded parent/child schedule"
    }
}
