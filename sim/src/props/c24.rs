//! What a generation leaves behind in the process that made it.
use super::common::*;
use super::{c09, Prop};
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

/// How a child ends other than well.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Status(i32),
    Signal(i32),
    Mute(i32),
    Nonsense,
    /// closes its output at once and goes on for this many steps
    Linger(u32, i32),
    /// this much on standard error
    Noise(i64),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Trial {
    picks: Vec<Pick>,
    ends: Vec<(u32, End)>,
    sched: Sched,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    c: c09::Case,
    trials: Vec<Trial>,
}
pub struct C24;

struct Ending<'a> {
    good: ManyCargo<'a>,
    ends: Vec<(usize, End)>,
    fired: u64,
}
impl StubModel for Ending<'_> {
    fn start(&mut self, h: &StubHello) -> Vec<StubCmd> {
        let v = self.good.start(h);
        let Some((_, e)) = self.ends.iter().find(|e| e.0 == h.index) else { return v };
        self.fired += 1;
        let but_last = |v: &[StubCmd]| v[..v.len() - 1].to_vec();
        match e {
            End::Status(c) => [but_last(&v), vec![StubCmd::Exit(*c)]].concat(),
            End::Signal(s) => [but_last(&v), vec![StubCmd::Kill(*s)]].concat(),
            End::Mute(c) => vec![StubCmd::Exit(*c)],
            End::Nonsense => vec![StubCmd::Raw(1, "}{".into()), StubCmd::Exit(0)],
            End::Linger(n, c) => [but_last(&v), vec![StubCmd::Close(1), StubCmd::Close(2)], vec![StubCmd::Nop; *n as usize], vec![StubCmd::Exit(*c)]].concat(),
            End::Noise(n) => [vec![StubCmd::Fill(2, *n)], v].concat(),
        }
    }
}

impl Case {
    fn job(&self, w: &World) -> R<Job> {
        let c = &self.c;
        let specs: Vec<Vec<Value>> = (0..c.threads.len()).map(|t| (0..c.threads[t].len()).map(|k| c.spec(t, k)).collect()).collect();
        let mut j = driver_job(w, &json!(specs))?;
        let p = w.side().join("spec.json");
        let t = std::fs::read_to_string(&p)?;
        std::fs::write(&p, format!("{{\"audit\":true,{}", &t[1..]))?;
        j.hash_seed = c.seed;
        Ok(j)
    }
    fn limit(&self) -> u32 {
        24 + 8 * self.c.threads.len() as u32
    }
    fn judge(&self, o: &RunOut, what: &str) -> Option<Violation> {
        let j = &o.jobs[0];
        if no_termination(j) {
            return violation("no termination", format!("{what}{}", exit_text(j)));
        }
        let Some(r) = driver_result(j) else {
            return violation("process died", format!("{what}{}", exit_text(j)));
        };
        let left: Vec<&str> = r["audit"].as_array().map(|v| v.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
        if !left.is_empty() {
            return violation("left behind", format!("{what}{}", left.iter().take(3).map(|s| s.chars().take(400).collect::<String>()).collect::<Vec<_>>().join("; ")));
        }
        if o.peak_fds > self.limit() {
            return violation("too many files open at one time", format!("{what}{} of at most {}", o.peak_fds, self.limit()));
        }
        None
    }
}

impl Prop for C24 {
    type Case = Case;
    const ID: &'static str = "C24";
    fn gen(&self, env: &Env, r: &mut Rng, n: u64) -> Case {
        let mut c = Prop::gen(&c09::C09, env, r, n);
        for t in &mut c.threads {
            for u in t {
                u.edits.clear();
            }
        }
        if r.chance(1, 4) {
            let k = r.us(c.gens.len());
            c.gens[k].project = relocate(&huge(r), &format!("g{k}"));
            c.gens[k].broken = c09::Break::No;
            c.gens[k].api = "builder".into();
            c.threads[0][0].gen = k as u32;
        } else if r.chance(1, 2) {
            let k = r.us(c.gens.len());
            let d = r.chance(1, 2);
            let clean = r.chance(1, 4);
            c.gens[k].project = relocate(&workspace(r, 4, d, if d { &["@root", "@deps"] } else { &["@root"] }, clean).0, &format!("g{k}"));
            c.gens[k].broken = c09::Break::No;
            c.gens[k].api = "builder".into();
            c.threads[0][0].gen = k as u32;
        }
        let trials = (0..r.range(2, 5))
            .map(|_| Trial {
                picks: (0..r.below(4))
                    .map(|_| Pick {
                        k: r.below(1_000_000) as u32,
                        act: match r.below(6) {
                            0 => Act::Short(r.range(1, 50) as i64),
                            1 => Act::Corrupt(r.below(2000) as i64, *r.pick(&[0xff, b'}', b'"'])),
                            2 | 3 => Act::Fail(*r.pick(WRITE_ERRS)),
                            _ => Act::Fail(*r.pick(READ_ERRS)),
                        },
                        sticky: r.chance(1, 3),
                    })
                    .collect(),
                ends: (0..r.below(3))
                    .map(|_| {
                        let code = *r.pick(&[1, 2, 101, 255]);
                        let e = match r.below(6) {
                            0 => End::Status(code),
                            1 => End::Signal(*r.pick(&[libc::SIGKILL, libc::SIGTERM, libc::SIGSEGV])),
                            2 => End::Mute(*r.pick(&[0, code])),
                            3 => End::Nonsense,
                            4 => End::Linger(r.range(1, 20) as u32, *r.pick(&[0, 0, code])),
                            _ => End::Noise(*r.pick(&[10, 70_000])),
                        };
                        (r.below(1000) as u32, e)
                    })
                    .collect(),
                sched: if c.threads.len() == 1 && r.chance(1, 2) { Sched::default() } else { Sched::Random { seed: r.next(), inv: *r.pick(&[1, 2, 5, 20]), allocs: 0 } },
            })
            .collect();
        Case { c, trials }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        w.reset()?;
        let ps = c.c.lay(w)?;
        let mut good = ManyCargo::new(&ps, w)?;
        good.broken = c.c.broken();
        let j = c.job(w)?;
        let mut m = Ending { good, ends: vec![], fired: 0 };
        let ro = st.run(w, &[j], &Plan { sched: c.c.sched.clone(), fd_limit: Some(c.limit()), ..Plan::default() }, &mut m)?;
        if let Some(v) = c.judge(&ro, "undisturbed: ") {
            return Ok(Some(v));
        }
        if ps.iter().any(|p| p.1.sources.len() > c.limit() as usize) {
            st.probe("more modules than files may be open");
        }
        let n = c.c.threads.iter().map(|t| t.len() as u64).sum::<u64>();
        st.case_faults += n - 1;
        let nchild = ro.stubs.len();
        // a broken pipe to a child is for the standard library to deal with
        let cands: Vec<&Event> = ro
            .events
            .iter()
            .filter(|e| !op::internal(e.op) && e.op != op::POLL && !e.path.starts_with('<') && matches!(ro.actors[e.actor as usize].kind, Kind::Main | Kind::Thread))
            .collect();
        // one of each kind, so that what happens once is failed as often as what happens a thousand times
        let mut kinds: Vec<&Event> = vec![];
        for e in &cands {
            if e.op == op::SPAWN || !kinds.iter().any(|k| k.op == e.op && k.path == e.path) {
                kinds.push(e);
            }
        }
        let spawns: Vec<&Event> = cands.iter().copied().filter(|e| e.op == op::SPAWN).collect();
        for (i, t) in c.trials.iter().enumerate() {
            w.reset()?;
            let ps = c.c.lay(w)?;
            let mut good = ManyCargo::new(&ps, w)?;
            good.broken = c.c.broken();
            let j = c.job(w)?;
            let ends = if nchild == 0 { vec![] } else { t.ends.iter().map(|(k, e)| (*k as usize % nchild, e.clone())).collect() };
            let mut m = Ending { good, ends, fired: 0 };
            let faults = t
                .picks
                .iter()
                .flat_map(|p| {
                    let from = match p.k % 8 {
                        0 if !spawns.is_empty() => &spawns,
                        0..=3 => &kinds,
                        _ => &cands,
                    };
                    place_on(&[Pick { k: p.k / 8, ..p.clone() }], from)
                })
                .collect();
            let plan = Plan { faults, sched: t.sched.clone(), fd_limit: Some(c.limit()), ..Plan::default() };
            let o = st.run(w, &[j], &plan, &mut m)?;
            if m.fired > 0 {
                *st.injected.entry("child misbehaviour".into()).or_insert(0) += m.fired;
                st.case_faults += m.fired;
            }
            let what = format!("trial {i}: {:?} {:?}: ", t.ends, o.events.iter().filter(|e| e.act != Act::Proceed).map(|e| e.line()).take(3).collect::<Vec<_>>());
            if let Some(v) = c.judge(&o, &what) {
                return Ok(Some(v));
            }
            if let Some(r) = driver_result(&o.jobs[0]) {
                let all: Vec<&Value> = r["threads"].as_array().into_iter().flatten().flat_map(|t| t.as_array().into_iter().flatten()).collect();
                if all.iter().any(|x| x.get("panic").is_some()) {
                    st.probe("generation panics");
                }
                if all.iter().any(|x| x.get("error").is_some()) {
                    st.probe("generation fails");
                }
                if all.iter().any(|x| x["actions"].as_array().map(|v| v.iter().any(|a| a.get("panic").is_some())).unwrap_or(false)) {
                    st.probe("writing fails");
                }
            }
        }
        Ok(None)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for t in shrink_vec(&c.trials) {
            v.push(Case { trials: t, ..c.clone() });
        }
        for i in 0..c.trials.len() {
            let t = &c.trials[i];
            let mut put = |x: Trial| {
                let mut d = c.clone();
                d.trials[i] = x;
                v.push(d);
            };
            for p in shrink_vec(&t.picks) {
                put(Trial { picks: p, ..t.clone() });
            }
            for p in shrink_vec(&t.ends) {
                put(Trial { ends: p, ..t.clone() });
            }
            for s in shrink_sched(&t.sched) {
                put(Trial { sched: s, ..t.clone() });
            }
        }
        for d in Prop::shrink(&c09::C09, &c.c) {
            v.push(Case { c: d, ..c.clone() });
        }
        v
    }
    fn explicit(&self, c: &Case, s: &[Sched]) -> Option<Case> {
        let mut d = c.clone();
        d.c.sched = s.first()?.clone();
        for (t, s) in d.trials.iter_mut().zip(&s[1..]) {
            t.sched = s.clone();
        }
        Some(d)
    }
    fn summary(&self, c: &Case) -> String {
        format!("{}; {:?}", Prop::summary(&c09::C09, &c.c), c.trials.iter().map(|t| (&t.picks, &t.ends)).collect::<Vec<_>>())
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of cases with a failed operation, a child that ends badly, or an earlier or concurrent generation in the process; open files, children, threads, umask, signal dispositions, limits, panic hook, environment and working directory are compared before and after every generation"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "operations that are not faulted behave as the kernel's tmpfs does",
            "system calls are made through libc (true for Rust's standard library)",
            "reading a child's pipe does not fail for good (the standard library then gives up the child unwaited)",
        ]
    }
}
