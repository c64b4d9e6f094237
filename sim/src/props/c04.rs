//! Crash anywhere, any residue: one clean re-run restores exact outputs.
use super::common::*;
use super::Prop;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Crash {
    /// dies before the k-th (modulo) operation
    At(u32),
    /// dies before/in the k-th (modulo) operation on an output, after n bytes
    Output(u32, i64),
    /// everything (children, too) stops at this share of the steps (per mille)
    Step(u32),
    /// not killed: an output operation fails for good
    Error(u32, i32),
    /// completes
    None,
}
/// What happens to an output's data afterwards: only what was synced survives.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Loss {
    Keep,
    Truncate(u32),
    Zero(u32),
    ZeroTail(u32),
    Remove,
    Garbage,
    /// older, longer content shows after the new one
    Longer(u32),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Round {
    version: usize,
    crash: Crash,
    loss: [Loss; 3],
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    base: Base,
    /// texts appended to the first source file
    versions: Vec<String>,
    rounds: Vec<Round>,
    last: usize,
}
pub struct C04;

fn loss(r: &mut Rng) -> Loss {
    match r.below(14) {
        0 => Loss::Truncate(r.below(1001) as u32),
        1 => Loss::Zero(r.below(1001) as u32),
        2 => Loss::ZeroTail(r.below(1001) as u32),
        3 => Loss::Remove,
        4 => Loss::Garbage,
        5 | 6 => Loss::Longer(r.below(300) as u32),
        _ => Loss::Keep,
    }
}
fn apply(l: &Loss, d: &mut Vec<u8>) {
    let n = d.len();
    match l {
        Loss::Truncate(k) => d.truncate(n * *k as usize / 1000),
        Loss::Zero(k) => {
            let e = n * *k as usize / 1000;
            d[..e].iter_mut().for_each(|b| *b = 0)
        }
        Loss::ZeroTail(k) => {
            let s = n * *k as usize / 1000;
            d[s..].iter_mut().for_each(|b| *b = 0)
        }
        Loss::Longer(k) => d.extend((0..*k).map(|i| b" old\n"[i as usize % 5])),
        Loss::Garbage => *d = (0..n.max(40)).map(|i| (i * 37 % 251) as u8 | 0x80).collect(),
        _ => {}
    }
}

impl C04 {
    fn project(&self, c: &Case, v: usize) -> Project {
        let mut p = c.base.project.clone();
        if let Some(f) = p.sources.first().cloned() {
            if let Some(t) = p.files.get_mut(&f) {
                t.push_str(&c.versions[v]);
            }
            // the modules that some of the versions have
            let dir = f.rsplit_once('/').map(|x| format!("{}/", x.0)).unwrap_or_default();
            for k in 0..4 {
                if c.versions.iter().any(|t| t.contains(&format!("later_mod_{k}.rs"))) {
                    p.files.insert(format!("{dir}later_mod_{k}.rs"), format!("#[no_mangle]\npub extern \"C\" fn in_later_mod_{k}() {{}}\n"));
                }
            }
        }
        p
    }
}

impl Prop for C04 {
    type Case = Case;
    const ID: &'static str = "C04";
    fn gen(&self, env: &Env, r: &mut Rng, n: u64) -> Case {
        let per = if n % 32 == 9 { 120 } else { *r.pick(&[1, 3, 8, 20]) };
        let mut base = base(r, env, per, ALL);
        voice(r, &mut base.project);
        if base.project.uses_expand() && r.chance(1, 2) {
            base.project.args.push("--clean".into());
        }
        let mut versions = vec![String::new()];
        for k in 0..r.below(3) {
            let mut t = String::new();
            for i in 0..r.range(1, 12) {
                t += &format!("\n#[no_mangle]\npub extern \"C\" fn later_{k}_{i}(x: u32) {{}}\n");
            }
            if r.chance(1, 2) {
                t += &format!("\n#[path = \"later_mod_{k}.rs\"]\nmod later_mod_{k};\n");
            }
            versions.push(t);
        }
        let rounds = (0..r.range(1, 4))
            .map(|_| Round {
                version: r.us(versions.len()),
                crash: match r.below(10) {
                    0 | 1 => Crash::At(r.below(100_000) as u32),
                    2..=5 => Crash::Output(
                        if r.chance(1, 2) { r.below(100_000) as u32 } else { u32::MAX - r.below(10) as u32 },
                        *r.pick(&[0, 0, 1, 7, 100, 4000]),
                    ),
                    6 => Crash::Step(r.below(1000) as u32),
                    7 | 8 => Crash::Error(r.below(100_000) as u32, *r.pick(WRITE_ERRS)),
                    _ => Crash::None,
                },
                loss: [loss(r), loss(r), loss(r)],
            })
            .collect();
        let last = r.us(versions.len());
        Case { base, versions, rounds, last }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        let b = &c.base;
        // what a run in a fresh directory gives
        let fresh = Base { project: self.project(c, c.last), ..b.clone() };
        let (ro, want) = fresh.reference(w, st)?;
        if !ro.jobs[0].ok() {
            if b.sure {
                return Ok(violation("clean run fails", exit_text(&ro.jobs[0])));
            }
            st.probe("input rejected");
            return Ok(None);
        }
        w.reset()?;
        let mut history = vec![];
        for rd in &c.rounds {
            let bv = Base { project: self.project(c, rd.version), ..b.clone() };
            // the tree keeps everything earlier rounds left
            bv.project.files.iter().try_for_each(|(p, t)| w.put_text(p, t))?;
            bv.project.side(w)?;
            std::fs::create_dir_all(w.abs(&bv.project.cwd))?;
            let keep = w.snapshot()?;
            let mut plan = Plan::default();
            if rd.crash != Crash::None {
                let mut m = GoodCargo::new(&bv.project, w);
                let o = st.run(w, &[bv.job()], &Plan::default(), &mut m)?;
                let all: Vec<u32> = o.events.iter().filter(|e| e.actor == 0 && e.at != u32::MAX).map(|e| e.at).collect();
                let outs: Vec<u32> = o
                    .events
                    .iter()
                    .filter(|e| e.actor == 0 && e.at != u32::MAX && bv.output_or_parent(&e.path))
                    .map(|e| e.at)
                    .collect();
                let steps = o.events.last().map(|e| e.step).unwrap_or(0);
                let one = |k: u32, act: Act| vec![Pick { k, act, sticky: true }];
                match &rd.crash {
                    Crash::At(k) => plan.faults = place(&one(*k, Act::Die), &all),
                    Crash::Output(k, n) => {
                        plan.faults = super::c03::place_ends(&one(*k, if *n == 0 { Act::Die } else { Act::Torn(*n) }), &outs)
                    }
                    Crash::Step(k) => plan.crash_at = Some(steps * k / 1000),
                    Crash::Error(k, e) => plan.faults = place(&one(*k, Act::Fail(*e)), &outs),
                    Crash::None => {}
                }
                // back to the state before the rehearsal
                restore(w, &keep)?;
            }
            let mut m = GoodCargo::new(&bv.project, w);
            let o = st.run(w, &[bv.job()], &plan, &mut m)?;
            history.push(format!("{:?} -> {:?}", rd.crash, o.jobs[0].exit.clone().unwrap()));
            if o.jobs[0].exit == Some(Exit::Crashed) {
                st.probe("crashed");
            }
            for (p, l) in [&b.out, &b.dep, &b.sym].into_iter().zip(&rd.loss) {
                if let Some(p) = p {
                    if *l == Loss::Remove {
                        let _ = std::fs::remove_file(w.abs(p));
                    } else if *l != Loss::Keep {
                        if let Some(mut d) = w.get(p) {
                            apply(l, &mut d);
                            w.put(p, &d)?;
                            st.probe("data lost after crash");
                        }
                    }
                }
            }
        }
        // the recovery run
        fresh.project.files.iter().try_for_each(|(p, t)| w.put_text(p, t))?;
        fresh.project.side(w)?;
        let mut m = GoodCargo::new(&fresh.project, w);
        let o = st.run(w, &[fresh.job()], &Plan::default(), &mut m)?;
        let h = history.join("; ");
        if !o.jobs[0].ok() {
            return Ok(violation("recovery run fails", format!("after {h}: {}", exit_text(&o.jobs[0]))));
        }
        if let Some(d) = outs_diff(&b.outs(w, &o.jobs[0].stdout), &want) {
            return Ok(violation("outputs not restored", format!("after {h}: {d}")));
        }
        if o.events.len() > 4 * ro.events.len() + 300 {
            return Ok(violation("recovery takes too long", format!("after {h}: {} steps instead of {}", o.events.len(), ro.events.len())));
        }
        w.age()?;
        let mut m = GoodCargo::new(&fresh.project, w);
        let o = st.run(w, &[fresh.job()], &Plan::default(), &mut m)?;
        if !o.jobs[0].ok() {
            return Ok(violation("recovery run fails", format!("run after recovery, after {h}: {}", exit_text(&o.jobs[0]))));
        }
        if let Some(p) = &b.out {
            if let Some(e) = o.events.iter().find(|e| e.writes() && e.path == *p) {
                return Ok(violation("header touched after recovery", format!("after {h}: {}", e.line())));
            }
        }
        if let Some(d) = outs_diff(&b.outs(w, &o.jobs[0].stdout), &want) {
            return Ok(violation("outputs not restored", format!("run after recovery, after {h}: {d}")));
        }
        Ok(None)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for x in shrink_vec(&c.rounds) {
            v.push(Case { rounds: x, ..c.clone() });
        }
        for i in 0..c.rounds.len() {
            for k in 0..3 {
                if c.rounds[i].loss[k] != Loss::Keep {
                    let mut d = c.clone();
                    d.rounds[i].loss[k] = Loss::Keep;
                    v.push(d);
                }
            }
            if c.rounds[i].version != 0 {
                let mut d = c.clone();
                d.rounds[i].version = 0;
                v.push(d);
            }
        }
        if c.last != 0 {
            v.push(Case { last: 0, ..c.clone() });
        }
        for b in c.base.shrink() {
            let mut b = b;
            b.project.sources = c.base.project.sources.clone();
            v.push(Case { base: b, ..c.clone() });
        }
        v
    }
    fn summary(&self, c: &Case) -> String {
        format!("{}; history {:?}", c.base.summary(), c.rounds.iter().map(|r| &r.crash).collect::<Vec<_>>())
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of histories with at least one fired crash, torn write or error; a history is 1-4 disturbed runs over evolving sources with lost data in between, followed by a recovery run and a check run"
    }
}

/// Put files back to what a snapshot holds.
pub fn restore(w: &World, s: &Snap) -> R<()> {
    let now = w.snapshot()?;
    for (p, n) in now.iter().rev() {
        if !s.contains_key(p) {
            match n {
                Node::Dir => std::fs::remove_dir_all(w.abs(p))?,
                _ => std::fs::remove_file(w.abs(p))?,
            }
        }
    }
    for (p, n) in s {
        match n {
            Node::Dir => std::fs::create_dir_all(w.abs(p))?,
            Node::Link(t) => {
                if now.get(p) != Some(n) {
                    let _ = std::fs::remove_file(w.abs(p));
                    std::os::unix::fs::symlink(t, w.abs(p))?;
                }
            }
            Node::File { data, .. } => {
                let same = matches!(now.get(p), Some(Node::File { data: d, .. }) if d == data);
                if !same {
                    w.put(p, data)?;
                }
            }
        }
    }
    Ok(())
}
