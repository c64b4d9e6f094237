//! Compare-before-write: the output path holds the generated bytes, is touched only when they
//! differ, and the difference is reported.
use super::common::*;
use super::Prop;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Prior {
    Absent,
    Exact,
    Empty,
    /// the first n/1000 of it
    Prefix(u32),
    /// all but the last n bytes
    CutTail(u32),
    /// extra bytes after it
    Extended(String),
    /// extra bytes before it
    Front(String),
    /// the character at n/1000 (the next one that is not ASCII, if any) replaced by an invalid
    /// byte
    Invalid(u32),
    /// one bit of the byte at n/1000 (1000: the last byte) flipped
    Flip(u32, u8),
    /// one byte before the given power-of-two boundary flipped
    FlipAt(u32),
    SwapHalves,
    OtherEol,
    Whitespace,
    Zeros,
    Upper,
    /// the line at n/1000 changed in a way that means nothing to a compiler
    Line(u32, u8),
    /// what the previous step generated is left as it is
    Keep,
    /// a link to a file with this content
    Linked(Box<Prior>),
    Dangling,
    Readonly(Box<Prior>),
}
fn prior(r: &mut Rng, depth: u32) -> Prior {
    match r.below(if depth == 0 { 28 } else { 23 }) {
        0 | 1 => Prior::Absent,
        2 | 3 | 4 | 5 => Prior::Exact,
        6 => Prior::Empty,
        7 => Prior::Prefix(r.below(1000) as u32),
        8 => Prior::CutTail(r.range(1, 3) as u32),
        9 => Prior::Extended(r.pick(&["\n", " ", "x", "\n/* more */\n", "\0"]).to_string()),
        10 | 11 => Prior::Flip(r.below(1001) as u32, 1 << r.below(8)),
        12 => Prior::FlipAt(1 << r.range(5, 17)),
        13 => Prior::SwapHalves,
        14 => Prior::OtherEol,
        15 => r.pick(&[Prior::Whitespace, Prior::Upper]).clone(),
        16 => Prior::Zeros,
        17..=20 => Prior::Line(if r.chance(1, 3) { *r.pick(&[0, 0, 999]) } else { r.below(1000) as u32 }, r.below(8) as u8),
        21 => Prior::Front(r.pick(&["\u{feff}", "\n", " ", "\r\n", "// old\n", "\0"]).to_string()),
        22 => Prior::Invalid(r.below(1000) as u32),
        23 | 24 => Prior::Keep,
        25 => Prior::Linked(Box::new(prior(r, 1))),
        26 => Prior::Dangling,
        _ => Prior::Readonly(Box::new(prior(r, 1))),
    }
}
fn content(p: &Prior, g: &[u8]) -> Option<Vec<u8>> {
    let mut v = g.to_vec();
    match p {
        Prior::Absent | Prior::Dangling | Prior::Keep => return None,
        Prior::Exact => {}
        Prior::Empty => v.clear(),
        Prior::Prefix(n) => v.truncate(g.len() * *n as usize / 1000),
        Prior::CutTail(n) => v.truncate(g.len().saturating_sub(*n as usize)),
        Prior::Extended(s) => v.extend_from_slice(s.as_bytes()),
        Prior::Front(s) => v = [s.as_bytes(), g].concat(),
        Prior::Invalid(n) => {
            let t = String::from_utf8_lossy(g).into_owned();
            let at = t.len() * *n as usize / 1000;
            let c: Vec<(usize, char)> = t.char_indices().collect();
            if let Some((i, ch)) = c.iter().find(|(i, c)| *i >= at && !c.is_ascii()).or(c.iter().find(|(_, c)| !c.is_ascii())).or(c.iter().find(|(i, _)| *i >= at)) {
                v = [t[..*i].as_bytes(), &[0xff], t[i + ch.len_utf8()..].as_bytes()].concat();
            }
        }
        Prior::Flip(n, b) => {
            if !v.is_empty() {
                let i = (g.len() * *n as usize / 1000).min(g.len() - 1);
                v[i] ^= b;
            }
        }
        Prior::FlipAt(n) => {
            if !v.is_empty() {
                let i = (*n as usize).min(v.len()) - 1;
                v[i] ^= 1;
            }
        }
        Prior::SwapHalves => {
            let h = v.len() / 2;
            v.rotate_left(h);
        }
        Prior::OtherEol => {
            let s = String::from_utf8_lossy(g).into_owned();
            let t = if s.contains("\r\n") { s.replace("\r\n", "\n") } else if s.contains('\r') { s.replace('\r', "\n") } else { s.replace('\n', "\r\n") };
            v = t.into_bytes();
        }
        Prior::Whitespace => {
            let s = String::from_utf8_lossy(g).into_owned();
            v = s.replacen(' ', "  ", 1).into_bytes();
        }
        Prior::Upper => v.make_ascii_uppercase(),
        Prior::Line(n, how) => {
            let mut ls: Vec<Vec<u8>> = g.split_inclusive(|b| *b == b'\n').map(|l| l.to_vec()).collect();
            if !ls.is_empty() {
                let i = ls.len() * *n as usize / 1000;
                // before the line ending
                let e = |l: &[u8]| l.iter().rposition(|b| *b != b'\n' && *b != b'\r').map(|k| k + 1).unwrap_or(0);
                match how {
                    0 => {
                        let k = e(&ls[i]);
                        ls[i].insert(k, b' ')
                    }
                    1 => {
                        let k = e(&ls[i]);
                        ls[i].insert(k, b'\t')
                    }
                    2 => ls[i].insert(0, b' '),
                    3 => ls.insert(i, b"\n".to_vec()),
                    4 => ls.insert(i, b"/* a comment */\n".to_vec()),
                    5 => ls.insert(i, b"// a comment\n".to_vec()),
                    6 => {
                        if let Some(k) = (i..ls.len()).find(|k| e(&ls[*k]) == 0) {
                            ls.remove(k);
                        }
                    }
                    _ => {
                        // in a comment, if there is one
                        let k = (i..ls.len()).chain(0..i).find(|k| ls[*k].windows(2).any(|x| x == b"/*" || x == b"//" || x == b" *")).unwrap_or(i);
                        let z = e(&ls[k]).saturating_sub(1);
                        let z = (0..=z).rev().find(|z| ls[k].get(*z).map(|b| b.is_ascii_alphabetic()).unwrap_or(false)).unwrap_or(z);
                        if let Some(b) = ls[k].get_mut(z) {
                            *b ^= 1;
                        }
                    }
                }
            }
            v = ls.concat();
        }
        Prior::Zeros => v.iter_mut().for_each(|b| *b = 0),
        Prior::Linked(p) | Prior::Readonly(p) => return content(p, g),
    }
    Some(v)
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Step {
    prior: Prior,
    verify: bool,
    /// use the k-th version of the project
    version: usize,
    plan: Plan,
    /// disturb the read of the old content: (read number, what)
    fuzz_reads: Vec<(u32, Act)>,
    quiet_flags: Vec<String>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    base: Base,
    /// other versions of source files: (path, text)
    versions: Vec<Vec<(String, String)>>,
    steps: Vec<Step>,
}
pub struct C02;

impl Prop for C02 {
    type Case = Case;
    const ID: &'static str = "C02";
    fn gen(&self, env: &Env, r: &mut Rng, n: u64) -> Case {
        let per = if n % 16 == 3 { 400 } else { *r.pick(&[1, 3, 8, 20]) };
        let want = Want { stdout: false, dep: r.chance(1, 4), sym: r.chance(1, 4) };
        let mut b = base(r, env, per, want);
        voice(r, &mut b.project);
        // depfile and symfile have no compare-before-write; verify mode is about the header only
        if r.chance(1, 2) {
            b.dep = None;
            b.sym = None;
        }
        let mut versions = vec![vec![]];
        for k in 0..r.below(3) {
            if let Some(f) = b.project.sources.first().cloned() {
                let t = b.project.files[&f].clone();
                let extra = match r.below(3) {
                    0 => format!("\n#[no_mangle]\npub extern \"C\" fn added_{k}() {{}}\n"),
                    1 => "\n// only a comment\n".to_string(),
                    _ => format!("\n#[repr(C)]\npub struct Unused{k} {{ a: u8 }}\n"),
                };
                versions.push(vec![(f, format!("{t}{extra}"))]);
            }
        }
        let steps = (0..r.range(1, 5))
            .map(|_| Step {
                prior: prior(r, 0),
                verify: r.chance(1, 2),
                version: r.us(versions.len()),
                plan: Plan::default(),
                fuzz_reads: if r.chance(1, 3) {
                    (0..r.range(1, 4))
                        .map(|_| (r.below(6) as u32, if r.chance(1, 3) { Act::Fail(libc::EINTR) } else { Act::Short(1 + r.below(40) as i64 * 100) }))
                        .collect()
                } else {
                    vec![]
                },
                quiet_flags: vec![],
            })
            .collect();
        Case { base: b, versions, steps }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        let out = c.base.out.clone().unwrap();
        // what each version generates: by way of standard output, not of the code under test here
        let mut expect: Vec<Option<Vec<u8>>> = vec![];
        for v in &c.versions {
            w.reset()?;
            let mut p = c.base.project.clone();
            for (f, t) in v {
                p.files.insert(f.clone(), t.clone());
            }
            p.materialise(w)?;
            let mut m = GoodCargo::new(&p, w);
            let o = st.run(w, &[p.job(None, None, None, &[])], &Plan::default(), &mut m)?;
            expect.push(if o.jobs[0].ok() { Some(o.jobs[0].stdout.clone()) } else { None });
        }
        if expect.iter().any(|e| e.is_none()) {
            st.probe("input rejected");
            return Ok(None);
        }
        w.reset()?;
        c.base.project.materialise(w)?;
        for (i, s) in c.steps.iter().enumerate() {
            let g = expect[s.version].as_ref().unwrap();
            let mut p = c.base.project.clone();
            for (f, t) in &c.versions[0] {
                p.files.insert(f.clone(), t.clone());
            }
            for (f, t) in &c.versions[s.version] {
                p.files.insert(f.clone(), t.clone());
            }
            for f in c.versions.iter().flatten().map(|x| &x.0) {
                w.put_text(f, &p.files[f])?;
            }
            // lay out the prior state
            let a = w.abs(&out);
            if s.prior != Prior::Keep {
                let _ = std::fs::remove_file(&a);
                let body = content(&s.prior, g);
                match &s.prior {
                    Prior::Absent => {
                        if i == 0 {
                            if let Some(d) = a.parent() {
                                if !c.base.project.files.keys().any(|k| w.abs(k).starts_with(d)) {
                                    let _ = std::fs::remove_dir_all(d);
                                }
                            }
                        }
                    }
                    Prior::Linked(_) | Prior::Dangling => {
                        std::fs::create_dir_all(a.parent().unwrap())?;
                        std::fs::create_dir_all(w.abs("linked"))?;
                        let t = w.abs("linked/real.h");
                        let _ = std::fs::remove_file(&t);
                        std::os::unix::fs::symlink(&t, &a)?;
                        if let Some(b) = body {
                            std::fs::write(&t, b)?;
                        }
                    }
                    _ => w.put(&out, body.as_deref().unwrap_or(b""))?,
                }
            }
            let before = std::fs::read(&a).ok();
            w.age()?;
            let was = w.snapshot()?;
            let extra: Vec<&str> = if s.verify { vec!["--verify"] } else { vec![] };
            let job = p.job(Some(&out), c.base.dep.as_deref(), c.base.sym.as_deref(), &extra);
            let mut plan = s.plan.clone();
            if !s.fuzz_reads.is_empty() {
                // find the reads of the old file in an undisturbed rehearsal
                let mut m = GoodCargo::new(&p, w);
                let real = std::fs::canonicalize(&a).ok();
                let keep = before.clone();
                let o = st.run(w, &[job.clone()], &Plan::default(), &mut m)?;
                let reads: Vec<u32> = o.events.iter().filter(|e| e.op == op::READ && e.path == out).map(|e| e.at).collect();
                for (k, act) in &s.fuzz_reads {
                    if let Some(at) = reads.get(*k as usize) {
                        plan.faults.push(Fault { actor: 0, at: *at, act: act.clone(), sticky: false, on: None });
                    }
                }
                // restore
                match (&keep, real) {
                    (Some(b), Some(real)) => std::fs::write(real, b)?,
                    _ => {
                        let t = std::fs::canonicalize(&a).ok();
                        if let Some(t) = t {
                            let _ = std::fs::remove_file(t);
                        }
                    }
                }
                w.age()?;
            }
            let was_keys: Vec<String> = was.keys().cloned().collect();
            let mut m = GoodCargo::new(&p, w);
            let o = st.run(w, &[job], &plan, &mut m)?;
            let j = &o.jobs[0];
            let after = std::fs::read(&a).ok();
            let same = before.as_deref() == Some(g.as_slice());
            st.probe(&format!("prior {}", match &s.prior { Prior::Linked(_) => "link".into(), Prior::Readonly(_) => "readonly".into(), p => format!("{p:?}").split(['(', ' ']).next().unwrap().to_lowercase() }));
            st.probe(if same { "unchanged" } else { "changed" });
            let want = if s.verify && !same { 2 } else { 0 };
            let at = format!("step {i}, prior {:?}, verify {}", s.prior, s.verify);
            if j.exit != Some(Exit::Code(want)) {
                return Ok(violation("wrong exit status", format!("{at}: expected {want}, got {}", exit_text(j))));
            }
            if after.as_deref() != Some(g.as_slice()) {
                return Ok(violation("wrong content", format!("{at}: {}", diff(after.as_deref().unwrap_or(b""), g))));
            }
            let now = w.snapshot()?;
            if same {
                // neither the path nor the file behind it may be opened for writing, replaced or touched
                for e in &o.events {
                    if e.writes() && (e.path == out || e.path == "linked/real.h") && e.op != op::MKDIR {
                        return Ok(violation("unchanged file written", format!("{at}: {}", e.line())));
                    }
                }
                let ch: Vec<_> = changes(&was, &now, s.fuzz_reads.is_empty())
                    .into_iter()
                    .filter(|(p, _)| *p == out || p == "linked/real.h")
                    .collect();
                if let Some((p, what)) = ch.first() {
                    return Ok(violation("unchanged file touched", format!("{at}: {p} {what}")));
                }
                if let (Some(Node::File { mtime, .. }), true) = (now.get(&out), true) {
                    if *mtime != 1_000_000_000 {
                        return Ok(violation("unchanged file touched", format!("{at}: time stamp")));
                    }
                }
            }
            let _ = was_keys;
        }
        Ok(None)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for s in shrink_vec(&c.steps) {
            if !s.is_empty() {
                v.push(Case { steps: s, ..c.clone() });
            }
        }
        for i in 0..c.steps.len() {
            for f in shrink_vec(&c.steps[i].fuzz_reads) {
                let mut d = c.clone();
                d.steps[i].fuzz_reads = f;
                v.push(d);
            }
        }
        for b in c.base.shrink() {
            v.push(Case { base: b, versions: vec![vec![]], steps: c.steps.iter().map(|s| Step { version: 0, ..s.clone() }).collect() });
        }
        v
    }
    fn summary(&self, c: &Case) -> String {
        format!("{}; steps {:?}", c.base.summary(), c.steps.iter().map(|s| format!("{:?}{}", s.prior, if s.verify { " --verify" } else { "" })).collect::<Vec<_>>())
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of histories of 1-5 runs over one output path, each starting from a chosen prior state of that path"
    }
    fn always_nontrivial(&self) -> bool {
        true
    }
}
