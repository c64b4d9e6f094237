//! What the properties share: a project, its outputs, and the undisturbed reference run.
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{Env, Stats};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Base {
    pub project: Project,
    /// output paths relative to the root; no header path: standard output
    pub out: Option<String>,
    pub dep: Option<String>,
    pub sym: Option<String>,
    /// the generator promises that the undisturbed run succeeds
    pub sure: bool,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Outs {
    pub header: Option<Vec<u8>>,
    pub dep: Option<Vec<u8>>,
    pub sym: Option<Vec<u8>>,
    pub stdout: Vec<u8>,
}

pub const OUT_DIRS: &[&str] = &["out", "out/a/b c", "o\u{e9}", "p/include", "deep/er/and/deeper"];

#[derive(Clone, Copy)]
pub struct Want {
    pub stdout: bool,
    pub dep: bool,
    pub sym: bool,
}
pub const ALL: Want = Want { stdout: false, dep: true, sym: true };

pub fn base(r: &mut Rng, env: &Env, per: u64, want: Want) -> Base {
    let p = any_project(r, &env.corpus, per);
    with_outputs(r, p, want)
}
/// How much is to be said on standard error must not matter.
pub fn voice(r: &mut Rng, p: &mut Project) {
    match r.below(10) {
        0 | 1 => p.args.push("--quiet".into()),
        2 => p.args.push("-v".into()),
        3 if p.files.len() < 8 => p.args.push("-vv".into()),
        _ => {}
    }
}
pub fn with_outputs(r: &mut Rng, p: Project, want: Want) -> Base {
    let sure = p.name == "src" || p.name == "crate";
    let to_stdout = want.stdout && r.chance(1, 4);
    let d1 = *r.pick(OUT_DIRS);
    let d2 = if r.chance(1, 2) { d1 } else { *r.pick(OUT_DIRS) };
    let d3 = if r.chance(1, 2) { d1 } else { *r.pick(OUT_DIRS) };
    let out = if to_stdout { None } else { Some(format!("{d1}/{}", r.pick(&["bindings.h", "b i.h", "x.hpp", "noext"]))) };
    Base {
        dep: if want.dep && !to_stdout && r.chance(3, 4) { Some(format!("{d2}/b.d")) } else { None },
        sym: if want.sym && !to_stdout && r.chance(3, 4) { Some(format!("{d3}/b.sym")) } else { None },
        out,
        project: p,
        sure,
    }
}

impl Base {
    pub fn job(&self) -> Job {
        self.project.job(self.out.as_deref(), self.dep.as_deref(), self.sym.as_deref(), &[])
    }
    pub fn paths(&self) -> Vec<String> {
        [&self.out, &self.dep, &self.sym].iter().filter_map(|x| (*x).clone()).collect()
    }
    pub fn outs(&self, w: &World, stdout: &[u8]) -> Outs {
        let g = |p: &Option<String>| p.as_ref().and_then(|p| w.get(p));
        Outs {
            header: g(&self.out),
            dep: g(&self.dep),
            sym: g(&self.sym),
            stdout: stdout.to_vec(),
        }
    }
    /// Lay out the tree and run without any disturbance in it; afterwards the tree is fresh again.
    pub fn reference(&self, w: &mut World, st: &mut Stats) -> R<(RunOut, Outs)> {
        self.project.materialise(w)?;
        let mut m = GoodCargo::new(&self.project, w);
        let o = st.run(w, &[self.job()], &Plan::default(), &mut m)?;
        let outs = self.outs(w, &o.jobs[0].stdout);
        w.reset()?;
        self.project.materialise(w)?;
        Ok((o, outs))
    }
    pub fn shrink(&self) -> Vec<Base> {
        let mut v: Vec<Base> = shrink_project(&self.project)
            .into_iter()
            .map(|p| Base { project: p, ..self.clone() })
            .collect();
        if self.dep.is_some() {
            v.push(Base { dep: None, ..self.clone() });
        }
        if self.sym.is_some() {
            v.push(Base { sym: None, ..self.clone() });
        }
        v
    }
    pub fn summary(&self) -> String {
        format!(
            "project {} ({} files), outputs {:?} {:?} {:?}",
            self.project.name,
            self.project.files.len(),
            self.out.as_deref().unwrap_or("stdout"),
            self.dep,
            self.sym
        )
    }
}

/// Which of the outputs differ from what they should be.
pub fn outs_diff(got: &Outs, want: &Outs) -> Option<String> {
    let mut v = vec![];
    for (n, g, w) in [("header", &got.header, &want.header), ("depfile", &got.dep, &want.dep), ("symfile", &got.sym, &want.sym)] {
        if g != w {
            match (g, w) {
                (Some(g), Some(w)) => v.push(format!("{n}: {}", diff(g, w))),
                (None, _) => v.push(format!("{n} missing")),
                _ => v.push(format!("{n} unexpectedly there")),
            }
        }
    }
    if got.stdout != want.stdout {
        v.push(format!("stdout: {}", diff(&got.stdout, &want.stdout)));
    }
    if v.is_empty() {
        None
    } else {
        Some(v.join("; "))
    }
}

pub fn exit_text(j: &JobOut) -> String {
    let e = j.err();
    let tail: String = e.lines().rev().take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
    format!("{:?}, stderr: {}", j.exit, tail.chars().take(300).collect::<String>())
}

/// A fault placed on the k-th (modulo) of the candidate operations of a rehearsal.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Pick {
    pub k: u32,
    pub act: Act,
    pub sticky: bool,
}
pub fn place(picks: &[Pick], cands: &[u32]) -> Vec<Fault> {
    if cands.is_empty() {
        return vec![];
    }
    picks
        .iter()
        .map(|p| Fault {
            actor: 0,
            at: cands[p.k as usize % cands.len()],
            act: p.act.clone(),
            sticky: p.sticky,
            on: None,
        })
        .collect()
}
/// Faults that only fire on the very operations of the rehearsal they were chosen for.
pub fn place_on(picks: &[Pick], cands: &[&Event]) -> Vec<Fault> {
    if cands.is_empty() {
        return vec![];
    }
    picks
        .iter()
        .map(|p| {
            let e = cands[p.k as usize % cands.len()];
            Fault { actor: e.actor, at: e.at, act: p.act.clone(), sticky: p.sticky, on: Some((e.op, e.path.clone())) }
        })
        .collect()
}
pub const WRITE_ERRS: &[i32] = &[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EROFS, libc::EACCES, libc::EMFILE, libc::EPIPE, libc::EPERM, libc::ENOMEM, libc::EAGAIN, libc::EFBIG, libc::ESTALE, libc::ETIMEDOUT, libc::EINVAL, libc::ENXIO, libc::EBUSY, libc::ENODEV];
pub const READ_ERRS: &[i32] = &[libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOMEM, libc::ESTALE, libc::ELOOP, libc::EPERM, libc::ENFILE, libc::EISDIR, libc::ETIMEDOUT, libc::EINVAL, libc::ENXIO, libc::EOVERFLOW, libc::EBUSY, libc::ENODEV, libc::EBADF];

/// What an output path holds before the run.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Old {
    Absent,
    Exact,
    Stale(String),
    Empty,
    Longer,
    Prefix(u32),
}
pub fn old(r: &mut Rng) -> Old {
    match r.below(8) {
        0 | 1 => Old::Absent,
        2 => Old::Exact,
        3 => Old::Empty,
        4 => Old::Longer,
        5 => Old::Prefix(r.below(1000) as u32),
        _ => Old::Stale("/* an older header */\nvoid gone(void);\n".into()),
    }
}
pub fn old_content(o: &Old, g: &[u8]) -> Option<Vec<u8>> {
    Some(match o {
        Old::Absent => return None,
        Old::Exact => g.to_vec(),
        Old::Stale(s) => s.as_bytes().to_vec(),
        Old::Empty => vec![],
        Old::Longer => [g, b"\n/* left over */\n".as_slice()].concat(),
        Old::Prefix(n) => g[..g.len() * *n as usize / 1000].to_vec(),
    })
}
impl Base {
    /// Put the prior content of header, depfile and symbol file in place.
    pub fn lay_old(&self, w: &World, olds: &[Old; 3], r: &Outs) -> R<()> {
        for (p, o, g) in [(&self.out, &olds[0], &r.header), (&self.dep, &olds[1], &r.dep), (&self.sym, &olds[2], &r.sym)] {
            if let (Some(p), Some(g)) = (p, g) {
                if let Some(c) = old_content(o, g) {
                    w.put(p, &c)?;
                }
            }
        }
        Ok(())
    }
    pub fn is_output(&self, p: &str) -> bool {
        [&self.out, &self.dep, &self.sym].iter().any(|x| x.as_deref() == Some(p))
    }
    /// An output or a directory on the way to one.
    pub fn output_or_parent(&self, p: &str) -> bool {
        self.is_output(p) || self.paths().iter().any(|o| o.starts_with(&format!("{p}/")))
    }
}
pub fn no_termination(j: &JobOut) -> bool {
    matches!(j.exit, Some(Exit::Deadlock | Exit::Hang | Exit::TooLong))
}
/// Lines on standard error that the undisturbed run did not print.
pub fn new_diagnostics(w: &World, got: &JobOut, reference: &JobOut) -> Vec<String> {
    let norm = |j: &JobOut| -> Vec<String> { j.err().lines().map(|l| w.unsubst(l)).collect() };
    let mut had = norm(reference);
    let mut v = vec![];
    for l in norm(got) {
        if let Some(i) = had.iter().position(|h| *h == l) {
            had.swap_remove(i);
        } else if !l.trim_matches(|c| c == 'w' || c == ' ').is_empty() {
            v.push(l);
        }
    }
    v
}
pub fn shrink_olds(o: &[Old; 3]) -> Vec<[Old; 3]> {
    let mut v = vec![];
    for i in 0..3 {
        if o[i] != Old::Absent {
            let mut n = o.clone();
            n[i] = Old::Absent;
            v.push(n);
        }
    }
    v
}
/// A driver specification for one generation of this project (library use).
pub fn driver_gen(p: &Project, actions: serde_json::Value) -> serde_json::Value {
    let mut g = serde_json::json!({"api": "builder", "actions": actions});
    if let Some(c) = &p.config {
        g["config"] = serde_json::json!(abs_or(c));
    }
    let mut it = p.args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "-l" | "--lang" => {
                g["lang"] = match it.next().map(|s| s.to_lowercase()).as_deref() {
                    Some("c") => "C".into(),
                    Some("c++") => "C++".into(),
                    _ => "Cython".into(),
                }
            }
            _ => {}
        }
    }
    if p.is_crate() {
        g["crate"] = serde_json::json!(p.input);
    } else {
        g["src"] = serde_json::json!([p.input]);
    }
    g
}
pub fn driver_job(w: &World, threads: &serde_json::Value) -> R<Job> {
    let t = w.subst(&serde_json::json!({"threads": threads}).to_string());
    std::fs::write(w.side().join("spec.json"), t)?;
    Ok(Job {
        exe: "driver".into(),
        args: vec!["@SIDE@/spec.json".into()],
        env: vec![],
        cwd: String::new(),
        hash_seed: 7,
        heap: 0,
        dirseed: 0,
        clock: 0,
        pid: 0,
    })
}
pub fn driver_result(j: &JobOut) -> Option<serde_json::Value> {
    let e = j.err();
    let l = e.lines().rev().find_map(|l| l.find("@@RESULT ").map(|i| &l[i + 9..]))?;
    serde_json::from_str(l).ok()
}
/// Simpler schedules.
pub fn shrink_sched(s: &Sched) -> Vec<Sched> {
    match s {
        Sched::Random { .. } => vec![Sched::default()],
        Sched::Fixed { switches, preempts } => {
            let mut v = vec![];
            for x in shrink_vec(switches) {
                v.push(Sched::Fixed { switches: x, preempts: preempts.clone() });
            }
            for x in shrink_vec(preempts) {
                v.push(Sched::Fixed { switches: switches.clone(), preempts: x });
            }
            v
        }
    }
}
/// The same project below another directory.
pub fn relocate(p: &Project, prefix: &str) -> Project {
    if prefix.is_empty() {
        return p.clone();
    }
    let sub = |s: &String| s.replace("@ROOT@", &format!("@ROOT@/{prefix}"));
    let mut q = p.clone();
    q.files = p.files.iter().map(|(k, v)| (format!("{prefix}/{k}"), sub(v))).collect();
    q.links = p.links.iter().map(|(k, v)| (format!("{prefix}/{k}"), sub(v))).collect();
    q.input = sub(&p.input);
    q.args = p.args.iter().map(sub).collect();
    q.metadata = p.metadata.as_ref().map(sub);
    q.expand = p.expand.iter().map(|(k, v)| (k.clone(), sub(v))).collect();
    q.env = p.env.iter().map(|(k, v)| (k.clone(), sub(v))).collect();
    q.config = p.config.as_ref().map(|c| format!("{prefix}/{c}"));
    q.sources = p.sources.iter().map(|c| format!("{prefix}/{c}")).collect();
    q
}

/// cargo for several projects, told apart by the first component of the manifest path.
pub struct ManyCargo<'a> {
    pub projects: Vec<(String, GoodCargo<'a>)>,
    pub root: std::path::PathBuf,
    /// projects whose expansion fails
    pub broken: Vec<String>,
}
impl<'a> ManyCargo<'a> {
    pub fn new(ps: &'a [(String, Project)], w: &World) -> R<ManyCargo<'a>> {
        let mut v = vec![];
        for (n, p) in ps {
            p.side_as(w, &format!("{n}-"))?;
            let mut g = GoodCargo::new(p, w);
            g.tag = format!("{n}-");
            v.push((n.clone(), g));
        }
        Ok(ManyCargo { projects: v, root: w.root.clone(), broken: vec![] })
    }
}
impl StubModel for ManyCargo<'_> {
    fn start(&mut self, h: &StubHello) -> Vec<StubCmd> {
        let m = h.opt("--manifest-path").unwrap_or("");
        for (n, g) in &mut self.projects {
            if m.starts_with(&format!("{}/{n}/", self.root.display())) || m.trim_start_matches("./").starts_with(&format!("{n}/")) {
                if h.is_expand() && self.broken.contains(n) {
                    return vec![StubCmd::Raw(2, "error: broken\n".into()), StubCmd::Exit(101)];
                }
                let mut v = g.start(h);
                // what is expanded depends on features and profile
                if h.is_expand() {
                    let mut extra = String::new();
                    for (o, f) in [("--all-features", "all_features"), ("--no-default-features", "no_default_features"), ("--release", "release")] {
                        if h.argv.iter().any(|a| a == o) {
                            extra += &format!("\n#[no_mangle]\npub extern \"C\" fn built_with_{f}() {{}}\n");
                        }
                    }
                    for f in h.opt("--features").unwrap_or("").split(' ').filter(|f| !f.is_empty()) {
                        extra += &format!("\n#[no_mangle]\npub extern \"C\" fn built_with_feature_{}() {{}}\n", f.replace('/', "_"));
                    }
                    if let (false, Some(e)) = (extra.is_empty(), v.pop()) {
                        v.push(StubCmd::Raw(1, extra));
                        v.push(e);
                    }
                }
                return v;
            }
        }
        vec![StubCmd::Exit(101)]
    }
}
