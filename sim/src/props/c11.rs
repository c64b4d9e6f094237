//! The depfile: exact, and enough for incremental builds.
use super::common::*;
use super::Prop;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    /// a function more in the k-th (modulo) source file
    Grow(u32),
    /// a new module of the k-th (modulo) crate root, or of a module added before
    AddMod(u32),
    /// the last added module goes away
    DropMod,
    Config(String),
    Unrelated,
    RemoveHeader,
    RemoveDepfile,
    Nothing,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Trouble {
    None,
    Die(u32),
    Torn(u32, i64),
    Error(u32, i32),
    /// while the tool runs, at this share of its steps, a function is added to the k-th source file
    EditDuring(u32, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    changes: Vec<Change>,
    trouble: Trouble,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    base: Base,
    /// through the library instead of the command line
    library: bool,
    /// more sources for the library
    more: Vec<String>,
    steps: Vec<Step>,
}
pub struct C11;

/// One make rule: target and prerequisites.
pub fn parse_depfile(t: &str) -> Result<(String, Vec<String>), String> {
    let mut words = vec![];
    let mut cur = String::new();
    let mut it = t.chars().peekable();
    let mut lines = 0;
    while let Some(c) = it.next() {
        match c {
            '\\' if it.peek() == Some(&'\n') => {
                it.next();
                if !cur.is_empty() {
                    words.push(std::mem::take(&mut cur));
                }
            }
            '\\' if it.peek() == Some(&' ') => {
                it.next();
                cur.push(' ');
            }
            ' ' | '\t' | '\n' => {
                if c == '\n' {
                    lines += 1;
                    if it.peek().is_some() {
                        return Err("more than one line".into());
                    }
                }
                if !cur.is_empty() {
                    words.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() || lines != 1 {
        return Err("last line is not terminated".into());
    }
    if words.is_empty() {
        return Err("empty".into());
    }
    let t = words.remove(0);
    match t.strip_suffix(':') {
        Some(t) => Ok((t.to_string(), words)),
        None => Err(format!("no target: {t:?}")),
    }
}
fn canon(w: &World, p: &str) -> Option<String> {
    std::fs::canonicalize(w.abs(p)).ok().map(|p| p.to_string_lossy().into_owned())
}
/// Compare the depfile with the files the run opened for reading.
pub fn exact(w: &World, b: &Base, o: &RunOut, sources: Option<&[String]>) -> Result<Vec<String>, String> {
    let dep = b.dep.as_ref().ok_or("no depfile asked for")?;
    let text = w.get(dep).ok_or("no depfile")?;
    let text = String::from_utf8(text).map_err(|_| "not text".to_string())?;
    let (target, list) = parse_depfile(&text)?;
    let header = canon(w, b.out.as_ref().unwrap()).ok_or("no header")?;
    if target != header {
        return Err(format!("target {target:?} instead of {header:?}"));
    }
    let got: BTreeSet<String> = list.iter().cloned().collect();
    let mut want = BTreeSet::new();
    for e in &o.events {
        if e.actor == 0 && e.op == op::OPEN && e.ret >= 0 && !e.writes() && !e.path.starts_with('<') {
            let name = e.path.rsplit('/').next().unwrap_or("");
            if b.is_output(&e.path) || matches!(name, "Cargo.toml" | "Cargo.lock" | "meta.json" | "spec.json") {
                continue;
            }
            if let Some(c) = canon(w, &e.path) {
                if std::path::Path::new(&c).is_file() {
                    want.insert(c);
                }
            }
        }
    }
    let show = |s: &str| w.unsubst(s);
    if let Some(x) = want.difference(&got).next() {
        return Err(format!("{} was read but is not listed", show(x)));
    }
    if let Some(x) = got.difference(&want).next() {
        return Err(format!("{} is listed but was not read", show(x)));
    }
    if let Some(c) = &b.project.config {
        let c = canon(w, c).unwrap_or_default();
        if !got.contains(&c) {
            return Err(format!("configuration {} is not listed", show(&c)));
        }
    }
    if let Some(s) = sources {
        for s in s {
            let c = canon(w, s).unwrap_or_default();
            if !got.contains(&c) {
                return Err(format!("source {} is not listed", show(&c)));
            }
        }
    }
    Ok(got.into_iter().collect())
}

impl Prop for C11 {
    type Case = Case;
    const ID: &'static str = "C11";
    fn gen(&self, env: &Env, r: &mut Rng, n: u64) -> Case {
        let per = *r.pick(&[1, 2, 4, 8]);
        let mut p = match r.below(8) {
            0 => {
                let k = r.us(env.corpus.cases.len());
                env.corpus.project(r, k)
            }
            1..=3 => src_project(r, per),
            4 | 5 => workspace(r, per, true, &[], false).0,
            _ => workspace(r, per, false, &[], false).0,
        };
        respell(r, &mut p);
        let deps = p.config.as_ref().map(|c| p.files[c].contains("parse_deps = true")).unwrap_or(false);
        voice(r, &mut p);
        let mut base = with_outputs(r, p, Want { stdout: false, dep: true, sym: true });
        if base.dep.is_none() {
            base.dep = Some("out/dep file.d".into());
        }
        if r.chance(1, 5) {
            base.out = Some(format!("./{}", r.pick(&["bindings.h", "rel/b.h"])));
        }
        let library = n % 6 == 4;
        let more = if library && r.chance(1, 2) {
            let f = "extra src/more.rs".to_string();
            let mut c = Ctx::new("more_");
            let t = items(r, &mut c, 3);
            base.project.files.insert(f.clone(), t);
            vec![f]
        } else {
            vec![]
        };
        let cfg = |r: &mut Rng| config(r, &CfgOpt { parse_deps: deps, ..CfgOpt::default() });
        let steps = (0..r.range(2, 7))
            .map(|i| Step {
                changes: if i == 0 {
                    vec![]
                } else {
                    (0..r.range(0, 2))
                        .map(|_| match r.below(12) {
                            0..=3 => Change::Grow(r.below(1000) as u32),
                            4 | 5 => Change::AddMod(r.below(1000) as u32),
                            6 => Change::DropMod,
                            7 => Change::Config(cfg(r)),
                            8 => Change::Unrelated,
                            9 => Change::RemoveHeader,
                            10 => Change::RemoveDepfile,
                            _ => Change::Nothing,
                        })
                        .collect()
                },
                trouble: match r.below(10) {
                    0 => Trouble::Die(r.below(100_000) as u32),
                    1 => Trouble::Torn(r.below(100_000) as u32, *r.pick(&[1, 7, 100, 4000])),
                    2 => Trouble::Error(r.below(100_000) as u32, *r.pick(WRITE_ERRS)),
                    3 | 4 => Trouble::EditDuring(r.below(1000) as u32, r.below(1000) as u32),
                    _ => Trouble::None,
                },
            })
            .collect();
        Case { base, library, more, steps }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        let mut b = c.base.clone();
        let rel_out = b.out.clone().unwrap();
        // where a relative header lands
        if let Some(x) = rel_out.strip_prefix("./") {
            b.out = Some(if b.project.cwd.is_empty() { x.to_string() } else { format!("{}/{x}", b.project.cwd) });
        }
        let mut p = b.project.clone();
        p.materialise(w)?;
        let mut db: Option<BTreeMap<String, Vec<u8>>> = None;
        let mut added: Vec<(String, String, String)> = vec![]; // parent, declaration, file
        let mut uid = 0;
        let mut hist = vec![];
        let roots: Vec<String> = p.sources.iter().filter(|s| s.ends_with("/lib.rs")).cloned().collect();
        for (i, s) in c.steps.iter().enumerate() {
            for ch in &s.changes {
                uid += 1;
                match ch {
                    Change::Grow(k) => {
                        let mut l = p.sources.clone();
                        l.extend(added.iter().map(|a| a.2.clone()));
                        if !l.is_empty() {
                            let f = &l[*k as usize % l.len()];
                            if let Some(t) = p.files.get_mut(f) {
                                t.push_str(&format!("\n#[no_mangle]\npub extern \"C\" fn grown_{uid}() {{}}\n"));
                            }
                        }
                    }
                    Change::AddMod(k) => {
                        let l = &roots;
                        if !l.is_empty() {
                            let parent = l[*k as usize % l.len()].clone();
                            let d = parent.rsplit_once('/').unwrap().0;
                            let file = format!("{d}/added_{uid}.rs");
                            let decl = format!("\nmod added_{uid};\n");
                            p.files.get_mut(&parent).unwrap().push_str(&decl);
                            p.files.insert(file.clone(), format!("#[no_mangle]\npub extern \"C\" fn in_added_{uid}() {{}}\n"));
                            added.push((parent, decl, file));
                        }
                    }
                    Change::DropMod => {
                        if let Some((parent, decl, file)) = added.pop() {
                            let t = p.files.get_mut(&parent).unwrap();
                            *t = t.replace(&decl, "");
                            p.files.remove(&file);
                            let _ = std::fs::remove_file(w.abs(&file));
                        }
                    }
                    Change::Config(t) => {
                        if let Some(f) = &p.config {
                            p.files.insert(f.clone(), t.clone());
                        }
                    }
                    Change::Unrelated => w.put_text(&format!("other/file{}.rs", uid % 3), &format!("// {uid}\n"))?,
                    Change::RemoveHeader => {
                        let _ = std::fs::remove_file(w.abs(b.out.as_ref().unwrap()));
                    }
                    Change::RemoveDepfile => {
                        let _ = std::fs::remove_file(w.abs(b.dep.as_ref().unwrap()));
                    }
                    Change::Nothing => {}
                }
            }
            for (f, t) in &p.files {
                if w.get(f).as_deref() != Some(w.subst(t).as_bytes()) {
                    w.put_text(f, t)?;
                }
            }
            b.project = p.clone();
            // what a build tool does: run when something listed changed, is missing, or the last run failed
            let missing = w.get(b.out.as_ref().unwrap()).is_none() || w.get(b.dep.as_ref().unwrap()).is_none();
            let dirty = match &db {
                None => true,
                Some(d) => missing || d.iter().any(|(f, t)| std::fs::read(f).ok().as_ref() != Some(t)),
            };
            hist.push(format!("{i}: {:?} {:?}{}", s.changes.iter().map(short).collect::<Vec<_>>(), s.trouble, if dirty { "" } else { " (up to date)" }));
            let mut reference = None;
            if dirty {
                let job = if c.library {
                    let mut g = driver_gen(
                        &p,
                        serde_json::json!([{"do": "file", "path": abs_or(b.out.as_ref().unwrap())},
                            {"do": "dep", "header": abs_or(b.out.as_ref().unwrap()), "path": abs_or(b.dep.as_ref().unwrap())}]),
                    );
                    if !c.more.is_empty() {
                        let mut v: Vec<String> = g["src"].as_array().map(|v| v.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
                        v.extend(c.more.iter().map(|m| abs_or(m)));
                        g["src"] = serde_json::json!(v);
                    }
                    let mut j = driver_job(w, &serde_json::json!([[g]]))?;
                    j.cwd = p.cwd.clone();
                    j
                } else {
                    p.job(Some(&rel_out), b.dep.as_deref(), b.sym.as_deref(), &[])
                };
                let mut plan = Plan::default();
                let mut during = None;
                if !matches!(s.trouble, Trouble::None) {
                    let keep = w.snapshot()?;
                    let mut m = GoodCargo::new(&p, w);
                    let o = st.run(w, &[job.clone()], &Plan::default(), &mut m)?;
                    let outs: Vec<u32> = o.events.iter().filter(|e| e.actor == 0 && e.at != u32::MAX && b.output_or_parent(&e.path)).map(|e| e.at).collect();
                    let steps = o.events.last().map(|e| e.step).unwrap_or(0);
                    let one = |k: u32, act: Act| place(&[Pick { k, act, sticky: true }], &outs);
                    match &s.trouble {
                        Trouble::Die(k) => plan.faults = one(*k, Act::Die),
                        Trouble::Torn(k, n) => plan.faults = one(*k, Act::Torn(*n)),
                        Trouble::Error(k, e) => plan.faults = one(*k, Act::Fail(*e)),
                        Trouble::EditDuring(k, at) => {
                            if !p.sources.is_empty() {
                                let f = p.sources[*k as usize % p.sources.len()].clone();
                                let t = p.files[&f].clone() + &format!("\n#[no_mangle]\npub extern \"C\" fn meanwhile_{i}() {{}}\n");
                                plan.edits.push(Edit { step: (steps * at / 1000).max(1), path: f.clone(), content: w.subst(&t) });
                                during = Some((f, t));
                            }
                        }
                        Trouble::None => {}
                    }
                    super::c04::restore(w, &keep)?;
                }
                let snap: BTreeMap<String, Vec<u8>> = w
                    .snapshot()?
                    .into_iter()
                    .filter_map(|(f, n)| match n {
                        Node::File { data, .. } => Some((w.abs(&f).to_string_lossy().into_owned(), data)),
                        _ => None,
                    })
                    .collect();
                let mut m = GoodCargo::new(&p, w);
                let o = st.run(w, &[job], &plan, &mut m)?;
                if let Some((f, t)) = during {
                    // whether or not the edit came before the end: it is there from now on
                    if w.get(&f).as_deref() != Some(w.subst(&t).as_bytes()) {
                        w.put_text(&f, &t)?;
                    } else {
                        st.probe("edited while running");
                    }
                    p.files.insert(f, t);
                }
                let ok = o.jobs[0].ok()
                    && (!c.library
                        || driver_result(&o.jobs[0]).map(|v| {
                            let g = &v["threads"][0][0]["actions"];
                            !g[0]["changed"].is_null() && g[1]["ok"] == true
                        }) == Some(true));
                let disturbed = o.events.iter().any(|e| e.act != Act::Proceed);
                if !ok {
                    if !disturbed && c.base.sure && !matches!(s.trouble, Trouble::EditDuring(..)) {
                        return Ok(violation("clean run fails", format!("{}: {}", hist.join("; "), exit_text(&o.jobs[0]))));
                    }
                    if !disturbed && !c.base.sure {
                        st.probe("input rejected");
                        return Ok(None);
                    }
                    st.probe("failed build step");
                    db = None;
                    continue;
                }
                // every source file belongs in the list
                let sources: Option<Vec<String>> = if p.sources.is_empty() {
                    None
                } else {
                    Some(p.sources.iter().cloned().chain(added.iter().map(|a| a.2.clone())).chain(c.more.clone()).collect())
                };
                match exact(w, &b, &o, sources.as_deref()) {
                    Ok(l) => {
                        let mut d = BTreeMap::new();
                        for f in l {
                            if let Some(t) = snap.get(&f) {
                                d.insert(f, t.clone());
                            }
                        }
                        db = Some(d);
                    }
                    Err(e) => return Ok(violation("wrong depfile", format!("{}: {e}", hist.join("; ")))),
                }
                st.probe("depfile checked");
                if matches!(s.trouble, Trouble::EditDuring(..)) {
                    // the build tool sees on its next look whether that file counts
                    continue;
                }
                let _ = &mut reference;
            } else {
                st.probe("step skipped as up to date");
            }
            // a clean build of the present sources
            let clean = "clean-build/header.h";
            let _ = std::fs::remove_dir_all(w.abs("clean-build"));
            let (text, good) = if c.library {
                let mut g = driver_gen(&p, serde_json::json!([{"do": "file", "path": abs_or(clean)}]));
                if !c.more.is_empty() {
                    let mut v: Vec<String> = g["src"].as_array().map(|v| v.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
                    v.extend(c.more.iter().map(|m| abs_or(m)));
                    g["src"] = serde_json::json!(v);
                }
                let mut j = driver_job(w, &serde_json::json!([[g]]))?;
                j.cwd = p.cwd.clone();
                let mut m = GoodCargo::new(&p, w);
                let o = st.run(w, &[j], &Plan::default(), &mut m)?;
                reference = w.get(clean);
                (reference, o.jobs[0].ok())
            } else {
                let mut m = GoodCargo::new(&p, w);
                let o = st.run(w, &[p.job(Some(clean), None, None, &[])], &Plan::default(), &mut m)?;
                (w.get(clean), o.jobs[0].ok())
            };
            let _ = std::fs::remove_dir_all(w.abs("clean-build"));
            if !good || text.is_none() {
                st.probe("clean build rejected");
                return Ok(None);
            }
            let have = w.get(b.out.as_ref().unwrap());
            if have != text {
                return Ok(violation(
                    "incremental differs from clean",
                    format!("{}: {}", hist.join("; "), diff(have.as_deref().unwrap_or(b""), text.as_deref().unwrap())),
                ));
            }
        }
        Ok(None)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for s in shrink_vec(&c.steps) {
            v.push(Case { steps: s, ..c.clone() });
        }
        for i in 0..c.steps.len() {
            for x in shrink_vec(&c.steps[i].changes) {
                let mut d = c.clone();
                d.steps[i].changes = x;
                v.push(d);
            }
            if !matches!(c.steps[i].trouble, Trouble::None) {
                let mut d = c.clone();
                d.steps[i].trouble = Trouble::None;
                v.push(d);
            }
        }
        for b in c.base.shrink() {
            if b.dep.is_none() {
                continue;
            }
            v.push(Case { base: b, ..c.clone() });
        }
        v
    }
    fn summary(&self, c: &Case) -> String {
        format!("{}; {} build steps{}", c.base.summary(), c.steps.len(), if c.library { " through the library" } else { "" })
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of build histories; a history is 2-7 build steps, each with up to 2 changes to sources, modules, configuration or outputs, a crash, torn write, I/O error or concurrent edit in 40% of the steps, judged against the set of files opened and against a clean build"
    }
    fn always_nontrivial(&self) -> bool {
        true
    }
}
fn short(c: &Change) -> String {
    match c {
        Change::Config(_) => "Config".into(),
        c => format!("{c:?}"),
    }
}
/// Other ways to name the same input: relative to a working directory, through symbolic links.
pub fn respell(r: &mut Rng, p: &mut Project) {
    let Some(path) = p.input.strip_prefix("@ROOT@/").map(|s| s.to_string()) else { return };
    match r.below(6) {
        0 => {
            // relative to the root of the tree
            p.input = path;
        }
        1 => {
            let (d, f) = path.rsplit_once('/').unwrap_or(("", &path));
            p.cwd = d.to_string();
            p.input = if p.is_crate() { format!("../{f}") } else { f.to_string() };
            if p.is_crate() {
                p.cwd = path.clone();
                p.input = format!("../{f}");
            }
        }
        2 => {
            // through a link to the first directory
            let first = path.split('/').next().unwrap().to_string();
            let rest = &path[first.len()..];
            p.links.insert("li nk".into(), format!("@ROOT@/{first}"));
            p.input = format!("@ROOT@/li nk{rest}");
        }
        3 => {
            let first = path.split('/').next().unwrap().to_string();
            p.input = format!("@ROOT@/{first}/../{path}");
        }
        _ => {}
    }
}
