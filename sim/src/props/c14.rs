//! Files replaced while the system reads them.
use super::common::*;
use super::Prop;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Again {
    /// which leaf file (modulo) is reached once more ...
    leaf: u32,
    /// ... and how that is spelled
    how: u32,
    /// at the start of the root file
    early: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replace {
    file: u32,
    /// share of the steps of the rehearsal, per mille; None: between two looks at that file
    at: Option<u32>,
    near: u32,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    base: Base,
    again: Vec<Again>,
    /// through the library; n > 0: with the n-th source (modulo) as a further input
    #[serde(default)]
    lib: Option<u32>,
    /// each trial: the replacements of one run
    trials: Vec<Vec<Replace>>,
}
pub struct C14;

/// The library prints nothing but the driver's own report.
fn stdout<'a>(c: &Case, j: &'a JobOut) -> &'a [u8] {
    if c.lib.is_some() && c.base.out.is_some() {
        b""
    } else {
        &j.stdout
    }
}
fn mark(id: usize, v: usize, end: char) -> String {
    format!("vmark{id}x{v}x{end}")
}
/// The text of version v of file number id.
fn version(text: &str, id: usize, v: usize, dep: bool, name: &str) -> String {
    if name.ends_with("Cargo.lock") {
        // other dependencies in every version
        let mut out = String::new();
        for (i, l) in text.split_inclusive('\n').enumerate() {
            let gone = l.starts_with(" \"") && v > 0 && (v * 7 + i * (2 * v + 3)) % 3 == 0;
            if !gone {
                out += l;
            }
        }
        return out;
    }
    if name == META {
        // other packages in every version
        let mut j: serde_json::Value = serde_json::from_str(text).unwrap();
        let mut i = 0;
        if let (Some(ps), true) = (j["packages"].as_array_mut(), v > 0) {
            ps.retain(|p| {
                i += 1;
                p["vsim_root"] == true || (v * 5 + i * (2 * v + 3)) % 3 != 0
            });
        }
        return j.to_string();
    }
    if name.ends_with(".toml") {
        // `header` may be set: the marks go to the includes
        let mut out = String::new();
        let mut done = false;
        let marks = format!("after_includes = \"/* {} {} */\"\n", mark(id, v, 'a'), mark(id, v, 'b'));
        for l in text.split_inclusive('\n') {
            if l.starts_with("after_includes") {
                continue;
            }
            if !done && l.starts_with('[') {
                out += &marks;
                for (k, key) in ["header", "trailer", "autogen_warning", "include_guard"].iter().enumerate() {
                    if v > 0 && (v + k + id) % 2 == 0 && !text.contains(&format!("\n{key} =")) && !text.starts_with(key) {
                        out += &if *key == "include_guard" { format!("{key} = \"G_{v}_H\"\n") } else { format!("{key} = \"/* {key} {v} */\"\n") };
                    }
                }
                done = true;
            }
            out += l;
            // every part of the file tells the version
            if l == "[export]\n" && !text.contains("\nprefix = \"Px_\"") && v > 0 {
                out += &format!("prefix = \"Qv{v}_\"\n");
            }
            if l == "[fn]\n" && !text.contains("FN_END") && v > 0 {
                out += &format!("postfix = \"/* fn {v} */\"\n");
            }
        }
        if !done {
            out += &marks;
        }
        return out;
    }
    if dep {
        return text.replace(" { pub version_", &format!(" {{ pub {}: u32, pub {}: u32, pub version_", mark(id, v, 'a'), mark(id, v, 'b')));
    }
    let mut head = String::new();
    let mut rest = text;
    while rest.starts_with("//!") || rest.starts_with("#![") {
        let n = rest.find('\n').map(|i| i + 1).unwrap_or(rest.len());
        head += &rest[..n];
        rest = &rest[n..];
    }
    let more: String = (0..v % 3).map(|j| format!("#[no_mangle]\npub extern \"C\" fn more{id}of{v}n{j}() {{}}\n")).collect();
    format!(
        "{head}{more}#[no_mangle]\npub extern \"C\" fn {}(x: u32) {{}}\n{rest}\n#[repr(C)]\npub struct Only{id}of{v} {{ pub x{v}: u32 }}\n#[no_mangle]\npub extern \"C\" fn {}(x: *const Only{id}of{v}) {{}}\n",
        mark(id, v, 'a'),
        mark(id, v, 'b')
    )
}

struct Files {
    /// (path, is a root of a dependency)
    list: Vec<(String, bool)>,
    root: String,
    /// which of them (lock file, metadata) tell their version by the packages read only
    mute: Vec<usize>,
}
const META: &str = "meta.json";
fn files(p: &Project) -> Files {
    let root_dir = p.input.trim_start_matches("@ROOT@/").to_string();
    let root = if p.is_crate() { format!("{root_dir}/src/lib.rs") } else { root_dir.clone() };
    let own = root.rsplit_once('/').unwrap().0.to_string() + "/";
    let mut list = vec![];
    for s in &p.sources {
        if s.starts_with(&own) {
            list.push((s.clone(), false));
        } else if s.ends_with("/src/lib.rs") {
            list.push((s.clone(), true));
        }
    }
    if let Some(c) = &p.config {
        list.push((c.clone(), false));
    }
    let mut mute = vec![];
    if p.config.as_ref().map(|c| p.files[c].contains("parse_deps = true")).unwrap_or(false) {
        if let Some(f) = p.files.keys().find(|f| f.ends_with("/Cargo.lock")) {
            mute.push(list.len());
            list.push((f.clone(), false));
        }
        if p.files.contains_key(META) {
            mute.push(list.len());
            list.push((META.into(), false));
        }
    }
    Files { list, root, mute }
}

impl Case {
    fn job(&self, w: &World, b: &Base) -> R<Job> {
        let (Some(k), Some(out)) = (self.lib, &b.out) else { return Ok(b.job()) };
        let mut acts = vec![json!({"do": "file", "path": abs_or(out)})];
        if let Some(d) = &b.dep {
            acts.push(json!({"do": "dep", "header": abs_or(out), "path": abs_or(d)}));
        }
        if let Some(s) = &b.sym {
            acts.push(json!({"do": "sym", "path": abs_or(s)}));
        }
        let mut g = driver_gen(&b.project, json!(acts));
        if k > 0 {
            let mut v: Vec<String> = g["src"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
            v.push(abs_or(&b.project.sources[k as usize % b.project.sources.len()]));
            if k % 3 == 0 {
                v.reverse();
            }
            g["src"] = json!(v);
        }
        driver_job(w, &json!([[g]]))
    }
    fn failed(&self, b: &Base, j: &JobOut) -> Option<String> {
        if !j.ok() {
            return Some(exit_text(j));
        }
        if self.lib.is_some() && b.out.is_some() {
            let Some(r) = driver_result(j) else { return Some("no result".into()) };
            let t = r["threads"][0][0].to_string();
            if t.contains("\"panic\"") || t.contains("\"error\"") {
                return Some(t);
            }
        }
        None
    }
    /// The project with the repeated modules, and every file at the given version.
    fn at(&self, fs: &Files, versions: &[usize]) -> Project {
        let mut p = self.base.project.clone();
        let own = fs.root.rsplit_once('/').unwrap().0.to_string();
        let leaves: Vec<String> = fs
            .list
            .iter()
            .filter(|f| !f.1 && f.0.ends_with(".rs") && f.0 != fs.root && !p.files[&f.0].contains("mod "))
            .map(|f| f.0.clone())
            .collect();
        let (mut early, mut late) = (String::new(), String::new());
        for (i, a) in self.again.iter().enumerate() {
            if leaves.is_empty() {
                break;
            }
            let l = &leaves[a.leaf as usize % leaves.len()];
            let rel = &l[own.len() + 1..];
            let sp = match a.how % 4 {
                0 => rel.to_string(),
                1 => format!("./{rel}"),
                2 => {
                    p.files.insert(format!("{own}/zz/empty.txt"), String::new());
                    format!("zz/../{rel}")
                }
                _ => {
                    p.links.insert(format!("{own}/via_{i}.rs"), format!("@ROOT@/{l}"));
                    format!("via_{i}.rs")
                }
            };
            let d = format!("#[path = \"{sp}\"]\nmod again_{i};\n");
            if a.early {
                early += &d;
            } else {
                late += &d;
            }
        }
        if !self.again.is_empty() {
            let t = p.files[&fs.root].clone();
            let mut head = String::new();
            let mut rest = t.as_str();
            while rest.starts_with("//!") || rest.starts_with("#![") {
                let n = rest.find('\n').map(|i| i + 1).unwrap_or(rest.len());
                head += &rest[..n];
                rest = &rest[n..];
            }
            p.files.insert(fs.root.clone(), format!("{head}{early}{rest}\n{late}"));
        }
        for (id, (f, dep)) in fs.list.iter().enumerate() {
            let t = version(&p.files[f], id, versions[id], *dep, f);
            p.files.insert(f.clone(), t);
        }
        p
    }
}

impl Prop for C14 {
    type Case = Case;
    const ID: &'static str = "C14";
    fn gen(&self, _env: &Env, r: &mut Rng, _n: u64) -> Case {
        let per = *r.pick(&[1, 2, 4]);
        let mut p = match r.below(4) {
            0 | 1 => src_project(r, per),
            2 => workspace(r, per, true, &[], false).0,
            _ => workspace(r, per, false, &[], false).0,
        };
        if p.is_crate() && r.chance(1, 2) {
            let mut m: serde_json::Value = serde_json::from_str(p.metadata.as_ref().unwrap()).unwrap();
            let own = format!("{}/Cargo.toml", p.input.trim_end_matches('/'));
            for x in m["packages"].as_array_mut().unwrap() {
                if x["manifest_path"] == own.as_str() {
                    x["vsim_root"] = json!(true);
                }
            }
            p.files.insert(META.into(), m.to_string());
            p.args.extend(["--metadata".into(), format!("@ROOT@/{META}")]);
        }
        voice(r, &mut p);
        let base = with_outputs(r, p, Want { stdout: true, dep: true, sym: true });
        let again = (0..r.below(4)).map(|_| Again { leaf: r.below(100) as u32, how: r.below(4) as u32, early: r.chance(1, 2) }).collect();
        let trials = (0..r.range(2, 6))
            .map(|_| {
                (0..r.range(1, 6))
                    .map(|_| Replace { file: r.below(1000) as u32, at: if r.chance(1, 2) { Some(r.below(1000) as u32) } else { None }, near: r.below(1000) as u32 })
                    .collect()
            })
            .collect();
        let lib = if r.chance(1, 4) { Some(r.below(30) as u32) } else { None };
        Case { base, again, lib, trials }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        let fs = files(&c.base.project);
        let n = fs.list.len();
        let b = |v: &[usize]| Base { project: c.at(&fs, v), ..c.base.clone() };
        let start = b(&vec![0; n]);
        start.project.materialise(w)?;
        let mut m = GoodCargo::new(&start.project, w);
        let j = c.job(w, &start)?;
        let ro = st.run(w, &[j], &Plan::default(), &mut m)?;
        let first = start.outs(w, stdout(c, &ro.jobs[0]));
        if let Some(e) = c.failed(&start, &ro.jobs[0]) {
            // (what is bound twice may be refused)
            if c.base.sure && c.again.is_empty() && c.lib.unwrap_or(0) == 0 {
                return Ok(violation("clean run fails", e));
            }
            st.probe("input rejected");
            return Ok(None);
        }
        let norm = |o: &Outs| -> String {
            let t = o.header.as_deref().unwrap_or(&o.stdout);
            String::from_utf8_lossy(t).chars().filter(|c| *c != '_').collect::<String>().to_lowercase()
        };
        let f0 = norm(&first);
        let visible: Vec<bool> = (0..n).map(|i| f0.contains(&mark(i, 0, 'a')) && f0.contains(&mark(i, 0, 'b'))).collect();
        let steps = ro.events.last().map(|e| e.step).unwrap_or(0);
        let base0 = c.at(&fs, &vec![0; n]);
        let raw = Case { base: Base { project: c.base.project.clone(), ..c.base.clone() }, again: c.again.clone(), lib: None, trials: vec![] };
        let _ = base0;
        for (k, t) in c.trials.iter().enumerate() {
            let one_of = |x: &Replace| match fs.mute.len() {
                // few of many files that matter a lot
                l if x.file % 5 == 0 && l > 0 => fs.mute[x.file as usize / 5 % l],
                _ => x.file as usize % n,
            };
            let mut at: Vec<(u32, usize)> = t
                .iter()
                .map(|x| {
                    let id = one_of(x);
                    let s = match x.at {
                        Some(a) => steps * a / 1000,
                        None => {
                            // right at one of the looks at this file
                            let path = &fs.list[id].0;
                            let leaf = path.rsplit('/').next().unwrap();
                            let looks: Vec<u32> = ro.events.iter().filter(|e| e.path.ends_with(leaf) || e.path.contains("/via_")).map(|e| e.step).collect();
                            if looks.is_empty() {
                                0
                            } else {
                                looks[x.near as usize % looks.len()] + x.near % 2
                            }
                        }
                    };
                    (s, id)
                })
                .collect();
            at.sort();
            let mut latest = vec![0usize; n];
            let mut edits = vec![];
            for (s, id) in at {
                latest[id] += 1;
                let q = raw.at(&fs, &latest);
                edits.push(Edit { step: s, path: fs.list[id].0.clone(), content: w.subst(&q.files[&fs.list[id].0]) });
            }
            w.reset()?;
            start.project.materialise(w)?;
            let mut m = GoodCargo::new(&start.project, w);
            let j = c.job(w, &start)?;
            let o = st.run(w, &[j], &Plan { edits: edits.clone(), ..Plan::default() }, &mut m)?;
            let what = format!("trial {k}, replacing {}", edits.iter().map(|e| format!("{} at step {}", e.path, e.step)).collect::<Vec<_>>().join(", "));
            if let Some(e) = c.failed(&start, &o.jobs[0]) {
                return Ok(violation("run failed", format!("{what}: {e}")));
            }
            let got = start.outs(w, stdout(c, &o.jobs[0]));
            let text = norm(&got);
            let mut seen = vec![0; n];
            for id in 0..n {
                // with another lock file, other packages are read
                let other_lock = fs.mute.iter().any(|l| latest[*l] > 0);
                if !visible[id] && !other_lock {
                    seen[id] = latest[id];
                    continue;
                }
                let vs: Vec<usize> = (0..=latest[id]).filter(|v| text.contains(&mark(id, *v, 'a')) || text.contains(&mark(id, *v, 'b'))).collect();
                match vs.as_slice() {
                    [] if other_lock => seen[id] = latest[id],
                    [] => return Ok(violation("file not bound", format!("{what}: no version of {}", fs.list[id].0))),
                    [v] => seen[id] = *v,
                    _ => return Ok(violation("mixed versions", format!("{what}: versions {vs:?} of {} in one header", fs.list[id].0))),
                }
                if seen[id] > 0 {
                    st.probe("a later version was seen");
                }
            }
            if (0..n).any(|i| visible[i] && seen[i] != latest[i]) && seen.iter().any(|s| *s > 0) {
                st.probe("different files from different moments");
            }
            // the same combination of versions, at rest; some versions are not told by a mark
            let mut combos = vec![seen.clone()];
            for l in &fs.mute {
                combos = combos.iter().flat_map(|c| (0..=latest[*l]).rev().map(move |v| { let mut c = c.clone(); c[*l] = v; c })).collect();
            }
            let mut bad = None;
            for seen in &combos {
                w.reset()?;
                let q = b(seen);
                q.project.materialise(w)?;
                let mut m = GoodCargo::new(&q.project, w);
                let j = c.job(w, &q)?;
                let o = st.run(w, &[j], &Plan::default(), &mut m)?;
                let want = q.outs(w, stdout(c, &o.jobs[0]));
                match outs_diff(&got, &want) {
                    None => {
                        bad = None;
                        if fs.mute.iter().any(|l| seen[*l] > 0) {
                            st.probe("a later lock file or metadata was seen");
                        }
                        break;
                    }
                    d => bad = bad.or(d),
                }
            }
            if let Some(d) = bad {
                return Ok(violation("not the output of any one set of versions", format!("{what}; seen {seen:?}: {d}")));
            }
        }
        Ok(None)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for t in shrink_vec(&c.trials) {
            v.push(Case { trials: t, ..c.clone() });
        }
        for i in 0..c.trials.len() {
            for x in shrink_vec(&c.trials[i]) {
                let mut d = c.clone();
                d.trials[i] = x;
                v.push(d);
            }
        }
        for t in shrink_vec(&c.again) {
            v.push(Case { again: t, ..c.clone() });
        }
        if c.lib.is_some() {
            v.push(Case { lib: None, ..c.clone() });
        }
        for b in c.base.shrink() {
            let mut b = b;
            b.project.sources = c.base.project.sources.clone();
            v.push(Case { base: b, ..c.clone() });
        }
        v
    }
    fn summary(&self, c: &Case) -> String {
        format!("{}; {} repeated modules, {} trials", c.base.summary(), c.again.len(), c.trials.len())
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of cases with at least one file replaced while the run was under way; a case is one project (files reached once or through several spellings) run undisturbed and then 2-6 times with 1-6 atomic replacements at chosen steps"
    }
}
