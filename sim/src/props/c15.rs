//! Which crates are bound: orders, spellings, namesakes, cycles.
use super::common::*;
use super::Prop;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::fmt::Write as _;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct P15 {
    name: String,
    version: String,
    /// 0 local, 1 registry, 2 git
    source: u32,
    deps: Vec<usize>,
    module: bool,
    /// kind of the library target; 6: a procedural macro, which is not read
    #[serde(default)]
    kind: u8,
    /// other targets and names (as in `Pkg`); 8: the library is elsewhere
    #[serde(default)]
    extra: u8,
}
const KINDS: &[&str] = &["lib", "staticlib", "cdylib", "rlib", "dylib", "staticlib+cdylib+rlib", "proc-macro"];
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Spell {
    Abs,
    RelRoot,
    Here,
    Dot,
    Link,
    DotDot,
    Slash,
    LinkDir,
    /// no INPUT argument at all: the current directory
    None,
    /// the directory of the (virtual) workspace, and the crate by its name
    Workspace,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Variant {
    shuffle: u64,
    /// also the dependency lists
    deps_too: bool,
    hash: u64,
    spell: Spell,
    metadata_file: bool,
    /// lock format: 0 current, 1 full dependency strings, 2 with [root]
    lock: u32,
    lockfile_arg: bool,
    driver: bool,
    named: bool,
    /// 1: the metadata query fails, 2: its answer is unusable, 3: expansions fail
    #[serde(default)]
    fail: u8,
    /// the child's scheduling
    sched: u64,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    pkgs: Vec<P15>,
    virt: bool,
    lang: String,
    include: Option<Vec<String>>,
    exclude: Vec<String>,
    expand: Vec<String>,
    /// dependencies whose functions are exported too
    #[serde(default)]
    extra: Vec<String>,
    explicit_config: bool,
    variants: Vec<Variant>,
}
pub struct C15;

const BASE: &str = "work space";

impl Case {
    fn dir(&self, k: usize) -> String {
        let p = &self.pkgs[k];
        if k == 0 {
            return if self.virt { format!("{BASE}/crates/app") } else { BASE.into() };
        }
        match p.source {
            0 => format!("{BASE}/crates/p{k}-{}", p.name),
            1 => format!("registry/{k}/{}-{}", p.name, p.version),
            _ => format!("git/checkouts/{k}/{}", p.name),
        }
    }
    /// Only the name tells which crate is meant; of namesakes, a local one is preferred.
    fn by_name(&self, v: &Variant) -> bool {
        self.virt && matches!(v.spell, Spell::Workspace) && !self.pkgs.iter().skip(1).any(|q| q.name == self.pkgs[0].name && q.source == 0)
    }
    fn gen_pkgs(&self, v: &Variant) -> Vec<Pkg> {
        let mut r = Rng::new(v.shuffle ^ 77);
        self.pkgs
            .iter()
            .enumerate()
            .map(|(k, p)| {
                let mut deps = p.deps.clone();
                if v.deps_too {
                    shuffle(&mut r, &mut deps);
                }
                Pkg {
                    name: p.name.clone(),
                    version: p.version.clone(),
                    source: match p.source {
                        0 => None,
                        1 => Some(REGISTRY.into()),
                        _ => Some("git+https://example.org/x.git#abcdef".into()),
                    },
                    dir: self.dir(k),
                    deps: deps.into_iter().map(|d| (d, None)).collect(),
                    lib_kind: KINDS[p.kind as usize % KINDS.len()],
                    has_lib: true,
                    lib_path: if p.extra & 8 != 0 { "code/entry.rs" } else { "src/lib.rs" },
                    extra: p.extra,
                }
            })
            .collect()
    }
    /// The packages read, in the order of reading.
    fn model(&self, pkgs: &[Pkg]) -> Vec<usize> {
        fn go(c: &Case, pkgs: &[Pkg], k: usize, names: &mut BTreeSet<String>, out: &mut Vec<usize>) {
            names.insert(pkgs[k].name.clone());
            out.push(k);
            for (d, _) in &pkgs[k].deps {
                let n = &pkgs[*d].name;
                let wanted = c.expand.contains(n) || (c.include.as_ref().map(|i| i.contains(n)).unwrap_or(true) && !c.exclude.contains(n));
                if !names.contains(n) && wanted {
                    go(c, pkgs, *d, names, out);
                }
            }
        }
        let mut out = vec![];
        go(self, pkgs, 0, &mut BTreeSet::new(), &mut out);
        out
    }
    fn lib(&self, k: usize) -> String {
        let p = &self.pkgs[k];
        let mut t = format!("//! {} {}\n#[repr(C)]\npub struct Marker{k}of {{ pub markfield{k}x: u32 }}\n#[no_mangle]\npub extern \"C\" fn exported_by_{k}_x() {{}}\n", p.name, p.version);
        if k == 0 {
            for j in 0..self.pkgs.len() {
                let _ = writeln!(t, "#[no_mangle]\npub extern \"C\" fn use_{j}_x(m: *const Marker{j}of) {{}}");
            }
        }
        t
    }
    fn project(&self, v: &Variant) -> (Project, Vec<Pkg>) {
        let pkgs = self.gen_pkgs(v);
        let mut p = Project { name: "c15".into(), ..Project::default() };
        for (k, q) in pkgs.iter().enumerate() {
            let mut t = self.lib(k);
            if self.pkgs[k].module {
                t += "mod part;\n";
                p.files.insert(format!("{}/{}/part.rs", q.dir, q.lib_path.split('/').next().unwrap()), format!("#[repr(C)]\npub struct Part{k}of {{ pub partfield{k}x: u32 }}\n"));
            }
            for decoy in ["src/main.rs", "src/lib.rs", "examples/lib.rs"] {
                p.files.insert(format!("{}/{decoy}", q.dir), format!("#[no_mangle]\npub extern \"C\" fn decoy_{k}_x() {{}}\n"));
            }
            p.files.insert(format!("{}/{}", q.dir, q.lib_path), t);
            p.files.insert(format!("{}/Cargo.toml", q.dir), format!("[package]\nname = \"{}\"\nversion = \"{}\"\n", q.name, q.version));
            let e = format!("{}-{}", q.name, q.version);
            p.expand.insert(e, self.lib(k).replace("//! ", "// ") + &format!("#[no_mangle]\npub extern \"C\" fn expanded_{k}_x() {{}}\n"));
        }
        if self.virt {
            p.files.insert(format!("{BASE}/Cargo.toml"), "[workspace]\nmembers = [\"crates/*\"]\n".into());
        }
        let mut r = Rng::new(v.shuffle);
        let mut order: Vec<usize> = (0..pkgs.len()).collect();
        shuffle(&mut r, &mut order);
        let meta = metadata_json(&pkgs, &order, BASE);
        shuffle(&mut r, &mut order);
        let lock = match v.lock {
            0 => lock_text(&pkgs, &order),
            n => full_lock(&pkgs, &order, n == 2),
        };
        let lockp = if v.lockfile_arg { "other/My.lock".to_string() } else { format!("{BASE}/Cargo.lock") };
        p.files.insert(lockp.clone(), lock);
        if v.lockfile_arg {
            p.args.extend(["--lockfile".into(), format!("@ROOT@/{lockp}")]);
        }
        if v.metadata_file {
            p.files.insert("meta/data.json".into(), meta.clone());
            p.args.extend(["--metadata".into(), "@ROOT@/meta/data.json".into()]);
        }
        p.metadata = Some(meta);
        let mut cfg = format!("language = \"{}\"\n[parse]\nparse_deps = true\n", self.lang);
        if let Some(i) = &self.include {
            let _ = writeln!(cfg, "include = {i:?}");
        }
        if !self.exclude.is_empty() {
            let _ = writeln!(cfg, "exclude = {:?}", self.exclude);
        }
        if !self.extra.is_empty() {
            let _ = writeln!(cfg, "extra_bindings = {:?}", self.extra);
        }
        if !self.expand.is_empty() {
            let _ = writeln!(cfg, "[parse.expand]\ncrates = {:?}", self.expand);
        }
        let root = self.dir(0);
        let f = if self.explicit_config { "conf/c.toml".to_string() } else { format!("{root}/cbindgen.toml") };
        p.files.insert(f.clone(), cfg);
        if self.explicit_config {
            p.args.extend(["--config".into(), format!("@ROOT@/{f}")]);
        }
        p.config = Some(f);
        if v.named || self.by_name(v) {
            p.args.extend(["--crate".into(), self.pkgs[0].name.clone()]);
        }
        let last = root.rsplit('/').next().unwrap().to_string();
        match v.spell {
            Spell::Workspace if self.by_name(v) => p.input = format!("@ROOT@/{BASE}"),
            Spell::Abs | Spell::Workspace => p.input = format!("@ROOT@/{root}"),
            Spell::Slash => p.input = format!("@ROOT@/{root}/"),
            Spell::RelRoot => p.input = root.clone(),
            Spell::Here | Spell::None => {
                p.cwd = root.clone();
                p.input = ".".into();
            }
            Spell::Dot => p.input = format!("./{root}/."),
            Spell::DotDot => {
                p.cwd = root.clone();
                p.input = format!("../{last}");
            }
            Spell::Link => {
                p.links.insert("link".into(), format!("@ROOT@/{root}"));
                p.input = "@ROOT@/link".into();
            }
            Spell::LinkDir => {
                p.links.insert("up".into(), format!("@ROOT@/{BASE}"));
                p.input = format!("@ROOT@/up{}", &root[BASE.len()..]);
            }
        }
        (p, pkgs)
    }
}
fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.us(i + 1));
    }
}
fn full_lock(pkgs: &[Pkg], order: &[usize], root: bool) -> String {
    let mut t = String::new();
    let mut order: Vec<usize> = order.to_vec();
    if root {
        order.retain(|k| *k != 0);
        order.insert(0, 0);
    }
    for (i, &k) in order.iter().enumerate() {
        let p = &pkgs[k];
        let _ = write!(t, "\n{}\nname = \"{}\"\nversion = \"{}\"\n", if root && i == 0 { "[root]" } else { "[[package]]" }, p.name, p.version);
        if let Some(s) = &p.source {
            let _ = writeln!(t, "source = \"{s}\"");
        }
        if !p.deps.is_empty() {
            t.push_str("dependencies = [\n");
            for (d, _) in &p.deps {
                let d = &pkgs[*d];
                match &d.source {
                    Some(s) => {
                        let _ = writeln!(t, " \"{} {} ({s})\",", d.name, d.version);
                    }
                    None => {
                        let _ = writeln!(t, " \"{} {}\",", d.name, d.version);
                    }
                }
            }
            t.push_str("]\n");
        }
    }
    t
}

/// Answers for exactly the package it is asked about.
struct Cargo15<'a> {
    good: GoodCargo<'a>,
    metadata: usize,
    expanded: Vec<String>,
    manifests: Vec<(String, String)>,
    fail: u8,
}
impl StubModel for Cargo15<'_> {
    fn start(&mut self, h: &StubHello) -> Vec<StubCmd> {
        let m = h.opt("--manifest-path").unwrap_or("").to_string();
        if h.is_metadata() {
            self.metadata += 1;
            self.manifests.push((h.cwd.clone(), m));
            match self.fail {
                1 => return vec![StubCmd::Raw(2, "error: failed to load\n".into()), StubCmd::Exit(101)],
                2 => return vec![StubCmd::Raw(1, "{\"packages\":".into()), StubCmd::Exit(0)],
                _ => return self.good.start(h),
            }
        }
        if h.is_expand() {
            let spec = h.opt("-p").unwrap_or("").to_string();
            self.manifests.push((h.cwd.clone(), m));
            let f = format!("expand-{}.rs", spec.replace(':', "-"));
            let n = self.good.len(&f);
            self.expanded.push(spec);
            return if n == 0 || self.fail == 3 { vec![StubCmd::Raw(2, "error: no such package\n".into()), StubCmd::Exit(101)] } else { vec![StubCmd::Out(1, f, 0, n), StubCmd::Exit(0)] };
        }
        self.good.start(h)
    }
}

impl Prop for C15 {
    type Case = Case;
    const ID: &'static str = "C15";
    fn gen(&self, _env: &Env, r: &mut Rng, _n: u64) -> Case {
        let names = ["alpha", "beta", "gamma-x", "delta_y", "eps", "gamma_x", "ffi_lib"];
        let app = r.pick(&["app", "ffi-lib", "alpha"]).to_string();
        let kind = |r: &mut Rng, n: u64| if r.chance(1, 2) { 0 } else { r.below(n) as u8 };
        let mut pkgs = vec![P15 { name: app.clone(), version: format!("{}.{}.0", r.below(3), r.below(4)), source: 0, deps: vec![], module: r.chance(1, 3), kind: kind(r, 6), extra: kind(r, 16) }];
        let n = r.range(1, 7) as usize;
        for _ in 0..n {
            // namesakes are frequent
            let name = if r.chance(1, 6) { app.clone() } else { r.pick(&names).to_string() };
            let version = format!("{}.{}.0", r.below(3), r.below(2));
            let p = P15 { name, version, source: *r.pick(&[0, 1, 1, 2]), deps: vec![], module: r.chance(1, 3), kind: kind(r, 7), extra: kind(r, 16) };
            // name and version identify a package, except for the crate itself
            if pkgs.iter().skip(1).any(|q| q.name == p.name && q.version == p.version) {
                continue;
            }
            if pkgs[0].name == p.name && pkgs[0].version == p.version && p.source == 0 {
                continue;
            }
            pkgs.push(p);
        }
        let n = pkgs.len();
        for k in 1..n {
            if r.chance(5, 6) {
                let from = r.us(k);
                pkgs[from].deps.push(k);
            }
        }
        for _ in 0..r.below(4) {
            let a = r.us(n);
            let b = r.us(n);
            if a != b && !pkgs[a].deps.contains(&b) {
                pkgs[a].deps.push(b);
            }
        }
        // cargo sorts the dependencies of a package in the lock file
        let key: Vec<(String, String)> = pkgs.iter().map(|p| (p.name.clone(), p.version.clone())).collect();
        for p in &mut pkgs {
            p.deps.sort_by(|a, b| key[*a].cmp(&key[*b]));
        }
        // a full namesake of the crate in the graph is told apart by its source only
        let twin = pkgs.iter().skip(1).any(|q| q.name == pkgs[0].name && q.version == pkgs[0].version);
        let any_name = |r: &mut Rng, pkgs: &[P15]| pkgs[r.us(pkgs.len())].name.clone();
        let include = if r.chance(1, 6) { Some((0..r.range(1, 3)).map(|_| any_name(r, &pkgs)).collect()) } else { None };
        let exclude = if r.chance(1, 6) { vec![any_name(r, &pkgs)] } else { vec![] };
        let mut expand: Vec<String> = if r.chance(1, 3) { (0..r.range(1, 3)).map(|_| any_name(r, &pkgs)).collect() } else { vec![] };
        let extra = if r.chance(1, 5) { (0..r.range(1, 2)).map(|_| any_name(r, &pkgs)).collect() } else { vec![] };
        if twin {
            expand.retain(|e| *e != pkgs[0].name);
        }
        let variants = (0..r.range(3, 7))
            .map(|i| Variant {
                shuffle: r.next(),
                deps_too: i > 0 && r.chance(1, 4),
                hash: r.next(),
                spell: match r.below(10) {
                    0 => Spell::RelRoot,
                    1 => Spell::Here,
                    2 => Spell::Dot,
                    3 => Spell::Link,
                    4 => Spell::DotDot,
                    5 => Spell::Slash,
                    6 => Spell::LinkDir,
                    7 => Spell::None,
                    8 => Spell::Workspace,
                    _ => Spell::Abs,
                },
                metadata_file: r.chance(1, 3),
                lock: if twin { 1 } else { r.below(3) as u32 },
                lockfile_arg: r.chance(1, 5),
                driver: r.chance(1, 6),
                named: r.chance(1, 5),
                fail: if i > 0 && r.chance(1, 8) { r.range(1, 3) as u8 } else { 0 },
                sched: r.next(),
            })
            .collect();
        Case { pkgs, virt: r.chance(1, 2), lang: r.pick(&["C", "C++", "Cython"]).to_string(), include, exclude, expand, extra, explicit_config: r.chance(1, 3), variants }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        let mut same: Option<(usize, Vec<u8>)> = None;
        for (i, v) in c.variants.iter().enumerate() {
            let (mut p, pkgs) = c.project(v);
            let read = c.model(&pkgs);
            w.reset()?;
            p.materialise(w)?;
            let out = "out/h.h";
            let driver = v.driver && !v.metadata_file;
            let mut job = if driver {
                let mut g = driver_gen(&p, serde_json::json!([{"do": "file", "path": abs_or(out)}]));
                if p.config.is_some() && !c.explicit_config {
                    g["config"] = serde_json::json!(abs_or(p.config.as_ref().unwrap()));
                }
                if v.lockfile_arg {
                    g["lockfile"] = serde_json::json!("@ROOT@/other/My.lock");
                }
                if v.named || c.by_name(v) {
                    g["name"] = serde_json::json!(c.pkgs[0].name);
                }
                let mut j = driver_job(w, &serde_json::json!([[g]]))?;
                j.cwd = p.cwd.clone();
                j
            } else {
                let mut j = p.job(Some(out), None, None, &[]);
                if matches!(v.spell, Spell::None) {
                    j.args.pop();
                }
                j
            };
            job.hash_seed = v.hash;
            let mut m = Cargo15 { good: GoodCargo::new(&p, w), metadata: 0, expanded: vec![], manifests: vec![], fail: v.fail };
            let o = st.run(w, &[job], &Plan { sched: Sched::Random { seed: v.sched, inv: 3, allocs: 0 }, ..Plan::default() }, &mut m)?;
            let at = format!("variant {i} ({v:?})");
            if no_termination(&o.jobs[0]) {
                return Ok(violation("no termination", format!("{at}: {}", exit_text(&o.jobs[0]))));
            }
            let failing = v.fail == 3 && !m.expanded.is_empty() || matches!(v.fail, 1 | 2) && !v.metadata_file;
            if !failing && !o.jobs[0].ok() {
                return Ok(violation("run failed", format!("{at}: {}", exit_text(&o.jobs[0]))));
            }
            if m.metadata > 1 || (v.metadata_file && m.metadata > 0) {
                return Ok(violation("metadata queried too often", format!("{at}: {} times", m.metadata)));
            }
            let mut seen = BTreeSet::new();
            for e in &m.expanded {
                if !seen.insert(e.clone()) {
                    return Ok(violation("crate expanded twice", format!("{at}: {e}")));
                }
            }
            if failing {
                // what comes of it is C06's business
                st.probe("cargo fails");
                continue;
            }
            let want: BTreeSet<String> = read.iter().filter(|k| c.expand.contains(&pkgs[**k].name)).map(|k| format!("{}:{}", pkgs[*k].name, pkgs[*k].version)).collect();
            if seen != want {
                return Ok(violation("wrong crates expanded", format!("{at}: {seen:?} instead of {want:?}")));
            }
            let text = w.get(out).ok_or_else(|| HarnessError(format!("{at}: no header")))?;
            let t = String::from_utf8_lossy(&text).into_owned();
            for (k, q) in pkgs.iter().enumerate() {
                let who = format!("{} {} ({})", q.name, q.version, q.source.as_deref().unwrap_or("local"));
                let used = t.contains(&format!("markfield{k}x"));
                let expanded = c.expand.contains(&q.name);
                // a procedural macro is met, but has no library to read
                let read_it = read.contains(&k) && (q.lib_kind != "proc-macro" || expanded);
                if used != read_it {
                    return Ok(violation("wrong package used", format!("{at}: {who} {}, read {read:?}", if used { "is used" } else { "is not used" })));
                }
                let bound = k == 0 || read_it && c.extra.contains(&q.name);
                if t.contains(&format!("exported_by_{k}_x")) != bound || t.contains(&format!("expanded_{k}_x")) != (bound && expanded) {
                    return Ok(violation("wrong crate bound", format!("{at}: functions of {who}")));
                }
                if t.contains(&format!("decoy_{k}_x")) {
                    return Ok(violation("wrong file read", format!("{at}: not the library of {who}")));
                }
            }
            if !v.deps_too {
                match &same {
                    None => same = Some((i, text)),
                    Some((j, s)) => {
                        if *s != text {
                            return Ok(violation("header depends on order or spelling", format!("{at} and variant {j}: {}", diff(&text, s))));
                        }
                        st.probe("equal headers");
                    }
                }
            }
            if pkgs.iter().skip(1).any(|q| q.name == pkgs[0].name) {
                st.probe("namesake of the crate");
            }
            if read.len() < pkgs.len() {
                st.probe("package not used");
            }
            p.files.clear();
        }
        Ok(None)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for x in shrink_vec(&c.variants) {
            v.push(Case { variants: x, ..c.clone() });
        }
        for k in (1..c.pkgs.len()).rev() {
            let mut d = c.clone();
            d.pkgs.remove(k);
            for p in &mut d.pkgs {
                p.deps.retain(|x| *x != k);
                for x in &mut p.deps {
                    if *x > k {
                        *x -= 1;
                    }
                }
            }
            v.push(d);
        }
        for k in 0..c.pkgs.len() {
            for x in shrink_vec(&c.pkgs[k].deps) {
                let mut d = c.clone();
                d.pkgs[k].deps = x;
                v.push(d);
            }
        }
        for i in 0..c.variants.len() {
            let t = &c.variants[i];
            let mut put = |x: Variant| {
                let mut d = c.clone();
                d.variants[i] = x;
                v.push(d);
            };
            if !matches!(t.spell, Spell::Abs) {
                put(Variant { spell: Spell::Abs, ..t.clone() });
            }
            if t.metadata_file {
                put(Variant { metadata_file: false, ..t.clone() });
            }
            if t.lockfile_arg {
                put(Variant { lockfile_arg: false, ..t.clone() });
            }
            if t.named {
                put(Variant { named: false, ..t.clone() });
            }
            if t.fail != 0 {
                put(Variant { fail: 0, ..t.clone() });
            }
            if t.driver {
                put(Variant { driver: false, ..t.clone() });
            }
            if t.deps_too {
                put(Variant { deps_too: false, ..t.clone() });
            }
        }
        if c.include.is_some() {
            v.push(Case { include: None, ..c.clone() });
        }
        if !c.exclude.is_empty() {
            v.push(Case { exclude: vec![], ..c.clone() });
        }
        if !c.extra.is_empty() {
            v.push(Case { extra: vec![], ..c.clone() });
        }
        for k in 0..c.pkgs.len() {
            if c.pkgs[k].kind != 0 || c.pkgs[k].extra != 0 {
                let mut d = c.clone();
                d.pkgs[k].kind = 0;
                d.pkgs[k].extra = 0;
                v.push(d);
            }
        }
        if !c.expand.is_empty() {
            v.push(Case { expand: vec![], ..c.clone() });
        }
        v
    }
    fn summary(&self, c: &Case) -> String {
        format!("{} packages, {} variants", c.pkgs.len(), c.variants.len())
    }
    fn rule(&self) -> &'static str {
        "distinct event logs of cases; a case is one workspace (1-8 packages with namesakes, shared and cyclic dependencies) bound in 3-7 variants of listing order, hash seed, spelling, metadata source, lock format and entry point, each under a seeded parent/child schedule, judged against a depth-first reference model"
    }
    fn always_nontrivial(&self) -> bool {
        true
    }
}
