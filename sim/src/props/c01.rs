//! Same input, same bytes: hidden nondeterminism is varied, everything else held fixed.
use super::common::*;
use super::Prop;
use crate::engine::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::{violation, Env, Stats, Violation};
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
pub struct Variant {
    hash_seed: u64,
    heap: u64,
    dirseed: u64,
    clock: u64,
    pid: u32,
    /// lay the same tree out below this directory
    prefix: String,
    /// run from another working directory (paths on the command line are absolute)
    cwd: String,
    tmp_junk: bool,
    /// files of the kinds cbindgen looks for, in places it must not look at
    #[serde(default)]
    decoys: u32,
    #[serde(default)]
    env: Vec<(String, String)>,
    /// file times and permissions drawn from this seed (0: as they come)
    #[serde(default)]
    times: u64,
    #[serde(default)]
    sched: Sched,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    base: Base,
    variants: Vec<Variant>,
}
pub struct C01;
/// Variables that are none of cbindgen's business.
const ENVS: &[(&str, &[&str])] = &[
    ("LANG", &["C", "tr_TR.UTF-8", "de_DE.UTF-8"]),
    ("LC_ALL", &["C", "tr_TR.UTF-8"]),
    ("TZ", &["UTC", "Asia/Kathmandu"]),
    ("USER", &["root", "nobody"]),
    ("COLUMNS", &["10", "300"]),
    ("TERM", &["dumb", "xterm-256color"]),
    ("NO_COLOR", &["1"]),
    ("RUST_LOG", &["trace"]),
    ("SOURCE_DATE_EPOCH", &["1", "1700000000"]),
    ("PROFILE", &["debug", "release"]),
    ("CARGO_PKG_NAME", &["other"]),
    ("CARGO_PKG_VERSION", &["9.9.9"]),
    ("CARGO_MANIFEST_DIR", &["@ROOT@/tmp"]),
    ("CARGO_HOME", &["@ROOT@/home"]),
    ("CARGO_CRATE_NAME", &["other"]),
    ("CARGO_PRIMARY_PACKAGE", &["1"]),
    ("CARGO_CFG_TARGET_OS", &["windows"]),
    ("CARGO_CFG_UNIX", &[""]),
    ("CARGO_FEATURE_FA", &["1"]),
    ("RUSTFLAGS", &["--cfg x"]),
    ("CARGO_MAKEFLAGS", &["-j --jobserver-fds=8,9"]),
    ("NUM_JOBS", &["3"]),
    ("RUST_BACKTRACE", &["0", "full"]),
    ("HOST", &["aarch64-apple-darwin"]),
    ("OPT_LEVEL", &["0"]),
    ("CI", &["true"]),
    ("TARGET_DIR", &["x"]),
    ("XDG_CONFIG_HOME", &["@ROOT@/home/.config"]),
    ("PWD", &["@ROOT@/home", "/"]),
];
/// Nothing about where the tree lies may matter.
fn location(r: &mut Rng) -> String {
    const NAMES: &[&str] = &[
        "elsewhere", "zz top/q", "a", "target/debug", "tests", "src", ".hidden/x", "mod", "module.rs", "lib.rs/d", "build/out", "examples", "deps", "vendor", "a.b+c#d", "100%", "node_modules", "benches", "Ünïcode", "tmp.d", "core", "std", "self", "crate",
    ];
    let mut v = vec![r.pick(NAMES).to_string()];
    if r.chance(1, 4) {
        v.push(r.pick(NAMES).to_string());
    }
    if r.chance(1, 6) {
        v.push("l".repeat(r.range(100, 240) as usize));
    }
    v.join("/")
}
/// Give every file below `d` another age and other permissions.
fn ages(d: &std::path::Path, r: &mut Rng) -> R<()> {
    use std::os::unix::fs::PermissionsExt;
    let mut v: Vec<_> = std::fs::read_dir(d)?.collect::<Result<_, _>>()?;
    v.sort_by_key(|e| e.file_name());
    for e in v {
        let t = e.file_type()?;
        if t.is_dir() {
            ages(&e.path(), r)?;
        } else if t.is_file() {
            let f = std::fs::File::open(e.path())?;
            let at = std::time::UNIX_EPOCH + std::time::Duration::from_secs(r.below(4_000_000_000));
            f.set_times(std::fs::FileTimes::new().set_modified(at).set_accessed(at))?;
            std::fs::set_permissions(e.path(), std::fs::Permissions::from_mode(*r.pick(&[0o644, 0o444, 0o755, 0o600])))?;
        }
    }
    Ok(())
}

impl Prop for C01 {
    type Case = Case;
    const ID: &'static str = "C01";
    fn gen(&self, env: &Env, r: &mut Rng, n: u64) -> Case {
        let per = *r.pick(&[2, 5, 12, 25]);
        let k = env.corpus.cases.len() as u64;
        let base = if n % 3 == 0 {
            let p = env.corpus.project(r, (n / 3 % k) as usize);
            with_outputs(r, p, Want { stdout: true, ..ALL })
        } else {
            base(r, env, per, Want { stdout: true, ..ALL })
        };
        let mut base = base;
        voice(r, &mut base.project);
        let variants = (0..r.range(3, 6))
            .map(|_| Variant {
                hash_seed: r.next(),
                heap: if r.chance(1, 2) { r.next() } else { 0 },
                dirseed: r.next(),
                clock: if r.chance(1, 2) { 0 } else { *r.pick(&[1u64, 1_000_000_000, 2_000_000_000_000_000_000, 4_102_444_800_000_000_000]) },
                pid: r.range(2, 4_000_000) as u32,
                prefix: if r.chance(1, 3) { location(r) } else { String::new() },
                cwd: if r.chance(1, 3) { "tmp".into() } else { String::new() },
                tmp_junk: r.chance(1, 4),
                decoys: if r.chance(1, 2) { r.below(16) as u32 } else { 0 },
                env: ENVS.iter().filter_map(|(k, v)| r.chance(1, 4).then(|| (k.to_string(), r.pick(v).to_string()))).collect(),
                times: if r.chance(1, 2) { r.next() } else { 0 },
                sched: if r.chance(1, 2) { Sched::Random { seed: r.next(), inv: *r.pick(&[2, 5]), allocs: 0 } } else { Sched::default() },
            })
            .collect();
        Case { base, variants }
    }
    fn run(&self, _env: &Env, w: &mut World, c: &Case, st: &mut Stats) -> R<Option<Violation>> {
        let mut first: Option<(Outs, Exit)> = None;
        for (i, v) in c.variants.iter().enumerate() {
            w.reset()?;
            let p = relocate(&c.base.project, &v.prefix);
            p.materialise(w)?;
            if v.tmp_junk {
                w.put("tmp/cbindgen-expandXXXX/old", b"junk")?;
            }
            // the last one is above the source tree
            for (k, d) in ["tmp", "home", "home/.config", v.prefix.as_str()].iter().enumerate() {
                if v.decoys >> k & 1 == 1 && !d.is_empty() && !p.files.keys().any(|f| f.rsplit_once('/').map(|x| x.0 == *d).unwrap_or(true)) {
                    w.put(&format!("{d}/cbindgen.toml"), b"language = \"C\"\nheader = \"/* a decoy */\"\nbraces = \"NextLine\"\n")?;
                    w.put(&format!("{d}/Cargo.toml"), b"[package]\nname = \"decoy\"\nversion = \"9.9.9\"\n")?;
                    w.put(&format!("{d}/Cargo.lock"), b"version = 3\n")?;
                    w.put(&format!("{d}/lib.rs"), b"#[no_mangle] pub extern \"C\" fn decoy() {}\n")?;
                }
            }
            if v.times != 0 {
                ages(&w.root, &mut Rng::new(v.times))?;
            }
            let b = Base { project: p, ..c.base.clone() };
            let mut j = b.job();
            j.env.extend(v.env.iter().cloned());
            j.hash_seed = v.hash_seed;
            j.heap = v.heap;
            j.dirseed = v.dirseed;
            j.clock = v.clock;
            j.pid = v.pid;
            j.cwd = v.cwd.clone();
            let mut m = GoodCargo::new(&b.project, w);
            let o = st.run(w, &[j], &Plan { sched: v.sched.clone(), ..Plan::default() }, &mut m)?;
            let mut outs = b.outs(w, &o.jobs[0].stdout);
            // paths in the depfile aside
            if !v.prefix.is_empty() {
                if let Some(d) = &outs.dep {
                    let t = String::from_utf8_lossy(d).into_owned();
                    let pre = format!("{}/{}", w.root.display(), v.prefix).replace(' ', "\\ ");
                    outs.dep = Some(t.replace(&pre, &w.root.display().to_string()).into_bytes());
                }
            }
            let e = o.jobs[0].exit.clone().unwrap();
            match &first {
                None => {
                    if e.ok() {
                        st.probe("succeeded");
                    } else {
                        st.probe("input rejected");
                        if c.base.sure {
                            st.probe("synthetic input rejected");
                            if std::env::var("VSIM_DEBUG").is_ok() {
                                return Ok(violation("synthetic input rejected", exit_text(&o.jobs[0])));
                            }
                        }
                    }
                    first = Some((outs, e));
                }
                Some((f, fe)) => {
                    if *fe != e {
                        return Ok(violation("exit status differs", format!("variant {i}: {fe:?} / {}", exit_text(&o.jobs[0]))));
                    }
                    if e.ok() {
                        if let Some(d) = outs_diff(&outs, f) {
                            return Ok(violation("output differs", format!("variant {i} of {}: {d}", c.base.project.name)));
                        }
                    }
                }
            }
        }
        Ok(None)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        if c.variants.len() > 2 {
            for i in 1..c.variants.len() {
                v.push(Case { variants: vec![c.variants[0].clone(), c.variants[i].clone()], base: c.base.clone() });
            }
            for i in 2..c.variants.len() {
                v.push(Case { variants: vec![c.variants[1].clone(), c.variants[i].clone()], base: c.base.clone() });
            }
        }
        for i in 0..c.variants.len() {
            let x = &c.variants[i];
            let mut put = |y: Variant| {
                let mut d = c.clone();
                d.variants[i] = y;
                v.push(d);
            };
            if x.heap != 0 {
                put(Variant { heap: 0, ..x.clone() });
            }
            if x.clock != 0 {
                put(Variant { clock: 0, ..x.clone() });
            }
            if x.dirseed != 0 {
                put(Variant { dirseed: 0, ..x.clone() });
            }
            if !x.prefix.is_empty() {
                put(Variant { prefix: String::new(), ..x.clone() });
            }
            if !x.cwd.is_empty() {
                put(Variant { cwd: String::new(), ..x.clone() });
            }
            if x.decoys != 0 {
                put(Variant { decoys: 0, ..x.clone() });
            }
            if x.times != 0 {
                put(Variant { times: 0, ..x.clone() });
            }
            for t in shrink_sched(&x.sched) {
                put(Variant { sched: t, ..x.clone() });
            }
            for k in 0..x.env.len() {
                let mut e = x.env.clone();
                e.remove(k);
                put(Variant { env: e, ..x.clone() });
            }
            if x.tmp_junk {
                put(Variant { tmp_junk: false, ..x.clone() });
            }
            if x.pid != 4242 {
                put(Variant { pid: 4242, ..x.clone() });
            }
            if i > 0 && x.hash_seed != c.variants[0].hash_seed {
                put(Variant { hash_seed: c.variants[0].hash_seed, ..x.clone() });
            }
        }
        for b in c.base.shrink() {
            v.push(Case { base: b, variants: c.variants.clone() });
        }
        v
    }
    fn explicit(&self, c: &Case, s: &[Sched]) -> Option<Case> {
        let mut d = c.clone();
        for (v, s) in d.variants.iter_mut().zip(s) {
            v.sched = s.clone();
        }
        Some(d)
    }
    fn summary(&self, c: &Case) -> String {
        format!("{}; {} runs differing in hash seed, heap, clock, pid, listing order, location, file ages, schedule", c.base.summary(), c.variants.len())
    }
    fn rule(&self) -> &'static str {
        "distinct combinations of the event logs of all runs of a case (each case runs one input under 3-6 draws of hash seed, heap layout, clock, pid, directory order, tree location, file ages, environment and thread schedule and compares the outputs)"
    }
    fn always_nontrivial(&self) -> bool {
        true
    }
}
