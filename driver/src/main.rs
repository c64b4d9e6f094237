//! A build-script-like client of the cbindgen library: performs the generations it is told to, in
//! one or several threads, and reports what each of them gave.
use cbindgen::{Bindings, Builder, Config, Language};
use serde_json::{json, Value};
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

/// A writer that accepts what it is told to accept.
struct Fussy {
    got: Vec<u8>,
    chunks: Vec<i64>,
    k: usize,
    fail_at: Option<usize>,
    kind: i64,
    flush_fails: bool,
    flushes: usize,
    after_fail: usize,
    failed: bool,
}
impl Write for Fussy {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed {
            self.after_fail += 1;
        }
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = b.len();
        if !self.chunks.is_empty() {
            let c = self.chunks[self.k % self.chunks.len()];
            self.k += 1;
            if c < 0 {
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            if c > 0 {
                n = n.min(c as usize);
            }
        }
        if let Some(f) = self.fail_at {
            if self.got.len() >= f {
                self.failed = true;
                return match self.kind {
                    0 => Err(io::Error::from_raw_os_error(28)),
                    1 => Ok(0),
                    2 => Err(io::Error::from(io::ErrorKind::BrokenPipe)),
                    _ => Err(io::Error::from(io::ErrorKind::WouldBlock)),
                };
            }
            n = n.min(f - self.got.len());
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.flush_fails {
            return Err(io::Error::from_raw_os_error(5));
        }
        Ok(())
    }
}

fn s(v: &Value) -> Option<String> {
    v.as_str().map(|x| x.to_string())
}

fn generate(g: &Value) -> Result<Bindings, String> {
    let lang = |l: &str| match l {
        "C" => Language::C,
        "C++" => Language::Cxx,
        _ => Language::Cython,
    };
    if g["api"] == "generate" {
        return cbindgen::generate(PathBuf::from(s(&g["crate"]).unwrap())).map_err(|e| e.to_string());
    }
    let mut config = match s(&g["config"]) {
        Some(c) => Config::from_file(&c)?,
        None => match s(&g["root"]) {
            Some(r) => Config::from_root_or_default(&r),
            None => Config::default(),
        },
    };
    if let Some(l) = g["lang"].as_str() {
        config.language = lang(l);
    }
    if g["api"] == "with_config" {
        return cbindgen::generate_with_config(PathBuf::from(s(&g["crate"]).unwrap()), config).map_err(|e| e.to_string());
    }
    let mut b = Builder::new().with_config(config);
    if let Some(h) = g["header"].as_str() {
        b = b.with_header(h);
    }
    if let Some(p) = g["prefix"].as_str() {
        b = b.with_item_prefix(p);
    }
    if g["std_types"] == false {
        b = b.with_std_types(false);
    }
    if let Some(v) = g["src"].as_array() {
        for f in v {
            b = b.with_src(f.as_str().unwrap());
        }
    }
    if let Some(c) = g["crate"].as_str() {
        b = match g["name"].as_str() {
            Some(n) => b.with_crate_and_name(c, n),
            None => b.with_crate(c),
        };
    }
    if let Some(v) = g["expand"].as_array() {
        let v: Vec<&str> = v.iter().filter_map(|x| x.as_str()).collect();
        b = b.with_parse_expand(&v);
    }
    if let Some(l) = g["lockfile"].as_str() {
        b = b.with_lockfile(l);
    }
    b.generate().map_err(|e| e.to_string())
}

fn msg(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

fn perform(step: &Value) -> Value {
    // what the user or another build step does before this generation
    for e in step["before"].as_array().unwrap_or(&vec![]) {
        let (path, text) = (e["path"].as_str().unwrap(), e["text"].as_str().unwrap());
        let old = std::fs::metadata(path).ok();
        let _ = std::fs::write(path, text);
        // an edit that keeps the length also keeps the times
        if let Some(Ok(t)) = old.filter(|m| m.len() == text.len() as u64).map(|m| m.modified()) {
            if let Ok(f) = std::fs::File::options().append(true).open(path) {
                let _ = f.set_modified(t);
            }
        }
    }
    let b = match catch_unwind(AssertUnwindSafe(|| generate(step))) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return json!({"error": e}),
        Err(p) => return json!({"panic": msg(p)}),
    };
    let mut res = vec![];
    for a in step["actions"].as_array().unwrap_or(&vec![]) {
        let path = s(&a["path"]).unwrap_or_default();
        let r = catch_unwind(AssertUnwindSafe(|| match a["do"].as_str().unwrap_or("") {
            "file" => json!({"changed": b.write_to_file(&path)}),
            "dep" => {
                b.generate_depfile(s(&a["header"]).unwrap(), path.clone());
                json!({"ok": true})
            }
            "sym" => {
                b.generate_symfile(&path);
                json!({"ok": true})
            }
            "mem" => {
                let mut v = vec![];
                b.write(&mut v);
                json!({"text": String::from_utf8_lossy(&v)})
            }
            "symbols" => json!({"symbols": b.dynamic_symbols_names().collect::<Vec<_>>()}),
            x => json!({"bad": x}),
        }));
        let r = if a["do"] == "writer" {
            let mut w = Fussy {
                got: vec![],
                chunks: a["chunks"].as_array().map(|v| v.iter().filter_map(|x| x.as_i64()).collect()).unwrap_or_default(),
                k: 0,
                fail_at: a["fail_at"].as_u64().map(|x| x as usize),
                kind: a["kind"].as_i64().unwrap_or(0),
                flush_fails: a["flush_fails"] == true,
                flushes: 0,
                after_fail: 0,
                failed: false,
            };
            let r = catch_unwind(AssertUnwindSafe(|| b.write(&mut w)));
            json!({"bytes": w.got.iter().map(|b| *b as char).collect::<String>(), "returned": r.is_ok(), "failed": w.failed})
        } else {
            r.unwrap_or_else(|p| json!({"panic": msg(p)}))
        };
        res.push(r);
    }
    json!({ "actions": res })
}

thread_local! {
    static HOOK: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static MUTE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
unsafe extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
/// What a process has and is, as far as others can tell.
fn audit() -> Value {
    let mut last = state();
    // a thread that was joined may still be on its way out of the kernel
    for _ in 0..2000 {
        if last["threads"] == "1" {
            break;
        }
        // nanosleep, unseen by the simulator
        let t = [0i64, 200_000];
        unsafe { syscall(35, t.as_ptr(), 0i64) };
        last = state();
    }
    last
}
fn state() -> Value {
    let mut fds = vec![];
    for e in std::fs::read_dir("/proc/self/fd").unwrap().flatten() {
        let n: u32 = e.file_name().to_str().unwrap().parse().unwrap();
        let l = std::fs::read_link(e.path()).map(|p| p.display().to_string()).unwrap_or_default();
        // what reads this list, and the links to the simulator
        if n < 900 && !l.is_empty() && !(l.starts_with("/proc/") && l.ends_with("/fd")) {
            // pipes and sockets have numbers
            fds.push(format!("{n} {}", l.split('[').next().unwrap()));
        }
    }
    fds.sort();
    let status = std::fs::read_to_string("/proc/self/status").unwrap();
    let field = |k: &str| status.lines().find_map(|l| l.strip_prefix(k)).map(|l| l.trim_start_matches(':').trim().to_string());
    let mut info = [0u8; 128];
    // P_ALL; WNOHANG | WEXITED | WSTOPPED | WNOWAIT: fails when there is no child at all
    let children = unsafe { syscall(247, 0i64, 0i64, info.as_mut_ptr(), 1i64 | 4 | 2 | 0x0100_0000, 0i64, 0i64) } == 0;
    let hook = {
        let before = HOOK.get();
        MUTE.set(true);
        let _ = catch_unwind(|| panic!("probe"));
        MUTE.set(false);
        HOOK.get() == before + 1
    };
    let mut signals = vec![];
    for s in ["SigBlk", "SigIgn", "SigCgt"] {
        // without those the C library keeps for its threads
        signals.push(field(s).and_then(|x| u64::from_str_radix(&x, 16).ok()).map(|x| x & !(3 << 31)));
    }
    json!({
        "files": fds,
        "threads": field("Threads"),
        "umask": field("Umask"),
        "signals": signals,
        "children": children,
        "panic hook": hook,
        "limits": std::fs::read_to_string("/proc/self/limits").unwrap_or_default(),
        "environment": env(),
        "working directory": std::env::current_dir().ok().map(|d| d.display().to_string()),
    })
}
/// What is not as it was.
fn changes(a: &Value, b: &Value) -> Vec<String> {
    let mut v = vec![];
    for (k, x) in a.as_object().unwrap() {
        if x != &b[k] {
            v.push(format!("{k}: {} -> {}", x, b[k]));
        }
    }
    v
}

fn env() -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = std::env::vars_os()
        .map(|(a, b)| (a.to_string_lossy().into_owned(), b.to_string_lossy().into_owned()))
        .collect();
    v.sort();
    v
}

fn main() {
    let spec: Value = serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap()).unwrap();
    let before = (env(), std::env::current_dir().ok());
    let threads = spec["threads"].as_array().unwrap().clone();
    let audited = spec["audit"] == true;
    let mut found = vec![];
    let start = if audited {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            HOOK.set(HOOK.get() + 1);
            if !MUTE.get() {
                old(i)
            }
        }));
        audit()
    } else {
        Value::Null
    };
    let out: Vec<Value> = if threads.len() == 1 {
        let mut v = vec![];
        for (k, s) in threads[0].as_array().unwrap().iter().enumerate() {
            v.push(perform(s));
            if audited {
                found.extend(changes(&start, &audit()).into_iter().map(|c| format!("after generation {k}: {c}")));
            }
        }
        vec![Value::Array(v)]
    } else {
        let hs: Vec<_> = threads
            .into_iter()
            .map(|t| std::thread::spawn(move || -> Value { t.as_array().unwrap().iter().map(perform).collect() }))
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(json!("thread died"))).collect()
    };
    if audited {
        found.extend(changes(&start, &audit()).into_iter().map(|c| format!("at the end: {c}")));
    }
    let same = before == (env(), std::env::current_dir().ok());
    // standard error is not under the simulator's control
    let line = format!("@@RESULT {}\n", json!({"threads": out, "env_same": same, "audit": found}));
    let _ = io::stderr().write_all(line.as_bytes());
}
