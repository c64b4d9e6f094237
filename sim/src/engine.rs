//! The simulator core: runs real processes one step at a time and decides every step.
use crate::rng::{fnv, Rng};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::fs;
use std::io;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

pub mod op {
    pub const HELLO: u32 = 1;
    pub const OPEN: u32 = 2;
    pub const READ: u32 = 3;
    pub const WRITE: u32 = 4;
    pub const STAT: u32 = 5;
    pub const MKDIR: u32 = 6;
    pub const UNLINK: u32 = 7;
    pub const RMDIR: u32 = 8;
    pub const RENAME: u32 = 9;
    pub const LINK: u32 = 10;
    pub const SYMLINK: u32 = 11;
    pub const TRUNC: u32 = 12;
    pub const CHMOD: u32 = 13;
    pub const UTIME: u32 = 14;
    pub const FSYNC: u32 = 15;
    pub const REALPATH: u32 = 16;
    pub const READLINK: u32 = 17;
    pub const OPENDIR: u32 = 18;
    pub const SPAWN: u32 = 19;
    pub const AFTERSPAWN: u32 = 20;
    pub const WAIT: u32 = 21;
    pub const BLOCK: u32 = 22;
    pub const POLL: u32 = 23;
    pub const FUTEX: u32 = 24;
    pub const THREAD: u32 = 25;
    pub const JOIN: u32 = 26;
    pub const PREEMPT: u32 = 27;
    pub const FORK: u32 = 28;
    pub const LOCK: u32 = 29;
    pub const MMAP: u32 = 31;
    pub const KILL: u32 = 32;
    pub const STUB: u32 = 33;
    pub const NOTE: u32 = 34;
    pub const SLEEP: u32 = 35;
    pub const CHDIR: u32 = 36;
    pub const NAMES: [&str; 37] = [
        "?", "hello", "open", "read", "write", "stat", "mkdir", "unlink", "rmdir", "rename",
        "link", "symlink", "truncate", "chmod", "utime", "fsync", "realpath", "readlink",
        "opendir", "spawn", "afterspawn", "wait", "block", "poll", "futex", "thread", "join",
        "preempt", "fork", "lock", "exec", "mmap", "kill", "stub", "note", "sleep", "chdir",
    ];
    pub fn name(o: u32) -> &'static str {
        NAMES.get(o as usize).copied().unwrap_or("?")
    }
    /// Operations that are only about scheduling: never faulted, not numbered.
    pub fn internal(o: u32) -> bool {
        matches!(
            o,
            HELLO | AFTERSPAWN | WAIT | BLOCK | THREAD | JOIN | PREEMPT | STUB | NOTE | FUTEX
        )
    }
    /// Operations that change the file system.
    pub fn mutating(o: u32) -> bool {
        matches!(
            o,
            WRITE | MKDIR | UNLINK | RMDIR | RENAME | LINK | SYMLINK | TRUNC | CHMOD | UTIME
        )
    }
}

/// What the simulator answers to one operation.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Proceed,
    Fail(i32),
    Short(i64),
    /// Perform the first n bytes, then the process dies.
    Torn(i64),
    /// Replace one byte of what was read.
    Corrupt(i64, u8),
    /// The process dies before the operation.
    Die,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    /// Which actor: index in order of appearance.
    pub actor: u32,
    /// The how-manyth numbered operation of that actor.
    pub at: u32,
    pub act: Act,
    /// Also every later operation of the same kind on the same path.
    #[serde(default)]
    pub sticky: bool,
    /// Only if it still is this operation on this path (an earlier fault may have changed the course).
    #[serde(default)]
    pub on: Option<(u32, String)>,
}

/// A change another program makes to the world while the system runs.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Edit {
    /// Performed just before this global step.
    pub step: u32,
    /// Path relative to the root; replaced atomically (write aside, then rename).
    pub path: String,
    pub content: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Switch {
    pub step: u32,
    pub actor: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Preempt {
    pub step: u32,
    pub allocs: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sched {
    /// Keep running the current actor; explicit switches and allocation preemptions only.
    Fixed {
        switches: Vec<Switch>,
        #[serde(default)]
        preempts: Vec<Preempt>,
    },
    /// Switch with probability 1/`inv` at every step; park inside computations after up to
    /// `allocs` allocations (0: never).
    Random { seed: u64, inv: u32, allocs: u32 },
}
impl Default for Sched {
    fn default() -> Self {
        Sched::Fixed {
            switches: vec![],
            preempts: vec![],
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Plan {
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub edits: Vec<Edit>,
    #[serde(default)]
    pub sched: Sched,
    /// Bytes that can still be written to files before the disk is full.
    #[serde(default)]
    pub disk: Option<i64>,
    /// Kill everything at this global step.
    #[serde(default)]
    pub crash_at: Option<u32>,
    /// How many files a process may have open at one time.
    #[serde(default)]
    pub fd_limit: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Job {
    /// "cbindgen" or "driver"
    pub exe: String,
    pub args: Vec<String>,
    #[serde(default)]
    pub env: Vec<(String, String)>,
    /// relative to the root
    pub cwd: String,
    #[serde(default)]
    pub hash_seed: u64,
    #[serde(default)]
    pub heap: u64,
    #[serde(default)]
    pub dirseed: u64,
    #[serde(default)]
    pub clock: u64,
    #[serde(default)]
    pub pid: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
    /// Killed by the simulator as part of the plan.
    Crashed,
    Deadlock,
    Hang,
    TooLong,
}
impl Exit {
    pub fn ok(&self) -> bool {
        *self == Exit::Code(0)
    }
}

#[derive(Clone, Debug)]
pub struct Event {
    pub step: u32,
    pub actor: u32,
    /// numbering within the actor (u32::MAX for scheduling-only operations)
    pub at: u32,
    pub op: u32,
    pub path: String,
    pub path2: String,
    pub fd: i32,
    pub flags: i32,
    pub n: i64,
    pub act: Act,
    pub ret: i64,
}
impl Event {
    pub fn writes(&self) -> bool {
        op::mutating(self.op)
            || (self.op == op::OPEN
                && ((self.flags & libc::O_ACCMODE) != libc::O_RDONLY
                    || self.flags & (libc::O_CREAT | libc::O_TRUNC) != 0))
    }
    fn hash(&self, h: &mut u64) {
        for x in [self.step as i64, self.actor as i64, self.at as i64, self.op as i64, self.ret] {
            fnv(h, &x.to_ne_bytes());
        }
        if self.op != op::WAIT && self.op != op::AFTERSPAWN && self.op != op::HELLO {
            fnv(h, &self.n.to_ne_bytes());
        }
        fnv(h, self.path.as_bytes());
        fnv(h, self.path2.as_bytes());
        if self.act != Act::Proceed {
            fnv(h, format!("{:?}", self.act).as_bytes());
        }
    }
    pub fn line(&self) -> String {
        let mut s = format!(
            "{} a{} #{} {} {}",
            self.step,
            self.actor,
            if self.at == u32::MAX { -1 } else { self.at as i64 },
            op::name(self.op),
            self.path
        );
        if !self.path2.is_empty() {
            s += &format!(" -> {}", self.path2.replace('\0', " "));
        }
        if self.n != 0 && self.op != op::WAIT && self.op != op::AFTERSPAWN && self.op != op::HELLO {
            s += &format!(" n={}", self.n);
        }
        if self.op == op::OPEN {
            s += &format!(" flags={:o}", self.flags);
        }
        if self.act != Act::Proceed {
            s += &format!(" !{:?}", self.act);
        }
        s += &format!(" = {}", self.ret);
        s
    }
}

#[derive(Clone, Debug)]
pub struct StubHello {
    pub argv: Vec<String>,
    pub cwd: String,
    pub env: BTreeMap<String, String>,
    /// how many stubs were started before this one
    pub index: usize,
}
impl StubHello {
    pub fn is_metadata(&self) -> bool {
        self.argv.get(1).map(|s| s == "metadata").unwrap_or(false)
    }
    pub fn is_expand(&self) -> bool {
        self.argv.get(1).map(|s| s == "rustc").unwrap_or(false)
    }
    /// value following an option
    pub fn opt(&self, name: &str) -> Option<&str> {
        for (i, a) in self.argv.iter().enumerate() {
            if a == name {
                // a last empty argument is not transmitted
                return Some(self.argv.get(i + 1).map(|s| s.as_str()).unwrap_or(""));
            }
            if let Some(v) = a.strip_prefix(name).and_then(|v| v.strip_prefix('=')) {
                return Some(v);
            }
        }
        None
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum StubCmd {
    /// stream, file (relative to the world's side directory or absolute), offset, length
    Out(i32, String, i64, i64),
    Raw(i32, String),
    Fill(i32, i64),
    Close(i32),
    Mkdirs(String),
    Mk1(String),
    Touch(String),
    Stat(String),
    Nop,
    /// Take the build-directory lock of a directory; blocks for ever when the enclosing cargo has it.
    Lock(String),
    /// cwd, variables, argv
    Spawn(String, Vec<String>, Vec<String>),
    Exit(i32),
    Kill(i32),
}

pub trait StubModel {
    fn start(&mut self, h: &StubHello) -> Vec<StubCmd>;
    fn result(&mut self, _stub: usize, _cmd: usize, _ret: i64) {}
    /// Is this directory locked by somebody else for as long as the run lasts?
    fn locked(&self, _dir: &str) -> bool {
        false
    }
}
pub struct NoStub;
impl StubModel for NoStub {
    fn start(&mut self, _h: &StubHello) -> Vec<StubCmd> {
        vec![StubCmd::Exit(101)]
    }
}

#[derive(Clone, Debug, Default)]
pub struct JobOut {
    pub exit: Option<Exit>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}
impl JobOut {
    pub fn ok(&self) -> bool {
        self.exit == Some(Exit::Code(0))
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
}

#[derive(Debug, Default)]
pub struct RunOut {
    pub jobs: Vec<JobOut>,
    pub events: Vec<Event>,
    pub stubs: Vec<StubHello>,
    pub log_hash: u64,
    /// scheduling decisions actually taken, as an explicit schedule
    pub switches: Vec<Switch>,
    pub preempts: Vec<Preempt>,
    pub injected: BTreeMap<&'static str, u64>,
    pub sim_ns: i64,
    pub actors: Vec<ActorInfo>,
    /// most files open at one time, where there is a limit
    pub peak_fds: u32,
}
impl RunOut {
    pub fn trace(&self) -> Vec<String> {
        self.events.iter().map(|e| e.line()).collect()
    }
}
#[derive(Debug, Clone)]
pub struct ActorInfo {
    pub job: Option<usize>,
    pub kind: Kind,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Main,
    Thread,
    Stub,
    Nested,
}

#[derive(PartialEq, Clone, Debug)]
enum St {
    Parked,
    Dead,
}

struct Actor {
    fd: Option<OwnedFd>,
    pid: i32,
    kind: Kind,
    token: i64,
    job: Option<usize>,
    st: St,
    req: Req,
    count: u32,
    blocked_at: u64,
    last_event: Option<usize>,
    script: Vec<StubCmd>,
    pc: usize,
    stub_index: usize,
    bye: bool,
    dead_lock: bool,
    pidfd: Option<OwnedFd>,
}

#[derive(Clone, Default, Debug)]
struct Req {
    op: u32,
    fd: i32,
    flags: i32,
    n: i64,
    prev_ret: i64,
    prev_errno: i32,
    aux: i64,
    p: Vec<u8>,
    p2: Vec<u8>,
}

pub struct Tools {
    pub cbindgen: PathBuf,
    pub driver: PathBuf,
    pub shim: PathBuf,
    pub stub: PathBuf,
}

/// One isolated world: a scratch directory holding the simulated file tree and the side files.
pub struct World<'t> {
    pub tools: &'t Tools,
    pub dir: PathBuf,
    pub root: PathBuf,
    listener: Option<OwnedFd>,
    sock: PathBuf,
    pub runs: u64,
    /// simulated nanoseconds since `EPOCH`; file times are set from it, not from the machine's
    /// clock, whose granularity hides the order of writes
    tick: std::cell::Cell<u64>,
}
const EPOCH: u64 = 1_700_000_000_000_000_000;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Dir,
    File {
        data: Vec<u8>,
        mode: u32,
        mtime: i64,
        ino: u64,
    },
    Link(String),
}
pub type Snap = BTreeMap<String, Node>;

pub fn file<'a>(s: &'a Snap, p: &str) -> Option<&'a [u8]> {
    match s.get(p) {
        Some(Node::File { data, .. }) => Some(data),
        _ => None,
    }
}

#[derive(Debug)]
pub struct HarnessError(pub String);
impl<E: std::fmt::Display> From<E> for HarnessError {
    fn from(e: E) -> Self {
        HarnessError(e.to_string())
    }
}
pub type R<T> = Result<T, HarnessError>;

fn errno() -> i32 {
    io::Error::last_os_error().raw_os_error().unwrap_or(0)
}

impl Drop for World<'_> {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.dir);
    }
}

impl<'t> World<'t> {
    pub fn new(tools: &'t Tools, base: &Path, n: usize) -> R<World<'t>> {
        let dir = base.join(format!("{n:02}"));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(dir.join("w"))?;
        fs::create_dir_all(dir.join("o"))?;
        fs::create_dir_all(dir.join("bin"))?;
        std::os::unix::fs::symlink(&tools.stub, dir.join("bin/cargo"))?;
        std::os::unix::fs::symlink(&tools.stub, dir.join("bin/rustc"))?;
        Ok(World {
            tools,
            root: dir.join("w"),
            dir,
            listener: None,
            sock: PathBuf::new(),
            tick: Default::default(),
            runs: 0,
        })
    }

    /// A new socket for every run: a straggler of an earlier run cannot reach this one.
    fn listen(&mut self) -> R<()> {
        let _ = fs::remove_file(&self.sock);
        let sock = self.dir.join(format!("s{}", self.runs));
        let listener = unsafe {
            let s = libc::socket(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0);
            if s < 0 {
                return Err(HarnessError("socket".into()));
            }
            let mut a: libc::sockaddr_un = std::mem::zeroed();
            a.sun_family = libc::AF_UNIX as u16;
            let p = CString::new(sock.to_str().unwrap())?;
            let b = p.as_bytes_with_nul();
            if b.len() > a.sun_path.len() {
                return Err(HarnessError("socket path too long".into()));
            }
            for (i, c) in b.iter().enumerate() {
                a.sun_path[i] = *c as libc::c_char;
            }
            if libc::bind(
                s,
                &a as *const _ as *const libc::sockaddr,
                std::mem::size_of_val(&a) as u32,
            ) < 0
                || libc::listen(s, 64) < 0
            {
                return Err(HarnessError(format!("bind/listen: {}", errno())));
            }
            OwnedFd::from_raw_fd(s)
        };
        self.sock = sock;
        self.listener = Some(listener);
        Ok(())
    }

    pub fn reset(&self) -> R<()> {
        self.tick.set(0);
        let _ = fs::remove_dir_all(&self.root);
        fs::create_dir_all(self.root.join("tmp"))?;
        let side = self.dir.join("side");
        let _ = fs::remove_dir_all(&side);
        fs::create_dir_all(side)?;
        Ok(())
    }

    pub fn side(&self) -> PathBuf {
        self.dir.join("side")
    }
    pub fn abs(&self, rel: &str) -> PathBuf {
        if rel.is_empty() {
            self.root.clone()
        } else {
            self.root.join(rel)
        }
    }
    /// Substitute the root directory for `@ROOT@`.
    pub fn subst(&self, s: &str) -> String {
        if !s.contains('@') {
            return s.to_string();
        }
        s.replace("@ROOT@", self.root.to_str().unwrap())
            .replace("@SIDE@", self.side().to_str().unwrap())
            .replace("@BIN@", self.dir.join("bin").to_str().unwrap())
            .replace("@CBINDGEN@", self.tools.cbindgen.to_str().unwrap())
            .replace("@DRIVER@", self.tools.driver.to_str().unwrap())
    }
    /// The inverse, to make texts independent of where the world lives.
    pub fn unsubst(&self, s: &str) -> String {
        s.replace(self.root.to_str().unwrap(), "@ROOT@")
            .replace(self.dir.to_str().unwrap(), "@DIR@")
    }
    pub fn put(&self, rel: &str, content: &[u8]) -> R<()> {
        let p = self.abs(rel);
        if let Some(d) = p.parent() {
            fs::create_dir_all(d)?;
        }
        fs::write(&p, content)?;
        self.stamp(&p);
        Ok(())
    }
    fn stamp(&self, p: &Path) {
        let t = self.tick.get() + 1_000_000;
        self.tick.set(t);
        let t = libc::timespec { tv_sec: ((EPOCH + t) / 1_000_000_000) as i64, tv_nsec: ((EPOCH + t) % 1_000_000_000) as i64 };
        if let Ok(c) = CString::new(p.as_os_str().as_encoded_bytes()) {
            unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [t, t].as_ptr(), 0) };
        }
    }
    pub fn put_text(&self, rel: &str, content: &str) -> R<()> {
        self.put(rel, self.subst(content).as_bytes())
    }
    pub fn replace(&self, rel: &str, content: &str) -> R<()> {
        let p = self.abs(rel);
        let t = self.dir.join("edit.tmp");
        fs::write(&t, self.subst(content))?;
        self.stamp(&t);
        fs::rename(&t, &p)?;
        Ok(())
    }
    pub fn get(&self, rel: &str) -> Option<Vec<u8>> {
        fs::read(self.abs(rel)).ok()
    }

    pub fn snapshot(&self) -> R<Snap> {
        let mut out = Snap::new();
        snap_dir(&self.root, "", &mut out)?;
        Ok(out)
    }

    /// Give every file an old time stamp, so that any later modification shows.
    pub fn age(&self) -> R<()> {
        let s = self.snapshot()?;
        for (p, n) in &s {
            if let Node::File { .. } = n {
                let c = CString::new(self.abs(p).to_str().unwrap())?;
                let t = [
                    libc::timespec {
                        tv_sec: 1_000_000_000,
                        tv_nsec: 0,
                    },
                    libc::timespec {
                        tv_sec: 1_000_000_000,
                        tv_nsec: 0,
                    },
                ];
                unsafe {
                    libc::utimensat(libc::AT_FDCWD, c.as_ptr(), t.as_ptr(), libc::AT_SYMLINK_NOFOLLOW);
                }
            }
        }
        Ok(())
    }

    fn spawn(&self, j: &Job, idx: usize) -> R<Child> {
        let exe = match j.exe.as_str() {
            "cbindgen" => &self.tools.cbindgen,
            "driver" => &self.tools.driver,
            e => return Err(HarnessError(format!("exe {e}"))),
        };
        let out = fs::File::create(self.dir.join(format!("o/{idx}.out")))?;
        let err = fs::File::create(self.dir.join(format!("o/{idx}.err")))?;
        let mut c = Command::new(exe);
        c.arg0(j.exe.as_str());
        for a in &j.args {
            c.arg(self.subst(a));
        }
        let bin = self.dir.join("bin");
        c.env_clear()
            .env("PATH", &bin)
            .env("CARGO", bin.join("cargo"))
            .env("RUSTC", bin.join("rustc"))
            .env("HOME", self.abs("home"))
            .env("TMPDIR", self.abs("tmp"))
            .env("RUST_BACKTRACE", "0")
            .env("LD_PRELOAD", &self.tools.shim)
            .env("VSIM_SOCK", &self.sock)
            .env("VSIM_ROOT", &self.root)
            .env("VSIM_SEED", j.hash_seed.to_string())
            .env("VSIM_HEAP", j.heap.to_string())
            .env("VSIM_DIR", j.dirseed.to_string())
            .env(
                "VSIM_CLOCK",
                if j.clock == 0 { EPOCH + self.tick.get() } else { j.clock }.to_string(),
            )
            .env("VSIM_PID", if j.pid == 0 { 4242 } else { j.pid }.to_string());
        for (k, v) in &j.env {
            if v == "@UNSET@" {
                c.env_remove(k);
            } else {
                c.env(k, self.subst(v));
            }
        }
        c.current_dir(self.abs(&j.cwd))
            .stdin(Stdio::null())
            .stdout(out)
            .stderr(err);
        Ok(c.spawn()?)
    }

    fn accept(&self, timeout_ms: i32) -> Option<OwnedFd> {
        let listener = self.listener.as_ref()?.as_raw_fd();
        unsafe {
            let mut p = libc::pollfd {
                fd: listener,
                events: libc::POLLIN,
                revents: 0,
            };
            loop {
                let r = libc::poll(&mut p, 1, timeout_ms);
                if r < 0 && errno() == libc::EINTR {
                    continue;
                }
                if r <= 0 {
                    return None;
                }
                let c = libc::accept4(
                    listener,
                    std::ptr::null_mut(),
                    std::ptr::null_mut(),
                    libc::SOCK_CLOEXEC,
                );
                if c < 0 {
                    if errno() == libc::EINTR {
                        continue;
                    }
                    return None;
                }
                return Some(OwnedFd::from_raw_fd(c));
            }
        }
    }

    /// Run the jobs together under a plan.
    pub fn run(&mut self, jobs: &[Job], plan: &Plan, stubs: &mut dyn StubModel) -> R<RunOut> {
        self.runs += 1;
        self.listen()?;
        let mut e = Engine {
            w: self,
            actors: vec![],
            children: vec![],
            plan,
            out: RunOut::default(),
            step: 0,
            progress: 1,
            rng: match plan.sched {
                Sched::Random { seed, .. } => Rng::new(seed),
                _ => Rng::new(0),
            },
            disk: plan.disk,
            sticky: vec![],
            edit_hash: 0xcbf29ce484222325,
            current: 0,
            stubs,
            crashed: false,
        };
        let r = e.go(jobs);
        if r.is_err() {
            e.kill_all();
        }
        r?;
        let mut h = e.edit_hash;
        let mut out = e.out;
        for i in 0..jobs.len() {
            out.jobs[i].stdout = fs::read(self.dir.join(format!("o/{i}.out")))?;
            out.jobs[i].stderr = fs::read(self.dir.join(format!("o/{i}.err")))?;
        }
        for ev in &out.events {
            ev.hash(&mut h);
        }
        out.log_hash = h;
        Ok(out)
    }
}

fn snap_dir(d: &Path, rel: &str, out: &mut Snap) -> R<()> {
    use std::os::unix::fs::MetadataExt;
    for e in fs::read_dir(d)? {
        let e = e?;
        let name = e.file_name().to_string_lossy().into_owned();
        let r = if rel.is_empty() {
            name
        } else {
            format!("{rel}/{name}")
        };
        let m = fs::symlink_metadata(e.path())?;
        if m.file_type().is_symlink() {
            out.insert(r, Node::Link(fs::read_link(e.path())?.to_string_lossy().into_owned()));
        } else if m.is_dir() {
            out.insert(r.clone(), Node::Dir);
            snap_dir(&e.path(), &r, out)?;
        } else {
            out.insert(
                r,
                Node::File {
                    data: fs::read(e.path())?,
                    mode: m.mode(),
                    mtime: m.mtime(),
                    ino: m.ino(),
                },
            );
        }
    }
    Ok(())
}

struct Engine<'a, 't> {
    w: &'a World<'t>,
    actors: Vec<Actor>,
    children: Vec<Child>,
    plan: &'a Plan,
    out: RunOut,
    step: u32,
    progress: u64,
    rng: Rng,
    disk: Option<i64>,
    sticky: Vec<(u32, String, Act)>,
    current: usize,
    stubs: &'a mut dyn StubModel,
    crashed: bool,
    edit_hash: u64,
}

const MAX_EVENTS: u32 = 400_000;

enum Got {
    Msg,
    Eof,
    Hang,
}

impl Engine<'_, '_> {
    fn recv(&mut self, i: usize) -> R<Got> {
        let fd = match &self.actors[i].fd {
            Some(f) => f.as_raw_fd(),
            None => return Ok(Got::Eof),
        };
        let mut buf = vec![0u8; 65536 + 128];
        let mut waited = 0;
        let (mut idle, mut last) = (0, -1.0);
        loop {
            let mut p = libc::pollfd {
                fd,
                events: libc::POLLIN,
                revents: 0,
            };
            let r = unsafe { libc::poll(&mut p, 1, 1000) };
            if r < 0 && errno() == libc::EINTR {
                continue;
            }
            if r == 0 {
                waited += 1;
                let pid = self.actors[i].pid;
                let cpu = cpu_seconds(pid);
                // waiting for something the simulator does not know of, as opposed to being
                // kept from running by a busy machine
                idle = if cpu == last && asleep(pid) { idle + 1 } else { 0 };
                last = cpu;
                if cpu > 15.0 || waited > 180 || idle > 20 {
                    return Ok(Got::Hang);
                }
                continue;
            }
            let n = unsafe { libc::recv(fd, buf.as_mut_ptr() as *mut _, buf.len(), 0) };
            if n < 0 && errno() == libc::EINTR {
                continue;
            }
            if n <= 0 {
                return Ok(Got::Eof);
            }
            let b = &buf[..n as usize];
            if b.len() < 48 {
                return Err(HarnessError("short message".into()));
            }
            let u32at = |o: usize| u32::from_ne_bytes(b[o..o + 4].try_into().unwrap());
            let i64at = |o: usize| i64::from_ne_bytes(b[o..o + 8].try_into().unwrap());
            let plen = u32at(40) as usize;
            let p2len = u32at(44) as usize;
            let d = 48;
            let a = &mut self.actors[i];
            a.req = Req {
                op: u32at(0),
                fd: u32at(4) as i32,
                flags: u32at(8) as i32,
                prev_errno: u32at(12) as i32,
                n: i64at(16),
                prev_ret: i64at(24),
                aux: i64at(32),
                p: b[d..d + plen].to_vec(),
                p2: b[d + plen..d + plen + p2len].to_vec(),
            };
            return Ok(Got::Msg);
        }
    }

    fn reply(&mut self, i: usize, act: &Act, arg0: i64, preempt: u32, extra: &[u8]) {
        let (a, e, arg) = match act {
            Act::Proceed => (0u32, 0, arg0),
            Act::Fail(e) => (1, *e, 0),
            Act::Short(n) => (2, 0, *n),
            Act::Torn(n) => (3, 0, *n),
            Act::Corrupt(at, b) => (4, *b as i32, *at),
            Act::Die => (5, 0, 0),
        };
        let mut m = Vec::with_capacity(24 + extra.len());
        m.extend_from_slice(&a.to_ne_bytes());
        m.extend_from_slice(&e.to_ne_bytes());
        m.extend_from_slice(&arg.to_ne_bytes());
        m.extend_from_slice(&preempt.to_ne_bytes());
        m.extend_from_slice(&(extra.len() as u32).to_ne_bytes());
        m.extend_from_slice(extra);
        if let Some(f) = &self.actors[i].fd {
            unsafe {
                libc::send(
                    f.as_raw_fd(),
                    m.as_ptr() as *const _,
                    m.len(),
                    libc::MSG_NOSIGNAL,
                );
            }
        }
    }

    fn rel(&self, b: &[u8]) -> String {
        let s = String::from_utf8_lossy(b).into_owned();
        let root = self.w.root.to_str().unwrap();
        if let Some(r) = s.strip_prefix(root) {
            return r.trim_start_matches('/').to_string();
        }
        self.w.unsubst(&s)
    }

    fn add_actor(&mut self, fd: OwnedFd, job: Option<usize>, parent: Option<usize>) -> R<usize> {
        self.actors.push(Actor {
            fd: Some(fd),
            pid: 0,
            kind: Kind::Main,
            token: 0,
            job,
            st: St::Parked,
            req: Req::default(),
            count: 0,
            blocked_at: 0,
            last_event: None,
            script: vec![],
            pc: 0,
            stub_index: 0,
            bye: false,
            dead_lock: false,
            pidfd: None,
        });
        let i = self.actors.len() - 1;
        match self.recv(i)? {
            Got::Msg => {}
            _ => return Err(HarnessError("actor died before HELLO".into())),
        }
        let (flags, pid, token) = {
            let r = &self.actors[i].req;
            if r.op != op::HELLO {
                return Err(HarnessError("expected HELLO".into()));
            }
            (r.flags, r.n as i32, r.aux)
        };
        let a = &mut self.actors[i];
        a.pid = pid;
        a.token = token;
        a.kind = match (flags, job, parent) {
            (1, _, _) => Kind::Thread,
            (2, _, _) => Kind::Stub,
            (_, Some(_), _) => Kind::Main,
            _ => Kind::Nested,
        };
        if a.kind == Kind::Thread {
            let pj = parent.and_then(|p| self.actors[p].job);
            self.actors[i].job = pj;
        }
        if matches!(self.actors[i].kind, Kind::Stub | Kind::Nested) {
            let f = unsafe { libc::syscall(libc::SYS_pidfd_open, pid, 0) };
            if f >= 0 {
                self.actors[i].pidfd = Some(unsafe { OwnedFd::from_raw_fd(f as i32) });
            }
        }
        if self.actors[i].kind == Kind::Stub {
            let r = self.actors[i].req.clone();
            let mut parts: Vec<String> = r
                .p
                .split(|b| *b == 0)
                .map(|s| String::from_utf8_lossy(s).into_owned())
                .collect();
            let cwd = parts.pop().unwrap_or_default();
            while parts.last().map(|s| s.is_empty()).unwrap_or(false) {
                parts.pop();
            }
            let env = r
                .p2
                .split(|b| *b == 0)
                .filter_map(|s| {
                    let s = String::from_utf8_lossy(s).into_owned();
                    s.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))
                })
                .collect();
            let h = StubHello {
                argv: parts,
                cwd,
                env,
                index: self.out.stubs.len(),
            };
            let script = self.stubs.start(&h);
            let a = &mut self.actors[i];
            a.script = script;
            a.stub_index = h.index;
            self.out.stubs.push(h);
        }
        let info = ActorInfo {
            job: self.actors[i].job,
            kind: self.actors[i].kind,
        };
        self.out.actors.push(info);
        Ok(i)
    }

    fn kill_all(&mut self) {
        for a in &self.actors {
            if a.st != St::Dead && a.req.op == op::AFTERSPAWN && a.req.flags == 0 && a.req.n > 0 {
                // a child that has not been let in yet
                unsafe {
                    libc::kill(a.req.n as i32, libc::SIGKILL);
                }
            }
            if a.st != St::Dead && a.pid > 0 && a.kind != Kind::Thread {
                unsafe {
                    libc::kill(a.pid, libc::SIGKILL);
                }
            }
        }
        for c in &mut self.children {
            let _ = c.kill();
            let _ = c.wait();
        }
        for a in &mut self.actors {
            // wait until processes that are not our children are really gone
            if a.kind == Kind::Stub || a.kind == Kind::Nested {
                if let Some(f) = a.pidfd.as_ref().or(a.fd.as_ref()) {
                    let mut p = libc::pollfd {
                        fd: f.as_raw_fd(),
                        events: libc::POLLIN,
                        revents: 0,
                    };
                    unsafe { libc::poll(&mut p, 1, 2000) };
                }
            }
            a.st = St::Dead;
            a.fd = None;
        }
    }

    fn log(&mut self, i: usize, act: Act) -> usize {
        let a = &self.actors[i];
        let r = &a.req;
        let internal = op::internal(r.op);
        let ev = Event {
            step: self.step,
            actor: i as u32,
            at: if internal { u32::MAX } else { a.count },
            op: r.op,
            path: self.rel(&r.p),
            path2: self.rel(&r.p2),
            fd: r.fd,
            flags: r.flags,
            n: r.n,
            act,
            ret: 0,
        };
        self.out.events.push(ev);
        let k = self.out.events.len() - 1;
        if !internal {
            self.actors[i].count += 1;
        }
        self.actors[i].last_event = Some(k);
        k
    }

    fn eligible(&self, i: usize) -> bool {
        let a = &self.actors[i];
        if a.st != St::Parked || a.dead_lock {
            return false;
        }
        match a.req.op {
            op::BLOCK => self.progress > a.blocked_at,
            op::WAIT => {
                a.req.flags == 1
                    || !self
                        .actors
                        .iter()
                        .any(|b| b.pid as i64 == a.req.n && b.kind != Kind::Thread && b.st != St::Dead)
            }
            op::JOIN => !self.actors.iter().any(|b| {
                b.kind == Kind::Thread && b.pid == a.pid && b.token == a.req.aux && b.st != St::Dead
            }),
            _ => true,
        }
    }

    fn choose(&mut self, el: &[usize]) -> usize {
        // a child or thread that was just started is let in at once: only one can be on its way
        if let Some(&x) = el.iter().find(|&&x| {
            let q = &self.actors[x].req;
            q.op == op::AFTERSPAWN || (q.op == op::THREAD && q.flags == 1)
        }) {
            return x;
        }
        let keep = el.iter().position(|&x| x == self.current);
        match &self.plan.sched {
            Sched::Fixed { switches, .. } => {
                if let Some(s) = switches.iter().find(|s| s.step == self.step) {
                    if el.contains(&(s.actor as usize)) {
                        return s.actor as usize;
                    }
                }
                match keep {
                    Some(k) => el[k],
                    None => el[0],
                }
            }
            Sched::Random { inv, .. } => {
                let inv = *inv as u64;
                let pick = match keep {
                    Some(k) if el.len() > 1 => {
                        if self.rng.chance(1, inv.max(1)) {
                            el[self.rng.us(el.len())]
                        } else {
                            el[k]
                        }
                    }
                    Some(k) => el[k],
                    None => el[self.rng.us(el.len())],
                };
                let default = keep.map(|k| el[k]).unwrap_or(el[0]);
                if pick != default {
                    self.out.switches.push(Switch {
                        step: self.step,
                        actor: pick as u32,
                    });
                }
                pick
            }
        }
    }

    fn preempt_for(&mut self, i: usize) -> u32 {
        if self.actors[i].kind == Kind::Stub {
            return 0;
        }
        match &self.plan.sched {
            Sched::Fixed { preempts, .. } => preempts
                .iter()
                .find(|p| p.step == self.step)
                .map(|p| p.allocs)
                .unwrap_or(0),
            Sched::Random { allocs: 0, .. } => 0,
            Sched::Random { allocs, .. } => {
                let multi = self.actors.iter().filter(|a| a.st != St::Dead).count() > 1;
                if !multi {
                    return 0;
                }
                // log-uniform: short and long computations alike
                let top = 64 - (*allocs as u64).leading_zeros() as u64;
                let bits = self.rng.below(top + 1);
                let n = 1 + self.rng.below(1 << bits) as u32;
                self.out.preempts.push(Preempt {
                    step: self.step,
                    allocs: n,
                });
                n
            }
        }
    }

    fn inject(&mut self, name: &'static str) {
        *self.out.injected.entry(name).or_insert(0) += 1;
    }

    /// Decide what happens to the pending numbered operation of actor `i`.
    fn decide(&mut self, i: usize) -> Act {
        let at = self.actors[i].count;
        let (o, path) = {
            let r = &self.actors[i].req;
            (r.op, self.rel(&r.p))
        };
        let mut act = Act::Proceed;
        for (so, sp, sa) in &self.sticky {
            if *so == o && *sp == path {
                act = sa.clone();
            }
        }
        for f in &self.plan.faults {
            if f.actor as usize == i && f.at == at && f.on.as_ref().map(|(fo, fp)| *fo == o && *fp == path).unwrap_or(true) {
                act = f.act.clone();
                if f.sticky {
                    self.sticky.push((o, path.clone(), f.act.clone()));
                }
            }
        }
        // a finite disk
        if act == Act::Proceed && o == op::WRITE && self.actors[i].req.flags == 1 {
            if let Some(left) = self.disk {
                let n = self.actors[i].req.n;
                if n > left {
                    if left > 0 {
                        act = Act::Short(left);
                        self.disk = Some(0);
                    } else {
                        act = Act::Fail(libc::ENOSPC);
                    }
                } else {
                    self.disk = Some(left - n);
                }
            }
        }
        if let (Act::Proceed, op::OPEN | op::OPENDIR, Some(limit)) = (&act, o, self.plan.fd_limit) {
            let n = open_files(self.actors[i].pid);
            self.out.peak_fds = self.out.peak_fds.max(n + 1);
            if n >= limit {
                act = Act::Fail(libc::EMFILE);
            }
        }
        // only what makes sense for the operation
        match (&act, o) {
            (Act::Short(n), op::READ | op::WRITE) => {
                if *n >= self.actors[i].req.n || self.actors[i].req.n <= 1 {
                    act = Act::Proceed;
                }
            }
            (Act::Short(_), _) => act = Act::Proceed,
            (Act::Torn(_), op::WRITE) => {}
            (Act::Torn(_), _) => act = Act::Die,
            (Act::Corrupt(..), op::READ) => {}
            (Act::Corrupt(..), _) => act = Act::Proceed,
            // only calls that POSIX lets be interrupted
            (Act::Fail(libc::EINTR), op::OPEN | op::READ | op::WRITE | op::POLL) => {}
            (Act::Fail(libc::EINTR), _) => act = Act::Proceed,
            _ => {}
        }
        match &act {
            Act::Proceed => {}
            Act::Fail(libc::EINTR) => self.inject("EINTR"),
            Act::Fail(libc::ENOSPC) => self.inject("ENOSPC"),
            Act::Fail(libc::EDQUOT) => self.inject("EDQUOT"),
            Act::Fail(libc::EIO) => self.inject("EIO"),
            Act::Fail(libc::EACCES) => self.inject("EACCES"),
            Act::Fail(libc::EPIPE) => self.inject("EPIPE"),
            Act::Fail(libc::EMFILE) => self.inject("EMFILE"),
            Act::Fail(libc::EROFS) => self.inject("EROFS"),
            Act::Fail(libc::ENOMEM) => self.inject("ENOMEM"),
            Act::Fail(libc::EAGAIN) => self.inject("EAGAIN"),
            Act::Fail(libc::ENOENT) => self.inject("ENOENT"),
            Act::Fail(libc::EPERM) => self.inject("EPERM"),
            Act::Fail(libc::EISDIR) => self.inject("EISDIR"),
            Act::Fail(libc::ELOOP) => self.inject("ELOOP"),
            Act::Fail(libc::ESTALE) => self.inject("ESTALE"),
            Act::Fail(_) => self.inject("other errno"),
            Act::Short(_) if o == op::READ => self.inject("short read"),
            Act::Short(_) => self.inject("short write"),
            Act::Torn(_) => self.inject("torn write + crash"),
            Act::Corrupt(..) => self.inject("corrupt byte read"),
            Act::Die => self.inject("crash"),
        }
        act
    }

    fn next_message(&mut self, i: usize) -> R<Option<Exit>> {
        let was_blocked = self.actors[i].req.op == op::BLOCK;
        match self.recv(i)? {
            Got::Msg => {
                let pr = self.actors[i].req.prev_ret;
                if let Some(k) = self.actors[i].last_event {
                    let o = self.out.events[k].op;
                    // process numbers must not reach the log
                    if !op::internal(o) && o != op::SPAWN && o != op::FORK {
                        self.out.events[k].ret = pr;
                    } else if o == op::SPAWN {
                        self.out.events[k].ret = if pr < 0 { pr } else { 0 };
                    } else if o == op::STUB {
                        self.out.events[k].ret = pr;
                    }
                    let e = &self.out.events[k];
                    if e.op == op::WRITE && pr > 0 || e.op == op::OPEN && pr >= 0 && e.flags & libc::O_TRUNC != 0 {
                        self.stamp(k);
                    }
                }
                if self.actors[i].req.op == op::STUB && self.actors[i].pc > 0 {
                    let (s, c) = (self.actors[i].stub_index, self.actors[i].pc - 1);
                    self.stubs.result(s, c, pr);
                }
                if self.actors[i].req.op == op::BLOCK {
                    // what was done before blocking (again) may have unblocked others
                    if !was_blocked || (self.actors[i].kind == Kind::Stub && self.actors[i].req.n == 1) {
                        self.progress += 1;
                    }
                    self.actors[i].blocked_at = self.progress;
                } else {
                    self.progress += 1;
                }
                Ok(None)
            }
            Got::Eof => {
                self.gone(i);
                Ok(None)
            }
            Got::Hang => Ok(Some(Exit::Hang)),
        }
    }

    /// The file just written to was modified now.
    fn stamp(&self, k: usize) {
        let e = &self.out.events[k];
        if e.path.starts_with('<') || e.path.is_empty() {
            return;
        }
        let p = self.w.abs(&e.path);
        if p.starts_with(&self.w.root) && p.is_file() {
            self.w.stamp(&p);
        }
    }

    fn gone(&mut self, i: usize) {
        if let Some(k) = self.actors[i].last_event {
            if matches!(self.out.events[k].act, Act::Torn(_)) {
                self.stamp(k);
            }
        }
        self.progress += 1;
        let pid = self.actors[i].pid;
        self.actors[i].st = St::Dead;
        self.actors[i].fd = None;
        if self.actors[i].kind == Kind::Thread && self.actors[i].bye {
            return;
        }
        // the whole process is gone; wait until its descriptors are closed, too
        if let Some(f) = &self.actors[i].pidfd {
            let mut p = libc::pollfd { fd: f.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            while unsafe { libc::poll(&mut p, 1, 5000) } < 0 && errno() == libc::EINTR {}
        }
        for k in 0..self.actors.len() {
            if self.actors[k].pid == pid {
                self.actors[k].st = St::Dead;
                self.actors[k].fd = None;
            }
        }
        let job = self.actors.iter().find(|a| a.pid == pid && a.kind == Kind::Main).and_then(|a| a.job);
        if let Some(j) = job {
            let st = self.children[j].wait();
            if self.out.jobs[j].exit.is_none() {
                self.out.jobs[j].exit = Some(match st {
                    Ok(s) => match (s.code(), s.signal()) {
                        (Some(c), _) => Exit::Code(c),
                        (_, Some(sig)) => {
                            if self.crashed && sig == libc::SIGKILL {
                                Exit::Crashed
                            } else {
                                Exit::Signal(sig)
                            }
                        }
                        _ => Exit::Signal(0),
                    },
                    Err(_) => Exit::Signal(0),
                });
            }
            // a child of a process that died is on its own; its stub is ended with it
            let orphans: Vec<i32> = self
                .actors
                .iter()
                .filter(|a| {
                    a.st != St::Dead && (a.kind == Kind::Stub || a.kind == Kind::Nested) && self.crashed
                })
                .map(|a| a.pid)
                .collect();
            if self.out.jobs.len() == 1 {
                for p in orphans {
                    unsafe { libc::kill(p, libc::SIGKILL) };
                }
            }
        }
    }

    fn finish(&mut self, e: Exit) {
        for j in 0..self.out.jobs.len() {
            if self.out.jobs[j].exit.is_none() {
                self.out.jobs[j].exit = Some(e.clone());
            }
        }
        self.kill_all();
    }

    fn go(&mut self, jobs: &[Job]) -> R<()> {
        self.out.jobs = vec![JobOut::default(); jobs.len()];
        for (j, job) in jobs.iter().enumerate() {
            if j == 0 {
                self.w.tick.set(self.w.tick.get() + 10_000_000_000);
            }
            let c = self.w.spawn(job, j)?;
            self.children.push(c);
            let fd = self
                .w
                .accept(20_000)
                .ok_or_else(|| HarnessError(format!("job {j} did not connect")))?;
            self.add_actor(fd, Some(j), None)?;
        }
        loop {
            // other programs' edits due now
            for ed in &self.plan.edits {
                if ed.step == self.step {
                    self.w.replace(&ed.path, &ed.content)?;
                    self.inject_edit();
                    fnv(&mut self.edit_hash, format!("{} {}", ed.step, ed.path).as_bytes());
                }
            }
            if self.plan.crash_at == Some(self.step) {
                self.crashed = true;
                self.inject("crash");
                self.finish(Exit::Crashed);
                return Ok(());
            }
            let live = self.actors.iter().any(|a| a.st != St::Dead);
            if !live {
                break;
            }
            let el: Vec<usize> = (0..self.actors.len()).filter(|&i| self.eligible(i)).collect();
            if el.is_empty() {
                self.finish(Exit::Deadlock);
                return Ok(());
            }
            if self.step >= MAX_EVENTS {
                self.finish(Exit::TooLong);
                return Ok(());
            }
            let i = self.choose(&el);
            self.current = i;
            if let Some(x) = self.exec(i)? {
                self.finish(x);
                return Ok(());
            }
            self.step += 1;
        }
        Ok(())
    }

    fn inject_edit(&mut self) {
        self.inject("file replaced during run");
    }

    fn exec(&mut self, i: usize) -> R<Option<Exit>> {
        let o = self.actors[i].req.op;
        match o {
            op::NOTE => {
                // a thread says good-bye
                self.actors[i].bye = true;
                self.reply(i, &Act::Proceed, 0, 0, &[]);
                self.next_message(i)
            }
            op::HELLO | op::PREEMPT | op::BLOCK | op::JOIN => {
                if o != op::HELLO {
                    self.log(i, Act::Proceed);
                }
                let p = self.preempt_for(i);
                self.reply(i, &Act::Proceed, 0, p, &[]);
                self.next_message(i)
            }
            op::WAIT => {
                let pid = self.actors[i].req.n;
                let dead = !self.actors.iter().any(|b| {
                    b.pid as i64 == pid && b.kind != Kind::Thread && b.st != St::Dead
                });
                let k = self.log(i, Act::Proceed);
                self.out.events[k].n = 0;
                self.reply(i, &Act::Proceed, dead as i64, 0, &[]);
                self.next_message(i)
            }
            op::AFTERSPAWN => {
                let (rc, pid) = (self.actors[i].req.flags, self.actors[i].req.n as i32);
                if rc == 0 {
                    // wait until the child has arrived (or is gone without ever speaking)
                    let mut tries = 0;
                    loop {
                        if let Some(fd) = self.w.accept(50) {
                            let c = self.add_actor(fd, None, Some(i))?;
                            if self.actors[c].pid != pid {
                                return Err(HarnessError(format!(
                                    "unexpected process {} (wanted {pid})",
                                    self.actors[c].pid
                                )));
                            }
                            break;
                        }
                        tries += 1;
                        match proc_state(pid) {
                            Some('Z') | None => break,
                            _ => {}
                        }
                        if tries > 400 {
                            return Err(HarnessError("child did not connect".into()));
                        }
                    }
                }
                let p = self.preempt_for(i);
                self.reply(i, &Act::Proceed, 0, p, &[]);
                self.next_message(i)
            }
            op::THREAD => {
                let (phase, token) = (self.actors[i].req.flags, self.actors[i].req.aux);
                if phase == 0 {
                    self.log(i, Act::Proceed);
                } else if phase == 1 {
                    let fd = self
                        .w
                        .accept(20_000)
                        .ok_or_else(|| HarnessError("thread did not connect".into()))?;
                    let t = self.add_actor(fd, None, Some(i))?;
                    if self.actors[t].token != token {
                        return Err(HarnessError("unexpected thread".into()));
                    }
                }
                let p = self.preempt_for(i);
                self.reply(i, &Act::Proceed, 0, p, &[]);
                self.next_message(i)
            }
            op::STUB => {
                let pc = self.actors[i].pc;
                let cmd = self.actors[i].script.get(pc).cloned().unwrap_or(StubCmd::Exit(0));
                self.actors[i].pc += 1;
                let side = self.w.side();
                let b: Vec<u8> = match &cmd {
                    StubCmd::Out(fd, f, off, n) => {
                        let p = if f.starts_with('/') { PathBuf::from(f) } else { side.join(f) };
                        format!("out {fd} {off} {n} {}", p.display()).into_bytes()
                    }
                    StubCmd::Raw(fd, s) => format!("raw {fd} {s}").into_bytes(),
                    StubCmd::Fill(fd, n) => format!("fill {fd} {n}").into_bytes(),
                    StubCmd::Close(fd) => format!("close {fd}").into_bytes(),
                    StubCmd::Mkdirs(p) => format!("mkdirs {p}").into_bytes(),
                    StubCmd::Mk1(p) => format!("mk1 {p}").into_bytes(),
                    StubCmd::Touch(p) => format!("touch {p}").into_bytes(),
                    StubCmd::Stat(p) => format!("stat {p}").into_bytes(),
                    StubCmd::Nop => b"nop".to_vec(),
                    StubCmd::Lock(d) => {
                        if self.stubs.locked(d) {
                            self.actors[i].dead_lock = true;
                            self.log(i, Act::Proceed);
                            let k = self.out.events.len() - 1;
                            self.out.events[k].path = format!("blocked on build directory {}", self.w.unsubst(d));
                            return Ok(None);
                        }
                        b"nop".to_vec()
                    }
                    StubCmd::Exit(c) => format!("exit {c}").into_bytes(),
                    StubCmd::Kill(s) => format!("kill {s}").into_bytes(),
                    StubCmd::Spawn(cwd, vars, argv) => {
                        let mut b = b"spawn\0".to_vec();
                        b.extend_from_slice(self.w.subst(cwd).as_bytes());
                        b.push(0);
                        for v in vars {
                            b.extend_from_slice(self.w.subst(v).as_bytes());
                            b.push(0);
                        }
                        b.push(0);
                        for v in argv {
                            b.extend_from_slice(self.w.subst(v).as_bytes());
                            b.push(0);
                        }
                        b
                    }
                };
                let k = self.log(i, Act::Proceed);
                self.out.events[k].path = self.w.unsubst(&format!("{cmd:?}")).chars().take(160).collect();
                self.reply(i, &Act::Proceed, 0, 0, &b);
                self.next_message(i)
            }
            _ => {
                let act = self.decide(i);
                if o == op::SLEEP {
                    self.out.sim_ns += self.actors[i].req.n;
                }
                self.log(i, act.clone());
                if matches!(act, Act::Die | Act::Torn(_)) {
                    self.crashed = true;
                }
                let p = self.preempt_for(i);
                self.reply(i, &act, 0, p, &[]);
                let r = self.next_message(i)?;
                if let Act::Fail(e) = act {
                    if let Some(k) = self.out.events.iter().rposition(|ev| ev.actor as usize == i && ev.op == o) {
                        self.out.events[k].ret = -(e as i64);
                    }
                }
                Ok(r)
            }
        }
    }
}

/// Open descriptors other than the links to the simulator.
fn open_files(pid: i32) -> u32 {
    let Ok(d) = fs::read_dir(format!("/proc/{pid}/fd")) else { return 0 };
    d.flatten().filter(|e| e.file_name().to_str().and_then(|s| s.parse::<u32>().ok()).map(|n| n < 900).unwrap_or(false)).count() as u32
}
fn proc_state(pid: i32) -> Option<char> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    s[s.rfind(')')? + 1..].trim_start().chars().next()
}
/// Every thread of the process sleeps.
fn asleep(pid: i32) -> bool {
    let Ok(d) = fs::read_dir(format!("/proc/{pid}/task")) else { return false };
    d.flatten().all(|t| {
        let s = fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        s.rfind(')').map(|k| s[k + 1..].trim_start().starts_with('S')).unwrap_or(false)
    })
}
fn cpu_seconds(pid: i32) -> f64 {
    let s = match fs::read_to_string(format!("/proc/{pid}/stat")) {
        Ok(s) => s,
        Err(_) => return 0.0,
    };
    let Some(k) = s.rfind(')') else { return 0.0 };
    let f: Vec<&str> = s[k + 1..].split_whitespace().collect();
    let t: f64 = f.get(11).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0)
        + f.get(12).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    t / 100.0
}
