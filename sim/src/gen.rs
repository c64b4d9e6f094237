//! Workload generation: projects (source trees, manifests, configurations) for the system to bind.
use crate::engine::*;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Project {
    pub name: String,
    /// path (relative to the root) -> text; `@ROOT@` stands for the root directory
    pub files: BTreeMap<String, String>,
    /// symbolic links: path -> target text
    #[serde(default)]
    pub links: BTreeMap<String, String>,
    /// the INPUT argument
    pub input: String,
    /// options other than outputs
    pub args: Vec<String>,
    /// path of the configuration file in effect
    pub config: Option<String>,
    /// the source files that belong to the input (empty: unknown)
    #[serde(default)]
    pub sources: Vec<String>,
    /// exported symbols (functions and statics); None: unknown
    #[serde(default)]
    pub symbols: Option<Vec<String>>,
    /// `cargo metadata` answer
    #[serde(default)]
    pub metadata: Option<String>,
    /// expansion of crates
    #[serde(default)]
    pub expand: BTreeMap<String, String>,
    #[serde(default)]
    pub env: Vec<(String, String)>,
    #[serde(default)]
    pub cwd: String,
}

impl Project {
    pub fn materialise(&self, w: &World) -> R<()> {
        for (p, c) in &self.files {
            w.put_text(p, c)?;
        }
        for (p, t) in &self.links {
            let a = w.abs(p);
            if let Some(d) = a.parent() {
                std::fs::create_dir_all(d)?;
            }
            std::os::unix::fs::symlink(w.subst(t), a)?;
        }
        self.side(w)?;
        std::fs::create_dir_all(w.abs(&self.cwd))?;
        Ok(())
    }
    /// Files the stub child answers from (outside the simulated tree).
    pub fn side(&self, w: &World) -> R<()> {
        self.side_as(w, "")
    }
    pub fn side_as(&self, w: &World, tag: &str) -> R<()> {
        if let Some(m) = &self.metadata {
            std::fs::write(w.side().join(format!("{tag}metadata.json")), w.subst(m))?;
        }
        for (k, v) in &self.expand {
            std::fs::write(w.side().join(format!("{tag}expand-{k}.rs")), w.subst(v))?;
        }
        Ok(())
    }
    /// A command line with the given outputs (paths relative to the root).
    pub fn job(&self, out: Option<&str>, dep: Option<&str>, sym: Option<&str>, extra: &[&str]) -> Job {
        let mut args = self.args.clone();
        if let Some(o) = out {
            args.push("-o".into());
            args.push(abs_or(o));
        }
        if let Some(o) = dep {
            args.push("--depfile".into());
            args.push(abs_or(o));
        }
        if let Some(o) = sym {
            args.push("--symfile".into());
            args.push(abs_or(o));
        }
        for e in extra {
            args.push(e.to_string());
        }
        args.push(self.input.clone());
        Job {
            exe: "cbindgen".into(),
            args,
            env: self.env.clone(),
            cwd: self.cwd.clone(),
            hash_seed: 7,
            heap: 0,
            dirseed: 0,
            clock: 0,
            pid: 0,
        }
    }
    pub fn is_crate(&self) -> bool {
        self.metadata.is_some()
    }
    pub fn uses_expand(&self) -> bool {
        !self.expand.is_empty()
    }
}

/// Paths are relative to the root unless they start with `./` (then relative to the cwd) or `/`.
pub fn abs_or(p: &str) -> String {
    if p.starts_with("./") || p.starts_with('/') || p.starts_with('@') {
        p.to_string()
    } else {
        format!("@ROOT@/{p}")
    }
}

/// The well-behaved cargo/rustc.
pub struct GoodCargo<'a> {
    pub p: &'a Project,
    pub side: std::path::PathBuf,
    pub noise: i64,
    pub tag: String,
}
impl<'a> GoodCargo<'a> {
    pub fn new(p: &'a Project, w: &World) -> GoodCargo<'a> {
        GoodCargo {
            p,
            side: w.side(),
            noise: 0,
            tag: String::new(),
        }
    }
    pub fn len(&self, f: &str) -> i64 {
        std::fs::metadata(self.side.join(f)).map(|m| m.len() as i64).unwrap_or(0)
    }
}
pub fn expand_target(h: &StubHello) -> String {
    let p = h.opt("-p").unwrap_or("");
    p.split(':').next().unwrap_or("").to_string()
}
impl StubModel for GoodCargo<'_> {
    fn start(&mut self, h: &StubHello) -> Vec<StubCmd> {
        let mut v = vec![];
        if self.noise > 0 {
            v.push(StubCmd::Fill(2, self.noise));
        }
        if h.is_metadata() {
            let f = format!("{}metadata.json", self.tag);
            v.push(StubCmd::Out(1, f.clone(), 0, self.len(&f)));
            v.push(StubCmd::Exit(0));
        } else if h.is_expand() {
            let f = format!("{}expand-{}.rs", self.tag, expand_target(h));
            v.push(StubCmd::Out(1, f.clone(), 0, self.len(&f)));
            v.push(StubCmd::Exit(0));
        } else {
            v.push(StubCmd::Raw(1, RUSTC_VV.into()));
            v.push(StubCmd::Exit(0));
        }
        v
    }
}
pub const RUSTC_VV: &str = "rustc 1.90.0 (stub)\nbinary: rustc\nhost: x86_64-unknown-linux-gnu\nrelease: 1.90.0\n";

// ---------------------------------------------------------------------------- source text

#[derive(Clone)]
pub struct Ctx {
    pub uid: u32,
    /// (name, number of type parameters)
    pub types: Vec<(String, usize)>,
    pub consts: Vec<String>,
    pub symbols: Vec<String>,
    pub prefix: String,
    pub cfgs: bool,
    pub bitflags: bool,
}
impl Ctx {
    pub fn new(prefix: &str) -> Ctx {
        Ctx {
            uid: 0,
            types: vec![],
            consts: vec![],
            symbols: vec![],
            prefix: prefix.into(),
            cfgs: true,
            bitflags: true,
        }
    }
    fn id(&mut self, k: &str) -> String {
        self.uid += 1;
        format!("{}{}{}", self.prefix, k, self.uid)
    }
}

const PRIMS: &[&str] = &[
    "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "bool", "usize", "isize",
    "c_char", "c_int", "c_void_p",
];

fn prim(r: &mut Rng) -> String {
    match *r.pick(PRIMS) {
        "c_char" => "std::os::raw::c_char".into(),
        "c_int" => "std::os::raw::c_int".into(),
        "c_void_p" => "*mut std::os::raw::c_void".into(),
        p => p.into(),
    }
}

pub fn ty(r: &mut Rng, c: &Ctx, depth: u32) -> String {
    match r.below(if depth == 0 { 12 } else { 7 }) {
        0 | 1 | 2 => prim(r),
        3 | 4 | 5 if !c.types.is_empty() => {
            let (n, g) = r.pick(&c.types).clone();
            if g == 0 {
                n
            } else {
                let a: Vec<String> = (0..g)
                    .map(|_| match r.below(3) {
                        0 => {
                            let plain: Vec<_> = c.types.iter().filter(|t| t.1 == 0).collect();
                            if plain.is_empty() {
                                "u32".to_string()
                            } else {
                                r.pick(&plain).0.clone()
                            }
                        }
                        1 => format!("*const {}", *r.pick(&["u8", "i32", "f64"])),
                        _ => r.pick(&["u8", "i16", "u32", "i64", "f32"]).to_string(),
                    })
                    .collect();
                format!("{n}<{}>", a.join(", "))
            }
        }
        6 => prim(r),
        7 => format!("*const {}", ty(r, c, depth + 1)),
        8 => format!("*mut {}", ty(r, c, depth + 1)),
        9 => format!("[{}; {}]", ty(r, c, depth + 1), r.range(1, 8)),
        10 => format!(
            "Option<extern \"C\" fn({}) -> {}>",
            (0..r.below(3)).map(|i| format!("a{i}: {}", prim_or(r, c))).collect::<Vec<_>>().join(", "),
            prim(r)
        ),
        11 => format!("Option<&'static {}>", ty(r, c, depth + 1)),
        _ => prim(r),
    }
}

fn prim_or(r: &mut Rng, c: &Ctx) -> String {
    let t = ty(r, c, 1);
    if t.starts_with('[') {
        "u8".into()
    } else {
        t
    }
}
/// For function arguments: anything but an array.
pub fn arg_ty(r: &mut Rng, c: &Ctx) -> String {
    let t = ty(r, c, 0);
    if t.starts_with('[') {
        format!("*const {t}")
    } else {
        t
    }
}

fn doc(r: &mut Rng, out: &mut String) {
    const W: &[&str] = &["the", "value", "of", "a", "thing", "(see below)", "naïve", "→", "\u{fffd}", "*bold*", "0..n"];
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 3) {
            let t: Vec<&str> = (0..r.range(0, 7)).map(|_| *r.pick(W)).collect();
            let _ = writeln!(out, "/// {}", t.join(" "));
        }
    }
}

fn cfg(r: &mut Rng, c: &Ctx, out: &mut String) {
    if c.cfgs && r.chance(1, 6) {
        let a = r.pick(&[
            "unix",
            "windows",
            "target_os = \"linux\"",
            "feature = \"fa\"",
            "not(windows)",
            "any(unix, feature = \"fb\")",
            "all(not(unix), feature = \"fa\")",
        ]);
        let _ = writeln!(out, "#[cfg({a})]");
    }
}

pub fn item(r: &mut Rng, c: &mut Ctx, out: &mut String) {
    match r.below(26) {
        0 | 1 | 2 => {
            let n = c.id("S");
            doc(r, out);
            if r.chance(1, 8) {
                let _ = writeln!(out, "/// cbindgen:derive-eq={}", r.chance(1, 2));
            }
            if r.chance(1, 10) {
                out.push_str("/// cbindgen:rename-all=CamelCase\n");
            }
            if r.chance(1, 10) {
                out.push_str("#[deprecated(note = \"old\")]\n");
            }
            out.push_str(r.pick(&["#[repr(C)]\n", "#[repr(C)]\n", "#[repr(C)]\n", "#[repr(C, align(16))]\n", "#[repr(C, packed)]\n"]));
            let _ = writeln!(out, "#[derive(Clone, Copy)]\npub struct {n} {{");
            for k in 0..r.range(1, 6) {
                if r.chance(1, 5) {
                    doc(r, out);
                }
                let t = ty(r, c, 0);
                let _ = writeln!(out, "    pub field_{k}: {t},");
            }
            if r.chance(1, 5) {
                let _ = writeln!(out, "    pub next: *mut {n},");
            }
            out.push_str("}\n");
            c.types.push((n, 0));
        }
        3 => {
            let n = c.id("G");
            let g = r.range(1, 2) as usize;
            let ps: Vec<String> = (0..g).map(|i| format!("T{i}")).collect();
            let _ = writeln!(out, "#[repr(C)]\npub struct {n}<{}> {{", ps.join(", "));
            for (k, p) in ps.iter().enumerate() {
                let _ = writeln!(out, "    pub g{k}: {},", if r.chance(1, 2) { p.clone() } else { format!("*const {p}") });
            }
            let t = prim(r);
            let _ = writeln!(out, "    pub tail: {t},\n}}");
            c.types.push((n, g));
        }
        4 => {
            let n = c.id("O");
            let _ = writeln!(out, "pub struct {n} {{ inner: Vec<u8> }}");
            // opaque types are used behind pointers only
            let f = c.id("fn_");
            let _ = writeln!(out, "#[no_mangle]\npub extern \"C\" fn {f}(o: *mut {n}) -> *const {n} {{ o }}");
            c.symbols.push(f);
        }
        5 | 6 => {
            let n = c.id("E");
            doc(r, out);
            if r.chance(1, 6) {
                out.push_str("/// cbindgen:prefix-with-name\n");
            }
            let rep = r.pick(&["C", "u8", "u16", "i32", "u32", "usize"]);
            let _ = writeln!(out, "#[repr({rep})]\n#[derive(Clone, Copy)]\npub enum {n} {{");
            let mut v = 0;
            for k in 0..r.range(1, 6) {
                if r.chance(1, 3) {
                    v += r.range(1, 20);
                    let _ = writeln!(out, "    {n}V{k} = {v},");
                } else {
                    let _ = writeln!(out, "    {n}V{k},");
                }
                v += 1;
            }
            out.push_str("}\n");
            c.types.push((n, 0));
        }
        7 | 8 => {
            let n = c.id("D");
            doc(r, out);
            let rep = r.pick(&["C", "u8", "C, u8", "i32"]);
            let _ = writeln!(out, "#[repr({rep})]\npub enum {n} {{");
            for k in 0..r.range(1, 5) {
                match r.below(3) {
                    0 => {
                        let _ = writeln!(out, "    {n}U{k},");
                    }
                    1 => {
                        let ts: Vec<String> = (0..r.range(1, 3)).map(|_| ty(r, c, 0)).collect();
                        let _ = writeln!(out, "    {n}T{k}({}),", ts.join(", "));
                    }
                    _ => {
                        let ts: Vec<String> = (0..r.range(1, 3)).map(|i| format!("x{i}: {}", ty(r, c, 0))).collect();
                        let _ = writeln!(out, "    {n}N{k} {{ {} }},", ts.join(", "));
                    }
                }
            }
            out.push_str("}\n");
            c.types.push((n, 0));
        }
        9 => {
            let n = c.id("U");
            let _ = writeln!(out, "#[repr(C)]\n#[derive(Clone, Copy)]\npub union {n} {{");
            for k in 0..r.range(1, 4) {
                let t = ty(r, c, 0);
                let _ = writeln!(out, "    pub u{k}: {t},");
            }
            out.push_str("}\n");
            c.types.push((n, 0));
        }
        10 => {
            let n = c.id("A");
            let t = ty(r, c, 0);
            doc(r, out);
            let _ = writeln!(out, "pub type {n} = {t};");
            c.types.push((n, 0));
        }
        11 => {
            let n = c.id("W");
            let t = r.pick(&["u8", "u32", "i64", "f32"]);
            let _ = writeln!(out, "#[repr(transparent)]\npub struct {n}(pub {t});");
            if r.chance(1, 2) {
                let _ = writeln!(out, "impl {n} {{ pub const ZERO_{n}: {n} = {n}(0 as {t}); pub const N_{n}: u32 = {}; }}", r.below(1000));
            } else if r.chance(1, 2) {
                // with more than one field, all but one of no size
                let m = c.id("T");
                let fs = if r.chance(1, 2) { ["value", "mark", "unit"] } else { ["zz", "aa", "mm"] };
                let _ = writeln!(out, "#[repr(transparent)]\npub struct {m} {{ pub {}: {t}, pub {}: PhantomData<u8>, pub {}: () }}", fs[0], fs[1], fs[2]);
                let _ = writeln!(out, "pub const {}_C: {m} = {m} {{ {}: {}, {}: 1, {}: 2 }};", m.to_uppercase(), fs[0], r.below(100) + 3, fs[1], fs[2]);
                c.types.push((m, 0));
            }
            c.types.push((n, 0));
        }
        12 | 13 => {
            let n = c.id("CONST_");
            doc(r, out);
            cfg(r, c, out);
            let (t, v) = match r.below(8) {
                0 => ("i32".to_string(), format!("-{}", r.below(10000))),
                1 => ("u64".into(), format!("0x{:x}", r.next() >> 1)),
                2 => ("bool".into(), r.chance(1, 2).to_string()),
                3 => ("&'static str".into(), format!("\"s{}\"", r.below(100))),
                4 => ("f64".into(), format!("{}.5", r.below(100))),
                5 => ("usize".into(), format!("1 << {}", r.below(30))),
                6 => ("char".into(), "'x'".into()),
                _ if !c.consts.is_empty() => ("i32".into(), format!("{} + 1", r.pick(&c.consts))),
                _ => ("u8".into(), "7".into()),
            };
            let is_int = t == "i32" && v.starts_with('-');
            let _ = writeln!(out, "pub const {n}: {t} = {v};");
            if is_int {
                c.consts.push(n);
            }
        }
        14 => {
            let n = c.id("STATIC_");
            let t = ty(r, c, 0);
            let m = if r.chance(1, 2) { "mut " } else { "" };
            let _ = writeln!(out, "#[no_mangle]\npub static {m}{n}: {t} = todo!();");
            c.symbols.push(n);
        }
        15 if c.bitflags => {
            let n = c.id("Fl");
            let t = r.pick(&["u8", "u16", "u32", "u64"]);
            let _ = writeln!(out, "bitflags! {{\n    #[repr(C)]\n    pub struct {n}: {t} {{");
            for k in 0..r.range(1, 4) {
                let _ = writeln!(out, "        const {}_{k} = 1 << {k};", n.to_uppercase());
            }
            out.push_str("    }\n}\n");
            // emitted only with macro_expansion.bitflags; by-name use is harmless otherwise
        }
        20 => {
            // constants of structure type, associated ones among them
            let n = c.id("K");
            let k = r.range(1, 4);
            let fs: Vec<String> = (0..k).map(|i| format!("pub k{i}: {}", r.pick(&["u8", "i32", "u64", "f32"]))).collect();
            let lit = |r: &mut Rng| {
                let mut v: Vec<String> = (0..k).map(|i| format!("k{i}: {}", if fs[i as usize].ends_with("f32") { format!("{}.0", r.below(9)) } else { r.below(200).to_string() })).collect();
                r.shuffle(&mut v);
                v.join(", ")
            };
            let _ = writeln!(out, "#[repr(C)]\npub struct {n} {{ {} }}", fs.join(", "));
            let l = lit(r);
            let _ = writeln!(out, "pub const {}_A: {n} = {n} {{ {l} }};", n.to_uppercase());
            let _ = writeln!(out, "impl {n} {{");
            for j in 0..r.range(1, 4) {
                let l = lit(r);
                let _ = writeln!(out, "    pub const ASSOC_{j}: {n} = {n} {{ {l} }};\n    pub const BITS_{j}: u16 = 1 << {j};");
            }
            out.push_str("}\n");
            c.types.push((n, 0));
        }
        21 => {
            let n = c.id("GE");
            let _ = writeln!(out, "#[repr({})]\npub enum {n}<T> {{\n    {n}None,\n    {n}Some(T),\n    {n}Ptr {{ at: *const T, len: usize }},\n}}", r.pick(&["C", "u8", "C, u8"]));
            c.types.push((n, 1));
        }
        22 => {
            let n = c.id("GU");
            let _ = writeln!(out, "#[repr(C)]\npub union {n}<T, V> {{\n    pub a: *const T,\n    pub b: V,\n}}");
            c.types.push((n, 2));
        }
        23 => {
            let n = c.id("fn_");
            match r.below(3) {
                0 => {
                    let _ = writeln!(out, "#[export_name = \"exported_{n}\"]\npub extern \"C\" fn {n}(x: u32) {{}}");
                    c.symbols.push(format!("exported_{n}"));
                }
                1 => {
                    let _ = writeln!(out, "/// cbindgen:ignore\n#[no_mangle]\npub extern \"C\" fn ignored_{n}(x: u32) {{}}");
                }
                _ => {
                    let t = arg_ty(r, c);
                    let _ = writeln!(out, "#[unsafe(no_mangle)]\npub unsafe extern \"C\" fn {n}(cb: Option<unsafe extern \"C\" fn(*const u8, usize) -> bool>, x: {t}, f: extern \"C\" fn(&mut u64)) {{}}");
                    c.symbols.push(n);
                }
            }
        }
        24 => {
            let n = c.id("TD");
            let t = r.pick(&["u8", "u32", "i64", "*const u8"]).to_string();
            let _ = writeln!(out, "/// cbindgen:{}\npub type {n} = {t};", r.pick(&["transparent-typedef", "rename-all=CamelCase", "ignore=false"]));
            let _ = writeln!(out, "#[repr(C)]\npub struct {n}T(pub {n}, pub [{n}; 3]);");
            c.types.push((format!("{n}T"), 0));
        }
        _ => {
            let n = c.id("fn_");
            doc(r, out);
            cfg_fn(r, c, out);
            if r.chance(1, 12) {
                out.push_str(r.pick(&["#[must_use]\n", "#[deprecated]\n", "#[deprecated(note = \"use another\")]\n"]));
            }
            let args: Vec<String> = (0..r.below(6)).map(|i| format!("arg_{i}: {}", arg_ty(r, c))).collect();
            let ret = if r.chance(1, 2) { format!(" -> {}", arg_ty(r, c)) } else { String::new() };
            let _ = writeln!(
                out,
                "#[no_mangle]\npub {}extern \"C\" fn {n}({}){ret} {{ todo!() }}",
                if r.chance(1, 4) { "unsafe " } else { "" },
                args.join(", ")
            );
            c.symbols.push(n);
        }
    }
}
fn cfg_fn(r: &mut Rng, c: &Ctx, out: &mut String) {
    cfg(r, c, out)
}

/// Many small items of one kind: orders that depend on table sizes show only beyond a few dozen.
fn bulk(r: &mut Rng, c: &mut Ctx, s: &mut String) {
    let n = r.range(26, 70);
    let what = r.below(4);
    for _ in 0..n {
        match what {
            0 => {
                let n = c.id("BULK_C_");
                let _ = writeln!(s, "pub const {n}: u32 = {};", r.below(1 << 20));
            }
            1 => {
                let n = c.id("BULK_S_");
                let _ = writeln!(s, "#[no_mangle]\npub static {n}: u32 = {};", r.below(1 << 20));
                c.symbols.push(n);
            }
            2 => {
                let n = c.id("bulk_fn_");
                let _ = writeln!(s, "#[no_mangle]\npub extern \"C\" fn {n}() {{}}");
                c.symbols.push(n);
            }
            _ => {
                let n = c.id("B");
                let f = c.id("use_bulk_");
                let _ = writeln!(s, "#[repr(C)]\npub struct {n} {{ pub x: u8 }}\n#[no_mangle]\npub extern \"C\" fn {f}(a: {n}) {{}}");
                c.symbols.push(f);
            }
        }
    }
}

pub fn items(r: &mut Rng, c: &mut Ctx, n: u64) -> String {
    let mut s = String::new();
    for _ in 0..n {
        item(r, c, &mut s);
        if r.chance(1, 3) {
            s.push('\n');
        }
    }
    if n >= 4 && r.chance(1, 12) {
        bulk(r, c, &mut s);
    }
    // everything should be reachable from a function now and then
    if r.chance(1, 2) && !c.types.is_empty() {
        let f = c.id("fn_");
        let args: Vec<String> = (0..r.range(1, 5)).map(|i| format!("p{i}: {}", arg_ty(r, c))).collect();
        let _ = writeln!(s, "#[no_mangle]\npub extern \"C\" fn {f}({}) {{}}", args.join(", "));
        c.symbols.push(f);
    }
    s
}

/// A module tree rooted at `dir/root_file`; fills `files` and `sources`.
pub fn modules(
    r: &mut Rng,
    c: &mut Ctx,
    dir: &str,
    root_file: &str,
    per: u64,
    files: &mut BTreeMap<String, String>,
    sources: &mut Vec<String>,
) {
    let path = format!("{dir}/{root_file}");
    let mut text = String::new();
    if r.chance(1, 4) {
        text.push_str("//! Crate documentation.\n#![allow(dead_code)]\n");
    }
    let n = r.range(1, per);
    text += &items(r, c, n);
    let kids = r.below(4);
    for _ in 0..kids {
        submodule(r, c, dir, dir, per, 1, &mut text, files, sources);
    }
    let n = r.range(0, per / 2);
    text += &items(r, c, n);
    files.insert(path.clone(), text);
    sources.push(path);
}

/// `sub` is where `mod x;` looks for files; `here` the directory of the current file.
#[allow(clippy::too_many_arguments)]
fn submodule(
    r: &mut Rng,
    c: &mut Ctx,
    here: &str,
    sub: &str,
    per: u64,
    depth: u32,
    text: &mut String,
    files: &mut BTreeMap<String, String>,
    sources: &mut Vec<String>,
) {
    let name = c.id("m").to_lowercase();
    let n = r.range(1, per);
    if r.chance(1, 10) {
        // a file that has nothing in it (yet)
        let _ = writeln!(text, "mod {name};");
        let path = if r.chance(1, 2) { format!("{sub}/{name}.rs") } else { format!("{sub}/{name}/mod.rs") };
        files.insert(path.clone(), r.pick(&["", "// nothing yet\n", "//! Module documentation.\n#![allow(unused)]\n", "use std::fmt;\nfn private() {}\n"]).to_string());
        sources.push(path);
        return;
    }
    if c.cfgs && r.chance(1, 8) {
        text.push_str(r.pick(&["#[cfg(unix)]\n", "#[cfg(feature = \"fa\")]\n", "#[cfg(all(unix, not(windows)))]\n"]));
    }
    match r.below(6) {
        0 => {
            let _ = writeln!(text, "pub mod {name} {{");
            *text += &items(r, c, n);
            if depth < 3 && r.chance(1, 3) {
                let s = format!("{sub}/{name}");
                // files of modules nested in inline modules live below a directory of that name
                submodule_file(r, c, &s, per, depth + 1, text, files, sources);
            }
            text.push_str("}\n");
        }
        1 => {
            let f = match r.below(5) {
                0 => format!("{name}.inc"),
                1 => format!("gen/{name}.rs.in"),
                2 => format!("with space/{name}"),
                _ => format!("weird_{name}.rs"),
            };
            let _ = writeln!(text, "#[path = \"{f}\"]\nmod {name};");
            let path = format!("{here}/{f}");
            let t = items(r, c, n);
            files.insert(path.clone(), t);
            sources.push(path);
        }
        2 | 3 => {
            let _ = writeln!(text, "mod {name};");
            let path = format!("{sub}/{name}/mod.rs");
            let mut t = items(r, c, n);
            if depth < 3 && r.chance(1, 3) {
                let d = format!("{sub}/{name}");
                submodule(r, c, &d, &d, per, depth + 1, &mut t, files, sources);
            }
            files.insert(path.clone(), t);
            sources.push(path);
        }
        _ => {
            let _ = writeln!(text, "pub mod {name};");
            let path = format!("{sub}/{name}.rs");
            let mut t = items(r, c, n);
            if depth < 3 && r.chance(1, 3) {
                let d = format!("{sub}/{name}");
                submodule_file(r, c, &d, per, depth + 1, &mut t, files, sources);
            }
            files.insert(path.clone(), t);
            sources.push(path);
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn submodule_file(
    r: &mut Rng,
    c: &mut Ctx,
    sub: &str,
    per: u64,
    _depth: u32,
    text: &mut String,
    files: &mut BTreeMap<String, String>,
    sources: &mut Vec<String>,
) {
    let name = c.id("m").to_lowercase();
    let n = r.range(1, per);
    let _ = writeln!(text, "mod {name};");
    let path = if r.chance(1, 2) {
        format!("{sub}/{name}.rs")
    } else {
        format!("{sub}/{name}/mod.rs")
    };
    let t = items(r, c, n);
    files.insert(path.clone(), t);
    sources.push(path);
}

#[derive(Clone, Copy, PartialEq)]
pub enum Lang {
    C,
    Cxx,
    Cython,
}

pub struct CfgOpt {
    pub line_endings: bool,
    pub prefix: bool,
    pub parse_deps: bool,
    pub expand: Vec<String>,
    pub clean: bool,
}
impl Default for CfgOpt {
    fn default() -> Self {
        CfgOpt {
            line_endings: true,
            prefix: true,
            parse_deps: false,
            expand: vec![],
            clean: false,
        }
    }
}

pub fn config(r: &mut Rng, o: &CfgOpt) -> String {
    let mut t = String::new();
    let lang = *r.pick(&["C", "C", "C++", "C++", "Cython"]);
    let _ = writeln!(t, "language = \"{lang}\"");
    if r.chance(1, 3) {
        let _ = writeln!(t, "header = \"/* Licence of {} */\"", r.below(100));
    }
    if r.chance(1, 4) {
        t.push_str("trailer = \"/* the end */\"\n");
    }
    if r.chance(1, 3) {
        let _ = writeln!(t, "include_guard = \"GUARD_{}_H\"", r.below(100));
    }
    if r.chance(1, 4) {
        t.push_str("autogen_warning = \"/* generated */\"\n");
    }
    if r.chance(1, 5) {
        t.push_str("include_version = true\n");
    }
    if r.chance(1, 5) {
        t.push_str("package_version = true\n");
    }
    if r.chance(1, 8) {
        t.push_str("pragma_once = true\n");
    }
    if r.chance(1, 10) {
        t.push_str("after_includes = \"#define AFTER 1\"\n");
    }
    if r.chance(1, 10) {
        t.push_str("using_namespaces = [\"u1\", \"u2\"]\n");
    }
    if r.chance(1, 8) {
        t.push_str("documentation_length = \"short\"\n");
    }
    if r.chance(1, 4) {
        t.push_str("cpp_compat = true\n");
    }
    if r.chance(1, 5) {
        t.push_str("namespace = \"ns\"\n");
    } else if r.chance(1, 8) {
        t.push_str("namespaces = [\"n1\", \"n2\"]\n");
    }
    if r.chance(1, 5) {
        t.push_str("sys_includes = [\"stdio.h\", \"math.h\"]\nincludes = [\"other.h\"]\n");
    }
    if r.chance(1, 8) {
        t.push_str("no_includes = true\n");
    }
    if r.chance(1, 4) {
        let _ = writeln!(t, "braces = \"{}\"", r.pick(&["SameLine", "NextLine"]));
    }
    if r.chance(1, 4) {
        let _ = writeln!(t, "line_length = {}", r.range(20, 120));
    }
    if r.chance(1, 4) {
        let _ = writeln!(t, "tab_width = {}", r.range(1, 8));
    }
    if r.chance(1, 5) {
        let _ = writeln!(t, "documentation = {}", r.chance(1, 2));
    }
    if r.chance(1, 5) {
        let _ = writeln!(t, "documentation_style = \"{}\"", r.pick(&["c", "c99", "c++", "doxy", "auto"]));
    }
    if o.line_endings && r.chance(1, 3) {
        let _ = writeln!(t, "line_endings = \"{}\"", r.pick(&["CR", "CRLF", "LF", "Native"]));
    }
    if r.chance(1, 3) {
        let _ = writeln!(t, "style = \"{}\"", r.pick(&["both", "tag", "type"]));
    }
    if r.chance(1, 3) {
        let _ = writeln!(t, "sort_by = \"{}\"", r.pick(&["Name", "None"]));
    }
    if r.chance(1, 4) {
        t.push_str("usize_is_size_t = true\n");
    }
    t.push_str("\n[defines]\n\"unix\" = \"D_UNIX\"\n\"windows\" = \"D_WIN\"\n\"target_os = linux\" = \"D_LINUX\"\n\"feature = fa\" = \"D_FA\"\n");
    if r.chance(1, 2) {
        t.push_str("\"feature = fb\" = \"D_FB\"\n");
    }
    // the same keys, spelled differently
    for (k, w) in [("target_os=linux", "linux"), ("target_os = \\\"linux\\\"", "linux"), ("feature=fa", "fa"), ("feature =fa", "fa"), (" unix", "unix"), ("windows ", "win")] {
        if r.chance(1, 6) {
            let _ = writeln!(t, "\"{k}\" = \"D_{}_{}\"", w.to_uppercase(), k.len());
        }
    }
    t.push_str("\n[export]\n");
    if o.prefix && r.chance(1, 4) {
        t.push_str("prefix = \"Px_\"\n");
    }
    if r.chance(1, 8) {
        t.push_str("renaming_overrides_prefixing = true\n");
    }
    if r.chance(1, 6) {
        let v: Vec<String> = (0..r.range(1, 12)).map(|_| format!("\"{}{}\"", r.pick(&["S", "E", "U", "D", "K", "O"]), r.range(1, 40))).collect();
        let _ = writeln!(t, "include = [{}]", v.join(", "));
    }
    if r.chance(1, 6) {
        t.push_str("[export.mangle]\n");
        if r.chance(2, 3) {
            t.push_str("remove_underscores = true\n");
        }
        if r.chance(1, 2) {
            t.push_str("rename_types = \"PascalCase\"\n");
        }
    }
    if r.chance(1, 5) {
        t.push_str("[export.rename]\n");
        for k in 1..r.range(3, 30) {
            // sometimes to the name of another one
            let to = if r.chance(1, 6) { format!("{}{}", r.pick(&["S", "E", "A"]), k + 1) } else { format!("Renamed{k}") };
            let _ = writeln!(t, "\"{}{k}\" = \"{to}\"", r.pick(&["S", "E", "A"]));
        }
    }
    for sect in ["pre_body", "body"] {
        if r.chance(1, 12) {
            let _ = writeln!(t, "[export.{sect}]");
            for k in 1..r.range(2, 12) {
                let _ = writeln!(t, "\"{}{k}\" = \"/* {sect} {k} */\"", r.pick(&["S", "E", "D"]));
            }
        }
    }
    t.push_str("\n[fn]\n");
    if r.chance(1, 4) {
        let _ = writeln!(t, "args = \"{}\"", r.pick(&["auto", "vertical", "horizontal"]));
    }
    if r.chance(1, 4) {
        let _ = writeln!(t, "rename_args = \"{}\"", r.pick(&["CamelCase", "PascalCase", "SnakeCase", "None"]));
    }
    if r.chance(1, 5) {
        let _ = writeln!(t, "sort_by = \"{}\"", r.pick(&["Name", "None"]));
    }
    if r.chance(1, 8) {
        t.push_str("must_use = \"MUST_USE\"\ndeprecated = \"DEPR\"\n");
    }
    if r.chance(1, 8) {
        t.push_str("deprecated_with_note = \"DEPR({})\"\nno_return = \"NO_RETURN\"\nswift_name_macro = \"SWIFT\"\n");
    }
    if r.chance(1, 6) {
        t.push_str("prefix = \"FN_BEGIN\"\npostfix = \"FN_END\"\n");
    }
    t.push_str("\n[struct]\n");
    for k in ["derive_constructor", "derive_eq", "derive_neq", "derive_lt", "derive_lte", "derive_gte", "derive_ostream", "associated_constants_in_body"] {
        if r.chance(1, 6) {
            let _ = writeln!(t, "{k} = true");
        }
    }
    if r.chance(1, 5) {
        t.push_str("rename_fields = \"GeckoCase\"\n");
    }
    if r.chance(1, 8) {
        t.push_str("rename_associated_constant = \"ScreamingSnakeCase\"\n");
    }
    if r.chance(1, 8) {
        t.push_str("deprecated = \"DEPR_S\"\ndeprecated_with_note = \"DEPR_S({})\"\n");
    }
    t.push_str("\n[enum]\n");
    for k in ["add_sentinel", "prefix_with_name", "derive_helper_methods", "derive_const_casts", "derive_mut_casts", "enum_class", "derive_tagged_enum_destructor", "derive_tagged_enum_copy_constructor", "private_default_tagged_enum_constructor"] {
        if r.chance(1, 6) {
            let _ = writeln!(t, "{k} = true");
        }
    }
    if r.chance(1, 5) {
        t.push_str("rename_variants = \"ScreamingSnakeCase\"\n");
    }
    if r.chance(1, 8) {
        t.push_str("rename_variant_name_fields = \"CamelCase\"\ncast_assert_name = \"CHECK\"\n");
    }
    if r.chance(1, 8) {
        t.push_str("deprecated = \"DEPR_E\"\ndeprecated_with_note = \"DEPR_E({})\"\ndeprecated_variant = \"DEPR_V\"\ndeprecated_variant_with_note = \"DEPR_V({})\"\n");
    }
    t.push_str("\n[const]\n");
    if r.chance(1, 4) {
        t.push_str("allow_constexpr = true\n");
    }
    if r.chance(1, 4) {
        t.push_str("allow_static_const = false\n");
    }
    if r.chance(1, 3) {
        t.push_str("\n[macro_expansion]\nbitflags = true\n");
    }
    if r.chance(1, 5) {
        t.push_str("\n[layout]\npacked = \"PACKED\"\naligned_n = \"ALIGNED\"\n");
    }
    if r.chance(1, 6) {
        t.push_str("\n[ptr]\nnon_null_attribute = \"_Nonnull\"\nnullable_attribute = \"_Nullable\"\n");
    }
    if r.chance(1, 6) {
        t.push_str("\n[cython]\nheader = '\"my_header.h\"'\n[cython.cimports]\nlibc = [\"a\", \"b\"]\nalpha = [\"z\"]\nzeta = [\"y\"]\n");
    }
    if o.parse_deps || !o.expand.is_empty() || o.clean {
        t.push_str("\n[parse]\n");
        if o.parse_deps {
            t.push_str("parse_deps = true\n");
        }
        if o.clean {
            t.push_str("clean = true\n");
        }
        if !o.expand.is_empty() {
            let _ = writeln!(t, "[parse.expand]\ncrates = {:?}", o.expand);
            match r.below(6) {
                0 | 1 => t.push_str("all_features = true\n"),
                2 => {
                    let f: Vec<&str> = ["one", "two", "dep/three"].into_iter().filter(|_| r.chance(1, 2)).collect();
                    let _ = writeln!(t, "features = {f:?}");
                }
                _ => {}
            }
            if r.chance(1, 4) {
                t.push_str("default_features = false\n");
            }
            if r.chance(1, 4) {
                t.push_str("profile = \"release\"\n");
            }
        }
    }
    t
}

pub fn lang_args(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    match r.below(6) {
        0 => v.extend(["-l".into(), "C".into()]),
        1 => v.extend(["--lang".into(), "C".into(), "--cpp-compat".into()]),
        2 => v.extend(["--lang".into(), "c++".into()]),
        3 => v.extend(["--lang".into(), "Cython".into()]),
        _ => {}
    }
    if r.chance(1, 5) {
        v.extend(["--style".into(), r.pick(&["tag", "type", "both"]).to_string()]);
    }
    if r.chance(1, 8) {
        v.push("--package-version".into());
    }
    v
}

pub const BASES: &[&str] = &["p", "proj", "my proj", "all of my proj", "pr\u{f8}j", "a/b/c", "w.s-1"];

/// A single-source project with a module tree.
pub fn src_project(r: &mut Rng, per: u64) -> Project {
    src_project_in(r, per, None)
}
pub fn src_project_in(r: &mut Rng, per: u64, base: Option<&str>) -> Project {
    let base = base.map(|s| s.to_string()).unwrap_or_else(|| r.pick(BASES).to_string());
    let mut p = Project {
        name: "src".into(),
        ..Project::default()
    };
    let mut c = Ctx::new("");
    c.cfgs = r.chance(1, 2);
    let mut sources = vec![];
    modules(r, &mut c, &format!("{base}/src"), "lib.rs", per, &mut p.files, &mut sources);
    p.sources = sources;
    p.symbols = Some(c.symbols);
    p.input = format!("@ROOT@/{base}/src/lib.rs");
    match r.below(4) {
        0 => {}
        1 => {
            // found next to the input
            p.files.insert(format!("{base}/src/cbindgen.toml"), config(r, &CfgOpt::default()));
            p.config = Some(format!("{base}/src/cbindgen.toml"));
        }
        _ => {
            let f = format!("{base}/{}", r.pick(&["conf.toml", "my conf.toml", "cbindgen.toml"]));
            p.files.insert(f.clone(), config(r, &CfgOpt::default()));
            p.args.extend(["--config".into(), format!("@ROOT@/{f}")]);
            p.config = Some(f);
        }
    }
    p.args.extend(lang_args(r));
    p
}

// ---------------------------------------------------------------------------- cargo workspaces

#[derive(Clone, Debug)]
pub struct Pkg {
    pub name: String,
    pub version: String,
    pub source: Option<String>,
    pub dir: String,
    /// (index of package, target cfg)
    pub deps: Vec<(usize, Option<String>)>,
    pub lib_kind: &'static str,
    pub has_lib: bool,
    /// where the library is
    pub lib_path: &'static str,
    /// bit 0: other targets listed before the library, bit 1: after it, bit 2: the library has another name
    pub extra: u8,
}

pub fn metadata_json(pkgs: &[Pkg], order: &[usize], ws_root: &str) -> String {
    let mut list = vec![];
    for &i in order {
        let p = &pkgs[i];
        let deps: Vec<serde_json::Value> = p
            .deps
            .iter()
            .map(|(d, t)| {
                serde_json::json!({
                    "name": pkgs[*d].name, "source": pkgs[*d].source, "req": format!("^{}", pkgs[*d].version),
                    "kind": null, "rename": null, "optional": false, "uses_default_features": true,
                    "features": [], "target": t, "registry": null
                })
            })
            .collect();
        let mut targets = vec![];
        let other = |k: &str, f: &str| serde_json::json!({
            "kind": [k], "crate_types": ["bin"], "name": format!("a_{k}"),
            "src_path": format!("{}/{f}", abs_or(&p.dir)), "edition": "2021", "doc": false, "doctest": false, "test": true
        });
        if p.extra & 1 != 0 {
            targets.extend([other("bin", "src/main.rs"), other("example", "examples/lib.rs")]);
        }
        if p.has_lib {
            let kinds: Vec<&str> = p.lib_kind.split('+').collect();
            let name = if p.extra & 4 != 0 { "the_library".to_string() } else { p.name.replace('-', "_") };
            targets.push(serde_json::json!({
                "kind": kinds, "crate_types": kinds, "name": name,
                "src_path": format!("{}/{}", abs_or(&p.dir), p.lib_path), "edition": "2021", "doc": true, "doctest": true, "test": true
            }));
        }
        if p.extra & 2 != 0 {
            targets.extend([other("test", "tests/t.rs"), other("bench", "benches/b.rs")]);
        }
        targets.insert(0, serde_json::json!({
            "kind": ["custom-build"], "crate_types": ["bin"], "name": "build-script-build",
            "src_path": format!("{}/build.rs", abs_or(&p.dir)), "edition": "2021", "doc": false, "doctest": false, "test": false
        }));
        list.push(serde_json::json!({
            "name": p.name, "version": p.version,
            "id": format!("{}#{}@{}", p.source.clone().unwrap_or_else(|| format!("path+file://{}", abs_or(&p.dir))), p.name, p.version),
            "license": null, "source": p.source, "dependencies": deps, "targets": targets, "features": {},
            "manifest_path": format!("{}/Cargo.toml", abs_or(&p.dir)), "edition": "2021"
        }));
    }
    serde_json::json!({
        "packages": list, "workspace_members": [], "resolve": null,
        "target_directory": format!("{}/target", abs_or(ws_root)), "version": 1,
        "workspace_root": abs_or(ws_root), "metadata": null
    })
    .to_string()
}

pub fn lock_text(pkgs: &[Pkg], order: &[usize]) -> String {
    let mut t = String::from("# This file is automatically @generated by Cargo.\nversion = 4\n");
    for &i in order {
        let p = &pkgs[i];
        let _ = write!(t, "\n[[package]]\nname = \"{}\"\nversion = \"{}\"\n", p.name, p.version);
        if let Some(s) = &p.source {
            let _ = writeln!(t, "source = \"{s}\"");
        }
        if !p.deps.is_empty() {
            t.push_str("dependencies = [\n");
            for (d, _) in &p.deps {
                let d = &pkgs[*d];
                let same: Vec<&Pkg> = pkgs.iter().filter(|q| q.name == d.name).collect();
                if same.len() == 1 {
                    let _ = writeln!(t, " \"{}\",", d.name);
                } else if same.iter().filter(|q| q.version == d.version).count() == 1 {
                    let _ = writeln!(t, " \"{} {}\",", d.name, d.version);
                } else {
                    let _ = writeln!(t, " \"{} {} ({})\",", d.name, d.version, d.source.clone().unwrap_or_default());
                }
            }
            t.push_str("]\n");
        }
    }
    t
}

pub const REGISTRY: &str = "registry+https://github.com/rust-lang/crates.io-index";

pub struct Ws {
    pub pkgs: Vec<Pkg>,
    pub order: Vec<usize>,
    pub ws_root: String,
    pub base: String,
    /// packages whose types are reachable from the binding crate's functions
    pub marker: Vec<String>,
}

/// A workspace: package 0 is the crate to bind.  Every package defines a marker type that the
/// binding crate uses, so the header tells which packages were read.
pub fn workspace(r: &mut Rng, per: u64, deps: bool, expand: &[&str], clean: bool) -> (Project, Ws) {
    let base = r.pick(BASES).to_string();
    let mut p = Project {
        name: "crate".into(),
        ..Project::default()
    };
    let virt = r.chance(1, 2);
    let ws_root = base.clone();
    let root_dir = if virt { format!("{base}/crates/app") } else { base.clone() };
    let mut pkgs = vec![Pkg {
        name: r.pick(&["app", "my-app", "ffi_lib"]).to_string(),
        version: format!("{}.{}.0", r.below(3), r.below(10)),
        source: None,
        dir: root_dir.clone(),
        deps: vec![],
        lib_kind: r.pick(&["lib", "staticlib", "cdylib", "rlib", "dylib", "cdylib+rlib"]),
        has_lib: true,
        lib_path: "src/lib.rs",
        extra: r.below(8) as u8,
    }];
    let nd = if deps { r.range(1, 5) as usize } else { r.below(3) as usize };
    for k in 1..=nd {
        let local = r.chance(1, 2);
        let name = format!("dep{}{}", *r.pick(&["-", "_", ""]), (b'a' + k as u8) as char);
        let version = format!("{}.{}.{}", r.below(3), r.below(10), r.below(10));
        pkgs.push(Pkg {
            dir: if local { format!("{base}/crates/{name}") } else { format!("registry/{name}-{version}") },
            name,
            version,
            source: if local { None } else { Some(REGISTRY.into()) },
            deps: vec![],
            lib_kind: "lib",
            has_lib: true,
            lib_path: "src/lib.rs",
            extra: r.below(8) as u8,
        });
    }
    // dependency edges: a connected graph from the root, now and then a cycle
    for k in 1..=nd {
        let from = r.us(k);
        let t = if r.chance(1, 6) { Some("cfg(unix)".to_string()) } else { None };
        pkgs[from].deps.push((k, t));
    }
    for _ in 0..r.below(3) {
        if nd >= 2 {
            let a = r.us(nd + 1);
            let b = 1 + r.us(nd);
            if a != b && !pkgs[a].deps.iter().any(|d| d.0 == b) {
                pkgs[a].deps.push((b, None));
            }
        }
    }
    let mut order: Vec<usize> = (0..pkgs.len()).collect();
    order.sort_by(|a, b| (&pkgs[*a].name, &pkgs[*a].version).cmp(&(&pkgs[*b].name, &pkgs[*b].version)));
    // sources
    let mut c = Ctx::new("");
    let mut marker = vec![];
    let mut symbols = vec![];
    for k in (0..pkgs.len()).rev() {
        let q = pkgs[k].clone();
        let mut cc = Ctx::new(&format!("p{k}_"));
        cc.cfgs = false;
        let m = format!("Marker_p{k}");
        let mut files = BTreeMap::new();
        let mut srcs = vec![];
        let n = if k == 0 { per } else { per / 2 + 1 };
        modules(r, &mut cc, &format!("{}/src", q.dir), "lib.rs", n, &mut files, &mut srcs);
        let lib = files.get_mut(&format!("{}/src/lib.rs", q.dir)).unwrap();
        let _ = writeln!(lib, "#[repr(C)]\npub struct {m} {{ pub version_{}: u32 }}", q.version.replace('.', "_"));
        if k == 0 {
            for j in 0..pkgs.len() {
                let _ = writeln!(lib, "#[no_mangle]\npub extern \"C\" fn use_marker_{j}(m: Marker_p{j}) {{}}");
                cc.symbols.push(format!("use_marker_{j}"));
            }
            symbols = cc.symbols.clone();
        }
        marker.insert(0, m);
        p.files.append(&mut files);
        p.sources.append(&mut srcs);
        let mut man = format!("[package]\nname = \"{}\"\nversion = \"{}\"\n\n[dependencies]\n", q.name, q.version);
        for (d, _) in &q.deps {
            let _ = writeln!(man, "{} = \"{}\"", pkgs[*d].name, pkgs[*d].version);
        }
        p.files.insert(format!("{}/Cargo.toml", q.dir), man);
        c.uid += cc.uid;
    }
    p.symbols = Some(symbols);
    if virt {
        p.files.insert(format!("{base}/Cargo.toml"), "[workspace]\nmembers = [\"crates/*\"]\n".into());
    }
    p.files.insert(format!("{base}/Cargo.lock"), lock_text(&pkgs, &order));
    p.metadata = Some(metadata_json(&pkgs, &order, &ws_root));
    p.input = format!("@ROOT@/{root_dir}");
    let co = CfgOpt {
        parse_deps: deps,
        expand: expand
            .iter()
            .flat_map(|s| match *s {
                "@root" => vec![pkgs[0].name.clone()],
                "@deps" => pkgs[1..].iter().map(|q| q.name.clone()).collect(),
                s => vec![s.to_string()],
            })
            .collect(),
        clean,
        ..CfgOpt::default()
    };
    let implicit = r.chance(1, 2);
    let f = if implicit { format!("{root_dir}/cbindgen.toml") } else { format!("{base}/conf/bind.toml") };
    p.files.insert(f.clone(), config(r, &co));
    if !implicit {
        p.args.extend(["-c".into(), format!("@ROOT@/{f}")]);
    }
    p.config = Some(f);
    p.args.extend(lang_args(r));
    for e in &co.expand {
        // the "expansion" is the crate's root file with its modules folded in
        let k = pkgs.iter().position(|q| q.name == *e).unwrap_or(0);
        let mut ec = Ctx::new(&format!("x{k}_"));
        ec.cfgs = false;
        let mut t = items(r, &mut ec, per);
        let _ = writeln!(t, "#[repr(C)]\npub struct Marker_p{k} {{ pub version_{}: u32 }}", pkgs[k].version.replace('.', "_"));
        if k == 0 {
            for j in 0..pkgs.len() {
                let _ = writeln!(t, "#[no_mangle]\npub extern \"C\" fn use_marker_{j}(m: Marker_p{j}) {{}}");
            }
            p.symbols = None;
        }
        let _ = writeln!(t, "#[no_mangle]\npub extern \"C\" fn expanded_last_{k}() {{}}");
        p.expand.insert(e.clone(), t);
    }
    if !deps {
        // only the binding crate is read
        p.sources.retain(|s| s.starts_with(&format!("{root_dir}/src/")));
    }
    let ws = Ws {
        pkgs,
        order,
        ws_root,
        base,
        marker,
    };
    (p, ws)
}

// ---------------------------------------------------------------------------- the upstream corpus

pub struct Corpus {
    pub cases: Vec<(String, String, Option<String>)>,
}
impl Corpus {
    pub fn load(dir: &std::path::Path) -> R<Corpus> {
        let mut names: Vec<String> = std::fs::read_dir(dir)?
            .filter_map(|e| e.ok())
            .map(|e| e.file_name().to_string_lossy().into_owned())
            .filter(|n| n.ends_with(".rs"))
            .collect();
        names.sort();
        let mut cases = vec![];
        for n in names {
            let s = std::fs::read_to_string(dir.join(&n))?;
            let t = std::fs::read_to_string(dir.join(n.trim_end_matches(".rs").to_string() + ".toml")).ok();
            cases.push((n, s, t));
        }
        Ok(Corpus { cases })
    }
    pub fn project(&self, r: &mut Rng, k: usize) -> Project {
        let (n, s, t) = &self.cases[k % self.cases.len()];
        let base = r.pick(BASES).to_string();
        let mut p = Project {
            name: n.clone(),
            ..Project::default()
        };
        p.files.insert(format!("{base}/{n}"), s.clone());
        p.sources = vec![format!("{base}/{n}")];
        p.input = format!("@ROOT@/{base}/{n}");
        if let Some(t) = t {
            let f = format!("{base}/{}.toml", n.trim_end_matches(".rs"));
            p.files.insert(f.clone(), t.clone());
            p.args.extend(["--config".into(), format!("@ROOT@/{f}")]);
            p.config = Some(f);
        }
        p.args.extend(lang_args(r));
        p
    }
}

/// Settings that leave items out (so the symbols are no longer known here).
fn filtered(r: &mut Rng, p: &mut Project) {
    let Some(f) = p.config.clone() else { return };
    let t = p.files.get_mut(&f).unwrap();
    if !t.contains("\n[export]\n") || t.contains("item_types") {
        return;
    }
    let mut x = String::from("\n[export]\n");
    if r.chance(1, 2) {
        let v = r.pick(&["[\"functions\", \"structs\", \"enums\"]", "[\"constants\", \"globals\", \"functions\", \"opaque\", \"typedefs\", \"structs\", \"unions\"]", "[\"functions\", \"globals\"]"]);
        let _ = writeln!(x, "item_types = {v}");
    }
    if r.chance(1, 2) {
        let v: Vec<String> = (0..r.range(1, 12)).map(|_| format!("\"{}{}\"", r.pick(&["fn_", "CONST_", "S", "E", "STATIC_"]), r.range(1, 40))).collect();
        let _ = writeln!(x, "exclude = [{}]", v.join(", "));
    }
    *t = t.replacen("\n[export]\n", &x, 1);
    p.symbols = None;
}
pub fn any_project(r: &mut Rng, corpus: &Corpus, per: u64) -> Project {
    let mut p = any_project_(r, corpus, per);
    if r.chance(1, 10) {
        filtered(r, &mut p);
    }
    p
}
/// Much of everything: modules (nested or side by side), symbols, long names; outputs outgrow buffers.
pub fn huge(r: &mut Rng) -> Project {
    let d = r.pick(BASES).to_string();
    let mut p = Project { name: "src".into(), ..Project::default() };
    let mut symbols = vec![];
    let long = *r.pick(&[1usize, 30, 60]);
    let mut f = |k: u64| {
        let n = format!("bulk_{}{k}", "and_more_".repeat(long / 9));
        symbols.push(n.clone());
        format!("#[no_mangle]\npub extern \"C\" fn {n}() {{}}\n")
    };
    let mut root = String::new();
    let (mods, fns) = match r.below(3) {
        0 => (r.range(60, 90), r.range(1, 3)),
        1 => (0, r.range(100, 500)),
        _ => (r.range(5, 40), r.range(5, 20)),
    };
    let mut k = 0;
    let chain = r.chance(1, 2);
    let mut dir = d.clone();
    for i in 0..mods {
        let path = format!("{dir}/m{i}.rs");
        let mut t = String::new();
        for _ in 0..fns {
            t += &f(k);
            k += 1;
        }
        if chain {
            if i + 1 < mods {
                t += &format!("pub mod m{};\n", i + 1);
            }
            dir = format!("{dir}/m{i}");
        } else {
            root += &format!("mod m{i};\n");
        }
        p.files.insert(path.clone(), t);
        p.sources.push(path);
    }
    if chain && mods > 0 {
        root += "mod m0;\n";
    }
    for _ in 0..fns {
        root += &f(k);
        k += 1;
    }
    p.files.insert(format!("{d}/lib.rs"), root);
    p.sources.push(format!("{d}/lib.rs"));
    p.files.insert(format!("{d}/c.toml"), "language = \"C\"\n".into());
    p.config = Some(format!("{d}/c.toml"));
    p.args = vec!["--config".into(), format!("@ROOT@/{d}/c.toml")];
    p.input = format!("@ROOT@/{d}/lib.rs");
    p.symbols = Some(symbols);
    p
}
/// Any kind of project.
fn any_project_(r: &mut Rng, corpus: &Corpus, per: u64) -> Project {
    if r.chance(1, 50) {
        return huge(r);
    }
    match r.below(10) {
        0 | 1 | 2 => {
            let k = r.us(corpus.cases.len());
            corpus.project(r, k)
        }
        3 | 4 | 5 | 6 => src_project(r, per),
        7 | 8 => {
            let d = r.chance(1, 2);
            workspace(r, per, d, &[], false).0
        }
        _ => {
            let d = r.chance(1, 2);
            workspace(r, per, d, &["@root"], false).0
        }
    }
}
