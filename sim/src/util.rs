use crate::engine::*;
use std::path::Path;

pub fn known_findings(verif: &Path, id: &str) -> Vec<String> {
    let t = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix(&format!("finding: property={id} ")).map(|s| s.to_string()))
        .collect()
}

/// First difference of two byte strings, for messages.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    let s = k.saturating_sub(30);
    let f = |v: &[u8]| String::from_utf8_lossy(&v[s.min(v.len())..(k + 60).min(v.len())]).into_owned();
    format!("lengths {} and {}, first difference at byte {k}: {:?} / {:?}", a.len(), b.len(), f(a), f(b))
}

/// What differs between two snapshots, ignoring the given paths (and what lies below them when
/// they end in '/').
pub fn changes(a: &Snap, b: &Snap, strict: bool) -> Vec<(String, &'static str)> {
    let mut v = vec![];
    for (p, n) in a {
        match b.get(p) {
            None => v.push((p.clone(), "removed")),
            Some(m) => match (n, m) {
                (
                    Node::File { data: d1, mode: m1, mtime: t1, ino: i1 },
                    Node::File { data: d2, mode: m2, mtime: t2, ino: i2 },
                ) => {
                    if d1 != d2 {
                        v.push((p.clone(), "content changed"));
                    } else if m1 != m2 {
                        v.push((p.clone(), "mode changed"));
                    } else if strict && i1 != i2 {
                        v.push((p.clone(), "replaced"));
                    } else if strict && t1 != t2 {
                        v.push((p.clone(), "touched"));
                    }
                }
                (x, y) if x != y => v.push((p.clone(), "kind changed")),
                _ => {}
            },
        }
    }
    for p in b.keys() {
        if !a.contains_key(p) {
            v.push((p.clone(), "created"));
        }
    }
    v
}

/// Shrink a list: halves, then single removals.
pub fn shrink_vec<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut out = vec![];
    let n = v.len();
    if n == 0 {
        return out;
    }
    if n > 1 {
        let mut size = n / 2;
        // pieces of a long one get smaller as it shrinks
        while size >= 1 && n / size <= 64 {
            let mut s = 0;
            while s < n {
                let e = (s + size).min(n);
                let mut c = v[..s].to_vec();
                c.extend_from_slice(&v[e..]);
                out.push(c);
                s = e;
            }
            size /= 2;
        }
    } else {
        out.push(vec![]);
    }
    out
}

/// Simplify a project's sources: drop chunks of items.
pub fn shrink_project(p: &crate::gen::Project) -> Vec<crate::gen::Project> {
    let mut out = vec![];
    for (f, t) in &p.files {
        if f.ends_with(".rs") && t.len() > 40 {
            let blocks = split_items(t);
            if blocks.len() > 1 {
                let mut parts = shrink_vec(&blocks);
                parts.truncate(12);
                for b in parts {
                    let mut q = p.clone();
                    q.files.insert(f.clone(), b.concat());
                    q.symbols = None;
                    q.sources = vec![];
                    out.push(q);
                }
            }
        }
    }
    out
}
/// Top-level items of generated text (each ends at a line that is "}" or ends with ";" or "}" at column 0).
fn split_items(t: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    let mut depth = 0i32;
    for l in t.split_inclusive('\n') {
        cur.push_str(l);
        depth += l.matches('{').count() as i32 - l.matches('}').count() as i32;
        let tr = l.trim_end();
        if depth <= 0 && (tr.ends_with('}') || tr.ends_with(';')) && !tr.trim_start().starts_with("//") {
            v.push(std::mem::take(&mut cur));
            depth = 0;
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}
