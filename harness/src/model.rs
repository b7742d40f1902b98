//! Reference model: documents, their mappings and what queries must answer.
use crate::urlref;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn vlq(x: i64) -> String {
    let mut v: u64 = if x < 0 { (((-x) as u64) << 1) | 1 } else { (x as u64) << 1 };
    let mut s = String::new();
    loop {
        let d = (v % 32) as usize;
        v /= 32;
        if v > 0 {
            s.push(B64[d + 32] as char);
        } else {
            s.push(B64[d] as char);
            return s;
        }
    }
}

pub fn unvlq(s: &[u8], i: &mut usize) -> Result<i64, String> {
    let (mut v, mut sh) = (0i64, 0u32);
    loop {
        let c = *s.get(*i).ok_or("truncated VLQ")?;
        let d = B64.iter().position(|&b| b == c).ok_or(format!("not a digit: {}", c as char))? as i64;
        *i += 1;
        if sh > 50 {
            return Err("VLQ too long".into());
        }
        v += (d % 32) << sh;
        sh += 5;
        if d < 32 {
            return Ok(if v % 2 == 1 { -(v / 2) } else { v / 2 });
        }
    }
}

/// a mapping as a generator user states it (1-based lines)
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub struct M {
    pub gl: i32,
    pub gc: i32,
    pub orig: Option<(i32, i32)>,
    pub src: Option<String>,
    pub name: Option<String>,
}

impl M {
    pub fn valid(&self) -> bool {
        self.gl >= 1
            && self.gc >= 0
            && match (&self.orig, &self.src) {
                (None, None) => self.name.is_none(),
                (Some((l, c)), Some(_)) => *l >= 1 && *c >= 0,
                _ => false,
            }
    }
    pub fn real(&self) -> rusty_source_map::mapping::Mapping {
        use rusty_source_map::source_map::Position;
        rusty_source_map::mapping::Mapping {
            generated: Position { line: self.gl, column: self.gc },
            original: self.orig.map(|(line, column)| Position { line, column }),
            source: self.src.clone(),
            name: self.name.clone(),
            last_generated_column: None,
        }
    }
    pub fn of(m: &rusty_source_map::mapping::Mapping) -> M {
        M {
            gl: m.generated.line,
            gc: m.generated.column,
            orig: m.original.as_ref().map(|p| (p.line, p.column)),
            src: m.source.clone(),
            name: m.name.clone(),
        }
    }
}

fn opt_cmp(a: &Option<String>, b: &Option<String>) -> i32 {
    match (a, b) {
        (None, None) => 0,
        (None, _) => 1,
        (_, None) => -1,
        (Some(a), Some(b)) => match a.as_bytes().cmp(b.as_bytes()) {
            std::cmp::Ordering::Less => -1,
            std::cmp::Ordering::Equal => 0,
            _ => 1,
        },
    }
}
pub fn str_cmp(a: &Option<String>, b: &Option<String>) -> i32 {
    opt_cmp(a, b)
}
pub fn m_cmp(a: &M, b: &M) -> i32 {
    let s = |x: i64| x.signum() as i32;
    let parts = [
        s(a.gl as i64 - b.gl as i64),
        s(a.gc as i64 - b.gc as i64),
        opt_cmp(&a.src, &b.src),
        match (a.orig, b.orig) {
            (Some(p), Some(q)) => s(p.0 as i64 - q.0 as i64),
            _ => 0,
        },
        match (a.orig, b.orig) {
            (Some(p), Some(q)) => s(p.1 as i64 - q.1 as i64),
            _ => 0,
        },
        opt_cmp(&a.name, &b.name),
    ];
    parts.iter().copied().find(|&x| x != 0).unwrap_or(0)
}

/// decode a "mappings" string: (line0, col, Some((src, ol0, oc, name)))
pub type Seg = (i64, i64, Option<(i64, i64, i64, Option<i64>)>);
pub fn decode(s: &str) -> Result<Vec<Seg>, String> {
    let mut out = vec![];
    let (mut src, mut ol, mut oc, mut nm) = (0i64, 0i64, 0i64, 0i64);
    for (line, l) in s.split(';').enumerate() {
        let mut gc = 0i64;
        if l.is_empty() {
            continue;
        }
        for seg in l.split(',') {
            let b = seg.as_bytes();
            let (mut i, mut f) = (0usize, vec![]);
            while i < b.len() {
                f.push(unvlq(b, &mut i)?);
            }
            match f.len() {
                1 | 4 | 5 => {}
                n => return Err(format!("segment {:?} has {} fields", seg, n)),
            }
            gc += f[0];
            let o = if f.len() >= 4 {
                src += f[1];
                ol += f[2];
                oc += f[3];
                let n = if f.len() == 5 {
                    nm += f[4];
                    Some(nm)
                } else {
                    None
                };
                Some((src, ol, oc, n))
            } else {
                None
            };
            out.push((line as i64, gc, o));
        }
    }
    Ok(out)
}

/// a document without sections; segs sorted by (line, col), lines 0-based
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Doc {
    pub sources: Vec<String>,
    pub names: Vec<String>,
    pub root: Option<String>,
    pub contents: Option<Vec<Option<String>>>,
    pub segs: Vec<(i32, i32, Option<(usize, i32, i32, Option<usize>)>)>,
    pub broken: bool,
    pub version: i32,
}

/// the `file` member plays no part in any answer; it varies with the document
fn some_file(n: usize) -> Option<&'static str> {
    [Some("out.js"), Some("dist/out.js"), None, Some("http://h.com/d/out.js"), Some("/maps/out.js"), Some("a.js")][n % 6]
}

impl Doc {
    pub fn mappings(&self) -> String {
        let mut s = String::new();
        let (mut line, mut gc, mut src, mut ol, mut oc, mut nm) = (0i32, 0i64, 0i64, 0i64, 0i64, 0i64);
        let mut first = true;
        for (l, c, o) in &self.segs {
            while line < *l {
                s.push(';');
                line += 1;
                gc = 0;
                first = true;
            }
            if !first {
                s.push(',');
            }
            first = false;
            s.push_str(&vlq(*c as i64 - gc));
            gc = *c as i64;
            if let Some((a, b, d, n)) = o {
                s.push_str(&vlq(*a as i64 - src));
                src = *a as i64;
                s.push_str(&vlq(*b as i64 - ol));
                ol = *b as i64;
                s.push_str(&vlq(*d as i64 - oc));
                oc = *d as i64;
                if let Some(n) = n {
                    s.push_str(&vlq(*n as i64 - nm));
                    nm = *n as i64;
                }
            }
        }
        if self.broken {
            s.push_str("%%");
        }
        s
    }
    pub fn json(&self) -> serde_json::Value {
        let mut v = serde_json::json!({"version": self.version, "sources": self.sources, "names": self.names, "mappings": self.mappings()});
        if let Some(f) = some_file(self.sources.len() + 7 * self.segs.len() + self.names.len()) {
            v["file"] = serde_json::json!(f);
        }
        if let Some(r) = &self.root {
            v["sourceRoot"] = serde_json::json!(r);
        }
        if let Some(c) = &self.contents {
            v["sourcesContent"] = serde_json::json!(c);
        }
        v
    }
    pub fn abs(&self, url: Option<&str>) -> Vec<String> {
        self.sources.iter().map(|s| urlref::compute_source_url(self.root.as_deref(), s, url)).collect()
    }
    pub fn resolve(&self, url: Option<&str>, name: &str) -> Option<usize> {
        let abs = self.abs(url);
        let a = urlref::compute_source_url(None, name, url);
        if let Some(i) = abs.iter().position(|x| *x == a) {
            return Some(i);
        }
        let b = urlref::compute_source_url(self.root.as_deref(), name, url);
        abs.iter().position(|x| *x == b)
    }
    /// fully rendered answer for mapping k, 1-based lines, whole-file shift applied by the caller
    pub fn render(&self, url: Option<&str>, k: usize) -> M {
        let (l, c, o) = &self.segs[k];
        let abs = self.abs(url);
        M {
            gl: l + 1,
            gc: *c,
            orig: o.map(|(_, ol, oc, _)| (ol + 1, oc)),
            src: o.map(|(s, ..)| abs[s].clone()),
            name: o.and_then(|(.., n)| n.map(|n| self.names[n].clone())),
        }
    }
    /// candidate indices for an original_position_for query: Ok(None) = must answer None,
    /// otherwise the answer is the rendering of any of these
    pub fn orig_for(&self, line: i32, col: i32, lub: bool) -> Vec<usize> {
        let on: Vec<usize> = (0..self.segs.len()).filter(|&k| self.segs[k].0 as i64 == line as i64 - 1).collect();
        let at = |c: i32| on.iter().copied().filter(|&k| self.segs[k].1 == c).collect::<Vec<_>>();
        let e = at(col);
        if !e.is_empty() {
            return e;
        }
        let b = if lub {
            on.iter().map(|&k| self.segs[k].1).filter(|&c| c > col).min()
        } else {
            on.iter().map(|&k| self.segs[k].1).filter(|&c| c < col).max()
        };
        b.map_or(vec![], at)
    }
    pub fn gen_for(&self, s: usize, line: i32, col: i32, lub: bool) -> Vec<usize> {
        let of: Vec<(usize, (i32, i32))> = (0..self.segs.len())
            .filter_map(|k| self.segs[k].2.and_then(|(ss, l, c, _)| if ss == s { Some((k, (l, c))) } else { None }))
            .collect();
        let at = |p: (i32, i32)| of.iter().filter(|x| x.1 == p).map(|x| x.0).collect::<Vec<_>>();
        let q = (line - 1, col);
        let e = at(q);
        if !e.is_empty() {
            return e;
        }
        let b = if lub { of.iter().map(|x| x.1).filter(|p| *p > q).min() } else { of.iter().map(|x| x.1).filter(|p| *p < q).max() };
        b.map_or(vec![], at)
    }
    pub fn all_for(&self, s: usize, line: i32, col: Option<i32>) -> Vec<usize> {
        let of: Vec<(usize, (i32, i32))> = (0..self.segs.len())
            .filter_map(|k| self.segs[k].2.and_then(|(ss, l, c, _)| if ss == s { Some((k, (l, c))) } else { None }))
            .collect();
        let line = line - 1;
        match col {
            Some(c) => {
                let best = of.iter().map(|x| x.1).filter(|p| p.0 == line && p.1 >= c).min();
                of.iter().filter(|x| Some(x.1) == best).map(|x| x.0).collect()
            }
            None => {
                let best = of.iter().map(|x| x.1 .0).filter(|l| *l >= line).min();
                of.iter().filter(|x| Some(x.1 .0) == best).map(|x| x.0).collect()
            }
        }
    }
    pub fn has_all(&self) -> bool {
        match &self.contents {
            Some(c) => c.len() >= self.sources.len() && c.iter().all(|x| x.is_some()),
            None => false,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sect {
    pub line: i32,
    pub col: i32,
    pub url: Option<String>,
    pub doc: Doc,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IxDoc {
    pub version: i32,
    pub sections: Vec<Sect>,
}
impl IxDoc {
    pub fn json(&self) -> serde_json::Value {
        let s: Vec<_> = self
            .sections
            .iter()
            .map(|s| {
                let mut v = serde_json::json!({"offset": {"line": s.line, "column": s.col}, "map": s.doc.json()});
                if let Some(u) = &s.url {
                    v["url"] = serde_json::json!(u);
                }
                v
            })
            .collect();
        serde_json::json!({"version": self.version, "file": "all.js", "sections": s})
    }
    pub fn acceptable(&self) -> bool {
        self.version == 3
            && self.sections.iter().all(|s| s.url.is_none())
            && self.sections.windows(2).all(|w| (w[0].line, w[0].col) <= (w[1].line, w[1].col))
    }
    pub fn shift(&self, i: usize, mut m: M) -> M {
        let s = &self.sections[i];
        if m.gl == 1 {
            m.gc += s.col;
        }
        m.gl += s.line;
        m
    }
}

pub fn count<T: Ord + Clone>(v: &[T]) -> BTreeMap<T, usize> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(x.clone()).or_insert(0) += 1;
    }
    m
}
