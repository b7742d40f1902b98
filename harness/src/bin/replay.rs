//! Executable form of the properties over the public API of the real crate.
//!   replay search <prop> <seed> <seconds> <max-cases> <literals.json>   look for a failing case
//!   replay run <file.json>                                             re-run one case
//! Output of search: one JSON line {evaluated, distinct, samples, found: null | {case, message}}.
//! This is the bounded part of a check: it looks for a concrete failing input
//! when an obligation fails, and samples the functions whose contracts are
//! assumed.  It never counts as proof.
use rusty_source_map::consumer::*;
use rusty_source_map::source_map::{Position, SourceMapJson};
use rusty_source_map::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use source_map_mappings::Bias;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering as AO};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vharness::jdoc::{self, JDoc, Raw};
use vharness::model::*;
use vharness::urlmodel::{self, Auth, Cls, Ref};
use vharness::urlref;

// ------------------------------------------------------------------ random input

#[derive(Default)]
struct Lits {
    ints: Vec<i64>,
    strs: Vec<String>,
    new_ints: Vec<i64>,
    new_strs: Vec<String>,
}
struct Rng<'a> {
    s: u64,
    l: &'a Lits,
}
impl<'a> Rng<'a> {
    fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    fn p(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        &v[self.below(v.len() as u64) as usize]
    }
    fn lit_int(&mut self) -> Option<i64> {
        let v = if !self.l.new_ints.is_empty() && self.p(2, 3) { &self.l.new_ints } else { &self.l.ints };
        if v.is_empty() {
            return None;
        }
        let i = self.below(v.len() as u64) as usize;
        let d = self.below(5) as i64 - 2;
        Some(v[i] + d)
    }
    /// an integer in lo..=hi, mostly small, sometimes a literal of the code, a power of two or anything
    fn int(&mut self, lo: i64, hi: i64) -> i32 {
        let hot = if self.l.new_ints.is_empty() { 8 } else { 25 };
        let r = self.below(100);
        let v = if r < hot {
            self.lit_int().unwrap_or(0)
        } else if r < hot + 6 {
            let p = 1i64 << self.below(32);
            let v = p + self.below(3) as i64 - 1;
            if lo < 0 && self.p(1, 2) {
                -v
            } else {
                v
            }
        } else if r < hot + 8 {
            lo + (self.next() % ((hi - lo + 1) as u64)) as i64
        } else if r < hot + 18 {
            self.below(40) as i64
        } else {
            lo.max(-2) + self.below(6) as i64
        };
        if v < lo || v > hi {
            (lo.max(0) + self.below(4) as i64).min(hi) as i32
        } else {
            v as i32
        }
    }
    /// a size: mostly small, sometimes as large as a literal of the code
    fn size(&mut self, small: u64, cap: u64) -> usize {
        let hot = if self.l.new_ints.is_empty() { 2 } else { 8 };
        let r = self.below(100);
        if r < hot {
            if let Some(v) = self.lit_int() {
                if v >= 0 && (v as u64) <= cap {
                    return v as usize + self.below(3) as usize;
                }
            }
        } else if r < hot + 3 {
            return self.below(cap.min(40 * small) + 1) as usize;
        }
        self.below(small + 1) as usize
    }
    fn lit_str(&mut self) -> Option<String> {
        let v = if !self.l.new_strs.is_empty() && self.p(2, 3) { &self.l.new_strs } else { &self.l.strs };
        if v.is_empty() {
            None
        } else {
            Some(v[self.below(v.len() as u64) as usize].clone())
        }
    }
    fn name(&mut self) -> String {
        const P: &[&str] = &["a", "b", "c", "foo", "bar", "", "a.js", "é", "日本", "A", "aa", "ab", "\u{1F600}", "a b", "0", "x1"];
        let hot = if self.l.new_strs.is_empty() { 3 } else { 20 };
        if self.p(hot, 100) {
            if let Some(s) = self.lit_str() {
                if self.p(1, 4) {
                    return format!("{}{}", s, self.pick(P));
                }
                return s;
            }
        }
        if self.p(6, 100) {
            let k = self.below(500);
            return format!("n{}", k);
        }
        if self.p(2, 100) {
            let n = self.below(30) + 1;
            return (0..n).map(|_| (b'a' + self.below(26) as u8) as char).collect();
        }
        self.pick(P).to_string()
    }
    fn source(&mut self) -> String {
        const P: &[&str] = &[
            "a.js", "b.js", "c.js", "lib/a.js", "lib/b.js", "../a.js", "/abs/a.js", "/abs/b.js", "http://h.com/x.js", "http://h.com/d/y.js", "one.js", "two.js",
            "./a.js", "lib/../a.js", "/a.js", "//h.com/x.js", "../../z.js", "webpack:/src/a.js", "A.js", "x.js?q", "x.js#f", "d/e/f.js", "a", "x.js?v=1#t",
        ];
        let hot = if self.l.new_strs.is_empty() { 2 } else { 15 };
        if self.p(hot, 100) {
            if let Some(s) = self.lit_str() {
                if well_formed(&s) {
                    return match self.below(4) {
                        0 => format!("{}.js", s),
                        1 => format!("{}a.js", s),
                        _ => s,
                    };
                }
            }
        }
        if self.p(5, 100) {
            return format!("s{}.js", self.below(200));
        }
        self.pick(P).to_string()
    }
    fn root(&mut self) -> Option<String> {
        const P: &[&str] = &["", "/", "/the/root", "/the/root/", "src", "src/", "http://r.com", "http://r.com/p/", ".", "..", "//r.com/q", "./src", "webpack:/x/", "/a", "../r/"];
        if self.p(1, 2) {
            None
        } else {
            Some(self.pick(P).to_string())
        }
    }
    fn url(&mut self) -> Option<String> {
        const P: &[&str] = &["http://m.com/d/map.json", "/maps/x.map", "x.map", "maps/x.map", "http://m.com/", "//m.com/a/b.map", "../x.map", "http://h.com/x.map"];
        if self.p(3, 5) {
            None
        } else {
            Some(self.pick(P).to_string())
        }
    }
}
/// strings the URL functions are meant for
fn well_formed(s: &str) -> bool {
    s.len() <= 60 && s.chars().all(|c| c.is_ascii_alphanumeric() || "./-_".contains(c)) && !s.starts_with("//")
}

// ------------------------------------------------------------------ cases

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Q {
    Orig(i32, i32, Option<bool>),
    Gen(String, i32, i32, Option<bool>),
    All(String, i32, Option<i32>),
    Spans,
    Content(String, Option<bool>),
    Has,
    Sources,
    Each(bool), // true = generated order
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum GOp {
    Add(M),
    Content(String, Option<String>),
    Json,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum SOp {
    Add(String, bool),
    List,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    Vlq(i32),
    Set(Vec<SOp>, Option<bool>, i32),
    List(Vec<Option<M>>),
    Search(Vec<i32>, i32, Option<i32>, i32),
    Cmp(Vec<M>),
    Strs(Vec<Option<String>>),
    Gen { root: Option<String>, file: Option<String>, ops: Vec<GOp> },
    Valid { skip: bool, ms: Vec<M> },
    Basic { doc: Doc, url: Option<String>, qs: Vec<Q> },
    Indexed { doc: IxDoc, url: Option<String>, qs: Vec<Q> },
    Json { doc: JDoc, mix: u64, extra: Option<String> },
    Text(String),
    Round { root: Option<String>, file: Option<String>, ms: Vec<M>, url: Option<String>, how: u8 },
    Url { root: Ref, to: Ref, map: Option<Ref>, rooted: bool },
}

fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

fn bias(b: Option<bool>) -> Option<Bias> {
    b.map(|x| if x { Bias::LeastUpperBound } else { Bias::GreatestLowerBound })
}

// ------------------------------------------------------------------ generators of cases

fn pos(r: &mut Rng, tall: bool) -> (i32, i32) {
    let l = if tall { r.int(1, 3000) } else { r.int(1, 200) };
    (l, r.int(0, i32::MAX as i64))
}
fn valid_m(r: &mut Rng, pool: &[String], lines: i64) -> M {
    let gl = r.int(1, lines);
    let gc = r.int(0, i32::MAX as i64);
    if r.p(1, 6) {
        return M { gl, gc, orig: None, src: None, name: None };
    }
    M {
        gl,
        gc,
        orig: Some((r.int(1, i32::MAX as i64), r.int(0, i32::MAX as i64))),
        src: Some(if pool.is_empty() { r.source() } else { r.pick(pool).clone() }),
        name: if r.p(1, 2) { Some(r.name()) } else { None },
    }
}
fn perturb(r: &mut Rng, m: &M, pool: &[String]) -> M {
    let mut m = m.clone();
    match r.below(8) {
        0 => m.gl = (m.gl as i64 + 1).min(100000) as i32,
        1 => m.gc = m.gc.saturating_add(1),
        2 => {
            if let Some(o) = &mut m.orig {
                o.0 = o.0.saturating_add(1)
            }
        }
        3 => {
            if let Some(o) = &mut m.orig {
                o.1 = o.1.saturating_add(1)
            }
        }
        4 => {
            if m.src.is_some() {
                m.name = if r.p(1, 3) { None } else { Some(r.name()) }
            }
        }
        5 => {
            if m.src.is_some() {
                m.src = Some(if pool.is_empty() { r.source() } else { r.pick(pool).clone() })
            }
        }
        6 => {
            m.orig = None;
            m.src = None;
            m.name = None
        }
        _ => {}
    }
    m
}
fn valid_ms(r: &mut Rng, small: u64, cap: u64, lines: i64) -> Vec<M> {
    let np = r.size(4, 60) as u64 + 1;
    let pool: Vec<String> = (0..np).map(|_| r.source()).collect();
    let n = r.size(small, cap);
    let mut v: Vec<M> = vec![];
    for _ in 0..n {
        let m = if !v.is_empty() && r.p(2, 5) {
            let k = r.below(v.len() as u64) as usize;
            let m = v[k].clone();
            perturb(r, &m, &pool)
        } else {
            valid_m(r, &pool, lines)
        };
        v.push(m);
    }
    if r.p(1, 2) {
        v.sort_by(|a, b| m_cmp(a, b).cmp(&0));
    }
    v
}
fn doc(r: &mut Rng, wild: bool) -> Doc {
    let ns = r.size(3, 40);
    let mut sources: Vec<String> = (0..ns).map(|_| r.source()).collect();
    // sources that differ from another one only a little
    if r.p(1, 6) && !sources.is_empty() {
        for _ in 0..1 + r.below(2) {
            let s = sources[r.below(sources.len() as u64) as usize].clone();
            let v = variant(r, &s);
            sources.push(v);
        }
    }
    if !r.p(1, 10) {
        let mut seen = HashSet::new();
        sources.retain(|s| seen.insert(s.clone()));
    }
    let nn = r.size(3, 40);
    let names: Vec<String> = (0..nn).map(|_| r.name()).collect();
    let n = r.size(7, 300);
    let mut segs = vec![];
    let lines = if r.p(1, 10) { 300 } else { 4 };
    // now and then most mappings share their original position
    let crowd = if !sources.is_empty() && r.p(1, 15) { Some((r.below(sources.len() as u64) as usize, r.int(0, 1 << 30), r.int(0, 1 << 30), None)) } else { None };
    for _ in 0..n {
        let o = if crowd.is_some() && r.p(19, 20) {
            crowd
        } else if sources.is_empty() || r.p(1, 5) {
            None
        } else {
            Some((
                r.below(sources.len() as u64) as usize,
                r.int(0, 1 << 30),
                r.int(0, 1 << 30),
                if names.is_empty() || r.p(1, 2) { None } else { Some(r.below(names.len() as u64) as usize) },
            ))
        };
        segs.push((r.int(0, lines), r.int(0, 1 << 29), o));
        if r.p(1, 5) {
            let mut s = segs[r.below(segs.len() as u64) as usize];
            match r.below(4) {
                0 => s.1 += 1,
                1 => s.0 += 1,
                2 => {
                    if let Some(o) = &mut s.2 {
                        o.2 += 1
                    }
                }
                _ => {}
            }
            segs.push(s);
        }
    }
    segs.sort();
    let contents = if r.p(1, 2) {
        None
    } else {
        let k = match r.below(4) {
            0 => r.below(sources.len() as u64 + 1) as usize,
            1 => sources.len() + r.below(2) as usize,
            _ => sources.len(),
        };
        let all = r.p(1, 2);
        Some((0..k).map(|i| if !all && r.p(1, 3) { None } else { Some(if r.p(1, 6) { String::new() } else if r.p(1, 8) { r.name() } else { format!("content #{}", i) }) }).collect())
    };
    Doc { sources, names, root: r.root(), contents, segs, broken: wild && r.p(1, 30), version: 3 }
}
fn src_query(r: &mut Rng, d: &Doc, url: Option<&str>) -> String {
    if d.sources.is_empty() || r.p(1, 8) {
        return r.source();
    }
    let i = r.below(d.sources.len() as u64) as usize;
    match r.below(10) {
        0 | 1 => d.abs(url)[i].clone(),
        2 => format!("./{}", d.sources[i]),
        3 => {
            let s = if r.p(1, 4) { d.abs(url)[i].clone() } else { d.sources[i].clone() };
            variant(r, &s)
        }
        _ => d.sources[i].clone(),
    }
}
/// a name that differs a little from a known one
fn simple(s: &str) -> bool {
    let t = s.strip_prefix("http://h.com/").or(s.strip_prefix("http://m.com/")).or(s.strip_prefix("http://r.com/")).unwrap_or(s);
    well_formed(t) && !t.contains("//")
}
fn variant(r: &mut Rng, s: &str) -> String {
    let v = match r.below(12) {
        0 | 1 => format!("{}/", s),
        2 => s.trim_end_matches('/').to_string(),
        3 => format!("/{}", s.trim_start_matches('/')),
        4 => s.trim_start_matches("../").trim_start_matches("./").to_string(),
        5 => s.to_uppercase(),
        6 => s.to_lowercase(),
        7 => s.chars().skip(1).collect(),
        8 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
        9 => s.rsplit('/').next().unwrap_or("").to_string(),
        10 => format!("{}{}", s, r.source()),
        _ => format!("a/../{}", s),
    };
    // what the checks compare with covers these forms only
    if simple(&v) { v } else { s.to_string() }
}
/// the same or a nearly equal source asked again: the answers must not depend on what was asked before
fn again(r: &mut Rng, qs: &mut Vec<Q>) {
    let k = qs.len();
    if k < 2 {
        return;
    }
    for _ in 0..1 + r.below(3) {
        let i = r.below(k as u64) as usize;
        let s = match &qs[i] {
            Q::Gen(s, ..) | Q::All(s, ..) | Q::Content(s, _) => s.clone(),
            _ => continue,
        };
        let s = if r.p(2, 3) && simple(&s) { variant(r, &s) } else { s };
        let j = r.below(k as u64) as usize;
        if let Q::Gen(t, ..) | Q::All(t, ..) | Q::Content(t, _) = &mut qs[j] {
            *t = s;
        }
    }
}
fn near(r: &mut Rng, v: i32, lo: i64) -> i32 {
    (v as i64 + r.below(5) as i64 - 2).max(lo).min(i32::MAX as i64) as i32
}
fn query(r: &mut Rng, prop: &str, d: &Doc, url: Option<&str>) -> Q {
    let main = !r.p(1, 6);
    let k = if main {
        match prop {
            "C09" | "C15" => 0,
            "C10" => 1,
            "C11" => 2,
            "C16" => 1 + r.below(2),
            "C12" => [1, 2, 4, 4, 6][r.below(5) as usize],
            "C13" => [4, 4, 4, 5][r.below(4) as usize],
            "C17" => 7,
            "C21" => [0, 0, 0, 1, 1, 2, 2, 3, 3, 7][r.below(10) as usize],
            _ => r.below(8),
        }
    } else {
        r.below(8)
    };
    let b = match r.below(3) {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    };
    match k {
        0 => {
            if !d.segs.is_empty() && !r.p(1, 6) {
                let s = d.segs[r.below(d.segs.len() as u64) as usize];
                let ll = if r.p(1, 20) { -1 } else { 1 };
                let lc = if r.p(1, 20) { -2 } else { 0 };
                Q::Orig(near(r, s.0 + 1, ll), near(r, s.1, lc), b)
            } else {
                Q::Orig(r.int(-1, i32::MAX as i64), r.int(-1, i32::MAX as i64), b)
            }
        }
        1 | 2 => {
            let mut q = None;
            let os: Vec<_> = d.segs.iter().filter_map(|s| s.2).collect();
            if !os.is_empty() && !r.p(1, 6) {
                let o = *r.pick(&os);
                let s = if r.p(1, 2) { d.sources[o.0].clone() } else { src_query(r, d, url) };
                let lo = if r.p(1, 20) { -2 } else { 1 };
                let lc = if r.p(1, 20) { -2 } else { 0 };
                q = Some((s, near(r, o.1 + 1, lo), near(r, o.2, lc)));
            }
            let (s, l, c) = q.unwrap_or_else(|| (src_query(r, d, url), r.int(-1, i32::MAX as i64), r.int(-1, i32::MAX as i64)));
            if k == 1 {
                Q::Gen(s, l, c, b)
            } else {
                Q::All(s, l, if r.p(1, 3) { None } else { Some(c) })
            }
        }
        3 => Q::Spans,
        4 => Q::Content(
            src_query(r, d, url),
            match r.below(3) {
                0 => None,
                1 => Some(true),
                _ => Some(false),
            },
        ),
        5 => Q::Has,
        6 => Q::Sources,
        _ => Q::Each(r.p(1, 2)),
    }
}

fn generate(prop: &str, r: &mut Rng) -> Case {
    match prop {
        "C01" => Case::Vlq(if r.p(1, 3) { r.next() as i32 } else { r.int(i32::MIN as i64, i32::MAX as i64) }),
        "C02" => {
            let n = r.size(12, 700);
            let pool = r.size(6, 700) + 1;
            let ops = (0..n)
                .map(|_| {
                    if r.p(1, 8) {
                        SOp::List
                    } else if r.p(1, 3) {
                        SOp::Add(format!("k{}", r.below(pool as u64)), r.p(1, 2))
                    } else {
                        SOp::Add(r.name(), r.p(1, 2))
                    }
                })
                .collect();
            let from = if r.p(1, 3) { Some(r.p(1, 2)) } else { None };
            Case::Set(ops, from, r.int(i32::MIN as i64, i32::MAX as i64))
        }
        "C03" => {
            let ms = valid_ms(r, 10, 400, i32::MAX as i64 - 1);
            let mut v = vec![];
            for mut m in ms {
                if r.p(1, 6) {
                    v.push(None);
                }
                // positions from 0 on
                if r.p(1, 4) {
                    m.gl -= 1;
                    if let Some(o) = &mut m.orig {
                        o.0 -= 1;
                    }
                }
                if r.p(1, 20) {
                    m.name = Some(r.name());
                }
                v.push(Some(m));
            }
            v.push(None);
            if r.p(1, 2) {
                v.push(None);
            }
            Case::List(v)
        }
        "C04" => {
            let n = r.size(10, 5000);
            let mut v: Vec<i32> = (0..n).map(|_| if r.p(1, 5) { r.int(-(1 << 29), 1 << 29) } else { r.below(2 + n as u64) as i32 }).collect();
            if r.p(1, 8) {
                for x in v.iter_mut() {
                    *x = r.below(30) as i32 / 25;
                }
            }
            v.sort();
            let needle = if !v.is_empty() && r.p(2, 3) {
                let x = *r.pick(&v);
                x + r.below(3) as i32 - 1
            } else {
                r.int(-(1 << 29), 1 << 29)
            };
            let b = match r.below(6) {
                0 | 1 => None,
                2 | 3 => Some(1),
                _ => Some(2),
            };
            Case::Search(v, needle, b, r.below(4) as i32)
        }
        "C05" => {
            if r.p(1, 4) {
                return Case::Strs((0..3).map(|_| if r.p(1, 5) { None } else { Some(r.name()) }).collect());
            }
            let pool = vec![r.source(), r.source()];
            let a = valid_m(r, &pool, i32::MAX as i64);
            let b = if r.p(1, 5) { valid_m(r, &pool, i32::MAX as i64) } else { perturb(r, &a, &pool) };
            let c = if r.p(1, 5) { valid_m(r, &pool, i32::MAX as i64) } else { perturb(r, &b, &pool) };
            Case::Cmp(vec![a, b, c])
        }
        "C06" | "C07" => {
            let lines = if r.p(1, 40) { 70000 } else { 60 };
            let ms = valid_ms(r, 9, 400, lines);
            let mut ops = vec![];
            let root = r.root();
            for m in ms {
                if prop == "C07" && r.p(1, 3) {
                    ops.push(gcontent(r, &m, &root));
                }
                let m2 = m.clone();
                ops.push(GOp::Add(m));
                if prop == "C07" && r.p(1, 3) {
                    ops.push(gcontent(r, &m2, &root));
                }
                if r.p(1, 12) {
                    ops.push(GOp::Json);
                }
            }
            if prop == "C07" && r.p(1, 2) {
                for _ in 0..r.below(3) {
                    let m = M { gl: 1, gc: 0, orig: None, src: None, name: None };
                    ops.push(gcontent(r, &m, &root));
                }
            }
            ops.push(GOp::Json);
            Case::Gen { root, file: if r.p(1, 2) { None } else { Some(r.name()) }, ops }
        }
        "C08" => {
            let n = 1 + r.size(5, 60);
            let pool = vec![r.source(), r.source()];
            let ms = (0..n)
                .map(|_| {
                    let mut m = valid_m(r, &pool, 50);
                    if r.p(1, 2) {
                        match r.below(8) {
                            0 => m.gl = -(r.int(0, i32::MAX as i64)),
                            1 => m.gc = -r.int(1, i32::MAX as i64),
                            2 => {
                                if let Some(o) = &mut m.orig {
                                    o.0 = -(r.int(0, i32::MAX as i64))
                                }
                            }
                            3 => {
                                if let Some(o) = &mut m.orig {
                                    o.1 = -r.int(1, i32::MAX as i64)
                                }
                            }
                            4 => m.src = None,
                            5 => m.orig = None,
                            6 => m.name = Some(r.name()),
                            _ => {
                                m.src = Some(r.source());
                            }
                        }
                    }
                    m
                })
                .collect();
            Case::Valid { skip: r.p(1, 5), ms }
        }
        "C18" => {
            let lines = if r.p(1, 40) { 70000 } else { 12 };
            Case::Round { root: r.root(), file: match r.below(4) {
                0 | 1 => None,
                2 => Some(r.name()),
                _ => Some(r.source()),
            }, ms: valid_ms(r, 9, 300, lines), url: r.url(), how: r.below(2) as u8 }
        }
        "C20" => {
            let k = if r.p(1, 60) { r.below(36) } else { r.below(4) } as usize;
            let doc = jdocument(r, k);
            if r.p(1, 2) {
                let extra = if r.p(1, 3) { r.lit_str().filter(|s| !jdoc::KEYS.contains(&s.as_str())) } else { None };
                Case::Json { doc, mix: r.next(), extra }
            } else {
                let mix = r.next();
                let t = mixed(&doc, mix, &None);
                Case::Text(mangled(r, &t))
            }
        }
        "C19" => {
            let root = uref(r, None);
            let to = if r.p(2, 3) { uref(r, Some(&root)) } else { uref(r, None) };
            let map = if r.p(1, 3) { Some(if r.p(1, 2) { uref(r, Some(&root)) } else { uref(r, None) }) } else { None };
            Case::Url { root, to, map, rooted: r.p(2, 3) }
        }
        "C09" | "C10" | "C11" | "C12" => basic_case(prop, r),
        "C13" | "C17" | "C21" | "C22" => {
            if r.p(1, 2) {
                basic_case(prop, r)
            } else {
                indexed_case(prop, r)
            }
        }
        "C14" => {
            if r.p(1, 6) {
                basic_case(prop, r)
            } else {
                indexed_case(prop, r)
            }
        }
        _ => indexed_case(prop, r),
    }
}
fn useg(r: &mut Rng, last: bool) -> String {
    const P: &[&str] = &["a", "b", "..", "..", ".", "c", "p0", "p1", "...", "..a", "a.js", "A", "x;y=1", "~u", "@a", "p", ".a", "http"];
    if last && r.p(1, 4) {
        return String::new();
    }
    if r.p(1, 12) {
        if let Some(s) = r.lit_str() {
            if !s.is_empty() && s.chars().all(urlmodel::plain) {
                return s;
            }
        }
    }
    if r.p(1, 60) {
        let n = r.below(60);
        return format!("p{}", n);
    }
    let k = if r.p(1, 2) { 4 } else { P.len() as u64 };
    P[r.below(k) as usize].to_string()
}
fn uref(r: &mut Rng, like: Option<&Ref>) -> Ref {
    const H: &[&str] = &["h", "h.com", "host", "r.com", "a.b.c", "hostx", "a..b", "x.", "localhost"];
    const U: &[&str] = &["", "", "", "u", "User1"];
    const Q: &[&str] = &["", "q", "a=1&b=2", "x/../y?z", "..", "p0", "a.js"];
    let rest = |r: &mut Rng| if r.p(2, 3) { None } else { Some(r.pick(Q).to_string()) };
    let n = r.size(5, 40).max(1);
    let mut segs: Vec<String> = (0..n).map(|i| useg(r, i + 1 == n)).collect();
    let mut cls = *r.pick(&[Cls::Abs(false), Cls::Abs(true), Cls::Scheme, Cls::PathAbs, Cls::PathAbs, Cls::PathRel, Cls::PathRel]);
    let user = r.pick(U).to_string();
    let mut auth = Auth {
        pass: if user.is_empty() || r.p(1, 2) { None } else { Some("pw".to_string()) },
        user,
        host: r.pick(H).to_string(),
        port: if r.p(3, 4) { None } else { Some(*r.pick(&[0, 1, 81, 8080, 65535, 442])) },
    };
    if let Some(o) = like {
        // near the other one: same origin, a common front
        if r.p(2, 3) {
            cls = o.cls;
        }
        if r.p(5, 6) {
            auth = o.auth.clone();
        } else if r.p(1, 2) {
            let a = o.auth.clone();
            match r.below(4) {
                0 => auth = Auth { user: auth.user, pass: auth.pass, ..a },
                1 => auth = Auth { host: auth.host, ..a },
                2 => auth = Auth { port: auth.port, ..a },
                _ => auth = Auth { pass: if a.user.is_empty() { None } else { auth.pass }, ..a },
            }
        }
        if r.p(1, 2) {
            let k = r.below(o.segs.len() as u64 + 1) as usize;
            let mut v = o.segs[..k].to_vec();
            if k == o.segs.len() && v.last().map_or(false, |s| s.is_empty()) {
                v.pop();
            }
            if r.p(3, 4) || v.is_empty() {
                v.append(&mut segs);
            }
            segs = v;
        }
    }
    Ref { cls, auth, segs, query: rest(r), frag: rest(r) }
}
fn check_url(root: &Ref, to: &Ref, map: Option<&Ref>, rooted: bool) -> Result<(), String> {
    use urlmodel::*;
    let (rt, tt) = (text(root), text(to));
    let n = util::compute_source_url(None, &tt, None);
    ck!(n == text(&norm(to)), "normalising {:?} gives {:?}, not {:?}", tt, n, text(&norm(to)));
    ck!(util::compute_source_url(None, &n, None) == n, "normalising {:?} again changes it", n);
    let j = util::join(&rt, &tt);
    let want = text(&joined(root, to));
    ck!(j == want, "join({:?}, {:?}) is {:?}, not {:?}", rt, tt, j, want);
    if relative_defined(root, to) {
        let got = util::relative(rt.clone(), tt.clone());
        let want = relative_text(root, to);
        ck!(got == want, "relative({:?}, {:?}) is {:?}, not {:?}", rt, tt, got, want);
        let bare = Ref { query: None, ..root.clone() };
        if same_origin(root, to) && not_above(root, to) {
            let got = util::join(&text(&bare), &util::relative(text(&bare), tt.clone()));
            ck!(got == n, "{:?} made relative to {:?} and joined to it again gives {:?}, not {:?}", tt, text(&bare), got, n);
        }
    }
    let bare = text(&Ref { query: None, frag: None, ..root.clone() });
    if to.cls == Cls::PathRel && climb(to) == 0 {
        let got = util::relative(bare.clone(), util::join(&bare, &tt));
        ck!(got == n, "{:?} joined to {:?} and made relative to it again gives {:?}, not {:?}", tt, bare, got, n);
    }
    let sr = if rooted { Some(root) } else { None };
    let (st, mt) = (sr.map(text), map.map(text));
    let got = util::compute_source_url(st.as_deref(), &tt, mt.as_deref());
    let want = text(&source_ref(sr, to, map));
    ck!(got == want, "compute_source_url({:?}, {:?}, {:?}) is {:?}, not {:?}", st, tt, mt, got, want);
    assumed(root, to).map_err(|e| format!("an assumed contract of a dependency does not hold: {}", e))
}
fn opt_of<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.p(3, 5) {
        Some(f(r))
    } else {
        None
    }
}
fn jtext(r: &mut Rng) -> String {
    const P: &[&str] = &["\"", "\\", "\n", "\u{0}", "\u{2028}", "\u{ffff}", "\u{10ffff}", "</script>", "AAAA;;AACA,E", "{}", "null", "\u{7f}\u{80}"];
    if r.p(1, 4) {
        r.pick(P).to_string()
    } else {
        r.name()
    }
}
fn jtexts(r: &mut Rng) -> Vec<String> {
    let n = r.size(3, 200);
    (0..n).map(|_| jtext(r)).collect()
}
fn jdocument(r: &mut Rng, depth: usize) -> JDoc {
    let mut d = JDoc {
        version: if r.p(3, 4) { 3 } else { r.int(i32::MIN as i64, i32::MAX as i64) },
        sources: opt_of(r, jtexts),
        names: opt_of(r, jtexts),
        mappings: opt_of(r, jtext),
        file: opt_of(r, jtext),
        root: opt_of(r, jtext),
        contents: opt_of(r, |r| (0..r.size(3, 100)).map(|_| opt_of(r, jtext)).collect()),
        sections: None,
    };
    if depth > 0 && r.p(9, 10) {
        let n = if depth > 3 { 1 } else { r.below(3) };
        d.sections = Some(
            (0..n)
                .map(|_| {
                    (r.int(i32::MIN as i64, i32::MAX as i64), r.int(i32::MIN as i64, i32::MAX as i64), opt_of(r, jtext), jdocument(r, depth - 1))
                })
                .collect(),
        );
    }
    d
}
/// the document as another writer may write it: members in any order, unknown ones between, explicit nulls
fn mixed(d: &JDoc, mix: u64, extra: &Option<String>) -> String {
    let l = Lits::default();
    let mut r = Rng { s: mix, l: &l };
    fn any(v: &Value, r: &mut Rng, top: bool, extra: &Option<String>) -> String {
        match v {
            Value::Object(o) => {
                let mut m: Vec<(String, String)> = o.iter().map(|(k, v)| (k.clone(), any(v, r, k == "map", extra))).collect();
                if top {
                    for k in ["sources", "names", "mappings", "file", "sourceRoot", "sourcesContent", "sections"] {
                        if !o.contains_key(k) && r.p(1, 5) {
                            m.push((k.into(), "null".into()));
                        }
                    }
                }
                if r.p(1, 3) {
                    const X: &[(&str, &str)] = &[("x_google_ignoreList", "[0,1]"), ("Version", "7"), ("source", "{\"version\":[]}"), ("x", "null"), ("debugId", "\"a\\u0000\""), ("", "1e400"), ("mapping", "[[[]]]")];
                    let e = *r.pick(X);
                    m.push((e.0.into(), e.1.into()));
                }
                if let Some(e) = extra {
                    m.push((e.clone(), r.pick(&["\"q\"", "1", "null", "[\"a\"]", "{}"]).to_string()));
                }
                for i in (1..m.len()).rev() {
                    let j = r.below(i as u64 + 1) as usize;
                    m.swap(i, j);
                }
                let s = *r.pick(&["", "", " ", "\n\t"]);
                format!("{{{}{}}}", m.iter().map(|(k, v)| format!("{}{}{}:{}", s, Value::String(k.clone()), s, v)).collect::<Vec<_>>().join(","), s)
            }
            Value::Array(a) => format!("[{}]", a.iter().map(|x| any(x, r, false, extra)).collect::<Vec<_>>().join(", ")),
            v => v.to_string(),
        }
    }
    // 1e400 is refused as a number out of range, so it may not be among the ignored members
    any(&d.value(), &mut r, true, extra).replace("1e400", "1e40")
}
fn mangled(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..1 + r.below(3) {
        let n = c.len() as u64;
        if n == 0 {
            break;
        }
        let i = r.below(n) as usize;
        match r.below(8) {
            0 => c.truncate(i),
            1 => {
                c.remove(i);
            }
            2 => {
                const P: &[char] = &['{', '}', '[', ']', '"', ',', ':', '\\', '0', '-', '.', 'e', 'n', ' ', '\u{0}', '3', 'é', 't'];
                let x = *r.pick(P);
                c.insert(i, x);
            }
            3 => {
                const P: &[&str] = &["null", "\"version\":3,", "\"x\":1,", "[]", "{}", "1e9", "99999999999", "\"\"", "true", "\"url\":null,", "-1", "\\ud800"];
                let s: Vec<char> = r.pick(P).chars().collect();
                c.splice(i..i, s);
            }
            4 => {
                // replace a whole token
                let j = (i + 1 + r.below(6) as usize).min(c.len());
                const P: &[&str] = &["null", "3", "\"a\"", "[]", "{}", "false", "2.5", "9999999999"];
                let s: Vec<char> = r.pick(P).chars().collect();
                c.splice(i..j, s);
            }
            5 => {
                // a value after a colon becomes something else
                let at: Vec<usize> = (0..c.len()).filter(|k| c[*k] == ':').collect();
                if !at.is_empty() {
                    let k = at[r.below(at.len() as u64) as usize];
                    let e = (k + 1..c.len()).find(|e| c[*e] == ',' || c[*e] == '}').unwrap_or(c.len());
                    const P: &[&str] = &["null", "3", "\"a\"", "[]", "{}", "false", "2.5", "9999999999", "[null]", "[\"a\",null]", "{\"line\":0,\"column\":0}", "[1]"];
                    let s: Vec<char> = r.pick(P).chars().collect();
                    c.splice(k + 1..e, s);
                }
            }
            _ => {
                let j = r.below(n) as usize;
                c.swap(i, j);
            }
        }
    }
    c.into_iter().collect()
}
fn check_json(d: &JDoc, mix: u64, extra: &Option<String>) -> Result<(), String> {
    let t = quiet(|| serde_json::to_string(&d.real())).map_err(|e| format!("writing panicked: {}", e))?.map_err(|e| format!("writing failed: {}", e))?;
    let v: Value = serde_json::from_str(&t).map_err(|e| format!("what is written is not JSON: {} ({})", t, e))?;
    ck!(v == d.value(), "the document was written as {}, expected the members {}", t, d.value());
    fn dup(r: &Raw) -> bool {
        match r {
            Raw::Obj(o) => o.iter().enumerate().any(|(i, e)| o[..i].iter().any(|f| f.0 == e.0) || dup(&e.1)),
            Raw::Arr(a) => a.iter().any(dup),
            _ => false,
        }
    }
    let raw: Raw = serde_json::from_str(&t).map_err(|e| e.to_string())?;
    ck!(!dup(&raw), "a member is written twice: {}", t);
    for t in [t, mixed(d, mix, extra)] {
        let b = quiet(|| serde_json::from_str::<SourceMapJson>(&t)).map_err(|e| format!("reading {} panicked: {}", t, e))?.map_err(|e| format!("reading {} failed: {}", t, e))?;
        ck!(JDoc::of(&b) == *d, "{} was read as {:?}, expected {:?}", t, JDoc::of(&b), d);
    }
    Ok(())
}
fn check_text(t: &str) -> Result<(), String> {
    let whole = serde_json::from_str::<serde::de::IgnoredAny>(t).is_ok();
    let want = match (whole, serde_json::from_str::<Raw>(t)) {
        (false, _) => Err(jdoc::No::Bad),
        (true, Ok(r)) => jdoc::read(&r),
        (true, Err(_)) => Err(jdoc::No::Open),
    };
    let got = quiet(|| serde_json::from_str::<SourceMapJson>(t)).map_err(|e| format!("reading {:?} panicked: {}", t, e))?;
    match (&want, &got) {
        (Err(jdoc::No::Open), _) => return Ok(()),
        (Err(jdoc::No::Bad), Ok(g)) => return Err(format!("{:?} is no document but was read as {:?}", t, JDoc::of(g))),
        (Err(jdoc::No::Bad), Err(_)) => {
            let c = quiet(|| create_consumer(t, None).is_err()).map_err(|e| format!("create_consumer({:?}) panicked: {}", t, e))?;
            ck!(c, "create_consumer accepted {:?}", t);
        }
        (Ok(w), Err(e)) => return Err(format!("{:?} is the document {:?} but reading it failed: {}", t, w, e)),
        (Ok(w), Ok(g)) => ck!(JDoc::of(g) == *w, "{:?} was read as {:?}, expected {:?}", t, JDoc::of(g), w),
    }
    Ok(())
}
fn gcontent(r: &mut Rng, m: &M, root: &Option<String>) -> GOp {
    let s = match (&m.src, root) {
        (Some(s), _) if r.p(1, 2) => s.clone(),
        (Some(s), Some(rt)) if r.p(1, 2) => urlref::join(rt, s),
        _ => r.source(),
    };
    GOp::Content(s, if r.p(1, 4) { None } else { Some(format!("text {} {}", r.below(100), r.name())) })
}
/// tables beyond 16 bits: rare, they are slow
fn giant_case(prop: &str, r: &mut Rng) -> Case {
    let ns = 32700 + r.below(70) as usize + if r.p(1, 3) { 32768 } else { 0 };
    let sources: Vec<String> = (0..ns).map(|i| format!("s{}.js", i)).collect();
    let names: Vec<String> = (0..ns).map(|i| format!("n{}", i)).collect();
    let idx = |r: &mut Rng| if r.p(1, 2) { ns - 1 - r.below(60) as usize } else { r.below(ns as u64) as usize };
    let mut segs = vec![];
    for _ in 0..1 + r.below(6) {
        let n = if r.p(1, 2) { None } else { Some(idx(r)) };
        let o = if r.p(1, 6) { None } else { Some((idx(r), r.int(0, 70000), r.int(0, 70000), n)) };
        segs.push((r.int(0, 70000), r.int(0, 70000), o));
    }
    segs.sort();
    let contents = if r.p(1, 2) { None } else { Some((0..ns).map(|i| Some(format!("c{}", i))).collect()) };
    let d = Doc { sources, names, root: None, contents, segs, broken: false, version: 3 };
    let mut qs = vec![];
    let small = Doc { sources: d.sources[ns - 60..].to_vec(), names: vec![], root: None, contents: None, segs: vec![], broken: false, version: 3 };
    for _ in 0..2 {
        // source names are drawn from the end of the table and from the mappings
        let os: Vec<_> = d.segs.iter().filter_map(|s| s.2).collect();
        let s = if os.is_empty() || r.p(1, 4) { r.pick(&small.sources).clone() } else { d.sources[r.pick(&os).0].clone() };
        let o = os.iter().find(|o| d.sources[o.0] == s).map_or((1, 1), |o| (o.1 + 1, o.2));
        let g = d.segs[r.below(d.segs.len() as u64) as usize];
        qs.push(match prop {
            "C09" | "C15" => Q::Orig(g.0 + 1, g.1, None),
            "C10" => Q::Gen(s, o.0, o.1, None),
            "C11" => Q::All(s, o.0, Some(o.1)),
            "C16" => if r.p(1, 2) { Q::All(s, o.0, None) } else { Q::Gen(s, o.0, o.1, None) },
            "C17" => Q::Each(r.p(1, 2)),
            "C21" => [Q::Spans, Q::Orig(g.0 + 1, g.1, None), Q::Gen(s, o.0, o.1, None), Q::Each(true)][r.below(4) as usize].clone(),
            "C12" => Q::Gen(s, o.0, o.1, None),
            _ => Q::Content(s, None),
        });
    }
    if matches!(prop, "C14" | "C15" | "C16") {
        return Case::Indexed { doc: IxDoc { version: 3, sections: vec![Sect { line: r.int(0, 70000), col: r.int(0, 70000), url: None, doc: d }] }, url: None, qs };
    }
    Case::Basic { doc: d, url: None, qs }
}
fn basic_case(prop: &str, r: &mut Rng) -> Case {
    if r.p(1, 3000) {
        return giant_case(prop, r);
    }
    let d = doc(r, prop == "C17");
    let url = r.url();
    let n = 1 + r.size(6, 40);
    let mut qs: Vec<Q> = (0..n).map(|_| query(r, prop, &d, url.as_deref())).collect();
    if r.p(1, 4) {
        again(r, &mut qs);
    }
    Case::Basic { doc: d, url, qs }
}
fn indexed_case(prop: &str, r: &mut Rng) -> Case {
    if r.p(1, 3000) {
        return giant_case(prop, r);
    }
    let n = r.size(4, 260);
    let ties = if r.p(1, 20) { 9 } else { 1 };
    let mut sections = vec![];
    let (mut l, mut c) = (0i32, 0i32);
    let shared: Vec<String> = if r.p(1, 2) { (0..2).map(|_| r.source()).collect() } else { vec![] };
    for i in 0..n {
        if i > 0 || r.p(1, 2) {
            if r.p(ties, 10) {
                // at the offset of the section before
            } else if r.p(1, 3) {
                c = c.saturating_add(r.int(1, 100)).min(1 << 28);
            } else {
                l = l.saturating_add(r.int(1, 100)).min(1 << 28);
                c = r.int(0, 1000);
            }
        }
        let mut d = if n > 40 && r.p(3, 4) {
            let s = r.source();
            Doc { sources: vec![s], names: vec![], root: None, contents: if r.p(1, 2) { None } else { Some(vec![None]) }, segs: vec![(r.below(3) as i32, r.below(5) as i32, Some((0, r.below(3) as i32, r.below(3) as i32, None)))], broken: false, version: 3 }
        } else {
            doc(r, prop == "C17")
        };
        if d.sources.len() >= 1 && !shared.is_empty() {
            for s in d.sources.iter_mut() {
                if r.p(1, 2) {
                    *s = r.pick(&shared).clone();
                }
            }
        }
        if r.p(1, 2) {
            d.root = None;
        }
        sections.push(Sect { line: l, col: c, url: None, doc: d });
    }
    let mut version = 3;
    if prop == "C14" || (prop == "C22" && r.p(1, 3)) {
        if r.p(1, 6) {
            version = r.int(-3, i32::MAX as i64);
        }
        if !sections.is_empty() && r.p(1, 6) {
            let k = r.below(sections.len() as u64) as usize;
            sections[k].url = Some(r.name());
        }
        if sections.len() > 1 && r.p(1, 4) {
            let k = r.below(sections.len() as u64) as usize;
            match r.below(4) {
                0 => {
                    let j = r.below(sections.len() as u64) as usize;
                    sections.swap(k, j)
                }
                1 => {
                    let j = r.below(sections.len() as u64) as usize;
                    sections[k].line = sections[j].line;
                    sections[k].col = sections[j].col;
                }
                2 => sections[k].col = (sections[k].col - 1).max(0),
                _ => sections[k].line = (sections[k].line - 1).max(0),
            }
        }
        if sections.is_empty() && r.p(1, 8) {
            version = 2;
        }
    }
    let d = IxDoc { version, sections };
    let url = r.url();
    let k = 1 + r.size(5, 40);
    let mut qs: Vec<Q> = (0..k)
        .map(|_| {
            if d.sections.is_empty() {
                let e = Doc { sources: vec![], names: vec![], root: None, contents: None, segs: vec![], broken: false, version: 3 };
                return query(r, prop, &e, url.as_deref());
            }
            let i = r.below(d.sections.len() as u64) as usize;
            let s = &d.sections[i];
            let q = query(r, prop, &s.doc, url.as_deref());
            match q {
                Q::Orig(l, c, b) => {
                    if r.p(1, 4) {
                        return Q::Orig(near(r, s.line + 1, 1), near(r, s.col, 0), b);
                    }
                    let c2 = if l == 1 { (c as i64 + s.col as i64).min(i32::MAX as i64) as i32 } else { c };
                    Q::Orig((l as i64 + s.line as i64).min(i32::MAX as i64) as i32, c2, b)
                }
                q => q,
            }
        })
        .collect();
    if r.p(1, 4) {
        again(r, &mut qs);
    }
    Case::Indexed { doc: d, url, qs }
}

// ------------------------------------------------------------------ running a case

fn bytes_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn check_vlq(x: i32) -> Result<(), String> {
    let s = quiet(|| base64_vlq::base64vlq_encode(x)).map_err(|e| format!("encoding {} panicked: {}", x, e))?;
    let w = vlq(x as i64);
    ck!(s == w, "base64vlq_encode({}) = {:?}, the VLQ encoding is {:?}", x, s, w);
    let d = quiet(|| base64::encode(x)).map_err(|e| format!("base64::encode({}) panicked: {}", x, e))?;
    let w = if (0..64).contains(&x) { Some(B64[x as usize] as char) } else { None };
    ck!(d == w, "base64::encode({}) = {:?}, expected {:?}", x, d, w);
    Ok(())
}

fn check_set(ops: &[SOp], from: &Option<bool>, probe: i32) -> Result<(), String> {
    let mut model: Vec<String> = vec![];
    let mut set;
    if let Some(dup) = from {
        let mut arr = vec![];
        for o in ops {
            if let SOp::Add(s, _) = o {
                arr.push(s.clone());
                if *dup || !model.contains(s) {
                    model.push(s.clone());
                }
            }
        }
        set = quiet(|| array_set::ArraySet::from_array(arr, *dup)).map_err(|e| format!("from_array panicked: {}", e))?;
    } else {
        set = array_set::ArraySet::new();
    }
    let check = |set: &array_set::ArraySet, model: &Vec<String>| -> Result<(), String> {
        let l = set.to_vec();
        ck!(l == *model, "listing is {:?}, expected {:?}", l, model);
        let mut first: HashMap<&String, usize> = HashMap::new();
        for (i, s) in model.iter().enumerate() {
            first.entry(s).or_insert(i);
        }
        ck!(set.size() == first.len(), "size() = {}, {} distinct strings", set.size(), first.len());
        for s in model {
            ck!(set.has(s.clone()), "has({:?}) is false", s);
            ck!(set.index_of(s.clone()) == first.get(s).copied(), "index_of({:?}) = {:?}, first occurrence is {:?}", s, set.index_of(s.clone()), first.get(s));
        }
        for s in ["", "zz", "nope", "a", "k1"] {
            let w = first.get(&s.to_string()).copied();
            ck!(set.has(s.into()) == w.is_some() && set.index_of(s.into()) == w, "lookup of {:?} is wrong: {:?}, expected {:?}", s, set.index_of(s.into()), w);
        }
        let n = model.len() as i32;
        for i in [-1, 0, 1, n - 1, n, n + 1, probe, i32::MIN, i32::MAX] {
            let w = if i >= 0 { model.get(i as usize).cloned() } else { None };
            let g = quiet(|| set.at(i)).map_err(|e| format!("at({}) panicked: {}", i, e))?;
            ck!(g == w, "at({}) = {:?}, expected {:?}", i, g, w);
        }
        for (i, s) in model.iter().enumerate() {
            ck!(set.at(i as i32).as_ref() == Some(s), "at({}) = {:?}, expected {:?}", i, set.at(i as i32), s);
        }
        Ok(())
    };
    check(&set, &model)?;
    if from.is_none() {
        for (k, o) in ops.iter().enumerate() {
            match o {
                SOp::Add(s, dup) => {
                    if *dup || !model.contains(s) {
                        model.push(s.clone());
                    }
                    quiet(|| set.add(s.clone(), *dup)).map_err(|e| format!("add panicked: {}", e))?;
                    if ops.len() <= 40 {
                        check(&set, &model).map_err(|e| format!("after {} operations: {}", k + 1, e))?;
                    }
                }
                SOp::List => check(&set, &model).map_err(|e| format!("after {} operations: {}", k + 1, e))?,
            }
        }
        check(&set, &model)?;
    }
    Ok(())
}

/// unsorted_for_each: everything added, each as often as it was, numbered from 0
fn check_visit(l: &mapping_list::MappingList, all: &[M]) -> Result<(), String> {
    let calls = std::cell::RefCell::new(vec![]);
    quiet(|| l.unsorted_for_each(|m, i| calls.borrow_mut().push((m.clone(), i)))).map_err(|e| format!("unsorted_for_each panicked: {}", e))?;
    let calls = calls.into_inner();
    for (k, (m, i)) in calls.iter().enumerate() {
        ck!(*i == k, "call {} of the callback has index {}", k, i);
        let w = if m.generated.column % 3 == 0 { None } else { Some(m.generated.column) };
        ck!(m.last_generated_column == w, "a visited mapping has changed: {:?}", m);
    }
    let v: Vec<M> = calls.iter().map(|c| M::of(&c.0)).collect();
    ck!(count(&v) == count(all), "visited after {} additions: {:?}, added {:?}", all.len(), v, all);
    Ok(())
}

fn check_list(ops: &[Option<M>]) -> Result<(), String> {
    let mut l = mapping_list::MappingList::new();
    let mut all: Vec<M> = vec![];
    for (k, o) in ops.iter().enumerate() {
        match o {
            Some(m) => {
                all.push(m.clone());
                let mut rm = m.real();
                rm.last_generated_column = if m.gc % 3 == 0 { None } else { Some(m.gc) };
                quiet(|| l.add(rm)).map_err(|e| format!("add panicked: {}", e))?;
            }
            None => {
                check_visit(&l, &all)?;
                let v = quiet(|| l.to_array()).map_err(|e| format!("to_array panicked: {}", e))?;
                for m in &v {
                    let w = if m.generated.column % 3 == 0 { None } else { Some(m.generated.column) };
                    ck!(m.last_generated_column == w, "a listed mapping has changed: {:?}", m);
                }
                let v: Vec<M> = v.iter().map(M::of).collect();
                ck!(v.windows(2).all(|w| (w[0].gl, w[0].gc) <= (w[1].gl, w[1].gc)), "listing {} is not in generated order: {:?}", k, v);
                ck!(count(&v) == count(&all), "listing after {} additions is {:?}, added {:?}", all.len(), v, all);
                check_visit(&l, &all)?;
            }
        }
    }
    Ok(())
}

fn check_search(v: &[i32], needle: i32, bias: Option<i32>, style: i32) -> Result<(), String> {
    let hay: Vec<(i32, usize)> = v.iter().copied().enumerate().map(|(i, x)| (x, i)).collect();
    let c = |d: i32| match style {
        0 => d,
        1 => d.signum(),
        2 => d.signum() * 7,
        _ => match d.signum() {
            -1 => i32::MIN,
            0 => 0,
            _ => i32::MAX,
        },
    };
    let r = quiet(|| binary_search::search(needle, &hay, |a, b| c(*a - b.0), |a, b| c(a.0 - b.0), bias)).map_err(|e| format!("search panicked: {}", e))?;
    let target = if v.contains(&needle) {
        Some(needle)
    } else if bias == Some(2) {
        v.iter().copied().filter(|&x| x > needle).min()
    } else {
        v.iter().copied().filter(|&x| x < needle).max()
    };
    let w = target.map_or(-1, |t| v.iter().position(|&x| x == t).unwrap() as i32);
    ck!(r == w, "search({}, {:?}, bias {:?}) = {}, expected {}", needle, v, bias, r, w);
    Ok(())
}

fn check_cmp(ms: &[M]) -> Result<(), String> {
    for a in ms {
        for b in ms {
            let r = quiet(|| util::compare_by_generated_pos_inflated(&a.real(), &b.real())).map_err(|e| format!("comparison panicked: {}", e))?;
            ck!(r.signum() == m_cmp(a, b), "compare({:?}, {:?}) = {}, expected sign {}", a, b, r, m_cmp(a, b));
        }
    }
    Ok(())
}

fn check_gen(prop: &str, root: &Option<String>, file: &Option<String>, ops: &[GOp]) -> Result<(), String> {
    let mut g = generator::SourceMapGenerator::new(file.clone(), root.clone(), false);
    let (mut ms, mut contents): (Vec<M>, HashMap<String, String>) = (vec![], HashMap::new());
    for o in ops {
        match o {
            GOp::Add(m) => {
                ms.push(m.clone());
                quiet(|| g.add_mapping(m.real())).map_err(|e| format!("adding the valid mapping {:?} panicked: {}", m, e))?;
            }
            GOp::Content(s, c) => {
                quiet(|| g.set_source_content(s.clone(), c.clone())).map_err(|e| format!("set_source_content({:?}) panicked: {}", s, e))?;
                let k = root.as_ref().map_or(s.clone(), |r| urlref::relative(r, s));
                match c {
                    Some(c) => contents.insert(k, c.clone()),
                    None => contents.remove(&k),
                };
            }
            GOp::Json => {
                let s = quiet(|| g.as_string()).map_err(|e| format!("serialising panicked: {}", e))?;
                let v: Value = serde_json::from_str(&s).map_err(|e| e.to_string())?;
                let strs = |k: &str| -> Vec<String> { v[k].as_array().map_or(vec![], |a| a.iter().map(|x| x.as_str().unwrap_or("<not a string>").to_string()).collect()) };
                if prop == "C07" {
                    ck!(v["version"] == json!(3), "version is {}", v["version"]);
                    ck!(v["file"].as_str() == file.as_deref(), "file is {}, expected {:?}", v["file"], file);
                    ck!(v["sourceRoot"].as_str() == root.as_deref(), "sourceRoot is {}, expected {:?}", v["sourceRoot"], root);
                    let uniq = |it: &mut dyn Iterator<Item = &String>| {
                        let (mut seen, mut out) = (HashSet::new(), vec![]);
                        for x in it {
                            if seen.insert(x.clone()) {
                                out.push(x.clone());
                            }
                        }
                        out
                    };
                    let ws = uniq(&mut ms.iter().filter_map(|m| m.src.as_ref()));
                    let wn = uniq(&mut ms.iter().filter_map(|m| m.name.as_ref()));
                    ck!(v["sources"].is_array() && strs("sources") == ws, "sources are {}, expected {:?}", v["sources"], ws);
                    ck!(v["names"].is_array() && strs("names") == wn, "names are {}, expected {:?}", v["names"], wn);
                    if contents.is_empty() {
                        ck!(v.get("sourcesContent").map_or(true, |x| x.is_null() || x.as_array().map_or(false, |a| a.iter().all(|e| e.is_null()))), "contents without any registered: {}", v["sourcesContent"]);
                    } else {
                        let w: Vec<Option<String>> = ws.iter().map(|s| contents.get(&root.as_ref().map_or(s.clone(), |r| urlref::relative(r, s))).cloned()).collect();
                        ck!(v["sourcesContent"] == json!(w), "sourcesContent is {}, expected {}", v["sourcesContent"], json!(w));
                    }
                } else {
                    let (src, names) = (strs("sources"), strs("names"));
                    let segs = decode(v["mappings"].as_str().ok_or("no mappings")?)?;
                    let mut got = vec![];
                    for (l, c, o) in segs {
                        let at = |v: &Vec<String>, i: i64, w: &str| v.get(i as usize).cloned().ok_or(format!("{} index {} out of range", w, i));
                        got.push(match o {
                            None => M { gl: l as i32 + 1, gc: c as i32, orig: None, src: None, name: None },
                            Some((s, ol, oc, n)) => M {
                                gl: l as i32 + 1,
                                gc: c as i32,
                                orig: Some((ol as i32 + 1, oc as i32)),
                                src: Some(at(&src, s, "source")?),
                                name: match n {
                                    Some(n) => Some(at(&names, n, "name")?),
                                    None => None,
                                },
                            },
                        });
                    }
                    let mut want = ms.clone();
                    want.sort_by(|a, b| m_cmp(a, b).cmp(&0));
                    ck!(got.windows(2).all(|w| (w[0].gl, w[0].gc) <= (w[1].gl, w[1].gc)), "decoded mappings are not in generated order: {:?}", got);
                    // consecutive duplicates merged: every distinct mapping at least once and at most as often as it was added
                    let (cg, cw) = (count(&got), count(&want));
                    for (m, n) in &cg {
                        ck!(cw.get(m).map_or(false, |k| k >= n), "decoding gives {:?} {} time(s), added {} time(s)", m, n, cw.get(m).unwrap_or(&0));
                    }
                    for m in cw.keys() {
                        ck!(cg.contains_key(m), "{:?} was added but decoding does not give it; decoded {:?}", m, got);
                    }
                    ck!(got.windows(2).all(|w| w[0] != w[1]), "consecutive duplicates were not merged: {:?}", got);
                }
            }
        }
    }
    Ok(())
}

fn check_valid(skip: bool, ms: &[M]) -> Result<(), String> {
    let mut g = generator::SourceMapGenerator::new(None, None, skip);
    let mut clean = generator::SourceMapGenerator::new(None, None, false);
    for m in ms {
        let r = quiet(|| g.add_mapping(m.real()));
        if skip {
            ck!(r.is_ok(), "{:?} was refused with validation off: {:?}", m, r);
            continue;
        }
        ck!(r.is_ok() == m.valid(), "{:?} was {}, but it is {}", m, if r.is_ok() { "accepted" } else { "refused" }, if m.valid() { "valid" } else { "invalid" });
        if r.is_ok() {
            clean.add_mapping(m.real());
        } else if ms.len() < 8 {
            let (a, b) = (quiet(|| g.as_string()), quiet(|| clean.as_string()));
            ck!(a == b, "refusing {:?} changed the generator: {:?}, expected {:?}", m, a, b);
        }
    }
    if !skip {
        let (a, b) = (quiet(|| g.as_string()), quiet(|| clean.as_string()));
        ck!(a == b, "refused mappings changed the generator: {:?}, expected {:?}", a, b);
    }
    Ok(())
}

type DM = source_map_mappings::Mapping;
fn dm(d: &DM) -> (i64, i64, Option<(i64, i64, i64, Option<i64>)>) {
    (
        d.generated_line as i64,
        d.generated_column as i64,
        d.original.as_ref().map(|o| (o.source as i64, o.original_line as i64, o.original_column as i64, o.name.map(|n| n as i64))),
    )
}
fn raw(d: &Doc, k: usize) -> (i64, i64, Option<(i64, i64, i64, Option<i64>)>) {
    let s = &d.segs[k];
    (s.0 as i64, s.1 as i64, s.2.map(|(a, b, c, n)| (a as i64, b as i64, c as i64, n.map(|x| x as i64))))
}

/// expected answers; None in the list = "no result" is allowed
fn want_orig(d: &Doc, url: Option<&str>, l: i32, c: i32, b: Option<bool>) -> Vec<Option<M>> {
    let k = d.orig_for(l, c, b == Some(true));
    if k.is_empty() {
        return vec![None];
    }
    k.iter().map(|&k| if d.segs[k].2.is_some() { Some(d.render(url, k)) } else { None }).collect()
}

fn check_basic(prop: &str, d: &Doc, url: Option<&str>, qs: &[Q]) -> Result<(), String> {
    let js = d.json().to_string();
    let c = quiet(|| create_consumer(&js, url)).map_err(|e| format!("creating a consumer panicked: {}", e))?.map_err(|e| e.to_string())?;
    let mut c = match c {
        Consumer::BasicConsumer(c) => c,
        _ => return Err("a document without sections gave a sectioned consumer".into()),
    };
    let abs = d.abs(url);
    let mut spans = false;
    ck!(!matches!(prop, "C12" | "C14") || c.get_sources() == abs, "sources are {:?}, expected {:?}", c.get_sources(), abs);
    for (n, q) in qs.iter().enumerate() {
        let at = |e: String| format!("query {} {:?}: {}", n, q, e);
        match q {
            Q::Orig(l, col, b) => {
                let r = quiet(|| c.original_position_for(Position { line: *l, column: *col }, bias(*b)));
                if let ("C21", false, Ok(Some(m))) = (prop, d.broken, &r) {
                    let ok = ends_of(d, m.generated.line as i64 - 1, m.generated.column as i64);
                    span_ok(m.last_generated_column.map(|x| x as i64), &ok, spans).map_err(at)?;
                    continue;
                }
                if prop != "C09" || d.broken {
                    continue;
                }
                if *l < 1 || *col < 0 {
                    ck!(r.is_err(), "{}", at("an invalid position was not refused".into()));
                    continue;
                }
                let r = r.map_err(|e| at(format!("panicked: {}", e)))?.as_ref().map(M::of);
                let w = want_orig(d, url, *l, *col, *b);
                ck!(w.contains(&r), "{}", at(format!("gave {:?}, expected one of {:?}", r, w)));
            }
            Q::Gen(s, l, col, b) => {
                let r = quiet(|| c.generated_position_for(s, *l, *col, bias(*b)));
                if let ("C21", false, Ok(Some(m))) = (prop, d.broken, &r) {
                    let mut ok = ends_of(d, m.generated.line as i64 - 1, m.generated.column as i64);
                    if spans {
                        ok.iter_mut().for_each(|x| *x = x.or(Some(-1)));
                    }
                    span_ok(m.last_generated_column.map(|x| x as i64), &ok, spans).map_err(at)?;
                    continue;
                }
                if !matches!(prop, "C10" | "C12") || d.broken {
                    continue;
                }
                let i = d.resolve(url, s);
                if *l < 1 || *col < 0 {
                    ck!(prop != "C10" || i.is_none() || r.is_err(), "{}", at("an invalid position was not refused".into()));
                    continue;
                }
                let r = r.map_err(|e| at(format!("panicked: {}", e)))?.as_ref().map(M::of);
                let w: Vec<Option<M>> = match i {
                    None => vec![None],
                    Some(i) => {
                        let k = d.gen_for(i, *l, *col, *b == Some(true));
                        if k.is_empty() {
                            vec![None]
                        } else {
                            k.iter().map(|&k| Some(d.render(url, k))).collect()
                        }
                    }
                };
                ck!(w.contains(&r), "{}", at(format!("gave {:?}, expected one of {:?}", r, w)));
            }
            Q::All(s, l, col) => {
                let r = quiet(|| c.all_generated_position_for(s, *l, *col));
                if let ("C21", false, Ok(r)) = (prop, d.broken, &r) {
                    for m in r {
                        let ok = ends_of(d, m.generated_line as i64, m.generated_column as i64);
                        span_ok(m.last_generated_column.map(|x| x as i64), &ok, spans).map_err(&at)?;
                    }
                    continue;
                }
                if !matches!(prop, "C11" | "C12") || d.broken {
                    continue;
                }
                let i = d.resolve(url, s);
                if *l < 1 || col.unwrap_or(0) < 0 {
                    ck!(prop != "C11" || i.is_none() || r.is_err(), "{}", at("an invalid position was not refused".into()));
                    continue;
                }
                let r: Vec<_> = r.map_err(|e| at(format!("panicked: {}", e)))?.iter().map(dm).collect();
                let w: Vec<_> = i.map_or(vec![], |i| d.all_for(i, *l, *col).iter().map(|&k| raw(d, k)).collect());
                ck!(count(&r) == count(&w), "{}", at(format!("gave {:?}, expected {:?}", r, w)));
            }
            Q::Spans => {
                let r = quiet(|| c.compute_column_spans());
                ck!(prop != "C21" || d.broken || r.is_ok(), "{}", at(format!("panicked: {:?}", r)));
                spans |= !d.broken;
            }
            Q::Content(s, p) => {
                let r = quiet(|| c.source_content_for(s, *p));
                if !matches!(prop, "C13" | "C12") {
                    continue;
                }
                match (&d.contents, d.resolve(url, s)) {
                    (None, _) => ck!(r == Ok(None), "{}", at(format!("gave {:?} without contents", r))),
                    (Some(cs), Some(i)) => {
                        let w = cs.get(i).cloned().flatten();
                        ck!(r == Ok(w.clone()), "{}", at(format!("gave {:?}, source {} has {:?}", r, i, w)));
                    }
                    (Some(_), None) => {
                        if p.unwrap_or(true) {
                            ck!(prop != "C13" || r.is_err(), "{}", at(format!("gave {:?} for an unknown source", r)));
                        } else {
                            ck!(r == Ok(None), "{}", at(format!("gave {:?} for an unknown source", r)));
                        }
                    }
                }
            }
            Q::Has => {
                let r = quiet(|| c.has_contents_of_all_sources());
                if prop == "C13" {
                    ck!(r == Ok(d.has_all()), "{}", at(format!("gave {:?}, expected {}", r, d.has_all())));
                }
            }
            Q::Sources => {
                let r = c.get_sources();
                ck!(prop != "C12" || r == abs, "{}", at(format!("gave {:?}, expected {:?}", r, abs)));
            }
            Q::Each(gen) => {
                let out = RefCell::new(vec![]);
                let ends = RefCell::new(vec![]);
                let r = quiet(|| {
                    c.each_mapping(
                        |m| {
                            out.borrow_mut().push(dm(m));
                            ends.borrow_mut().push(m.last_generated_column.map(|x| x as i64));
                        },
                        if *gen { IterOrd::GeneratedOrd } else { IterOrd::OriginalOrd },
                    )
                });
                if prop == "C21" && !d.broken && r.is_ok() {
                    each_spans(d, *gen, &out.borrow(), &ends.borrow(), spans, (0, 0)).map_err(&at)?;
                }
                if prop != "C17" {
                    continue;
                }
                r.map_err(|e| at(format!("panicked: {}", e)))?;
                each_ok(d, *gen, &out.into_inner(), (0, 0)).map_err(at)?;
            }
        }
    }
    Ok(())
}
/// where the span of a mapping at this (0-based) position of the document may end, by the
/// statement: mappings at the same position follow one another in some order
fn ends_of(d: &Doc, line: i64, col: i64) -> Vec<Option<i64>> {
    let on = |l: i64| d.segs.iter().filter(move |s| s.0 as i64 == l).map(|s| s.1 as i64);
    let next = on(line).filter(|&c| c > col).min();
    let mut v = vec![Some(col); on(line).filter(|&c| c == col).count().saturating_sub(1)];
    v.push(next);
    v
}
fn span_ok(got: Option<i64>, ok: &[Option<i64>], spans: bool) -> Result<(), String> {
    ck!(ok.contains(&got) || (!spans && got.is_none()), "the last column is {:?}, expected one of {:?}", got, ok);
    Ok(())
}
fn each_spans(d: &Doc, gen: bool, got: &[Seg], ends: &[Option<i64>], spans: bool, shift: (i64, i64)) -> Result<(), String> {
    let mut seen: BTreeMap<(i64, i64), Vec<Option<i64>>> = BTreeMap::new();
    for (s, e) in got.iter().zip(ends) {
        let l = s.0 - shift.0;
        let dc = if l == 0 { shift.1 } else { 0 };
        let e = e.map(|x| x - dc);
        span_ok(e, &ends_of(d, l, s.1 - dc), spans).map_err(|m| format!("{:?}: {}", s, m))?;
        seen.entry((l, s.1 - dc)).or_default().push(e);
    }
    if gen && spans {
        for ((l, c), mut v) in seen {
            let mut w = ends_of(d, l, c);
            v.sort();
            w.sort();
            ck!(v == w, "the last columns of the mappings at {:?} are {:?}, expected {:?}", (l, c), v, w);
        }
    }
    Ok(())
}
fn each_ok(d: &Doc, gen: bool, got: &[Seg], shift: (i64, i64)) -> Result<(), String> {
    if d.broken {
        ck!(got.is_empty(), "visited {:?} of an unparsable map", got);
        return Ok(());
    }
    let sh = |s: Seg| (s.0 + shift.0, if s.0 == 0 { s.1 + shift.1 } else { s.1 }, s.2);
    let want: Vec<Seg> = (0..d.segs.len()).map(|k| raw(d, k)).filter(|s| gen || s.2.is_some()).map(sh).collect();
    ck!(count(got) == count(&want), "visited {:?}, expected {:?}", got, want);
    let ok = got.windows(2).all(|w| {
        if gen {
            (w[0].0, w[0].1) <= (w[1].0, w[1].1)
        } else {
            let k = |s: &Seg| s.2.map(|o| (o.0, o.1, o.2));
            k(&w[0]) <= k(&w[1])
        }
    });
    ck!(ok, "visited out of order: {:?}", got);
    Ok(())
}

fn check_indexed(prop: &str, d: &IxDoc, url: Option<&str>, qs: &[Q]) -> Result<(), String> {
    let js = d.json().to_string();
    let c = quiet(|| create_consumer(&js, url));
    if prop == "C14" {
        ck!(c.is_ok() == d.acceptable(), "the document was {}, it is {}: version {}, offsets {:?}", if c.is_ok() { "accepted" } else { "refused" }, if d.acceptable() { "well-formed" } else { "not well-formed" }, d.version, d.sections.iter().map(|s| (s.line, s.col, &s.url)).collect::<Vec<_>>());
    }
    if c.is_err() && !d.acceptable() {
        return Ok(());
    }
    let c = c.map_err(|e| format!("creating a consumer panicked: {}", e))?.map_err(|e| e.to_string())?;
    let mut c = match c {
        Consumer::IndexedConsumer(c) => c,
        _ => return Err("a document with sections gave a basic consumer".into()),
    };
    let abs: Vec<String> = d.sections.iter().flat_map(|s| s.doc.abs(url)).collect();
    let mut spans = false;
    let whole = !d.sections.iter().any(|s| s.doc.broken);
    if prop == "C14" {
        ck!(c.get_sources() == abs, "sources are {:?}, expected {:?}", c.get_sources(), abs);
        let out = RefCell::new(vec![]);
        quiet(|| c.each_mapping(|m| out.borrow_mut().push(dm(m)), IterOrd::GeneratedOrd)).map_err(|e| format!("iterating panicked: {}", e))?;
        sections_ok(d, true, &out.into_inner())?;
    }
    for (n, q) in qs.iter().enumerate() {
        let at = |e: String| format!("query {} {:?} (section offsets {:?}): {}", n, q, d.sections.iter().map(|s| (s.line, s.col)).collect::<Vec<_>>(), e);
        match q {
            Q::Orig(l, col, b) => {
                let r = quiet(|| c.original_position_for(Position { line: *l, column: *col }, bias(*b)));
                if let ("C21", true, Ok(Some(m))) = (prop, whole, &r) {
                    let own = d.sections.iter().rposition(|s| (s.line as i64 + 1, s.col as i64) <= (*l as i64, *col as i64));
                    if let Some(i) = own {
                        section_span(&d.sections[i], m.generated.line as i64 - 1, m.generated.column as i64, m.last_generated_column.map(|x| x as i64), spans).map_err(at)?;
                    }
                    continue;
                }
                if prop != "C15" || *l < 1 || *col < 0 {
                    continue;
                }
                let r = r.map_err(|e| at(format!("panicked: {}", e)))?.as_ref().map(M::of);
                let own = d.sections.iter().rposition(|s| (s.line as i64 + 1, s.col as i64) <= (*l as i64, *col as i64));
                let w = match own {
                    None => vec![None],
                    Some(i) => {
                        let s = &d.sections[i];
                        let c2 = if s.line + 1 == *l { col - s.col } else { *col };
                        want_orig(&s.doc, url, l - s.line, c2, *b).into_iter().map(|m| m.map(|m| d.shift(i, m))).collect()
                    }
                };
                ck!(w.contains(&r), "{}", at(format!("gave {:?}, section {:?} answers one of {:?}", r, own, w)));
            }
            Q::Gen(s, l, col, b) => {
                let r = quiet(|| c.generated_position_for(s, *l, *col, bias(*b)));
                if prop != "C16" || *l < 1 || *col < 0 {
                    continue;
                }
                let r = r.map_err(|e| at(format!("panicked: {}", e)))?.map(|p| (p.line, p.column));
                let own = (0..d.sections.len()).find_map(|i| d.sections[i].doc.resolve(url, s).map(|k| (i, k)));
                let w: Vec<Option<(i32, i32)>> = match own {
                    None => vec![None],
                    Some((i, k)) => {
                        let ks = d.sections[i].doc.gen_for(k, *l, *col, *b == Some(true));
                        if ks.is_empty() {
                            vec![None]
                        } else {
                            ks.iter().map(|&k| d.shift(i, d.sections[i].doc.render(url, k))).map(|m| Some((m.gl, m.gc))).collect()
                        }
                    }
                };
                ck!(w.contains(&r), "{}", at(format!("gave {:?}, expected one of {:?}", r, w)));
            }
            Q::All(s, l, col) => {
                let r = quiet(|| c.all_generated_position_for(s, *l, *col));
                if let ("C21", true, Ok(r)) = (prop, whole, &r) {
                    if let Some(i) = (0..d.sections.len()).find(|&i| d.sections[i].doc.resolve(url, s).is_some()) {
                        for m in r {
                            section_span(&d.sections[i], m.generated_line as i64, m.generated_column as i64, m.last_generated_column.map(|x| x as i64), spans).map_err(&at)?;
                        }
                    }
                    continue;
                }
                if prop != "C16" || *l < 1 || col.unwrap_or(0) < 0 {
                    continue;
                }
                let r = r.map_err(|e| at(format!("panicked: {}", e)))?;
                let r: Vec<_> = r.iter().map(dm).collect();
                let own = (0..d.sections.len()).find_map(|i| d.sections[i].doc.resolve(url, s).map(|k| (i, k)));
                let w: Vec<Seg> = match own {
                    None => vec![],
                    Some((i, k)) => {
                        let sc = &d.sections[i];
                        sc.doc.all_for(k, *l, *col).iter().map(|&k| raw(&sc.doc, k)).map(|x| (x.0 + sc.line as i64, if x.0 == 0 { x.1 + sc.col as i64 } else { x.1 }, x.2)).collect()
                    }
                };
                ck!(count(&r) == count(&w), "{}", at(format!("gave {:?}, expected {:?}", r, w)));
            }
            Q::Spans => {
                let r = quiet(|| c.computed_column_spans());
                ck!(prop != "C21" || !whole || r.is_ok(), "{}", at(format!("panicked: {:?}", r)));
                spans |= whole;
            }
            Q::Content(s, p) => {
                let r = quiet(|| c.source_content_for(s, *p));
                if prop != "C13" {
                    continue;
                }
                let w = d.sections.iter().find_map(|x| match (&x.doc.contents, x.doc.resolve(url, s)) {
                    (Some(cs), Some(i)) => cs.get(i).cloned().flatten(),
                    _ => None,
                });
                match (&w, p.unwrap_or(true)) {
                    (Some(_), _) => ck!(r == Ok(w.clone()), "{}", at(format!("gave {:?}, expected {:?}", r, w))),
                    (None, false) => ck!(r == Ok(None), "{}", at(format!("gave {:?}, expected nothing", r))),
                    (None, true) => ck!(r.is_err() || r == Ok(None), "{}", at(format!("gave {:?} for a source without content", r))),
                }
                if w.is_none() && p.unwrap_or(true) && d.sections.iter().all(|x| x.doc.resolve(url, s).is_none()) {
                    ck!(r.is_err(), "{}", at(format!("gave {:?} for an unknown source", r)));
                }
            }
            Q::Has => {
                let r = quiet(|| c.has_contents_of_all_sources());
                let w = d.sections.iter().all(|s| s.doc.has_all());
                ck!(prop != "C13" || r == Ok(w), "{}", at(format!("gave {:?}, expected {}", r, w)));
            }
            Q::Sources => {
                ck!(prop != "C14" || c.get_sources() == abs, "{}", at(format!("gave {:?}, expected {:?}", c.get_sources(), abs)));
            }
            Q::Each(gen) => {
                let out = RefCell::new(vec![]);
                let ends = RefCell::new(vec![]);
                let r = quiet(|| {
                    c.each_mapping(
                        |m| {
                            out.borrow_mut().push(dm(m));
                            ends.borrow_mut().push(m.last_generated_column.map(|x| x as i64));
                        },
                        if *gen { IterOrd::GeneratedOrd } else { IterOrd::OriginalOrd },
                    )
                });
                let (got, e) = (out.borrow(), ends.borrow());
                let k: usize = d.sections.iter().map(|s| s.doc.segs.iter().filter(|x| *gen || x.2.is_some()).count()).sum();
                if prop == "C21" && whole && r.is_ok() && got.len() == k {
                    let mut i = 0;
                    for s in &d.sections {
                        let n = s.doc.segs.iter().filter(|x| *gen || x.2.is_some()).count();
                        each_spans(&s.doc, *gen, &got[i..i + n], &e[i..i + n], spans, (s.line as i64, s.col as i64)).map_err(&at)?;
                        i += n;
                    }
                }
                drop(got);
                if prop != "C17" {
                    continue;
                }
                r.map_err(|e| at(format!("panicked: {}", e)))?;
                sections_ok(d, *gen, &out.into_inner()).map_err(at)?;
            }
        }
    }
    Ok(())
}
fn section_span(s: &Sect, line: i64, col: i64, got: Option<i64>, spans: bool) -> Result<(), String> {
    let l = line - s.line as i64;
    let dc = if l == 0 { s.col as i64 } else { 0 };
    span_ok(got.map(|x| x - dc), &ends_of(&s.doc, l, col - dc), spans)
}
fn sections_ok(d: &IxDoc, gen: bool, got: &[Seg]) -> Result<(), String> {
    let mut i = 0;
    for (k, s) in d.sections.iter().enumerate() {
        let n = if s.doc.broken { 0 } else { s.doc.segs.iter().filter(|x| gen || x.2.is_some()).count() };
        ck!(i + n <= got.len(), "visited only {} mappings, section {} still has {}", got.len(), k, n);
        each_ok(&s.doc, gen, &got[i..i + n], (s.line as i64, s.col as i64)).map_err(|e| format!("section {}: {}", k, e))?;
        i += n;
    }
    ck!(i == got.len(), "visited {} mappings, the sections have {}", got.len(), i);
    Ok(())
}

fn check_round(root: &Option<String>, file: &Option<String>, ms: &[M], url: Option<&str>, how: u8) -> Result<(), String> {
    let mut g = generator::SourceMapGenerator::new(file.clone(), root.clone(), false);
    for m in ms {
        quiet(|| g.add_mapping(m.real())).map_err(|e| format!("adding the valid mapping {:?} panicked: {}", m, e))?;
    }
    let mut c = quiet(|| {
        if how == 0 {
            BasicConsumer::from_source_map(&mut g, url)
        } else {
            let s = g.as_string();
            match create_consumer(&s, url).unwrap() {
                Consumer::BasicConsumer(c) => c,
                _ => panic!("sectioned"),
            }
        }
    })
    .map_err(|e| format!("building the consumer panicked: {}", e))?;
    for m in ms {
        if m.orig.is_none() || ms.iter().any(|x| x.gl == m.gl && x.gc == m.gc && x != m) {
            continue;
        }
        let r = quiet(|| c.original_position_for(Position { line: m.gl, column: m.gc }, None)).map_err(|e| format!("looking up {:?} panicked: {}", m, e))?;
        let r = r.as_ref().map(M::of);
        let mut w = m.clone();
        w.src = m.src.as_ref().map(|s| urlref::compute_source_url(root.as_deref(), s, url));
        ck!(r.as_ref() == Some(&w), "looking up {:?} gave {:?}, expected {:?}", m, r, w);
    }
    Ok(())
}

// ---- C22: access by kind, and consume
fn res<T: std::fmt::Debug>(r: Result<T, String>) -> String {
    r.map_or("panicked".into(), |x| format!("{:?}", x))
}
fn listing(c: &mut impl ConsumerTrait, gen: bool) -> String {
    let out = RefCell::new(vec![]);
    let r = quiet(|| c.each_mapping(|m| out.borrow_mut().push((dm(m), m.last_generated_column)), if gen { IterOrd::GeneratedOrd } else { IterOrd::OriginalOrd }));
    format!("{} {:?}", r.is_ok(), out.into_inner())
}
macro_rules! asker {
    ($name:ident, $ty:ty, $spans:ident, $gen:expr) => {
        fn $name(c: &mut $ty, q: &Q) -> String {
            match q {
                Q::Orig(l, k, b) => res(quiet(|| c.original_position_for(Position { line: *l, column: *k }, bias(*b)).as_ref().map(|m| (M::of(m), m.last_generated_column)))),
                Q::Gen(s, l, k, b) => res(quiet(|| c.generated_position_for(s, *l, *k, bias(*b)).map($gen))),
                Q::All(s, l, k) => res(quiet(|| c.all_generated_position_for(s, *l, *k).iter().map(|m| (dm(m), m.last_generated_column)).collect::<Vec<_>>())),
                Q::Spans => res(quiet(|| c.$spans())),
                Q::Content(s, p) => res(quiet(|| c.source_content_for(s, *p))),
                Q::Has => res(quiet(|| c.has_contents_of_all_sources())),
                Q::Sources => res(quiet(|| c.get_sources())),
                Q::Each(gen) => listing(c, *gen),
            }
        }
    };
}
asker!(ask_basic, BasicConsumer, compute_column_spans, |m| (M::of(&m), m.last_generated_column));
asker!(ask_indexed, IndexedConsumer, computed_column_spans, |p: Position| (p.line, p.column));

/// one kind of consumer: every way to it leads to the one that was built
macro_rules! kind {
    ($name:ident, $ty:ty, $ask:ident, $as:ident, $as_mut:ident, $try:ident, $try_mut:ident, $other:ident, $other_mut:ident, $try_other:ident, $try_other_mut:ident) => {
        fn $name(js: &str, url: Option<&str>, qs: &[Q]) -> Result<(), String> {
            let build = || quiet(|| create_consumer(js, url)).map_err(|e| format!("creating a consumer panicked: {}", e))?.map_err(|e| e.to_string());
            let (mut a, mut b) = (build()?, build()?);
            let mut plain = quiet(|| <$ty>::new(js, url)).map_err(|e| format!("building it from its text panicked: {}", e))?;
            ck!(a.$try().is_some() && a.$try_mut().is_some(), "the consumer is not given as the kind it is");
            ck!(a.$try_other().is_none() && a.$try_other_mut().is_none(), "the consumer is given as the other kind");
            ck!(quiet(|| drop(a.$other())).is_err() && quiet(|| drop(a.$other_mut())).is_err(), "asking for the other kind did not panic");
            ck!(std::ptr::eq(a.$as(), a.$try().unwrap()), "the two accessors give different consumers");
            for (n, q) in qs.iter().enumerate() {
                let want = $ask(&mut plain, q);
                let x = quiet(|| $ask(a.$as_mut(), q)).map_err(|e| format!("query {} {:?}: access panicked: {}", n, q, e))?;
                let y = b.$try_mut().map(|c| $ask(c, q)).unwrap_or("not given".into());
                ck!(x == want && y == want, "query {} {:?}: the consumer itself answers {}, through the accessors {} and {}", n, q, want, x, y);
                ck!(res(quiet(|| a.$as().get_sources())) == res(quiet(|| plain.get_sources())), "query {} {:?}: the sources differ afterwards", n, q);
                ck!(a.$try_other().is_none() && a.$try().is_some(), "query {} {:?}: the kind changes", n, q);
            }
            // handed to a callback
            let u = url.unwrap_or("").to_string();
            let mut plain = quiet(|| <$ty>::new(js, Some(&u))).map_err(|e| format!("building it from its text panicked: {}", e))?;
            let seen = RefCell::new(vec![]);
            let r = quiet(|| {
                <$ty as ConsumerTrait>::consume(js.to_string(), u.clone(), |mut c| seen.borrow_mut().push((serde_json::to_string(&c.source_map).ok() == serde_json::to_string(&plain.source_map).ok(), c.get_sources() == plain.get_sources(), qs.iter().map(|q| $ask(&mut c, q)).collect::<Vec<_>>())))
            });
            let want: Vec<_> = qs.iter().map(|q| $ask(&mut plain, q)).collect();
            ck!(r.is_ok(), "consume panicked: {:?}", r);
            let seen = seen.into_inner();
            ck!(seen.len() == 1, "the callback was called {} times", seen.len());
            ck!(seen[0].0 && seen[0].1, "the consumer given to the callback is not the one the text and url build");
            ck!(seen[0].2 == want, "the consumer given to the callback answers {:?}, expected {:?}", seen[0].2, want);
            Ok(())
        }
    };
}
kind!(kind_basic, BasicConsumer, ask_basic, as_basic_consumer, as_basic_consumer_mut, try_as_basic_consumer, try_as_basic_consumer_mut, as_indexed_consumer, as_indexed_consumer_mut, try_as_indexed_consumer, try_as_indexed_consumer_mut);
kind!(kind_indexed, IndexedConsumer, ask_indexed, as_indexed_consumer, as_indexed_consumer_mut, try_as_indexed_consumer, try_as_indexed_consumer_mut, as_basic_consumer, as_basic_consumer_mut, try_as_basic_consumer, try_as_basic_consumer_mut);
fn kind_refused(d: &IxDoc, url: Option<&str>) -> Result<(), String> {
    let called = RefCell::new(0);
    let r = quiet(|| IndexedConsumer::consume(d.json().to_string(), url.unwrap_or("").to_string(), |_| *called.borrow_mut() += 1));
    ck!(r.is_err() && called.into_inner() == 0, "a document that is refused was handed to the callback");
    Ok(())
}

fn run(prop: &str, c: &Case) -> Result<(), String> {
    match c {
        Case::Vlq(x) => check_vlq(*x),
        Case::Set(o, f, p) => check_set(o, f, *p),
        Case::List(v) => check_list(v),
        Case::Search(v, n, b, s) => check_search(v, *n, *b, *s),
        Case::Cmp(v) => check_cmp(v),
        Case::Strs(v) => {
            for a in v {
                for b in v {
                    let r = quiet(|| util::strcmp(a.clone(), b.clone()))?;
                    ck!(r.signum() == str_cmp(a, b), "strcmp({:?}, {:?}) = {}, expected sign {}", a, b, r, str_cmp(a, b));
                }
            }
            Ok(())
        }
        Case::Gen { root, file, ops } => check_gen(prop, root, file, ops),
        Case::Valid { skip, ms } => check_valid(*skip, ms),
        Case::Basic { doc, url, qs } if prop == "C22" => kind_basic(&doc.json().to_string(), url.as_deref(), qs),
        Case::Indexed { doc, url, qs } if prop == "C22" => {
            if doc.acceptable() {
                kind_indexed(&doc.json().to_string(), url.as_deref(), qs)
            } else {
                kind_refused(doc, url.as_deref())
            }
        }
        Case::Basic { doc, url, qs } => check_basic(prop, doc, url.as_deref(), qs),
        Case::Indexed { doc, url, qs } => check_indexed(prop, doc, url.as_deref(), qs),
        Case::Json { doc, mix, extra } => check_json(doc, *mix, extra),
        Case::Text(t) => check_text(t),
        Case::Round { root, file, ms, url, how } => check_round(root, file, ms, url.as_deref(), *how),
        Case::Url { root, to, map, rooted } => check_url(root, to, map.as_ref(), *rooted),
    }
}

fn nontrivial(c: &Case) -> bool {
    match c {
        Case::Vlq(x) => *x != 0,
        Case::Set(o, ..) => o.len() > 1,
        Case::List(v) => v.iter().flatten().count() > 1,
        Case::Search(v, ..) => !v.is_empty(),
        Case::Cmp(_) | Case::Strs(_) => true,
        Case::Gen { ops, .. } => ops.len() > 2,
        Case::Valid { ms, .. } => !ms.is_empty(),
        Case::Basic { doc, .. } => !doc.segs.is_empty() && !doc.sources.is_empty(),
        Case::Indexed { doc, .. } => !doc.sections.is_empty(),
        Case::Json { doc, .. } => doc.sources.is_some() || doc.sections.is_some(),
        Case::Text(t) => t.len() > 20,
        Case::Round { ms, .. } => !ms.is_empty(),
        Case::Url { .. } => true,
    }
}

/// smaller failing case, by dropping list elements
fn shrink(prop: &str, c: Case) -> Case {
    let mut best = c;
    let deadline = Instant::now() + Duration::from_secs(10);
    loop {
        let mut improved = false;
        let v = serde_json::to_value(&best).unwrap();
        if v.to_string().len() > 60_000 {
            return best;
        }
        let mut cands = vec![];
        smaller(&v, &mut |x| cands.push(x));
        for x in cands {
            if Instant::now() > deadline {
                return best;
            }
            if let Ok(c) = serde_json::from_value::<Case>(x) {
                if sound(&c) && quiet(|| run(prop, &c)).map_or(true, |x| x.is_err()) {
                    best = c;
                    improved = true;
                    break;
                }
            }
        }
        if !improved {
            return best;
        }
    }
}
/// cases must stay inside the property's domain: indices inside the tables, URLs that parse
/// (the reference refuses the others, as the code under test may)
fn sound(c: &Case) -> bool {
    let doc_ok = |d: &Doc| d.segs.iter().all(|s| s.2.map_or(true, |o| o.0 < d.sources.len() && o.3.map_or(true, |n| n < d.names.len())));
    let names = |qs: &[Q]| -> Vec<String> {
        qs.iter()
            .filter_map(|q| match q {
                Q::Gen(s, ..) | Q::All(s, ..) | Q::Content(s, _) => Some(s.clone()),
                _ => None,
            })
            .collect()
    };
    let urls = |d: &Doc, url: Option<&str>, qs: &[Q]| {
        d.abs(url);
        for s in names(qs) {
            urlref::compute_source_url(None, &s, url);
            urlref::compute_source_url(d.root.as_deref(), &s, url);
        }
    };
    match c {
        Case::Basic { doc, url, qs } => doc_ok(doc) && quiet(|| urls(doc, url.as_deref(), qs)).is_ok(),
        Case::Indexed { doc, url, qs } => doc.sections.iter().all(|s| doc_ok(&s.doc)) && quiet(|| doc.sections.iter().for_each(|s| urls(&s.doc, url.as_deref(), qs))).is_ok(),
        Case::Gen { root: Some(r), ops, .. } => quiet(|| {
            ops.iter().for_each(|o| match o {
                GOp::Content(s, _) => drop(urlref::relative(r, s)),
                GOp::Add(m) => drop(m.src.as_ref().map(|s| urlref::relative(r, s))),
                _ => {}
            })
        })
        .is_ok(),
        Case::Round { root, ms, url, .. } => quiet(|| ms.iter().for_each(|m| drop(m.src.as_ref().map(|s| urlref::compute_source_url(root.as_deref(), s, url.as_deref()))))).is_ok(),
        Case::Url { root, to, map, .. } => urlmodel::ref_ok(root) && urlmodel::ref_ok(to) && map.as_ref().map_or(true, urlmodel::ref_ok),
        _ => true,
    }
}
fn smaller(v: &Value, f: &mut dyn FnMut(Value)) {
    match v {
        Value::Array(a) => {
            let n = a.len();
            for k in [n / 2, n / 4] {
                if k > 1 {
                    let mut i = 0;
                    while i < n {
                        let mut b = a.clone();
                        b.drain(i..(i + k).min(n));
                        f(Value::Array(b));
                        i += k;
                    }
                }
            }
            for i in 0..n {
                let mut b = a.clone();
                b.remove(i);
                f(Value::Array(b));
            }
            for i in 0..n {
                smaller(&a[i], &mut |x| {
                    let mut b = a.clone();
                    b[i] = x;
                    f(Value::Array(b))
                });
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                smaller(x, &mut |y| {
                    let mut b = o.clone();
                    b.insert(k.clone(), y);
                    f(Value::Object(b))
                });
            }
        }
        _ => {}
    }
}

fn exhaustive_vlq(deadline: Instant) -> (u64, bool, Option<(Case, String)>) {
    let n = std::thread::available_parallelism().map_or(4, |x| x.get()) as u64;
    let (count_, stop) = (AtomicU64::new(0), AtomicBool::new(false));
    let found = Mutex::new(None);
    let chunk = 1u64 << 16;
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..n {
            s.spawn(|| loop {
                let k = next.fetch_add(1, AO::Relaxed);
                if k >= (1u64 << 32) / chunk || stop.load(AO::Relaxed) || Instant::now() > deadline {
                    return;
                }
                // from 0 outwards
                for i in 0..chunk {
                    let x = (k * chunk + i) as u32;
                    let x = if x % 2 == 0 { (x / 2) as i32 } else { -((x / 2) as i64 + 1) as i32 };
                    if let Err(e) = check_vlq(x) {
                        let mut f = found.lock().unwrap();
                        if f.is_none() {
                            *f = Some((Case::Vlq(x), e));
                        }
                        stop.store(true, AO::Relaxed);
                        return;
                    }
                }
                count_.fetch_add(chunk, AO::Relaxed);
            });
        }
    });
    let c = count_.load(AO::Relaxed);
    (c, c == 1u64 << 32, found.into_inner().unwrap())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if args[1] == "run" {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
        let prop = v["property"].as_str().unwrap().to_string();
        let c: Case = serde_json::from_value(v["case"].clone()).unwrap();
        match quiet(|| run(&prop, &c)).unwrap_or_else(|e| Err(format!("panicked: {}", e))) {
            Ok(()) => println!("the property holds on this case"),
            Err(e) => {
                println!("property={} FAILS: {}", prop, e);
                std::process::exit(1);
            }
        }
        return;
    }
    let prop = args[2].as_str();
    let seed: u64 = args[3].parse().unwrap();
    let secs: f64 = args[4].parse().unwrap();
    let max: u64 = args[5].parse().unwrap();
    let l: Value = serde_json::from_str(&std::fs::read_to_string(&args[6]).unwrap()).unwrap();
    let ints = |k: &str| l[k].as_array().map_or(vec![], |a| a.iter().filter_map(|x| x.as_i64()).collect());
    let strs = |k: &str| l[k].as_array().map_or(vec![], |a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect());
    let lits = Lits { ints: ints("ints"), strs: strs("strs"), new_ints: ints("new_ints"), new_strs: strs("new_strs") };
    let deadline = Instant::now() + Duration::from_secs_f64(secs);
    // work is split over a fixed number of streams, so that a run is a function of the seed
    let n = 8u64;
    let (evaluated, stop) = (AtomicU64::new(0), AtomicBool::new(false));
    let distinct = Mutex::new(HashSet::new());
    let found: Mutex<Option<(Case, String)>> = Mutex::new(None);
    let samples = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..n {
            let (lits, evaluated, stop, distinct, found, samples) = (&lits, &evaluated, &stop, &distinct, &found, &samples);
            s.spawn(move || {
                let mut local = HashSet::new();
                for i in 0..max / n {
                    if stop.load(AO::Relaxed) || Instant::now() > deadline {
                        break;
                    }
                    let mut r = Rng { s: seed.wrapping_mul(0x1000003).wrapping_add(t * 0x51ED270B + i * 0x9E3779B1).wrapping_mul(0x2545F4914F6CDD1D), l: lits };
                    // a panic here is one of the reference (unparsable URL): not a case
                    let Ok(c) = quiet(|| generate(prop, &mut r)) else { continue };
                    if !sound(&c) {
                        continue;
                    }
                    evaluated.fetch_add(1, AO::Relaxed);
                    if nontrivial(&c) && local.len() < 2_000_000 {
                        local.insert(bytes_of(&format!("{:?}", c)));
                    }
                    if t == 0 && i > 3 && i < 6 {
                        samples.lock().unwrap().push(serde_json::to_value(&c).unwrap());
                    }
                    if let Err(e) = quiet(|| run(prop, &c)).unwrap_or_else(|e| Err(format!("panicked: {}", e))) {
                        let mut f = found.lock().unwrap();
                        if f.is_none() {
                            *f = Some((c, e));
                        }
                        stop.store(true, AO::Relaxed);
                        break;
                    }
                }
                distinct.lock().unwrap().extend(local);
            });
        }
    });
    let mut found = found.into_inner().unwrap();
    let mut exhaustive = false;
    let mut ev = evaluated.load(AO::Relaxed);
    if prop == "C01" && found.is_none() && secs > 30.0 {
        let (c, full, f) = exhaustive_vlq(Instant::now() + Duration::from_secs_f64(secs));
        ev += c;
        exhaustive = full;
        found = f;
    }
    let f = found.map(|(c, _)| {
        let c = shrink(prop, c);
        let e = run(prop, &c).err().unwrap_or_else(|| "failed once, not again".into());
        json!({"case": c, "message": e})
    });
    println!("{}", json!({"evaluated": ev, "distinct": distinct.into_inner().unwrap().len(), "exhaustive": exhaustive, "samples": samples.into_inner().unwrap(), "found": f}));
    let _: Option<SourceMapJson> = None;
    let _ = pos;
}
