//! Reference reader and writer of source map documents (property C20), over plain JSON trees.
use rusty_source_map::source_map::{Position, Section, SourceMapJson};
use serde::de::{self, Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize as De, Serialize};
use serde_json::{json, Value};
use std::fmt;

#[derive(Clone, Debug, PartialEq, Serialize, De)]
pub struct JDoc {
    pub version: i32,
    pub sources: Option<Vec<String>>,
    pub names: Option<Vec<String>>,
    pub mappings: Option<String>,
    pub file: Option<String>,
    pub root: Option<String>,
    pub contents: Option<Vec<Option<String>>>,
    pub sections: Option<Vec<(i32, i32, Option<String>, JDoc)>>,
}
impl JDoc {
    pub fn real(&self) -> SourceMapJson {
        SourceMapJson {
            version: self.version,
            sources: self.sources.clone(),
            names: self.names.clone(),
            mappings: self.mappings.clone(),
            file: self.file.clone(),
            source_root: self.root.clone(),
            sources_content: self.contents.clone(),
            sections: self.sections.as_ref().map(|v| {
                v.iter().map(|s| Section { offset: Position { line: s.0, column: s.1 }, map: Box::new(s.3.real()), url: s.2.clone() }).collect()
            }),
        }
    }
    pub fn of(d: &SourceMapJson) -> JDoc {
        JDoc {
            version: d.version,
            sources: d.sources.clone(),
            names: d.names.clone(),
            mappings: d.mappings.clone(),
            file: d.file.clone(),
            root: d.source_root.clone(),
            contents: d.sources_content.clone(),
            sections: d.sections.as_ref().map(|v| v.iter().map(|s| (s.offset.line, s.offset.column, s.url.clone(), JDoc::of(&s.map))).collect()),
        }
    }
    /// the members of the object, absent ones left out
    pub fn members(&self) -> Vec<(&'static str, Value)> {
        let mut m = vec![("version", json!(self.version))];
        let mut put = |k, v: Option<Value>| {
            if let Some(v) = v {
                m.push((k, v))
            }
        };
        put("sources", self.sources.as_ref().map(|v| json!(v)));
        put("names", self.names.as_ref().map(|v| json!(v)));
        put("mappings", self.mappings.as_ref().map(|v| json!(v)));
        put("file", self.file.as_ref().map(|v| json!(v)));
        put("sourceRoot", self.root.as_ref().map(|v| json!(v)));
        put("sourcesContent", self.contents.as_ref().map(|v| json!(v)));
        put(
            "sections",
            self.sections.as_ref().map(|v| {
                Value::Array(
                    v.iter()
                        .map(|s| {
                            let mut o = json!({"offset": {"line": s.0, "column": s.1}, "map": s.3.value()});
                            if let Some(u) = &s.2 {
                                o["url"] = json!(u);
                            }
                            o
                        })
                        .collect(),
                )
            }),
        );
        m
    }
    pub fn value(&self) -> Value {
        Value::Object(self.members().into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn depth(&self) -> usize {
        self.sections.as_ref().map_or(0, |v| v.iter().map(|s| 1 + s.3.depth()).max().unwrap_or(0))
    }
}

/// a JSON tree that keeps repeated members
#[derive(Clone, Debug)]
pub enum Raw {
    Null,
    Bool,
    Int(i64),
    Big,
    Float,
    Str(String),
    Arr(Vec<Raw>),
    Obj(Vec<(String, Raw)>),
}
struct V;
impl<'de> Visitor<'de> for V {
    type Value = Raw;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("JSON") }
    fn visit_unit<E>(self) -> Result<Raw, E> { Ok(Raw::Null) }
    fn visit_bool<E>(self, _: bool) -> Result<Raw, E> { Ok(Raw::Bool) }
    fn visit_i64<E>(self, v: i64) -> Result<Raw, E> { Ok(Raw::Int(v)) }
    fn visit_u64<E>(self, v: u64) -> Result<Raw, E> { Ok(if v <= i64::MAX as u64 { Raw::Int(v as i64) } else { Raw::Big }) }
    fn visit_f64<E>(self, _: f64) -> Result<Raw, E> { Ok(Raw::Float) }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Raw, E> { Ok(Raw::Str(v.to_string())) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Raw, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element()? {
            v.push(x);
        }
        Ok(Raw::Arr(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Raw, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_entry()? {
            v.push(x);
        }
        Ok(Raw::Obj(v))
    }
}
impl<'de> Deserialize<'de> for Raw {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Raw, D::Error> { d.deserialize_any(V) }
}
/// the standard names
pub const KEYS: &[&str] = &["version", "sources", "names", "mappings", "file", "sourceRoot", "sourcesContent", "sections", "offset", "map", "url", "line", "column"];
/// Bad: cannot be read as a document.  Open: the property says nothing (repeated members, arrays for objects).
pub enum No {
    Bad,
    Open,
}
fn get<'a>(o: &'a [(String, Raw)], k: &str) -> Result<Option<&'a Raw>, No> {
    let mut it = o.iter().filter(|e| e.0 == k);
    let r = it.next();
    if it.next().is_some() {
        return Err(No::Open);
    }
    Ok(r.map(|e| &e.1))
}
fn int(r: Option<&Raw>) -> Result<i32, No> {
    match r {
        Some(Raw::Int(v)) if *v >= i32::MIN as i64 && *v <= i32::MAX as i64 => Ok(*v as i32),
        _ => Err(No::Bad),
    }
}
fn text(r: &Raw) -> Result<String, No> {
    if let Raw::Str(s) = r { Ok(s.clone()) } else { Err(No::Bad) }
}
fn opt<T>(r: Option<&Raw>, f: impl Fn(&Raw) -> Result<T, No>) -> Result<Option<T>, No> {
    match r {
        None | Some(Raw::Null) => Ok(None),
        Some(x) => f(x).map(Some),
    }
}
fn list<T>(r: &Raw, f: impl Fn(&Raw) -> Result<T, No>) -> Result<Vec<T>, No> {
    if let Raw::Arr(v) = r { v.iter().map(f).collect() } else { Err(No::Bad) }
}
/// anything repeated or written as an array anywhere makes the verdict open
fn both<T>(v: Vec<Result<(), No>>, r: Result<T, No>) -> Result<T, No> {
    if v.iter().any(|x| matches!(x, Err(No::Open))) || matches!(r, Err(No::Open)) { Err(No::Open) } else { r }
}
fn obj(r: &Raw) -> Result<&[(String, Raw)], No> {
    match r {
        Raw::Obj(o) => Ok(o),
        Raw::Arr(_) => Err(No::Open),
        _ => Err(No::Bad),
    }
}
pub fn read(r: &Raw) -> Result<JDoc, No> {
    let o = obj(r)?;
    let keys = ["version", "sources", "names", "mappings", "file", "sourceRoot", "sourcesContent", "sections"];
    let reps = keys.iter().map(|k| get(o, k).map(|_| ())).collect::<Vec<_>>();
    if reps.iter().any(|x| x.is_err()) {
        return Err(No::Open);
    }
    let g = |k| get(o, k).unwrap_or(None);
    let sections = opt(g("sections"), |x| list(x, section));
    let rest = (|| {
        Ok(JDoc {
            version: int(g("version"))?,
            sources: opt(g("sources"), |x| list(x, text))?,
            names: opt(g("names"), |x| list(x, text))?,
            mappings: opt(g("mappings"), text)?,
            file: opt(g("file"), text)?,
            root: opt(g("sourceRoot"), text)?,
            contents: opt(g("sourcesContent"), |x| list(x, |y| opt(Some(y), text)))?,
            sections: None,
        })
    })();
    match (rest, sections) {
        (_, Err(No::Open)) => Err(No::Open),
        (r, Err(No::Bad)) => both(vec![], r.and(Err(No::Bad))),
        (r, Ok(s)) => r.map(|d| JDoc { sections: s, ..d }),
    }
}
fn section(r: &Raw) -> Result<(i32, i32, Option<String>, JDoc), No> {
    let o = obj(r)?;
    let (off, map, url) = (get(o, "offset")?, get(o, "map")?, get(o, "url")?);
    let m = map.map_or(Err(No::Bad), read);
    let p = off.map_or(Err(No::Bad), |x| {
        let o = obj(x)?;
        Ok((int(get(o, "line")?)?, int(get(o, "column")?)?))
    });
    match (m, p) {
        (Err(No::Open), _) | (_, Err(No::Open)) => Err(No::Open),
        (Ok(m), Ok(p)) => Ok((p.0, p.1, opt(url, text)?, m)),
        _ => Err(No::Bad),
    }
}
