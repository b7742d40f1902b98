//! URLs as contracts/urls.vrs specifies them, executable: references of the four classes on the plain
//! domain and what util's functions are to compute on them.  Independent of the url crate.
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cls {
    Abs(bool),
    Scheme,
    PathAbs,
    PathRel,
}
use Cls::*;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Auth {
    pub user: String,
    pub pass: Option<String>,
    pub host: String,
    pub port: Option<u16>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ref {
    pub cls: Cls,
    pub auth: Auth,
    pub segs: Vec<String>,
    pub query: Option<String>,
    pub frag: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct U {
    pub https: bool,
    pub auth: Auth,
    pub segs: Vec<String>,
    pub query: Option<String>,
    pub frag: Option<String>,
}

pub fn plain(c: char) -> bool {
    c.is_ascii_alphanumeric() || "-._~+,;=@&$!*()".contains(c)
}
fn all(s: &str, p: impl Fn(char) -> bool) -> bool {
    s.chars().all(p)
}
pub fn auth_ok(a: &Auth) -> bool {
    let an = |s: &str| all(s, |c| c.is_ascii_alphanumeric());
    an(&a.user)
        && a.pass.as_ref().map_or(true, |p| !a.user.is_empty() && !p.is_empty() && an(p))
        && a.host.starts_with(|c: char| c.is_ascii_lowercase())
        && all(&a.host, |c| c.is_ascii_lowercase() || c == '.')
        && a.port.map_or(true, |p| p != 80 && p != 443)
}
pub fn ref_ok(x: &Ref) -> bool {
    let q = |s: &Option<String>| s.as_ref().map_or(true, |s| all(s, |c| plain(c) || c == '/' || c == '?'));
    let n = x.segs.len();
    n > 0 && x.segs.iter().enumerate().all(|(i, s)| all(s, plain) && (i == n - 1 || !s.is_empty())) && q(&x.query) && q(&x.frag) && (!has_auth(x.cls) || auth_ok(&x.auth))
}
pub fn has_auth(c: Cls) -> bool {
    matches!(c, Abs(_) | Scheme)
}
pub fn auth_text(a: &Auth) -> String {
    let mut s = String::new();
    if !a.user.is_empty() {
        s += &a.user;
        if let Some(p) = &a.pass {
            s.push(':');
            s += p;
        }
        s.push('@');
    }
    s += &a.host;
    if let Some(p) = a.port {
        s += &format!(":{}", p);
    }
    s
}
fn scheme(h: bool) -> &'static str {
    if h {
        "https"
    } else {
        "http"
    }
}
fn rest(q: &Option<String>, f: &Option<String>) -> String {
    q.as_ref().map_or(String::new(), |s| format!("?{}", s)) + &f.as_ref().map_or(String::new(), |s| format!("#{}", s))
}
pub fn text(x: &Ref) -> String {
    let head = match x.cls {
        Abs(h) => format!("{}://{}/", scheme(h), auth_text(&x.auth)),
        Scheme => format!("//{}/", auth_text(&x.auth)),
        PathAbs => "/".to_string(),
        PathRel => String::new(),
    };
    head + &x.segs.join("/") + &rest(&x.query, &x.frag)
}
pub fn serial(u: &U) -> String {
    format!("{}://{}/{}{}", scheme(u.https), auth_text(&u.auth), u.segs.join("/"), rest(&u.query, &u.frag))
}

/// (steps above the start, the rest); with `floor`, steps above the start are lost
fn walk(mut k: usize, dirs: &[String], r: &[String], floor: bool) -> (usize, Vec<String>) {
    let mut d = dirs.to_vec();
    for (i, s) in r.iter().enumerate() {
        let last = i + 1 == r.len();
        match s.as_str() {
            ".." => {
                if d.pop().is_none() && !floor {
                    k += 1;
                }
            }
            "." => {}
            _ => {
                d.push(s.clone());
                continue;
            }
        }
        if last {
            d.push(String::new());
        }
    }
    (k, d)
}
pub fn res(dirs: &[String], r: &[String]) -> Vec<String> {
    walk(0, dirs, r, true).1
}
pub fn climb(x: &Ref) -> usize {
    walk(0, &[], &x.segs, false).0
}
fn tail(x: &Ref) -> Vec<String> {
    walk(0, &[], &x.segs, false).1
}
fn ups(k: usize, l: &[String]) -> Vec<String> {
    let mut v = vec!["..".to_string(); k];
    v.extend_from_slice(l);
    v
}
fn norm_segs(x: &Ref) -> Vec<String> {
    if x.cls == PathRel {
        ups(climb(x), &tail(x))
    } else {
        res(&[], &x.segs)
    }
}
pub fn norm(x: &Ref) -> Ref {
    Ref { segs: norm_segs(x), ..x.clone() }
}
fn strip(mut l: Vec<String>) -> Vec<String> {
    if l.last().map_or(false, |s| s.is_empty()) {
        l.pop();
    }
    l
}
fn trimmed(x: &Ref) -> Ref {
    let drop = |mut l: Vec<String>| {
        if !l.last().unwrap().is_empty() {
            l.pop();
            if l.is_empty() {
                l.push(String::new());
            }
        }
        l
    };
    let segs = if x.cls != PathRel {
        drop(norm_segs(x))
    } else {
        let (k, t) = (climb(x), tail(x));
        if t.last().unwrap().is_empty() {
            norm_segs(x)
        } else if t.len() <= 1 && (k == 0 || k == text(x).matches("..").count()) {
            ups(k, &[String::new()])
        } else {
            ups(k, &t[..t.len() - 1])
        }
    };
    Ref { segs, ..x.clone() }
}
pub fn joined(r: &Ref, x: &Ref) -> Ref {
    match (r.cls, x.cls) {
        (_, Abs(_)) => return x.clone(),
        (Scheme | PathAbs | PathRel, Scheme) | (PathAbs | PathRel, PathAbs) => return norm(x),
        _ => {}
    }
    let inherits = x.cls == PathRel && x.segs == [""] && x.query.is_none();
    Ref {
        cls: r.cls,
        auth: if x.cls == Scheme { x.auth.clone() } else { r.auth.clone() },
        segs: if x.cls != PathRel {
            res(&[], &x.segs)
        } else if r.cls == PathRel {
            let (k, s) = walk(climb(r), &strip(tail(r)), &x.segs, false);
            ups(k, &s)
        } else {
            res(&strip(norm_segs(r)), &x.segs)
        },
        query: if inherits { r.query.clone() } else { x.query.clone() },
        frag: x.frag.clone(),
    }
}
pub fn same_origin(a: &Ref, b: &Ref) -> bool {
    a.cls == b.cls && (!has_auth(a.cls) || a.auth == b.auth)
}
fn parts(a: &[String], b: &[String]) -> Vec<String> {
    let c = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    ups(a.len() - c, &b[c..])
}
pub fn relative_defined(r: &Ref, t: &Ref) -> bool {
    r.cls != PathRel || t.cls != PathRel || climb(r) <= climb(t)
}
pub fn relative_text(r: &Ref, t: &Ref) -> String {
    if !same_origin(r, t) {
        return text(&norm(t));
    }
    let l = if r.cls == PathRel && climb(t) > climb(r) {
        ups(climb(t) - climb(r) + strip(tail(r)).len(), &tail(t))
    } else if r.cls == PathRel {
        parts(&strip(tail(r)), &tail(t))
    } else {
        parts(&strip(norm_segs(r)), &norm_segs(t))
    };
    l.join("/") + &rest(&t.query, &t.frag)
}
/// the target is neither the root itself nor a directory above it, written without a slash at the end
pub fn not_above(r: &Ref, t: &Ref) -> bool {
    if r.cls == PathRel {
        climb(r) < climb(t) || (climb(r) == climb(t) && !strip(tail(r)).starts_with(&tail(t)))
    } else {
        !strip(norm_segs(r)).starts_with(&norm_segs(t))
    }
}
pub fn source_ref(sr: Option<&Ref>, s: &Ref, mu: Option<&Ref>) -> Ref {
    let mut s = s.clone();
    if sr.is_some() && s.cls == PathAbs {
        s.cls = PathRel;
    }
    let mut a = norm(&s);
    if let Some(r) = sr {
        a = joined(r, &a);
    }
    if let Some(m) = mu {
        a = joined(&trimmed(m), &a);
    }
    a
}
pub fn res_u(u: &U, x: &Ref) -> U {
    let at = |https, auth: &Auth| U { https, auth: auth.clone(), segs: res(&[], &x.segs), query: x.query.clone(), frag: x.frag.clone() };
    match x.cls {
        Abs(h) => at(h, &x.auth),
        Scheme => at(u.https, &x.auth),
        PathAbs => at(u.https, &u.auth),
        PathRel if x.segs == [""] => U { query: x.query.clone().or(u.query.clone()), frag: x.frag.clone(), ..u.clone() },
        PathRel => U { segs: res(&u.segs[..u.segs.len() - 1], &x.segs), query: x.query.clone(), frag: x.frag.clone(), ..u.clone() },
    }
}
/// the contracts assumed of the url and regex crates
pub fn assumed(r: &Ref, x: &Ref) -> Result<(), String> {
    let u = res_u(&U { https: false, auth: Auth { user: String::new(), pass: None, host: "host".into(), port: None }, segs: vec!["p0".into(), String::new()], query: None, frag: None }, r);
    let is = |v: &url::Url, u: &U| -> Result<(), String> {
        let a = &u.auth;
        let ok = v.as_str() == serial(u)
            && v.to_string() == serial(u)
            && v.path() == format!("/{}", u.segs.join("/"))
            && v.query() == u.query.as_deref()
            && v.fragment() == u.frag.as_deref()
            && v.scheme() == scheme(u.https)
            && v.username() == a.user
            && v.password() == a.pass.as_deref()
            && v.host_str() == Some(a.host.as_str())
            && v.host().map(|h| h.to_string()).as_deref() == Some(a.host.as_str())
            && v.port() == a.port;
        if ok {
            Ok(())
        } else {
            Err(format!("url crate: {:?} is not {:?}", v, u))
        }
    };
    let v = url::Url::parse(&serial(&u)).map_err(|e| e.to_string())?;
    is(&v, &u)?;
    let o = url::Url::parse(&format!("{}://{}", scheme(u.https), auth_text(&u.auth))).map_err(|e| e.to_string())?;
    is(&o, &U { segs: vec![String::new()], query: None, frag: None, ..u.clone() })?;
    is(&v.join(&text(x)).map_err(|e| e.to_string())?, &res_u(&u, x))?;
    let mut w = v.clone();
    let l = res(&[], &x.segs);
    w.set_path(&format!("/{}", l.join("/")));
    is(&w, &U { segs: l, ..u.clone() })?;
    w.set_path("");
    is(&w, &U { segs: vec![String::new()], ..u.clone() })?;
    let t = text(x);
    let m = regex::Regex::new(r"^[A-Za-z0-9\+\-\.]+:/").unwrap().is_match(&t);
    let want = t.find(":/").map_or(false, |i| i > 0 && t[..i].chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c)));
    if m != want {
        return Err(format!("regex crate: {}", t));
    }
    let p = format!("/{}", x.segs.join("/"));
    if regex::Regex::new("/?$").unwrap().replace(&p, "/") != if p.ends_with('/') { p.clone() } else { p.clone() + "/" } {
        return Err(format!("regex crate: {}", p));
    }
    Ok(())
}
