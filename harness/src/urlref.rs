//! Reference URL functions for the bounded part of the checks: a frozen copy of
//! the behaviour of util.rs on well-formed URLs (used only as an oracle for
//! the functions whose contracts are assumed).
use regex::Regex;
use url::Url;

#[derive(PartialEq, Clone, Copy)]
enum Ty {
    Abs,
    PathAbs,
    PathRel,
    Scheme,
}

thread_local! { static RE: Regex = Regex::new(r"^[A-Za-z0-9\+\-\.]+:/").unwrap(); }
const PROTO: &str = "http:";
const HOST: &str = "http://host";

fn ty(s: &str) -> Ty {
    if s.starts_with("//") {
        Ty::Scheme
    } else if s.starts_with('/') {
        Ty::PathAbs
    } else if RE.with(|r| r.is_match(s)) {
        Ty::Abs
    } else {
        Ty::PathRel
    }
}

fn safe_base(input: &str) -> String {
    let n = input.split("..").count() - 1;
    let mut id = 0;
    let seg = loop {
        let s = format!("p{}", id);
        if !input.contains(&s) {
            break s;
        }
        id += 1;
    };
    let mut b = format!("{}/", HOST);
    for _ in 0..n {
        b.push_str(&seg);
        b.push('/');
    }
    b
}

fn compute_relative(root: &str, target: &str) -> String {
    let root = Url::parse(root).unwrap();
    let target = Url::parse(target).unwrap();
    let mut t: Vec<&str> = target.path().split('/').collect();
    let mut r: Vec<&str> = root.path().split('/').collect();
    if r.last().map_or(false, |x| x.is_empty()) {
        r.pop();
    }
    while !t.is_empty() && !r.is_empty() && t[0] == r[0] {
        t.remove(0);
        r.remove(0);
    }
    let mut parts: Vec<&str> = r.iter().map(|_| "..").collect();
    parts.extend(t);
    let mut s = parts.join("/");
    if let Some(q) = target.query() {
        s.push('?');
        s.push_str(q);
    }
    if let Some(f) = target.fragment() {
        s.push('#');
        s.push_str(f);
    }
    s
}

fn safe(input: &str, cb: impl Fn(&mut Url)) -> String {
    let t = ty(input);
    let base = safe_base(input);
    let mut u = Url::parse(&base).unwrap().join(input).unwrap();
    cb(&mut u);
    let res = u.to_string();
    match t {
        Ty::Abs => res,
        Ty::Scheme => res[PROTO.len()..].to_string(),
        Ty::PathAbs => res[HOST.len()..].to_string(),
        Ty::PathRel => compute_relative(&base, &res),
    }
}

pub fn normalize(s: &str) -> String {
    safe(s, |_| {})
}
fn ensure_dir(s: &str) -> String {
    safe(s, |u| {
        let p = u.path();
        let p = if p.ends_with('/') { p.to_string() } else { format!("{}/", p) };
        u.set_path(&p);
    })
}
fn trim_filename(s: &str) -> String {
    safe(s, |u| {
        let p = u.path().to_string();
        let mut v: Vec<&str> = p.split('/').collect();
        if !v.last().unwrap().is_empty() {
            v.pop();
        }
        u.set_path(&v.join("/"));
    })
}
fn with_base(url: &str, base: &str) -> String {
    Url::parse(base).unwrap().join(url).unwrap().to_string()
}

pub fn join(root: &str, path: &str) -> String {
    let (pt, rt) = (ty(path), ty(root));
    let root = ensure_dir(root);
    if pt == Ty::Abs {
        return path.to_string();
    }
    if rt == Ty::Abs {
        return with_base(path, &root);
    }
    if pt == Ty::Scheme {
        return normalize(path);
    }
    if rt == Ty::Scheme {
        return with_base(path, &with_base(&root, HOST))[PROTO.len()..].to_string();
    }
    if pt == Ty::PathAbs {
        return normalize(path);
    }
    if rt == Ty::PathAbs {
        return with_base(path, &with_base(&root, HOST))[HOST.len()..].to_string();
    }
    let base = safe_base(&format!("{}{}", path, root));
    let np = with_base(path, &with_base(&root, &base));
    compute_relative(&base, &np)
}

pub fn relative(root: &str, target: &str) -> String {
    let t = ty(root);
    if t == ty(target) {
        let base = safe_base(&format!("{}{}", root, target));
        let r = Url::parse(&base).unwrap().join(root).unwrap();
        let g = Url::parse(&base).unwrap().join(target).unwrap();
        if g.join("").is_ok()
            && r.scheme() == g.scheme()
            && r.username() == g.username()
            && r.password() == g.password()
            && r.host() == g.host()
            && r.port() == g.port()
        {
            return compute_relative(r.as_str(), g.as_str());
        }
    }
    normalize(target)
}

pub fn compute_source_url(root: Option<&str>, source: &str, map: Option<&str>) -> String {
    let mut s = source.to_string();
    if root.is_some() && ty(source) == Ty::PathAbs {
        s = source.replacen('/', "", 1);
    }
    let mut url = normalize(&s);
    if let Some(r) = root {
        url = join(r, &url);
    }
    if let Some(m) = map {
        url = join(&trim_filename(m), &url);
    }
    url
}
