broadcast use crate::vshim::group_strings;
// URLs as the WHATWG algorithm sees them, on the plain domain: http and https URLs, references of the
// four classes, path segments without special characters.  The contracts on url::Url and regex::Regex
// at the end are assumed (and replayed against the real crates); everything else is proved.

pub type Seg = Seq<char>;

/// user[:pass]@host[:port]
pub struct Auth { pub user: Seq<char>, pub pass: Option<Seq<char>>, pub host: Seq<char>, pub port: Option<u16> }
pub enum Cls { Abs(bool), Scheme, PathAbs, PathRel }
/// a URL or reference as written
pub struct Ref { pub cls: Cls, pub auth: Auth, pub segs: Seq<Seg>, pub query: Option<Seq<char>>, pub frag: Option<Seq<char>> }
/// a parsed URL: true = https
pub struct U { pub https: bool, pub auth: Auth, pub segs: Seq<Seg>, pub query: Option<Seq<char>>, pub frag: Option<Seq<char>> }

// ---- the domain
pub open spec fn lower(c: char) -> bool { 'a' <= c <= 'z' }
pub open spec fn alnum(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' }
/// characters of path segments: none is a delimiter, none is percent-encoded
pub open spec fn plain(c: char) -> bool {
    alnum(c) || c == '-' || c == '.' || c == '_' || c == '~' || c == '+' || c == ',' || c == ';' || c == '=' || c == '@'
        || c == '&' || c == '$' || c == '!' || c == '*' || c == '(' || c == ')'
}
pub open spec fn plainq(c: char) -> bool { plain(c) || c == '/' || c == '?' }
pub open spec fn all_of(s: Seq<char>, p: spec_fn(char) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) }
pub open spec fn seg_ok(s: Seg) -> bool { forall|i: int| 0 <= i < s.len() ==> plain(#[trigger] s[i]) }
pub open spec fn q_ok(s: Option<Seq<char>>) -> bool { s is Some ==> forall|i: int| 0 <= i < s->0.len() ==> plainq(#[trigger] s->0[i]) }
/// a path: only the last segment may be empty
pub open spec fn list_ok(l: Seq<Seg>) -> bool { l.len() > 0 && forall|i: int| 0 <= i < l.len() ==> seg_ok(#[trigger] l[i]) && (i < l.len() - 1 ==> l[i].len() > 0) }
/// directories: no segment is empty
pub open spec fn dirs_ok(l: Seq<Seg>) -> bool { forall|i: int| 0 <= i < l.len() ==> seg_ok(#[trigger] l[i]) && l[i].len() > 0 }
pub open spec fn dot() -> Seg { seq!['.'] }
pub open spec fn dotdot() -> Seg { seq!['.', '.'] }
pub open spec fn nil() -> Seg { Seq::<char>::empty() }
pub open spec fn nodots(l: Seq<Seg>) -> bool { forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] != dot() && l[i] != dotdot() }
pub open spec fn auth_ok(a: Auth) -> bool {
    &&& forall|i: int| 0 <= i < a.user.len() ==> alnum(#[trigger] a.user[i])
    &&& a.pass is Some ==> a.user.len() > 0 && a.pass->0.len() > 0 && forall|i: int| 0 <= i < a.pass->0.len() ==> alnum(#[trigger] a.pass->0[i])
    &&& a.host.len() > 0 && lower(a.host[0]) && forall|i: int| 0 <= i < a.host.len() ==> lower(#[trigger] a.host[i]) || a.host[i] == '.'
    &&& a.port is Some ==> a.port->0 != 80 && a.port->0 != 443
}
pub open spec fn has_auth(c: Cls) -> bool { c is Abs || c is Scheme }
pub open spec fn ref_ok(x: Ref) -> bool {
    list_ok(x.segs) && q_ok(x.query) && q_ok(x.frag) && (has_auth(x.cls) ==> auth_ok(x.auth))
}
pub open spec fn u_ok(u: U) -> bool { auth_ok(u.auth) && list_ok(u.segs) && nodots(u.segs) && q_ok(u.query) && q_ok(u.frag) }

// ---- as text
pub open spec fn slash() -> Seq<char> { seq!['/'] }
pub open spec fn joined(l: Seq<Seg>) -> Seq<char> { crate::vshim::join_text(l, seq!['/']) }
pub open spec fn auth_text(a: Auth) -> Seq<char> {
    (if a.user.len() > 0 { a.user + (match a.pass { Some(p) => seq![':'] + p, None => nil() }) + seq!['@'] } else { nil() })
        + a.host + (match a.port { Some(p) => seq![':'] + crate::vshim::decimal(p as int), None => nil() })
}
pub open spec fn scheme(https: bool) -> Seq<char> { if https { seq!['h', 't', 't', 'p', 's'] } else { seq!['h', 't', 't', 'p'] } }
pub open spec fn rest_text(q: Option<Seq<char>>, f: Option<Seq<char>>) -> Seq<char> {
    (match q { Some(s) => seq!['?'] + s, None => nil() }) + (match f { Some(s) => seq!['#'] + s, None => nil() })
}
pub open spec fn origin_text(https: bool, a: Auth) -> Seq<char> { scheme(https) + seq![':', '/', '/'] + auth_text(a) }
pub open spec fn head_text(x: Ref) -> Seq<char> {
    match x.cls {
        Cls::Abs(https) => origin_text(https, x.auth) + slash(),
        Cls::Scheme => seq!['/', '/'] + auth_text(x.auth) + slash(),
        Cls::PathAbs => slash(),
        Cls::PathRel => nil(),
    }
}
pub open spec fn text(x: Ref) -> Seq<char> { head_text(x) + joined(x.segs) + rest_text(x.query, x.frag) }
pub open spec fn serial(u: U) -> Seq<char> { origin_text(u.https, u.auth) + slash() + joined(u.segs) + rest_text(u.query, u.frag) }
pub open spec fn wf(s: Seq<char>) -> bool { exists|x: Ref| ref_ok(x) && #[trigger] text(x) == s }
pub open spec fn wf_u(s: Seq<char>) -> bool { exists|u: U| u_ok(u) && #[trigger] serial(u) == s }

// ---- resolution of paths
pub open spec fn up(l: Seq<Seg>) -> Seq<Seg> { if l.len() > 0 { l.drop_last() } else { l } }
/// the path reached from directory `dirs` by the segments r
pub open spec fn res(dirs: Seq<Seg>, r: Seq<Seg>) -> Seq<Seg>
    decreases r.len()
{
    if r.len() == 0 { dirs }
    else if r.len() == 1 {
        if r[0] == dotdot() { up(dirs).push(nil()) } else if r[0] == dot() { dirs.push(nil()) } else { dirs.push(r[0]) }
    } else if r[0] == dotdot() { res(up(dirs), r.drop_first()) }
    else if r[0] == dot() { res(dirs, r.drop_first()) }
    else { res(dirs.push(r[0]), r.drop_first()) }
}
/// the same where one may climb above the start: (number of steps above it, the rest)
pub open spec fn rel(k: nat, dirs: Seq<Seg>, r: Seq<Seg>) -> (nat, Seq<Seg>)
    decreases r.len()
{
    if r.len() == 0 { (k, dirs) }
    else if r.len() == 1 {
        if r[0] == dotdot() { if dirs.len() > 0 { (k, dirs.drop_last().push(nil())) } else { (k + 1, dirs.push(nil())) } }
        else if r[0] == dot() { (k, dirs.push(nil())) }
        else { (k, dirs.push(r[0])) }
    } else if r[0] == dotdot() {
        if dirs.len() > 0 { rel(k, dirs.drop_last(), r.drop_first()) } else { rel(k + 1, dirs, r.drop_first()) }
    } else if r[0] == dot() { rel(k, dirs, r.drop_first()) }
    else { rel(k, dirs.push(r[0]), r.drop_first()) }
}
pub open spec fn many(p: Seg, n: nat) -> Seq<Seg> { Seq::new(n, |i: int| p) }
pub open spec fn ups(k: nat) -> Seq<Seg> { many(dotdot(), k) }
/// strip the common front; climb the rest of a, descend the rest of b
pub open spec fn parts(a: Seq<Seg>, b: Seq<Seg>) -> Seq<Seg>
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] { parts(a.drop_first(), b.drop_first()) } else { ups(a.len()) + b }
}
pub open spec fn strip(l: Seq<Seg>) -> Seq<Seg> { if l.len() > 0 && l.last().len() == 0 { l.drop_last() } else { l } }
pub open spec fn slashed(l: Seq<Seg>) -> Seq<Seg> { if l.len() > 0 && l.last().len() == 0 { l } else { l.push(nil()) } }

/// the reference x resolved against the URL u
pub open spec fn res_u(u: U, x: Ref) -> U {
    match x.cls {
        Cls::Abs(https) => U { https, auth: x.auth, segs: res(Seq::empty(), x.segs), query: x.query, frag: x.frag },
        Cls::Scheme => U { https: u.https, auth: x.auth, segs: res(Seq::empty(), x.segs), query: x.query, frag: x.frag },
        Cls::PathAbs => U { https: u.https, auth: u.auth, segs: res(Seq::empty(), x.segs), query: x.query, frag: x.frag },
        Cls::PathRel =>
            if x.segs == seq![nil()] {
                U { https: u.https, auth: u.auth, segs: u.segs, query: if x.query is Some { x.query } else { u.query }, frag: x.frag }
            } else {
                U { https: u.https, auth: u.auth, segs: res(u.segs.drop_last(), x.segs), query: x.query, frag: x.frag }
            },
    }
}

// ---- what the functions of util are to compute
pub open spec fn climb(x: Ref) -> nat { rel(0, Seq::empty(), x.segs).0 }
pub open spec fn tail(x: Ref) -> Seq<Seg> { rel(0, Seq::empty(), x.segs).1 }
pub open spec fn norm_segs(x: Ref) -> Seq<Seg> {
    if x.cls is PathRel { ups(climb(x)) + tail(x) } else { res(Seq::empty(), x.segs) }
}
/// the normal form: no "." and no ".." except leading ones of a path-relative reference
pub open spec fn norm(x: Ref) -> Ref { Ref { segs: norm_segs(x), ..x } }
/// ... with a slash at the end of the path
pub open spec fn ensured(x: Ref) -> Ref { Ref { segs: slashed(norm_segs(x)), ..x } }
pub open spec fn trim_list(l: Seq<Seg>) -> Seq<Seg> {
    if l.last().len() == 0 { l } else if l.len() <= 1 { seq![nil()] } else { l.drop_last() }
}
/// ... without the last segment (m: the number of ".." in the text)
pub open spec fn trim_segs(x: Ref, m: nat) -> Seq<Seg> {
    if !(x.cls is PathRel) { trim_list(norm_segs(x)) }
    else if tail(x).last().len() == 0 { norm_segs(x) }
    else if tail(x).len() <= 1 && (climb(x) == 0 || climb(x) == m) { ups(climb(x)).push(nil()) }
    else { ups(climb(x)) + tail(x).drop_last() }
}
pub open spec fn dots_in(s: Seq<char>) -> nat { crate::vshim::count_of(s, dotdot()) }
pub open spec fn trimmed(x: Ref) -> Ref { Ref { segs: trim_segs(x, dots_in(text(x))), ..x } }
/// x resolved against the directory r
pub open spec fn joined_ref(r: Ref, x: Ref) -> Ref {
    if x.cls is Abs { x }
    else if x.cls is Scheme && !(r.cls is Abs) { norm(x) }
    else if x.cls is PathAbs && r.cls is PathRel { norm(x) }
    else if x.cls is PathAbs && r.cls is PathAbs { norm(x) }
    else {
        let inherits = x.cls is PathRel && x.segs == seq![nil()] && x.query is None;
        Ref {
            cls: r.cls,
            auth: if x.cls is Scheme { x.auth } else { r.auth },
            segs: if !(x.cls is PathRel) { res(Seq::empty(), x.segs) }
                else if r.cls is PathRel { under(climb(r), slashed(tail(r)).drop_last(), x.segs) }
                else { res(slashed(norm_segs(r)).drop_last(), x.segs) },
            query: if inherits { r.query } else { x.query },
            frag: x.frag,
        }
    }
}
pub open spec fn under(k: nat, dirs: Seq<Seg>, r: Seq<Seg>) -> Seq<Seg> { ups(rel(k, dirs, r).0) + rel(k, dirs, r).1 }
pub open spec fn same_class(a: Cls, b: Cls) -> bool {
    (a is Abs && b is Abs) || (a is Scheme && b is Scheme) || (a is PathAbs && b is PathAbs) || (a is PathRel && b is PathRel)
}
pub open spec fn same_origin(a: Ref, b: Ref) -> bool { a.cls == b.cls && (has_auth(a.cls) ==> a.auth == b.auth) }
pub open spec fn relative_segs(r: Ref, t: Ref) -> Seq<Seg> {
    if r.cls is PathRel && climb(t) > climb(r) { ups((climb(t) - climb(r) + strip(tail(r)).len()) as nat) + tail(t) }
    else if r.cls is PathRel { parts(strip(tail(r)), tail(t)) }
    else { parts(strip(norm_segs(r)), norm_segs(t)) }
}
/// relative() is specified where the target does not start below a root that climbs higher
pub open spec fn relative_defined(r: Ref, t: Ref) -> bool { r.cls is PathRel && t.cls is PathRel ==> climb(r) <= climb(t) }
pub open spec fn relative_text(r: Ref, t: Ref) -> Seq<char> {
    if same_origin(r, t) { joined(relative_segs(r, t)) + rest_text(t.query, t.frag) } else { text(norm(t)) }
}

// ---- lemmas: joined and split
pub proof fn lemma_joined_step(l: Seq<Seg>)
    ensures l.len() == 1 ==> joined(l) == l[0],
        l.len() > 1 ==> joined(l) == l[0] + slash() + joined(l.drop_first()),
        l.len() == 0 ==> joined(l) == nil(),
{}
pub proof fn lemma_joined_concat(a: Seq<Seg>, b: Seq<Seg>)
    requires a.len() > 0, b.len() > 0,
    ensures joined(a + b) == joined(a) + slash() + joined(b),
    decreases a.len()
{
    let l = a + b;
    assert(l[0] == a[0]);
    if a.len() == 1 {
        assert(l.drop_first() =~= b);
    } else {
        assert(l.drop_first() =~= a.drop_first() + b);
        lemma_joined_concat(a.drop_first(), b);
        assert(joined(l) =~= joined(a) + slash() + joined(b));
    }
}
pub open spec fn plainp(c: char) -> bool { plain(c) || c == '/' }
pub proof fn lemma_joined_chars(l: Seq<Seg>)
    requires forall|i: int| 0 <= i < l.len() ==> seg_ok(#[trigger] l[i]),
    ensures forall|i: int| 0 <= i < joined(l).len() ==> plainp(#[trigger] joined(l)[i]),
    decreases l.len()
{
    if l.len() > 1 {
        let d = l.drop_first();
        assert forall|i: int| 0 <= i < d.len() implies seg_ok(#[trigger] d[i]) by { assert(d[i] == l[i + 1]); }
        lemma_joined_chars(d);
        assert(seg_ok(l[0]));
        let n = l[0].len() as int;
        assert forall|i: int| 0 <= i < joined(l).len() implies plainp(#[trigger] joined(l)[i]) by {
            if i < n { assert(joined(l)[i] == l[0][i]); }
            else if i == n { assert(joined(l)[i] == '/'); }
            else { assert(joined(l)[i] == joined(d)[i - n - 1]); }
        }
    } else if l.len() == 1 {
        assert(seg_ok(l[0]));
        assert forall|i: int| 0 <= i < joined(l).len() implies plainp(#[trigger] joined(l)[i]) by { assert(joined(l)[i] == l[0][i]); }
    }
}
pub open spec fn noslash(s: Seg) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '/' }
pub proof fn lemma_split_piece(p: Seg, rest: Seq<char>)
    requires noslash(p),
    ensures crate::vshim::split_text(p, '/') == seq![p],
        crate::vshim::split_text(p + slash() + rest, '/') == seq![p] + crate::vshim::split_text(rest, '/'),
    decreases p.len()
{
    let s = p + slash() + rest;
    if p.len() == 0 {
        assert(s[0] == '/');
        assert(s.skip(1) =~= rest);
        assert(p =~= nil());
    } else {
        let q = p.skip(1);
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != '/' by { assert(q[i] == p[i + 1]); }
        lemma_split_piece(q, rest);
        assert(s[0] == p[0] && p[0] != '/');
        assert(s.skip(1) =~= q + slash() + rest);
        let r = seq![q] + crate::vshim::split_text(rest, '/');
        assert(seq![p[0]] + q =~= p);
        assert(r[0] == q);
        assert(r.update(0, p) =~= seq![p] + crate::vshim::split_text(rest, '/'));
        assert(seq![q].update(0, p) =~= seq![p]);
    }
}
pub proof fn lemma_split_joined(l: Seq<Seg>)
    requires l.len() > 0, forall|i: int| 0 <= i < l.len() ==> seg_ok(#[trigger] l[i]),
    ensures crate::vshim::split_text(joined(l), '/') == l,
        crate::vshim::split_text(slash() + joined(l), '/') == seq![nil()] + l,
    decreases l.len()
{
    assert(seg_ok(l[0]));
    assert(noslash(l[0]));
    if l.len() == 1 {
        lemma_split_piece(l[0], nil());
        assert(l =~= seq![l[0]]);
    } else {
        let d = l.drop_first();
        assert forall|i: int| 0 <= i < d.len() implies seg_ok(#[trigger] d[i]) by { assert(d[i] == l[i + 1]); }
        lemma_split_joined(d);
        lemma_split_piece(l[0], joined(d));
        assert(seq![l[0]] + d =~= l);
    }
    lemma_split_piece(nil(), joined(l));
    assert(nil() + slash() + joined(l) =~= slash() + joined(l));
}

// ---- occurrences
pub proof fn lemma_occurs_in(a: Seq<char>, b: Seq<char>, c: Seq<char>, p: Seq<char>)
    requires crate::vshim::occurs(b, p),
    ensures crate::vshim::occurs(a + b + c, p),
{
    let i = choose|i: int| 0 <= i && i + p.len() <= b.len() && #[trigger] b.subrange(i, i + p.len()) == p;
    let s = a + b + c;
    let j = a.len() + i;
    assert(s.subrange(j, j + p.len()) =~= b.subrange(i, i + p.len()));
}
pub open spec fn avoids(l: Seq<Seg>, p: Seg) -> bool { forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] != p }
pub proof fn lemma_joined_avoids(l: Seq<Seg>, p: Seg)
    requires !crate::vshim::occurs(joined(l), p),
    ensures avoids(l, p),
    decreases l.len()
{
    if l.len() == 1 {
        if l[0] == p { assert(joined(l).subrange(0, 0int + p.len()) =~= p); }
    } else if l.len() > 1 {
        let d = l.drop_first();
        if l[0] == p { assert(joined(l).subrange(0, 0int + p.len()) =~= p); }
        if crate::vshim::occurs(joined(d), p) {
            lemma_occurs_in(l[0] + slash(), joined(d), nil(), p);
            assert(l[0] + slash() + joined(d) + nil() =~= joined(l));
        }
        lemma_joined_avoids(d, p);
        assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] != p by { if i > 0 { assert(d[i - 1] == l[i]); } }
    }
}
pub proof fn lemma_text_avoids(x: Ref, p: Seg)
    requires !crate::vshim::occurs(text(x), p),
    ensures avoids(x.segs, p),
{
    if crate::vshim::occurs(joined(x.segs), p) { lemma_occurs_in(head_text(x), joined(x.segs), rest_text(x.query, x.frag), p); }
    lemma_joined_avoids(x.segs, p);
}

// ---- counting ".."
pub proof fn lemma_count_skip(s: Seq<char>)
    requires s.len() > 0,
    ensures dots_in(s.skip(1)) <= dots_in(s) <= 1 + dots_in(s.skip(1)),
    decreases s.len()
{
    if s.len() >= 2 {
        lemma_count_skip(s.skip(1));
        assert(s.skip(1).skip(1) =~= s.skip(2));
    }
}
pub proof fn lemma_count_add(a: Seq<char>, b: Seq<char>)
    ensures dots_in(a + b) >= dots_in(a) + dots_in(b),
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else if a.len() >= 2 && a.take(2) == dotdot() {
        lemma_count_add(a.skip(2), b);
        assert((a + b).take(2) =~= a.take(2));
        assert((a + b).skip(2) =~= a.skip(2) + b);
    } else {
        lemma_count_add(a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_count_skip(a + b);
    }
}
pub open spec fn dds(l: Seq<Seg>) -> nat
    decreases l.len()
{
    if l.len() == 0 { 0 } else { (if l[0] == dotdot() { 1nat } else { 0 }) + dds(l.drop_first()) }
}
pub proof fn lemma_count_joined(l: Seq<Seg>)
    ensures dds(l) <= dots_in(joined(l)),
    decreases l.len()
{
    if l.len() > 0 {
        if l[0] == dotdot() { assert(dotdot().take(2) =~= dotdot()); assert(dots_in(l[0]) >= 1); }
        let d = l.drop_first();
        lemma_count_joined(d);
        if l.len() == 1 {
            assert(dds(d) == 0);
        } else {
            lemma_count_add(l[0], slash());
            lemma_count_add(l[0] + slash(), joined(d));
        }
    }
}
pub proof fn lemma_count_text(x: Ref)
    ensures dds(x.segs) <= dots_in(text(x)),
{
    lemma_count_joined(x.segs);
    lemma_count_add(head_text(x), joined(x.segs));
    lemma_count_add(head_text(x) + joined(x.segs), rest_text(x.query, x.frag));
}

// ---- resolution
pub proof fn lemma_dirs_drop(l: Seq<Seg>)
    requires dirs_ok(l), nodots(l),
    ensures dirs_ok(up(l)), nodots(up(l)),
{
    if l.len() > 0 {
        let d = l.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies seg_ok(#[trigger] d[i]) && d[i].len() > 0 && d[i] != dot() && d[i] != dotdot() by { assert(d[i] == l[i]); }
    }
}
pub proof fn lemma_dirs_push(l: Seq<Seg>, x: Seg)
    requires dirs_ok(l), nodots(l), seg_ok(x), x != dot(), x != dotdot(),
    ensures list_ok(l.push(x)), nodots(l.push(x)), x.len() > 0 ==> dirs_ok(l.push(x)),
{
    let d = l.push(x);
    assert forall|i: int| 0 <= i < d.len() implies seg_ok(#[trigger] d[i]) && (i < d.len() - 1 ==> d[i].len() > 0) && d[i] != dot() && d[i] != dotdot() by {
        if i < l.len() { assert(d[i] == l[i]); }
    }
}
pub proof fn lemma_list_tail(r: Seq<Seg>)
    requires list_ok(r), r.len() > 1,
    ensures list_ok(r.drop_first()), r[0].len() > 0, seg_ok(r[0]),
{
    let d = r.drop_first();
    assert(seg_ok(r[0]));
    assert forall|i: int| 0 <= i < d.len() implies seg_ok(#[trigger] d[i]) && (i < d.len() - 1 ==> d[i].len() > 0) by { assert(d[i] == r[i + 1]); }
}
pub proof fn lemma_res_ok(dirs: Seq<Seg>, r: Seq<Seg>)
    requires dirs_ok(dirs), nodots(dirs), list_ok(r),
    ensures list_ok(res(dirs, r)), nodots(res(dirs, r)),
    decreases r.len()
{
    assert(seg_ok(r[0]));
    assert(nil().len() == 0 && dot().len() == 1 && dotdot().len() == 2);
    lemma_dirs_drop(dirs);
    lemma_dirs_push(dirs, nil());
    lemma_dirs_push(up(dirs), nil());
    if r[0] != dot() && r[0] != dotdot() { lemma_dirs_push(dirs, r[0]); }
    if r.len() > 1 {
        lemma_list_tail(r);
        if r[0] == dotdot() { lemma_res_ok(up(dirs), r.drop_first()); }
        else if r[0] == dot() { lemma_res_ok(dirs, r.drop_first()); }
        else { lemma_res_ok(dirs.push(r[0]), r.drop_first()); }
    }
}
pub proof fn lemma_rel_ok(k: nat, dirs: Seq<Seg>, r: Seq<Seg>)
    requires dirs_ok(dirs), nodots(dirs), list_ok(r),
    ensures list_ok(rel(k, dirs, r).1), nodots(rel(k, dirs, r).1), k <= rel(k, dirs, r).0 <= k + dds(r),
    decreases r.len()
{
    assert(seg_ok(r[0]));
    assert(nil().len() == 0 && dot().len() == 1 && dotdot().len() == 2);
    lemma_dirs_drop(dirs);
    lemma_dirs_push(dirs, nil());
    lemma_dirs_push(up(dirs), nil());
    if r[0] != dot() && r[0] != dotdot() { lemma_dirs_push(dirs, r[0]); }
    if r.len() == 1 { assert(dds(r.drop_first()) == 0); }
    if r.len() > 1 {
        lemma_list_tail(r);
        if r[0] == dotdot() { if dirs.len() > 0 { lemma_rel_ok(k, dirs.drop_last(), r.drop_first()); } else { lemma_rel_ok(k + 1, dirs, r.drop_first()); } }
        else if r[0] == dot() { lemma_rel_ok(k, dirs, r.drop_first()); }
        else { lemma_rel_ok(k, dirs.push(r[0]), r.drop_first()); }
    }
}
pub proof fn lemma_rel_avoids(k: nat, dirs: Seq<Seg>, r: Seq<Seg>, p: Seg)
    requires avoids(dirs, p), avoids(r, p), p.len() > 0,
    ensures avoids(rel(k, dirs, r).1, p),
    decreases r.len()
{
    let d = r.drop_first();
    if r.len() > 0 {
        assert(r[0] != p);
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != p by { assert(d[i] == r[i + 1]); }
        if dirs.len() > 0 { assert forall|i: int| 0 <= i < dirs.drop_last().len() implies #[trigger] dirs.drop_last()[i] != p by { assert(dirs.drop_last()[i] == dirs[i]); } }
        assert forall|i: int| 0 <= i < dirs.push(r[0]).len() implies #[trigger] dirs.push(r[0])[i] != p by { if i < dirs.len() { assert(dirs.push(r[0])[i] == dirs[i]); } }
    }
    if r.len() > 1 {
        if r[0] == dotdot() { if dirs.len() > 0 { lemma_rel_avoids(k, dirs.drop_last(), d, p); } else { lemma_rel_avoids(k + 1, dirs, d, p); } }
        else if r[0] == dot() { lemma_rel_avoids(k, dirs, d, p); }
        else { lemma_rel_avoids(k, dirs.push(r[0]), d, p); }
    }
}
/// from a base of m equal directories, resolution is `rel` below m - k of them
pub proof fn lemma_res_rel(p: Seg, m: nat, k: nat, dirs: Seq<Seg>, r: Seq<Seg>)
    requires k + dds(r) <= m, r.len() > 0,
    ensures rel(k, dirs, r).0 <= m,
        res(many(p, (m - k) as nat) + dirs, r) == many(p, (m - rel(k, dirs, r).0) as nat) + rel(k, dirs, r).1,
    decreases r.len()
{
    let b = many(p, (m - k) as nat);
    let d = r.drop_first();
    assert(b + dirs.push(r[0]) =~= (b + dirs).push(r[0]));
    assert(b + dirs.push(nil()) =~= (b + dirs).push(nil()));
    assert(dds(d) <= dds(r));
    if r[0] == dotdot() {
        assert(dds(r) >= 1);
        if dirs.len() > 0 {
            assert((b + dirs).drop_last() =~= b + dirs.drop_last());
            assert(b + dirs.drop_last().push(nil()) =~= (b + dirs.drop_last()).push(nil()));
            if r.len() > 1 { lemma_res_rel(p, m, k, dirs.drop_last(), d); }
        } else {
            let b2 = many(p, (m - k - 1) as nat);
            assert(up(b + dirs) =~= b2 + dirs);
            assert((b2 + dirs).push(nil()) =~= b2 + dirs.push(nil()));
            if r.len() > 1 { lemma_res_rel(p, m, k + 1, dirs, d); }
        }
    } else if r[0] == dot() {
        if r.len() > 1 { lemma_res_rel(p, m, k, dirs, d); }
    } else if r.len() > 1 {
        lemma_res_rel(p, m, k, dirs.push(r[0]), d);
    }
}
/// without leaving the start, what lies above it does not matter
pub proof fn lemma_rel_below(k: nat, above: Seq<Seg>, dirs: Seq<Seg>, r: Seq<Seg>)
    requires rel(0, dirs, r).0 == 0, r.len() > 0,
    ensures rel(k, above + dirs, r) == (k, above + rel(0, dirs, r).1),
        res(above + dirs, r) == above + rel(0, dirs, r).1,
    decreases r.len()
{
    let d = r.drop_first();
    assert((above + dirs).push(r[0]) =~= above + dirs.push(r[0]));
    assert((above + dirs).push(nil()) =~= above + dirs.push(nil()));
    if r[0] == dotdot() {
        if dirs.len() == 0 {
            if r.len() > 1 { lemma_rel_grows(1, dirs, d); }
        } else {
            assert((above + dirs).drop_last() =~= above + dirs.drop_last());
            assert((above + dirs.drop_last()).push(nil()) =~= above + dirs.drop_last().push(nil()));
            if r.len() > 1 { lemma_rel_below(k, above, dirs.drop_last(), d); }
        }
    } else if r.len() > 1 {
        if r[0] == dot() { lemma_rel_below(k, above, dirs, d); } else { lemma_rel_below(k, above, dirs.push(r[0]), d); }
    }
}
pub proof fn lemma_rel_grows(k: nat, dirs: Seq<Seg>, r: Seq<Seg>)
    ensures rel(k, dirs, r).0 >= k,
    decreases r.len()
{
    if r.len() > 1 {
        let d = r.drop_first();
        if r[0] == dotdot() { if dirs.len() > 0 { lemma_rel_grows(k, dirs.drop_last(), d); } else { lemma_rel_grows(k + 1, dirs, d); } }
        else if r[0] == dot() { lemma_rel_grows(k, dirs, d); } else { lemma_rel_grows(k, dirs.push(r[0]), d); }
    }
}
/// a path without dots is followed as it is
pub proof fn lemma_rel_plain(k: nat, dirs: Seq<Seg>, l: Seq<Seg>)
    requires nodots(l), l.len() > 0,
    ensures rel(k, dirs, l) == (k, dirs + l), res(dirs, l) == dirs + l,
    decreases l.len()
{
    assert(l[0] != dot() && l[0] != dotdot());
    if l.len() == 1 { assert(dirs.push(l[0]) =~= dirs + l); }
    else {
        let d = l.drop_first();
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != dot() && d[i] != dotdot() by { assert(d[i] == l[i + 1]); }
        lemma_rel_plain(k, dirs.push(l[0]), d);
        assert(dirs.push(l[0]) + d =~= dirs + l);
    }
}
/// leading climbs
pub proof fn lemma_rel_ups(k: nat, j: nat, l: Seq<Seg>)
    ensures l.len() > 0 ==> rel(k, Seq::empty(), ups(j) + l) == rel(k + j, Seq::empty(), l),
        j > 0 ==> rel(k, Seq::empty(), ups(j)) == ((k + j) as nat, seq![nil()]),
    decreases j
{
    if j == 0 { assert(ups(0) + l =~= l); }
    else {
        lemma_rel_ups(k + 1, (j - 1) as nat, l);
        let a = ups(j) + l;
        assert(a.drop_first() =~= ups((j - 1) as nat) + l);
        assert(a[0] == dotdot());
        assert(ups(j).drop_first() =~= ups((j - 1) as nat));
        assert(Seq::<Seg>::empty().push(nil()) =~= seq![nil()]);
        if j == 1 { assert(ups(1).len() == 1 && ups(1)[0] == dotdot()); }
    }
}

// ---- the way from one path to another
pub proof fn lemma_parts_common(c: Seq<Seg>, a: Seq<Seg>, b: Seq<Seg>)
    ensures parts(c + a, c + b) == parts(a, b),
    decreases c.len()
{
    if c.len() == 0 { assert(c + a =~= a); assert(c + b =~= b); }
    else {
        assert((c + a).drop_first() =~= c.drop_first() + a);
        assert((c + b).drop_first() =~= c.drop_first() + b);
        lemma_parts_common(c.drop_first(), a, b);
    }
}
pub proof fn lemma_parts_base(p: Seg, m: nat, k: nat, a: Seq<Seg>, s: Seq<Seg>)
    requires k <= m, avoids(s, p), k > 0 || a.len() == 0,
    ensures parts(many(p, m) + a, many(p, (m - k) as nat) + s) == ups((k + a.len()) as nat) + s,
{
    let c = many(p, (m - k) as nat);
    assert(many(p, m) + a =~= c + (many(p, k) + a));
    lemma_parts_common(c, many(p, k) + a, s);
    let q = many(p, k) + a;
    if k > 0 { assert(q[0] == p); if s.len() > 0 { assert(s[0] != p); } }
    assert(q.len() == k + a.len());
}
pub proof fn lemma_parts_prefix(a: Seq<Seg>, s: Seq<Seg>)
    ensures parts(a, a + s) == s,
{
    lemma_parts_common(a, Seq::empty(), s);
    assert(a + Seq::<Seg>::empty() =~= a);
    assert(ups(0) + s =~= s);
}

// ---- the safe base
pub open spec fn local() -> Auth { Auth { user: nil(), pass: None, host: seq!['h', 'o', 's', 't'], port: None } }
pub open spec fn base_u(p: Seg, m: nat) -> U { U { https: false, auth: local(), segs: many(p, m).push(nil()), query: None, frag: None } }
/// a segment that does not occur in the input
pub open spec fn fresh_seg(p: Seg, input: Seq<char>) -> bool {
    seg_ok(p) && p.len() > 0 && p != dot() && p != dotdot() && !crate::vshim::occurs(input, p)
}
/// the text of a base that leaves room for every climb of the input
pub open spec fn is_base(b: Seq<char>, input: Seq<char>) -> bool {
    exists|p: Seg| fresh_seg(p, input) && b == #[trigger] serial(base_u(p, dots_in(input)))
}
pub proof fn lemma_many_ok(p: Seg, n: nat)
    requires seg_ok(p), p.len() > 0, p != dot(), p != dotdot(),
    ensures dirs_ok(many(p, n)), nodots(many(p, n)), list_ok(many(p, n).push(nil())), nodots(many(p, n).push(nil())),
{
    assert(nil().len() == 0 && dot().len() == 1 && dotdot().len() == 2);
    lemma_dirs_push(many(p, n), nil());
}
pub proof fn lemma_base_ok(p: Seg, m: nat)
    requires seg_ok(p), p.len() > 0, p != dot(), p != dotdot(),
    ensures u_ok(base_u(p, m)),
{ lemma_many_ok(p, m); }
pub proof fn lemma_base_text(p: Seg, m: nat)
    ensures serial(base_u(p, 0)) == origin_text(false, local()) + slash(),
        serial(base_u(p, m + 1)) == serial(base_u(p, m)) + p + slash(),
    decreases m
{
    let l = many(p, m).push(nil());
    let l2 = many(p, m + 1).push(nil());
    assert(joined(seq![nil()]) =~= nil());
    assert(many(p, 0).push(nil()) =~= seq![nil()]);
    assert(l2 =~= many(p, m) + seq![p, nil()]);
    assert(joined(seq![p, nil()]) =~= p + slash()) by { assert(seq![p, nil()].drop_first() =~= seq![nil()]); }
    if m > 0 {
        lemma_joined_concat(many(p, m), seq![p, nil()]);
        lemma_joined_concat(many(p, m), seq![nil()]);
        assert(l =~= many(p, m) + seq![nil()]);
        assert(joined(l) =~= joined(many(p, m)) + slash());
        assert(joined(l2) =~= joined(l) + p + slash());
    } else {
        assert(l2 =~= seq![p, nil()]);
        assert(l =~= seq![nil()]);
        assert(joined(l2) =~= joined(l) + p + slash());
    }
    assert(serial(base_u(p, m + 1)) =~= serial(base_u(p, m)) + p + slash());
    assert(serial(base_u(p, 0)) =~= origin_text(false, local()) + slash());
}

// ---- what a reference is against a base
pub proof fn lemma_ref_u(u: U, x: Ref)
    requires u_ok(u), ref_ok(x),
    ensures u_ok(res_u(u, x)),
{
    let e = Seq::<Seg>::empty();
    assert(dirs_ok(e) && nodots(e));
    lemma_res_ok(e, x.segs);
    let d = u.segs.drop_last();
    assert forall|i: int| 0 <= i < d.len() implies seg_ok(#[trigger] d[i]) && d[i].len() > 0 && d[i] != dot() && d[i] != dotdot() by { assert(d[i] == u.segs[i]); }
    lemma_res_ok(d, x.segs);
}
pub proof fn lemma_norm_ok(x: Ref)
    requires ref_ok(x),
    ensures list_ok(norm_segs(x)), list_ok(tail(x)), nodots(tail(x)), climb(x) <= dds(x.segs), ref_ok(norm(x)), ref_ok(ensured(x)), list_ok(slashed(norm_segs(x))),
        !(x.cls is PathRel) ==> nodots(norm_segs(x)) && nodots(slashed(norm_segs(x))),
        norm_segs(x).last() == (if x.cls is PathRel { tail(x).last() } else { norm_segs(x).last() }),
        slashed(norm_segs(x)) == (if x.cls is PathRel { ups(climb(x)) + slashed(tail(x)) } else { slashed(norm_segs(x)) }),
        list_ok(slashed(tail(x))), nodots(slashed(tail(x))),
{
    let e = Seq::<Seg>::empty();
    assert(dirs_ok(e) && nodots(e));
    lemma_res_ok(e, x.segs);
    lemma_rel_ok(0, e, x.segs);
    let t = tail(x);
    assert(nil().len() == 0 && dot().len() == 1 && dotdot().len() == 2);
    assert(dotdot()[0] == '.' && dotdot()[1] == '.');
    assert(seg_ok(dotdot()));
    let n = ups(climb(x)) + t;
    assert forall|i: int| 0 <= i < n.len() implies seg_ok(#[trigger] n[i]) && (i < n.len() - 1 ==> n[i].len() > 0) by { if i >= climb(x) { assert(n[i] == t[i - climb(x)]); } }
    assert(n.last() == t.last());
    lemma_slashed_ok(norm_segs(x));
    lemma_slashed_ok(t);
    if x.cls is PathRel { assert(slashed(n) =~= ups(climb(x)) + slashed(t)); }
}
pub proof fn lemma_slashed_ok(l: Seq<Seg>)
    requires list_ok(l),
    ensures list_ok(slashed(l)), nodots(l) ==> nodots(slashed(l)), slashed(l).last() == nil(), dirs_ok(slashed(l).drop_last()), nodots(l) ==> nodots(slashed(l).drop_last()),
        slashed(l).drop_last() == strip(l),
{
    let s = slashed(l);
    assert(nil().len() == 0 && dot().len() == 1 && dotdot().len() == 2);
    assert(seg_ok(l.last()));
    if l.last().len() == 0 { assert(l.last() =~= nil()); }
    assert forall|i: int| 0 <= i < s.len() implies seg_ok(#[trigger] s[i]) && (i < s.len() - 1 ==> s[i].len() > 0) by { if i < l.len() { assert(s[i] == l[i]); } }
    if nodots(l) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != dot() && s[i] != dotdot() by { if i < l.len() { assert(s[i] == l[i]); } } }
    let d = s.drop_last();
    assert forall|i: int| 0 <= i < d.len() implies seg_ok(#[trigger] d[i]) && d[i].len() > 0 by { assert(d[i] == s[i]); }
    if nodots(l) { assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != dot() && d[i] != dotdot() by { assert(d[i] == s[i]); } }
    assert(d =~= strip(l));
}

pub open spec fn as_ref(c: Cls, u: U) -> Ref { Ref { cls: c, auth: u.auth, segs: u.segs, query: u.query, frag: u.frag } }
/// a URL printed without its scheme, and without its origin
pub proof fn lemma_skip(u: U)
    requires !u.https,
    ensures crate::vshim::skipped(serial(u), 5) == text(as_ref(Cls::Scheme, u)),
        u.auth == local() ==> crate::vshim::skipped(serial(u), 11) == text(as_ref(Cls::PathAbs, u)),
        serial(u) == text(as_ref(Cls::Abs(false), u)),
{
    assert(serial(u) =~= text(as_ref(Cls::Abs(false), u)));
    assert(serial(u).skip(5) =~= text(as_ref(Cls::Scheme, u)));
    if u.auth == local() {
        assert(auth_text(local()) =~= seq!['h', 'o', 's', 't']);
        assert(origin_text(false, local()).len() == 11);
        assert(serial(u).skip(11) =~= text(as_ref(Cls::PathAbs, u)));
    }
}
/// the way from u to v, as text
pub open spec fn way(u: U, v: U) -> Seq<char> { joined(parts(strip(u.segs), v.segs)) + rest_text(v.query, v.frag) }

/// a path-relative reference against the base
pub proof fn lemma_rel_base(p: Seg, m: nat, x: Ref)
    requires ref_ok(x), x.cls is PathRel, dds(x.segs) <= m,
    ensures climb(x) <= m,
        res_u(base_u(p, m), x) == (U { https: false, auth: local(), segs: many(p, (m - climb(x)) as nat) + tail(x), query: x.query, frag: x.frag }),
{
    let e = Seq::<Seg>::empty();
    lemma_res_rel(p, m, 0, e, x.segs);
    assert(many(p, m) + e =~= many(p, m));
    assert(many(p, m).push(nil()).drop_last() =~= many(p, m));
    if x.segs == seq![nil()] {
        assert(nil().len() == 0 && dot().len() == 1 && dotdot().len() == 2);
        assert(e.push(nil()) =~= seq![nil()]);
        assert(many(p, m).push(nil()) =~= many(p, m) + seq![nil()]);
    }
}
/// ... and back: from the base to a URL below m - k of its directories
pub proof fn lemma_way_base(p: Seg, m: nat, k: nat, v: U, s: Seq<Seg>)
    requires k <= m, avoids(s, p), v.segs == many(p, (m - k) as nat) + s,
    ensures way(base_u(p, m), v) == joined(ups(k) + s) + rest_text(v.query, v.frag),
{
    let e = Seq::<Seg>::empty();
    lemma_parts_base(p, m, k, e, s);
    assert(many(p, m) + e =~= many(p, m));
    assert(strip(many(p, m).push(nil())) =~= many(p, m));
}
pub proof fn lemma_avoids_tail(x: Ref, p: Seg)
    requires avoids(x.segs, p), p.len() > 0, tail(x).len() > 0,
    ensures avoids(tail(x), p), avoids(slashed(tail(x)), p), avoids(tail(x).drop_last(), p), avoids(seq![nil()], p), avoids(strip(tail(x)), p),
{
    lemma_rel_avoids(0, Seq::empty(), x.segs, p);
    let t = tail(x);
    let s = slashed(t);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != p by { if i < t.len() { assert(s[i] == t[i]); } }
    let d = t.drop_last();
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != p by { assert(d[i] == t[i]); }
}

// ---- sizes
pub open spec fn size(l: Seq<Seg>) -> nat
    decreases l.len()
{
    if l.len() == 0 { 0 } else { l[0].len() + 1 + size(l.drop_first()) }
}
pub proof fn lemma_size_joined(l: Seq<Seg>)
    ensures l.len() > 0 ==> size(l) == joined(l).len() + 1, l.len() == 0 ==> size(l) == 0,
    decreases l.len()
{
    if l.len() > 1 { lemma_size_joined(l.drop_first()); }
    if l.len() == 1 { assert(size(l.drop_first()) == 0); }
}
pub proof fn lemma_size_add(a: Seq<Seg>, b: Seq<Seg>)
    ensures size(a + b) == size(a) + size(b),
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else { assert((a + b).drop_first() =~= a.drop_first() + b); lemma_size_add(a.drop_first(), b); }
}
pub proof fn lemma_size_push(a: Seq<Seg>, x: Seg)
    ensures size(a.push(x)) == size(a) + x.len() + 1,
{
    lemma_size_add(a, seq![x]);
    assert(a.push(x) =~= a + seq![x]);
    assert(seq![x].drop_first().len() == 0);
    assert(size(seq![x].drop_first()) == 0);
}
pub proof fn lemma_size_up(a: Seq<Seg>)
    ensures size(up(a)) <= size(a), a.len() > 0 ==> size(a) == size(a.drop_last()) + a.last().len() + 1,
{
    if a.len() > 0 { lemma_size_push(a.drop_last(), a.last()); assert(a.drop_last().push(a.last()) =~= a); }
}
pub proof fn lemma_size_ups(k: nat)
    ensures size(ups(k)) == 3 * k,
    decreases k
{
    if k > 0 { lemma_size_ups((k - 1) as nat); assert(ups(k).drop_first() =~= ups((k - 1) as nat)); }
}
pub proof fn lemma_rel_size(k: nat, dirs: Seq<Seg>, r: Seq<Seg>)
    ensures 3 * rel(k, dirs, r).0 + size(rel(k, dirs, r).1) <= 3 * k + size(dirs) + size(r) + 1,
    decreases r.len()
{
    if r.len() > 0 {
        let d = r.drop_first();
        lemma_size_push(dirs, r[0]);
        lemma_size_push(dirs, nil());
        lemma_size_up(dirs);
        lemma_size_push(up(dirs), nil());
        assert(dotdot().len() == 2 && dot().len() == 1);
        if r.len() == 1 { assert(size(d) == 0); }
        if r.len() > 1 {
            if r[0] == dotdot() { if dirs.len() > 0 { lemma_rel_size(k, dirs.drop_last(), d); } else { lemma_rel_size(k + 1, dirs, d); } }
            else if r[0] == dot() { lemma_rel_size(k, dirs, d); } else { lemma_rel_size(k, dirs.push(r[0]), d); }
        }
    }
}
pub proof fn lemma_res_size(dirs: Seq<Seg>, r: Seq<Seg>)
    ensures size(res(dirs, r)) <= size(dirs) + size(r) + 1,
    decreases r.len()
{
    if r.len() > 0 {
        let d = r.drop_first();
        lemma_size_push(dirs, r[0]);
        lemma_size_push(dirs, nil());
        lemma_size_up(dirs);
        lemma_size_push(up(dirs), nil());
        assert(dotdot().len() == 2 && dot().len() == 1);
        if r.len() == 1 { assert(size(d) == 0); }
        if r.len() > 1 {
            if r[0] == dotdot() { lemma_res_size(up(dirs), d); }
            else if r[0] == dot() { lemma_res_size(dirs, d); } else { lemma_res_size(dirs.push(r[0]), d); }
        }
    }
}
pub proof fn lemma_norm_size(x: Ref)
    requires ref_ok(x),
    ensures text(norm(x)).len() <= text(x).len() + 1, text(ensured(x)).len() <= text(x).len() + 2,
        size(norm_segs(x)) <= size(x.segs) + 1, size(slashed(norm_segs(x))) <= size(x.segs) + 2,
        size(x.segs) <= text(x).len() + 1,
{
    lemma_norm_ok(x);
    lemma_rel_size(0, Seq::empty(), x.segs);
    lemma_res_size(Seq::empty(), x.segs);
    lemma_size_ups(climb(x));
    lemma_size_add(ups(climb(x)), tail(x));
    lemma_size_push(norm_segs(x), nil());
    lemma_size_joined(x.segs);
    lemma_size_joined(norm_segs(x));
    lemma_size_joined(slashed(norm_segs(x)));
}

// ---- a fresh segment is found soon
pub open spec fn seg_no(prefix: Seq<char>, j: int) -> Seq<char> { prefix + crate::vshim::decimal(j) }
pub proof fn lemma_decimal(a: int, b: int)
    requires 0 <= a, 0 <= b, crate::vshim::decimal(a) == crate::vshim::decimal(b),
    ensures a == b,
    decreases a
{
    let (x, y) = (crate::vshim::decimal(a), crate::vshim::decimal(b));
    assert(x.last() == crate::vshim::digit(a % 10)) by { if a < 10 { assert(a % 10 == a); } }
    assert(y.last() == crate::vshim::digit(b % 10)) by { if b < 10 { assert(b % 10 == b); } }
    assert(a % 10 == b % 10);
    lemma_decimal_len(a);
    lemma_decimal_len(b);
    if a >= 10 && b >= 10 {
        assert(x.drop_last() =~= crate::vshim::decimal(a / 10));
        assert(y.drop_last() =~= crate::vshim::decimal(b / 10));
        lemma_decimal(a / 10, b / 10);
    } else {
        if a >= 10 { assert(x.len() >= 2) by { lemma_decimal_len(a / 10); } }
        if b >= 10 { assert(y.len() >= 2) by { lemma_decimal_len(b / 10); } }
    }
}
pub proof fn lemma_decimal_len(a: int)
    requires 0 <= a,
    ensures crate::vshim::decimal(a).len() >= 1, a < 10 ==> crate::vshim::decimal(a).len() == 1,
        forall|i: int| 0 <= i < crate::vshim::decimal(a).len() ==> '0' <= #[trigger] crate::vshim::decimal(a)[i] <= '9',
    decreases a
{
    if a >= 10 { lemma_decimal_len(a / 10); }
}
pub proof fn lemma_decimal_short(a: int)
    requires 0 <= a < 10_000_000_000,
    ensures crate::vshim::decimal(a).len() <= 10,
{
    assert(crate::vshim::decimal(a).len() <= 10) by {
        reveal_with_fuel(crate::vshim::decimal, 11);
    }
}
pub open spec fn place(input: Seq<char>, prefix: Seq<char>, j: int) -> int {
    let p = seg_no(prefix, j);
    let i = choose|i: int| 0 <= i && i + p.len() <= input.len() && #[trigger] input.subrange(i, i + p.len()) == p;
    i * 11 + crate::vshim::decimal(j).len()
}
pub proof fn lemma_few_idents(input: Seq<char>, prefix: Seq<char>, n: int)
    requires 0 <= n < 10_000_000_000, forall|j: int| 0 <= j < n ==> crate::vshim::occurs(input, #[trigger] seg_no(prefix, j)),
    ensures n <= 11 * (input.len() + 1),
{
    let f = |j: int| place(input, prefix, j);
    let a = vstd::set_lib::set_int_range(0, n);
    let hi = 11 * (input.len() + 1);
    let all = vstd::set_lib::set_int_range(0, hi as int);
    assert forall|j: int| 0 <= j < n implies all.contains(#[trigger] f(j)) by {
        let p = seg_no(prefix, j);
        assert(crate::vshim::occurs(input, p));
        lemma_decimal_short(j);
        lemma_decimal_len(j);
    }
    assert forall|j: int, l: int| 0 <= j < n && 0 <= l < n && #[trigger] f(j) == #[trigger] f(l) implies j == l by {
        let (p, q) = (seg_no(prefix, j), seg_no(prefix, l));
        assert(crate::vshim::occurs(input, p));
        assert(crate::vshim::occurs(input, q));
        lemma_decimal_short(j);
        lemma_decimal_short(l);
        lemma_decimal_len(j);
        lemma_decimal_len(l);
        let i = choose|i: int| 0 <= i && i + p.len() <= input.len() && #[trigger] input.subrange(i, i + p.len()) == p;
        let k = choose|i: int| 0 <= i && i + q.len() <= input.len() && #[trigger] input.subrange(i, i + q.len()) == q;
        assert(i == k && p.len() == q.len());
        assert(p == q);
        assert(p.skip(prefix.len() as int) =~= crate::vshim::decimal(j));
        assert(q.skip(prefix.len() as int) =~= crate::vshim::decimal(l));
        lemma_decimal(j, l);
    }
    vstd::set_lib::lemma_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, hi as int);
    vstd::set_lib::lemma_map_size(a, a.map(f), f);
    assert(a.map(f).subset_of(all));
    vstd::set_lib::lemma_len_subset(a.map(f), all);
}

// ---- url and regex (assumed; replayed against the crates)
pub open spec fn abs_pattern() -> Seq<char> { r"^[A-Za-z0-9\+\-\.]+:/"@ }
pub open spec fn slash_pattern() -> Seq<char> { "/?$"@ }
pub open spec fn schemechar(c: char) -> bool { alnum(c) || c == '+' || c == '-' || c == '.' }
pub open spec fn abs_match(s: Seq<char>) -> bool {
    exists|i: int| 0 < i && i + 1 < s.len() && #[trigger] s[i] == ':' && s[i + 1] == '/' && forall|j: int| 0 <= j < i ==> schemechar(#[trigger] s[j])
}
#[verifier::external_body]
pub struct Regex { z: u8 }
#[derive(Debug)]
pub struct RegexError;
impl Regex {
    pub uninterp spec fn v(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: Result<Regex, RegexError>)
        ensures p@ == abs_pattern() || p@ == slash_pattern() ==> r is Ok && r->Ok_0.v() == p@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, s: &str) -> (r: bool)
        ensures self.v() == abs_pattern() ==> r == abs_match(s@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn replace(&self, s: &str, by: &str) -> (r: String)
        ensures self.v() == slash_pattern() ==> r@ == (if s@.len() > 0 && s@.last() == '/' { s@.drop_last() + by@ } else { s@ + by@ }),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Url { z: u8 }
#[derive(Debug)]
pub struct ParseError;
impl Url {
    pub uninterp spec fn v(&self) -> U;
    #[verifier::external_body]
    pub fn parse(s: &str) -> (r: Result<Url, ParseError>)
        ensures
            forall|u: U| u_ok(u) && #[trigger] serial(u) == s@ ==> r is Ok && r->Ok_0.v() == u,
            forall|h: bool, a: Auth| auth_ok(a) && #[trigger] origin_text(h, a) == s@ ==>
                r is Ok && r->Ok_0.v() == (U { https: h, auth: a, segs: seq![nil()], query: None, frag: None }),
            forall|u: U| #[trigger] is_url(s@, u) ==> r is Ok && r->Ok_0.v() == u,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: Result<Url, ParseError>)
        ensures forall|x: Ref| ref_ok(x) && u_ok(self.v()) && #[trigger] text(x) == s@ ==> r is Ok && r->Ok_0.v() == res_u(self.v(), x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str)
        ensures u_ok(self.v()) ==> r@ == serial(self.v()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String)
        ensures u_ok(self.v()) ==> r@ == serial(self.v()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn path(&self) -> (r: &str)
        ensures u_ok(self.v()) ==> r@ == slash() + joined(self.v().segs),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn query(&self) -> (r: Option<&str>)
        ensures u_ok(self.v()) ==> (r is Some <==> self.v().query is Some) && (r is Some ==> r->0@ == self.v().query->0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fragment(&self) -> (r: Option<&str>)
        ensures u_ok(self.v()) ==> (r is Some <==> self.v().frag is Some) && (r is Some ==> r->0@ == self.v().frag->0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_path(&mut self, p: &str)
        ensures
            forall|l: Seq<Seg>| u_ok(old(self).v()) && list_ok(l) && nodots(l) && p@ == slash() + #[trigger] joined(l) ==> final(self).v() == (U { segs: l, ..old(self).v() }),
            u_ok(old(self).v()) && p@.len() == 0 ==> final(self).v() == (U { segs: seq![nil()], ..old(self).v() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn scheme(&self) -> (r: &str)
        ensures u_ok(self.v()) ==> r@ == scheme(self.v().https),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn username(&self) -> (r: &str)
        ensures u_ok(self.v()) ==> r@ == self.v().auth.user,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn password(&self) -> (r: Option<String>)
        ensures u_ok(self.v()) ==> (r is Some <==> self.v().auth.pass is Some) && (r is Some ==> r->0@ == self.v().auth.pass->0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn host(&self) -> (r: Option<String>)
        ensures u_ok(self.v()) ==> r is Some && r->0@ == self.v().auth.host,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn host_str(&self) -> (r: Option<String>)
        ensures u_ok(self.v()) ==> r is Some && r->0@ == self.v().auth.host,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn port(&self) -> (r: Option<u16>)
        ensures u_ok(self.v()) ==> r == self.v().auth.port,
    { unimplemented!() }
}
pub proof fn lemma_prefix_lens()
    ensures vstd::utf8::encode_utf8(origin_text(false, local())).len() == 11, vstd::utf8::encode_utf8("http:"@).len() == 5,
        vstd::utf8::encode_utf8("http://host"@).len() == 11,
{
    let o = origin_text(false, local());
    assert(auth_text(local()) =~= seq!['h', 'o', 's', 't']);
    assert(o =~= seq!['h', 't', 't', 'p', ':', '/', '/', 'h', 'o', 's', 't']);
    assert(vstd::utf8::is_ascii_chars(o));
    vstd::utf8::is_ascii_chars_encode_utf8(o);
    reveal_strlit("http:");
    assert("http:"@.len() == 5);
    vstd::utf8::is_ascii_chars_encode_utf8("http:"@);
    reveal_strlit("http://host");
    assert("http://host"@.len() == 11);
    vstd::utf8::is_ascii_chars_encode_utf8("http://host"@);
}

/// the URL u2 is x against the base with its path replaced; printed according to x's class it is y
pub open spec fn prints(x: Ref, p: Seg, m: nat, u2: U, y: Ref) -> bool {
    &&& y.cls == x.cls && (has_auth(x.cls) ==> y.auth == x.auth) && y.query == x.query && y.frag == x.frag
    &&& u2.query == x.query && u2.frag == x.frag && u2.auth == (if has_auth(x.cls) { x.auth } else { local() })
    &&& (x.cls is Abs ==> u2.https == x.cls->Abs_0) && (!(x.cls is Abs) ==> !u2.https)
    &&& !(x.cls is PathRel) ==> joined(u2.segs) == joined(y.segs)
    &&& x.cls is PathRel ==> exists|k: nat, s: Seq<Seg>| k <= m && avoids(s, p) && u2.segs == many(p, (m - k) as nat) + s && joined(y.segs) == joined(#[trigger] (ups(k) + s))
}
pub proof fn lemma_prints(x: Ref, p: Seg, m: nat, u2: U, y: Ref)
    requires prints(x, p, m, u2, y),
    ensures x.cls is Abs ==> serial(u2) == text(y),
        x.cls is Scheme ==> crate::vshim::skipped(serial(u2), 5) == text(y),
        x.cls is PathAbs ==> crate::vshim::skipped(serial(u2), 11) == text(y),
        x.cls is PathRel ==> way(base_u(p, m), u2) == text(y),
{
    if x.cls is PathRel {
        let (k, s) = choose|k: nat, s: Seq<Seg>| k <= m && avoids(s, p) && u2.segs == many(p, (m - k) as nat) + s && joined(y.segs) == joined(#[trigger] (ups(k) + s));
        lemma_way_base(p, m, k, u2, s);
        assert(way(base_u(p, m), u2) =~= text(y));
    } else if x.cls is Abs {
        assert(serial(u2) =~= text(y));
    } else {
        lemma_skip(u2);
        assert(crate::vshim::skipped(serial(u2), 5) =~= text(y) || !(x.cls is Scheme));
        assert(crate::vshim::skipped(serial(u2), 11) =~= text(y) || !(x.cls is PathAbs));
    }
}
/// normalisation, directory and file-name handling on the URL itself
pub proof fn lemma_handled(x: Ref, p: Seg, input: Seq<char>)
    requires ref_ok(x), text(x) == input, fresh_seg(p, input),
    ensures u_ok(base_u(p, dots_in(input))), u_ok(res_u(base_u(p, dots_in(input)), x)),
        prints(x, p, dots_in(input), res_u(base_u(p, dots_in(input)), x), norm(x)),
        prints(x, p, dots_in(input), with_list(res_u(base_u(p, dots_in(input)), x), slashed(res_u(base_u(p, dots_in(input)), x).segs)), ensured(x)),
        prints(x, p, dots_in(input), with_list(res_u(base_u(p, dots_in(input)), x), trim_list(res_u(base_u(p, dots_in(input)), x).segs)), trimmed(x)),
        u_ok(with_list(res_u(base_u(p, dots_in(input)), x), slashed(res_u(base_u(p, dots_in(input)), x).segs))),
        u_ok(with_list(res_u(base_u(p, dots_in(input)), x), trim_list(res_u(base_u(p, dots_in(input)), x).segs))),
{
    let m = dots_in(input);
    let b = base_u(p, m);
    let u = res_u(b, x);
    lemma_base_ok(p, m);
    lemma_ref_u(b, x);
    lemma_text_avoids(x, p);
    lemma_count_text(x);
    lemma_norm_ok(x);
    lemma_avoids_tail(x, p);
    lemma_slashed_ok(u.segs);
    lemma_trim_ok(u.segs);
    assert(nil().len() == 0);
    if x.cls is PathRel {
        lemma_rel_base(p, m, x);
        let k = climb(x);
        let t = tail(x);
        let c = many(p, (m - k) as nat);
        assert(joined(norm(x).segs) == joined(ups(k) + t));
        assert(u.segs.last() == t.last());
        assert(slashed(u.segs) =~= c + slashed(t));
        assert(joined(ensured(x).segs) == joined(ups(k) + slashed(t)));
        let l = trim_list(u.segs);
        if t.last().len() == 0 {
            assert(l == c + t);
            assert(joined(trimmed(x).segs) == joined(ups(k) + t));
        } else if t.len() > 1 {
            assert(l =~= c + t.drop_last());
            assert(joined(trimmed(x).segs) == joined(ups(k) + t.drop_last()));
        } else if m == k {
            assert(l =~= c + seq![nil()]);
            assert(ups(k).push(nil()) =~= ups(k) + seq![nil()]);
            assert(joined(trimmed(x).segs) == joined(ups(k) + seq![nil()]));
        } else {
            assert(l =~= c + t.drop_last());
            if k == 0 {
                assert(ups(0) + t.drop_last() =~= Seq::<Seg>::empty());
                assert(ups(0).push(nil()) =~= seq![nil()]);
                assert(joined(seq![nil()]) =~= nil());
            }
            assert(joined(trimmed(x).segs) == joined(ups(k) + t.drop_last()));
        }
    }
}
pub open spec fn with_list(u: U, l: Seq<Seg>) -> U { U { segs: l, ..u } }
pub proof fn lemma_trim_ok(l: Seq<Seg>)
    requires list_ok(l), nodots(l),
    ensures list_ok(trim_list(l)), nodots(trim_list(l)),
{
    assert(nil().len() == 0 && dot().len() == 1 && dotdot().len() == 2);
    let t = trim_list(l);
    assert(seg_ok(nil()));
    assert forall|i: int| 0 <= i < t.len() implies seg_ok(#[trigger] t[i]) && (i < t.len() - 1 ==> t[i].len() > 0) && t[i] != dot() && t[i] != dotdot() by {
        if l.last().len() == 0 || l.len() > 1 { assert(t[i] == l[i]); }
    }
}
pub proof fn lemma_slash_path(l: Seq<Seg>)
    requires list_ok(l),
    ensures (slash() + joined(l)).last() == '/' <==> l.last().len() == 0,
        l.last().len() == 0 ==> (slash() + joined(l)).drop_last() + slash() == slash() + joined(slashed(l)),
        l.last().len() > 0 ==> slash() + joined(l) + slash() == slash() + joined(slashed(l)),
        joined(seq![nil()] + l) == slash() + joined(l),
{
    let s = slash() + joined(l);
    let d = l.drop_last();
    assert(seg_ok(l.last()));
    assert(l =~= d + seq![l.last()]);
    if d.len() > 0 { lemma_joined_concat(d, seq![l.last()]); assert(joined(l) == joined(d) + slash() + l.last()); }
    else { assert(l =~= seq![l.last()]); assert(joined(l) == l.last()); }
    if l.last().len() > 0 {
        assert(s.last() == l.last().last());
        assert(plain(l.last().last()));
        lemma_joined_concat(l, seq![nil()]);
        assert(l.push(nil()) =~= l + seq![nil()]);
        assert(joined(seq![nil()]) =~= nil());
        assert(slash() + joined(l) + slash() =~= slash() + joined(slashed(l)));
    } else {
        assert(s.last() == '/');
        assert(s.drop_last() + slash() =~= s);
    }
    lemma_joined_concat(seq![nil()], l);
    assert(joined(seq![nil()]) =~= nil());
    assert(nil() + slash() =~= slash());
}

// ---- resolving against a root
/// a text that parses to u
pub open spec fn is_url(s: Seq<char>, u: U) -> bool {
    u_ok(u) && (serial(u) == s || (origin_text(u.https, u.auth) == s && u.segs == seq![nil()] && u.query is None && u.frag is None))
}
pub open spec fn host_u() -> U { U { https: false, auth: local(), segs: seq![nil()], query: None, frag: None } }
/// the root as a URL, once it ends with a slash
pub open spec fn root_u(r: Ref) -> U {
    U { https: r.cls == Cls::Abs(true), auth: if has_auth(r.cls) { r.auth } else { local() }, segs: slashed(norm_segs(r)), query: r.query, frag: r.frag }
}
pub proof fn lemma_local_ok()
    ensures auth_ok(local()), u_ok(host_u()), is_url(origin_text(false, local()), host_u()),
{
    assert(nil().len() == 0 && dot().len() == 1 && dotdot().len() == 2);
}
pub proof fn lemma_root_u(r: Ref)
    requires ref_ok(r), !(r.cls is PathRel),
    ensures u_ok(root_u(r)),
        r.cls is Abs ==> is_url(text(ensured(r)), root_u(r)),
        !(r.cls is Abs) ==> res_u(host_u(), ensured(r)) == root_u(r),
{
    lemma_norm_ok(r);
    lemma_local_ok();
    let l = slashed(norm_segs(r));
    lemma_rel_plain(0, Seq::empty(), l);
    assert(Seq::<Seg>::empty() + l =~= l);
    if r.cls is Abs { assert(serial(root_u(r)) =~= text(ensured(r))); }
}
/// the two steps of join, where the root has an origin or a leading slash
pub proof fn lemma_join_abs(r: Ref, x: Ref)
    requires ref_ok(r), ref_ok(x), !(r.cls is PathRel), !(x.cls is Abs), r.cls is Abs || x.cls is PathRel || (x.cls is PathAbs && r.cls is Scheme),
    ensures u_ok(root_u(r)), u_ok(res_u(root_u(r), x)),
        r.cls is Abs ==> serial(res_u(root_u(r), x)) == text(joined_ref(r, x)),
        r.cls is Scheme ==> crate::vshim::skipped(serial(res_u(root_u(r), x)), 5) == text(joined_ref(r, x)),
        r.cls is PathAbs ==> crate::vshim::skipped(serial(res_u(root_u(r), x)), 11) == text(joined_ref(r, x)),
{
    lemma_norm_ok(r);
    lemma_root_u(r);
    lemma_ref_u(root_u(r), x);
    lemma_slashed_ok(norm_segs(r));
    let u = root_u(r);
    let v = res_u(u, x);
    let y = joined_ref(r, x);
    let d = u.segs.drop_last();
    lemma_norm_ok(r);
    lemma_slashed_ok(norm_segs(r));
    assert(d.push(nil()) =~= u.segs);
    if x.cls is PathRel && x.segs == seq![nil()] {
        assert(nil().len() == 0 && dot().len() == 1 && dotdot().len() == 2);
        assert(res(d, seq![nil()]) == d.push(nil()));
    }
    assert(v.segs == y.segs);
    if r.cls is Abs { assert(serial(v) =~= text(y)); } else { lemma_skip(v); }
    if r.cls is Scheme { assert(text(as_ref(Cls::Scheme, v)) == text(y)); }
    if r.cls is PathAbs { assert(text(as_ref(Cls::PathAbs, v)) == text(y)); }
}
/// leading climbs and a path without dots are already normal
pub proof fn lemma_rel_form(k: nat, l: Seq<Seg>)
    requires nodots(l), l.len() > 0,
    ensures rel(0, Seq::empty(), ups(k) + l) == (k, l),
{
    let e = Seq::<Seg>::empty();
    lemma_rel_ups(0, k, l);
    lemma_rel_plain(k, e, l);
    assert(e + l =~= l);
}
/// a path-relative root that ends with a slash
pub proof fn lemma_ensured_rel(r: Ref)
    requires ref_ok(r), r.cls is PathRel,
    ensures climb(ensured(r)) == climb(r), tail(ensured(r)) == slashed(tail(r)), climb(r) <= dds(ensured(r).segs),
        climb(norm(r)) == climb(r), tail(norm(r)) == tail(r),
{
    lemma_norm_ok(r);
    let e = Seq::<Seg>::empty();
    assert(dirs_ok(e) && nodots(e));
    let (k, t) = (climb(r), tail(r));
    let s = slashed(t);
    assert(ensured(r).segs == ups(k) + s);
    lemma_rel_form(k, s);
    lemma_rel_form(k, t);
    lemma_rel_ok(0, e, ensured(r).segs);
}
/// the two steps of join, where root and path are path-relative
pub proof fn lemma_join_rel(r: Ref, x: Ref, p: Seg, m: nat)
    requires ref_ok(r), ref_ok(x), r.cls is PathRel, x.cls is PathRel, dds(x.segs) + dds(ensured(r).segs) <= m,
        avoids(x.segs, p), avoids(ensured(r).segs, p), seg_ok(p), p.len() > 0, p != dot(), p != dotdot(),
    ensures
        u_ok(base_u(p, m)), u_ok(res_u(base_u(p, m), ensured(r))), u_ok(res_u(res_u(base_u(p, m), ensured(r)), x)),
        way(base_u(p, m), res_u(res_u(base_u(p, m), ensured(r)), x)) == text(joined_ref(r, x)),
{
    let e = ensured(r);
    let b = base_u(p, m);
    let u = res_u(b, e);
    let v = res_u(u, x);
    let k = climb(r);
    let y = joined_ref(r, x);
    lemma_base_ok(p, m);
    lemma_norm_ok(r);
    lemma_ref_u(b, e);
    lemma_ref_u(u, x);
    lemma_ensured_rel(r);
    lemma_rel_base(p, m, e);
    lemma_avoids_tail(e, p);
    let c = many(p, (m - k) as nat);
    let t = slashed(tail(r));
    let d = t.drop_last();
    assert(u.segs == c + t);
    lemma_slashed_ok(tail(r));
    assert(u.segs.drop_last() =~= c + d);
    assert(d.push(nil()) =~= t);
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != p by { assert(d[i] == t[i]); }
    lemma_res_rel(p, m, k, d, x.segs);
    lemma_rel_avoids(k, d, x.segs, p);
    let (k2, s2) = rel(k, d, x.segs);
    if x.segs == seq![nil()] {
        assert(nil().len() == 0 && dot().len() == 1 && dotdot().len() == 2);
        assert(rel(k, d, seq![nil()]) == (k, d.push(nil())));
    }
    assert(v.segs == many(p, (m - k2) as nat) + s2);
    lemma_way_base(p, m, k2, v, s2);
    assert(way(b, v) =~= text(y));
}
/// the path of a joined reference
pub open spec fn joined_segs(r: Ref, x: Ref) -> Seq<Seg> {
    if !(x.cls is PathRel) { res(Seq::empty(), x.segs) }
    else if r.cls is PathRel { under(climb(r), slashed(tail(r)).drop_last(), x.segs) }
    else { res(slashed(norm_segs(r)).drop_last(), x.segs) }
}
proof fn lemma_joined_segs(r: Ref, x: Ref)
    requires ref_ok(r), ref_ok(x),
    ensures list_ok(joined_segs(r, x)), size(joined_segs(r, x)) <= size(r.segs) + size(x.segs) + 3,
{
    let e = Seq::<Seg>::empty();
    assert(dirs_ok(e) && nodots(e));
    lemma_norm_ok(r);
    lemma_norm_size(r);
    if !(x.cls is PathRel) {
        lemma_res_ok(e, x.segs);
        lemma_res_size(e, x.segs);
    } else if r.cls is PathRel {
        let d = slashed(tail(r)).drop_last();
        let k = climb(r);
        lemma_slashed_ok(tail(r));
        lemma_size_up(slashed(tail(r)));
        lemma_rel_ok(k, d, x.segs);
        lemma_rel_size(k, d, x.segs);
        let (k2, s) = rel(k, d, x.segs);
        lemma_size_ups(k2);
        lemma_size_ups(k);
        lemma_size_add(ups(k2), s);
        lemma_size_add(ups(k), slashed(tail(r)));
        lemma_under_ok(k2, s);
    } else {
        let d = slashed(norm_segs(r)).drop_last();
        lemma_slashed_ok(norm_segs(r));
        lemma_size_up(slashed(norm_segs(r)));
        lemma_res_ok(d, x.segs);
        lemma_res_size(d, x.segs);
    }
}
pub proof fn lemma_joined_ref_ok(r: Ref, x: Ref)
    requires ref_ok(r), ref_ok(x),
    ensures ref_ok(joined_ref(r, x)), text(joined_ref(r, x)).len() <= text(r).len() + text(x).len() + 8,
{
    lemma_norm_ok(x);
    lemma_norm_size(x);
    lemma_norm_size(r);
    lemma_joined_segs(r, x);
    lemma_joined_len(r, x, joined_ref(r, x));
}
proof fn lemma_joined_len(r: Ref, x: Ref, y: Ref)
    requires ref_ok(r), ref_ok(x), y == joined_ref(r, x), size(joined_segs(r, x)) <= size(r.segs) + size(x.segs) + 3, text(norm(x)).len() <= text(x).len() + 1,
    ensures text(y).len() <= text(r).len() + text(x).len() + 8,
{
    hide(under);
    hide(res);
    hide(norm_segs);
    hide(slashed);
    lemma_size_joined(x.segs);
    lemma_size_joined(r.segs);
    lemma_size_joined(joined_segs(r, x));
}
pub proof fn lemma_under_ok(k: nat, s: Seq<Seg>)
    requires list_ok(s),
    ensures list_ok(ups(k) + s),
{
    let n = ups(k) + s;
    assert(dotdot()[0] == '.' && dotdot()[1] == '.');
    assert(seg_ok(dotdot()));
    assert forall|i: int| 0 <= i < n.len() implies seg_ok(#[trigger] n[i]) && (i < n.len() - 1 ==> n[i].len() > 0) by { if i >= k { assert(n[i] == s[i - k]); } }
}
pub proof fn lemma_trimmed_ok(x: Ref)
    requires ref_ok(x),
    ensures text(trimmed(x)).len() <= text(x).len() + 2, ref_ok(trimmed(x)),
{
    lemma_norm_ok(x);
    lemma_norm_size(x);
    let l = norm_segs(x);
    let t = tail(x);
    let y = trimmed(x);
    assert(nil().len() == 0 && dot().len() == 1 && dotdot().len() == 2);
    assert(joined(seq![nil()]) =~= nil());
    assert(list_ok(seq![nil()]));
    lemma_size_joined(x.segs);
    lemma_size_joined(l);
    lemma_size_joined(y.segs);
    lemma_size_up(l);
    lemma_size_push(Seq::<Seg>::empty(), nil());
    assert(Seq::<Seg>::empty().push(nil()) =~= seq![nil()]);
    if x.cls is PathRel {
        lemma_size_add(ups(climb(x)), t);
        lemma_size_add(ups(climb(x)), t.drop_last());
        lemma_size_push(ups(climb(x)), nil());
        lemma_size_up(t);
        lemma_under_ok(climb(x), seq![nil()]);
        assert(ups(climb(x)).push(nil()) =~= ups(climb(x)) + seq![nil()]);
        let d = ups(climb(x)) + t.drop_last();
        if d.len() > 0 {
            assert(dotdot()[0] == '.' && dotdot()[1] == '.');
            assert(seg_ok(dotdot()));
            assert forall|i: int| 0 <= i < d.len() implies seg_ok(#[trigger] d[i]) && d[i].len() > 0 by { if i >= climb(x) { assert(d[i] == t[i - climb(x)]); } }
        }
    } else {
        lemma_trim_ok(l);
    }
}

/// relative on the URLs: root and target against a common base
pub proof fn lemma_way(x: Ref, y: Ref, p: Seg, rt: Seq<char>, tt: Seq<char>)
    requires ref_ok(x), ref_ok(y), text(x) == rt, text(y) == tt, fresh_seg(p, rt + tt), same_class(x.cls, y.cls),
        x.cls is Abs ==> x.cls == y.cls, has_auth(x.cls) ==> x.auth == y.auth,
    ensures relative_defined(x, y) ==> way(res_u(base_u(p, dots_in(rt + tt)), x), res_u(base_u(p, dots_in(rt + tt)), y)) == relative_text(x, y),
{
    let m = dots_in(rt + tt);
    let u = res_u(base_u(p, m), x);
    let v = res_u(base_u(p, m), y);
    if x.cls is PathRel && climb(x) <= climb(y) {
        lemma_fresh_both(rt, tt, p);
        lemma_count_add(rt, tt);
        lemma_count_text(x);
        lemma_count_text(y);
        lemma_text_avoids(y, p);
        lemma_norm_ok(x);
        lemma_norm_ok(y);
        lemma_avoids_tail(y, p);
        lemma_rel_base(p, m, x);
        lemma_rel_base(p, m, y);
        let (kx, ky) = (climb(x), climb(y));
        let (tx, ty) = (tail(x), tail(y));
        let c = many(p, (m - ky) as nat);
        let d = many(p, (ky - kx) as nat);
        assert(u.segs.last() == tx.last());
        assert(strip(u.segs) =~= c + (d + strip(tx)));
        lemma_parts_common(c, d + strip(tx), ty);
        if ky > kx { lemma_parts_base(p, (ky - kx) as nat, (ky - kx) as nat, strip(tx), ty); assert(many(p, 0) + ty =~= ty); }
        else { assert(d + strip(tx) =~= strip(tx)); }
    }
}
pub proof fn lemma_fresh_both(a: Seq<char>, b: Seq<char>, p: Seg)
    requires !crate::vshim::occurs(a + b, p),
    ensures !crate::vshim::occurs(a, p), !crate::vshim::occurs(b, p),
{
    if crate::vshim::occurs(a, p) { lemma_occurs_in(nil(), a, b, p); assert(nil() + a + b =~= a + b); }
    if crate::vshim::occurs(b, p) { lemma_occurs_in(a, b, nil(), p); assert(a + b + nil() =~= a + b); }
}

pub open spec fn empty_ref() -> Ref { Ref { cls: Cls::PathRel, auth: local(), segs: seq![nil()], query: None, frag: None } }
pub proof fn lemma_empty_ref()
    ensures ref_ok(empty_ref()), text(empty_ref()) == ""@,
{
    reveal_strlit("");
    assert(nil().len() == 0);
    assert(joined(seq![nil()]) == nil());
    assert(""@.len() == 0);
    assert(text(empty_ref()) =~= ""@);
}
pub proof fn lemma_res_origin(p: Seg, m: nat, x: Ref)
    ensures res_u(base_u(p, m), x).https == (x.cls == Cls::Abs(true)),
        res_u(base_u(p, m), x).auth == (if has_auth(x.cls) { x.auth } else { local() }),
{}

pub proof fn lemma_joined_norm(r: Ref, x: Ref)
    ensures x.cls is Abs ==> joined_ref(r, x) == x,
        x.cls is Scheme && !(r.cls is Abs) ==> joined_ref(r, x) == norm(x),
        x.cls is PathAbs && (r.cls is PathRel || r.cls is PathAbs) ==> joined_ref(r, x) == norm(x),
{}
pub proof fn lemma_is_serial(u: U)
    requires u_ok(u),
    ensures is_url(serial(u), u),
{}

pub proof fn lemma_join_base(x: Ref, y: Ref, p: Seg, pt: Seq<char>, rt: Seq<char>)
    requires ref_ok(x), ref_ok(y), x.cls is PathRel, y.cls is PathRel, text(y) == pt, text(ensured(x)) == rt, fresh_seg(p, pt + rt),
    ensures u_ok(res_u(res_u(base_u(p, dots_in(pt + rt)), ensured(x)), y)),
        way(base_u(p, dots_in(pt + rt)), res_u(res_u(base_u(p, dots_in(pt + rt)), ensured(x)), y)) == text(joined_ref(x, y)),
{
    lemma_fresh_both(pt, rt, p);
    lemma_count_add(pt, rt);
    lemma_count_text(ensured(x));
    lemma_count_text(y);
    lemma_text_avoids(y, p);
    lemma_text_avoids(ensured(x), p);
    lemma_join_rel(x, y, p, dots_in(pt + rt));
}

// ---- the laws
pub open spec fn prefix(a: Seq<Seg>, b: Seq<Seg>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
pub proof fn lemma_nodots_add(a: Seq<Seg>, b: Seq<Seg>)
    requires nodots(a), nodots(b),
    ensures nodots(a + b),
{
    let l = a + b;
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] != dot() && l[i] != dotdot() by {
        if i < a.len() { assert(l[i] == a[i]); } else { assert(l[i] == b[i - a.len()]); }
    }
}
/// what is joined to a root and then made relative to it comes back in normal form
pub proof fn law_relative_of_joined(r: Ref, x: Ref)
    requires ref_ok(r), ref_ok(x), r.query is None, r.frag is None, x.cls is PathRel, climb(x) == 0,
    ensures ref_ok(joined_ref(r, x)), relative_defined(r, joined_ref(r, x)), relative_text(r, joined_ref(r, x)) == text(norm(x)),
{
    let e = Seq::<Seg>::empty();
    let j = joined_ref(r, x);
    lemma_joined_ref_ok(r, x);
    lemma_norm_ok(r);
    lemma_norm_ok(x);
    let k = climb(r);
    let d = if r.cls is PathRel { strip(tail(r)) } else { strip(norm_segs(r)) };
    lemma_slashed_ok(tail(r));
    lemma_slashed_ok(norm_segs(r));
    assert(d + e =~= d);
    lemma_rel_below(k, d, e, x.segs);
    let s = d + tail(x);
    lemma_nodots_add(d, tail(x));
    lemma_parts_prefix(d, tail(x));
    lemma_rel_plain(0, e, s);
    assert(e + s =~= s);
    lemma_rel_form(k, s);
    assert(norm_segs(x) =~= tail(x));
    if r.cls is PathRel { assert(j.segs == ups(k) + s); } else { assert(j.segs == s); }
    assert(relative_segs(r, j) == tail(x));
    assert(nil() + joined(tail(x)) + rest_text(x.query, x.frag) =~= joined(tail(x)) + rest_text(x.query, x.frag));
}
/// the reference that relative() prints
pub open spec fn relative_ref(r: Ref, t: Ref) -> Ref { Ref { cls: Cls::PathRel, segs: relative_segs(r, t), ..t } }
/// the target is neither the root itself nor a directory above it, written without a slash at the end
pub open spec fn not_above(r: Ref, t: Ref) -> bool {
    if r.cls is PathRel { climb(r) < climb(t) || (climb(r) == climb(t) && !prefix(tail(t), strip(tail(r)))) } else { !prefix(norm_segs(t), strip(norm_segs(r))) }
}
pub open spec fn common(a: Seq<Seg>, b: Seq<Seg>) -> nat
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] { 1 + common(a.drop_first(), b.drop_first()) } else { 0 }
}
pub proof fn lemma_parts_form(a: Seq<Seg>, b: Seq<Seg>)
    ensures common(a, b) <= a.len(), common(a, b) <= b.len(), a.take(common(a, b) as int) == b.take(common(a, b) as int),
        parts(a, b) == ups((a.len() - common(a, b)) as nat) + b.skip(common(a, b) as int),
    decreases a.len()
{
    let c = common(a, b) as int;
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        let (a1, b1) = (a.drop_first(), b.drop_first());
        lemma_parts_form(a1, b1);
        assert(a.take(c) =~= seq![a[0]] + a1.take(c - 1));
        assert(b.take(c) =~= seq![b[0]] + b1.take(c - 1));
        assert(b.skip(c) =~= b1.skip(c - 1));
    } else {
        assert(a.take(0) =~= b.take(0));
        assert(b.skip(0) =~= b);
    }
}
/// climbing n steps inside a directory
pub proof fn lemma_climb_in(k: nat, dirs: Seq<Seg>, n: nat, s: Seq<Seg>)
    requires n <= dirs.len(), s.len() > 0,
    ensures rel(k, dirs, ups(n) + s) == rel(k, dirs.take(dirs.len() - n), s), res(dirs, ups(n) + s) == res(dirs.take(dirs.len() - n), s),
    decreases n
{
    let l = ups(n) + s;
    if n == 0 {
        assert(l =~= s);
        assert(dirs.take(dirs.len() as int) =~= dirs);
    } else {
        assert(l[0] == dotdot());
        assert(l.drop_first() =~= ups((n - 1) as nat) + s);
        lemma_climb_in(k, dirs.drop_last(), (n - 1) as nat, s);
        assert(dirs.drop_last().take(dirs.len() - n) =~= dirs.take(dirs.len() - n));
    }
}
pub proof fn lemma_list_skip(l: Seq<Seg>, c: int)
    requires 0 <= c < l.len(),
    ensures list_ok(l) ==> list_ok(l.skip(c)), nodots(l) ==> nodots(l.skip(c)),
{
    let s = l.skip(c);
    if list_ok(l) {
        assert forall|i: int| 0 <= i < s.len() implies seg_ok(#[trigger] s[i]) && (i < s.len() - 1 ==> s[i].len() > 0) by { assert(s[i] == l[i + c]); }
    }
    if nodots(l) {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != dot() && s[i] != dotdot() by { assert(s[i] == l[i + c]); }
    }
}
/// a path b made relative to the directory a and resolved there again
pub proof fn lemma_there_and_back(k: nat, a: Seq<Seg>, b: Seq<Seg>)
    requires nodots(b), list_ok(b), !prefix(b, a),
    ensures rel(k, a, parts(a, b)) == (k, b), res(a, parts(a, b)) == b, list_ok(parts(a, b)),
{
    lemma_parts_form(a, b);
    let c = common(a, b);
    if c == b.len() { assert(b.take(c as int) =~= b); }
    let s = b.skip(c as int);
    let n = (a.len() - c) as nat;
    lemma_climb_in(k, a, n, s);
    lemma_list_skip(b, c as int);
    lemma_rel_plain(k, a.take(c as int), s);
    assert(b.take(c as int) + s =~= b);
    lemma_under_ok(n, s);
}
/// what is made relative to a root and joined to it again is the normal form of what it was
pub proof fn law_joined_of_relative(r: Ref, t: Ref)
    requires ref_ok(r), ref_ok(t), r.query is None, same_origin(r, t), relative_defined(r, t), not_above(r, t),
    ensures ref_ok(relative_ref(r, t)), text(relative_ref(r, t)) == relative_text(r, t), text(joined_ref(r, relative_ref(r, t))) == text(norm(t)),
{
    let q = relative_ref(r, t);
    let (k, kt) = (climb(r), climb(t));
    lemma_norm_ok(r);
    lemma_norm_ok(t);
    lemma_slashed_ok(tail(r));
    lemma_slashed_ok(norm_segs(r));
    if r.cls is PathRel {
        let a = strip(tail(r));
        let b = tail(t);
        if kt > k {
            let n = a.len();
            let m = (kt - k) as nat;
            assert(ups(m + n) + b =~= ups(n) + (ups(m) + b));
            lemma_climb_in(k, a, n, ups(m) + b);
            assert(a.take(0) =~= Seq::<Seg>::empty());
            lemma_rel_ups(k, m, b);
            lemma_rel_plain(kt, Seq::empty(), b);
            assert(Seq::<Seg>::empty() + b =~= b);
            lemma_under_ok(m + n, b);
            assert(rel(k, a, q.segs) == (kt, b));
        } else {
            lemma_there_and_back(k, a, b);
        }
        assert(under(k, a, q.segs) == ups(kt) + b);
    } else {
        lemma_there_and_back(k, strip(norm_segs(r)), norm_segs(t));
    }
    assert(text(q) =~= relative_text(r, t));
    let j = joined_ref(r, q);
    assert(j.segs == norm_segs(t) && j.query == t.query && j.frag == t.frag && j.cls == t.cls);
    assert(has_auth(j.cls) ==> j.auth == t.auth);
    assert(head_text(j) == head_text(norm(t)));
}
/// the normal form is a fixed point, and keeps class, authority, query and fragment
pub proof fn law_normal(x: Ref)
    requires ref_ok(x),
    ensures ref_ok(norm(x)), text(norm(norm(x))) == text(norm(x)), norm(x).query == x.query, norm(x).frag == x.frag, norm(x).cls == x.cls,
{
    lemma_norm_ok(x);
    let e = Seq::<Seg>::empty();
    if x.cls is PathRel { lemma_rel_form(climb(x), tail(x)); }
    else { lemma_rel_plain(0, e, norm_segs(x)); assert(e + norm_segs(x) =~= norm_segs(x)); }
    assert(norm(norm(x)).segs =~= norm(x).segs);
}
