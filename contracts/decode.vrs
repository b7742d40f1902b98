// The reader's side of the "mappings" string: the Source Map v3 rules as a
// function, and the facts the writer's proof needs.  No code of the repository.
//@ use crate::base64::*
//@ use crate::base64_vlq::*
//@ use crate::util::*
//@ use crate::mapping::Mapping

pub ghost struct DOrig { pub source: String, pub line: int, pub column: int, pub name: Option<String> }
/// a decoded segment: 1-based lines, 0-based columns
pub ghost struct DMap { pub line: int, pub column: int, pub orig: Option<DOrig> }

/// Reader state: position of the line being read, last value of each relative
/// field, fields of the segment being read, segments read so far.
pub ghost struct Dec {
    pub err: bool, pub comma: bool, pub cur: Seq<int>,
    pub line: int, pub gcol: int, pub src: int, pub oline: int, pub ocol: int, pub name: int,
    pub out: Seq<DMap>,
}
pub open spec fn dec_start() -> Dec {
    Dec { err: false, comma: false, cur: Seq::empty(), line: 1, gcol: 0, src: 0, oline: 0, ocol: 0, name: 0, out: Seq::empty() }
}
pub open spec fn dec_bad() -> Dec { Dec { err: true, ..dec_start() } }

/// end of a segment
pub open spec fn flush(st: Dec, so: Seq<String>, na: Seq<String>) -> Dec {
    let n = st.cur.len();
    let g = st.gcol + st.cur[0];
    if st.err { dec_bad() }
    else if n == 0 { if st.comma { dec_bad() } else { st } }
    else if g < 0 { dec_bad() }
    else if n == 1 {
        Dec { comma: false, cur: Seq::empty(), gcol: g, out: st.out.push(DMap { line: st.line, column: g, orig: None }), ..st }
    } else if n == 4 || n == 5 {
        let s = st.src + st.cur[1];
        let l = st.oline + st.cur[2];
        let c = st.ocol + st.cur[3];
        let k = if n == 5 { st.name + st.cur[4] } else { st.name };
        if !(0 <= s < so.len() && l >= 0 && c >= 0) { dec_bad() }
        else if n == 5 && !(0 <= k < na.len()) { dec_bad() }
        else {
            Dec { comma: false, cur: Seq::empty(), gcol: g, src: s, oline: l, ocol: c, name: k,
                out: st.out.push(DMap { line: st.line, column: g,
                    orig: Some(DOrig { source: so[s], line: l + 1, column: c, name: if n == 5 { Some(na[k]) } else { None } }) }),
                ..st }
        }
    } else { dec_bad() }
}
pub open spec fn dec_newline(st: Dec, so: Seq<String>, na: Seq<String>) -> Dec {
    let f = flush(st, so, na);
    Dec { line: f.line + 1, gcol: 0, ..f }
}
pub open spec fn dec_comma(st: Dec, so: Seq<String>, na: Seq<String>) -> Dec {
    let f = flush(st, so, na);
    if st.cur.len() == 0 { dec_bad() } else { Dec { comma: true, ..f } }
}
pub open spec fn dec_field(st: Dec, x: int) -> Dec { Dec { cur: st.cur.push(x), ..st } }

#[verifier::opaque]
pub open spec fn dec_run(s: Seq<char>, st: Dec, so: Seq<String>, na: Seq<String>) -> Dec
    decreases s.len()
{
    if s.len() == 0 || st.err { st }
    else if s[0] == ';' { dec_run(s.subrange(1, s.len() as int), dec_newline(st, so, na), so, na) }
    else if s[0] == ',' { dec_run(s.subrange(1, s.len() as int), dec_comma(st, so, na), so, na) }
    else {
        match vlq_read(s) {
            // 7 digits hold every 32-bit difference; a longer number is refused
            Some(p) => if 0 < p.1 <= s.len() && p.1 <= 7 {
                dec_run(s.subrange(p.1 as int, s.len() as int), dec_field(st, vlq_to_signed(p.0)), so, na)
            } else { dec_bad() },
            None => dec_bad(),
        }
    }
}
/// the mappings a "mappings" string stands for; None if it breaks the rules
pub open spec fn decode(s: Seq<char>, so: Seq<String>, na: Seq<String>) -> Option<Seq<DMap>> {
    let f = flush(dec_run(s, dec_start(), so, na), so, na);
    if f.err { None } else { Some(f.out) }
}

/// what a mapping should be read back as
pub open spec fn dmap(m: Mapping) -> DMap {
    DMap { line: m.generated.line as int, column: m.generated.column as int,
        orig: if m.source is Some { Some(DOrig { source: m.source->0, line: m.original->0.line as int, column: m.original->0.column as int, name: m.name }) } else { None } }
}
/// consecutive equal mappings merged
pub open spec fn merged(ms: Seq<Mapping>) -> Seq<DMap>
    decreases ms.len()
{
    if ms.len() == 0 { Seq::empty() }
    else if ms.len() > 1 && same_fields(ms.last(), ms[ms.len() - 2]) { merged(ms.drop_last()) }
    else { merged(ms.drop_last()).push(dmap(ms.last())) }
}
pub proof fn lemma_merged_step(ms: Seq<Mapping>, i: int)
    requires 0 <= i < ms.len(),
    ensures merged(ms.take(i + 1)) == (if i > 0 && same_fields(ms[i], ms[i - 1]) { merged(ms.take(i)) } else { merged(ms.take(i)).push(dmap(ms[i])) }),
{
    let t = ms.take(i + 1);
    assert(t.drop_last() =~= ms.take(i));
}

pub proof fn lemma_vlq_read_prefix(a: Seq<char>, b: Seq<char>)
    requires vlq_read(a) is Some,
    ensures vlq_read(a + b) == vlq_read(a), 0 < vlq_read(a).unwrap().1 <= a.len(),
    decreases a.len()
{
    let d = char_digit(a[0]);
    assert((a + b)[0] == a[0]);
    if d >= 32 {
        let t = a.subrange(1, a.len() as int);
        assert((a + b).subrange(1, (a + b).len() as int) =~= t + b);
        lemma_vlq_read_prefix(t, b);
    }
}
pub broadcast proof fn lemma_run_add(a: Seq<char>, b: Seq<char>, st: Dec, so: Seq<String>, na: Seq<String>)
    requires !dec_run(a, st, so, na).err,
    ensures #[trigger] dec_run(a + b, st, so, na) == dec_run(b, dec_run(a, st, so, na), so, na),
    decreases a.len()
{
    reveal_with_fuel(dec_run, 2);
    let s = a + b;
    if a.len() == 0 { assert(s =~= b); }
    else if !st.err {
        assert(s[0] == a[0]);
        if a[0] == ';' || a[0] == ',' {
            let t = a.subrange(1, a.len() as int);
            assert(s.subrange(1, s.len() as int) =~= t + b);
            lemma_run_add(t, b, if a[0] == ';' { dec_newline(st, so, na) } else { dec_comma(st, so, na) }, so, na);
        } else {
            lemma_vlq_read_prefix(a, b);
            let p = vlq_read(a).unwrap();
            let t = a.subrange(p.1 as int, a.len() as int);
            assert(s.subrange(p.1 as int, s.len() as int) =~= t + b);
            lemma_run_add(t, b, dec_field(st, vlq_to_signed(p.0)), so, na);
        }
    }
}
pub broadcast proof fn lemma_run_enc(x: int, st: Dec, so: Seq<String>, na: Seq<String>)
    requires !st.err, -0x8000_0000 <= x <= 0x7fff_ffff,
    ensures #[trigger] dec_run(vlq_enc(x), st, so, na) == dec_field(st, x),
{
    reveal_with_fuel(dec_run, 2);
    let e = vlq_enc(x);
    let v = signed_to_vlq(x);
    lemma_enc_is_digits(v);
    vstd::arithmetic::power2::lemma2_to64();
    vstd::arithmetic::power2::lemma_pow2_adds(32, 3);
    lemma_enc_len(v, 7);
    assert(char_digit(e[0]) >= 0);
    lemma_vlq_roundtrip(x, Seq::empty());
    assert(e + Seq::<char>::empty() =~= e);
    let rest = e.subrange(e.len() as int, e.len() as int);
    assert(rest.len() == 0);
    assert(dec_run(rest, dec_field(st, x), so, na) == dec_field(st, x));
}
pub broadcast proof fn lemma_run_sep(s: Seq<char>, st: Dec, so: Seq<String>, na: Seq<String>)
    requires !st.err, s.len() == 1, s[0] == ';' || s[0] == ',',
    ensures #[trigger] dec_run(s, st, so, na) == (if s[0] == ';' { dec_newline(st, so, na) } else { dec_comma(st, so, na) }),
{
    reveal_with_fuel(dec_run, 2);
    let st2 = if s[0] == ';' { dec_newline(st, so, na) } else { dec_comma(st, so, na) };
    let r = s.subrange(1, 1);
    assert(r.len() == 0);
    assert(dec_run(r, st2, so, na) == st2);
}
pub broadcast proof fn lemma_run_empty(s: Seq<char>, st: Dec, so: Seq<String>, na: Seq<String>)
    requires s.len() == 0,
    ensures #[trigger] dec_run(s, st, so, na) == st,
{
    reveal_with_fuel(dec_run, 2);
}
pub broadcast proof fn lemma_run_push(a: Seq<char>, c: char, st: Dec, so: Seq<String>, na: Seq<String>)
    requires !dec_run(a, st, so, na).err,
    ensures #[trigger] dec_run(a.push(c), st, so, na) == dec_run(seq![c], dec_run(a, st, so, na), so, na),
{
    assert(a.push(c) =~= a + seq![c]);
    lemma_run_add(a, seq![c], st, so, na);
}
pub broadcast group group_decode { lemma_run_empty, lemma_run_add, lemma_run_enc, lemma_run_sep, lemma_run_push }
