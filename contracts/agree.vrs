// The dependency's reader (source_map_mappings::parsed) reads a string that
// follows the rules of the format (decode) as those rules say.  No code of the repository.
//@ use crate::base64::*
//@ use crate::base64_vlq::*
//@ use crate::decode::*
//@ use crate::source_map_mappings::*

/// x is the stored form of the decoded segment d
pub open spec fn stands(x: Core, d: DMap, so: Seq<String>, na: Seq<String>) -> bool {
    &&& x.line == d.line - 1 && x.column == d.column
    &&& x.original is Some <==> d.orig is Some
    &&& x.original is Some ==> {
        let o = x.original->0;
        &&& o.source < so.len() && so[o.source as int] == d.orig->0.source
        &&& o.original_line == d.orig->0.line - 1 && o.original_column == d.orig->0.column
        &&& o.name is Some <==> d.orig->0.name is Some
        &&& o.name is Some ==> o.name->0 < na.len() && d.orig->0.name == Some(na[o.name->0 as int])
    }
}
pub open spec fn some_stands(p: Seq<Core>, d: DMap, so: Seq<String>, na: Seq<String>) -> bool {
    exists|x: Core| #[trigger] p.contains(x) && stands(x, d, so, na)
}
pub open spec fn stands_for_some(x: Core, ds: Seq<DMap>, so: Seq<String>, na: Seq<String>) -> bool {
    exists|i: int| 0 <= i < ds.len() && stands(x, #[trigger] ds[i], so, na)
}
/// coordinates of 32 bits
pub open spec fn small(d: DMap) -> bool {
    &&& 1 <= d.line <= 0x7fff_ffff && 0 <= d.column <= 0x7fff_ffff
    &&& d.orig is Some ==> 1 <= d.orig->0.line <= 0x7fff_ffff && 0 <= d.orig->0.column <= 0x7fff_ffff
}
pub open spec fn all_small(ds: Seq<DMap>) -> bool { forall|i: int| 0 <= i < ds.len() ==> small(#[trigger] ds[i]) }
/// the mappings stand for the segments, all of them and nothing else
pub open spec fn all_stand(p: Seq<Core>, ds: Seq<DMap>, so: Seq<String>, na: Seq<String>) -> bool {
    &&& forall|i: int| 0 <= i < ds.len() ==> some_stands(p, #[trigger] ds[i], so, na)
    &&& forall|x: Core| #[trigger] p.contains(x) ==> stands_for_some(x, ds, so, na)
}

// ---- numbers
pub open spec fn bytes_of(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as int <= 127 }
pub open spec fn w5(k: int) -> int
    decreases k
{ if k <= 0 { 1 } else { 32 * w5(k - 1) } }
pub proof fn lemma_w5()
    ensures w5(0) == 1, w5(1) == 32, w5(2) == 1024, w5(3) == 32768, w5(4) == 1048576, w5(5) == 33554432, w5(6) == 1073741824, w5(7) == 34359738368,
{ reveal_with_fuel(w5, 9); }
pub proof fn lemma_digit(c: char)
    requires char_digit(c) >= 0,
    ensures rd_digit(c as u8) == Some(char_digit(c) as u8), c as int <= 127, 0 <= char_digit(c) < 64, c != ';', c != ',', c as u8 != 59, c as u8 != 44,
{}
pub proof fn lemma_shift(d: u8, k: int)
    requires 0 <= k < 7, d < 64,
    ensures ((d & 31) as u64) << (((5 * k) as u8) as u64) == (d % 32) * w5(k), (d & 32 == 0) == (d < 32),
{
    lemma_w5();
    assert(d < 64 ==> ((d & 32 == 0) == (d < 32))) by (bit_vector);
    assert(d & 31 == d % 32) by (bit_vector);
    let x = (d & 31) as u64;
    assert(d & 31 < 32) by (bit_vector);
    assert(x < 32 ==> x << 0u64 == x) by (bit_vector);
    assert(x < 32 ==> x << 5u64 == x * 32) by (bit_vector);
    assert(x < 32 ==> x << 10u64 == x * 1024) by (bit_vector);
    assert(x < 32 ==> x << 15u64 == x * 32768) by (bit_vector);
    assert(x < 32 ==> x << 20u64 == x * 1048576) by (bit_vector);
    assert(x < 32 ==> x << 25u64 == x * 33554432) by (bit_vector);
    assert(x < 32 ==> x << 30u64 == x * 1073741824) by (bit_vector);
}
pub proof fn lemma_number(s: Seq<char>, acc: u64, k: int)
    requires vlq_read(s) is Some, 0 <= k, k + (vlq_read(s)->0).1 <= 7, acc < w5(k),
    ensures 1 <= (vlq_read(s)->0).1 <= s.len(), acc + (vlq_read(s)->0).0 * w5(k) < w5(7),
        rd_number(bytes_of(s), acc, (5 * k) as u8) == Some(((acc + (vlq_read(s)->0).0 * w5(k)) as u64, bytes_of(s.subrange((vlq_read(s)->0).1 as int, s.len() as int)))),
    decreases s.len()
{
    reveal_with_fuel(rd_number, 2);
    lemma_w5();
    let d = char_digit(s[0]);
    lemma_digit(s[0]);
    let b = bytes_of(s);
    let t = s.subrange(1, s.len() as int);
    assert(b[0] == s[0] as u8);
    assert(b.skip(1) =~= bytes_of(t));
    if d >= 32 {
        assert((vlq_read(s)->0).1 == (vlq_read(t)->0).1 + 1);
        lemma_grows(t);
    }
    assert(k < 7);
    lemma_shift(d as u8, k);
    let v = (d % 32) * w5(k);
    assert(0 <= v <= 31 * w5(k)) by (nonlinear_arith) requires v == (d % 32) * w5(k), 0 <= d % 32 <= 31, w5(k) >= 0;
    assert(w5(k + 1) == 32 * w5(k));
    assert(acc + v < w5(k + 1));
    if d < 32 {
        assert(s.subrange(1, s.len() as int) =~= t);
    } else {
        let p = vlq_read(t)->0;
        lemma_number(t, (acc + v) as u64, k + 1);
        assert(p.0 * w5(k + 1) + v == (d - 32 + 32 * p.0) * w5(k)) by (nonlinear_arith) requires w5(k + 1) == 32 * w5(k), v == (d - 32) * w5(k);
        assert(t.subrange(p.1 as int, t.len() as int) =~= s.subrange((p.1 + 1) as int, s.len() as int));
    }
}
pub proof fn lemma_grows(s: Seq<char>)
    requires vlq_read(s) is Some,
    ensures 1 <= (vlq_read(s)->0).1 <= s.len(), forall|i: int| 0 <= i < (vlq_read(s)->0).1 ==> (#[trigger] s[i]) as int <= 127,
    decreases s.len()
{
    lemma_digit(s[0]);
    if char_digit(s[0]) >= 32 {
        let t = s.subrange(1, s.len() as int);
        lemma_grows(t);
        assert forall|i: int| 0 <= i < (vlq_read(s)->0).1 implies (#[trigger] s[i]) as int <= 127 by { if i > 0 { assert(t[i - 1] == s[i]); } }
    }
}
/// one field, read by both
pub proof fn lemma_field(s: Seq<char>, prev: int)
    requires vlq_read(s) is Some, (vlq_read(s)->0).1 <= 7, 0 <= prev + vlq_to_signed((vlq_read(s)->0).0) <= u32::MAX,
    ensures 1 <= (vlq_read(s)->0).1 <= s.len(),
        rd_field(prev, bytes_of(s)) == Some((prev + vlq_to_signed((vlq_read(s)->0).0), bytes_of(s.subrange((vlq_read(s)->0).1 as int, s.len() as int)))),
{
    lemma_w5();
    lemma_number(s, 0, 0);
}
// ---- the format's reader
pub open spec fn at_sep(s: Seq<char>) -> bool { s.len() == 0 || s[0] == ';' || s[0] == ',' }
pub open spec fn fin(s: Seq<char>, st: Dec, so: Seq<String>, na: Seq<String>) -> Dec { flush(dec_run(s, st, so, na), so, na) }
pub proof fn lemma_ascii(s: Seq<char>, st: Dec, so: Seq<String>, na: Seq<String>)
    requires !dec_run(s, st, so, na).err,
    ensures ascii(s),
    decreases s.len()
{
    reveal_with_fuel(dec_run, 2);
    if s.len() > 0 {
        let n = if s[0] == ';' || s[0] == ',' { 1 } else { lemma_grows(s); (vlq_read(s)->0).1 as int };
        let t = s.subrange(n, s.len() as int);
        let st2 = if s[0] == ';' { dec_newline(st, so, na) } else if s[0] == ',' { dec_comma(st, so, na) } else { dec_field(st, vlq_to_signed((vlq_read(s)->0).0)) };
        lemma_ascii(t, st2, so, na);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) as int <= 127 by { if i >= n { assert(t[i - n] == s[i]); } }
    }
}
pub open spec fn starts(a: Seq<DMap>, b: Seq<DMap>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
/// what has been read stays, and six fields are never right
pub proof fn lemma_goes_on(s: Seq<char>, st: Dec, so: Seq<String>, na: Seq<String>)
    requires !fin(s, st, so, na).err,
    ensures !st.err, starts(st.out, fin(s, st, so, na).out), st.cur.len() < 6,
    decreases s.len()
{
    reveal_with_fuel(dec_run, 2);
    if s.len() > 0 && !st.err {
        if s[0] == ';' { lemma_goes_on(s.subrange(1, s.len() as int), dec_newline(st, so, na), so, na); }
        else if s[0] == ',' { lemma_goes_on(s.subrange(1, s.len() as int), dec_comma(st, so, na), so, na); }
        else if vlq_read(s) is Some {
            lemma_grows(s);
            let p = vlq_read(s)->0;
            lemma_goes_on(s.subrange(p.1 as int, s.len() as int), dec_field(st, vlq_to_signed(p.0)), so, na);
        }
    }
}
/// at the end of a segment
pub proof fn lemma_flushed(s: Seq<char>, st: Dec, so: Seq<String>, na: Seq<String>)
    requires !fin(s, st, so, na).err, at_sep(s), st.cur.len() > 0,
    ensures !flush(st, so, na).err, starts(flush(st, so, na).out, fin(s, st, so, na).out),
        st.cur.len() == 1 || st.cur.len() == 4 || st.cur.len() == 5,
{
    reveal_with_fuel(dec_run, 2);
    if s.len() > 0 {
        if s[0] == ';' { lemma_goes_on(s.subrange(1, s.len() as int), dec_newline(st, so, na), so, na); }
        else { lemma_goes_on(s.subrange(1, s.len() as int), dec_comma(st, so, na), so, na); }
    }
}
/// a field's step of the format's reader
pub proof fn lemma_step(s: Seq<char>, st: Dec, so: Seq<String>, na: Seq<String>)
    requires !fin(s, st, so, na).err, !at_sep(s),
    ensures vlq_read(s) is Some, 0 < (vlq_read(s)->0).1 <= 7, (vlq_read(s)->0).1 <= s.len(),
        fin(s, st, so, na) == fin(s.subrange((vlq_read(s)->0).1 as int, s.len() as int), dec_field(st, vlq_to_signed((vlq_read(s)->0).0)), so, na),
        bytes_of(s).len() > 0, ascii(s) ==> !rd_end(bytes_of(s)) && ascii(s.subrange((vlq_read(s)->0).1 as int, s.len() as int)),
{
    reveal_with_fuel(dec_run, 2);
    if vlq_read(s) is Some { lemma_grows(s); lemma_digit(s[0]); }
}
pub open spec fn rel(st: Dec, r: Reading, so: Seq<String>, na: Seq<String>) -> bool {
    &&& !st.err && st.line == r.line + 1 && st.gcol == r.column && st.src == r.source && st.oline == r.oline && st.ocol == r.ocolumn && st.name == r.name
    &&& all_stand(r.done + r.now, st.out, so, na)
}
pub proof fn lemma_stand_push(p: Seq<Core>, q: Seq<Core>, ds: Seq<DMap>, x: Core, d: DMap, so: Seq<String>, na: Seq<String>)
    requires all_stand(p + q, ds, so, na), stands(x, d, so, na),
    ensures all_stand(p + q.push(x), ds.push(d), so, na),
{
    let a = p + q;
    let b = p + q.push(x);
    let es = ds.push(d);
    assert(b =~= a.push(x));
    assert forall|i: int| 0 <= i < es.len() implies some_stands(b, #[trigger] es[i], so, na) by {
        if i < ds.len() {
            assert(some_stands(a, ds[i], so, na));
            let y = choose|y: Core| #[trigger] a.contains(y) && stands(y, ds[i], so, na);
            let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
            assert(b[j] == y);
            assert(b.contains(y));
        } else { assert(b[a.len() as int] == x); assert(b.contains(x)); }
    }
    assert forall|y: Core| #[trigger] b.contains(y) implies stands_for_some(y, es, so, na) by {
        let j = choose|j: int| 0 <= j < b.len() && b[j] == y;
        if j < a.len() {
            assert(a[j] == y);
            assert(a.contains(y));
            assert(stands_for_some(y, ds, so, na));
            let i = choose|i: int| 0 <= i < ds.len() && stands(y, #[trigger] ds[i], so, na);
            assert(es[i] == ds[i]);
        } else { assert(es[ds.len() as int] == d); }
    }
}
pub proof fn lemma_stand_sorted(p: Seq<Core>, q: Seq<Core>, ds: Seq<DMap>, so: Seq<String>, na: Seq<String>)
    requires all_stand(p + q, ds, so, na),
    ensures all_stand(p + rd_sorted(q), ds, so, na), (p + rd_sorted(q)) + Seq::<Core>::empty() == p + rd_sorted(q),
{
    let w = rd_sorted(q);
    let a = p + q;
    let b = p + w;
    assert(b + Seq::<Core>::empty() =~= b);
    lemma_rd_order();
    q.lemma_sort_by_ensures(rd_leq());
    q.to_multiset_ensures();
    w.to_multiset_ensures();
    assert forall|x: Core| #[trigger] q.contains(x) <==> w.contains(x) by { assert(q.to_multiset().count(x) == w.to_multiset().count(x)); }
    assert forall|x: Core| #[trigger] a.contains(x) <==> b.contains(x) by {
        if a.contains(x) {
            let j = choose|j: int| 0 <= j < a.len() && a[j] == x;
            if j < p.len() { assert(b[j] == x); }
            else {
                assert(q[j - p.len()] == x);
                assert(q.contains(x));
                let i = choose|i: int| 0 <= i < w.len() && w[i] == x;
                assert(b[p.len() + i] == x);
            }
        }
        if b.contains(x) {
            let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
            if j < p.len() { assert(a[j] == x); }
            else {
                assert(w[j - p.len()] == x);
                assert(w.contains(x));
                let i = choose|i: int| 0 <= i < q.len() && q[i] == x;
                assert(a[p.len() + i] == x);
            }
        }
    }
    assert forall|i: int| 0 <= i < ds.len() implies some_stands(b, #[trigger] ds[i], so, na) by {
        assert(some_stands(a, ds[i], so, na));
        let y = choose|y: Core| #[trigger] a.contains(y) && stands(y, ds[i], so, na);
        assert(b.contains(y));
    }
    assert forall|x: Core| #[trigger] b.contains(x) implies stands_for_some(x, ds, so, na) by { assert(a.contains(x)); }
}
/// the end of a segment, in both readers
pub proof fn lemma_end(s: Seq<char>, st0: Dec, st: Dec, r: Reading, r2: Reading, so: Seq<String>, na: Seq<String>)
    requires rel(st0, r, so, na), st0.cur.len() == 0, st == (Dec { cur: st.cur, ..st0 }), st.cur.len() > 0,
        !fin(s, st, so, na).err, all_small(fin(s, st, so, na).out), at_sep(s), so.len() <= 0x7fff_ffff, na.len() <= 0x7fff_ffff,
        ({
            let c = st.cur;
            let column = r.column + c[0];
            let source = if c.len() >= 4 { r.source + c[1] } else { r.source };
            let oline = if c.len() >= 4 { r.oline + c[2] } else { r.oline };
            let ocolumn = if c.len() >= 4 { r.ocolumn + c[3] } else { r.ocolumn };
            let name = if c.len() == 5 { r.name + c[4] } else { r.name };
            let o = OriginalLocation { source: source as u32, original_line: oline as u32, original_column: ocolumn as u32, name: if c.len() == 5 { Some(name as u32) } else { None } };
            r2 == (Reading { column, source, oline, ocolumn, name, now: r.now.push(Core { line: r.line, column, original: if c.len() >= 4 { Some(o) } else { None } }), ..r })
        }),
    ensures rel(flush(st, so, na), r2, so, na), 0 <= r2.column <= u32::MAX, 0 <= r2.source <= u32::MAX || st.cur.len() == 1, 0 <= r2.oline <= u32::MAX || st.cur.len() == 1, 0 <= r2.ocolumn <= u32::MAX || st.cur.len() == 1, 0 <= r2.name <= u32::MAX || st.cur.len() < 5,
        st.cur.len() == 1 || st.cur.len() == 4 || st.cur.len() == 5,
{
    lemma_flushed(s, st, so, na);
    let f = flush(st, so, na);
    let g = fin(s, st, so, na);
    let d = f.out.last();
    assert(g.out[f.out.len() - 1] == d);
    assert(small(d));
    let x = r2.now.last();
    assert(f.out =~= st0.out.push(d));
    assert(stands(x, d, so, na));
    lemma_stand_push(r.done, r.now, st0.out, x, d, so, na);
}
/// a segment, in both readers
pub proof fn lemma_segment(s: Seq<char>, st: Dec, r: Reading, so: Seq<String>, na: Seq<String>) -> (z: (Seq<char>, Dec, Reading))
    requires rel(st, r, so, na), st.cur.len() == 0, ascii(s), !at_sep(s),
        !fin(s, st, so, na).err, all_small(fin(s, st, so, na).out), so.len() <= 0x7fff_ffff, na.len() <= 0x7fff_ffff,
    ensures rd_segment(bytes_of(s), r) == Some((z.2, bytes_of(z.0))), z.0.len() < s.len(), ascii(z.0), at_sep(z.0),
        fin(z.0, z.1, so, na) == fin(s, st, so, na), z.1.cur.len() > 0, rel(flush(z.1, so, na), z.2, so, na),
{
    reveal(rd_segment);
    lemma_step(s, st, so, na);
    let p1 = vlq_read(s)->0;
    let x1 = vlq_to_signed(p1.0);
    let s1 = s.subrange(p1.1 as int, s.len() as int);
    let st1 = dec_field(st, x1);
    if at_sep(s1) {
        let r2 = Reading { column: r.column + x1, now: r.now.push(Core { line: r.line, column: r.column + x1, original: None }), ..r };
        lemma_end(s1, st, st1, r, r2, so, na);
        lemma_field(s, r.column);
        lemma_sep(s1);
        (s1, st1, r2)
    } else {
        lemma_step(s1, st1, so, na);
        let p2 = vlq_read(s1)->0;
        let x2 = vlq_to_signed(p2.0);
        let s2 = s1.subrange(p2.1 as int, s1.len() as int);
        let st2 = dec_field(st1, x2);
        if at_sep(s2) { lemma_flushed(s2, st2, so, na); }
        lemma_step(s2, st2, so, na);
        let p3 = vlq_read(s2)->0;
        let x3 = vlq_to_signed(p3.0);
        let s3 = s2.subrange(p3.1 as int, s2.len() as int);
        let st3 = dec_field(st2, x3);
        if at_sep(s3) { lemma_flushed(s3, st3, so, na); }
        lemma_step(s3, st3, so, na);
        let p4 = vlq_read(s3)->0;
        let x4 = vlq_to_signed(p4.0);
        let s4 = s3.subrange(p4.1 as int, s3.len() as int);
        let st4 = dec_field(st3, x4);
        if at_sep(s4) {
            let o = OriginalLocation { source: (r.source + x2) as u32, original_line: (r.oline + x3) as u32, original_column: (r.ocolumn + x4) as u32, name: None };
            let r2 = Reading { column: r.column + x1, source: r.source + x2, oline: r.oline + x3, ocolumn: r.ocolumn + x4,
                now: r.now.push(Core { line: r.line, column: r.column + x1, original: Some(o) }), ..r };
            lemma_end(s4, st, st4, r, r2, so, na);
            lemma_field(s, r.column);
            lemma_field(s1, r.source);
            lemma_field(s2, r.oline);
            lemma_field(s3, r.ocolumn);
            lemma_sep(s1); lemma_sep(s4);
            (s4, st4, r2)
        } else {
            lemma_step(s4, st4, so, na);
            let p5 = vlq_read(s4)->0;
            let x5 = vlq_to_signed(p5.0);
            let s5 = s4.subrange(p5.1 as int, s4.len() as int);
            let st5 = dec_field(st4, x5);
            if !at_sep(s5) {
                lemma_step(s5, st5, so, na);
                let p6 = vlq_read(s5)->0;
                lemma_goes_on(s5.subrange(p6.1 as int, s5.len() as int), dec_field(st5, vlq_to_signed(p6.0)), so, na);
            }
            let o = OriginalLocation { source: (r.source + x2) as u32, original_line: (r.oline + x3) as u32, original_column: (r.ocolumn + x4) as u32, name: Some((r.name + x5) as u32) };
            let r2 = Reading { column: r.column + x1, source: r.source + x2, oline: r.oline + x3, ocolumn: r.ocolumn + x4, name: r.name + x5,
                now: r.now.push(Core { line: r.line, column: r.column + x1, original: Some(o) }), ..r };
            lemma_end(s5, st, st5, r, r2, so, na);
            lemma_field(s, r.column);
            lemma_field(s1, r.source);
            lemma_field(s2, r.oline);
            lemma_field(s3, r.ocolumn);
            lemma_field(s4, r.name);
            lemma_sep(s1); lemma_sep(s4);
            (s5, st5, r2)
        }
    }
}
pub proof fn lemma_sep(s: Seq<char>)
    requires ascii(s),
    ensures rd_end(bytes_of(s)) == at_sep(s),
{
    if s.len() > 0 { assert(bytes_of(s)[0] == s[0] as u8); assert(s[0] as int <= 127); }
}
pub proof fn lemma_agree(s: Seq<char>, st: Dec, r: Reading, so: Seq<String>, na: Seq<String>)
    requires !fin(s, st, so, na).err, all_small(fin(s, st, so, na).out), ascii(s), so.len() <= 0x7fff_ffff, na.len() <= 0x7fff_ffff,
        (st.cur.len() == 0 && rel(st, r, so, na)) || (st.cur.len() > 0 && at_sep(s) && rel(flush(st, so, na), r, so, na)),
    ensures reading(bytes_of(s), r) is Some, all_stand(reading(bytes_of(s), r)->0, fin(s, st, so, na).out, so, na),
    decreases s.len()
{
    reveal_with_fuel(dec_run, 2);
    reveal_with_fuel(reading, 2);
    lemma_goes_on(s, st, so, na);
    let b = bytes_of(s);
    if s.len() == 0 {
        lemma_stand_sorted(r.done, r.now, flush(st, so, na).out, so, na);
    } else {
        let t = s.subrange(1, s.len() as int);
        assert(b[0] == s[0] as u8 && s[0] as int <= 127);
        assert(b.skip(1) =~= bytes_of(t));
        assert(ascii(t));
        if s[0] == ';' {
            lemma_goes_on(t, dec_newline(st, so, na), so, na);
            lemma_stand_sorted(r.done, r.now, flush(st, so, na).out, so, na);
            lemma_agree(t, dec_newline(st, so, na), rd_newline(r), so, na);
        } else if s[0] == ',' {
            lemma_goes_on(t, dec_comma(st, so, na), so, na);
            lemma_agree(t, dec_comma(st, so, na), r, so, na);
        } else {
            let z = lemma_segment(s, st, r, so, na);
            lemma_agree(z.0, z.1, z.2, so, na);
        }
    }
}
pub proof fn lemma_parsed_reads_the_format(s: Seq<char>, so: Seq<String>, na: Seq<String>)
    requires decode(s, so, na) is Some, all_small(decode(s, so, na)->0), so.len() <= 0x7fff_ffff, na.len() <= 0x7fff_ffff,
    ensures parsed(crate::vshim::text_bytes(s)) is Some, all_stand(parsed(crate::vshim::text_bytes(s))->0, decode(s, so, na)->0, so, na),
{
    reveal(parsed);
    let st = dec_start();
    let f = dec_run(s, st, so, na);
    lemma_ascii(s, st, so, na);
    assert(vstd::utf8::is_ascii_chars(s));
    vstd::utf8::is_ascii_chars_encode_utf8(s);
    assert(crate::vshim::text_bytes(s) =~= bytes_of(s));
    let r = rd_start();
    assert(r.done + r.now =~= Seq::<Core>::empty());
    lemma_agree(s, st, r, so, na);
}
