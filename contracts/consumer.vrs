//@ use std::collections::HashMap
//@ use crate::util::*
//@ use crate::array_set::*
//@ use crate::source_map_mappings::*
//@ use crate::serde_json
//@ use crate::serde_json::json_value
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::vshim::group_strings, crate::source_map_mappings::group_cores};

//@ type Consumer
//@ type IterOrd
//@ type BasicConsumer
//@ type Section
//@ type IndexedConsumer
//@ const *

// ------------------------------------------------------------ sections: none
/// the absolute URLs of a document's sources, one per entry
pub open spec fn source_urls(doc: SourceMapJson, url: Option<Seq<char>>) -> Seq<String> {
    doc.sources->0@.map_values(|s: String| source_url_spec(opt_string(doc.source_root), s@, url))
}
/// the first source whose URL is the name resolved against the map's URL, else against the source root
pub open spec fn resolve(c: BasicConsumer, name: Seq<char>) -> Option<int> {
    let l = c.absolute_sources.list();
    let a = source_url_spec(None, name, opt_string(c.source_map_url));
    let b = source_url_spec(opt_string(c.source_map.source_root), name, opt_string(c.source_map_url));
    if l.contains(a) { Some(choose|i: int| is_first(l, a, i)) }
    else if l.contains(b) { Some(choose|i: int| is_first(l, b, i)) }
    else { None }
}
/// a document a consumer without sections can be made of: it has sources, fewer than 2^31
pub open spec fn doc_ok(d: SourceMapJson) -> bool { d.sources is Some && d.sources->0@.len() <= 0x7fff_ffff }
impl BasicConsumer {
    pub open spec fn wf(&self) -> bool {
        &&& self.absolute_sources.wf()
        &&& self.source_map.sources is Some
        &&& self.source_map.sources->0@.len() <= 0x7fff_ffff
        &&& self.absolute_sources.list() == source_urls(self.source_map, opt_string(self.source_map_url))
        &&& forall|s: String| #[trigger] self.source_lookup_cache@.dom().contains(s) ==> resolve(*self, s@) == Some(self.source_lookup_cache@[s] as int)
        &&& self.mappings is Some ==> self.has_mappings() && self.mappings->0.all() == self.doc_mappings()
        &&& self.computed_column_spans ==> self.mappings is Some && self.mappings->0.computed()
    }
    /// the mappings string is there and can be parsed
    pub open spec fn has_mappings(&self) -> bool {
        self.source_map.mappings is Some && parsed(text_bytes(self.source_map.mappings->0@)) is Some
    }
    pub open spec fn doc_mappings(&self) -> Seq<Core> { parsed(text_bytes(self.source_map.mappings->0@))->0 }
    /// the document's numbers are in range: coordinates below 2^31 - 1, name
    /// indices inside the names table
    pub open spec fn in_range(&self) -> bool {
        &&& self.has_mappings()
        &&& forall|x: Core| #[trigger] self.doc_mappings().contains(x) ==> core_ok(x, self.source_map.names)
    }
    /// nothing an answer depends on has changed
    pub open spec fn same(&self, o: &BasicConsumer) -> bool {
        &&& self.source_map == o.source_map
        &&& self.source_map_url == o.source_map_url
        &&& self.absolute_sources == o.absolute_sources
    }
}
pub open spec fn core_ok(x: Core, names: Option<Vec<String>>) -> bool {
    &&& 0 <= x.line < 0x7fff_ffff && 0 <= x.column <= 0x7fff_ffff
    &&& x.original is Some ==> x.original->0.source < 0x7fff_ffff && x.original->0.original_line < 0x7fff_ffff && x.original->0.original_column <= 0x7fff_ffff
    &&& x.original is Some && x.original->0.name is Some ==> names is Some && x.original->0.name->0 < names->0@.len()
}
pub proof fn lemma_first_unique(l: Seq<String>, s: String)
    ensures l.contains(s) ==> exists|i: int| is_first(l, s, i),
        forall|i: int, j: int| is_first(l, s, i) && is_first(l, s, j) ==> i == j,
    decreases l.len()
{
    if l.contains(s) {
        let p = l.drop_last();
        assert(forall|j: int| 0 <= j < p.len() ==> p[j] == l[j]);
        if p.contains(s) {
            lemma_first_unique(p, s);
            let i = choose|i: int| is_first(p, s, i);
            assert(forall|j: int| 0 <= j < i ==> p[j] != s && l[j] == p[j]);
            assert(is_first(l, s, i));
        } else {
            assert(forall|j: int| 0 <= j < p.len() ==> p[j] != s) by {
                assert forall|j: int| 0 <= j < p.len() implies p[j] != s by { if p[j] == s { assert(p.contains(s)); } }
            }
            let k = choose|k: int| 0 <= k < l.len() && l[k] == s;
            assert(k == l.len() - 1);
            assert(is_first(l, s, l.len() - 1));
        }
    }
    assert forall|i: int, j: int| is_first(l, s, i) && is_first(l, s, j) implies i == j by {}
}
/// what `resolve` gives is an index of the table
pub proof fn lemma_resolve(c: BasicConsumer, name: Seq<char>)
    ensures resolve(c, name) is Some ==> 0 <= resolve(c, name)->0 < c.absolute_sources.list().len(),
        c.wf() && resolve(c, name) is Some ==> 0 <= resolve(c, name)->0 < 0x7fff_ffff,
{
    let a = source_url_spec(None, name, opt_string(c.source_map_url));
    let b = source_url_spec(opt_string(c.source_map.source_root), name, opt_string(c.source_map_url));
    lemma_first_unique(c.absolute_sources.list(), a);
    lemma_first_unique(c.absolute_sources.list(), b);
}

//@ fn BasicConsumer::from_source_map_json
    requires doc_ok(source_map),
    ensures r.wf(), r.source_map == source_map, opt_string(r.source_map_url) == opt_text(source_map_url),
//@. loop 0
    invariant
        $vec0 == source_map.sources->0@,
        __out_0@ == source_urls(source_map, opt_text(source_map_url)).take($i0),
//@. at start
    proof { lemma_added_all_dup(source_urls(source_map, opt_text(source_map_url))); }
//@. at la_0
    proof { assert(__out_0@ =~= source_urls(source_map, opt_text(source_map_url))); }
//@ end

//@ fn BasicConsumer::new
    requires json_value::<SourceMapJson>(source_map_raw@) is Some,
        doc_ok(json_value::<SourceMapJson>(source_map_raw@)->0),
    ensures r.wf(), r.source_map == json_value::<SourceMapJson>(source_map_raw@)->0, opt_string(r.source_map_url) == opt_text(source_map_url),
//@. loop 0
    invariant
        $vec0 == source_map.sources->0@,
        __out_0@ == source_urls(source_map, opt_text(source_map_url)).take($i0),
//@. at let_source_map
    proof { lemma_added_all_dup(source_urls(source_map, opt_text(source_map_url))); }
//@. at la_0
    proof { assert(__out_0@ =~= source_urls(source_map, opt_text(source_map_url))); }
//@ end

//@ fn BasicConsumer::find_source_index
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)),
        final(self).mappings == old(self).mappings, final(self).computed_column_spans == old(self).computed_column_spans,
        r is Some <==> resolve(*old(self), source@) is Some,
        r is Some ==> r->0 == resolve(*old(self), source@)->0,
//@. at start
    let ghost gname = choose|s: String| s@ == source@;
    proof {
        axiom_string_of_str(source);
        lemma_resolve(*self, source@);
        lemma_first_unique(self.absolute_sources.list(), source_url_spec(None, source@, opt_string(self.source_map_url)));
        lemma_first_unique(self.absolute_sources.list(), source_url_spec(opt_string(self.source_map.source_root), source@, opt_string(self.source_map_url)));
    }
//@ end

//@ fn BasicConsumer::get_sources
    requires self.wf(),
    ensures r@ == source_urls(self.source_map, opt_string(self.source_map_url)),
//@ end

//@ fn BasicConsumer::parse_mappings
    requires self.source_map.mappings is Some,
    ensures r is Ok <==> parsed(text_bytes(self.source_map.mappings->0@)) is Some,
        r is Ok ==> r->Ok_0.all() == parsed(text_bytes(self.source_map.mappings->0@))->0,
//@ end

/// the document can be asked for mappings
pub open spec fn lub(b: Option<Bias>) -> bool { b == Some(Bias::LeastUpperBound) }

// ------------------------------------------------------------ C09
/// x is the mapping a lookup of the 0-based generated position (l, c) takes
pub open spec fn closest_gen(all: Seq<Core>, l: int, c: int, up: bool, x: Core) -> bool {
    &&& all.contains(x) && x.line == l
    &&& {
        ||| x.column == c
        ||| {
            &&& !(exists|y: Core| #[trigger] all.contains(y) && at_gen(y, l, c))
            &&& if up { x.column > c && forall|y: Core| #[trigger] all.contains(y) && y.line == l && y.column > c ==> x.column <= y.column }
                else { x.column < c && forall|y: Core| #[trigger] all.contains(y) && y.line == l && y.column < c ==> y.column <= x.column }
        }
    }
}
/// m is the public form of the stored mapping x: 1-based lines, the source's
/// URL and the name itself
pub open spec fn reports(c: BasicConsumer, x: Core, m: Mapping) -> bool {
    &&& m.generated.line == x.line + 1 && m.generated.column == x.column
    &&& x.original is Some && m.original is Some
    &&& m.original->0.line == x.original->0.original_line + 1 && m.original->0.column == x.original->0.original_column
    &&& m.source == (if x.original->0.source < c.absolute_sources.list().len() { Some(c.absolute_sources.list()[x.original->0.source as int]) } else { None })
    &&& m.name == match x.original->0.name { Some(n) => Some(c.source_map.names->0@[n as int]), None => None }
}
/// a reported last column is the column of a mapping of the same line
pub open spec fn reports_span(all: Seq<Core>, m: Mapping) -> bool {
    m.last_generated_column is Some ==> exists|y: Core| #[trigger] all.contains(y) && y.line == m.generated.line - 1 && y.column == m.last_generated_column->0
}
/// m is a mapping of the document with its column span: the column the next mapping
/// of its line starts at; `none` if there is no next mapping on its line
pub open spec fn reports_exact(c: BasicConsumer, m: Mapping, none: Option<i32>) -> bool {
    exists|k: int| 0 <= k < c.doc_mappings().len() && #[trigger] reports(c, c.doc_mappings()[k], m)
        && (if next_on_line(c.doc_mappings(), k) { m.last_generated_column is Some && m.last_generated_column->0 == c.doc_mappings()[k + 1].column } else { m.last_generated_column == none })
}
pub open spec fn next_on_line(all: Seq<Core>, k: int) -> bool { k + 1 < all.len() && all[k + 1].line == all[k].line }
/// ... or without one, if they have not been computed
pub open spec fn spanned(c: BasicConsumer, m: Mapping) -> bool {
    reports_exact(c, m, None) || (!c.computed_column_spans && m.last_generated_column is None)
}
/// what is reported of a stored mapping that has its span
pub broadcast proof fn lemma_reports_exact(c: BasicConsumer, s: source_map_mappings::Mapping, m: Mapping, none: Option<i32>)
    requires #[trigger] exact(c.doc_mappings(), s), reports(c, core(s), m), c.in_range(),
        s.last_generated_column is Some ==> m.last_generated_column == Some(s.last_generated_column->0 as i32),
        s.last_generated_column is None ==> m.last_generated_column == none,
    ensures #[trigger] reports_exact(c, m, none),
{
    let all = c.doc_mappings();
    let k = choose|k: int| 0 <= k < all.len() && #[trigger] all[k] == core(s) && ends_at(all, k, s.last_generated_column);
    assert(reports(c, all[k], m));
    if next_on_line(all, k) { assert(all.contains(all[k + 1])); }
}
pub open spec fn gen_answer(c: BasicConsumer, l: int, col: int, up: bool, r: Option<Mapping>) -> bool {
    let all = c.doc_mappings();
    match r {
        Some(m) => exists|x: Core| #[trigger] closest_gen(all, l - 1, col, up, x) && reports(c, x, m),
        None => (forall|x: Core| !#[trigger] closest_gen(all, l - 1, col, up, x))
            || exists|x: Core| #[trigger] closest_gen(all, l - 1, col, up, x) && x.original is None,
    }
}
/// the dependency's answer is the closest mapping, if it is on the line at all
pub broadcast proof fn lemma_gen_found(all: Seq<Core>, l: int, c: int, bias: Bias, r: Option<Core>)
    requires #[trigger] gen_found(all, l, c, bias, r),
    ensures ({
        let up = bias == Bias::LeastUpperBound;
        if r is Some && r->0.line == l { closest_gen(all, l, c, up, r->0) }
        else { forall|x: Core| !#[trigger] closest_gen(all, l, c, up, x) }
    }),
{
    let up = bias == Bias::LeastUpperBound;
    if !(r is Some && r->0.line == l) {
        assert forall|x: Core| !#[trigger] closest_gen(all, l, c, up, x) by {
            if closest_gen(all, l, c, up, x) { assert(all.contains(x)); }
        }
    } else {
        assert forall|y: Core| #[trigger] all.contains(y) && at_gen(y, l, c) implies at_gen(r->0, l, c) by {}
    }
}

//@ fn BasicConsumer::original_position_for
    requires old(self).wf(), old(self).in_range(), generated.line >= 1, generated.column >= 0,
    ensures final(self).wf(), final(self).same(old(self)), final(self).computed_column_spans == old(self).computed_column_spans,
        gen_answer(*old(self), generated.line as int, generated.column as int, lub(bias), r),
        r is Some ==> reports_span(old(self).doc_mappings(), r->0), //#C21
        r is Some ==> spanned(*old(self), r->0), //#C21
//@. refuse
    requires generated.line < 1 || generated.column < 0,
//@. at start
    broadcast use {lemma_gen_found, lemma_reports_exact};
//@. at_normal let_mappings
    proof { assert(mappings.all() == old(self).doc_mappings()); }
//@ end

// ------------------------------------------------------------ C10
/// x is the mapping a lookup of the 0-based original position (l, c) of source s takes
pub open spec fn closest_orig(all: Seq<Core>, s: int, l: int, c: int, up: bool, x: Core) -> bool {
    &&& all.contains(x) && of_source(x, s)
    &&& {
        ||| at_orig(x, s, l, c)
        ||| {
            &&& !(exists|y: Core| #[trigger] all.contains(y) && at_orig(y, s, l, c))
            &&& if up { orig_after(x, l, c) && forall|y: Core| #[trigger] all.contains(y) && of_source(y, s) && orig_after(y, l, c) ==> orig_le(x, y) }
                else { orig_before(x, l, c) && forall|y: Core| #[trigger] all.contains(y) && of_source(y, s) && orig_before(y, l, c) ==> orig_le(y, x) }
        }
    }
}
pub open spec fn orig_answer(c: BasicConsumer, source: Seq<char>, l: int, col: int, up: bool, r: Option<Mapping>) -> bool {
    let all = c.doc_mappings();
    match resolve(c, source) {
        None => r is None,
        Some(s) => match r {
            Some(m) => exists|x: Core| #[trigger] closest_orig(all, s, l - 1, col, up, x) && reports(c, x, m),
            None => forall|x: Core| !#[trigger] closest_orig(all, s, l - 1, col, up, x),
        },
    }
}
/// the dependency's answer is the closest mapping of the source, if it is of that source at all
pub broadcast proof fn lemma_orig_found(all: Seq<Core>, s: int, l: int, c: int, bias: Bias, r: Option<Core>)
    requires #[trigger] orig_found(all, s, l, c, bias, r),
    ensures ({
        let up = bias == Bias::LeastUpperBound;
        if r is Some && of_source(r->0, s) { closest_orig(all, s, l, c, up, r->0) }
        else { forall|x: Core| !#[trigger] closest_orig(all, s, l, c, up, x) }
    }),
{
    let up = bias == Bias::LeastUpperBound;
    if !(r is Some && of_source(r->0, s)) {
        assert forall|x: Core| !#[trigger] closest_orig(all, s, l, c, up, x) by {
            if closest_orig(all, s, l, c, up, x) { assert(all.contains(x)); }
        }
    } else {
        assert forall|y: Core| #[trigger] all.contains(y) && at_orig(y, s, l, c) implies at_orig(r->0, s, l, c) by {}
    }
}

//@ fn BasicConsumer::generated_position_for
    requires old(self).wf(), old(self).in_range(), resolve(*old(self), source@) is Some ==> original_line >= 1 && original_column >= 0,
    ensures final(self).wf(), final(self).same(old(self)), final(self).computed_column_spans == old(self).computed_column_spans,
        orig_answer(*old(self), source@, original_line as int, original_column as int, lub(bias), r),
        r is Some ==> if old(self).computed_column_spans { reports_exact(*old(self), r->0, Some(-1i32)) } else { spanned(*old(self), r->0) }, //#C21
//@. refuse
    requires old(self).wf(), resolve(*old(self), source@) is Some, original_line < 1 || original_column < 0,
//@. at start
    broadcast use {lemma_orig_found, lemma_reports_exact};
    proof { lemma_resolve(*self, source@); }
//@. at_normal let_mappings
    proof { assert(mappings.all() == old(self).doc_mappings()); }
//@ end

// ------------------------------------------------------------ C11
pub open spec fn group(c: BasicConsumer, source: Seq<char>, l: int, col: Option<u32>) -> Seq<Core> {
    match resolve(c, source) {
        Some(s) => c.doc_mappings().filter(|x: Core| in_group(c.doc_mappings(), s, l - 1, col, x)),
        None => Seq::empty(),
    }
}
pub open spec fn col_u32(c: Option<i32>) -> Option<u32> { match c { Some(x) => Some(x as u32), None => None } }

//@ fn BasicConsumer::all_generated_position_for
    requires old(self).wf(), old(self).has_mappings(),
        resolve(*old(self), source@) is Some ==> original_line >= 1 && (original_column is Some ==> original_column->0 >= 0),
    ensures final(self).wf(), final(self).same(old(self)), final(self).computed_column_spans == old(self).computed_column_spans,
        cores(r@).to_multiset() == group(*old(self), source@, original_line as int, col_u32(original_column)).to_multiset(),
        spans_ok(old(self).doc_mappings(), r@), //#C21
        all_span_is(old(self).doc_mappings(), r@, old(self).computed_column_spans), //#C21
//@. refuse
    requires old(self).wf(), resolve(*old(self), source@) is Some, original_line < 1 || (original_column is Some && original_column->0 < 0),
//@. at start
    let ghost g_source = source@;
    proof { lemma_resolve(*self, source@); }
//@. loop 0
    invariant
        cores(__out_0@) =~= seen($seq0).take($i0),
        spans_ok(old(self).doc_mappings(), __out_0@), seen_spans_ok(old(self).doc_mappings(), $seq0), //#C21
        all_span_is(old(self).doc_mappings(), __out_0@, old(self).computed_column_spans), seen_exact(old(self).doc_mappings(), $seq0), //#C21
        seen($seq0).to_multiset() == group(*old(self), g_source, original_line as int, col_u32(original_column)).to_multiset(),
//@ end

//@ fn BasicConsumer::compute_column_spans
    requires old(self).wf(), old(self).has_mappings(),
    ensures final(self).wf(), final(self).same(old(self)), final(self).computed_column_spans,
//@ end

// ------------------------------------------------------------ C13
pub open spec fn content(c: BasicConsumer, source: Seq<char>) -> Option<String> {
    if c.source_map.sources_content is None { None } else {
        match resolve(c, source) {
            Some(i) => if i < c.source_map.sources_content->0@.len() { c.source_map.sources_content->0@[i] } else { None },
            None => None,
        }
    }
}
pub open spec fn has_all(c: BasicConsumer) -> bool {
    &&& c.source_map.sources_content is Some
    &&& c.source_map.sources_content->0@.len() >= c.source_map.sources->0@.len()
    &&& all_some(c.source_map.sources_content->0@)
}
pub open spec fn all_some(s: Seq<Option<String>>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Some }
/// a missing source is to be refused
pub open spec fn strict(p: Option<bool>) -> bool { p != Some(false) }

//@ fn BasicConsumer::source_content_for
    requires old(self).wf(),
        old(self).source_map.sources_content is Some && strict(panic_on_missing) ==> resolve(*old(self), source@) is Some,
    ensures final(self).wf(), final(self).same(old(self)),
        final(self).mappings == old(self).mappings, final(self).computed_column_spans == old(self).computed_column_spans,
        r == content(*old(self), source@),
//@. refuse
    requires old(self).wf(), old(self).source_map.sources_content is Some, strict(panic_on_missing), resolve(*old(self), source@) is None,
//@. at start
    proof { lemma_resolve(*self, source@); }
//@ end

//@ fn BasicConsumer::has_contents_of_all_sources
    requires self.wf(),
    ensures r == has_all(*self),
//@. loop 0
    invariant_except_break
        __flag_0,
    invariant
        forall|k: int| 0 <= k < $i0 ==> (#[trigger] self.source_map.sources_content->0@[k]) is Some,
        $vec0 == self.source_map.sources_content->0@,
    ensures
        __flag_0 ==> $i0 == self.source_map.sources_content->0@.len(),
        !__flag_0 ==> !all_some(self.source_map.sources_content->0@),
//@ end

// ------------------------------------------------------------ C17
pub open spec fn visits(c: BasicConsumer, ord: IterOrd, s: Seq<source_map_mappings::Mapping>) -> bool {
    if !c.has_mappings() { s.len() == 0 } else {
        match ord {
            IterOrd::GeneratedOrd => cores(s) == c.doc_mappings(),
            IterOrd::OriginalOrd => {
                &&& cores(s).to_multiset() == c.doc_mappings().filter(|x: Core| x.original is Some).to_multiset()
                &&& forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] orig_order(cores(s)[i], cores(s)[j])
            },
        }
    }
}
/// ... and the spans of what it visits
pub open spec fn visits_spans(c: BasicConsumer, ord: IterOrd, s: Seq<source_map_mappings::Mapping>) -> bool {
    c.has_mappings() ==> match ord {
        IterOrd::GeneratedOrd => spans_at(c.doc_mappings(), s, true) || (!c.computed_column_spans && spans_at(c.doc_mappings(), s, false)),
        IterOrd::OriginalOrd => all_span_is(c.doc_mappings(), s, c.computed_column_spans),
    }
}

//@ fn BasicConsumer::each_mapping
    requires old(self).wf(), old(self).source_map.mappings is Some,
    ensures final(self).wf(), final(self).same(old(self)), final(self).computed_column_spans == old(self).computed_column_spans,
        final(f)@.len() >= old(f)@.len(), final(f)@.take(old(f)@.len() as int) == old(f)@,
        visits(*old(self), ord, final(f)@.skip(old(f)@.len() as int)),
        old(self).has_mappings() ==> spans_ok(old(self).doc_mappings(), final(f)@.skip(old(f)@.len() as int)), //#C21
        visits_spans(*old(self), ord, final(f)@.skip(old(f)@.len() as int)), //#C21
//@. at start
    let ghost f0 = f@;
//@. loop 0
    invariant
        f@.len() == f0.len() + $i0, f@.take(f0.len() as int) == f0,
        cores(f@.skip(f0.len() as int)) =~= seen($seq0).take($i0),
        spans_ok(old(self).doc_mappings(), f@.skip(f0.len() as int)), seen_spans_ok(old(self).doc_mappings(), $seq0), //#C21
        all_span_is(old(self).doc_mappings(), f@.skip(f0.len() as int), old(self).computed_column_spans), seen_exact(old(self).doc_mappings(), $seq0), //#C21
        seen($seq0).to_multiset() == old(self).doc_mappings().filter(|x: Core| x.original is Some).to_multiset(),
        forall|i: int, j: int| 0 <= i <= j < seen($seq0).len() ==> #[trigger] orig_order(seen($seq0)[i], seen($seq0)[j]),
//@. loop 1
    invariant
        f@.len() == f0.len() + $i1, f@.take(f0.len() as int) == f0,
        cores(f@.skip(f0.len() as int)) =~= cores($vec1).take($i1),
        spans_ok(old(self).doc_mappings(), f@.skip(f0.len() as int)), spans_ok(old(self).doc_mappings(), $vec1), //#C21
        f@.skip(f0.len() as int) =~= $vec1.take($i1), //#C21
        cores($vec1) == old(self).doc_mappings(),
//@ end
//@ fn IterOrd::derived_clone
    ensures r == *self,
//@ end
