// Consumers of maps with sections.
//@ use std::collections::HashMap
//@ use crate::util::*
//@ use crate::array_set::*
//@ use crate::consumer::*
//@ use crate::consumer::Section
//@ use crate::binary_search
//@ use crate::binary_search::{sgn, search_result, ranks, nondecreasing}
//@ use crate::source_map::Position
//@ use crate::source_map::SourceMapJson
//@ use crate::mapping::Mapping
//@ use crate::source_map_mappings::*
//@ use crate::source_map_mappings::Bias
//@ use crate::serde_json
//@ use crate::serde_json::json_value
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::vshim::group_strings, crate::source_map_mappings::group_cores};

// ------------------------------------------------------------ the sections
impl Section {
    pub open spec fn ok(&self) -> bool {
        self.generated_offset.line >= 1 && self.generated_offset.column >= 1 && self.consumer.wf()
    }
    /// the section's numbers fit: moved coordinates stay below 2^31
    pub open spec fn ready(&self) -> bool {
        &&& self.consumer.in_range()
        &&& forall|x: Core| #[trigger] self.consumer.doc_mappings().contains(x) ==>
            x.line + self.generated_offset.line < 0x7fff_ffff && (x.line == 0 ==> x.column + self.generated_offset.column < 0x7fff_ffff)
    }
    pub open spec fn same(&self, o: &Section) -> bool {
        self.generated_offset == o.generated_offset && self.consumer.same(&o.consumer)
    }
}
pub open spec fn sections_ok(s: Seq<Section>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok() }
pub open spec fn sections_ready(s: Seq<Section>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ready() }
pub open spec fn sections_same(s: Seq<Section>, o: Seq<Section>) -> bool {
    s.len() == o.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).same(&o[i])
}
/// nothing has forgotten that its spans are computed
pub open spec fn flags_kept(s: Seq<Section>, o: Seq<Section>) -> bool {
    s.len() == o.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).consumer.computed_column_spans == o[i].consumer.computed_column_spans
}
pub open spec fn offsets_sorted(s: Seq<Section>) -> bool {
    forall|i: int, j: int| 0 <= i <= j < s.len() ==> okey((#[trigger] s[i]).generated_offset) <= okey((#[trigger] s[j]).generated_offset)
}
/// line-then-column order of offsets as one number (columns are below 2^32)
pub open spec fn okey(p: Position) -> int { p.line * 0x1_0000_0000 + p.column }
impl IndexedConsumer {
    pub open spec fn wf(&self) -> bool {
        &&& self.sections@.len() < 0x7fff_ffff
        &&& sections_ok(self.sections@)
        &&& offsets_sorted(self.sections@)
    }
    pub open spec fn same(&self, o: &IndexedConsumer) -> bool {
        self.source_map == o.source_map && sections_same(self.sections@, o.sections@)
    }
}

// ------------------------------------------------------------ C14: construction
pub open spec fn doc_sections(d: SourceMapJson) -> Seq<crate::source_map::Section> { d.sections->0@ }
/// what a document of sections must have to be looked at at all: section maps
/// have sources, offsets are in 0 .. 2^31-1, there are fewer than 2^31-1 sections
pub open spec fn sec_doc_ok(d: SourceMapJson) -> bool {
    &&& d.sections is Some
    &&& doc_sections(d).len() < 0x7fff_ffff
    &&& forall|i: int| 0 <= i < doc_sections(d).len() ==> sec_ok(#[trigger] doc_sections(d)[i])
}
pub open spec fn sec_ok(s: crate::source_map::Section) -> bool {
    0 <= s.offset.line < 0x7fff_ffff && 0 <= s.offset.column < 0x7fff_ffff && doc_ok(*s.map)
}
pub open spec fn sec_ordered(d: SourceMapJson) -> bool {
    forall|i: int, j: int| 0 <= i <= j < doc_sections(d).len() ==> okey((#[trigger] doc_sections(d)[i]).offset) <= okey((#[trigger] doc_sections(d)[j]).offset)
}
pub open spec fn sec_no_url(d: SourceMapJson) -> bool {
    forall|i: int| 0 <= i < doc_sections(d).len() ==> (#[trigger] doc_sections(d)[i]).url is None
}
pub open spec fn accepted(d: SourceMapJson) -> bool { d.version == 3 && sec_no_url(d) && sec_ordered(d) }
/// the section made of a section of the document
pub open spec fn made_of(s: Section, d: crate::source_map::Section, url: Option<Seq<char>>) -> bool {
    &&& s.generated_offset.line == d.offset.line + 1 && s.generated_offset.column == d.offset.column + 1
    &&& s.consumer.wf() && s.consumer.source_map == *d.map && opt_string(s.consumer.source_map_url) == url
}
pub open spec fn all_made_of(s: Seq<Section>, d: Seq<crate::source_map::Section>, url: Option<Seq<char>>, n: int) -> bool {
    s.len() == n && forall|i: int| 0 <= i < n ==> made_of(#[trigger] s[i], d[i], url)
}
pub open spec fn built(r: IndexedConsumer, d: SourceMapJson, url: Option<Seq<char>>) -> bool {
    &&& r.source_map == d
    &&& all_made_of(r.sections@, doc_sections(d), url, doc_sections(d).len() as int)
}
pub open spec fn next_ok(d: Seq<crate::source_map::Section>, i: int) -> bool { okey(d[i].offset) <= okey(d[i + 1].offset) }
pub proof fn lemma_ordered(d: Seq<crate::source_map::Section>, i: int, j: int)
    requires 0 <= i <= j < d.len(), forall|k: int| 0 <= k < d.len() - 1 ==> #[trigger] next_ok(d, k),
    ensures okey(d[i].offset) <= okey(d[j].offset),
    decreases j - i
{
    if i < j { lemma_ordered(d, i, j - 1); assert(next_ok(d, j - 1)); }
}
/// the first pair of neighbours out of order
pub open spec fn bad_order(d: SourceMapJson, k: int) -> bool {
    0 < k < doc_sections(d).len() && okey(doc_sections(d)[k - 1].offset) > okey(doc_sections(d)[k].offset)
}
pub proof fn lemma_bad_order(d: SourceMapJson)
    ensures sec_ordered(d) <==> forall|k: int| !bad_order(d, k),
{
    if forall|k: int| !bad_order(d, k) {
        assert forall|i: int| 0 <= i < doc_sections(d).len() - 1 implies #[trigger] next_ok(doc_sections(d), i) by { assert(!bad_order(d, i + 1)); }
        assert forall|i: int, j: int| 0 <= i <= j < doc_sections(d).len() implies okey((#[trigger] doc_sections(d)[i]).offset) <= okey((#[trigger] doc_sections(d)[j]).offset) by { lemma_ordered(doc_sections(d), i, j); }
    }
}

//@ fn IndexedConsumer::from_source_map_json
    requires sec_doc_ok(source_map), accepted(source_map),
    ensures r.wf(), built(r, source_map, opt_text(source_map_url)),
//@. refuse
    requires sec_doc_ok(source_map), !accepted(source_map),
//@. at start
    let ghost d = source_map;
    let ghost url = opt_text(source_map_url);
    proof { lemma_bad_order(d); }
    let ghost bad = choose|k: int| bad_order(d, k);
    let ghost bad_url = choose|k: int| 0 <= k < doc_sections(d).len() && doc_sections(d)[k].url is Some;
//@. loop 0
    invariant
        source_map == d,
        $vec0 == doc_sections(d),
        $i0 == 0 ==> last_offset.line == -1 && last_offset.column == 0,
        $i0 > 0 ==> last_offset == doc_sections(d)[$i0 - 1].offset,
        bad_order(d, bad) ==> $i0 <= bad,
//@. loop 1
    invariant
        $vec1 == doc_sections(d),
        all_made_of(__out_0@, doc_sections(d), url, $i1),
        0 <= bad_url < doc_sections(d).len() && doc_sections(d)[bad_url].url is Some ==> $i1 <= bad_url,
//@ end

//@ fn IndexedConsumer::new
    requires json_value::<SourceMapJson>(source_map_raw@) is Some,
        sec_doc_ok(json_value::<SourceMapJson>(source_map_raw@)->0), accepted(json_value::<SourceMapJson>(source_map_raw@)->0),
    ensures r.wf(), built(r, json_value::<SourceMapJson>(source_map_raw@)->0, opt_text(source_map_url)),
//@. refuse
    requires json_value::<SourceMapJson>(source_map_raw@) is Some,
        sec_doc_ok(json_value::<SourceMapJson>(source_map_raw@)->0), !accepted(json_value::<SourceMapJson>(source_map_raw@)->0),
//@. refuse_calls
    IndexedConsumer::from_source_map_json Self::from_source_map_json
//@ end

//@ fn consumer::create_consumer
    requires json_value::<SourceMapJson>(source_map_raw@) is Some ==> {
            let d = json_value::<SourceMapJson>(source_map_raw@)->0;
            if d.sections is Some { sec_doc_ok(d) && accepted(d) } else { doc_ok(d) }
        },
    ensures
        r is Ok <==> json_value::<SourceMapJson>(source_map_raw@) is Some, //#C14,C20
        r is Ok ==> ({ //#C14
            let d = json_value::<SourceMapJson>(source_map_raw@)->0;
            let url = opt_text(source_map_url);
            if d.sections is Some { r->Ok_0 is IndexedConsumer && r->Ok_0->IndexedConsumer_0.wf() && built(r->Ok_0->IndexedConsumer_0, d, url) }
            else { r->Ok_0 is BasicConsumer && r->Ok_0->BasicConsumer_0.wf() && r->Ok_0->BasicConsumer_0.source_map == d && opt_string(r->Ok_0->BasicConsumer_0.source_map_url) == url }
        }),
//@. refuse
    requires json_value::<SourceMapJson>(source_map_raw@) is Some, json_value::<SourceMapJson>(source_map_raw@)->0.sections is Some,
        sec_doc_ok(json_value::<SourceMapJson>(source_map_raw@)->0), !accepted(json_value::<SourceMapJson>(source_map_raw@)->0),
//@. refuse_calls
    IndexedConsumer::from_source_map_json IndexedConsumer::new
//@ end

/// the sections' sources, one list after the other
pub open spec fn listed(s: Seq<Section>) -> Seq<String>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { listed(s.drop_last()) + s.last().consumer.listing() }
}
impl BasicConsumer {
    pub open spec fn listing(&self) -> Seq<String> { source_urls(self.source_map, opt_string(self.source_map_url)) }
}
//@ fn IndexedConsumer::get_sources
    requires self.wf(),
    ensures r@ == listed(self.sections@),
//@. loop 0
    invariant
        sources@ == listed(self.sections@.take($i0)),
//@. at lb_1
    let ghost had = sources@;
//@. loop 1
    invariant
        $seq1 == self.sections@[$i0].consumer.listing(),
        sources@ =~= had + $seq1.take($i1),
//@. at la_1
    proof {
        assert(self.sections@.take($i0 + 1).drop_last() =~= self.sections@.take($i0));
        assert(sources@ =~= had + self.sections@[$i0].consumer.listing());
    }
//@. at la_0
    proof { assert(self.sections@.take(self.sections@.len() as int) =~= self.sections@); }
//@ end

// ------------------------------------------------------------ C13
pub open spec fn first_content(s: Seq<Section>, source: Seq<char>) -> Option<String>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if first_content(s.drop_last(), source) is Some { first_content(s.drop_last(), source) }
    else { content(s.last().consumer, source) }
}
pub proof fn lemma_first_content_same(s: Seq<Section>, o: Seq<Section>, source: Seq<char>)
    requires sections_same(s, o),
    ensures first_content(s, source) == first_content(o, source),
    decreases s.len()
{
    if s.len() > 0 {
        assert(s.drop_last().len() == o.drop_last().len());
        assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] s.drop_last()[i]).same(&o.drop_last()[i]) by { assert(s[i].same(&o[i])); }
        lemma_first_content_same(s.drop_last(), o.drop_last(), source);
        assert(s[s.len() - 1].same(&o[s.len() - 1]));
    }
}
pub proof fn lemma_first_content_prefix(s: Seq<Section>, source: Seq<char>, n: int)
    requires 0 <= n <= s.len(), first_content(s.take(n), source) is Some,
    ensures first_content(s, source) == first_content(s.take(n), source),
    decreases s.len() - n
{
    if n < s.len() {
        assert(s.take(n + 1).drop_last() =~= s.take(n));
        lemma_first_content_prefix(s, source, n + 1);
    } else { assert(s.take(n) =~= s); }
}
//@ fn IndexedConsumer::source_content_for
    requires old(self).wf(), strict(panic_on_missing) ==> first_content(old(self).sections@, source@) is Some,
    ensures final(self).wf(), final(self).same(old(self)),
        flags_kept(final(self).sections@, old(self).sections@), //#C21
        r == first_content(old(self).sections@, source@),
//@. refuse
    requires old(self).wf(), strict(panic_on_missing), first_content(old(self).sections@, source@) is None,
//@. at start
    let ghost s0 = self.sections@;
//@. loop 0
    invariant
        sections_same(self.sections@, s0), self.source_map == old(self).source_map,
        flags_kept(self.sections@, s0), //#C21
        sections_ok(self.sections@),
        first_content(s0.take($i0), source@) is None,
//@. at ls_0
    proof {
        assert(s0.take($i0 + 1).drop_last() =~= s0.take($i0));
        if first_content(s0.take($i0 + 1), source@) is Some { lemma_first_content_prefix(s0, source@, $i0 + 1); }
    }
//@. at la_0
    proof { assert(s0.take(s0.len() as int) =~= s0); }
//@ end

//@ fn IndexedConsumer::has_contents_of_all_sources
    requires self.wf(),
    ensures r == (forall|i: int| 0 <= i < self.sections@.len() ==> has_all((#[trigger] self.sections@[i]).consumer)),
//@. loop 0
    invariant_except_break
        __flag_0,
    invariant
        forall|k: int| 0 <= k < $i0 ==> has_all((#[trigger] self.sections@[k]).consumer),
        $vec0 == self.sections@,
    ensures
        __flag_0 ==> $i0 == self.sections@.len(),
        !__flag_0 ==> !(forall|i: int| 0 <= i < self.sections@.len() ==> has_all((#[trigger] self.sections@[i]).consumer)),
//@ end

// ------------------------------------------------------------ who knows a source
pub open spec fn knows(s: Section, source: Seq<char>) -> bool { resolve(s.consumer, source) is Some }
pub open spec fn first_knowing(s: Seq<Section>, source: Seq<char>, i: int) -> bool {
    0 <= i < s.len() && knows(s[i], source) && forall|j: int| 0 <= j < i ==> !knows(#[trigger] s[j], source)
}
//@ fn IndexedConsumer::find_section_index
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)),
        flags_kept(final(self).sections@, old(self).sections@), //#C21
        r is None ==> forall|j: int| 0 <= j < old(self).sections@.len() ==> !knows(#[trigger] old(self).sections@[j], source@),
        r is Some ==> first_knowing(old(self).sections@, source@, r->0 as int),
//@. at start
    let ghost s0 = self.sections@;
//@. loop 0
    invariant
        sections_same(self.sections@, s0), self.source_map == old(self).source_map,
        flags_kept(self.sections@, s0), //#C21
        sections_ok(self.sections@),
        forall|j: int| 0 <= j < $i0 ==> !knows(#[trigger] s0[j], source@),
//@ end

// ------------------------------------------------------------ C15
/// the section is at or before the position (offset columns are 1-based)
pub open spec fn covers(p: Position, l: int, c: int) -> bool { p.line < l || (p.line == l && p.column - 1 <= c) }
pub open spec fn owner(s: Seq<Section>, l: int, c: int, k: int) -> bool {
    0 <= k < s.len() && covers(s[k].generated_offset, l, c) && forall|j: int| k < j < s.len() ==> !covers((#[trigger] s[j]).generated_offset, l, c)
}
/// m is the section's answer moved to whole-file coordinates
pub open spec fn moved_back(m0: Option<Mapping>, p: Position, m: Option<Mapping>) -> bool {
    &&& m is Some <==> m0 is Some
    &&& m is Some ==> ({
        let (x, y) = (m0->0, m->0);
        let dc = if x.generated.line == 1 { p.column - 1 } else { 0 };
        &&& y.generated.line == x.generated.line + p.line - 1
        &&& y.generated.column == x.generated.column + dc
        &&& y.original == x.original && y.source == x.source && y.name == x.name
    })
}
pub open spec fn moved_last(x: Mapping, p: Position, y: Mapping) -> bool {
    let dc = if x.generated.line == 1 { p.column - 1 } else { 0 };
    &&& y.last_generated_column is Some <==> x.last_generated_column is Some
    &&& y.last_generated_column is Some ==> y.last_generated_column->0 == x.last_generated_column->0 + dc
}
/// the section asked for the relative position (l, c), and its answer moved back
pub open spec fn section_answer(s: Section, l: int, c: int, up: bool, r: Option<Mapping>) -> bool {
    exists|m: Option<Mapping>| #[trigger] gen_answer(s.consumer, l, c, up, m) && moved_back(m, s.generated_offset, r)
}
pub open spec fn owner_answer(s: Section, l: int, c: int, up: bool, r: Option<Mapping>) -> bool {
    let p = s.generated_offset;
    section_answer(s, l - (p.line - 1), if p.line == l { c - (p.column - 1) } else { c }, up, r)
}
/// what it reports has the column span of its section, moved (or none yet)
pub open spec fn moved_exact(s: Section, r: Mapping) -> bool {
    exists|m: Mapping| #[trigger] spanned(s.consumer, m) && moved_back(Some(m), s.generated_offset, Some(r)) && moved_last(m, s.generated_offset, r)
}
pub open spec fn offset_keys(s: Seq<Section>) -> Seq<int> { s.map_values(|x: Section| okey(x.generated_offset)) }

//@ fn IndexedConsumer::original_position_for
    requires old(self).wf(), sections_ready(old(self).sections@), input.line >= 1, input.column >= 0,
    ensures final(self).wf(), final(self).same(old(self)),
        flags_kept(final(self).sections@, old(self).sections@), //#C21
        (forall|k: int| !owner(old(self).sections@, input.line as int, input.column as int, k)) ==> r is None,
        forall|k: int| #[trigger] owner(old(self).sections@, input.line as int, input.column as int, k) ==>
            owner_answer(old(self).sections@[k], input.line as int, input.column as int, lub(bias), r),
        forall|k: int| #[trigger] owner(old(self).sections@, input.line as int, input.column as int, k) && r is Some ==> moved_exact(old(self).sections@[k], r->0), //#C21
//@. at start
    let ghost s0 = self.sections@;
    let ghost (gl, gc) = (input.line as int, input.column as int);
    let ghost gp = gl * 0x1_0000_0000 + gc + 1;
    proof {
        assert(ranks(offset_keys(s0), gp));
        assert forall|j: int| #![trigger s0[j]] 0 <= j < s0.len() implies offset_keys(s0)[j] == okey(s0[j].generated_offset) by {}
        assert forall|j: int| #![trigger s0[j]] 0 <= j < s0.len() implies (covers(s0[j].generated_offset, gl, gc) <==> okey(s0[j].generated_offset) <= gp) by {}
    }
//@. at lb_0
    proof { assert(search_result(offset_keys(s0), gp, false, section_index as int)); }
//@. at la_0
    let ghost o = s0[section_index as int].generated_offset;
    let ghost (rl, rc) = (gl - (o.line - 1), if o.line == gl { gc - (o.column - 1) } else { gc });
    proof {
        assert(section_index >= 0 ==> owner(s0, gl, gc, section_index as int));
        assert(-1i32 as usize == 0xffff_ffff_ffff_ffffusize) by (bit_vector);
    }
//@. closure 0 (a: &Position, b: &Section) -> i32
    requires a.line >= 1, a.column >= 0, b.generated_offset.line >= 1, b.generated_offset.column >= 1
    ensures sgn(r as int) == sgn(okey(*a) + 1 - okey(b.generated_offset))
//@. closure 1 (a: &Section, b: &Section) -> i32
    requires a.generated_offset.line >= 1, a.generated_offset.column >= 1, b.generated_offset.line >= 1, b.generated_offset.column >= 1
    ensures sgn(r as int) == sgn(okey(a.generated_offset) - okey(b.generated_offset))
//@. loop 0
    invariant
        -1 <= section_index < s0.len(), self.sections@ == s0, self.source_map == old(self).source_map,
        section_index == -1 ==> forall|j: int| 0 <= j < s0.len() ==> okey((#[trigger] s0[j]).generated_offset) > gp,
        section_index >= 0 ==> okey(s0[section_index as int].generated_offset) <= gp
            && forall|j: int| 0 <= j < s0.len() ==> okey((#[trigger] s0[j]).generated_offset) <= okey(s0[section_index as int].generated_offset) || okey(s0[j].generated_offset) > gp,
    ensures
        section_index >= 0 ==> forall|j: int| section_index < j < s0.len() ==> okey((#[trigger] s0[j]).generated_offset) > gp,
    decreases s0.len() - section_index
//@. at let_mapping
    proof {
        assert(gen_answer(s0[section_index as int].consumer, rl, rc, lub(bias), mapping));
        if mapping is Some { assert(spanned(s0[section_index as int].consumer, mapping->0)); }
    }
//@ end

// ------------------------------------------------------------ C16
pub proof fn lemma_same_consumer(a: BasicConsumer, b: BasicConsumer)
    requires a.same(&b),
    ensures a.doc_mappings() == b.doc_mappings(), a.in_range() == b.in_range(), a.has_mappings() == b.has_mappings(),
        forall|s: Seq<char>| #[trigger] resolve(a, s) == resolve(b, s),
        a.computed_column_spans == b.computed_column_spans ==> forall|ord: IterOrd, s: Seq<source_map_mappings::Mapping>| #[trigger] visits_spans(a, ord, s) == visits_spans(b, ord, s),
        forall|s: Seq<char>, l: int, c: Option<u32>| #[trigger] group(a, s, l, c) == group(b, s, l, c),
        forall|s: Seq<char>, l: int, c: int, up: bool, r: Option<Mapping>| #[trigger] orig_answer(a, s, l, c, up, r) ==> orig_answer(b, s, l, c, up, r),
{
    assert forall|s: Seq<char>, l: int, c: int, up: bool, r: Option<Mapping>| #[trigger] orig_answer(a, s, l, c, up, r) implies orig_answer(b, s, l, c, up, r) by {
        if resolve(a, s) is Some {
            if r is Some {
                let x = choose|x: Core| #[trigger] closest_orig(a.doc_mappings(), resolve(a, s)->0, l - 1, c, up, x) && reports(a, x, r->0);
                assert(closest_orig(b.doc_mappings(), resolve(b, s)->0, l - 1, c, up, x) && reports(b, x, r->0));
            }
        }
    }
}
pub open spec fn moved_position(m: Option<Mapping>, p: Position, r: Option<Position>) -> bool {
    &&& r is Some <==> m is Some
    &&& r is Some ==> r->0.line == m->0.generated.line + p.line - 1
        && r->0.column == m->0.generated.column + (if m->0.generated.line == 1 { p.column - 1 } else { 0 })
}
pub open spec fn first_answer(s: Section, source: Seq<char>, l: int, c: int, up: bool, r: Option<Position>) -> bool {
    exists|m: Option<Mapping>| #[trigger] orig_answer(s.consumer, source, l, c, up, m) && moved_position(m, s.generated_offset, r)
}
pub open spec fn some_knows(s: Seq<Section>, source: Seq<char>) -> bool { exists|k: int| first_knowing(s, source, k) }

//@ fn IndexedConsumer::generated_position_for
    requires old(self).wf(), sections_ready(old(self).sections@),
        some_knows(old(self).sections@, source@) ==> original_line >= 1 && original_column >= 0,
    ensures final(self).wf(), final(self).same(old(self)),
        flags_kept(final(self).sections@, old(self).sections@), //#C21
        !some_knows(old(self).sections@, source@) ==> r is None,
        forall|k: int| #[trigger] first_knowing(old(self).sections@, source@, k) ==>
            first_answer(old(self).sections@[k], source@, original_line as int, original_column as int, lub(bias), r),
//@. at start
    let ghost s0 = self.sections@;
//@. at let_index
    proof {
        if index is Some {
            assert(first_knowing(s0, source@, index->0 as int));
            assert(self.sections@[index->0 as int].same(&s0[index->0 as int]));
            lemma_same_consumer(self.sections@[index->0 as int].consumer, s0[index->0 as int].consumer);
        }
    }
//@ end

/// a stored mapping moved by a section offset (the stored line is 0-based)
pub open spec fn shift_core(x: Core, p: Position) -> Core {
    Core { line: x.line + p.line - 1, column: x.column + (if x.line == 0 { p.column - 1 } else { 0 }), original: x.original }
}
pub open spec fn shift_cores(s: Seq<Core>, p: Position) -> Seq<Core> { s.map_values(|x: Core| shift_core(x, p)) }
pub broadcast proof fn lemma_shift_push(s: Seq<Core>, p: Position, x: Core)
    ensures #[trigger] shift_cores(s.push(x), p) == shift_cores(s, p).push(shift_core(x, p)),
{ assert(shift_cores(s.push(x), p) =~= shift_cores(s, p).push(shift_core(x, p))); }
pub broadcast proof fn lemma_shift_empty(s: Seq<Core>, p: Position)
    requires s.len() == 0,
    ensures #[trigger] shift_cores(s, p) == Seq::<Core>::empty(),
{ assert(shift_cores(s, p) =~= Seq::<Core>::empty()); }
/// moving keeps "the same mappings in some order"
pub broadcast proof fn lemma_shift_multiset(a: Seq<Core>, b: Seq<Core>, p: Position)
    requires a.to_multiset() == b.to_multiset(),
    ensures (#[trigger] shift_cores(a, p)).to_multiset() == (#[trigger] shift_cores(b, p)).to_multiset(),
    decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if a.len() == 0 {
        assert(a.to_multiset().len() == b.to_multiset().len());
        assert(a.to_multiset().len() == a.len() && b.to_multiset().len() == b.len()) by { a.to_multiset_ensures(); b.to_multiset_ensures(); }
        assert(shift_cores(a, p) =~= shift_cores(b, p));
    } else {
        let x = a.last();
        assert(b.contains(x)) by { assert(a.contains(x)); assert(a.to_multiset().count(x) > 0); }
        let i = b.index_of(x);
        let (a1, b1) = (a.drop_last(), b.remove(i));
        assert(a =~= a1.push(x));
        assert(a1.to_multiset() =~= b1.to_multiset());
        lemma_shift_multiset(a1, b1, p);
        assert(shift_cores(b, p).remove(i) =~= shift_cores(b1, p));
        assert(shift_cores(a, p) =~= shift_cores(a1, p).push(shift_core(x, p)));
        assert(shift_cores(b, p)[i] == shift_core(x, p));
        assert(shift_cores(a, p).to_multiset() =~= shift_cores(b, p).to_multiset());
    }
}
/// moved mappings with the column spans of the section
pub open spec fn all_moved_exact(all: Seq<Core>, p: Position, s: Seq<source_map_mappings::Mapping>, computed: bool) -> bool {
    forall|k: int| 0 <= k < s.len() ==> moved_exact_map(all, p, #[trigger] s[k], computed)
}
pub open spec fn moved_exact_map(all: Seq<Core>, p: Position, m: source_map_mappings::Mapping, computed: bool) -> bool {
    exists|v: source_map_mappings::Mapping| #[trigger] span_is(all, v, computed) && m == shift_map(v, p)
}
pub open spec fn shifts(o: Seq<source_map_mappings::Mapping>, a: Seq<Core>, p: Position) -> bool {
    cores(o) == shift_cores(a, p)
}

/// a group consists of mappings of the document
pub broadcast proof fn lemma_group_in(a: Seq<Core>, c: BasicConsumer, source: Seq<char>, l: int, col: Option<u32>)
    requires #[trigger] a.to_multiset() == (#[trigger] group(c, source, l, col)).to_multiset(),
    ensures forall|k: int| 0 <= k < a.len() ==> c.doc_mappings().contains(#[trigger] a[k]),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let g = group(c, source, l, col);
    assert forall|k: int| 0 <= k < a.len() implies c.doc_mappings().contains(#[trigger] a[k]) by {
        assert(a.contains(a[k]));
        assert(a.to_multiset().count(a[k]) > 0);
        assert(g.contains(a[k]));
        if resolve(c, source) is Some {
            let s = resolve(c, source)->0;
            c.doc_mappings().lemma_filter_contains_rev(|x: Core| in_group(c.doc_mappings(), s, l - 1, col, x), a[k]);
        }
    }
}

//@ fn IndexedConsumer::all_generated_position_for
    requires old(self).wf(), sections_ready(old(self).sections@),
        some_knows(old(self).sections@, source@) ==> original_line >= 1 && (original_column is Some ==> original_column->0 >= 0),
    ensures final(self).wf(), final(self).same(old(self)),
        flags_kept(final(self).sections@, old(self).sections@), //#C21
        !some_knows(old(self).sections@, source@) ==> r@.len() == 0,
        forall|k: int| #[trigger] first_knowing(old(self).sections@, source@, k) ==> ({
            let s = old(self).sections@[k];
            cores(r@).to_multiset() == shift_cores(group(s.consumer, source@, original_line as int, col_u32(original_column)), s.generated_offset).to_multiset()
        }),
        forall|k: int| #[trigger] first_knowing(old(self).sections@, source@, k) ==> all_moved_exact(old(self).sections@[k].consumer.doc_mappings(), old(self).sections@[k].generated_offset, r@, old(self).sections@[k].consumer.computed_column_spans), //#C21
//@. at start
    broadcast use {lemma_shift_push, lemma_shift_empty, lemma_shift_multiset, lemma_seen, lemma_group_in};
    let ghost s0 = self.sections@;
    let ghost gsource = source@;
//@. at let_index
    let ghost gk = if index is Some { index->0 as int } else { 0 };
    proof {
        if index is Some {
            assert(first_knowing(s0, source@, gk));
            assert(self.sections@[gk].same(&s0[gk]));
            lemma_same_consumer(self.sections@[gk].consumer, s0[gk].consumer);
        }
    }
//@. loop 0
    invariant
        cores(__out_0@) =~= shift_cores(cores($vec0).take($i0), s0[gk].generated_offset),
        forall|k: int| 0 <= k < $vec0.len() ==> s0[gk].consumer.doc_mappings().contains(#[trigger] cores($vec0)[k]),
        spans_ok(s0[gk].consumer.doc_mappings(), $vec0),
        all_span_is(s0[gk].consumer.doc_mappings(), $vec0, s0[gk].consumer.computed_column_spans), all_moved_exact(s0[gk].consumer.doc_mappings(), s0[gk].generated_offset, __out_0@, s0[gk].consumer.computed_column_spans), //#C21
        cores($vec0).to_multiset() == group(s0[gk].consumer, gsource, original_line as int, col_u32(original_column)).to_multiset(),
        shift_cores(cores($vec0), s0[gk].generated_offset).to_multiset() == shift_cores(group(s0[gk].consumer, gsource, original_line as int, col_u32(original_column)), s0[gk].generated_offset).to_multiset(),
//@. at ls_0
    proof { assert(s0[gk].ready()); assert(s0[gk].consumer.doc_mappings().contains(cores($vec0)[$i0])); }
//@ end

// ------------------------------------------------------------ C11/C16: column spans
//@ fn IndexedConsumer::computed_column_spans
    requires old(self).wf(), forall|i: int| 0 <= i < old(self).sections@.len() ==> (#[trigger] old(self).sections@[i]).consumer.has_mappings(),
    ensures final(self).wf(), final(self).same(old(self)),
        forall|i: int| 0 <= i < final(self).sections@.len() ==> (#[trigger] final(self).sections@[i]).consumer.computed_column_spans,
//@. at start
    let ghost s0 = self.sections@;
//@. loop 0
    invariant
        sections_same(self.sections@, s0), self.source_map == old(self).source_map,
        sections_ok(self.sections@),
        forall|j: int| 0 <= j < $i0 ==> (#[trigger] self.sections@[j]).consumer.computed_column_spans,
//@ end

// ------------------------------------------------------------ C17
pub open spec fn shift_map(m: source_map_mappings::Mapping, p: Position) -> source_map_mappings::Mapping {
    let dc = if m.generated_line == 0 { p.column - 1 } else { 0 };
    source_map_mappings::Mapping {
        generated_line: (m.generated_line + p.line - 1) as u32,
        generated_column: (m.generated_column + dc) as u32,
        last_generated_column: match m.last_generated_column { Some(c) => Some((c + dc) as u32), None => None },
        original: m.original,
    }
}
pub open spec fn shift_maps(s: Seq<source_map_mappings::Mapping>, p: Position) -> Seq<source_map_mappings::Mapping> {
    s.map_values(|m: source_map_mappings::Mapping| shift_map(m, p))
}
/// what the callback sees, given what every section's own iteration yields
pub open spec fn visited(parts: Seq<Seq<source_map_mappings::Mapping>>, s: Seq<Section>) -> Seq<source_map_mappings::Mapping>
    decreases parts.len()
{
    if parts.len() == 0 { Seq::empty() }
    else { visited(parts.drop_last(), s) + shift_maps(parts.last(), s[parts.len() - 1].generated_offset) }
}
pub open spec fn each_visits(parts: Seq<Seq<source_map_mappings::Mapping>>, s: Seq<Section>, ord: IterOrd) -> bool {
    forall|i: int| 0 <= i < parts.len() ==> visits(s[i].consumer, ord, #[trigger] parts[i])
}
pub open spec fn visits_sections(s: Seq<Section>, ord: IterOrd, seq: Seq<source_map_mappings::Mapping>) -> bool {
    exists|parts: Seq<Seq<source_map_mappings::Mapping>>| parts.len() == s.len() && #[trigger] each_visits(parts, s, ord) && cores(seq) == cores(visited(parts, s))
}
#[verifier::opaque]
pub open spec fn each_spans(parts: Seq<Seq<source_map_mappings::Mapping>>, s: Seq<Section>, ord: IterOrd) -> bool {
    forall|i: int| 0 <= i < parts.len() ==> visits_spans(s[i].consumer, ord, #[trigger] parts[i])
}
pub broadcast proof fn lemma_each_spans_push(parts: Seq<Seq<source_map_mappings::Mapping>>, s: Seq<Section>, ord: IterOrd, p: Seq<source_map_mappings::Mapping>)
    requires each_spans(parts, s, ord), visits_spans(s[parts.len() as int].consumer, ord, p),
    ensures #[trigger] each_spans(parts.push(p), s, ord),
{ reveal(each_spans); }
pub broadcast proof fn lemma_each_spans_empty(s: Seq<Section>, ord: IterOrd)
    ensures #[trigger] each_spans(Seq::empty(), s, ord),
{ reveal(each_spans); }
pub open spec fn visits_sections_spans(s: Seq<Section>, ord: IterOrd, seq: Seq<source_map_mappings::Mapping>) -> bool {
    exists|parts: Seq<Seq<source_map_mappings::Mapping>>| parts.len() == s.len() && #[trigger] each_visits(parts, s, ord) && each_spans(parts, s, ord) && seq == visited(parts, s)
}
pub open spec fn iterable(s: Section) -> bool {
    s.consumer.source_map.mappings is Some && (s.consumer.has_mappings() ==> s.ready())
}
/// everything an iteration yields is a mapping of the document
pub broadcast proof fn lemma_visits_in(c: BasicConsumer, ord: IterOrd, s: Seq<source_map_mappings::Mapping>)
    requires #[trigger] visits(c, ord, s), c.has_mappings(),
    ensures forall|k: int| 0 <= k < s.len() ==> c.doc_mappings().contains(core(#[trigger] s[k])),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|k: int| 0 <= k < s.len() implies c.doc_mappings().contains(core(#[trigger] s[k])) by {
        assert(cores(s)[k] == core(s[k]));
        assert(cores(s).contains(core(s[k])));
        if ord is OriginalOrd {
            let g = c.doc_mappings().filter(|x: Core| x.original is Some);
            assert(cores(s).to_multiset().count(core(s[k])) > 0);
            assert(g.contains(core(s[k])));
            c.doc_mappings().lemma_filter_contains_rev(|x: Core| x.original is Some, core(s[k]));
        }
    }
}

//@ fn IndexedConsumer::each_mapping
    requires old(self).wf(), forall|i: int| 0 <= i < old(self).sections@.len() ==> iterable(#[trigger] old(self).sections@[i]),
    ensures final(self).wf(), final(self).same(old(self)),
        flags_kept(final(self).sections@, old(self).sections@), //#C21
        final(f)@.len() >= old(f)@.len(), final(f)@.take(old(f)@.len() as int) == old(f)@,
        visits_sections(old(self).sections@, ord, final(f)@.skip(old(f)@.len() as int)),
        visits_sections_spans(old(self).sections@, ord, final(f)@.skip(old(f)@.len() as int)), //#C21
//@. head
    hide(visits_spans);
//@. at start
    broadcast use {lemma_visits_in, lemma_each_spans_push, lemma_each_spans_empty, crate::vshim::group_seq};
    let ghost s0 = self.sections@;
    let ghost f0 = f@;
    let ghost n0 = f0.len() as int;
    let ghost mut parts: Seq<Seq<source_map_mappings::Mapping>> = Seq::empty();
    proof { assert(f@.skip(n0) =~= visited(parts, s0)); assert(f0.take(n0) =~= f0); }
//@. loop 0
    invariant
        sections_same(self.sections@, s0), self.source_map == old(self).source_map,
        flags_kept(self.sections@, s0), //#C21
        sections_ok(self.sections@),
        f@.len() >= n0, f@.take(n0) == f0,
        parts.len() == $i0, each_visits(parts, s0, ord),
        each_spans(parts, s0, ord), //#C21
        cores(f@.skip(n0)) == cores(visited(parts, s0)),
        f@.skip(n0) == visited(parts, s0), //#C21
//@. at let___trace_0
    let ghost c0 = s0[$i0].consumer;
    proof { lemma_same_consumer(section.consumer, c0); assert(iterable(s0[$i0])); }
//@. at lb_1
    let ghost part = __trace_0@;
    let ghost f1 = f@;
    proof { assert(__trace_0@.skip(0) =~= __trace_0@); assert(visits(c0, ord, part)); assert(visits_spans(c0, ord, part)); }
//@. loop 1
    invariant
        f@.len() >= n0, f@.take(n0) == f0,
        $vec1 == part,
        cores(f@.skip(n0)) =~= cores(f1.skip(n0) + shift_maps(part.take($i1), s0[$i0].generated_offset)),
        f@.skip(n0) =~= f1.skip(n0) + shift_maps(part.take($i1), s0[$i0].generated_offset), //#C21
//@. at ls_1
    proof { assert(s0[$i0].consumer.has_mappings()); assert(c0.doc_mappings().contains(core(part[$i1]))); }
//@. at la_1
    proof {
        let had = parts;
        parts = parts.push(part);
        assert(part.take(part.len() as int) =~= part);
        assert(parts.drop_last() =~= had);
    }
//@ end
