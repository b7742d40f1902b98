// The reader and the writer of documents that serde's derive generates for the
// repository's types (property C20).
//@ use crate::source_map::*
//@ use crate::serde::*
//@ use crate::serde_json::*
broadcast use {crate::serde::group_serde, crate::serde::axiom_ignored};

//@ type SourceMapJsonField
//@ type SectionField
//@ type PositionField

// ---- the standard names
pub open spec fn sm_field(k: Seq<char>) -> SourceMapJsonField {
    if k == "version"@ { SourceMapJsonField::f_version }
    else if k == "sources"@ { SourceMapJsonField::f_sources }
    else if k == "names"@ { SourceMapJsonField::f_names }
    else if k == "mappings"@ { SourceMapJsonField::f_mappings }
    else if k == "file"@ { SourceMapJsonField::f_file }
    else if k == "sourceRoot"@ { SourceMapJsonField::f_source_root }
    else if k == "sourcesContent"@ { SourceMapJsonField::f_sources_content }
    else if k == "sections"@ { SourceMapJsonField::f_sections }
    else { SourceMapJsonField::ignored }
}
pub open spec fn sec_field(k: Seq<char>) -> SectionField {
    if k == "offset"@ { SectionField::f_offset }
    else if k == "map"@ { SectionField::f_map }
    else if k == "url"@ { SectionField::f_url }
    else { SectionField::ignored }
}
pub open spec fn pos_field(k: Seq<char>) -> PositionField {
    if k == "line"@ { PositionField::f_line }
    else if k == "column"@ { PositionField::f_column }
    else { PositionField::ignored }
}
pub proof fn lemma_names()
    ensures
        "version"@ != "sources"@, "version"@ != "names"@, "version"@ != "mappings"@, "version"@ != "file"@, "version"@ != "sourceRoot"@, "version"@ != "sourcesContent"@, "version"@ != "sections"@,
        "sources"@ != "names"@, "sources"@ != "mappings"@, "sources"@ != "file"@, "sources"@ != "sourceRoot"@, "sources"@ != "sourcesContent"@, "sources"@ != "sections"@,
        "names"@ != "mappings"@, "names"@ != "file"@, "names"@ != "sourceRoot"@, "names"@ != "sourcesContent"@, "names"@ != "sections"@,
        "mappings"@ != "file"@, "mappings"@ != "sourceRoot"@, "mappings"@ != "sourcesContent"@, "mappings"@ != "sections"@,
        "file"@ != "sourceRoot"@, "file"@ != "sourcesContent"@, "file"@ != "sections"@,
        "sourceRoot"@ != "sourcesContent"@, "sourceRoot"@ != "sections"@, "sourcesContent"@ != "sections"@,
        "offset"@ != "map"@, "offset"@ != "url"@, "map"@ != "url"@, "line"@ != "column"@,
{
    reveal_strlit("version"); reveal_strlit("sources"); reveal_strlit("names"); reveal_strlit("mappings"); reveal_strlit("file");
    reveal_strlit("sourceRoot"); reveal_strlit("sourcesContent"); reveal_strlit("sections");
    reveal_strlit("offset"); reveal_strlit("map"); reveal_strlit("url"); reveal_strlit("line"); reveal_strlit("column");
    assert("version"@.len() == 7); assert("sources"@.len() == 7); assert("names"@.len() == 5); assert("mappings"@.len() == 8); assert("file"@.len() == 4); assert("sourceRoot"@.len() == 10); assert("sourcesContent"@.len() == 14); assert("sections"@.len() == 8); assert("offset"@.len() == 6); assert("map"@.len() == 3); assert("url"@.len() == 3); assert("line"@.len() == 4); assert("column"@.len() == 6);
    assert("version"@[0] == 'v'); assert("sources"@[0] == 's');
    assert("mappings"@[0] == 'm'); assert("sections"@[0] == 's');
    assert("map"@[0] == 'm'); assert("url"@[0] == 'u');
}

// ---- what is written: every present field under its name, once, and nothing else
pub open spec fn sm_written(s: Seq<(Seq<char>, J)>, d: SourceMapJson) -> bool {
    &&& slot(s, "version"@) == Slot::Once(enc::<i32>(d.version))
    &&& opt_member(s, "sources"@, d.sources)
    &&& opt_member(s, "names"@, d.names)
    &&& opt_member(s, "mappings"@, d.mappings)
    &&& opt_member(s, "file"@, d.file)
    &&& opt_member(s, "sourceRoot"@, d.source_root)
    &&& opt_member(s, "sourcesContent"@, d.sources_content)
    &&& opt_member(s, "sections"@, d.sections)
    &&& forall|k: Seq<char>| sm_field(k) is ignored ==> #[trigger] slot(s, k) is Absent
}
pub open spec fn sec_written(s: Seq<(Seq<char>, J)>, d: Section) -> bool {
    &&& slot(s, "offset"@) == Slot::Once(enc::<Position>(d.offset))
    &&& slot(s, "map"@) == Slot::Once(enc::<Box<SourceMapJson>>(d.map))
    &&& opt_member(s, "url"@, d.url)
    &&& forall|k: Seq<char>| sec_field(k) is ignored ==> #[trigger] slot(s, k) is Absent
}
pub open spec fn pos_written(s: Seq<(Seq<char>, J)>, d: Position) -> bool {
    &&& slot(s, "line"@) == Slot::Once(enc::<i32>(d.line))
    &&& slot(s, "column"@) == Slot::Once(enc::<i32>(d.column))
    &&& forall|k: Seq<char>| pos_field(k) is ignored ==> #[trigger] slot(s, k) is Absent
}

// ---- what is read: the fields under their names, in any order, others ignored
pub open spec fn sm_read(s: Seq<(Seq<char>, J)>) -> Option<SourceMapJson> {
    let version = look::<i32>(s, "version"@);
    let sources = look::<Option<Vec<String>>>(s, "sources"@);
    let names = look::<Option<Vec<String>>>(s, "names"@);
    let mappings = look::<Option<String>>(s, "mappings"@);
    let file = look::<Option<String>>(s, "file"@);
    let source_root = look::<Option<String>>(s, "sourceRoot"@);
    let sources_content = look::<Option<Vec<Option<String>>>>(s, "sourcesContent"@);
    let sections = look::<Option<Vec<Section>>>(s, "sections"@);
    if version is Some && sources is Some && names is Some && mappings is Some && file is Some && source_root is Some && sources_content is Some && sections is Some {
        Some(SourceMapJson { version: version->0, sources: sources->0, names: names->0, mappings: mappings->0, file: file->0,
            source_root: source_root->0, sources_content: sources_content->0, sections: sections->0 })
    } else { None }
}
pub open spec fn sec_read(s: Seq<(Seq<char>, J)>) -> Option<Section> {
    let offset = look::<Position>(s, "offset"@);
    let map = look::<Box<SourceMapJson>>(s, "map"@);
    let url = look::<Option<String>>(s, "url"@);
    if offset is Some && map is Some && url is Some { Some(Section { offset: offset->0, map: map->0, url: url->0 }) } else { None }
}
pub open spec fn pos_read(s: Seq<(Seq<char>, J)>) -> Option<Position> {
    let line = look::<i32>(s, "line"@);
    let column = look::<i32>(s, "column"@);
    if line is Some && column is Some { Some(Position { line: line->0, column: column->0 }) } else { None }
}

// ---- that these are the implementations serde uses (assumed: what the derive is for)
#[verifier::external_body]
pub proof fn axiom_link_sm(d: SourceMapJson)
    ensures enc::<SourceMapJson>(d) is Obj, sm_written(enc::<SourceMapJson>(d)->Obj_0, d),
        forall|s: Seq<(Seq<char>, J)>| #[trigger] dec::<SourceMapJson>(J::Obj(s)) == sm_read(s),
{}
#[verifier::external_body]
pub proof fn axiom_link_sec(d: Section)
    ensures enc::<Section>(d) is Obj, sec_written(enc::<Section>(d)->Obj_0, d),
        forall|s: Seq<(Seq<char>, J)>| #[trigger] dec::<Section>(J::Obj(s)) == sec_read(s),
{}
#[verifier::external_body]
pub proof fn axiom_link_pos(d: Position)
    ensures enc::<Position>(d) is Obj, pos_written(enc::<Position>(d)->Obj_0, d),
        forall|s: Seq<(Seq<char>, J)>| #[trigger] dec::<Position>(J::Obj(s)) == pos_read(s),
{}
#[verifier::external_body]
pub proof fn axiom_fields()
    ensures forall|k: Seq<char>| #[trigger] field_of::<SourceMapJsonField>(k) == sm_field(k),
        forall|k: Seq<char>| #[trigger] field_of::<SectionField>(k) == sec_field(k),
        forall|k: Seq<char>| #[trigger] field_of::<PositionField>(k) == pos_field(k),
{}
/// objects may not be missing
#[verifier::external_body]
pub proof fn axiom_required()
    ensures absent::<Position>() is None, absent::<Box<SourceMapJson>>() is None,
{}

// ---- the derived functions
pub open spec fn sofar<T>(f: Option<T>, sl: Slot) -> bool {
    match sl { Slot::Absent => f is None, Slot::Once(j) => f is Some && dec::<T>(j) == f, Slot::Many => false }
}

//@ fn SourceMapJson::serialize
    ensures r is Ok, r->Ok_0.json() is Obj, sm_written(r->Ok_0.json()->Obj_0, *self),
//@. at start
    broadcast use crate::serde::group_members;
    proof { lemma_names(); }
//@ end
//@ fn Section::serialize
    ensures r is Ok, r->Ok_0.json() is Obj, sec_written(r->Ok_0.json()->Obj_0, *self),
//@. at start
    broadcast use crate::serde::group_members;
    proof { lemma_names(); }
//@ end
//@ fn Position::serialize
    ensures r is Ok, r->Ok_0.json() is Obj, pos_written(r->Ok_0.json()->Obj_0, *self),
//@. at start
    broadcast use crate::serde::group_members;
    proof { lemma_names(); }
//@ end

//@ fn SourceMapJson::visit_field
    ensures r is Ok, r->Ok_0 == sm_field(__value@),
//@. at start
    proof { lemma_names(); }
//@ end
//@ fn Section::visit_field
    ensures r is Ok, r->Ok_0 == sec_field(__value@),
//@. at start
    proof { lemma_names(); }
//@ end
//@ fn Position::visit_field
    ensures r is Ok, r->Ok_0 == pos_field(__value@),
//@. at start
    proof { lemma_names(); }
//@ end

//@ fn SourceMapJson::visit_map
    requires !__map@.pending, __map@.pos == 0,
    ensures match sm_read(__map@.all) { Some(d) => r == Ok::<SourceMapJson, crate::serde::Error>(d), None => r is Err },
//@. at start
    let ghost all = __map@.all;
    proof { lemma_names(); axiom_fields(); axiom_required(); }
//@. at lb_0
    assert(all.take(0) =~= Seq::empty());
//@. loop 0
    invariant __map@.all == all, !__map@.pending, 0 <= __map@.pos <= all.len(),
        sofar(f_version, slot(all.take(__map@.pos), "version"@)),
        sofar(f_sources, slot(all.take(__map@.pos), "sources"@)),
        sofar(f_names, slot(all.take(__map@.pos), "names"@)),
        sofar(f_mappings, slot(all.take(__map@.pos), "mappings"@)),
        sofar(f_file, slot(all.take(__map@.pos), "file"@)),
        sofar(f_source_root, slot(all.take(__map@.pos), "sourceRoot"@)),
        sofar(f_sources_content, slot(all.take(__map@.pos), "sourcesContent"@)),
        sofar(f_sections, slot(all.take(__map@.pos), "sections"@)),
    ensures __map@.pos == all.len(),
    decreases all.len() - __map@.pos,
//@. at let___next
    proof { if __next is Some { lemma_reading(all, __map@.pos - 1); } }
//@. at la_0
    assert(all.take(all.len() as int) =~= all);
//@ end
//@ fn Section::visit_map
    requires !__map@.pending, __map@.pos == 0,
    ensures match sec_read(__map@.all) { Some(d) => r == Ok::<Section, crate::serde::Error>(d), None => r is Err },
//@. at start
    let ghost all = __map@.all;
    proof { lemma_names(); axiom_fields(); axiom_required(); }
//@. at lb_0
    assert(all.take(0) =~= Seq::empty());
//@. loop 0
    invariant __map@.all == all, !__map@.pending, 0 <= __map@.pos <= all.len(),
        sofar(f_offset, slot(all.take(__map@.pos), "offset"@)),
        sofar(f_map, slot(all.take(__map@.pos), "map"@)),
        sofar(f_url, slot(all.take(__map@.pos), "url"@)),
    ensures __map@.pos == all.len(),
    decreases all.len() - __map@.pos,
//@. at let___next
    proof { if __next is Some { lemma_reading(all, __map@.pos - 1); } }
//@. at la_0
    assert(all.take(all.len() as int) =~= all);
//@ end
//@ fn Position::visit_map
    requires !__map@.pending, __map@.pos == 0,
    ensures match pos_read(__map@.all) { Some(d) => r == Ok::<Position, crate::serde::Error>(d), None => r is Err },
//@. at start
    let ghost all = __map@.all;
    proof { lemma_names(); axiom_fields(); axiom_required(); }
//@. at lb_0
    assert(all.take(0) =~= Seq::empty());
//@. loop 0
    invariant __map@.all == all, !__map@.pending, 0 <= __map@.pos <= all.len(),
        sofar(f_line, slot(all.take(__map@.pos), "line"@)),
        sofar(f_column, slot(all.take(__map@.pos), "column"@)),
    ensures __map@.pos == all.len(),
    decreases all.len() - __map@.pos,
//@. at let___next
    proof { if __next is Some { lemma_reading(all, __map@.pos - 1); } }
//@. at la_0
    assert(all.take(all.len() as int) =~= all);
//@ end

// ---- the round trip
pub proof fn lemma_strings(v: Vec<String>)
    ensures dec::<Vec<String>>(enc(v)) == Some(v),
{
    axiom_vec_dec(v, v@.map_values(|x: String| enc::<String>(x)));
}
pub proof fn lemma_texts(v: Vec<Option<String>>)
    ensures dec::<Vec<Option<String>>>(enc(v)) == Some(v),
{
    let s = v@.map_values(|x: Option<String>| enc::<Option<String>>(x));
    assert forall|i: int| 0 <= i < s.len() implies dec::<Option<String>>(#[trigger] s[i]) == Some(v@[i]) by {
        match v@[i] { Some(t) => { assert(s[i] == enc::<String>(t)); } None => {} }
    }
    axiom_vec_dec(v, s);
}
pub proof fn lemma_position(p: Position)
    ensures dec::<Position>(enc(p)) == Some(p),
{
    axiom_link_pos(p);
    axiom_i32(p.line);
    axiom_i32(p.column);
}
/// C20: what a document is written as is read as that document
pub proof fn lemma_document(d: SourceMapJson)
    ensures dec::<SourceMapJson>(enc(d)) == Some(d),
    decreases d
{
    axiom_link_sm(d);
    let s = enc::<SourceMapJson>(d)->Obj_0;
    match d.sources { Some(v) => lemma_strings(v), None => {} }
    match d.names { Some(v) => lemma_strings(v), None => {} }
    match d.sources_content { Some(v) => lemma_texts(v), None => {} }
    match d.sections {
        Some(v) => {
            let t = v@.map_values(|x: Section| enc::<Section>(x));
            assert forall|i: int| 0 <= i < t.len() implies dec::<Section>(#[trigger] t[i]) == Some(v@[i]) by {
                assert(decreases_to!(d => v@[i]));
                lemma_section(v@[i]);
            }
            axiom_vec_dec(v, t);
        }
        None => {}
    }
    axiom_i32(d.version);
}
pub proof fn lemma_section(c: Section)
    ensures dec::<Section>(enc(c)) == Some(c),
    decreases c
{
    axiom_link_sec(c);
    lemma_position(c.offset);
    lemma_document(*c.map);
}

// ---- from a text and back: as deep as the reader goes
/// sections are nested at most k deep
pub open spec fn nested_le(d: SourceMapJson, k: nat) -> bool
    decreases k
{
    d.sections is Some && d.sections->0@.len() > 0 ==> k > 0 && forall|i: int| 0 <= i < d.sections->0@.len() ==>
        nested_le(*(#[trigger] d.sections->0@[i]).map, (k - 1) as nat)
}
pub proof fn lemma_depth_more(j: J, m: nat, n: nat)
    requires depth_le(j, m), m <= n,
    ensures depth_le(j, n),
    decreases m
{
    match j {
        J::Arr(s) => { assert forall|i: int| 0 <= i < s.len() implies depth_le(#[trigger] s[i], (n - 1) as nat) by { lemma_depth_more(s[i], (m - 1) as nat, (n - 1) as nat); } }
        J::Obj(s) => { assert forall|i: int| 0 <= i < s.len() implies depth_le((#[trigger] s[i]).1, (n - 1) as nat) by { lemma_depth_more(s[i].1, (m - 1) as nat, (n - 1) as nat); } }
        _ => {}
    }
}
pub proof fn lemma_member(s: Seq<(Seq<char>, J)>, i: int)
    requires 0 <= i < s.len(),
    ensures slot(s, s[i].0) == Slot::Once(s[i].1) || slot(s, s[i].0) is Many,
    decreases s.len()
{
    if i < s.len() - 1 { lemma_member(s.drop_last(), i); }
}
pub proof fn lemma_depth_strings(v: Vec<String>, n: nat)
    requires n >= 1,
    ensures depth_le(enc(v), n),
{
    let s = v@.map_values(|x: String| enc::<String>(x));
    assert forall|i: int| 0 <= i < s.len() implies depth_le(#[trigger] s[i], (n - 1) as nat) by { assert(s[i] == enc::<String>(v@[i])); }
}
pub proof fn lemma_depth_texts(v: Vec<Option<String>>, n: nat)
    requires n >= 1,
    ensures depth_le(enc(v), n),
{
    let s = v@.map_values(|x: Option<String>| enc::<Option<String>>(x));
    assert forall|i: int| 0 <= i < s.len() implies depth_le(#[trigger] s[i], (n - 1) as nat) by {
        match v@[i] { Some(t) => { assert(s[i] == enc::<String>(t)); } None => {} }
    }
}
pub proof fn lemma_depth_position(p: Position, n: nat)
    requires n >= 1,
    ensures depth_le(enc(p), n),
{
    axiom_link_pos(p);
    lemma_names();
    let s = enc::<Position>(p)->Obj_0;
    assert forall|i: int| 0 <= i < s.len() implies depth_le((#[trigger] s[i]).1, (n - 1) as nat) by {
        lemma_member(s, i);
        axiom_i32(p.line); axiom_i32(p.column);
        assert(!(pos_field(s[i].0) is ignored));
    }
}
pub proof fn lemma_depth(d: SourceMapJson, k: nat)
    requires nested_le(d, k),
    ensures depth_le(enc(d), 3 * k + 2),
    decreases k, 1nat
{
    axiom_link_sm(d);
    lemma_names();
    let s = enc::<SourceMapJson>(d)->Obj_0;
    let n: nat = 3 * k + 2;
    assert forall|i: int| 0 <= i < s.len() implies depth_le((#[trigger] s[i]).1, (n - 1) as nat) by {
        lemma_member(s, i);
        axiom_i32(d.version);
        assert(!(sm_field(s[i].0) is ignored));
        match d.sources { Some(v) => lemma_depth_strings(v, (n - 1) as nat), None => {} }
        match d.names { Some(v) => lemma_depth_strings(v, (n - 1) as nat), None => {} }
        match d.sources_content { Some(v) => lemma_depth_texts(v, (n - 1) as nat), None => {} }
        match d.sections {
            Some(v) => {
                let t = v@.map_values(|x: Section| enc::<Section>(x));
                assert forall|i: int| 0 <= i < t.len() implies depth_le(#[trigger] t[i], (n - 2) as nat) by { lemma_depth_section(v@[i], (k - 1) as nat); }
                assert(depth_le(enc(v), (n - 1) as nat));
            }
            None => {}
        }
    }
}
pub proof fn lemma_depth_section(c: Section, k: nat)
    requires nested_le(*c.map, k),
    ensures depth_le(enc(c), 3 * k + 3),
    decreases k, 2nat
{
    axiom_link_sec(c);
    lemma_names();
    let s = enc::<Section>(c)->Obj_0;
    let n: nat = 3 * k + 3;
    assert forall|i: int| 0 <= i < s.len() implies depth_le((#[trigger] s[i]).1, (n - 1) as nat) by {
        lemma_member(s, i);
        assert(!(sec_field(s[i].0) is ignored));
        lemma_depth_position(c.offset, (n - 1) as nat);
        lemma_depth(*c.map, k);
    }
}
/// C20: a document written to a text is read back from it
pub proof fn lemma_text(d: SourceMapJson, t: Seq<char>)
    requires json_tree(t) == Some(enc(d)), depth_le(enc(d), max_depth()),
    ensures json_value::<SourceMapJson>(t) == Some(d),
{
    lemma_document(d);
    axiom_json_value::<SourceMapJson>(t);
}
pub broadcast proof fn lemma_nested_text(d: SourceMapJson, t: Seq<char>)
    requires #[trigger] json_tree(t) == Some(#[trigger] enc(d)), nested_le(d, 41),
    ensures json_value::<SourceMapJson>(t) == Some(d),
{
    lemma_depth(d, 41);
    lemma_depth_more(enc(d), 125, 127);
    lemma_text(d, t);
}
