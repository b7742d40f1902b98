//@ use std::collections::HashMap
//@ use crate::util::*
//@ use crate::array_set::*
//@ use crate::mapping_list::*
//@ use crate::decode::*
//@ use crate::base64_vlq::*
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::vshim::group_strings};

//@ type SourceMapGenerator

/// the three shapes a mapping may have
pub open spec fn valid(m: Mapping) -> bool {
    &&& m.generated.line >= 1 && m.generated.column >= 0
    &&& {
        ||| m.original is None && m.source is None && m.name is None
        ||| m.original is Some && m.source is Some && m.original->0.line >= 1 && m.original->0.column >= 0
    }
}
pub open spec fn all_valid(s: Seq<Mapping>) -> bool { forall|i: int| 0 <= i < s.len() ==> valid(#[trigger] s[i]) }

pub open spec fn opt_added(l: Seq<String>, s: Option<String>) -> Seq<String> {
    match s { Some(x) => added(l, x, false), None => l }
}
impl SourceMapGenerator {
    /// every source and name of an added mapping is in the tables, which list no string twice
    pub open spec fn wf(&self) -> bool {
        &&& self.sources.wf() && self.names.wf() && self.mappings.wf()
        &&& self.sources.list().no_duplicates() && self.names.list().no_duplicates()
        &&& forall|i: int| 0 <= i < self.mappings.array@.len() ==> known(#[trigger] self.mappings.array@[i], self.sources.list(), self.names.list())
        &&& !self.skip_validation ==> all_valid(self.mappings.array@)
    }
}
pub open spec fn known(m: Mapping, sources: Seq<String>, names: Seq<String>) -> bool {
    &&& m.source is Some ==> sources.contains(m.source->0)
    &&& m.name is Some ==> names.contains(m.name->0)
}
pub proof fn lemma_opt_added(l: Seq<String>, s: Option<String>)
    ensures
        l.no_duplicates() ==> opt_added(l, s).no_duplicates(),
        forall|x: String| #![trigger opt_added(l, s).contains(x)] opt_added(l, s).contains(x) <==> l.contains(x) || s == Some(x),
{
    if s is Some { lemma_push_contains(l, s->0); }
}

//@ fn SourceMapGenerator::new
    ensures r.wf(), r.file == file, r.source_root == source_root, r.skip_validation == skip_validation,
        r.sources.list().len() == 0, r.names.list().len() == 0, r.mappings.array@.len() == 0,
        r.source_contents@ == Map::<String, String>::empty(),
//@ end

//@ fn SourceMapGenerator::validate_mapping
    ensures r is Ok <==> valid(*mapping),
//@ end

//@ fn SourceMapGenerator::add_mapping
    requires old(self).wf(), old(self).skip_validation || valid(mapping),
    ensures final(self).wf(), //#C06,C07
        final(self).file == old(self).file, final(self).source_root == old(self).source_root,
        final(self).skip_validation == old(self).skip_validation,
        final(self).source_contents == old(self).source_contents,
        final(self).sources.list() == opt_added(old(self).sources.list(), mapping.source), //#C06,C07
        final(self).names.list() == opt_added(old(self).names.list(), mapping.name), //#C06,C07
        final(self).mappings.array@ == old(self).mappings.array@.push(mapping), //#C06
//@. refuse
    requires old(self).wf(), !old(self).skip_validation, !valid(mapping),
//@. panic
    assert(*self == *old(self));
//@. at start
    let ghost m0 = mapping;
    proof {
        lemma_opt_added(self.sources.list(), mapping.source);
        lemma_opt_added(self.names.list(), mapping.name);
    }
//@ end

/// what serialising the first i mappings has established
pub open spec fn sm_inv(result: Seq<char>, ms: Seq<Mapping>, i: int, so: Seq<String>, na: Seq<String>,
    pl: int, pc: int, ps: int, pol: int, poc: int, pn: int) -> bool {
    let d = dec_run(result, dec_start(), so, na);
    let f = flush(d, so, na);
    &&& 0 <= i <= ms.len()
    &&& !d.err && !f.err
    &&& f.line == pl && f.gcol == pc && f.src == ps && f.oline == pol && f.ocol == poc && f.name == pn
    &&& 0 <= pc <= i32::MAX && 0 <= ps <= i32::MAX && 0 <= pol <= i32::MAX && 0 <= poc <= i32::MAX && 0 <= pn <= i32::MAX
    &&& f.out == merged(ms.take(i))
    &&& i == 0 ==> pl == 1
    &&& i > 0 ==> pl == ms[i - 1].generated.line && d.cur.len() > 0
}
/// sources are compared relative to the source root
pub open spec fn content_key(root: Option<String>, source: String) -> String {
    match root { Some(r) => relative_spec(r, source), None => source }
}
pub open spec fn content_of(contents: Map<String, String>, root: Option<String>, source: String) -> Option<String> {
    let k = content_key(root, source);
    if contents.dom().contains(k) { Some(contents[k]) } else { None }
}

//@ fn SourceMapGenerator::set_source_content
    requires old(self).wf(),
    ensures final(self).wf(),
        final(self).file == old(self).file, final(self).source_root == old(self).source_root,
        final(self).skip_validation == old(self).skip_validation,
        final(self).sources == old(self).sources, final(self).names == old(self).names, final(self).mappings == old(self).mappings,
        source_content is Some ==> final(self).source_contents@ == old(self).source_contents@.insert(content_key(old(self).source_root, source_file), source_content->0),
        source_content is None ==> final(self).source_contents@ == old(self).source_contents@.remove(content_key(old(self).source_root, source_file)),
//@ end

//@ fn SourceMapGenerator::generate_sources_contents
    ensures r@.len() == sources@.len(),
        forall|i: int| 0 <= i < sources@.len() ==> #[trigger] r@[i] == content_of(self.source_contents@, source_root, sources@[i]),
//@. loop 0
    invariant
        $seq0 == sources@,
        __out_0@.len() == $i0,
        forall|i: int| 0 <= i < $i0 ==> #[trigger] __out_0@[i] == content_of(self.source_contents@, source_root, sources@[i]),
//@ end

//@ fn SourceMapGenerator::serialize_mappings
    requires old(self).wf(), all_valid(old(self).mappings.array@),
        old(self).sources.list().len() <= 0x7fff_ffff, old(self).names.list().len() <= 0x7fff_ffff,
    ensures final(self).wf(),
        final(self).file == old(self).file, final(self).source_root == old(self).source_root,
        final(self).skip_validation == old(self).skip_validation,
        final(self).source_contents == old(self).source_contents,
        final(self).sources == old(self).sources, final(self).names == old(self).names,
        // the mappings, as a sorted list
        final(self).mappings.bag() == old(self).mappings.bag(),
        pos_sorted(final(self).mappings.array@),
        // read back by the rules of the format: exactly these, duplicates merged
        decode(r@, old(self).sources.list(), old(self).names.list()) == Some(merged(final(self).mappings.array@)),
//@. head
    hide(vlq_enc);
//@. at start
    broadcast use group_decode;
    let ghost so = self.sources.list();
    let ghost na = self.names.list();
    let ghost arr0 = self.mappings.array@;
    proof { assert(all_plausible(arr0)); }
//@. at let_mappings
    let ghost ms = mappings@;
    proof {
        lemma_perm(arr0, ms);
        assert forall|i: int| 0 <= i < ms.len() implies valid(#[trigger] ms[i]) && known(ms[i], so, na) by {
            assert(ms.contains(ms[i]));
            let k = choose|k: int| 0 <= k < arr0.len() && arr0[k] == ms[i];
            assert(valid(arr0[k]));
        }
        assert(ms.take(0).len() == 0);
    }
//@. loop 0
    invariant
        $end0 == ms.len(), mappings@ == ms,
        sm_inv(result@, ms, $i0, so, na, previous_generated_line as int, previous_generated_column as int,
            previous_source as int, previous_original_line as int, previous_original_column as int, previous_name as int),
//@. at let_i
    let ghost d0 = dec_run(result@, dec_start(), so, na);
    let ghost line0 = previous_generated_line as int;
    proof {
        lemma_merged_step(ms, i as int);
        assert(valid(ms[i as int]) && known(ms[i as int], so, na));
        if i > 0 { lemma_map_cmp_refl_antisym(ms[i as int], ms[i - 1]); assert(pos_cmp(ms[i - 1].generated, ms[i as int].generated) <= 0); }
    }
//@. loop 1
    invariant
        line0 <= previous_generated_line <= mapping.generated.line,
        mapping == ms[i as int],
        !dec_run(next@, d0, so, na).err,
        next@.len() == 0 ==> previous_generated_line == line0,
        next@.len() > 0 ==> dec_run(next@, d0, so, na) == (Dec { line: previous_generated_line as int, gcol: 0, ..flush(d0, so, na) }),
    decreases mapping.generated.line - previous_generated_line
//@. at le_0
    proof {
        let m = ms[i as int];
        let d = dec_run(result@, dec_start(), so, na);
        let f = flush(d, so, na);
        assert(mapping.generated == m.generated);
        assert(!d.err);
        assert(d.cur.len() == 1 || d.cur.len() == 4 || d.cur.len() == 5);
        assert(d.comma || d.line != line0 || i == 0);
        assert(d.cur.len() == 1 <==> m.source is None);
        assert(d.cur.len() == 4 <==> m.source is Some && m.name is None);
        assert(m.source is Some ==> so[previous_source as int] == m.source->0);
        assert(!f.err);
        assert(f.gcol == m.generated.column);
        assert(f.out == merged(ms.take(i as int)).push(dmap(m)));
        assert(f.line == previous_generated_line);
    }
//@. at la_0
    proof { assert(ms.take(ms.len() as int) =~= ms); }
//@ end

//@ fn SourceMapGenerator::as_json
    requires old(self).wf(), all_valid(old(self).mappings.array@),
        old(self).sources.list().len() <= 0x7fff_ffff, old(self).names.list().len() <= 0x7fff_ffff,
    ensures final(self).wf(),
        final(self).file == old(self).file, final(self).source_root == old(self).source_root,
        final(self).skip_validation == old(self).skip_validation,
        final(self).source_contents == old(self).source_contents,
        final(self).sources == old(self).sources, final(self).names == old(self).names,
        final(self).mappings.bag() == old(self).mappings.bag(),
        r.version == 3, r.file == old(self).file, r.source_root == old(self).source_root, r.sections is None,
        r.sources is Some, r.sources->0@ == old(self).sources.list(),
        r.names is Some, r.names->0@ == old(self).names.list(),
        r.mappings is Some,
        pos_sorted(final(self).mappings.array@),
        decode(r.mappings->0@, old(self).sources.list(), old(self).names.list()) == Some(merged(final(self).mappings.array@)), //#C06
        // contents parallel to the sources, if any is registered
        r.sources_content is Some <==> old(self).source_contents@.dom().len() > 0,
        r.sources_content is Some ==> r.sources_content->0@.len() == r.sources->0@.len(),
        r.sources_content is Some ==> forall|i: int| 0 <= i < r.sources->0@.len() ==>
            #[trigger] r.sources_content->0@[i] == content_of(old(self).source_contents@, old(self).source_root, r.sources->0@[i]),
//@ end
