// From a generator to a consumer and back (C18): the two contracts that
// connect them, and the lemma that makes the property of all of them together.
//@ use crate::source_map::*
//@ use crate::mapping::Mapping
//@ use crate::util::*
//@ use crate::array_set::*
//@ use crate::mapping_list::*
//@ use crate::decode::*
//@ use crate::agree::*
//@ use crate::generator::*
//@ use crate::consumer::*
//@ use crate::source_map_mappings::*
//@ use crate::serde_json
//@ use crate::serde_json::json_value
//@ use crate::codec
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::vshim::group_strings};

/// merging loses no mapping and invents none
pub proof fn lemma_merged_all(ms: Seq<Mapping>)
    ensures
        forall|i: int| 0 <= i < ms.len() ==> merged(ms).contains(dmap(#[trigger] ms[i])),
        forall|k: int| 0 <= k < merged(ms).len() ==> exists|i: int| 0 <= i < ms.len() && #[trigger] dmap(ms[i]) == #[trigger] merged(ms)[k],
    decreases ms.len()
{
    if ms.len() > 0 {
        let p = ms.drop_last();
        lemma_merged_all(p);
        let n = ms.len() - 1;
        let same = ms.len() > 1 && same_fields(ms.last(), ms[ms.len() - 2]);
        if same {
            assert(dmap(ms[n]) == dmap(p[n - 1]));
            assert(merged(p).contains(dmap(p[n - 1])));
        }
        assert forall|i: int| 0 <= i < ms.len() implies merged(ms).contains(dmap(#[trigger] ms[i])) by {
            if i < n {
                assert(p[i] == ms[i]);
                let k = choose|k: int| 0 <= k < merged(p).len() && merged(p)[k] == dmap(p[i]);
                assert(merged(ms)[k] == dmap(ms[i]));
            } else if !same {
                assert(merged(ms)[merged(p).len() as int] == dmap(ms[i]));
            }
        }
        assert forall|k: int| 0 <= k < merged(ms).len() implies exists|i: int| 0 <= i < ms.len() && #[trigger] dmap(ms[i]) == #[trigger] merged(ms)[k] by {
            if k < merged(p).len() {
                assert(merged(p)[k] == merged(ms)[k]);
                let i = choose|i: int| 0 <= i < p.len() && #[trigger] dmap(p[i]) == merged(p)[k];
                assert(dmap(ms[i]) == merged(ms)[k]);
            } else {
                assert(dmap(ms[n]) == merged(ms)[k]);
            }
        }
    }
}

/// what the text stands for is the generator's document
pub open spec fn text_of(text: Seq<char>, g: SourceMapGenerator) -> bool {
    let j = json_value::<SourceMapJson>(text)->0;
    &&& json_value::<SourceMapJson>(text) is Some
    &&& j.version == 3 && j.file == g.file && j.source_root == g.source_root && j.sections is None
    &&& j.sources is Some && j.sources->0@ == g.sources.list()
    &&& j.names is Some && j.names->0@ == g.names.list()
    &&& j.mappings is Some
    &&& decode(j.mappings->0@, g.sources.list(), g.names.list()) == Some(merged(g.mappings.array@))
}
pub open spec fn same_gen(a: SourceMapGenerator, b: SourceMapGenerator) -> bool {
    &&& a.file == b.file && a.source_root == b.source_root && a.skip_validation == b.skip_validation
    &&& a.source_contents == b.source_contents && a.sources == b.sources && a.names == b.names
    &&& a.mappings.bag() == b.mappings.bag()
}
/// the generator holds valid mappings, its tables fit 31 bits
pub open spec fn writable(g: SourceMapGenerator) -> bool {
    &&& g.wf() && all_valid(g.mappings.array@)
    &&& g.sources.list().len() <= 0x7fff_ffff && g.names.list().len() <= 0x7fff_ffff
}

//@ fn SourceMapGenerator::as_string
    requires writable(*old(self)),
    ensures final(self).wf(), same_gen(*final(self), *old(self)), text_of(r@, *final(self)),
//@. at start
    broadcast use crate::codec::lemma_nested_text;
//@ end

/// every mapping of the generator is in the consumer, and nothing else is
pub open spec fn faithful(ms: Seq<Mapping>, c: BasicConsumer) -> bool {
    let so = c.source_map.sources->0@;
    let na = c.source_map.names->0@;
    &&& forall|m: Mapping| #[trigger] ms.contains(m) ==> some_stands(c.doc_mappings(), dmap(m), so, na)
    &&& forall|x: Core| #[trigger] c.doc_mappings().contains(x) ==> exists|m: Mapping| #[trigger] ms.contains(m) && stands(x, dmap(m), so, na)
}
pub broadcast proof fn lemma_reads_text(text: Seq<char>, g: SourceMapGenerator, g0: SourceMapGenerator, c: BasicConsumer)
    requires #[trigger] text_of(text, g), writable(g0), #[trigger] same_gen(g, g0), c.source_map == json_value::<SourceMapJson>(text)->0,
    ensures #[trigger] c.in_range(), c.source_map.source_root == g0.source_root, c.source_map.sources->0@ == g0.sources.list(), c.source_map.names->0@ == g0.names.list(),
        faithful(g0.mappings.array@, c),
{
    let so = g.sources.list();
    let na = g.names.list();
    let ms = g.mappings.array@;
    let ms0 = g0.mappings.array@;
    let s = c.source_map.mappings->0@;
    let ds = merged(ms);
    assert(all_plausible(ms0));
    lemma_perm(ms0, ms);
    lemma_merged_all(ms);
    assert forall|i: int| 0 <= i < ms.len() implies valid(#[trigger] ms[i]) by {
        assert(ms.contains(ms[i]));
        let k = choose|k: int| 0 <= k < ms0.len() && ms0[k] == ms[i];
        assert(valid(ms0[k]));
    }
    assert forall|k: int| 0 <= k < ds.len() implies small(#[trigger] ds[k]) by {
        let i = choose|i: int| 0 <= i < ms.len() && #[trigger] dmap(ms[i]) == ds[k];
        assert(valid(ms[i]));
    }
    lemma_parsed_reads_the_format(s, so, na);
    let p = parsed(text_bytes(s))->0;
    assert forall|x: Core| #[trigger] p.contains(x) implies core_ok(x, c.source_map.names) by {
        assert(stands_for_some(x, ds, so, na));
        let k = choose|k: int| 0 <= k < ds.len() && stands(x, #[trigger] ds[k], so, na);
        assert(small(ds[k]));
    }
    assert forall|m: Mapping| #[trigger] ms0.contains(m) implies some_stands(p, dmap(m), so, na) by {
        assert(ms.contains(m));
        let i = choose|i: int| 0 <= i < ms.len() && ms[i] == m;
        assert(ds.contains(dmap(ms[i])));
        let k = choose|k: int| 0 <= k < ds.len() && ds[k] == dmap(m);
        assert(some_stands(p, ds[k], so, na));
    }
    assert forall|x: Core| #[trigger] p.contains(x) implies exists|m: Mapping| #[trigger] ms0.contains(m) && stands(x, dmap(m), so, na) by {
        assert(stands_for_some(x, ds, so, na));
        let k = choose|k: int| 0 <= k < ds.len() && stands(x, #[trigger] ds[k], so, na);
        let i = choose|i: int| 0 <= i < ms.len() && #[trigger] dmap(ms[i]) == ds[k];
        assert(ms.contains(ms[i]));
        assert(ms0.contains(ms[i]));
    }
}

//@ fn BasicConsumer::from_source_map
    requires writable(*old(source_map)),
    ensures final(source_map).wf(), same_gen(*final(source_map), *old(source_map)),
        r.wf(), r.in_range(), opt_string(r.source_map_url) == opt_text(source_map_url),
        r.source_map.source_root == old(source_map).source_root,
        faithful(old(source_map).mappings.array@, r),
//@. at start
    broadcast use lemma_reads_text;
//@ end

/// C18: with the contract of original_position_for, what comes back is what was added
pub proof fn lemma_round_trip(c: BasicConsumer, ms: Seq<Mapping>, m: Mapping, up: bool, r: Option<Mapping>)
    requires c.wf(), faithful(ms, c), ms.contains(m), valid(m), m.original is Some,
        forall|o: Mapping| #[trigger] ms.contains(o) && o.generated == m.generated ==> dmap(o) == dmap(m),
        gen_answer(c, m.generated.line as int, m.generated.column as int, up, r),
    ensures r is Some,
        r->0.generated == m.generated, r->0.original == m.original, r->0.name == m.name,
        r->0.source == Some(source_url_spec(opt_string(c.source_map.source_root), m.source->0@, opt_string(c.source_map_url))),
{
    let so = c.source_map.sources->0@;
    let na = c.source_map.names->0@;
    let all = c.doc_mappings();
    let l = m.generated.line - 1;
    let col = m.generated.column as int;
    assert(some_stands(all, dmap(m), so, na));
    let x = choose|x: Core| #[trigger] all.contains(x) && stands(x, dmap(m), so, na);
    assert(at_gen(x, l, col));
    assert(closest_gen(all, l, col, up, x));
    assert forall|y: Core| #[trigger] closest_gen(all, l, col, up, y) implies stands(y, dmap(m), so, na) by {
        assert(all.contains(y));
        assert(y.column == col);
        let o = choose|o: Mapping| #[trigger] ms.contains(o) && stands(y, dmap(o), so, na);
        assert(o.generated == m.generated);
    }
    assert(x.original is Some);
    assert(r is Some);
    let y = choose|y: Core| #[trigger] closest_gen(all, l, col, up, y) && reports(c, y, r->0);
    assert(stands(y, dmap(m), so, na));
}
