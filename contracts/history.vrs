// What a whole history of add_mapping calls leaves in the tables: every
// distinct string exactly once, in order of first use.  No code of the repository.
//@ use crate::array_set::*
//@ use crate::generator::*
//@ use crate::mapping::Mapping

pub open spec fn keys(ms: Seq<Mapping>, name: bool) -> Seq<Option<String>> {
    ms.map_values(|m: Mapping| if name { m.name } else { m.source })
}
/// the table after adding the mappings with these keys one by one
pub open spec fn table(ks: Seq<Option<String>>) -> Seq<String>
    decreases ks.len()
{
    if ks.len() == 0 { Seq::empty() } else { opt_added(table(ks.drop_last()), ks.last()) }
}
/// index of the first use of x
pub open spec fn first_use(ks: Seq<Option<String>>, x: String, i: int) -> bool {
    0 <= i < ks.len() && ks[i] == Some(x) && forall|j: int| 0 <= j < i ==> ks[j] != Some(x)
}
pub proof fn lemma_table(ks: Seq<Option<String>>)
    ensures
        table(ks).no_duplicates(),
        forall|x: String| #[trigger] table(ks).contains(x) <==> ks.contains(Some(x)),
        forall|a: int, b: int, i: int, j: int| 0 <= a < b < table(ks).len() && #[trigger] first_use(ks, table(ks)[a], i) && #[trigger] first_use(ks, table(ks)[b], j) ==> i < j,
    decreases ks.len()
{
    if ks.len() > 0 {
        let p = ks.drop_last();
        let l = ks.last();
        let n = p.len() as int;
        lemma_table(p);
        lemma_opt_added(table(p), l);
        assert(ks =~= p.push(l));
        assert forall|x: String| #[trigger] table(ks).contains(x) <==> ks.contains(Some(x)) by {
            if p.contains(Some(x)) {
                let k = choose|k: int| 0 <= k < p.len() && p[k] == Some(x);
                assert(ks[k] == Some(x));
            }
            if ks.contains(Some(x)) {
                let k = choose|k: int| 0 <= k < ks.len() && ks[k] == Some(x);
                if k < n { assert(p[k] == Some(x)); }
            }
            if l == Some(x) { assert(ks[n] == Some(x)); }
        }
        assert forall|a: int, b: int, i: int, j: int| 0 <= a < b < table(ks).len() && #[trigger] first_use(ks, table(ks)[a], i) && #[trigger] first_use(ks, table(ks)[b], j) implies i < j by {
            let xa = table(ks)[a];
            let xb = table(ks)[b];
            assert(table(p)[a] == xa);
            assert(table(p).contains(xa));
            let k = choose|k: int| 0 <= k < p.len() && p[k] == Some(xa);
            assert(ks[k] == Some(xa));
            assert(i <= k);
            assert(first_use(p, xa, i));
            if b < table(p).len() {
                assert(table(p).contains(xb));
                let k2 = choose|k2: int| 0 <= k2 < p.len() && p[k2] == Some(xb);
                assert(ks[k2] == Some(xb));
                assert(j <= k2);
                assert(first_use(p, xb, j));
            } else {
                assert(!table(p).contains(xb));
                if j < n { assert(p[j] == Some(xb)); assert(p.contains(Some(xb))); }
            }
        }
    }
}

/// a generator that got exactly these mappings, in this order
pub open spec fn has_history(g: SourceMapGenerator, ms: Seq<Mapping>) -> bool {
    &&& g.sources.list() == table(keys(ms, false))
    &&& g.names.list() == table(keys(ms, true))
    &&& g.mappings.bag() == ms.to_multiset()
}
pub proof fn lemma_history_start(g: SourceMapGenerator)
    requires g.sources.list().len() == 0, g.names.list().len() == 0, g.mappings.array@.len() == 0,
    ensures has_history(g, Seq::empty()),
{
    assert(keys(Seq::empty(), false).len() == 0);
    assert(keys(Seq::empty(), true).len() == 0);
    assert(g.sources.list() =~= Seq::<String>::empty());
    assert(g.names.list() =~= Seq::<String>::empty());
    assert(g.mappings.array@ =~= Seq::<Mapping>::empty());
}
/// one step of the history, from the contract of add_mapping
pub proof fn lemma_history_step(g: SourceMapGenerator, g2: SourceMapGenerator, ms: Seq<Mapping>, m: Mapping)
    requires has_history(g, ms),
        g2.sources.list() == opt_added(g.sources.list(), m.source),
        g2.names.list() == opt_added(g.names.list(), m.name),
        g2.mappings.array@ == g.mappings.array@.push(m),
    ensures has_history(g2, ms.push(m)),
{
    assert(keys(ms.push(m), false).drop_last() =~= keys(ms, false));
    assert(keys(ms.push(m), true).drop_last() =~= keys(ms, true));
    ms.to_multiset_ensures();
    g.mappings.array@.to_multiset_ensures();
}
/// serialising reorders the mappings only
pub proof fn lemma_history_keep(g: SourceMapGenerator, g2: SourceMapGenerator, ms: Seq<Mapping>)
    requires has_history(g, ms), g2.sources.list() == g.sources.list(), g2.names.list() == g.names.list(), g2.mappings.bag() == g.mappings.bag(),
    ensures has_history(g2, ms),
{}
/// the tables of the document, for every history
pub proof fn lemma_document_tables(g: SourceMapGenerator, ms: Seq<Mapping>)
    requires has_history(g, ms),
    ensures
        g.sources.list().no_duplicates(), g.names.list().no_duplicates(),
        forall|x: String| #[trigger] g.sources.list().contains(x) <==> keys(ms, false).contains(Some(x)),
        forall|x: String| #[trigger] g.names.list().contains(x) <==> keys(ms, true).contains(Some(x)),
        forall|a: int, b: int, i: int, j: int| 0 <= a < b < g.sources.list().len() && #[trigger] first_use(keys(ms, false), g.sources.list()[a], i) && #[trigger] first_use(keys(ms, false), g.sources.list()[b], j) ==> i < j,
        forall|a: int, b: int, i: int, j: int| 0 <= a < b < g.names.list().len() && #[trigger] first_use(keys(ms, true), g.names.list()[a], i) && #[trigger] first_use(keys(ms, true), g.names.list()[b], j) ==> i < j,
{
    lemma_table(keys(ms, false));
    lemma_table(keys(ms, true));
}
