//@ use crate::util::*
//@ use core::cmp::Ordering

//@ type MappingList

pub open spec fn pos_sorted(s: Seq<Mapping>) -> bool {
    forall|i: int, j: int| 0 <= i <= j < s.len() ==> pos_cmp(#[trigger] s[i].generated, #[trigger] s[j].generated) <= 0
}
pub open spec fn all_plausible(s: Seq<Mapping>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> plausible(#[trigger] s[i])
}
impl MappingList {
    /// everything added so far, as a bag
    pub open spec fn bag(&self) -> vstd::multiset::Multiset<Mapping> { self.array@.to_multiset() }
    pub open spec fn top(&self) -> Position {
        if self.last is Some { self.last->0.generated } else { Position { line: -1i32, column: -1i32 } }
    }
    pub open spec fn wf(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.array@.len() ==> pos_cmp(#[trigger] self.array@[i].generated, self.top()) <= 0
        &&& self.sorted ==> pos_sorted(self.array@)
    }
    pub open spec fn default_post(r: MappingList) -> bool { r.wf() && r.array@.len() == 0 }
}
/// the mappings a callback has been called with, from its n-th call on
pub open spec fn visited(calls: Seq<(Mapping, usize)>, n: int) -> Seq<Mapping> {
    Seq::new((calls.len() - n) as nat, |i: int| calls[n + i].0)
}
pub proof fn lemma_perm(a: Seq<Mapping>, b: Seq<Mapping>)
    requires a.to_multiset() == b.to_multiset(),
    ensures a.len() == b.len(), all_plausible(a) ==> all_plausible(b),
        forall|m: Mapping| #![trigger a.contains(m)] #![trigger b.contains(m)] a.contains(m) <==> b.contains(m),
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|m: Mapping| a.contains(m) <==> b.contains(m) by {
        a.to_multiset_ensures();
        b.to_multiset_ensures();
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert(a.to_multiset().count(m) == b.to_multiset().count(m));
        assert(a.contains(m) <==> a.to_multiset().count(m) > 0);
        assert(b.contains(m) <==> b.to_multiset().count(m) > 0);
    }
    if all_plausible(a) {
        assert forall|i: int| 0 <= i < b.len() implies plausible(#[trigger] b[i]) by {
            assert(b.contains(b[i]));
            let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i];
            assert(plausible(a[k]));
        }
    }
}
pub open spec fn gen_cmp() -> spec_fn(Mapping, Mapping) -> int { |a: Mapping, b: Mapping| map_cmp(a, b) }
pub proof fn lemma_gen_cmp_preorder(s: Seq<Mapping>)
    requires all_plausible(s),
    ensures preorder_on(s, gen_cmp()),
{
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies #[trigger] map_cmp(s[i], s[j]) == -map_cmp(s[j], s[i]) by {
        lemma_map_cmp_refl_antisym(s[i], s[j]);
    }
    assert forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && #[trigger] map_cmp(s[i], s[j]) <= 0 && #[trigger] map_cmp(s[j], s[k]) <= 0
        implies map_cmp(s[i], s[k]) <= 0 by {
        lemma_map_cmp_trans(s[i], s[j], s[k]);
    }
}

/// a permutation of what the list holds stays below the greatest position added in order
pub proof fn lemma_listed(arr0: Seq<Mapping>, a: Seq<Mapping>, top: Position)
    requires a.to_multiset() == arr0.to_multiset(), forall|i: int| 0 <= i < arr0.len() ==> pos_cmp(#[trigger] arr0[i].generated, top) <= 0,
    ensures forall|i: int| 0 <= i < a.len() ==> pos_cmp(#[trigger] a[i].generated, top) <= 0,
{
    lemma_perm(arr0, a);
    assert forall|i: int| 0 <= i < a.len() implies pos_cmp(#[trigger] a[i].generated, top) <= 0 by {
        assert(a.contains(a[i]));
        let k = choose|k: int| 0 <= k < arr0.len() && arr0[k] == a[i];
        assert(pos_cmp(arr0[k].generated, top) <= 0);
    }
}
pub proof fn lemma_sorted_by_gen(a: Seq<Mapping>)
    requires forall|i: int, j: int| 0 <= i <= j < a.len() ==> gen_cmp()(#[trigger] a[i], #[trigger] a[j]) <= 0,
    ensures pos_sorted(a),
{
    assert forall|i: int, j: int| 0 <= i <= j < a.len() implies pos_cmp(#[trigger] a[i].generated, #[trigger] a[j].generated) <= 0 by {
        assert(gen_cmp()(a[i], a[j]) <= 0);
    }
}

//@ fn mapping_list::generated_position_after
    ensures r == (pos_cmp(b.generated, a.generated) >= 0),
//@. at start
    proof { lemma_opt_cmp(a.source, b.source); lemma_opt_cmp(a.name, b.name); }
//@ end

//@ fn MappingList::default
    ensures MappingList::default_post(r),
//@ end

impl Default for MappingList {
    fn default() -> (r: Self)
        ensures MappingList::default_post(r),
    { MappingList::default() }
}

//@ fn MappingList::new
    ensures r.wf(), r.array@.len() == 0,
//@ end

//@ fn MappingList::add
    requires old(self).wf(),
    ensures final(self).wf(),
        final(self).array@ == old(self).array@.push(mapping),
        final(self).bag() == old(self).bag().insert(mapping),
//@. at start
    proof { self.array@.to_multiset_ensures(); }
//@ end

// the callback is read as the list of what it is called with
//@ fn MappingList::unsorted_for_each
    ensures final(callback)@.len() == old(callback)@.len() + self.array@.len(),
        forall|i: int| 0 <= i < old(callback)@.len() ==> final(callback)@[i] == old(callback)@[i],
        forall|i: int| old(callback)@.len() <= i < final(callback)@.len() ==> #[trigger] final(callback)@[i].1 == i - old(callback)@.len(),
        visited(final(callback)@, old(callback)@.len() as int).to_multiset() == self.bag(),
//@. at start
    proof { assert(visited(callback@, callback@.len() as int) =~= Seq::<Mapping>::empty()); }
//@. loop 0
    invariant
        callback@.len() == old(callback)@.len() + $i0,
        forall|i: int| 0 <= i < old(callback)@.len() ==> callback@[i] == old(callback)@[i],
        forall|i: int| old(callback)@.len() <= i < callback@.len() ==> #[trigger] callback@[i].1 == i - old(callback)@.len(),
        visited(callback@, old(callback)@.len() as int) =~= self.array@.take($i0),
//@. at tail
    proof { assert(visited(callback@, old(callback)@.len() as int) =~= self.array@); }
//@ end

//@ fn MappingList::to_array
    requires old(self).wf(), all_plausible(old(self).array@),
    ensures final(self).wf(), r@ == final(self).array@,
        final(self).bag() == old(self).bag(),
        r@.to_multiset() == old(self).bag(),
        pos_sorted(r@),
//@. head
    hide(preorder_on); hide(map_cmp);
//@. at start
    let ghost arr0 = self.array@;
    proof { lemma_gen_cmp_preorder(arr0); }
//@. closure 0 (a: &Mapping, b: &Mapping) -> Ordering
    ensures r == int_ord(map_cmp(*a, *b))
//@. at tail
    proof {
        lemma_listed(arr0, self.array@, self.top());
        if !old(self).sorted { lemma_sorted_by_gen(self.array@); }
    }
//@ end
