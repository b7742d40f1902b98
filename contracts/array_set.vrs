broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::vshim::group_strings, crate::vshim::group_seq};

//@ type ArraySet

impl ArraySet {
    /// the listing
    pub open spec fn list(&self) -> Seq<String> { self.array@ }

    /// representation invariant: the index map sends exactly the listed
    /// strings to the position of their first occurrence
    pub open spec fn wf(&self) -> bool {
        &&& forall|s: String| #[trigger] self.set@.dom().contains(s) <==> self.array@.contains(s)
        &&& forall|s: String| #[trigger] self.set@.dom().contains(s) ==> is_first(self.array@, s, self.set@[s] as int)
    }
    pub open spec fn default_post(r: ArraySet) -> bool { r.wf() && r.list() == Seq::<String>::empty() }
}
pub open spec fn is_first(l: Seq<String>, s: String, i: int) -> bool {
    0 <= i < l.len() && l[i] == s && forall|j: int| 0 <= j < i ==> l[j] != s
}
pub open spec fn added(l: Seq<String>, s: String, dup: bool) -> Seq<String> {
    if l.contains(s) && !dup { l } else { l.push(s) }
}
/// adding a whole sequence, in order
pub open spec fn added_all(l: Seq<String>, arr: Seq<String>, dup: bool) -> Seq<String>
    decreases arr.len()
{
    if arr.len() == 0 { l } else { added(added_all(l, arr.drop_last(), dup), arr.last(), dup) }
}
pub proof fn lemma_added_all_step(l: Seq<String>, arr: Seq<String>, i: int, dup: bool)
    requires 0 <= i < arr.len(),
    ensures added_all(l, arr.take(i + 1), dup) == added(added_all(l, arr.take(i), dup), arr[i], dup),
{
    assert(arr.take(i + 1).drop_last() =~= arr.take(i));
    assert(arr.take(i + 1).last() == arr[i]);
}
/// with duplicates allowed the listing is the sequence itself
pub proof fn lemma_added_all_dup(arr: Seq<String>)
    ensures added_all(Seq::empty(), arr, true) == arr,
    decreases arr.len()
{
    if arr.len() > 0 { lemma_added_all_dup(arr.drop_last()); assert(arr.drop_last().push(arr.last()) =~= arr); }
    else { assert(arr =~= Seq::<String>::empty()); }
}
pub proof fn lemma_push_contains(l: Seq<String>, x: String)
    ensures forall|s: String| #[trigger] l.push(x).contains(s) <==> (l.contains(s) || s == x),
{
    assert forall|s: String| #[trigger] l.push(x).contains(s) <==> (l.contains(s) || s == x) by {
        if l.contains(s) { let i = choose|i: int| 0 <= i < l.len() && l[i] == s; assert(l.push(x)[i] == s); }
        if s == x { assert(l.push(x)[l.len() as int] == s); }
    }
}
/// the number of distinct strings of a well-formed set
pub proof fn lemma_size(a: ArraySet)
    requires a.wf(),
    ensures a.set@.dom() == a.list().to_set(), a.set@.dom().len() == a.list().to_set().len(),
{
    assert(a.set@.dom() =~= a.list().to_set());
}

//@ fn ArraySet::derived_clone
    ensures r.list() == self.list(), r.set@ == self.set@,
//@. head
    broadcast use crate::vshim::cloned_vec;
//@ end
//@ fn ArraySet::new
    ensures r.wf(), r.list() == Seq::<String>::empty(),
//@ end

//@ fn ArraySet::from_array
    ensures r.wf(), r.list() == added_all(Seq::empty(), arr@, allow_duplicates),
//@. loop 0
    invariant
        array_set.wf(),
        $seq0 == arr@,
        array_set.list() == added_all(Seq::empty(), arr@.take($i0), allow_duplicates),
//@. at ls_0
    proof { lemma_added_all_step(Seq::empty(), arr@, $i0, allow_duplicates); }
//@. at la_0
    proof { assert(arr@.take(arr@.len() as int) == arr@); }
//@ end

//@ fn ArraySet::size
    requires self.wf(),
    ensures r == self.list().to_set().len(),
//@. at start
    proof { lemma_size(*self); }
//@ end

//@ fn ArraySet::add
    requires old(self).wf(),
    ensures final(self).wf(),
        final(self).list() == added(old(self).list(), data, allow_duplicates),
//@. at start
    proof { lemma_push_contains(self.array@, data); }
//@ end

//@ fn ArraySet::has
    requires self.wf(),
    ensures r == self.list().contains(data),
//@ end

//@ fn ArraySet::index_of
    requires self.wf(),
    ensures r is Some <==> self.list().contains(data),
        r is Some ==> is_first(self.list(), data, r->0 as int),
//@ end

//@ fn ArraySet::at
    requires self.list().len() < 0x8000_0000,
    ensures r == (if 0 <= idx < self.list().len() { Some(self.list()[idx as int]) } else { None::<String> }),
//@ end

//@ fn ArraySet::to_vec
    ensures r@ == self.list(),
//@ end
