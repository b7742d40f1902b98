//@ const *

pub open spec fn sgn(x: int) -> int { if x < 0 { -1 } else if x == 0 { 0 } else { 1 } }

/// The sequence is sorted consistently with both comparison functions: there
/// is a non-decreasing rank for every element and a rank for the needle that
/// both functions compare.  (Every sorted sequence has such ranks.)
pub open spec fn cmp1_ok<T1, T2, F1: Fn(&T1, &T2) -> i32>(needle: T1, h: Seq<T2>, c1: F1, key: Seq<int>, p: int) -> bool {
    &&& forall|i: int| 0 <= i < h.len() ==> #[trigger] c1.requires((&needle, &h[i]))
    &&& forall|i: int, r: i32| 0 <= i < h.len() && #[trigger] c1.ensures((&needle, &h[i]), r) ==> sgn(r as int) == sgn(p - key[i])
}
pub open spec fn cmp2_ok<T2, F2: Fn(&T2, &T2) -> i32>(h: Seq<T2>, c2: F2, key: Seq<int>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < h.len() && 0 <= j < h.len() ==> #[trigger] c2.requires((&h[i], &h[j]))
    &&& forall|i: int, j: int, r: i32| 0 <= i < h.len() && 0 <= j < h.len() && #[trigger] c2.ensures((&h[i], &h[j]), r) ==> sgn(r as int) == sgn(key[i] - key[j])
}
pub open spec fn nondecreasing(key: Seq<int>) -> bool {
    forall|i: int, j: int| 0 <= i <= j < key.len() ==> key[i] <= key[j]
}

/// always true; a caller names the ranks it has in mind with it
pub open spec fn ranks(key: Seq<int>, p: int) -> bool { true }
/// What `search` promises about its result.
pub open spec fn search_result(key: Seq<int>, p: int, lub: bool, r: int) -> bool {
    if exists|i: int| 0 <= i < key.len() && key[i] == p {
        // an equal element: the first one
        0 <= r < key.len() && key[r] == p && forall|j: int| 0 <= j < r ==> key[j] < p
    } else if lub {
        // the first of the least greater elements
        if r == -1 { forall|j: int| 0 <= j < key.len() ==> key[j] < p }
        else { 0 <= r < key.len() && key[r] > p && forall|j: int| 0 <= j < r ==> key[j] < p }
    } else {
        // the first of the greatest smaller elements
        if r == -1 { forall|j: int| 0 <= j < key.len() ==> key[j] > p }
        else {
            0 <= r < key.len() && key[r] < p
            && (forall|j: int| 0 <= j < key.len() ==> key[j] <= key[r] || key[j] > p)
            && (forall|j: int| 0 <= j < r ==> key[j] < key[r])
        }
    }
}
/// The same before the first of several equal elements is looked for.
pub open spec fn some_result(key: Seq<int>, p: int, lub: bool, r: int) -> bool {
    if exists|i: int| 0 <= i < key.len() && key[i] == p {
        0 <= r < key.len() && key[r] == p
    } else if lub {
        if r == -1 { forall|j: int| 0 <= j < key.len() ==> key[j] < p }
        else { 0 <= r < key.len() && key[r] > p && forall|j: int| 0 <= j < r ==> key[j] < p }
    } else {
        if r == -1 { forall|j: int| 0 <= j < key.len() ==> key[j] > p }
        else { 0 <= r < key.len() && key[r] < p && forall|j: int| r < j < key.len() ==> key[j] > p }
    }
}

//@ fn binary_search::recursive_search
    requires
        hay_stack@.len() < 0x7fff_ffff,
        -1 <= low, low + 2 <= high, high <= hay_stack@.len(),
        exists|key: Seq<int>, p: int| #![trigger cmp1_ok(*needle, hay_stack@, *compare, key, p)]
            key.len() == hay_stack@.len() && nondecreasing(key) && cmp1_ok(*needle, hay_stack@, *compare, key, p)
            && (low >= 0 ==> key[low as int] < p) && (high < key.len() ==> key[high as int] > p),
    ensures
        -1 <= r < hay_stack@.len(),
        forall|key: Seq<int>, p: int| #![trigger cmp1_ok(*needle, hay_stack@, *compare, key, p)]
            key.len() == hay_stack@.len() && nondecreasing(key) && cmp1_ok(*needle, hay_stack@, *compare, key, p)
            && (low >= 0 ==> key[low as int] < p) && (high < key.len() ==> key[high as int] > p)
            ==> some_result(key, p, bias == LEAST_UPPER_BOUND, r as int),
    decreases high - low
//@ end

//@ fn binary_search::search
    requires
        hay_stack@.len() < 0x7fff_ffff,
        exists|key: Seq<int>, p: int| #![trigger cmp1_ok(needle, hay_stack@, compare1, key, p)] #![trigger ranks(key, p)]
            ranks(key, p) && key.len() == hay_stack@.len() && nondecreasing(key)
            && cmp1_ok(needle, hay_stack@, compare1, key, p) && cmp2_ok(hay_stack@, compare2, key),
    ensures
        -1 <= r < hay_stack@.len(),
        forall|key: Seq<int>, p: int| #![trigger cmp1_ok(needle, hay_stack@, compare1, key, p)] #![trigger ranks(key, p)]
            ranks(key, p) && key.len() == hay_stack@.len() && nondecreasing(key)
            && cmp1_ok(needle, hay_stack@, compare1, key, p) && cmp2_ok(hay_stack@, compare2, key)
            ==> search_result(key, p, bias == Some(LEAST_UPPER_BOUND), r as int),
//@. at start
    let ghost (gkey, gp) = choose|key: Seq<int>, p: int| #![trigger cmp1_ok(needle, hay_stack@, compare1, key, p)]
            key.len() == hay_stack@.len() && nondecreasing(key)
            && cmp1_ok(needle, hay_stack@, compare1, key, p) && cmp2_ok(hay_stack@, compare2, key);
//@. at lb_0
    let ghost found = index as int;
//@. loop 0
    invariant
        0 <= index <= found < hay_stack@.len(),
        forall|key: Seq<int>| #![trigger cmp2_ok(hay_stack@, compare2, key)]
            key.len() == hay_stack@.len() && nondecreasing(key) && cmp2_ok(hay_stack@, compare2, key) ==> key[index as int] == key[found],
    decreases index
//@ end
