//@ use std::collections::HashMap
global size_of usize == 8;
// Stand-ins and assumed specifications for things outside the code under contract.

/// Every `panic!` of the code becomes a call of this function: unreachable in
/// the normal contract of a function ...
#[verifier::external_body]
pub fn vpanic() -> !
    requires false,
{ panic!() }

/// ... and reachable in its "refuse" contract (which must not return).
#[verifier::external_body]
pub fn vpanic_ok() -> !
{ panic!() }

/// `unwrap` and `expect` inside a "refuse" contract: they return only if there is something.
pub trait VUnwrap<T>: Sized {
    spec fn holds(self, r: T) -> bool;
    fn v_unwrap(self) -> (r: T) ensures self.holds(r);
    fn v_expect(self, m: &str) -> (r: T) ensures self.holds(r);
}
impl<T> VUnwrap<T> for Option<T> {
    open spec fn holds(self, r: T) -> bool { self == Some(r) }
    #[verifier::external_body]
    fn v_unwrap(self) -> (r: T) { self.unwrap() }
    #[verifier::external_body]
    fn v_expect(self, m: &str) -> (r: T) { self.expect(m) }
}
impl<T, E> VUnwrap<T> for Result<T, E> {
    open spec fn holds(self, r: T) -> bool { self == Ok::<T, E>(r) }
    #[verifier::external_body]
    fn v_unwrap(self) -> (r: T) { match self { Ok(v) => v, Err(_) => panic!() } }
    #[verifier::external_body]
    fn v_expect(self, m: &str) -> (r: T) { match self { Ok(v) => v, Err(_) => panic!() } }
}

/// a Vec is its elements: with the same elements it is the same value
#[verifier::external_body]
pub broadcast proof fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>)
    requires #[trigger] a@ == #[trigger] b@,
    ensures a == b,
{}
pub broadcast proof fn cloned_vec<T: Clone>(a: Vec<T>, b: Vec<T>)
    requires #[trigger] cloned::<Vec<T>>(a, b), forall|x: T, y: T| #[trigger] cloned::<T>(x, y) ==> x == y,
    ensures a == b,
{
    if a != b {
        assert(call_ensures(Vec::<T>::clone, (&a,), b));
        assert(a@ =~= b@) by {
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(cloned(a[i], b[i])); }
        }
        axiom_vec_ext(a, b);
    }
}

/// A string literal turned into a String.
#[verifier::external_body]
pub fn lit(s: &str) -> (r: String)
    ensures r@ == s@,
{ s.to_string() }

/// a text matched against a literal
#[verifier::external_body]
pub fn same_text(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }

pub trait VFromStr: Sized {
    spec fn parsed(s: Seq<char>, r: Result<Self, ()>) -> bool;
}
impl VFromStr for char {
    open spec fn parsed(s: Seq<char>, r: Result<char, ()>) -> bool {
        (r is Ok <==> s.len() == 1) && (r is Ok ==> r->Ok_0 == s[0])
    }
}
#[verifier::external_body]
pub fn vparse<T: VFromStr>(s: &str) -> (r: Result<T, ()>)
    ensures T::parsed(s@, r),
{ unimplemented!() }

// ---- bit operations used by the encoder (and the obvious variants of them)
pub broadcast proof fn lemma_mask31(x: usize)
    ensures #[trigger] (x & 31usize) == x % 32,
{ assert(x & 31usize == x % 32) by (bit_vector); }
pub broadcast proof fn lemma_shr5(x: usize)
    ensures #[trigger] (x >> 5usize) == x / 32,
{ assert(x >> 5usize == x / 32) by (bit_vector); }
pub broadcast proof fn lemma_or32(x: usize)
    requires x < 32,
    ensures #[trigger] (x | 32usize) == x + 32,
{ assert(x < 32 ==> x | 32usize == x + 32) by (bit_vector); }
pub broadcast proof fn lemma_shl1(x: i64)
    requires 0 <= x < 0x1_0000_0000,
    ensures #[trigger] (x << 1i64) == 2 * x,
{ assert(0 <= x < 0x1_0000_0000 ==> x << 1i64 == 2 * x) by (bit_vector); }
pub broadcast proof fn lemma_shl1u(x: u64)
    requires x < 0x1_0000_0000,
    ensures #[trigger] (x << 1u64) == 2 * x,
{ assert(x < 0x1_0000_0000 ==> x << 1u64 == 2 * x) by (bit_vector); }
pub broadcast proof fn lemma_mask31_64(x: u64)
    ensures #[trigger] (x & 31u64) == x % 32,
{ assert(x & 31u64 == x % 32) by (bit_vector); }
pub broadcast proof fn lemma_shr5_64(x: u64)
    ensures #[trigger] (x >> 5u64) == x / 32,
{ assert(x >> 5u64 == x / 32) by (bit_vector); }
pub broadcast proof fn lemma_mask31_i64(x: i64)
    requires x >= 0,
    ensures #[trigger] (x & 31i64) == x % 32,
{ assert(x >= 0 ==> x & 31i64 == x % 32) by (bit_vector); }
pub broadcast proof fn lemma_shr5_i64(x: i64)
    requires x >= 0,
    ensures #[trigger] (x >> 5i64) == x / 32,
{ assert(x >= 0 ==> x >> 5i64 == x / 32) by (bit_vector); }
pub broadcast proof fn lemma_or32_i32(x: i32)
    requires 0 <= x < 32,
    ensures #[trigger] (x | 32i32) == x + 32,
{ assert(0 <= x < 32 ==> x | 32i32 == x + 32) by (bit_vector); }
pub broadcast proof fn lemma_or1_i64(x: i64)
    requires 0 <= x < 0x1_0000_0000,
    ensures #[trigger] ((x << 1i64) | 1i64) == 2 * x + 1,
{ assert(0 <= x < 0x1_0000_0000 ==> (x << 1i64) | 1i64 == 2 * x + 1) by (bit_vector); }
pub broadcast proof fn lemma_push_add<A>(a: Seq<A>, c: A, b: Seq<A>)
    ensures #[trigger] (a.push(c) + b) == a + (seq![c] + b),
{ assert(a.push(c) + b =~= a + (seq![c] + b)); }
pub broadcast proof fn lemma_push<A>(a: Seq<A>, c: A)
    ensures #[trigger] a.push(c) == a + seq![c],
{ assert(a.push(c) =~= a + seq![c]); }
pub broadcast proof fn lemma_empty_add<A>(b: Seq<A>)
    ensures #[trigger] (Seq::<A>::empty() + b) == b,
{ assert(Seq::<A>::empty() + b =~= b); }
pub broadcast proof fn lemma_take_all<A>(s: Seq<A>)
    ensures #[trigger] s.take(s.len() as int) == s,
{ assert(s.take(s.len() as int) =~= s); }
pub broadcast group group_seq { lemma_push_add, lemma_push, lemma_empty_add }
pub broadcast group group_bits { lemma_mask31, lemma_shr5, lemma_or32, lemma_shl1, lemma_shl1u,
    lemma_mask31_64, lemma_shr5_64, lemma_mask31_i64, lemma_shr5_i64, lemma_or32_i32, lemma_or1_i64 }

// ---- Strings: equal contents are equal values; they are usable as hash keys
#[verifier::external_body]
pub broadcast proof fn axiom_string_ext(a: String, b: String)
    ensures #![trigger a@, b@] (a@ == b@) == (a == b),
{}
#[verifier::external_body]
#[verifier::allow(broadcast_without_trigger)]
pub broadcast proof fn axiom_string_of_str(a: &str)
    ensures exists|s: String| s@ == (#[trigger] a@),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_string_key_model()
    ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<String>(),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_contains_str<V>(m: Map<String, V>, k: &str, s: String)
    requires s@ == k@,
    ensures #![trigger vstd::std_specs::hash::contains_borrowed_key::<String, V, str>(m, k), s@]
        vstd::std_specs::hash::contains_borrowed_key::<String, V, str>(m, k) == m.dom().contains(s),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_maps_str<V>(m: Map<String, V>, k: &str, v: V, s: String)
    requires s@ == k@,
    ensures #![trigger vstd::std_specs::hash::maps_borrowed_key_to_value::<String, V, str>(m, k, v), s@]
        vstd::std_specs::hash::maps_borrowed_key_to_value::<String, V, str>(m, k, v) == (m.dom().contains(s) && m[s] == v),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_removed_str<V>(m: Map<String, V>, m2: Map<String, V>, k: &str, s: String)
    requires s@ == k@,
    ensures #![trigger vstd::std_specs::hash::borrowed_key_removed::<String, V, str>(m, m2, k), s@]
        vstd::std_specs::hash::borrowed_key_removed::<String, V, str>(m, m2, k) == (m2 == m.remove(s)),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_string_to_string(a: &String, r: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures::<String>(a, r),
    ensures a@ == r@,
{}
pub broadcast group group_strings { axiom_string_to_string, axiom_string_ext, axiom_string_of_str, axiom_string_key_model, axiom_contains_str, axiom_maps_str, axiom_removed_str }

// ---- String comparison is lexicographic comparison of the characters
use core::cmp::Ordering;
use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec, OrdSpec};
pub open spec fn seq_cmp(a: Seq<char>, b: Seq<char>) -> int
    decreases a.len()
{
    if a.len() == 0 && b.len() == 0 { 0 }
    else if a.len() == 0 { -1 }
    else if b.len() == 0 { 1 }
    else if (a[0] as int) < (b[0] as int) { -1 }
    else if (a[0] as int) > (b[0] as int) { 1 }
    else { seq_cmp(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}
pub open spec fn int_ord(x: int) -> Ordering {
    if x < 0 { Ordering::Less } else if x == 0 { Ordering::Equal } else { Ordering::Greater }
}
pub open spec fn ord_int(o: Ordering) -> int {
    match o { Ordering::Less => -1int, Ordering::Equal => 0, Ordering::Greater => 1 }
}
#[verifier::external_body]
pub broadcast proof fn axiom_string_eq(a: String, b: String)
    ensures <String as PartialEqSpec<String>>::obeys_eq_spec(), #[trigger] a.eq_spec(&b) == (a == b),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_string_eq_obeys()
    ensures #[trigger] <String as PartialEqSpec<String>>::obeys_eq_spec(),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_string_partial_cmp_obeys()
    ensures #[trigger] <String as PartialOrdSpec<String>>::obeys_partial_cmp_spec(),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_string_partial_cmp(a: String, b: String)
    ensures #[trigger] a.partial_cmp_spec(&b) == Some(int_ord(seq_cmp(a@, b@))),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_string_cmp_obeys()
    ensures #[trigger] <String as OrdSpec>::obeys_cmp_spec(),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_string_cmp(a: String, b: String)
    ensures #[trigger] a.cmp_spec(&b) == int_ord(seq_cmp(a@, b@)),
{}
pub broadcast group group_string_order { axiom_string_eq, axiom_string_eq_obeys, axiom_string_partial_cmp_obeys, axiom_string_partial_cmp, axiom_string_cmp_obeys, axiom_string_cmp }

pub proof fn lemma_seq_cmp_zero(a: Seq<char>, b: Seq<char>)
    ensures (seq_cmp(a, b) == 0) == (a == b), -1 <= seq_cmp(a, b) <= 1,
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] as int == b[0] as int {
        lemma_seq_cmp_zero(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int));
        if seq_cmp(a, b) == 0 {
            assert(a =~= seq![a[0]] + a.subrange(1, a.len() as int));
            assert(b =~= seq![b[0]] + b.subrange(1, b.len() as int));
        }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lemma_seq_cmp_antisym(a: Seq<char>, b: Seq<char>)
    ensures seq_cmp(a, b) == -seq_cmp(b, a),
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_seq_cmp_antisym(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int));
    }
}
pub proof fn lemma_seq_cmp_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires seq_cmp(a, b) <= 0, seq_cmp(b, c) <= 0,
    ensures seq_cmp(a, c) <= 0,
        seq_cmp(a, b) < 0 || seq_cmp(b, c) < 0 ==> seq_cmp(a, c) < 0,
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lemma_seq_cmp_trans(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int), c.subrange(1, c.len() as int));
    }
}

// ---- slice::sort_by (assumed): given a total preorder it leaves a sorted permutation
pub open spec fn preorder_on<T>(s: Seq<T>, c: spec_fn(T, T) -> int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> #[trigger] c(s[i], s[j]) <= 0 || c(s[j], s[i]) <= 0
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> (#[trigger] c(s[i], s[j]) < 0) == (c(s[j], s[i]) > 0)
    &&& forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && #[trigger] c(s[i], s[j]) <= 0 && #[trigger] c(s[j], s[k]) <= 0 ==> c(s[i], s[k]) <= 0
}
pub open spec fn cmp_closure_is<T, F: FnMut(&T, &T) -> Ordering>(s: Seq<T>, f: F, c: spec_fn(T, T) -> int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> #[trigger] f.requires((&s[i], &s[j]))
    &&& forall|i: int, j: int, o: Ordering| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] f.ensures((&s[i], &s[j]), o) ==>
        (ord_int(o) < 0 <==> c(s[i], s[j]) < 0) && (ord_int(o) == 0 <==> c(s[i], s[j]) == 0)
}
pub assume_specification<T, F: FnMut(&T, &T) -> Ordering>[ <[T]>::sort_by ](v: &mut [T], f: F)
    requires
        exists|c: spec_fn(T, T) -> int| #[trigger] preorder_on(old(v)@, c) && cmp_closure_is(old(v)@, f, c),
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|c: spec_fn(T, T) -> int| #[trigger] preorder_on(old(v)@, c) && cmp_closure_is(old(v)@, f, c) ==>
            forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> c(final(v)@[i], final(v)@[j]) <= 0,
;

// ---- saturating arithmetic (assumed: the documented meaning)
pub open spec fn clamp32(x: int) -> int { if x > i32::MAX { i32::MAX as int } else if x < i32::MIN { i32::MIN as int } else { x } }
pub assume_specification[ i32::saturating_sub ](a: i32, b: i32) -> (r: i32)
    ensures r == clamp32(a - b),
;
pub assume_specification[ i32::saturating_add ](a: i32, b: i32) -> (r: i32)
    ensures r == clamp32(a + b),
;

// ---- the bytes of a text
pub open spec fn text_bytes(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8])
    ensures r@ == text_bytes(s@),
;

// ---- functions of str that are generic over patterns, written by the extraction as methods with
// ---- one meaning (assumed: the documented one)
pub open spec fn count_of(s: Seq<char>, p: Seq<char>) -> nat
    decreases s.len()
{
    if p.len() == 0 || s.len() < p.len() { 0 }
    else if s.take(p.len() as int) == p { 1 + count_of(s.skip(p.len() as int), p) }
    else { count_of(s.skip(1), p) }
}
pub open spec fn occurs(s: Seq<char>, p: Seq<char>) -> bool {
    exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p
}
pub open spec fn split_text(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::<char>::empty()] }
    else if s[0] == c { seq![Seq::<char>::empty()] + split_text(s.skip(1), c) }
    else { let r = split_text(s.skip(1), c); r.update(0, seq![s[0]] + r[0]) }
}
pub open spec fn join_text(l: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() }
    else if l.len() == 1 { l[0] }
    else { l[0] + sep + join_text(l.drop_first(), sep) }
}
pub open spec fn texts(l: Seq<&str>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| l[i]@) }
/// the first occurrence, if any, replaced
pub open spec fn replace_first(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if a.len() == 0 { b + s }
    else if s.len() < a.len() { s }
    else if s.take(a.len() as int) == a { b + s.skip(a.len() as int) }
    else { seq![s[0]] + replace_first(s.skip(1), a, b) }
}
pub open spec fn skipped(s: Seq<char>, n: int) -> Seq<char> { if n <= s.len() { s.skip(n) } else { Seq::empty() } }

/// a queue of pieces of a text (LinkedList or VecDeque)
pub struct TextQueue<'a> { pub q: Vec<&'a str> }
impl<'a> TextQueue<'a> {
    pub open spec fn l(&self) -> Seq<Seq<char>> { texts(self.q@) }
    pub fn iter(&self) -> (r: &Vec<&'a str>)
        ensures *r == self.q,
    { &self.q }
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.q@.len() == 0),
    { self.q.is_empty() }
    pub fn len(&self) -> (r: usize)
        ensures r == self.q@.len(),
    { self.q.len() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&&'a str>)
        ensures r is Some <==> self.q@.len() > 0, r is Some ==> *r->0 == self.q@[0],
    { self.q.first() }
    #[verifier::external_body]
    pub fn back(&self) -> (r: Option<&&'a str>)
        ensures r is Some <==> self.q@.len() > 0, r is Some ==> *r->0 == self.q@.last(),
    { self.q.last() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<&'a str>)
        ensures old(self).q@.len() == 0 ==> final(self).q@ == old(self).q@ && r is None,
            old(self).q@.len() > 0 ==> final(self).q@ == old(self).q@.drop_first() && r == Some(old(self).q@[0]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<&'a str>)
        ensures old(self).q@.len() == 0 ==> final(self).q@ == old(self).q@ && r is None,
            old(self).q@.len() > 0 ==> final(self).q@ == old(self).q@.drop_last() && r == Some(old(self).q@.last()),
    { unimplemented!() }
}
pub fn items<'a>(t: TextQueue<'a>) -> (r: Vec<&'a str>)
    ensures r == t.q,
{ t.q }

pub trait TextFns {
    spec fn tv(&self) -> Seq<char>;
    fn v_skip(&self, n: usize) -> (r: String)
        ensures r@ == skipped(self.tv(), n as int);
    fn v_split_count(&self, sep: &str) -> (r: usize)
        requires sep@.len() > 0,
        ensures r == count_of(self.tv(), sep@) + 1;
    fn v_split<'a>(&'a self, c: char) -> (r: Vec<&'a str>)
        ensures texts(r@) == split_text(self.tv(), c);
    fn v_split_queue<'a>(&'a self, c: char) -> (r: TextQueue<'a>)
        ensures r.l() == split_text(self.tv(), c);
    fn v_contains(&self, p: &str) -> (r: bool)
        ensures r == occurs(self.tv(), p@);
    fn v_replacen(&self, a: &str, b: &str, n: usize) -> (r: String)
        ensures n == 0 ==> r@ == self.tv(), n == 1 ==> r@ == replace_first(self.tv(), a@, b@);
    fn v_starts(&self, p: &str) -> (r: bool)
        ensures r == (p@.len() <= self.tv().len() && forall|i: int| 0 <= i < p@.len() ==> #[trigger] self.tv()[i] == p@[i]);
    fn v_ends(&self, p: &str) -> (r: bool)
        ensures r == (p@.len() <= self.tv().len() && forall|i: int| 0 <= i < p@.len() ==> self.tv()[self.tv().len() - p@.len() + i] == #[trigger] p@[i]);
    fn v_repeat(&self, n: usize) -> (r: String)
        ensures r@ == repeated(self.tv(), n as nat);
}
pub open spec fn repeated(s: Seq<char>, n: nat) -> Seq<char>
    decreases n
{
    if n == 0 { Seq::empty() } else { repeated(s, (n - 1) as nat) + s }
}
impl TextFns for str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_skip(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn v_split_count(&self, sep: &str) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn v_split<'a>(&'a self, c: char) -> (r: Vec<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn v_split_queue<'a>(&'a self, c: char) -> (r: TextQueue<'a>) { unimplemented!() }
    #[verifier::external_body]
    fn v_contains(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_replacen(&self, a: &str, b: &str, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn v_starts(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_ends(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
}
pub trait JoinFns {
    spec fn jv(&self) -> Seq<Seq<char>>;
    fn v_join(&self, sep: &str) -> (r: String)
        ensures r@ == join_text(self.jv(), sep@);
}
impl<'a> JoinFns for Vec<&'a str> {
    open spec fn jv(&self) -> Seq<Seq<char>> { texts(self@) }
    #[verifier::external_body]
    fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() }
}

// ---- {} of format! (assumed: texts as they are, numbers in decimal)
pub open spec fn digit(d: int) -> char { seq!['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'][d] }
pub open spec fn decimal(n: int) -> Seq<char>
    decreases n
{
    if n < 10 { seq![digit(n)] } else { decimal(n / 10).push(digit(n % 10)) }
}
pub open spec fn signed(n: int) -> Seq<char> { if n < 0 { seq!['-'] + decimal(-n) } else { decimal(n) } }
pub trait Shown { spec fn shown(&self) -> Seq<char>; }
impl Shown for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for i32 { open spec fn shown(&self) -> Seq<char> { signed(*self as int) } }
impl Shown for u32 { open spec fn shown(&self) -> Seq<char> { signed(*self as int) } }
impl Shown for i64 { open spec fn shown(&self) -> Seq<char> { signed(*self as int) } }
impl Shown for u64 { open spec fn shown(&self) -> Seq<char> { signed(*self as int) } }
impl Shown for usize { open spec fn shown(&self) -> Seq<char> { signed(*self as int) } }
impl<'a, T: Shown + ?Sized> Shown for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
#[verifier::external_body]
pub fn show<T: Shown + ?Sized>(t: &mut String, x: &T)
    ensures final(t)@ == old(t)@ + x.shown(),
{ unimplemented!() }
pub assume_specification[ String::len ](s: &String) -> (r: usize)
    ensures r == vstd::utf8::encode_utf8(s@).len(),
;
