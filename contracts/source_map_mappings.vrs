// Stand-in for the crate source-map-mappings 0.5.0: its public data types and
// contracts for the functions the code under contract calls.  tools/depgen.py
// discharges the same contracts on the crate's registry source in each run
// (contracts/dep/mappings.dep); the executable replay runs the real crate too.
//@ hasstub source_map_mappings::Mapping source_map_mappings::OriginalLocation source_map_mappings::Bias source_map_mappings::Error source_map_mappings::Mappings source_map_mappings::parse_mappings
use vstd::std_specs::iter::IteratorSpec;

pub struct Mapping {
    pub generated_line: u32, pub generated_column: u32, pub last_generated_column: Option<u32>, pub original: Option<OriginalLocation>,
}
pub struct OriginalLocation {
    pub source: u32, pub original_line: u32, pub original_column: u32, pub name: Option<u32>,
}
#[derive(Clone, Copy)]
pub enum Bias { GreatestLowerBound, LeastUpperBound }
#[verifier::external_body]
pub struct Error { x: u8 }
#[verifier::external]
impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
#[verifier::external_body]
pub struct Mappings { x: u8 }

#[verifier::external]
impl Clone for Mapping { fn clone(&self) -> Self { unimplemented!() } }
pub assume_specification[ <Mapping as Clone>::clone ](a: &Mapping) -> (r: Mapping)
    ensures r == *a;
#[verifier::external]
impl Clone for OriginalLocation { fn clone(&self) -> Self { unimplemented!() } }
pub assume_specification[ <OriginalLocation as Clone>::clone ](a: &OriginalLocation) -> (r: OriginalLocation)
    ensures r == *a;

/// a mapping without its column span
pub ghost struct Core { pub line: int, pub column: int, pub original: Option<OriginalLocation> }
pub open spec fn core(m: Mapping) -> Core {
    Core { line: m.generated_line as int, column: m.generated_column as int, original: m.original }
}
pub open spec fn cores(s: Seq<Mapping>) -> Seq<Core> { s.map_values(|m: Mapping| core(m)) }
pub broadcast proof fn lemma_cores_push(s: Seq<Mapping>, m: Mapping)
    ensures #[trigger] cores(s.push(m)) == cores(s).push(core(m)),
{ assert(cores(s.push(m)) =~= cores(s).push(core(m))); }
pub broadcast proof fn lemma_cores_empty(s: Seq<Mapping>)
    requires s.len() == 0,
    ensures #[trigger] cores(s) == Seq::<Core>::empty(),
{ assert(cores(s) =~= Seq::<Core>::empty()); }
pub broadcast proof fn lemma_skip_push(s: Seq<Mapping>, n: int, m: Mapping)
    requires 0 <= n <= s.len(),
    ensures #[trigger] s.push(m).skip(n) == s.skip(n).push(m),
{ assert(s.push(m).skip(n) =~= s.skip(n).push(m)); }
pub broadcast group group_cores { lemma_cores_push, lemma_cores_empty, lemma_skip_push, crate::vshim::lemma_take_all }
/// position order
pub open spec fn before(l1: int, c1: int, l2: int, c2: int) -> bool { l1 < l2 || (l1 == l2 && c1 < c2) }

impl Mappings {
    /// all mappings, in generated order, without their column spans; no
    /// operation changes it
    pub uninterp spec fn all(&self) -> Seq<Core>;
    /// whether the mappings have their column spans
    pub uninterp spec fn computed(&self) -> bool;
}
pub open spec fn gen_sorted(s: Seq<Core>) -> bool {
    forall|i: int, j: int| 0 <= i <= j < s.len() ==> !before((#[trigger] s[j]).line, s[j].column, (#[trigger] s[i]).line, s[i].column)
}
// ---- the reader: the meaning of a "mappings" string for this crate (None: refused)
/// the value of a base 64 digit
pub open spec fn rd_digit(b: u8) -> Option<u8> {
    if 65 <= b <= 90 { Some((b - 65) as u8) }
    else if 97 <= b <= 122 { Some((b - 97 + 26) as u8) }
    else if 48 <= b <= 57 { Some((b - 48 + 52) as u8) }
    else if b == 43 { Some(62u8) }
    else if b == 47 { Some(63u8) }
    else { None }
}
/// the rest of a number whose first digits amount to acc, and what follows it
#[verifier::opaque]
pub open spec fn rd_number(b: Seq<u8>, acc: u64, shift: u8) -> Option<(u64, Seq<u8>)>
    decreases b.len()
{
    if b.len() == 0 || rd_digit(b[0]) is None || shift >= 64 { None }
    else {
        let d = rd_digit(b[0])->0;
        let v = ((d & 31) as u64) << (shift as u64);
        if acc + v > u64::MAX { None }
        else if d & 32 == 0 { Some(((acc + v) as u64, b.skip(1))) }
        else { rd_number(b.skip(1), (acc + v) as u64, (shift + 5) as u8) }
    }
}
pub open spec fn rd_signed(a: u64) -> int { if a % 2 == 1 { -(a as int / 2) } else { a as int / 2 } }
/// a field: its difference from the last one
pub open spec fn rd_field(prev: int, b: Seq<u8>) -> Option<(int, Seq<u8>)> {
    match rd_number(b, 0, 0) {
        Some(p) => if 0 <= prev + rd_signed(p.0) <= u32::MAX { Some((prev + rd_signed(p.0), p.1)) } else { None },
        None => None,
    }
}
pub ghost struct Reading {
    pub line: int, pub column: int, pub source: int, pub oline: int, pub ocolumn: int, pub name: int,
    /// the lines before, each in order; this line as it stands in the string
    pub done: Seq<Core>, pub now: Seq<Core>,
}
pub open spec fn rd_end(b: Seq<u8>) -> bool { b.len() == 0 || b[0] == 59 || b[0] == 44 }
#[verifier::opaque]
pub open spec fn rd_segment(b0: Seq<u8>, r: Reading) -> Option<(Reading, Seq<u8>)> {
    match rd_field(r.column, b0) { None => None, Some((column, b1)) =>
        if rd_end(b1) { Some((Reading { column, now: r.now.push(Core { line: r.line, column, original: None }), ..r }, b1)) }
        else { match rd_field(r.source, b1) { None => None, Some((source, b2)) =>
            match rd_field(r.oline, b2) { None => None, Some((oline, b3)) =>
                match rd_field(r.ocolumn, b3) { None => None, Some((ocolumn, b4)) =>
                    if rd_end(b4) {
                        let o = OriginalLocation { source: source as u32, original_line: oline as u32, original_column: ocolumn as u32, name: None };
                        Some((Reading { column, source, oline, ocolumn, now: r.now.push(Core { line: r.line, column, original: Some(o) }), ..r }, b4))
                    } else { match rd_field(r.name, b4) { None => None, Some((name, b5)) => {
                        let o = OriginalLocation { source: source as u32, original_line: oline as u32, original_column: ocolumn as u32, name: Some(name as u32) };
                        Some((Reading { column, source, oline, ocolumn, name, now: r.now.push(Core { line: r.line, column, original: Some(o) }), ..r }, b5))
                    } } } } } } }
    }
}
/// the order of a line's mappings
pub open spec fn rd_num(a: int, b: int) -> int { if a < b { -1 } else if a > b { 1 } else { 0 } }
pub open spec fn rd_lex(a: int, b: int) -> int { if a != 0 { a } else { b } }
pub open spec fn rd_opt(a: Option<u32>, b: Option<u32>) -> int {
    match (a, b) { (None, None) => 0, (None, Some(_)) => -1, (Some(_), None) => 1, (Some(x), Some(y)) => rd_num(x as int, y as int) }
}
pub open spec fn rd_orig(a: Option<OriginalLocation>, b: Option<OriginalLocation>) -> int {
    match (a, b) { (None, None) => 0, (Some(_), None) => -1, (None, Some(_)) => 1,
        (Some(x), Some(y)) => rd_lex(rd_num(x.source as int, y.source as int), rd_lex(rd_num(x.original_line as int, y.original_line as int),
            rd_lex(rd_num(x.original_column as int, y.original_column as int), rd_opt(x.name, y.name)))) }
}
pub open spec fn rd_leq() -> spec_fn(Core, Core) -> bool {
    |a: Core, b: Core| rd_lex(rd_num(a.line, b.line), rd_lex(rd_num(a.column, b.column), rd_orig(a.original, b.original))) <= 0
}
pub proof fn lemma_rd_order()
    ensures vstd::relations::total_ordering(rd_leq()),
{
    let r = rd_leq();
    assert forall|a: Core, b: Core| #[trigger] r(a, b) && #[trigger] r(b, a) implies a == b by {}
    assert forall|a: Core, b: Core, c: Core| #[trigger] r(a, b) && #[trigger] r(b, c) implies r(a, c) by {}
}
pub open spec fn rd_sorted(s: Seq<Core>) -> Seq<Core> { s.sort_by(rd_leq()) }
pub open spec fn rd_newline(r: Reading) -> Reading {
    Reading { line: r.line + 1, column: 0, done: r.done + rd_sorted(r.now), now: Seq::empty(), ..r }
}
#[verifier::opaque]
pub open spec fn reading(b: Seq<u8>, r: Reading) -> Option<Seq<Core>>
    decreases b.len()
{
    if b.len() == 0 { Some(r.done + rd_sorted(r.now)) }
    else if b[0] == 59 { reading(b.skip(1), rd_newline(r)) }
    else if b[0] == 44 { reading(b.skip(1), r) }
    else { match rd_segment(b, r) {
        Some((r2, b2)) => if b2.len() < b.len() { reading(b2, r2) } else { None },
        None => None,
    } }
}
pub open spec fn rd_start() -> Reading {
    Reading { line: 0, column: 0, source: 0, oline: 0, ocolumn: 0, name: 0, done: Seq::empty(), now: Seq::empty() }
}
#[verifier::opaque]
pub open spec fn parsed(bytes: Seq<u8>) -> Option<Seq<Core>> { reading(bytes, rd_start()) }

#[verifier::external_body]
pub fn parse_mappings<O>(input: &[u8]) -> (r: Result<Mappings, Error>)
    ensures r is Ok <==> parsed(input@) is Some,
        r is Ok ==> r->Ok_0.all() == parsed(input@)->0 && gen_sorted(r->Ok_0.all()),
{ unimplemented!() }

// ---- nearest mappings
pub open spec fn at_gen(x: Core, l: int, c: int) -> bool { x.line == l && x.column == c }
pub open spec fn of_source(x: Core, s: int) -> bool { x.original is Some && x.original->0.source == s }
pub open spec fn at_orig(x: Core, s: int, l: int, c: int) -> bool {
    of_source(x, s) && x.original->0.original_line == l && x.original->0.original_column == c
}
pub open spec fn orig_before(x: Core, l: int, c: int) -> bool {
    before(x.original->0.original_line as int, x.original->0.original_column as int, l, c)
}
pub open spec fn orig_after(x: Core, l: int, c: int) -> bool {
    before(l, c, x.original->0.original_line as int, x.original->0.original_column as int)
}
pub open spec fn orig_le(x: Core, y: Core) -> bool {
    !before(y.original->0.original_line as int, y.original->0.original_column as int, x.original->0.original_line as int, x.original->0.original_column as int)
}
/// the group asked for by all_generated_locations_for
pub open spec fn in_group(all: Seq<Core>, s: int, l: int, c: Option<u32>, x: Core) -> bool {
    &&& of_source(x, s)
    &&& match c {
        Some(c) => x.original->0.original_line == l && x.original->0.original_column >= c
            && forall|y: Core| #[trigger] all.contains(y) && of_source(y, s) && y.original->0.original_line == l && y.original->0.original_column >= c
                ==> x.original->0.original_column <= y.original->0.original_column,
        None => x.original->0.original_line >= l
            && forall|y: Core| #[trigger] all.contains(y) && of_source(y, s) && y.original->0.original_line >= l
                ==> x.original->0.original_line <= y.original->0.original_line,
    }
}
pub open spec fn opt_core(r: Option<&Mapping>) -> Option<Core> { match r { Some(m) => Some(core(*m)), None => None } }
/// original_location_for: an exact match, else the closest by the bias
pub open spec fn gen_found(all: Seq<Core>, l: int, c: int, bias: Bias, r: Option<Core>) -> bool {
    &&& r is Some ==> all.contains(r->0)
    &&& if exists|x: Core| #[trigger] all.contains(x) && at_gen(x, l, c) { r is Some && at_gen(r->0, l, c) } else {
        match (bias, r) {
            (Bias::GreatestLowerBound, Some(m)) => before(m.line, m.column, l, c)
                && forall|x: Core| #[trigger] all.contains(x) && before(x.line, x.column, l, c) ==> !before(m.line, m.column, x.line, x.column),
            (Bias::GreatestLowerBound, None) => forall|x: Core| #[trigger] all.contains(x) ==> !before(x.line, x.column, l, c),
            (Bias::LeastUpperBound, Some(m)) => before(l, c, m.line, m.column)
                && forall|x: Core| #[trigger] all.contains(x) && before(l, c, x.line, x.column) ==> !before(x.line, x.column, m.line, m.column),
            (Bias::LeastUpperBound, None) => forall|x: Core| #[trigger] all.contains(x) ==> !before(l, c, x.line, x.column),
        }
    }
}
/// generated_location_for: inside the source an exact match, else the closest
/// by the bias; when the source has none, possibly a mapping of another source
pub open spec fn orig_found(all: Seq<Core>, s: int, l: int, c: int, bias: Bias, r: Option<Core>) -> bool {
    &&& r is Some ==> all.contains(r->0) && r->0.original is Some
    &&& if exists|x: Core| #[trigger] all.contains(x) && at_orig(x, s, l, c) { r is Some && at_orig(r->0, s, l, c) } else {
        match bias {
            Bias::GreatestLowerBound =>
                if exists|x: Core| #[trigger] all.contains(x) && of_source(x, s) && orig_before(x, l, c) {
                    &&& r is Some && of_source(r->0, s) && orig_before(r->0, l, c)
                    &&& forall|x: Core| #[trigger] all.contains(x) && of_source(x, s) && orig_before(x, l, c) ==> orig_le(x, r->0)
                } else { r is Some ==> !of_source(r->0, s) },
            Bias::LeastUpperBound =>
                if exists|x: Core| #[trigger] all.contains(x) && of_source(x, s) && orig_after(x, l, c) {
                    &&& r is Some && of_source(r->0, s) && orig_after(r->0, l, c)
                    &&& forall|x: Core| #[trigger] all.contains(x) && of_source(x, s) && orig_after(x, l, c) ==> orig_le(r->0, x)
                } else { r is Some ==> !of_source(r->0, s) },
        }
    }
}
/// a mapping's column span, if there is one, ends where a mapping of its line starts
pub open spec fn span_ok(all: Seq<Core>, m: Mapping) -> bool {
    m.last_generated_column is Some ==> exists|y: Core| #[trigger] all.contains(y) && y.line == m.generated_line && y.column == m.last_generated_column->0
}
pub open spec fn spans_ok(all: Seq<Core>, s: Seq<Mapping>) -> bool { forall|k: int| 0 <= k < s.len() ==> span_ok(all, #[trigger] s[k]) }
/// where the span of the k-th mapping ends: at the next mapping of its line
pub open spec fn ends_at(all: Seq<Core>, k: int, o: Option<u32>) -> bool {
    if k + 1 < all.len() && all[k + 1].line == all[k].line { o is Some && o->0 == all[k + 1].column } else { o is None }
}
/// a mapping of the document with its span
pub open spec fn exact(all: Seq<Core>, m: Mapping) -> bool {
    exists|k: int| 0 <= k < all.len() && #[trigger] all[k] == core(m) && ends_at(all, k, m.last_generated_column)
}
pub proof fn lemma_exact_span(all: Seq<Core>, m: Mapping)
    requires exact(all, m),
    ensures span_ok(all, m),
{
    let j = choose|j: int| 0 <= j < all.len() && #[trigger] all[j] == core(m) && ends_at(all, j, m.last_generated_column);
    if m.last_generated_column is Some { assert(all.contains(all[j + 1])); }
}
/// the same, or no span, if they are not computed yet
pub open spec fn span_is(all: Seq<Core>, m: Mapping, computed: bool) -> bool {
    exact(all, m) || (!computed && m.last_generated_column is None)
}
pub open spec fn all_exact(all: Seq<Core>, s: Seq<Mapping>) -> bool { forall|k: int| 0 <= k < s.len() ==> exact(all, #[trigger] s[k]) }
pub open spec fn all_span_is(all: Seq<Core>, s: Seq<Mapping>, computed: bool) -> bool { forall|k: int| 0 <= k < s.len() ==> span_is(all, #[trigger] s[k], computed) }
pub open spec fn seen_exact(all: Seq<Core>, s: Seq<&Mapping>) -> bool { forall|k: int| 0 <= k < s.len() ==> exact(all, *(#[trigger] s[k])) }
/// the whole document, each mapping with its span (or none with one, if they are not computed yet)
pub open spec fn spans_at(all: Seq<Core>, s: Seq<Mapping>, computed: bool) -> bool {
    forall|k: int| 0 <= k < s.len() ==> if computed { ends_at(all, k, (#[trigger] s[k]).last_generated_column) } else { s[k].last_generated_column is None }
}
pub open spec fn seen_spans_ok(all: Seq<Core>, s: Seq<&Mapping>) -> bool { forall|k: int| 0 <= k < s.len() ==> span_ok(all, *(#[trigger] s[k])) }
#[verifier::prophetic]
pub open spec fn iterates(it: core::slice::Iter<'_, Mapping>) -> bool {
    it.obeys_prophetic_iter_laws() && it.will_return_none() && it.decrease() is Some
}
#[verifier::prophetic]
pub open spec fn yielded(it: core::slice::Iter<'_, Mapping>) -> Seq<Core> { seen(it.remaining()) }
/// the references a slice iterator yields, one by one
pub broadcast proof fn lemma_seen(s: Seq<&Mapping>, v: Seq<Mapping>)
    requires s.len() == v.len(), forall|k: int| 0 <= k < s.len() ==> *(#[trigger] s[k]) == v[k],
    ensures #![trigger seen(s), cores(v)] seen(s) == cores(v),
{ assert(seen(s) =~= cores(v)); }
pub open spec fn seen(s: Seq<&Mapping>) -> Seq<Core> { s.map_values(|m: &Mapping| core(*m)) }

impl Mappings {
    #[verifier::external_body]
    pub fn by_generated_location(&self) -> (r: &[Mapping])
        ensures cores(r@) == self.all(), spans_ok(self.all(), r@), spans_at(self.all(), r@, self.computed()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn by_original_location(&mut self) -> (r: core::slice::Iter<'_, Mapping>)
        ensures final(self).all() == old(self).all(), final(self).computed(),
            iterates(r), seen_spans_ok(old(self).all(), r.remaining()), seen_exact(old(self).all(), r.remaining()),
            yielded(r).to_multiset() == old(self).all().filter(|x: Core| x.original is Some).to_multiset(),
            // by source, then original line, then original column
            forall|i: int, j: int| 0 <= i <= j < yielded(r).len() ==> #[trigger] orig_order(yielded(r)[i], yielded(r)[j]),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn compute_column_spans(&mut self)
        ensures final(self).all() == old(self).all(), final(self).computed(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn original_location_for(&self, generated_line: u32, generated_column: u32, bias: Bias) -> (r: Option<&Mapping>)
        ensures gen_found(self.all(), generated_line as int, generated_column as int, bias, opt_core(r)),
            r is Some ==> span_ok(self.all(), *r->0) && span_is(self.all(), *r->0, self.computed()),
    { unimplemented!() }

    /// inside the source: exact, else the closest by the bias; when the source
    /// has none, possibly a mapping of a neighbouring source
    #[verifier::external_body]
    pub fn generated_location_for(&mut self, source: u32, original_line: u32, original_column: u32, bias: Bias) -> (r: Option<&Mapping>)
        requires source < u32::MAX,
        ensures final(self).all() == old(self).all(), final(self).computed(),
            orig_found(old(self).all(), source as int, original_line as int, original_column as int, bias, opt_core(r)),
            r is Some ==> span_ok(old(self).all(), *r->0) && exact(old(self).all(), *r->0),
    { unimplemented!() }

    /// (the real iterator type is private; here a slice iterator over what it yields)
    #[verifier::external_body]
    pub fn all_generated_locations_for(&mut self, source: u32, original_line: u32, original_column: Option<u32>) -> (r: core::slice::Iter<'_, Mapping>)
        ensures final(self).all() == old(self).all(), final(self).computed(),
            iterates(r), seen_spans_ok(old(self).all(), r.remaining()), seen_exact(old(self).all(), r.remaining()),
            yielded(r).to_multiset() == old(self).all().filter(|x: Core| in_group(old(self).all(), source as int, original_line as int, original_column, x)).to_multiset(),
    { unimplemented!() }
}
pub open spec fn orig_order(x: Core, y: Core) -> bool {
    x.original is Some && y.original is Some && (
        x.original->0.source < y.original->0.source
        || (x.original->0.source == y.original->0.source && orig_le(x, y)))
}
