broadcast use {crate::vshim::group_strings, crate::vshim::group_string_order};
use crate::source_map::Position;

pub open spec fn sgn(x: int) -> int { if x < 0 { -1 } else if x == 0 { 0 } else { 1 } }
pub open spec fn fits(x: int) -> bool { i32::MIN <= x <= i32::MAX }

/// order of optional strings: an absent one comes last
pub open spec fn opt_cmp(a: Option<String>, b: Option<String>) -> int {
    if a is None && b is None { 0 } else if a is None { 1 } else if b is None { -1 } else { seq_cmp(a->0@, b->0@) }
}
pub open spec fn pos_cmp(a: Position, b: Position) -> int {
    if a.line != b.line { sgn(a.line - b.line) } else { sgn(a.column - b.column) }
}
pub open spec fn orig_cmp(a: Option<Position>, b: Option<Position>) -> int {
    if a is Some && b is Some { pos_cmp(a->0, b->0) } else { 0 }
}
/// generated line, column, source, original line, column, name
pub open spec fn map_cmp(a: Mapping, b: Mapping) -> int {
    if pos_cmp(a.generated, b.generated) != 0 { pos_cmp(a.generated, b.generated) }
    else if opt_cmp(a.source, b.source) != 0 { opt_cmp(a.source, b.source) }
    else if orig_cmp(a.original, b.original) != 0 { orig_cmp(a.original, b.original) }
    else { opt_cmp(a.name, b.name) }
}
/// non-negative positions, source and original position present together
pub open spec fn plausible(m: Mapping) -> bool {
    &&& m.generated.line >= 0 && m.generated.column >= 0
    &&& m.original is Some ==> m.original->0.line >= 0 && m.original->0.column >= 0
    &&& m.source is Some <==> m.original is Some
}
pub open spec fn same_fields(a: Mapping, b: Mapping) -> bool {
    a.generated == b.generated && a.source == b.source && a.original == b.original && a.name == b.name
}

// ---- the comparison is a total order (C05)
pub proof fn lemma_opt_cmp(a: Option<String>, b: Option<String>)
    ensures (opt_cmp(a, b) == 0) == (a == b), opt_cmp(a, b) == -opt_cmp(b, a), -1 <= opt_cmp(a, b) <= 1, opt_cmp(a, a) == 0,
{
    if a is Some && b is Some {
        lemma_seq_cmp_zero(a->0@, b->0@);
        lemma_seq_cmp_antisym(a->0@, b->0@);
    }
    if a is Some { lemma_seq_cmp_zero(a->0@, a->0@); }
}
pub proof fn lemma_opt_cmp_trans(a: Option<String>, b: Option<String>, c: Option<String>)
    requires opt_cmp(a, b) <= 0, opt_cmp(b, c) <= 0,
    ensures opt_cmp(a, c) <= 0, opt_cmp(a, b) < 0 || opt_cmp(b, c) < 0 ==> opt_cmp(a, c) < 0,
{
    if a is Some && b is Some && c is Some { lemma_seq_cmp_trans(a->0@, b->0@, c->0@); }
}
pub proof fn lemma_map_cmp_refl_antisym(a: Mapping, b: Mapping)
    requires plausible(a), plausible(b),
    ensures map_cmp(a, a) == 0, map_cmp(a, b) == -map_cmp(b, a), -1 <= map_cmp(a, b) <= 1,
        (map_cmp(a, b) == 0) == same_fields(a, b),
{
    lemma_opt_cmp(a.source, b.source);
    lemma_opt_cmp(a.name, b.name);
    lemma_opt_cmp(a.source, a.source);
    lemma_opt_cmp(a.name, a.name);
}
pub proof fn lemma_map_cmp_trans(a: Mapping, b: Mapping, c: Mapping)
    requires plausible(a), plausible(b), plausible(c), map_cmp(a, b) <= 0, map_cmp(b, c) <= 0,
    ensures map_cmp(a, c) <= 0, map_cmp(a, b) < 0 || map_cmp(b, c) < 0 ==> map_cmp(a, c) < 0,
{
    lemma_opt_cmp(a.source, b.source);
    lemma_opt_cmp(b.source, c.source);
    lemma_opt_cmp(a.source, c.source);
    if opt_cmp(a.source, b.source) <= 0 && opt_cmp(b.source, c.source) <= 0 { lemma_opt_cmp_trans(a.source, b.source, c.source); }
    if opt_cmp(a.name, b.name) <= 0 && opt_cmp(b.name, c.name) <= 0 { lemma_opt_cmp_trans(a.name, b.name, c.name); }
}
/// the order of C05 restated for pairs of mappings at different/equal generated positions
pub proof fn lemma_map_cmp_pos(a: Mapping, b: Mapping)
    ensures map_cmp(a, b) <= 0 ==> pos_cmp(a.generated, b.generated) <= 0,
{}

//@ fn util::strcmp
    ensures sgn(r as int) == opt_cmp(a, b),
//@. at start
    proof {
        lemma_opt_cmp(a, b);
        if a is Some && b is Some { lemma_seq_cmp_zero(a->0@, b->0@); }
    }
//@ end

//@ fn util::compare_by_generated_pos_inflated
    ensures sgn(r as int) == map_cmp(*a, *b),
//@. at start
    proof { lemma_opt_cmp(a.source, b.source); lemma_opt_cmp(a.name, b.name); }
//@ end

// ---- URL resolution: decided in the url crate (property C19); here only a
// deterministic function of the texts
pub uninterp spec fn relative_spec(root: String, target: String) -> String;
pub uninterp spec fn source_url_spec(root: Option<Seq<char>>, url: Seq<char>, map_url: Option<Seq<char>>) -> String;

//@ fn util::relative
    ensures r == relative_spec(root, target),
//@. trusted
//@ end

//@ fn util::compute_source_url
    ensures r == source_url_spec(opt_text(source_root), source_url@, opt_text(source_map_url)),
//@. trusted
//@ end
pub open spec fn opt_text(s: Option<&str>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
pub open spec fn opt_string(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
