// Stand-in for the serde traits the derived code of SourceMapJson, Section and
// Position is written against (and for serde_json's implementations of them):
// values of the data model are JSON trees; objects keep their members in order.
//@ hasstub serde::Serializer
pub ghost enum J { Null, Bool(bool), Int(int), Real(int), Str(Seq<char>), Arr(Seq<J>), Obj(Seq<(Seq<char>, J)>) }

/// arrays and objects are nested at most n deep
pub open spec fn depth_le(j: J, n: nat) -> bool
    decreases n
{
    match j {
        J::Arr(s) => n > 0 && forall|i: int| 0 <= i < s.len() ==> depth_le(#[trigger] s[i], (n - 1) as nat),
        J::Obj(s) => n > 0 && forall|i: int| 0 <= i < s.len() ==> depth_le((#[trigger] s[i]).1, (n - 1) as nat),
        _ => true,
    }
}

/// how often a name occurs among the members of an object, and what it then stands for
pub ghost enum Slot { Absent, Once(J), Many }
pub open spec fn stepped(p: Slot, e: (Seq<char>, J), k: Seq<char>) -> Slot {
    if e.0 != k { p } else if p is Absent { Slot::Once(e.1) } else { Slot::Many }
}
pub open spec fn slot(s: Seq<(Seq<char>, J)>, k: Seq<char>) -> Slot
    decreases s.len()
{
    if s.len() == 0 { Slot::Absent } else { stepped(slot(s.drop_last(), k), s.last(), k) }
}

/// what Serialize for T writes, what Deserialize for T reads (and makes of a member that is not there)
pub uninterp spec fn enc<T>(v: T) -> J;
pub uninterp spec fn dec<T>(j: J) -> Option<T>;
pub uninterp spec fn absent<T>() -> Option<T>;
/// what the visitor of a field identifier makes of a name
pub uninterp spec fn field_of<F>(k: Seq<char>) -> F;

/// the member named k of an object, read as a T
pub open spec fn look<T>(s: Seq<(Seq<char>, J)>, k: Seq<char>) -> Option<T> {
    match slot(s, k) { Slot::Absent => absent::<T>(), Slot::Once(j) => dec::<T>(j), Slot::Many => None }
}
/// a member that is left out when there is no value
pub open spec fn opt_member<T>(s: Seq<(Seq<char>, J)>, k: Seq<char>, v: Option<T>) -> bool {
    slot(s, k) == match v { Some(x) => Slot::Once(enc::<T>(x)), None => Slot::Absent }
}

// ---- serde's own implementations for the types of the fields (assumed)
#[verifier::external_body]
pub broadcast proof fn axiom_i32(v: i32)
    ensures #![trigger enc::<i32>(v)] enc::<i32>(v) == J::Int(v as int), dec::<i32>(J::Int(v as int)) == Some(v),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_string(v: String)
    ensures #![trigger enc::<String>(v)] enc::<String>(v) == J::Str(v@), dec::<String>(J::Str(v@)) == Some(v),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_option_enc<T>(v: Option<T>)
    ensures #[trigger] enc::<Option<T>>(v) == (match v { Some(x) => enc::<T>(x), None => J::Null }),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_option_dec<T>(j: J)
    ensures #[trigger] dec::<Option<T>>(j) == (if j is Null { Some(None) } else { match dec::<T>(j) { Some(x) => Some(Some(x)), None => None } }),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_vec_enc<T>(v: Vec<T>)
    ensures #[trigger] enc::<Vec<T>>(v) == J::Arr(v@.map_values(|x: T| enc::<T>(x))),
{}
/// reading an array whose elements read as those of v gives v
#[verifier::external_body]
pub proof fn axiom_vec_dec<T>(v: Vec<T>, s: Seq<J>)
    requires s.len() == v@.len(), forall|i: int| 0 <= i < s.len() ==> dec::<T>(#[trigger] s[i]) == Some(v@[i]),
    ensures dec::<Vec<T>>(J::Arr(s)) == Some(v),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_box<T>(v: Box<T>)
    ensures #[trigger] enc::<Box<T>>(v) == enc::<T>(*v),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_box_dec<T>(j: J)
    ensures #[trigger] dec::<Box<T>>(j) == (match dec::<T>(j) { Some(x) => Some(Box::new(x)), None => None }),
{}
/// a member that is not there is a null where the type allows one, else an error
#[verifier::external_body]
pub broadcast proof fn axiom_absent_option<T>()
    ensures #[trigger] absent::<Option<T>>() == Some(None::<T>),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_absent_i32()
    ensures #[trigger] absent::<i32>() is None,
{}
pub broadcast group group_serde { axiom_i32, axiom_string, axiom_option_enc, axiom_option_dec, axiom_vec_enc, axiom_box, axiom_box_dec, axiom_absent_option, axiom_absent_i32 }

// ---- the functions the derived code calls (assumed)
#[verifier::external_body]
pub struct Error { x: u8 }
#[verifier::external_body]
pub struct Serializer { x: u8 }
#[verifier::external_body]
pub struct Written { x: u8 }
impl Written { pub uninterp spec fn json(&self) -> J; }
#[verifier::external_body]
pub struct StructWriter { x: u8 }
impl StructWriter { pub uninterp spec fn members(&self) -> Seq<(Seq<char>, J)>; }
/// (the announced number of members only says whether there are any)
#[verifier::external_body]
pub fn serialize_struct(s: Serializer, name: &'static str, len: usize) -> (r: Result<StructWriter, Error>)
    requires len > 0,
    ensures r is Ok, r->Ok_0.members() == Seq::<(Seq<char>, J)>::empty(),
{ unimplemented!() }
#[verifier::external_body]
pub fn serialize_field<T>(w: &mut StructWriter, key: &'static str, v: &T) -> (r: Result<(), Error>)
    ensures r is Ok, final(w).members() == old(w).members().push((key@, enc::<T>(*v))),
{ unimplemented!() }
#[verifier::external_body]
pub fn skip_field(w: &mut StructWriter, key: &'static str) -> (r: Result<(), Error>)
    ensures r is Ok, final(w).members() == old(w).members(),
{ unimplemented!() }
#[verifier::external_body]
pub fn end(w: StructWriter) -> (r: Result<Written, Error>)
    ensures r is Ok, r->Ok_0.json() == J::Obj(w.members()),
{ unimplemented!() }

pub ghost struct Reading { pub all: Seq<(Seq<char>, J)>, pub pos: int, pub pending: bool }
#[verifier::external_body]
pub struct MapAccess { x: u8 }
impl View for MapAccess {
    type V = Reading;
    uninterp spec fn view(&self) -> Reading;
}
#[verifier::external_body]
pub struct IgnoredAny { x: u8 }
#[verifier::external_body]
pub broadcast proof fn axiom_ignored(j: J)
    ensures #[trigger] dec::<IgnoredAny>(j) is Some,
{}
#[verifier::external_body]
pub fn next_key<F>(m: &mut MapAccess) -> (r: Result<Option<F>, Error>)
    requires !old(m)@.pending, 0 <= old(m)@.pos <= old(m)@.all.len(),
    ensures r is Ok, final(m)@.all == old(m)@.all,
        old(m)@.pos == old(m)@.all.len() ==> r->Ok_0 is None && final(m)@ == old(m)@,
        old(m)@.pos < old(m)@.all.len() ==> r->Ok_0 == Some(field_of::<F>(old(m)@.all[old(m)@.pos].0))
            && final(m)@.pos == old(m)@.pos + 1 && final(m)@.pending,
{ unimplemented!() }
#[verifier::external_body]
pub fn next_value<T>(m: &mut MapAccess) -> (r: Result<T, Error>)
    requires old(m)@.pending, 0 < old(m)@.pos <= old(m)@.all.len(),
    ensures final(m)@.all == old(m)@.all, final(m)@.pos == old(m)@.pos, !final(m)@.pending,
        match dec::<T>(old(m)@.all[old(m)@.pos - 1].1) { Some(v) => r == Ok::<T, Error>(v), None => r is Err },
{ unimplemented!() }
#[verifier::external_body]
pub fn missing_field<T>(name: &'static str) -> (r: Result<T, Error>)
    ensures match absent::<T>() { Some(v) => r == Ok::<T, Error>(v), None => r is Err },
{ unimplemented!() }
#[verifier::external_body]
pub fn duplicate_field(name: &'static str) -> Error
{ unimplemented!() }
#[verifier::external_body]
pub fn unknown_field(name: &str, known: &'static [&'static str]) -> Error
{ unimplemented!() }

// ---- facts about members
pub proof fn lemma_slot_push(s: Seq<(Seq<char>, J)>, e: (Seq<char>, J), k: Seq<char>)
    ensures slot(s.push(e), k) == stepped(slot(s, k), e, k),
{ assert(s.push(e).drop_last() =~= s); }
pub broadcast proof fn lemma_slot_pushed(s: Seq<(Seq<char>, J)>, e: (Seq<char>, J), k: Seq<char>)
    ensures #[trigger] slot(s.push(e), k) == stepped(slot(s, k), e, k),
{ lemma_slot_push(s, e, k); }
pub broadcast proof fn lemma_slot_empty(k: Seq<char>)
    ensures #[trigger] slot(Seq::<(Seq<char>, J)>::empty(), k) == Slot::Absent,
{}
/// one member more is read; and what is wrong with the members read so far stays wrong
pub proof fn lemma_reading(all: Seq<(Seq<char>, J)>, i: int)
    requires 0 <= i < all.len(),
    ensures
        forall|k: Seq<char>| #[trigger] slot(all.take(i + 1), k) == stepped(slot(all.take(i), k), all[i], k),
        forall|k: Seq<char>| #[trigger] slot(all, k) == slot(all.take(i + 1), k) || !(slot(all.take(i + 1), k) is Absent) && slot(all, k) is Many
            || slot(all.take(i + 1), k) is Absent,
{
    assert(all.take(i + 1) =~= all.take(i).push(all[i]));
    assert forall|k: Seq<char>| #[trigger] slot(all.take(i + 1), k) == stepped(slot(all.take(i), k), all[i], k) by {
        lemma_slot_push(all.take(i), all[i], k);
    }
    assert forall|k: Seq<char>| #[trigger] slot(all, k) == slot(all.take(i + 1), k) || !(slot(all.take(i + 1), k) is Absent) && slot(all, k) is Many
            || slot(all.take(i + 1), k) is Absent by {
        lemma_persist(all, i + 1, k);
    }
}
pub proof fn lemma_persist(all: Seq<(Seq<char>, J)>, i: int, k: Seq<char>)
    requires 0 <= i <= all.len(),
    ensures slot(all, k) == slot(all.take(i), k) || slot(all.take(i), k) is Absent || slot(all, k) is Many,
    decreases all.len() - i
{
    if i == all.len() { assert(all.take(i) =~= all); }
    else {
        lemma_persist(all, i + 1, k);
        assert(all.take(i + 1) =~= all.take(i).push(all[i]));
        lemma_slot_push(all.take(i), all[i], k);
    }
}
pub broadcast group group_members { lemma_slot_pushed, lemma_slot_empty }
