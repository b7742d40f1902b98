// Stand-in for the serde_json functions the code calls.  A text stands for a JSON
// tree (json_tree), a tree is read as a value by Deserialize (serde::dec), a value
// is written as a tree by Serialize (serde::enc).
//@ use crate::serde::*
//@ hasstub serde_json::from_str serde_json::to_string serde_json::Error
#[verifier::external_body]
pub struct Error { x: u8 }
#[verifier::external]
impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
/// the tree a JSON text is, if it is one
pub uninterp spec fn json_tree(s: Seq<char>) -> Option<J>;
/// the value from_str makes of a text, if any
pub uninterp spec fn json_value<T>(s: Seq<char>) -> Option<T>;
/// arrays and objects may be nested this deep (serde_json refuses deeper texts)
pub open spec fn max_depth() -> nat { 127 }
#[verifier::external_body]
pub proof fn axiom_json_value<T>(s: Seq<char>)
    ensures
        json_value::<T>(s) is Some ==> json_tree(s) is Some && dec::<T>(json_tree(s)->0) == json_value::<T>(s),
        json_tree(s) is Some && depth_le(json_tree(s)->0, max_depth()) ==> json_value::<T>(s) == dec::<T>(json_tree(s)->0),
{}
#[verifier::external_body]
pub fn from_str<T>(s: &str) -> (r: Result<T, Error>)
    ensures r is Ok <==> json_value::<T>(s@) is Some,
        r is Ok ==> r->Ok_0 == json_value::<T>(s@)->0,
{ unimplemented!() }
#[verifier::external_body]
pub fn to_string<T>(v: &T) -> (r: Result<String, Error>)
    ensures r is Ok, json_tree(r->Ok_0@) == Some(enc::<T>(*v)),
{ unimplemented!() }
