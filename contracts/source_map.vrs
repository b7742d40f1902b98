//@ type SourceMapJson
//@ type Section
//@ type Position
impl Position { pub open spec fn default_post(r: Position) -> bool { r.line == 0 && r.column == 0 } }
// clone() of these types: the Clone implementation, as the compiler gets it after macro expansion
//@ fn Position::derived_clone
    ensures r == *self,
//@ end
//@ fn Section::derived_clone
    ensures r == *self,
//@ end
//@ fn SourceMapJson::derived_clone
    ensures r == *self,
//@. head
    broadcast use crate::vshim::cloned_vec;
//@ end
