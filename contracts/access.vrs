// Access to a consumer by its kind, and consumers handed to a callback (property C22).
//@ use crate::util::*
//@ use crate::consumer::*
//@ use crate::indexed::*
//@ use crate::source_map::SourceMapJson
//@ use crate::serde_json
//@ use crate::serde_json::json_value
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::vshim::group_strings};

// ------------------------------------------------------------ by kind
//@ fn Consumer::as_basic_consumer
    requires self is BasicConsumer,
    ensures *r == self->BasicConsumer_0,
//@. refuse
    requires !(self is BasicConsumer),
//@ end
//@ fn Consumer::as_indexed_consumer
    requires self is IndexedConsumer,
    ensures *r == self->IndexedConsumer_0,
//@. refuse
    requires !(self is IndexedConsumer),
//@ end
//@ fn Consumer::as_basic_consumer_mut
    requires *old(self) is BasicConsumer,
    ensures *r == (*old(self))->BasicConsumer_0, *final(self) == Consumer::BasicConsumer(*final(r)),
//@. refuse
    requires !(*old(self) is BasicConsumer),
//@ end
//@ fn Consumer::as_indexed_consumer_mut
    requires *old(self) is IndexedConsumer,
    ensures *r == (*old(self))->IndexedConsumer_0, *final(self) == Consumer::IndexedConsumer(*final(r)),
//@. refuse
    requires !(*old(self) is IndexedConsumer),
//@ end
//@ fn Consumer::try_as_basic_consumer
    ensures r is Some <==> self is BasicConsumer, r is Some ==> *r->0 == self->BasicConsumer_0,
//@ end
//@ fn Consumer::try_as_indexed_consumer
    ensures r is Some <==> self is IndexedConsumer, r is Some ==> *r->0 == self->IndexedConsumer_0,
//@ end
//@ fn Consumer::try_as_basic_consumer_mut
    ensures match r {
        Some(b) => *old(self) == Consumer::BasicConsumer(*b) && *final(self) == Consumer::BasicConsumer(*final(b)),
        None => !(*old(self) is BasicConsumer) && *final(self) == *old(self),
    },
//@ end
//@ fn Consumer::try_as_indexed_consumer_mut
    ensures match r {
        Some(b) => *old(self) == Consumer::IndexedConsumer(*b) && *final(self) == Consumer::IndexedConsumer(*final(b)),
        None => !(*old(self) is IndexedConsumer) && *final(self) == *old(self),
    },
//@ end

// ------------------------------------------------------------ handed to a callback
/// a consumer as `new` builds it from a text and a url
pub open spec fn basic_of(c: BasicConsumer, raw: Seq<char>, url: Seq<char>) -> bool {
    c.wf() && json_value::<SourceMapJson>(raw) == Some(c.source_map) && opt_string(c.source_map_url) == Some(url)
}
pub open spec fn indexed_of(c: IndexedConsumer, raw: Seq<char>, url: Seq<char>) -> bool {
    c.wf() && json_value::<SourceMapJson>(raw) is Some && built(c, json_value::<SourceMapJson>(raw)->0, Some(url))
}
// the callback is an `FnOnce`: it cannot be called twice; that it is called, with this consumer, is the contract
//@ fn BasicConsumer::consume
    requires json_value::<SourceMapJson>(source_map_raw@) is Some, doc_ok(json_value::<SourceMapJson>(source_map_raw@)->0),
        forall|c: BasicConsumer| basic_of(c, source_map_raw@, source_map_url@) ==> #[trigger] f.requires((c,)),
    ensures exists|c: BasicConsumer| basic_of(c, source_map_raw@, source_map_url@) && #[trigger] f.ensures((c,), ()),
//@ end
//@ fn IndexedConsumer::consume
    requires json_value::<SourceMapJson>(source_map_raw@) is Some,
        sec_doc_ok(json_value::<SourceMapJson>(source_map_raw@)->0), accepted(json_value::<SourceMapJson>(source_map_raw@)->0),
        forall|c: IndexedConsumer| indexed_of(c, source_map_raw@, source_map_url@) ==> #[trigger] f.requires((c,)),
    ensures exists|c: IndexedConsumer| indexed_of(c, source_map_raw@, source_map_url@) && #[trigger] f.ensures((c,), ()),
//@. refuse
    requires json_value::<SourceMapJson>(source_map_raw@) is Some,
        sec_doc_ok(json_value::<SourceMapJson>(source_map_raw@)->0), !accepted(json_value::<SourceMapJson>(source_map_raw@)->0),
//@. refuse_calls
    IndexedConsumer::new Self::new
//@ end
