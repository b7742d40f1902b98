//@ type Mapping
//@ fn Mapping::derived_clone
    ensures r == *self,
//@ end
