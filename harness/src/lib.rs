pub mod model;
pub mod urlref;
pub mod jdoc;
pub mod urlmodel;
