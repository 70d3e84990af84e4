pub mod asn1;
pub mod gen;
pub mod model;
pub mod refper;
pub mod spec;
pub mod tape;
pub mod zoo;
