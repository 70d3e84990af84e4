//! Wire world: nodes built from hampi's runtime and derive macro under a simulated network.
pub mod alloc;
pub mod engine;
pub mod node;
pub mod sim;
pub mod worker;

pub use asn1_codecs;
pub use bitvec;
pub use node::{entry, Entry, SimVal};
pub use simcore;
