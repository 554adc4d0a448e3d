//! sxcore: a verification-condition generator for generic Rust code.
//!
//! The code under contract is the real, compiled `vecmat` crate, instantiated at
//! the symbolic scalar type `E`: every arithmetic operation builds a term, every
//! comparison of terms is a decision that the engine resolves both ways (all paths
//! are enumerated), so one run of a contract yields obligations over terms that are
//! universally quantified over the scalar values.
pub mod nf;
pub mod term;
pub mod norm;
pub mod smt;
pub mod engine;
pub mod rng;
pub use engine::*;
pub use term::*;
