//! Executable contracts: shared runner, exact oracles and generators.
//! Everything here is independent of the code under test (it only uses its public types to build inputs).
pub mod geo;
pub mod gen;
pub mod run;
pub use geo::*;
pub use gen::*;
pub use run::*;
pub mod prob;
