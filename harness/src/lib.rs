//! Property-based testing and fuzzing harness for cubing.rs. See /verif/DESIGN.md.
pub mod alloc;
pub use vpcov as cov;
pub mod engine;
pub mod gen;
pub mod model;
pub mod props;
pub mod supervisor;
