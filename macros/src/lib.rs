pub use cubing;
