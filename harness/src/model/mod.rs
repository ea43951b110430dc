pub mod alg;
pub mod cube;
pub mod puz;
