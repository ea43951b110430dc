pub mod alg;
pub mod dict;
pub mod puz;
