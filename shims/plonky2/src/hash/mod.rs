pub mod hash_types;
pub mod hashing;
pub mod poseidon2;
pub mod merkle_tree;
pub mod poseidon { pub use super::poseidon2::PoseidonHash; }
