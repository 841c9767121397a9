//! Development only: lets the repository's node tests run under the stand-ins.
pub mod test_utils { pub const fn fast_test_circuit_config() -> plonky2::plonk::circuit_data::CircuitConfig { plonky2::plonk::circuit_data::CircuitConfig::standard_recursion_config() } }
