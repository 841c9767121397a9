use plonky2::fri::{FriConfig, FriParams};
#[derive(Debug, Clone, Eq, PartialEq)]
pub struct StarkConfig { pub security_bits: usize, pub num_challenges: usize, pub fri_config: FriConfig }
impl Default for StarkConfig { fn default() -> Self { Self::standard_fast_config() } }
impl StarkConfig {
    pub const fn new(security_bits: usize, num_challenges: usize, fri_config: FriConfig) -> Self { Self { security_bits, num_challenges, fri_config } }
    pub const fn standard_fast_config() -> Self {
        Self { security_bits: 100, num_challenges: 2, fri_config: FriConfig { rate_bits: 1, cap_height: 4, proof_of_work_bits: 16, reduction_strategy: plonky2::fri::reduction_strategies::FriReductionStrategy::ConstantArityBits(4, 5), num_query_rounds: 84 } }
    }
    pub fn fri_params(&self, degree_bits: usize) -> FriParams { self.fri_config.fri_params(degree_bits, false) }
}
