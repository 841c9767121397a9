//! A *transparent* polynomial commitment: the "cap" is a digest of the
//! coefficients, the opening proof carries the polynomials themselves, and the
//! verifier recomputes the digest, the degrees and every opening.  It accepts
//! exactly the openings that belong to the committed low-degree polynomials,
//! which is what FRI guarantees (up to negligible error) in the real library.
use serde::{Deserialize, Serialize};
pub mod oracle;
pub mod proof;
pub mod structure;
pub mod verifier;
pub mod witness_util;
pub mod reduction_strategies {
    use serde::{Deserialize, Serialize};
    #[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize)]
    pub enum FriReductionStrategy {
        Fixed(Vec<usize>),
        ConstantArityBits(usize, usize),
        MinSize(Option<usize>),
    }
}
use reduction_strategies::FriReductionStrategy;
#[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize)]
pub struct FriConfig { pub rate_bits: usize, pub cap_height: usize, pub proof_of_work_bits: u32, pub reduction_strategy: FriReductionStrategy, pub num_query_rounds: usize }
impl FriConfig {
    pub const fn num_cap_elements(&self) -> usize { 1 << self.cap_height }
    pub fn fri_params(&self, degree_bits: usize, hiding: bool) -> FriParams {
        let mut reduction_arity_bits = vec![];
        if let FriReductionStrategy::ConstantArityBits(a, f) = self.reduction_strategy {
            let mut d = degree_bits;
            while d > f && d + self.rate_bits >= self.cap_height + a {
                reduction_arity_bits.push(a);
                d -= a;
            }
        }
        FriParams { config: self.clone(), hiding, degree_bits, reduction_arity_bits }
    }
}
#[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize)]
pub struct FriParams { pub config: FriConfig, pub hiding: bool, pub degree_bits: usize, pub reduction_arity_bits: Vec<usize> }
impl FriParams {
    pub fn total_arities(&self) -> usize { self.reduction_arity_bits.iter().sum() }
    pub fn lde_bits(&self) -> usize { self.degree_bits + self.config.rate_bits }
    pub fn lde_size(&self) -> usize { 1 << self.lde_bits() }
    pub fn final_poly_bits(&self) -> usize { self.degree_bits - self.total_arities() }
}
