use serde::{Deserialize, Serialize};
use crate::field::extension::Extendable;
use crate::field::polynomial::PolynomialCoeffs;
use crate::hash::hash_types::*;
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::ext_target::ExtensionTarget;
use crate::iop::target::Target;
use crate::plonk::config::Hasher;

#[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
#[serde(bound = "")]
pub struct MerkleProof<F: RichField, H: Hasher<F>> { pub siblings: Vec<H::Hash> }
#[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
#[serde(bound = "")]
pub struct FriInitialTreeProof<F: RichField, H: Hasher<F>> {
    /// here: all coefficients of the oracle's polynomials, in order
    pub evals_proofs: Vec<(Vec<F>, MerkleProof<F, H>)>,
}
#[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
#[serde(bound = "")]
pub struct FriQueryRound<F: RichField + Extendable<D>, H: Hasher<F>, const D: usize> { pub initial_trees_proof: FriInitialTreeProof<F, H> }
#[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
#[serde(bound = "")]
pub struct FriProof<F: RichField + Extendable<D>, H: Hasher<F>, const D: usize> {
    pub commit_phase_merkle_caps: Vec<MerkleCap<F, H>>,
    pub query_round_proofs: Vec<FriQueryRound<F, H, D>>,
    pub final_poly: PolynomialCoeffs<F::Extension>,
    pub pow_witness: F,
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct MerkleProofTarget { pub siblings: Vec<HashOutTarget> }
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct FriInitialTreeProofTarget { pub evals_proofs: Vec<(Vec<Target>, MerkleProofTarget)> }
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct FriQueryRoundTarget<const D: usize> { pub initial_trees_proof: FriInitialTreeProofTarget }
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct PolynomialCoeffsExtTarget<const D: usize>(pub Vec<ExtensionTarget<D>>);
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct FriProofTarget<const D: usize> {
    pub commit_phase_merkle_caps: Vec<MerkleCapTarget>,
    pub query_round_proofs: Vec<FriQueryRoundTarget<D>>,
    pub final_poly: PolynomialCoeffsExtTarget<D>,
    pub pow_witness: Target,
    pub(crate) id: usize,
}
#[derive(Debug)]
pub struct FriChallenges<F: RichField + Extendable<D>, const D: usize> {
    pub fri_alpha: F::Extension,
    pub fri_betas: Vec<F::Extension>,
    pub fri_pow_response: F,
    pub fri_query_indices: Vec<usize>,
}
#[derive(Debug)]
pub struct FriChallengesTarget<const D: usize> {
    pub fri_alpha: ExtensionTarget<D>,
    pub fri_betas: Vec<ExtensionTarget<D>>,
    pub fri_pow_response: Target,
    pub fri_query_indices: Vec<Target>,
}
