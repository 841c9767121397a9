use std::sync::Arc;
use crate::field::extension::Extendable;
use crate::field::types::PrimeField64;
use crate::fri::proof::*;
use crate::hash::hash_types::RichField;
use crate::iop::witness::WitnessWrite;
use crate::plonk::config::AlgebraicHasher;
pub fn set_fri_proof_target<F: RichField + Extendable<D>, W: WitnessWrite<F> + ?Sized, H: AlgebraicHasher<F>, const D: usize>(
    witness: &mut W, t: &FriProofTarget<D>, p: &FriProof<F, H, D>,
) {
    witness.set_target(t.pow_witness, p.pow_witness);
    witness.set_mock_fri(t.id, Arc::new(p.query_round_proofs[0].initial_trees_proof.evals_proofs.iter().map(|(d, _)| d.iter().map(|x| x.to_canonical_u64()).collect()).collect()));
}
