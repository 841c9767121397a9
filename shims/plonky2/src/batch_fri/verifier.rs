use anyhow::Result;
use crate::field::extension::Extendable;
use crate::fri::proof::*;
use crate::fri::structure::*;
use crate::fri::FriParams;
use crate::hash::hash_types::RichField;
use crate::hash::merkle_tree::MerkleCap;
use crate::plonk::config::*;
pub fn verify_batch_fri_proof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
    degree_bits: &[usize], instances: &[FriInstanceInfo<F, D>], openings: &[FriOpenings<F, D>], _ch: &FriChallenges<F, D>,
    caps: &[MerkleCap<F, C::Hasher>], proof: &FriProof<F, C::Hasher, D>, params: &FriParams,
) -> Result<()> {
    crate::fri::verifier::verify_groups::<F, C, D>(degree_bits, instances, openings, caps, proof, params)
}
