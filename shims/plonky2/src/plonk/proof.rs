use std::marker::PhantomData;

use serde::{Deserialize, Serialize};

use crate::field::extension::Extendable;
use crate::hash::hash_types::RichField;
use crate::iop::target::Target;
use crate::plonk::config::GenericConfig;

/// What a mock proof attests: that the circuit with this digest was satisfied
/// with these public inputs.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct MockProof { pub digest: [u64; 4], pub public_inputs: Vec<u64> }

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Proof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub mock: MockProof,
    #[serde(skip)]
    pub(crate) _p: PhantomData<(F, C)>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct ProofWithPublicInputs<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub proof: Proof<F, C, D>,
    pub public_inputs: Vec<F>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ProofTarget<const D: usize> { pub(crate) id: usize }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ProofWithPublicInputsTarget<const D: usize> {
    pub proof: ProofTarget<D>,
    pub public_inputs: Vec<Target>,
}
