use std::collections::HashMap;
use std::sync::Arc;

use crate::field::extension::{Extendable, FieldExtension};
use crate::fri::structure::{FriOpenings, FriOpeningsTarget};
use crate::field::types::Field;
use crate::hash::hash_types::*;
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::target::*;
use crate::plonk::circuit_data::*;
use crate::plonk::config::*;
use crate::plonk::proof::*;

#[derive(Clone, Debug)]
pub struct PartialWitness<F: Field> {
    pub target_values: HashMap<Target, F>,
    pub(crate) proofs: HashMap<usize, Arc<MockProof>>,
    pub(crate) fri: FriData,
}
impl<F: Field> Default for PartialWitness<F> { fn default() -> Self { Self::new() } }
impl<F: Field> PartialWitness<F> {
    pub fn new() -> Self { Self { target_values: HashMap::new(), proofs: HashMap::new(), fri: HashMap::new() } }
}

pub trait WitnessWrite<F: Field> {
    fn set_target(&mut self, target: Target, value: F);
    fn set_mock_proof(&mut self, id: usize, p: Arc<MockProof>);
    fn set_mock_fri(&mut self, id: usize, p: Arc<Vec<Vec<u64>>>);
    fn set_extension_target<const D: usize>(&mut self, t: ExtensionTarget<D>, v: F::Extension) where F: RichField + Extendable<D> {
        self.set_target_arr(&t.0, &v.to_basefield_array());
    }
    fn set_extension_targets<const D: usize>(&mut self, t: &[ExtensionTarget<D>], v: &[F::Extension]) where F: RichField + Extendable<D> {
        for (t, v) in t.iter().zip(v) { self.set_extension_target(*t, *v); }
    }
    fn set_fri_openings<const D: usize>(&mut self, t: &FriOpeningsTarget<D>, v: &FriOpenings<F, D>) where F: RichField + Extendable<D> {
        for (t, v) in t.batches.iter().zip(&v.batches) {
            for (t, v) in t.values.iter().zip(&v.values) {
                // Constant zero limbs (openings in the base field) are not set.
                self.set_extension_target_loose(*t, *v);
            }
        }
    }
    #[doc(hidden)]
    fn set_extension_target_loose<const D: usize>(&mut self, t: ExtensionTarget<D>, v: F::Extension) where F: RichField + Extendable<D> { self.set_extension_target(t, v) }

    fn set_hash_target(&mut self, ht: HashOutTarget, value: HashOut<F>) {
        ht.elements.iter().zip(value.elements).for_each(|(&t, x)| self.set_target(t, x));
    }
    fn set_cap_target<H: AlgebraicHasher<F>>(&mut self, ct: &MerkleCapTarget, value: &MerkleCap<F, H>)
    where F: RichField {
        for (ht, h) in ct.0.iter().zip(&value.0) { self.set_hash_target(*ht, *h); }
    }
    fn set_bool_target(&mut self, target: BoolTarget, value: bool) { self.set_target(target.target, F::from_bool(value)) }
    fn set_target_arr(&mut self, targets: &[Target], values: &[F]) {
        assert_eq!(targets.len(), values.len());
        targets.iter().zip(values).for_each(|(&t, &v)| self.set_target(t, v));
    }
    fn set_proof_with_pis_target<C: GenericConfig<D, F = F>, const D: usize>(
        &mut self, pt: &ProofWithPublicInputsTarget<D>, p: &ProofWithPublicInputs<F, C, D>,
    ) where F: RichField + Extendable<D>, C::Hasher: AlgebraicHasher<F> {
        assert_eq!(pt.public_inputs.len(), p.public_inputs.len());
        for (t, v) in pt.public_inputs.iter().zip(&p.public_inputs) { self.set_target(*t, *v); }
        self.set_mock_proof(pt.proof.id, Arc::new(p.proof.mock.clone()));
    }
    fn set_verifier_data_target<C: GenericConfig<D, F = F>, const D: usize>(
        &mut self, vdt: &VerifierCircuitTarget, vd: &VerifierOnlyCircuitData<C, D>,
    ) where F: RichField + Extendable<D>, C::Hasher: AlgebraicHasher<F> {
        self.set_cap_target(&vdt.constants_sigmas_cap, &vd.constants_sigmas_cap);
        self.set_hash_target(vdt.circuit_digest, vd.circuit_digest);
    }
}
pub trait Witness<F: Field>: WitnessWrite<F> {
    fn try_get_target(&self, target: Target) -> Option<F>;
    fn get_target(&self, target: Target) -> F { self.try_get_target(target).unwrap() }
    fn get_targets(&self, t: &[Target]) -> Vec<F> { t.iter().map(|&t| self.get_target(t)).collect() }
    fn get_bool_target(&self, t: BoolTarget) -> bool { self.get_target(t.target).is_one() }
    fn get_hash_target(&self, h: HashOutTarget) -> HashOut<F> { HashOut { elements: h.elements.map(|t| self.get_target(t)) } }
}
impl<F: Field> WitnessWrite<F> for PartialWitness<F> {
    fn set_target(&mut self, target: Target, value: F) {
        let old = self.target_values.insert(target, value);
        if let Some(old) = old {
            assert_eq!(value, old, "Target {target:?} was set twice with different values: {old} != {value}");
        }
    }
    fn set_mock_fri(&mut self, id: usize, p: Arc<Vec<Vec<u64>>>) { self.fri.insert(id, p); }
    fn set_mock_proof(&mut self, id: usize, p: Arc<MockProof>) { self.proofs.insert(id, p); }
}
impl<F: Field> Witness<F> for PartialWitness<F> {
    fn try_get_target(&self, target: Target) -> Option<F> { self.target_values.get(&target).copied() }
}
