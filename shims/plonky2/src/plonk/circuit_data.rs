use std::collections::{BTreeMap, HashMap};
use std::marker::PhantomData;
use std::sync::Arc;

use anyhow::{anyhow, ensure, Result};
use serde::{Deserialize, Serialize};

use crate::field::extension::Extendable;
use crate::field::types::{Field, PrimeField64};
use crate::fri::FriConfig;
use crate::gates::gate::GateRef;
use crate::hash::hash_types::*;
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::target::*;
use crate::iop::witness::*;
use crate::plonk::circuit_builder::Op;
use crate::plonk::config::*;
use crate::plonk::proof::*;

#[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
pub struct CircuitConfig {
    pub num_wires: usize,
    pub num_routed_wires: usize,
    pub num_constants: usize,
    pub use_base_arithmetic_gate: bool,
    pub security_bits: usize,
    pub num_challenges: usize,
    pub zero_knowledge: bool,
    pub max_quotient_degree_factor: usize,
    pub fri_config: FriConfig,
}
impl CircuitConfig {
    pub const fn standard_recursion_config() -> Self {
        Self {
            num_wires: 135, num_routed_wires: 80, num_constants: 2, use_base_arithmetic_gate: true,
            security_bits: 100, num_challenges: 2, zero_knowledge: false, max_quotient_degree_factor: 8,
            fri_config: FriConfig { rate_bits: 3, cap_height: 4, proof_of_work_bits: 16, reduction_strategy: crate::fri::reduction_strategies::FriReductionStrategy::ConstantArityBits(4, 5), num_query_rounds: 28 },
        }
    }
    pub const fn standard_recursion_zk_config() -> Self { let mut c = Self::standard_recursion_config(); c.zero_knowledge = true; c }
    pub const fn num_advice_wires(&self) -> usize { self.num_wires - self.num_routed_wires }
}
impl Default for CircuitConfig { fn default() -> Self { Self::standard_recursion_config() } }

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct CommonCircuitData<F: RichField + Extendable<D>, const D: usize> {
    pub config: CircuitConfig,
    pub gates: Vec<GateRef>,
    pub num_public_inputs: usize,
    pub _f: PhantomData<F>,
}
impl<F: RichField + Extendable<D>, const D: usize> CommonCircuitData<F, D> {
    // Sizes carry no meaning in the mock; any small power of two will do.
    pub const fn degree_bits(&self) -> usize { 3 }
    pub const fn degree(&self) -> usize { 8 }
}

#[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct VerifierOnlyCircuitData<C: GenericConfig<D>, const D: usize> {
    pub constants_sigmas_cap: MerkleCap<C::F, C::Hasher>,
    pub circuit_digest: <C::Hasher as Hasher<C::F>>::Hash,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VerifierCircuitTarget { pub constants_sigmas_cap: MerkleCapTarget, pub circuit_digest: HashOutTarget }

#[derive(Debug, PartialEq)]
pub struct ProverOnlyCircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub public_inputs: Vec<Target>,
    pub(crate) ops: Vec<Op<F>>,
    pub(crate) rep: Vec<usize>,
    pub(crate) _p: PhantomData<C>,
}

#[derive(Debug, PartialEq)]
pub struct CircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub prover_only: ProverOnlyCircuitData<F, C, D>,
    pub verifier_only: VerifierOnlyCircuitData<C, D>,
    pub common: CommonCircuitData<F, D>,
}
#[derive(Debug, Clone)]
pub struct VerifierCircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub verifier_only: VerifierOnlyCircuitData<C, D>,
    pub common: CommonCircuitData<F, D>,
}

pub(crate) struct Wires<'a, F> {
    pub(crate) rep: &'a [usize],
    pub(crate) vals: Vec<Option<F>>,
}
impl<F: Field> Wires<'_, F> {
    pub fn get(&self, t: Target) -> Option<F> { self.vals[self.rep[t.0]] }
    pub fn full(&self, t: Target) -> F { self.get(t).unwrap_or(F::ZERO) }
    pub fn set(&mut self, t: Target, v: F) {
        let r = self.rep[t.0];
        if let Some(old) = self.vals[r] {
            assert!(old == v, "Partition containing {t:?} was set twice with different values: {old} != {v}");
        }
        self.vals[r] = Some(v);
    }
}

impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> Eq for CircuitData<F, C, D> {}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> CircuitData<F, C, D> {
    pub fn digest(&self) -> [u64; 4] {
        let v = self.verifier_only.circuit_digest.to_vec();
        core::array::from_fn(|i| v[i].to_canonical_u64())
    }
    pub fn prove(&self, inputs: PartialWitness<F>) -> Result<ProofWithPublicInputs<F, C, D>> {
        let p = &self.prover_only;
        let mut w = Wires { rep: &p.rep, vals: vec![None; p.rep.len()] };
        let mut given: Vec<_> = inputs.target_values.iter().collect();
        given.sort_by_key(|(t, _)| **t);
        for (t, v) in given { w.set(*t, *v); }
        // generators, to a fixpoint
        let mut pending: Vec<usize> = (0..p.ops.len()).collect();
        loop {
            let before = pending.len();
            pending.retain(|&i| !p.ops[i].run(&mut w));
            if pending.is_empty() || pending.len() == before { break; }
        }
        assert!(pending.is_empty(), "{} generators weren't run", pending.len());
        for op in &p.ops { op.check::<D>(&w, &inputs.proofs, &inputs.fri)?; }
        let public_inputs: Vec<F> = p.public_inputs.iter().map(|t| w.full(*t)).collect();
        latest::note(self.digest(), &public_inputs);
        crate::plonk::forge::after(self, &inputs, &w.vals, &public_inputs.iter().map(|f| f.to_canonical_u64()).collect::<Vec<_>>());
        Ok(ProofWithPublicInputs {
            proof: Proof {
                mock: MockProof { digest: self.digest(), public_inputs: public_inputs.iter().map(|f| f.to_canonical_u64()).collect() },
                _p: PhantomData,
            },
            public_inputs,
        })
    }
    pub fn verify(&self, proof: ProofWithPublicInputs<F, C, D>) -> Result<()> {
        ensure!(proof.public_inputs.len() == self.common.num_public_inputs, "Number of public inputs doesn't match circuit data.");
        ensure!(proof.proof.mock.digest == self.digest(), "mock: proof is for another circuit");
        ensure!(
            proof.public_inputs.iter().map(|f| f.to_canonical_u64()).collect::<Vec<_>>() == proof.proof.mock.public_inputs,
            "mock: public inputs were changed"
        );
        Ok(())
    }
    pub fn verifier_data(&self) -> VerifierCircuitData<F, C, D> {
        VerifierCircuitData { verifier_only: self.verifier_only.clone(), common: self.common.clone() }
    }
}
pub(crate) type Proofs = HashMap<usize, Arc<MockProof>>;
pub(crate) type FriData = HashMap<usize, Arc<Vec<Vec<u64>>>>;
pub(crate) fn fail<T>(what: &str) -> Result<T> { Err(anyhow!("mock: constraint violated: {}", &what[..what.len().min(300)])) }
pub type _B = BTreeMap<(), ()>;

/// Lets a driver see proofs the code under test keeps to itself: the public inputs of
/// the latest proof of each circuit, by the circuit's digest.
pub mod latest {
    use std::cell::RefCell;
    use super::*;
    thread_local! { static MAP: RefCell<Option<HashMap<[u64; 4], Vec<u64>>>> = RefCell::new(None); }
    pub fn start() { MAP.with(|m| *m.borrow_mut() = Some(HashMap::new())); }
    pub fn of(digest: [u64; 4]) -> Option<Vec<u64>> { MAP.with(|m| m.borrow().as_ref().and_then(|m| m.get(&digest).cloned())) }
    pub fn proof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(digest: [u64; 4]) -> Option<ProofWithPublicInputs<F, C, D>> {
        Some(with_inputs(digest, of(digest)?))
    }
    pub fn with_inputs<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(digest: [u64; 4], v: Vec<u64>) -> ProofWithPublicInputs<F, C, D> {
        let public_inputs = v.iter().map(|x| F::from_canonical_u64(*x)).collect();
        ProofWithPublicInputs { proof: Proof { mock: MockProof { digest, public_inputs: v }, _p: PhantomData }, public_inputs }
    }
    pub(crate) fn note<F: PrimeField64>(digest: [u64; 4], inputs: &[F]) {
        MAP.with(|m| if let Some(m) = m.borrow_mut().as_mut() {
            m.insert(digest, inputs.iter().map(|e| e.to_canonical_u64()).collect());
        });
    }
}
