//! Stand-ins for program proofs: circuits with a program proof's public inputs, each of
//! them tied to one program identifier.
use mozak_node::{C, D, F};
use mozak_recproofs::circuits::verify_program::core::ProgramPublicIndices;
use mozak_recproofs::indices::{ArrayTargetIndex, BoolTargetIndex, HashOutTargetIndex};
use mozak_recproofs::test_utils::CONFIG;
use mozak_sdk::common::types::{CanonicalEvent, EventType, Poseidon2Hash, ProgramIdentifier, StateAddress};
use plonky2::field::types::{Field, PrimeField64};
use plonky2::gates::noop::NoopGate;
use plonky2::hash::hash_types::{HashOut, HashOutTarget};
use plonky2::iop::target::{BoolTarget, Target};
use plonky2::iop::witness::{PartialWitness, WitnessWrite};
use plonky2::plonk::circuit_builder::CircuitBuilder;
use plonky2::plonk::circuit_data::CircuitData;
use plonky2::plonk::proof::ProofWithPublicInputs;

pub type VmProof = ProofWithPublicInputs<F, C, D>;

pub struct Program {
    pub id: [F; 4],
    program_hash: [Target; 4],
    events_present: BoolTarget,
    event_root: HashOutTarget,
    call_list: [Target; 4],
    cast_root: HashOutTarget,
    pub circuit: CircuitData<F, C, D>,
}
impl Program {
    pub fn new(id: [u64; 4]) -> Self {
        let id = id.map(F::from_canonical_u64);
        let mut builder = CircuitBuilder::<F, D>::new(CONFIG.clone());
        let program_hash = builder.add_virtual_target_arr();
        let events_present = builder.add_virtual_bool_target_safe();
        let event_root = builder.add_virtual_hash();
        let call_list = builder.add_virtual_target_arr();
        let cast_root = builder.add_virtual_hash();
        builder.register_public_inputs(&program_hash);
        builder.register_public_input(events_present.target);
        builder.register_public_inputs(&event_root.elements);
        builder.register_public_inputs(&call_list);
        builder.register_public_inputs(&cast_root.elements);
        for (p, c) in program_hash.into_iter().zip(id) {
            let c = builder.constant(c);
            builder.connect(p, c);
        }
        builder.add_gate(NoopGate, vec![]);
        while builder.num_gates() < (1 << 3) { builder.add_gate(NoopGate, vec![]); }
        let circuit = builder.build();
        Self { id, program_hash, events_present, event_root, call_list, cast_root, circuit }
    }
    pub fn indices(&self) -> ProgramPublicIndices {
        let p = &self.circuit.prover_only.public_inputs;
        ProgramPublicIndices {
            program_hash: ArrayTargetIndex::new(p, &self.program_hash),
            events_present: BoolTargetIndex::new(p, self.events_present),
            event_root: HashOutTargetIndex::new(p, self.event_root),
            call_list: ArrayTargetIndex::new(p, &self.call_list),
            cast_root: HashOutTargetIndex::new(p, self.cast_root),
        }
    }
    pub fn prove(&self, event_root: Option<HashOut<F>>, call_list: [F; 4], cast_root: HashOut<F>) -> VmProof {
        let mut w = PartialWitness::new();
        w.set_bool_target(self.events_present, event_root.is_some());
        w.set_hash_target(self.event_root, event_root.unwrap_or_default());
        w.set_target_arr(&self.call_list, &call_list);
        w.set_hash_target(self.cast_root, cast_root);
        self.circuit.prove(w).unwrap()
    }
    pub fn pid(&self) -> ProgramIdentifier { ProgramIdentifier(self.id.map(|x| x.to_canonical_u64()).into()) }
}
pub fn hash_of(h: Poseidon2Hash) -> HashOut<F> { HashOut::from(h.to_u64s().map(F::from_canonical_u64)) }
pub fn cast_root(cast: &[ProgramIdentifier]) -> HashOut<F> {
    hash_of(mozak_node::block_proposer::reduce_tree(cast.iter().map(|p| p.0), |x| x, |x| x, Poseidon2Hash::two_to_one).unwrap())
}
/// the root of a program's events as the virtual machine commits to it
pub fn event_root(events: &[CanonicalEvent]) -> Option<HashOut<F>> {
    (!events.is_empty()).then(|| {
        hash_of(mozak_sdk::common::merkle::merkleize(events.iter().map(|e| (u64::from_le_bytes(e.address.0), e.canonical_hash())).collect()))
    })
}
pub fn event(a: u64, type_: EventType, value: [u64; 4]) -> CanonicalEvent {
    CanonicalEvent { address: StateAddress(a.to_le_bytes()), type_, value: value.into() }
}
pub const TYPES: [EventType; 5] = [EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner];
