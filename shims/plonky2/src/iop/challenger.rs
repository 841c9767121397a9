use std::marker::PhantomData;
use crate::field::extension::{Extendable, FieldExtension};
use crate::field::polynomial::PolynomialCoeffs;
use crate::fri::proof::*;
use crate::fri::structure::*;
use crate::fri::FriConfig;
use crate::hash::hash_types::*;
use crate::hash::hashing::PlonkyPermutation;
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::target::*;
use crate::plonk::circuit_builder::CircuitBuilder;
use crate::plonk::config::*;

#[derive(Clone)]
pub struct Challenger<F: RichField, H: Hasher<F>> {
    sponge_state: H::Permutation,
    input_buffer: Vec<F>,
    output_buffer: Vec<F>,
}
impl<F: RichField, H: Hasher<F>> Default for Challenger<F, H> { fn default() -> Self { Self::new() } }
impl<F: RichField, H: Hasher<F>> Challenger<F, H> {
    pub fn new() -> Self { Self { sponge_state: H::Permutation::new(core::iter::repeat(F::ZERO)), input_buffer: vec![], output_buffer: vec![] } }
    pub fn observe_element(&mut self, e: F) {
        self.output_buffer.clear();
        self.input_buffer.push(e);
        if self.input_buffer.len() == H::Permutation::RATE { self.duplexing(); }
    }
    pub fn observe_elements(&mut self, es: &[F]) { for e in es { self.observe_element(*e); } }
    pub fn observe_extension_element<const D: usize>(&mut self, e: &F::Extension) where F: Extendable<D> { self.observe_elements(&e.to_basefield_array()); }
    pub fn observe_extension_elements<const D: usize>(&mut self, es: &[F::Extension]) where F: Extendable<D> { for e in es { self.observe_extension_element(e); } }
    pub fn observe_hash<OH: Hasher<F>>(&mut self, h: OH::Hash) { self.observe_elements(&h.to_vec()); }
    pub fn observe_cap<OH: Hasher<F>>(&mut self, c: &MerkleCap<F, OH>) { for h in &c.0 { self.observe_elements(&h.to_vec()); } }
    pub fn observe_openings<const D: usize>(&mut self, o: &FriOpenings<F, D>) where F: Extendable<D> { for b in &o.batches { self.observe_extension_elements(&b.values); } }
    pub fn get_challenge(&mut self) -> F {
        if !self.input_buffer.is_empty() || self.output_buffer.is_empty() { self.duplexing(); }
        let c = self.output_buffer.pop().unwrap();
        DRAWS.with(|d| d.borrow_mut().push(c.to_canonical_u64()));
        c
    }
    pub fn get_n_challenges(&mut self, n: usize) -> Vec<F> { (0..n).map(|_| self.get_challenge()).collect() }
    pub fn get_extension_challenge<const D: usize>(&mut self) -> F::Extension where F: Extendable<D> {
        F::Extension::from_basefield_array(self.get_n_challenges(D).try_into().unwrap())
    }
    fn duplexing(&mut self) {
        self.sponge_state.set_from_slice(&self.input_buffer, 0);
        self.input_buffer.clear();
        self.sponge_state.permute();
        self.output_buffer = self.sponge_state.squeeze().to_vec();
    }
    pub fn compact(&mut self) -> H::Permutation {
        if !self.input_buffer.is_empty() { self.duplexing(); }
        self.output_buffer.clear();
        self.sponge_state
    }
    pub fn fri_challenges<C: GenericConfig<D, F = F>, const D: usize>(&mut self, caps: &[MerkleCap<F, C::Hasher>], final_poly: &PolynomialCoeffs<F::Extension>, pow: F, _degree_bits: usize, _config: &FriConfig) -> FriChallenges<F, D>
    where F: RichField + Extendable<D> {
        let fri_alpha = self.get_extension_challenge::<D>();
        for c in caps { self.observe_cap(c); }
        self.observe_extension_elements(&final_poly.coeffs);
        self.observe_element(pow);
        let fri_pow_response = self.get_challenge();
        FriChallenges { fri_alpha, fri_betas: vec![], fri_pow_response, fri_query_indices: vec![] }
    }
}

pub struct RecursiveChallenger<F: RichField + Extendable<D>, H: AlgebraicHasher<F>, const D: usize> {
    state: [Target; 12],
    input_buffer: Vec<Target>,
    output_buffer: Vec<Target>,
    _p: PhantomData<(F, H)>,
}
impl<F: RichField + Extendable<D>, H: AlgebraicHasher<F>, const D: usize> RecursiveChallenger<F, H, D> {
    pub fn new(b: &mut CircuitBuilder<F, D>) -> Self { let z = b.zero(); Self::from_state([z; 12]) }
    pub fn from_state(state: [Target; 12]) -> Self { Self { state, input_buffer: vec![], output_buffer: vec![], _p: PhantomData } }
    pub fn observe_element(&mut self, t: Target) { self.output_buffer.clear(); self.input_buffer.push(t); }
    pub fn observe_elements(&mut self, ts: &[Target]) { for t in ts { self.observe_element(*t); } }
    pub fn observe_hash(&mut self, h: &HashOutTarget) { self.observe_elements(&h.elements); }
    pub fn observe_cap(&mut self, c: &MerkleCapTarget) { for h in &c.0 { self.observe_hash(h); } }
    pub fn observe_extension_element(&mut self, e: ExtensionTarget<D>) { self.observe_elements(&e.0); }
    pub fn observe_extension_elements(&mut self, es: &[ExtensionTarget<D>]) { for e in es { self.observe_extension_element(*e); } }
    pub fn observe_openings(&mut self, o: &FriOpeningsTarget<D>) { for b in &o.batches { self.observe_extension_elements(&b.values); } }
    fn absorb(&mut self, b: &mut CircuitBuilder<F, D>) {
        if self.input_buffer.is_empty() { return; }
        for c in self.input_buffer.chunks(8) {
            self.state[..c.len()].copy_from_slice(c);
            self.state = b.permute(self.state);
        }
        self.output_buffer = self.state[..8].to_vec();
        self.input_buffer.clear();
    }
    pub fn get_challenge(&mut self, b: &mut CircuitBuilder<F, D>) -> Target {
        self.absorb(b);
        if self.output_buffer.is_empty() {
            self.state = b.permute(self.state);
            self.output_buffer = self.state[..8].to_vec();
        }
        self.output_buffer.pop().unwrap()
    }
    pub fn get_n_challenges(&mut self, b: &mut CircuitBuilder<F, D>, n: usize) -> Vec<Target> { (0..n).map(|_| self.get_challenge(b)).collect() }
    pub fn get_extension_challenge(&mut self, b: &mut CircuitBuilder<F, D>) -> ExtensionTarget<D> { self.get_n_challenges(b, D).try_into().unwrap() }
    pub fn compact(&mut self, b: &mut CircuitBuilder<F, D>) -> [Target; 12] {
        self.absorb(b);
        self.output_buffer.clear();
        self.state
    }
    pub fn fri_challenges(&mut self, b: &mut CircuitBuilder<F, D>, caps: &[MerkleCapTarget], final_poly: &PolynomialCoeffsExtTarget<D>, pow: Target, _config: &FriConfig) -> FriChallengesTarget<D> {
        let fri_alpha = self.get_extension_challenge(b);
        for c in caps { self.observe_cap(c); }
        self.observe_extension_elements(&final_poly.0);
        self.observe_element(pow);
        let fri_pow_response = self.get_challenge(b);
        FriChallengesTarget { fri_alpha, fri_betas: vec![], fri_pow_response, fri_query_indices: vec![] }
    }
}

thread_local! { pub static DRAWS: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(vec![]) }; }
/// The challenges drawn by native challengers of this thread since the last call.
pub fn take_draws() -> Vec<u64> { DRAWS.with(|d| std::mem::take(&mut *d.borrow_mut())) }
