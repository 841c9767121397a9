use crate::field::extension::Extendable;
use crate::field::packed::PackedField;
use crate::field::polynomial::*;
use crate::fri::oracle::{cap, lde_rows, proof, Committed};
use crate::fri::proof::*;
use crate::fri::structure::*;
use crate::fri::FriParams;
use crate::hash::hash_types::*;
use crate::iop::challenger::Challenger;
use crate::plonk::config::*;
use crate::util::timing::TimingTree;
#[derive(Debug)]
pub struct BatchFriOracle<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub polynomials: Vec<PolynomialCoeffs<F>>,
    pub batch_merkle_tree: Committed<F, C::Hasher>,
    pub degree_bits: Vec<usize>,
    groups: Vec<Vec<Vec<F>>>,
}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> BatchFriOracle<F, C, D> {
    pub fn from_values(values: Vec<PolynomialValues<F>>, rate_bits: usize, blinding: bool, cap_height: usize, timing: &mut TimingTree, fft: &[Option<&()>]) -> Self {
        Self::from_coeffs(values.into_iter().map(|v| v.ifft()).collect(), rate_bits, blinding, cap_height, timing, fft)
    }
    pub fn from_coeffs(polynomials: Vec<PolynomialCoeffs<F>>, rate_bits: usize, _blinding: bool, cap_height: usize, _t: &mut TimingTree, _fft: &[Option<&()>]) -> Self {
        let mut degree_bits: Vec<usize> = polynomials.iter().map(|p| p.len().trailing_zeros() as usize).collect();
        assert!(degree_bits.windows(2).all(|p| p[0] >= p[1]));
        degree_bits.dedup();
        let groups = degree_bits.iter().map(|d| {
            let g: Vec<_> = polynomials.iter().filter(|p| p.len() == 1 << d).cloned().collect();
            lde_rows(&g, rate_bits)
        }).collect();
        Self { batch_merkle_tree: Committed { cap: cap(polynomials.iter().map(|p| &p.coeffs[..]), cap_height) }, polynomials, degree_bits, groups }
    }
    pub fn get_lde_values_packed<P: PackedField<Scalar = F>>(&self, degree_bits_index: usize, index: usize, step: usize, slice_start: usize, slice_len: usize) -> Vec<P> {
        self.groups[degree_bits_index][index * step][slice_start..slice_start + slice_len].iter().map(|x| (*x).into()).collect()
    }
    pub fn prove_openings(_d: &[usize], _i: &[FriInstanceInfo<F, D>], oracles: &[&Self], challenger: &mut Challenger<F, C::Hasher>, params: &FriParams, _t: &mut TimingTree) -> FriProof<F, C::Hasher, D> {
        proof::<F, C::Hasher, D>(oracles.iter().map(|o| o.polynomials.iter().flat_map(|p| p.coeffs.iter().copied()).collect()).collect(), params, challenger)
    }
}
