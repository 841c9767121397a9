use super::packed::PackedField;
use super::types::Field;
pub struct ZeroPolyOnCoset<F: Field> { inverses: Vec<F> }
impl<F: Field> ZeroPolyOnCoset<F> {
    pub fn new(n_log: usize, rate_bits: usize) -> Self {
        let g = F::coset_shift().exp_power_of_2(n_log);
        Self { inverses: F::two_adic_subgroup(rate_bits).into_iter().map(|x| (g * x - F::ONE).inverse()).collect() }
    }
    pub fn eval_inverse(&self, i: usize) -> F { self.inverses[i % self.inverses.len()] }
    pub fn eval_inverse_packed<P: PackedField<Scalar = F>>(&self, i: usize) -> P { self.eval_inverse(i).into() }
}
