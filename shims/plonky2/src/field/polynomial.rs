use super::extension::{Extendable, FieldExtension};
use super::types::Field;

fn bit_reverse<T>(v: &mut [T]) {
    let n = v.len();
    let lg = n.trailing_zeros();
    if lg == 0 { return; }
    for i in 0..n {
        let j = i.reverse_bits() >> (usize::BITS - lg);
        if i < j { v.swap(i, j); }
    }
}
fn dft<F: Field>(mut v: Vec<F>, inverse: bool) -> Vec<F> {
    let n = v.len();
    assert!(n.is_power_of_two());
    let lg = n.trailing_zeros() as usize;
    bit_reverse(&mut v);
    let mut root = F::primitive_root_of_unity(lg);
    if inverse { root = root.inverse(); }
    let tw: Vec<F> = root.powers().take(n / 2).collect();
    let mut len = 2;
    while len <= n {
        let step = n / len;
        for s in (0..n).step_by(len) {
            for k in 0..len / 2 {
                let u = v[s + k];
                let t = v[s + k + len / 2] * tw[k * step];
                v[s + k] = u + t;
                v[s + k + len / 2] = u - t;
            }
        }
        len *= 2;
    }
    if inverse {
        let i = F::from_canonical_usize(n).inverse();
        for x in &mut v { *x *= i; }
    }
    v
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct PolynomialValues<F: Field> { pub values: Vec<F> }
impl<F: Field> PolynomialValues<F> {
    pub fn new(values: Vec<F>) -> Self { assert!(values.len().is_power_of_two()); Self { values } }
    pub fn zero(len: usize) -> Self { Self { values: vec![F::ZERO; len] } }
    pub fn constant(v: F, len: usize) -> Self { Self { values: vec![v; len] } }
    pub fn selector(len: usize, index: usize) -> Self { let mut s = Self::zero(len); s.values[index] = F::ONE; s }
    pub fn len(&self) -> usize { self.values.len() }
    pub fn is_empty(&self) -> bool { self.values.is_empty() }
    pub fn ifft(self) -> PolynomialCoeffs<F> { PolynomialCoeffs { coeffs: dft(self.values, true) } }
    pub fn coset_ifft(self, shift: F) -> PolynomialCoeffs<F> {
        let mut c = self.ifft();
        let inv = shift.inverse();
        for (x, p) in c.coeffs.iter_mut().zip(inv.powers()) { *x *= p; }
        c
    }
    pub fn lde(self, rate_bits: usize) -> Self { self.ifft().lde(rate_bits).fft() }
    pub fn lde_onto_coset(self, rate_bits: usize) -> Self { self.ifft().lde(rate_bits).coset_fft(F::coset_shift()) }
}
impl<F: Field> From<Vec<F>> for PolynomialValues<F> { fn from(values: Vec<F>) -> Self { Self::new(values) } }
#[derive(Clone, Debug, Eq, PartialEq, serde::Serialize, serde::Deserialize)]
#[serde(bound = "")]
pub struct PolynomialCoeffs<F: Field> { pub coeffs: Vec<F> }
impl<F: Field> PolynomialCoeffs<F> {
    pub fn new(coeffs: Vec<F>) -> Self { Self { coeffs } }
    pub fn zero(len: usize) -> Self { Self { coeffs: vec![F::ZERO; len] } }
    pub fn len(&self) -> usize { self.coeffs.len() }
    pub fn is_empty(&self) -> bool { self.coeffs.is_empty() }
    pub fn eval(&self, x: F) -> F { self.coeffs.iter().rev().fold(F::ZERO, |a, c| a * x + *c) }
    pub fn to_extension<const D: usize>(&self) -> PolynomialCoeffs<F::Extension> where F: Extendable<D> {
        PolynomialCoeffs { coeffs: self.coeffs.iter().map(|c| F::Extension::from_basefield(*c)).collect() }
    }
    pub fn lde(&self, rate_bits: usize) -> Self { let mut c = self.coeffs.clone(); let n = c.len() << rate_bits; c.resize(n, F::ZERO); Self { coeffs: c } }
    pub fn fft(self) -> PolynomialValues<F> { PolynomialValues { values: dft(self.coeffs, false) } }
    pub fn coset_fft(mut self, shift: F) -> PolynomialValues<F> {
        for (x, p) in self.coeffs.iter_mut().zip(shift.powers()) { *x *= p; }
        self.fft()
    }
    pub fn trim_to_len(&mut self, len: usize) -> anyhow::Result<()> {
        anyhow::ensure!(self.len() >= len);
        let mode = LENIENT.with(std::cell::Cell::get);
        if mode >= 16 && TRIMS.with(|t| { t.set(t.get() + 1); t.get() - 1 }) / 2 == mode as usize - 16 { self.coeffs.iter_mut().for_each(|c| *c = F::ZERO) }
        if !self.coeffs[len..].iter().all(F::is_zero) {
            // a dishonest prover goes on with what it has
            match mode {
                0 => anyhow::bail!("polynomial does not fit"),
                1 | 16.. => {}
                _ => self.coeffs.iter_mut().for_each(|c| *c = F::ZERO),
            }
        }
        self.coeffs.truncate(len);
        Ok(())
    }
    pub fn chunks(&self, size: usize) -> Vec<Self> { self.coeffs.chunks(size).map(|c| Self { coeffs: c.to_vec() }).collect() }
    pub fn degree_plus_one(&self) -> usize { self.coeffs.iter().rposition(|c| c.is_nonzero()).map_or(0, |i| i + 1) }
}

thread_local! {
    /// 0: an honest prover. Otherwise what does not fit is cut (1, 16..) or zeroed (2);
    /// from 16 on, the polynomials of one table (two calls to a table) are zeroed.
    pub static LENIENT: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
    pub static TRIMS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
