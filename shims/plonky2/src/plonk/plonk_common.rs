use crate::field::packed::PackedField;
use crate::field::types::Field;
pub fn reduce_with_powers<'a, P: PackedField, T: IntoIterator<Item = &'a P>>(terms: T, alpha: P::Scalar) -> P
where T::IntoIter: DoubleEndedIterator {
    let mut sum = P::ZEROS;
    for &term in terms.into_iter().rev() { sum = sum * alpha + term; }
    sum
}
pub fn _unused<F: Field>() {}

use crate::field::extension::Extendable;
use crate::hash::hash_types::RichField;
use crate::iop::target::{ExtensionTarget, Target};
use crate::plonk::circuit_builder::CircuitBuilder;
use std::borrow::Borrow;
pub fn reduce_with_powers_circuit<F: RichField + Extendable<D>, const D: usize>(b: &mut CircuitBuilder<F, D>, terms: &[Target], alpha: Target) -> Target {
    let z = b.zero();
    terms.iter().rev().fold(z, |a, t| b.mul_add(a, alpha, *t))
}
pub fn reduce_with_powers_ext_circuit<F: RichField + Extendable<D>, const D: usize>(b: &mut CircuitBuilder<F, D>, terms: &[ExtensionTarget<D>], alpha: Target) -> ExtensionTarget<D> {
    let z = b.zero_extension();
    terms.iter().rev().fold(z, |a, t| b.scalar_mul_add_extension(alpha, a, *t))
}
#[allow(unused)] fn _b<T: Borrow<u8>>() {}
