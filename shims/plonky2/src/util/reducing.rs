use crate::field::extension::Extendable;
use crate::hash::hash_types::RichField;
use crate::iop::ext_target::ExtensionTarget;
use crate::plonk::circuit_builder::CircuitBuilder;
#[derive(Debug, Clone)]
pub struct ReducingFactorTarget<const D: usize> { base: ExtensionTarget<D> }
impl<const D: usize> ReducingFactorTarget<D> {
    pub const fn new(base: ExtensionTarget<D>) -> Self { Self { base } }
    pub fn reduce<F: RichField + Extendable<D>>(&mut self, terms: &[ExtensionTarget<D>], b: &mut CircuitBuilder<F, D>) -> ExtensionTarget<D> {
        let z = b.zero_extension();
        terms.iter().rev().fold(z, |a, t| b.mul_add_extension(a, self.base, *t))
    }
}
