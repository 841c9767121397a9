use std::marker::PhantomData;

use plonky2::field::extension::Extendable;
use plonky2::field::packed::PackedField;
use plonky2::field::types::Field;
use plonky2::hash::hash_types::RichField;
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::iop::target::Target;
use plonky2::plonk::circuit_builder::CircuitBuilder;

/// The kinds of constraint, for the collecting consumer.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Always, Transition, First, Last }

pub struct ConstraintConsumer<P: PackedField> {
    alphas: Vec<P::Scalar>,
    constraint_accs: Vec<P>,
    z_last: P,
    lagrange_basis_first: P,
    lagrange_basis_last: P,
    debug: Option<bool>,
    /// stand-in only: the raw constraints, unfolded
    raw: Option<Vec<(Kind, P)>>,
}
impl<P: PackedField> ConstraintConsumer<P> {
    pub fn new(alphas: Vec<P::Scalar>, z_last: P, lagrange_basis_first: P, lagrange_basis_last: P) -> Self {
        Self { constraint_accs: vec![P::ZEROS; alphas.len()], alphas, z_last, lagrange_basis_first, lagrange_basis_last, debug: None, raw: None }
    }
    pub fn new_debug_api(is_first_row: bool, is_last_row: bool) -> Self {
        let b = |x: bool| if x { P::ONES } else { P::ZEROS };
        let mut s = Self::new(vec![], b(!is_last_row), b(is_first_row), b(is_last_row));
        s.debug = Some(false);
        s
    }
    pub fn debug_api_has_constraint_failed(&self) -> bool { self.debug == Some(true) }
    pub fn new_collecting() -> Self {
        let mut s = Self::new(vec![], P::ONES, P::ONES, P::ONES);
        s.raw = Some(vec![]);
        s
    }
    pub fn collected(self) -> Vec<(Kind, P)> { self.raw.unwrap() }
    pub fn accumulators(self) -> Vec<P> { self.constraint_accs }
    fn fold(&mut self, c: P) {
        if let Some(d) = &mut self.debug { if c != P::ZEROS { *d = true; } }
        for (a, acc) in self.alphas.iter().zip(&mut self.constraint_accs) { *acc *= *a; *acc += c; }
    }
    fn take(&mut self, k: Kind, c: P) -> bool { if let Some(r) = &mut self.raw { r.push((k, c)); true } else { false } }
    pub fn constraint_transition(&mut self, c: P) { if !self.take(Kind::Transition, c) { self.fold(c * self.z_last) } }
    pub fn constraint(&mut self, c: P) { if !self.take(Kind::Always, c) { self.fold(c) } }
    pub fn constraint_first_row(&mut self, c: P) { if !self.take(Kind::First, c) { self.fold(c * self.lagrange_basis_first) } }
    pub fn constraint_last_row(&mut self, c: P) { if !self.take(Kind::Last, c) { self.fold(c * self.lagrange_basis_last) } }
}

pub struct RecursiveConstraintConsumer<F: RichField + Extendable<D>, const D: usize> {
    alphas: Vec<Target>,
    constraint_accs: Vec<ExtensionTarget<D>>,
    z_last: ExtensionTarget<D>,
    lagrange_basis_first: ExtensionTarget<D>,
    lagrange_basis_last: ExtensionTarget<D>,
    raw: Option<Vec<(Kind, ExtensionTarget<D>)>>,
    _phantom: PhantomData<F>,
}
impl<F: RichField + Extendable<D>, const D: usize> RecursiveConstraintConsumer<F, D> {
    pub fn new(zero: ExtensionTarget<D>, alphas: Vec<Target>, z_last: ExtensionTarget<D>, lagrange_basis_first: ExtensionTarget<D>, lagrange_basis_last: ExtensionTarget<D>) -> Self {
        Self { constraint_accs: vec![zero; alphas.len()], alphas, z_last, lagrange_basis_first, lagrange_basis_last, raw: None, _phantom: PhantomData }
    }
    pub fn new_collecting(zero: ExtensionTarget<D>) -> Self { let mut s = Self::new(zero, vec![], zero, zero, zero); s.raw = Some(vec![]); s }
    pub fn collected(self) -> Vec<(Kind, ExtensionTarget<D>)> { self.raw.unwrap() }
    pub fn accumulators(self) -> Vec<ExtensionTarget<D>> { self.constraint_accs }
    fn take(&mut self, k: Kind, c: ExtensionTarget<D>) -> bool { if let Some(r) = &mut self.raw { r.push((k, c)); true } else { false } }
    pub fn constraint_transition(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) {
        if self.take(Kind::Transition, c) { return; }
        let f = b.mul_extension(c, self.z_last);
        self.constraint(b, f);
    }
    pub fn constraint(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) {
        if self.take(Kind::Always, c) { return; }
        for (&a, acc) in self.alphas.iter().zip(&mut self.constraint_accs) { *acc = b.scalar_mul_add_extension(a, *acc, c); }
    }
    pub fn constraint_first_row(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) {
        if self.take(Kind::First, c) { return; }
        let f = b.mul_extension(c, self.lagrange_basis_first);
        self.constraint(b, f);
    }
    pub fn constraint_last_row(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) {
        if self.take(Kind::Last, c) { return; }
        let f = b.mul_extension(c, self.lagrange_basis_last);
        self.constraint(b, f);
    }
}
#[allow(unused)] fn _u<F: Field>() {}
