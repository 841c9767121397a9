use plonky2::field::extension::{Extendable, FieldExtension};
use plonky2::field::packed::PackedField;
use plonky2::field::types::Field;
use plonky2::fri::structure::*;
use plonky2::hash::hash_types::RichField;
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::plonk::circuit_builder::CircuitBuilder;

use crate::config::StarkConfig;
use crate::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
use crate::evaluation_frame::StarkEvaluationFrame;

const TRACE_ORACLE_INDEX: usize = 0;
const AUXILIARY_ORACLE_INDEX: usize = 1;
const QUOTIENT_ORACLE_INDEX: usize = 2;

#[derive(Clone, Debug)]
pub struct LookupConfig { pub degree_bits: usize, pub num_zs: usize }

pub trait Stark<F: RichField + Extendable<D>, const D: usize>: Sync {
    const COLUMNS: usize = Self::EvaluationFrameTarget::COLUMNS;
    const PUBLIC_INPUTS: usize = Self::EvaluationFrameTarget::PUBLIC_INPUTS;
    type EvaluationFrame<FE, P, const D2: usize>: StarkEvaluationFrame<P, FE>
    where
        FE: FieldExtension<D2, BaseField = F>,
        P: PackedField<Scalar = FE>;
    type EvaluationFrameTarget: StarkEvaluationFrame<ExtensionTarget<D>, ExtensionTarget<D>>;

    fn eval_packed_generic<FE, P, const D2: usize>(&self, vars: &Self::EvaluationFrame<FE, P, D2>, yield_constr: &mut ConstraintConsumer<P>)
    where
        FE: FieldExtension<D2, BaseField = F>,
        P: PackedField<Scalar = FE>;
    fn eval_packed_base<P: PackedField<Scalar = F>>(&self, vars: &Self::EvaluationFrame<F, P, 1>, yield_constr: &mut ConstraintConsumer<P>) { self.eval_packed_generic(vars, yield_constr) }
    fn eval_ext(&self, vars: &Self::EvaluationFrame<F::Extension, F::Extension, D>, yield_constr: &mut ConstraintConsumer<F::Extension>) { self.eval_packed_generic(vars, yield_constr) }
    fn eval_ext_circuit(&self, builder: &mut CircuitBuilder<F, D>, vars: &Self::EvaluationFrameTarget, yield_constr: &mut RecursiveConstraintConsumer<F, D>);

    fn constraint_degree(&self) -> usize;
    fn quotient_degree_factor(&self) -> usize { match self.constraint_degree().checked_sub(1) { Some(v) => 1.max(v), None => 0 } }
    fn num_quotient_polys(&self, config: &StarkConfig) -> usize { self.quotient_degree_factor() * config.num_challenges }
    fn requires_ctls(&self) -> bool { false }
    fn uses_lookups(&self) -> bool { false }

    fn fri_instance(&self, zeta: F::Extension, g: F, _num_ctl_helpers: u32, _num_ctl_zs: Vec<usize>, config: &StarkConfig, lookup_cfg: Option<&LookupConfig>) -> FriInstanceInfo<F, D> {
        let (oracles, [trace, aux, quotient], zs) = self.layout(config, lookup_cfg);
        let mut batches = vec![
            FriBatchInfo { point: zeta, polynomials: [trace.clone(), aux.clone(), quotient].concat() },
            FriBatchInfo { point: zeta.scalar_mul(g), polynomials: [trace, aux].concat() },
        ];
        if let Some(l) = lookup_cfg {
            batches.push(FriBatchInfo { point: F::Extension::from_basefield(F::primitive_root_of_unity(l.degree_bits).inverse()), polynomials: zs });
        }
        FriInstanceInfo { oracles, batches }
    }
    fn fri_instance_target(&self, builder: &mut CircuitBuilder<F, D>, zeta: ExtensionTarget<D>, g: F, _num_ctl_helper_polys: usize, _num_ctl_zs: usize, config: &StarkConfig, lookup_cfg: Option<&LookupConfig>) -> FriInstanceInfoTarget<D> {
        let (oracles, [trace, aux, quotient], zs) = self.layout(config, lookup_cfg);
        let zeta_next = builder.mul_const_extension(g, zeta);
        let mut batches = vec![
            FriBatchInfoTarget { point: zeta, polynomials: [trace.clone(), aux.clone(), quotient].concat() },
            FriBatchInfoTarget { point: zeta_next, polynomials: [trace, aux].concat() },
        ];
        if let Some(l) = lookup_cfg {
            let p = builder.constant_extension(F::Extension::from_basefield(F::primitive_root_of_unity(l.degree_bits).inverse()));
            batches.push(FriBatchInfoTarget { point: p, polynomials: zs });
        }
        FriInstanceInfoTarget { oracles, batches }
    }
    #[doc(hidden)]
    fn layout(&self, config: &StarkConfig, lookup_cfg: Option<&LookupConfig>) -> (Vec<FriOracleInfo>, [Vec<FriPolynomialInfo>; 3], Vec<FriPolynomialInfo>) {
        let zs = lookup_cfg.map_or(0, |l| l.num_zs);
        let q = self.num_quotient_polys(config);
        let info = |n| FriOracleInfo { num_polys: n, blinding: false };
        let ps = |o, n| FriPolynomialInfo::from_range(o, 0..n);
        (
            vec![info(Self::COLUMNS), info(zs), info(q)],
            [ps(TRACE_ORACLE_INDEX, Self::COLUMNS), ps(AUXILIARY_ORACLE_INDEX, zs), ps(QUOTIENT_ORACLE_INDEX, q)],
            ps(AUXILIARY_ORACLE_INDEX, zs),
        )
    }
}
#[allow(unused)] fn _u<F: Field>() {}
