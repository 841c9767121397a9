use anyhow::{ensure, Result};
use crate::field::extension::{Extendable, FieldExtension};
use crate::field::types::Field;
use crate::fri::oracle::cap;
use crate::fri::proof::*;
use crate::fri::structure::*;
use crate::fri::FriParams;
use crate::hash::hash_types::RichField;
use crate::hash::merkle_tree::MerkleCap;
use crate::plonk::config::*;

pub fn verify_fri_proof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
    instance: &FriInstanceInfo<F, D>, openings: &FriOpenings<F, D>, _ch: &FriChallenges<F, D>,
    caps: &[MerkleCap<F, C::Hasher>], proof: &FriProof<F, C::Hasher, D>, params: &FriParams,
) -> Result<()> {
    verify_groups::<F, C, D>(&[params.degree_bits], std::slice::from_ref(instance), std::slice::from_ref(openings), caps, proof, params)
}

/// `degree_bits[i]`, `instances[i]`, `openings[i]` belong together; polynomial
/// indices run over all groups of an oracle.
pub(crate) fn verify_groups<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
    degree_bits: &[usize], instances: &[FriInstanceInfo<F, D>], openings: &[FriOpenings<F, D>],
    caps: &[MerkleCap<F, C::Hasher>], proof: &FriProof<F, C::Hasher, D>, params: &FriParams,
) -> Result<()> {
    ensure!(proof.query_round_proofs.len() == 1, "fri: query rounds");
    let ep = &proof.query_round_proofs[0].initial_trees_proof.evals_proofs;
    for (_, p) in ep { ensure!(p.siblings.len() + params.config.cap_height == params.lde_bits(), "fri: merkle path length"); }
    let data: Vec<&[F]> = ep.iter().map(|(d, _)| &d[..]).collect();
    let layout: Vec<(usize, Vec<usize>)> = degree_bits.iter().zip(instances).map(|(d, i)| (*d, i.oracles.iter().map(|o| o.num_polys).collect())).collect();
    let polys = split(&layout, &data)?;
    ensure!(caps.len() == polys.len(), "fri: number of oracles");
    for (c, ps) in caps.iter().zip(&polys) {
        ensure!(*c == cap::<F, C::Hasher>(ps.iter().copied(), params.config.cap_height), "fri: polynomials are not the committed ones");
    }
    for (inst, op) in instances.iter().zip(openings) {
        // The real verifier folds the openings with powers of a challenge:
        // missing trailing values count as zero, surplus ones have to be zero.
        for (b, o) in inst.batches.iter().zip(&op.batches) {
            opens(&polys, b.point, &b.polynomials, &o.values)?;
        }
    }
    Ok(())
}
pub(crate) fn split<'a, F: Field>(layout: &[(usize, Vec<usize>)], data: &[&'a [F]]) -> Result<Vec<Vec<&'a [F]>>> {
    let mut out = vec![];
    for (o, d) in data.iter().enumerate() {
        let mut at = 0;
        let mut ps = vec![];
        for (db, counts) in layout {
            ensure!(counts.len() == data.len(), "fri: number of oracles");
            for _ in 0..counts[o] {
                let e = at + (1usize << db);
                ensure!(e <= d.len(), "fri: leaf length");
                ps.push(&d[at..e]);
                at = e;
            }
        }
        ensure!(at == d.len(), "fri: leaf length");
        out.push(ps);
    }
    Ok(out)
}
pub(crate) fn opens<F: RichField + Extendable<D>, const D: usize>(polys: &[Vec<&[F]>], x: F::Extension, infos: &[FriPolynomialInfo], values: &[F::Extension]) -> Result<()> {
    for (k, i) in infos.iter().enumerate() {
        let p = polys.get(i.oracle_index).and_then(|v| v.get(i.polynomial_index)).ok_or_else(|| anyhow::anyhow!("fri: no such polynomial"))?;
        let v = p.iter().rev().fold(F::Extension::ZERO, |a, c| a * x + F::Extension::from_basefield(*c));
        ensure!(v == values.get(k).copied().unwrap_or(F::Extension::ZERO), "fri: wrong opening");
    }
    ensure!(values.iter().skip(infos.len()).all(|v| v.is_zero()), "fri: surplus opening");
    Ok(())
}
