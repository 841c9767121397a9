//! Proofs of executions: made, altered, spliced, fitted to the challenges -- and judged by
//! the native verifiers and by the circuits that verify them.
use std::collections::BTreeMap;

use mozak_circuits::air::*;
use mozak_circuits::stark::batch_prover::batch_prove;
use mozak_circuits::stark::batch_verifier::batch_verify_proof;
use mozak_circuits::stark::mozak_stark::{PublicInputs, TableKind, TableKindArray, PUBLIC_TABLE_KINDS};
use mozak_circuits::stark::proof::{AllProof, BatchProof, StarkProof};
use mozak_circuits::stark::prover::prove_with_traces;
use mozak_circuits::stark::recursive_verifier::*;
use mozak_circuits::stark::verifier::verify_proof;
use mozak_runner::elf::Program;
use mozak_runner::state::State;
use mozak_runner::vm::{step, ExecutionRecord};
use plonky2::field::polynomial::{LENIENT, TRIMS};
use plonky2::iop::challenger::take_draws;
use plonky2::plonk::circuit_data::CircuitConfig;
use plonky2::plonk::proof::ProofWithPublicInputs;
use plonky2::util::timing::TimingTree;
use serde_json::{json, Value};
use starky::config::StarkConfig;

use crate::exec::{self, pair_case, program_of, raw_tapes, Case};
use crate::util::{guard, word, Out, Rng};
use crate::{gens, runner};

type Fe = <F as plonky2::field::extension::Extendable<D>>::Extension;
type P = StarkProof<F, C, D>;

/// The parts the two kinds of proof have in common.
#[derive(Clone)]
pub struct Parts { pub proofs: TableKindArray<P>, pub entry: F, pub values: TableKindArray<Vec<Vec<Vec<F>>>>, pub id: [u8; 32], pub whole: Option<P> }
impl Parts {
    fn single(p: AllProof<F, C, D>) -> Self { Parts { proofs: p.proofs, entry: p.public_inputs.entry_point, values: p.public_sub_table_values, id: p.program_id.0 .0, whole: None } }
    fn batch(p: BatchProof<F, C, D>) -> Self { Parts { proofs: p.proofs, entry: p.public_inputs.entry_point, values: p.public_sub_table_values, id: p.program_id.0 .0, whole: Some(p.batch_stark_proof) } }
    fn to_single(&self) -> AllProof<F, C, D> {
        AllProof { proofs: self.proofs.clone(), public_inputs: PublicInputs { entry_point: self.entry }, public_sub_table_values: self.values.clone(), program_id: pid(self.id) }
    }
    fn to_batch(&self) -> BatchProof<F, C, D> {
        BatchProof { proofs: self.proofs.clone(), public_inputs: PublicInputs { entry_point: self.entry }, public_sub_table_values: self.values.clone(), program_id: pid(self.id), batch_stark_proof: self.whole.clone().unwrap() }
    }
}
fn pid(b: [u8; 32]) -> mozak_sdk::common::types::ProgramIdentifier { mozak_sdk::common::types::ProgramIdentifier(b.into()) }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

pub struct Env { pub sys: Sys, pub wide: Sys, pub config: StarkConfig }
pub struct Made {
    pub case: Case, pub program: Program, pub rec: ExecutionRecord<F>, pub traces: Traces,
    pub bits: TableKindArray<usize>,
    pub circuit: MozakStarkVerifierCircuit<F, C, D>, pub bcircuit: MozakBatchStarkVerifierCircuit<F, C, D>,
    pub single: Parts, pub batch: Parts,
}
pub struct Judged { native: bool, rec: Option<ProofWithPublicInputs<F, C, D>> }
fn quietly<T>(f: impl FnOnce() -> anyhow::Result<T>) -> Option<T> { let r = guard(f); if std::env::var("WHY").is_ok() { match &r { Ok(Err(e)) => eprintln!("{e:#}"), Err(e) => eprintln!("{e:?}"), _ => () } } r.ok().and_then(Result::ok) }

fn gen(k: usize, r: &mut Rng) -> Case {
    match k % 4 {
        0 => gens::tape_case(r, false, false, false),
        1 => gens::flow_case(r),
        2 => gens::mem_case(r),
        _ => { let (a, b) = (word(r), word(r)); pair_case(a, b, r) }
    }
}
pub fn run_case(c: &Case) -> Option<(Program, ExecutionRecord<F>)> {
    let program = program_of(c);
    let mut s: State<F> = State::new(program.clone(), raw_tapes(c));
    for (i, v) in &c.regs { s = s.set_register_value(*i, *v); }
    let mut probe = s.clone();
    for _ in 0..c.limit {
        if probe.has_halted() { break }
        match guard(|| probe.clone().execute_instruction(&program)) { Ok(Ok((_, _, n))) => probe = n, _ => return None }
    }
    if !probe.has_halted() { return None }
    guard(|| step(&program, s)).ok()?.ok().map(|r| (program, r))
}
impl Env {
    pub fn new() -> Self { Env { sys: Sys::default(), wide: { let mut s = Sys::default(); s.widen(0); s }, config: StarkConfig::standard_fast_config() } }
    fn single(&self, entry: F, t: &Traces, mode: u8) -> Option<Parts> {
        LENIENT.with(|l| l.set(mode));
        let p = quietly(|| prove_with_traces::<F, C, D>(&self.sys.stark, &self.config, PublicInputs { entry_point: entry }, t, &mut TimingTree::default()));
        LENIENT.with(|l| l.set(0));
        p.map(Parts::single)
    }
    fn batch(&self, m: (&Program, &ExecutionRecord<F>), entry: F) -> Option<(Parts, TableKindArray<usize>)> {
        quietly(|| batch_prove::<F, C, D>(m.0, m.1, &self.sys.stark, &PUBLIC_TABLE_KINDS, &self.config, PublicInputs { entry_point: entry }, &mut TimingTree::default()))
            .map(|(p, b)| (Parts::batch(p), b))
    }
    pub fn make(&self, case: Case, program: Program, rec: ExecutionRecord<F>, traces: Traces) -> Option<Made> {
        let entry = F::from_canonical_u32(program.entry_point);
        let single = self.single(entry, &traces, 0)?;
        let (batch, bits) = self.batch((&program, &rec), entry)?;
        let cc = CircuitConfig::standard_recursion_config();
        let circuit = recursive_mozak_stark_circuit::<F, C, D>(&self.sys.stark, &single.to_single().degree_bits(&self.config), &cc, &self.config);
        let bcircuit = recursive_batch_stark_circuit::<F, C, D>(&self.sys.stark, &bits, &PUBLIC_TABLE_KINDS, &cc, &self.config);
        Some(Made { case, program, rec, traces, bits, circuit, bcircuit, single, batch })
    }
    fn native(&self, m: &Made, p: &Parts) -> bool {
        match p.whole {
            None => quietly(|| verify_proof(&self.sys.stark, p.to_single(), &self.config)),
            Some(_) => quietly(|| batch_verify_proof(&self.sys.stark, &PUBLIC_TABLE_KINDS, p.to_batch(), &self.config, &m.bits)),
        }.is_some()
    }
    fn judge(&self, m: &Made, p: &Parts) -> Judged {
        let native = self.native(m, p);
        let rec = match p.whole {
            None => quietly(|| { let q = m.circuit.prove(&p.to_single())?; m.circuit.circuit.verify(q.clone())?; Ok(q) }),
            Some(_) => quietly(|| { let q = m.bcircuit.prove(&p.to_batch())?; m.bcircuit.circuit.verify(q.clone())?; Ok(q) }),
        };
        Judged { native, rec }
    }
    fn draws(&self, m: &Made, p: &Parts) -> Vec<u64> { take_draws(); self.native(m, p); take_draws() }
}

// ------------------------------------------------------------------ alterations
const CLASSES: [&str; 6] = ["local", "next", "ctl_zs", "ctl_zs_next", "ctl_zs_last", "quotient"];
fn ext(p: &mut P, class: usize) -> Option<&mut Vec<Fe>> {
    let o = &mut p.openings;
    Some(match class { 0 => &mut o.local_values, 1 => &mut o.next_values, 2 => &mut o.ctl_zs, 3 => &mut o.ctl_zs_next, 5 => &mut o.quotient_polys, _ => return None })
}
fn open_len(p: &mut P, class: usize) -> usize { match ext(p, class) { Some(v) => v.len(), None => p.openings.ctl_zs_last.len() } }
fn open_add(p: &mut P, class: usize, i: usize, x: F) { match ext(p, class) { Some(v) => v[i] += Fe::from(x), None => p.openings.ctl_zs_last[i] += x } }
fn other(r: &mut Rng) -> F { let x = *r.pick(&[1u64, 2, 0xffff_fffe_ffff_ffff, 1 << 32]); if r.chance(1, 2) { F::from_canonical_u64(x) } else { F::from_canonical_u64(1 + r.below(1 << 62)) } }
fn cap_of(p: &mut P, which: usize) -> &mut Vec<plonky2::hash::hash_types::HashOut<F>> { match which { 0 => &mut p.trace_cap.0, 1 => &mut p.ctl_zs_cap.0, _ => &mut p.quotient_polys_cap.0 } }
const CAPS: [&str; 3] = ["trace_cap", "ctl_zs_cap", "quotient_cap"];

/// the position of each side of each lookup among a table's openings: per challenge
fn sides(env: &Env, challenges: usize) -> Vec<Vec<(TableKind, usize)>> {
    let mut at: BTreeMap<usize, usize> = BTreeMap::new();
    let mut out = vec![];
    for _ in 0..challenges { for l in &env.sys.ctl_kinds {
        out.push(l.iter().map(|k| { let n = at.entry(*k as usize).or_insert(0); *n += 1; (*k, *n - 1) }).collect());
    } }
    out
}
fn balance(env: &Env, p: &mut Parts) {
    for l in sides(env, env.config.num_challenges) {
        let sum: F = l.iter().map(|(k, i)| p.proofs[*k].openings.ctl_zs_last[*i]).sum();
        let (k, i) = l[0];
        p.proofs[k].openings.ctl_zs_last[i] -= sum;
    }
}
fn random_table(r: &mut Rng) -> TableKind { let ks = kinds(); *r.pick(&ks) }
fn whole_ix(r: &mut Rng, p: &Parts) -> Option<TableKind> { if p.whole.is_some() && r.chance(2, 3) { None } else { Some(random_table(r)) } }

/// One alteration: what it is, and whether it changes nothing.
fn alter(env: &Env, p: &Parts, o: &Parts, same_bits: &dyn Fn(TableKind) -> bool, r: &mut Rng) -> Option<(Parts, Value, bool)> {
    let mut q = p.clone();
    let tc = TableKind::TapeCommitments;
    let k = random_table(r);
    let name = format!("{k:?}");
    Some(match r.below(17) {
        0 | 1 | 2 => {
            let class = r.below(6) as usize;
            let n = open_len(&mut q.proofs[k], class);
            if n == 0 { return None }
            open_add(&mut q.proofs[k], class, r.below(n as u64) as usize, other(r));
            (q, json!({"kind": "opening", "class": CLASSES[class], "table": name}), false)
        }
        3 => {
            let w = r.below(3) as usize;
            let at = whole_ix(r, p);
            let v = match at { None => cap_of(q.whole.as_mut().unwrap(), w), Some(k) => cap_of(&mut q.proofs[k], w) };
            if v.is_empty() { return None }
            let i = r.below(v.len() as u64) as usize;
            v[i].elements[r.below(4) as usize] += other(r);
            (q, json!({"kind": CAPS[w], "table": at.map_or("batch".into(), |k| format!("{k:?}"))}), false)
        }
        4 => {
            let at = whole_ix(r, p);
            let f = match at { None => &mut q.whole.as_mut().unwrap().opening_proof, Some(k) => &mut q.proofs[k].opening_proof };
            let d = &mut f.query_round_proofs.first_mut()?.initial_trees_proof.evals_proofs;
            let w = r.below(d.len() as u64) as usize;
            let n = d[w].0.len() as u64;
            if n == 0 { return None }
            d[w].0[r.below(n) as usize] += other(r);
            (q, json!({"kind": "polynomial", "table": at.map_or("batch".into(), |k| format!("{k:?}"))}), false)
        }
        5 => {
            let class = r.below(6) as usize;
            let v = &mut q.proofs[k];
            let (n, add) = (open_len(v, class), r.chance(1, 2));
            if n == 0 { return None }
            match ext(v, class) { Some(v) => if add { v.push(Fe::ZERO) } else { v.pop(); }, None => if add { v.openings.ctl_zs_last.push(F::ZERO) } else { v.openings.ctl_zs_last.pop(); } }
            (q, json!({"kind": "shape", "more": add, "class": CLASSES[class], "table": name}), false)
        }
        6 => {
            let s = r.below(2) as usize;
            let rows = &mut q.values[tc][s];
            let what = match r.below(5) {
                0 => { rows.pop(); "fewer rows" }
                1 => { rows.push(vec![F::from_canonical_u64(r.below(256))]); "more rows" }
                2 => { let i = r.below(rows.len() as u64) as usize; rows[i].push(F::ZERO); "wider row" }
                3 => { q.values[tc].push(vec![]); "more sub-tables" }
                _ => { q.values[k].push(vec![vec![F::ONE]]); "a sub-table of another table" }
            };
            (q, json!({"kind": "public shape", "how": what, "table": name}), false)
        }
        7 => { let s = r.below(2) as usize; let i = r.below(32) as usize; q.values[tc][s][i][0] += other(r); (q, json!({"kind": "public", "table": s}), false) }
        8 => {
            // the same bytes in another order
            let s = r.below(2) as usize;
            let (i, j) = (r.below(32) as usize, r.below(32) as usize);
            q.values[tc][s].swap(i, j);
            let same = q.values[tc][s][i] == q.values[tc][s][j];
            (q, json!({"kind": "public order", "table": s}), same)
        }
        9 => { let (a, b) = (q.values[tc][0].clone(), q.values[tc][1].clone()); let same = a == b; q.values[tc] = vec![b, a]; (q, json!({"kind": "public swap"}), same) }
        10 => { q.entry += other(r); (q, json!({"kind": "entry"}), false) }
        11 => { q.id[r.below(32) as usize] ^= 1 << r.below(8); (q, json!({"kind": "id"}), false) }
        12 => {
            let l = sides(env, env.config.num_challenges);
            let l = r.pick(&l);
            let (a, b) = (*r.pick(l), *r.pick(l));
            if a == b { return None }
            let x = other(r);
            q.proofs[a.0].openings.ctl_zs_last[a.1] += x;
            q.proofs[b.0].openings.ctl_zs_last[b.1] -= x;
            (q, json!({"kind": "lookup ends", "table": name}), false)
        }
        13 => {
            if !same_bits(k) { return None }
            q.proofs[k] = o.proofs[k].clone();
            let same = format!("{:?}", q.proofs[k].openings) == format!("{:?}", p.proofs[k].openings) && q.proofs[k].trace_cap == p.proofs[k].trace_cap;
            (q, json!({"kind": "graft", "table": name}), same)
        }
        14 => { q.values = o.values.clone(); let same = q.values[tc] == p.values[tc]; (q, json!({"kind": "graft publics"}), same) }
        15 => {
            q.entry = o.entry;
            q.id = o.id;
            let same = (q.entry, q.id) == (p.entry, p.id);
            (q, json!({"kind": "graft id"}), same)
        }
        _ => {
            // the other proof under this program's name
            q = o.clone();
            let same = (q.entry, q.id) == (p.entry, p.id);
            if kinds().into_iter().any(|k| !same_bits(k)) { return None }
            q.entry = p.entry;
            q.id = p.id;
            (q, json!({"kind": "another proof"}), same)
        }
    })
}

// ------------------------------------------------------- values chosen too late
fn sqrt(a: F) -> Option<F> {
    // p - 1 = 2^32 * (2^32 - 1)
    if a == F::ZERO { return Some(a) }
    let q = (1u64 << 32) - 1;
    if a.exp_u64(q << 31) != F::ONE { return None }
    let mut m = 32;
    let mut c = F::primitive_root_of_unity(32);
    let mut t = a.exp_u64(q);
    let mut x = a.exp_u64((q + 1) / 2);
    while t != F::ONE {
        let (mut i, mut u) = (0, t);
        while u != F::ONE { u = u * u; i += 1; }
        let b = c.exp_power_of_2(m - i - 1);
        m = i; c = b * b; t *= c; x *= b;
    }
    Some(x)
}
/// Other values that sum to the same under challenges already drawn.
fn late(env: &Env, m: &Made, p: &Parts, r: &mut Rng) -> Option<(Parts, Value, bool)> {
    let tc = TableKind::TapeCommitments;
    let s = r.below(2) as usize;
    let draws = env.draws(m, p);
    let vals: Vec<F> = p.values[tc][s].iter().map(|v| v[0]).collect();
    let lasts = &p.proofs[tc].openings.ctl_zs_last;
    let sum = |g: F, v: &[F]| -> Option<F> { v.iter().map(|x| (g + *x).try_inverse()).collect::<Option<Vec<F>>>().map(|v| v.into_iter().sum()) };
    let gs: Vec<(F, F)> = draws.iter().take(16).map(|d| F::from_canonical_u64(*d)).filter_map(|g| { let t = sum(g, &vals)?; lasts.contains(&t).then_some((g, t)) }).collect();
    let [(g1, t1), (g2, t2)] = gs[..] else { return None };
    for _ in 0..64 {
        let mut v: Vec<F> = (0..30).map(|_| F::from_canonical_u64(r.below(256))).collect();
        let (a, b) = (t1 - sum(g1, &v)?, t2 - sum(g2, &v)?);
        // (2g + s) = a (g^2 + g s + w) for both challenges, s and w the sum and product of the other two
        let (c11, c12, d1) = (a * g1 - F::ONE, a, g1 + g1 - a * g1 * g1);
        let (c21, c22, d2) = (b * g2 - F::ONE, b, g2 + g2 - b * g2 * g2);
        let Some(inv) = (c11 * c22 - c12 * c21).try_inverse() else { continue };
        let (s_, w_) = ((d1 * c22 - d2 * c12) * inv, (c11 * d2 - c21 * d1) * inv);
        let Some(root) = sqrt(s_ * s_ - w_ * F::from_canonical_u64(4)) else { continue };
        let half = F::TWO.inverse();
        let (x, y) = ((s_ + root) * half, (s_ - root) * half);
        v.push(x);
        v.push(y);
        if sum(g1, &v) != Some(t1) || sum(g2, &v) != Some(t2) { continue }
        let mut q = p.clone();
        q.values[tc][s] = v.into_iter().map(|x| vec![x]).collect();
        return Some((q, json!({"kind": "late public", "table": s}), false));
    }
    None
}

// ------------------------------------------------------------------ dishonest tables
fn forge(env: &Env, m: &Made, r: &mut Rng) -> Option<(Parts, Value, bool)> {
    let mut t = m.traces.clone();
    let k = random_table(r);
    let (h, w) = (height(&t, k), width(&t, k));
    let mut dirty = Dirty::default();
    for _ in 0..1 + r.below(2) {
        let (row, col) = (r.below(h as u64) as usize, r.below(w as u64) as usize);
        let old = get(&t, k, row, col);
        let new = match r.below(4) { 0 => old + F::ONE, 1 => F::ONE - old, 2 => get(&t, k, r.below(h as u64) as usize, col), _ => other(r) };
        set(&mut t, k, row, col, new);
        dirty.row(k, row);
    }
    let entry = F::from_canonical_u32(m.program.entry_point);
    let sat = env.sys.violations(&t, entry, &dirty, 1).is_empty();
    let mode = 1 + r.below(2) as u8;
    let mut p = env.single(entry, &t, mode)?;
    let mut how = if mode == 1 { "cut" } else { "zero" };
    match r.below(5) {
        4 => {
            LENIENT.with(|l| l.set(0));
            let q = quietly(|| prove_with_traces::<F, C, D>(&env.wide.stark, &env.config, PublicInputs { entry_point: entry }, &m.traces, &mut TimingTree::default()))?;
            return Some((Parts::single(q), json!({"how": "public values with a column too many", "table": "TapeCommitments"}), false));
        }
        0 => { balance(env, &mut p); how = if mode == 1 { "cut, balanced" } else { "zero, balanced" }; }
        1 => { p.proofs[k].openings.quotient_polys.clear(); how = "no quotient"; return Some((p, json!({"how": how, "table": format!("{k:?}")}), false)); }
        _ => {}
    }
    Some((p, json!({"how": how, "table": format!("{k:?}")}), sat))
}
/// The batched proof of an execution under a false entry point, or without the openings
/// that would show its constraints.
fn forge_batch(env: &Env, m: &Made, r: &mut Rng) -> Option<(Parts, Value)> {
    // (openings can be left out at the end of a group of tables of one size)
    let ks: Vec<TableKind> = kinds().into_iter().filter(|k| m.bits[*k] == m.bits[TableKind::CpuSkeleton] && !PUBLIC_TABLE_KINDS.contains(k)).collect();
    let last = ks.last() == Some(&TableKind::CpuSkeleton);
    let entry = F::from_canonical_u32(m.program.entry_point ^ 4 << r.below(20));
    let at = kinds().into_iter().filter(|k| !PUBLIC_TABLE_KINDS.contains(k)).position(|k| k == TableKind::CpuSkeleton)?;
    TRIMS.with(|t| t.set(0));
    LENIENT.with(|l| l.set(16 + (PUBLIC_TABLE_KINDS.len() + at) as u8));
    let p = env.batch((&m.program, &m.rec), entry);
    LENIENT.with(|l| l.set(0));
    let (mut p, _) = p?;
    let mut how = "false entry point";
    if last && r.chance(3, 4) {
        how = "false entry point, no quotient";
        let q = &mut p.proofs[TableKind::CpuSkeleton].openings.quotient_polys;
        if r.chance(1, 2) { q.clear() } else { q.truncate(r.below(q.len() as u64) as usize) }
    }
    Some((p, json!({"how": how, "table": "CpuSkeleton"})))
}

// ------------------------------------------------------------------ what binds what
fn bind(env: &Env, m: &Made, p: &Parts, r: &mut Rng) -> Option<Value> {
    let base = env.draws(m, p);
    let mut q = p.clone();
    let tc = TableKind::TapeCommitments;
    let k = random_table(r);
    let batched = p.whole.is_some() && !PUBLIC_TABLE_KINDS.contains(&k);
    let msg = match r.below(6) {
        0 => { let s = r.below(2) as usize; let i = r.below(32) as usize; q.values[tc][s][i][0] += other(r); json!({"kind": "public", "table": ""}) }
        1 => { q.entry += other(r); json!({"kind": "entry", "table": ""}) }
        w @ 2..=4 => {
            let w = w as usize - 2;
            let v = if batched { cap_of(q.whole.as_mut()?, w) } else { cap_of(&mut q.proofs[k], w) };
            let i = r.below(v.len() as u64) as usize;
            v[i].elements[r.below(4) as usize] += other(r);
            json!({"kind": CAPS[w], "table": if batched { "batch".into() } else { format!("{k:?}") }})
        }
        _ => {
            let class = r.below(6) as usize;
            let n = open_len(&mut q.proofs[k], class);
            if n == 0 { return None }
            open_add(&mut q.proofs[k], class, r.below(n as u64) as usize, other(r));
            json!({"kind": "opening", "table": if batched { "batch".into() } else { format!("{k:?}") }})
        }
    };
    let new = env.draws(m, &q);
    let changed: Vec<bool> = base.iter().zip(&new).map(|(a, b)| a != b).collect();
    Some(json!({"ev": "draws", "on": on(p), "msg": msg, "n": base.len(), "m": new.len(), "changed": changed}))
}
fn on(p: &Parts) -> &'static str { if p.whole.is_some() { "batch" } else { "single" } }

fn bytes(v: &[F]) -> Option<Vec<u8>> { v.iter().map(|x| u8::try_from(x.to_canonical_u64()).ok()).collect() }
fn published(q: &ProofWithPublicInputs<F, C, D>) -> Value {
    let Ok(a) = <[F; VM_PUBLIC_INPUT_SIZE]>::try_from(q.public_inputs.clone()) else { return json!({"entry": [], "id": "?", "event": [], "cast": []}) };
    let v: VMRecursiveProofPublicInputs<F> = a.into();
    json!({"entry": crate::util::w(v.entry_point.to_canonical_u64() as u32), "id": bytes(&v.program_hash_as_bytes).map_or("?".into(), |b| hex(&b)),
        "event": bytes(&v.event_commitment_tape).unwrap_or_default(), "cast": bytes(&v.castlist_commitment_tape).unwrap_or_default()})
}
fn honest(env: &Env, m: &Made, p: &Parts) -> Value {
    let j = env.judge(m, p);
    let tc = TableKind::TapeCommitments;
    let flat = |i: usize| -> Vec<u8> { bytes(&p.values[tc][i].iter().flatten().copied().collect::<Vec<_>>()).unwrap_or_default() };
    json!({"ev": "honest", "on": on(p), "n": env.draws(m, p).len(), "native": j.native, "rec": j.rec.is_some(),
        "proof": {"entry": crate::util::w(p.entry.to_canonical_u64() as u32), "id": hex(&p.id), "event": flat(0), "cast": flat(1)},
        "published": j.rec.as_ref().map_or(json!({}), published)})
}

pub fn main(out: &str, n: usize, shards: usize, shard: usize, per: usize, seed: u64) {
    let env = Env::new();
    let mut o = Out::new(&format!("{out}.{shard}"));
    let names: Vec<String> = kinds().iter().map(|k| format!("{k:?}")).collect();
    let mut publics: Vec<String> = kinds().into_iter().filter(|k| PUBLIC_TABLE_KINDS.contains(k)).map(|k| format!("{k:?}")).collect();
    o.line(&json!({"ev": "tables", "names": names, "separate": publics, "challenges": env.config.num_challenges}));
    publics.clear();
    let mut last: Option<Made> = None;
    for i in (shard..n).step_by(shards) {
        let mut r = Rng::new(seed * 1_000_003 + i as u64);
        let case = gen(i / shards, &mut r);
        let Some((program, rec)) = run_case(&case) else { continue };
        let Ok(traces) = guard(|| traces_of(&program, &rec)) else { continue };
        // (what the tables lack is another property's business)
        if !env.sys.violations(&traces, F::from_canonical_u32(program.entry_point), &Dirty::all(), 1).is_empty() { continue }
        let id = runner::get_self_prog_id::<F, C, D>(&program, &env.config);
        o.line(&json!({"ev": "run", "entry": crate::util::w(case.pc), "id": hex(&id.0 .0), "event": case.fixed[0].to_vec(), "cast": case.fixed[1].to_vec()}));
        let Some(m) = guard(|| env.make(case, program, rec, traces)).ok().flatten() else { o.line(&json!({"ev": "unproved"})); continue };
        for p in [&m.single, &m.batch] { o.line(&honest(&env, &m, p)); }
        let old = last.as_ref().unwrap_or(&m);
        let same = |k: TableKind| old.bits[k] == m.bits[k];
        for j in 0..per {
            let (p, q) = if j % 2 == 0 { (&m.single, &old.single) } else { (&m.batch, &old.batch) };
            let put = |o: &mut Out, ev: &str, q: &Parts, what: Value, fine: bool| {
                let jd = env.judge(&m, q);
                o.line(&json!({"ev": ev, "on": on(q), "what": what, "fine": fine, "native": jd.native, "rec": jd.rec.is_some()}));
            };
            if let Some((q, what, noop)) = alter(&env, p, q, &same, &mut r) { put(&mut o, "alter", &q, what, noop) }
            if j % 4 == 0 { if let Some((q, what, sat)) = forge(&env, &m, &mut r) { put(&mut o, "forge", &q, what, sat) } }
            if j % 8 == 1 { if let Some((q, what)) = forge_batch(&env, &m, &mut r) { put(&mut o, "forge", &q, what, false) } }
            if j % 2 == 0 { if let Some(v) = bind(&env, &m, if j % 4 == 0 { &m.single } else { &m.batch }, &mut r) { o.line(&v) } }
        }
        for p in [&m.single, &m.batch] { if let Some((q, what, noop)) = late(&env, &m, p, &mut r) {
            let jd = env.judge(&m, &q);
            o.line(&json!({"ev": "alter", "on": on(&q), "what": what, "fine": noop, "native": jd.native, "rec": jd.rec.is_some()}));
        } }
        last = Some(m);
    }
    let _ = exec::TN;
    o.done();
}
