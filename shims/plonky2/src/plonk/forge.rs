//! A dishonest prover.
//!
//! Between `start` and `stop`, every successful `prove` is noted as a fact (circuit, public
//! inputs, the proofs that were verified inside), and is then used as the starting point of
//! attempts to prove something else with the same circuit: some values are replaced, inner
//! proofs are swapped for other known ones or for proofs of a circuit of the prover's own,
//! and the rest of the witness is completed by unit propagation through the constraints.
//! An attempt counts only if the full set of constraints holds. What was proved is a fact as
//! well; whether it *should* have been provable is for the reader to decide.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

use crate::field::extension::Extendable;
use crate::hash::hash_types::RichField;
use crate::hash::poseidon2::PoseidonHash;
use crate::iop::target::Target;
use crate::iop::witness::PartialWitness;
use crate::plonk::circuit_builder::Op;
use crate::plonk::circuit_data::*;
use crate::plonk::config::{GenericConfig, Hasher};
use crate::plonk::proof::MockProof;

/// proofs of a circuit that are kept for other attempts
const POOL: usize = 48;
const RECORDS: usize = 6;
pub type Digest = [u64; 4];
/// the prover's own circuit, which is satisfied by anything
pub const FAKE: Digest = [0xFA4E, 0xFA4E, 0xFA4E, 0xFA4E];
#[derive(Clone, Debug)]
pub struct Fact { pub digest: Digest, pub pis: Vec<u64>, pub kids: Vec<MockProof>, pub how: Option<String> }

#[derive(Default)]
struct Watch { by_rep: Vec<Vec<u32>>, base: Vec<Option<u64>> }
struct State {
    attempts: usize, every: u64, seed: u64,
    recursive: HashSet<Digest>,
    facts: Vec<Fact>,
    focus: HashSet<Digest>,
    seen: HashSet<(Digest, Vec<u64>, Vec<MockProof>)>,
    pool: HashMap<Digest, Vec<Arc<MockProof>>>,
    /// circuits that were proved, and how, lately
    known: HashMap<Digest, Known>,
    stats: [u64; 3],
}
/// the same for every field
struct Known { circuit: Rc<dyn Any>, records: Vec<Rc<dyn Any>> }
struct Circuit<F> { ops: Vec<Op<F>>, rep: Vec<usize>, pis: Vec<Target>, watch: Rc<Watch>, held: HashSet<usize>, ids: Vec<usize> }
struct Record<F> { given: Vec<(Target, F)>, honest: Vec<Option<F>>, proofs: Proofs }
thread_local! { static STATE: RefCell<Option<State>> = const { RefCell::new(None) }; }

/// `attempts` for one in `every` proofs of the circuits in `focus`, one for the others;
/// `recursive` circuits may verify a proof of their own
pub fn start(seed: u64, attempts: usize, every: u64, recursive: &[Digest], focus: HashSet<Digest>) {
    STATE.with(|s| *s.borrow_mut() = Some(State { attempts, every, focus, recursive: recursive.iter().copied().collect(), seed: seed | 1, facts: vec![], seen: HashSet::new(), pool: HashMap::new(), known: HashMap::new(), stats: [0; 3] }));
}
pub fn stop() { STATE.with(|s| *s.borrow_mut() = None); }
pub fn take() -> Vec<Fact> { STATE.with(|s| s.borrow_mut().as_mut().map(|s| std::mem::take(&mut s.facts)).unwrap_or_default()) }
/// proofs, attempts, accepted attempts
pub fn stats() -> [u64; 3] { STATE.with(|s| s.borrow().as_ref().map(|s| s.stats).unwrap_or_default()) }

impl State {
    fn next(&mut self) -> u64 {
        self.seed = self.seed.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.seed;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    fn chance(&mut self, a: u64, b: u64) -> bool { self.next() % b < a }
    fn add(&mut self, f: Fact) {
        if !self.seen.insert((f.digest, f.pis.clone(), f.kids.clone())) { return; }
        let proof = Arc::new(MockProof { digest: f.digest, public_inputs: f.pis.clone() });
        let n = self.next();
        let v = self.pool.entry(f.digest).or_default();
        if v.len() < POOL { v.push(proof) } else { v[n as usize % POOL] = proof }
        self.facts.push(f);
    }
}

struct Solver<'a, F> { rep: &'a [usize], ops: &'a [Op<F>], watch: &'a Watch, vals: Vec<Option<F>>, trail: Vec<usize>, queue: Vec<u32> }
impl<F: RichField> Solver<'_, F> {
    fn get(&self, t: Target) -> Option<F> { self.vals[self.rep[t.0]] }
    fn set(&mut self, t: Target, v: F) -> bool { self.assign(self.rep[t.0], v) }
    fn assign(&mut self, r: usize, v: F) -> bool {
        if let Some(old) = self.vals[r] { return old == v; }
        self.vals[r] = Some(v);
        self.trail.push(r);
        self.queue.extend(&self.watch.by_rep[r]);
        true
    }
    fn undo(&mut self, mark: usize) {
        self.queue.clear();
        while self.trail.len() > mark { let r = self.trail.pop().unwrap(); self.vals[r] = None; }
    }
    fn propagate(&mut self) -> bool {
        while let Some(i) = self.queue.pop() {
            if !self.deduce(i as usize) { return false; }
        }
        true
    }
    /// assign and follow the consequences; nothing changes if that fails
    fn try_set(&mut self, r: usize, v: F) -> bool {
        let mark = self.trail.len();
        if self.assign(r, v) && self.propagate() { return true; }
        self.undo(mark);
        false
    }
    fn deduce(&mut self, i: usize) -> bool {
        let ops = self.ops;
        match &ops[i] {
            Op::Const { out, v } => self.set(*out, *v),
            Op::Arith { c0, c1, x, y, z, out } => {
                // a linear equation in at most one unknown
                let (vx, vy) = (self.get(*x), self.get(*y));
                let mut sum = F::ZERO;
                let mut terms: Vec<(usize, F)> = vec![];
                match (vx, vy) {
                    (Some(a), Some(b)) => sum += *c0 * a * b,
                    (Some(a), None) => terms.push((self.rep[y.0], *c0 * a)),
                    (None, Some(b)) => terms.push((self.rep[x.0], *c0 * b)),
                    (None, None) => if !c0.is_zero() { return true },
                }
                match self.get(*z) { Some(v) => sum += *c1 * v, None => terms.push((self.rep[z.0], *c1)) }
                match self.get(*out) { Some(v) => sum -= v, None => terms.push((self.rep[out.0], F::NEG_ONE)) }
                let mut unknown: Option<(usize, F)> = None;
                for (r, c) in terms {
                    if c.is_zero() { continue; }
                    match &mut unknown {
                        None => unknown = Some((r, c)),
                        Some((q, d)) if *q == r => *d += c,
                        Some((_, d)) if d.is_zero() => unknown = Some((r, c)),
                        Some(_) => return true,
                    }
                }
                match unknown {
                    Some((r, c)) if !c.is_zero() => self.assign(r, -sum * c.inverse()),
                    _ => sum.is_zero(),
                }
            }
            Op::Inv { x, inv } => match (self.get(*x), self.get(*inv)) {
                (Some(a), _) => !a.is_zero() && self.set(*inv, a.inverse()),
                (_, Some(a)) => !a.is_zero() && self.set(*x, a.inverse()),
                _ => true,
            },
            Op::Eq { x, y, out } => match (self.get(*x), self.get(*y), self.get(*out)) {
                (Some(a), Some(b), _) => self.set(*out, F::from_bool(a == b)),
                (Some(a), None, Some(o)) if o.is_one() => self.set(*y, a),
                (None, Some(a), Some(o)) if o.is_one() => self.set(*x, a),
                _ => true,
            },
            Op::Bool { x } => self.get(*x).map_or(true, |v| v.is_zero() || v.is_one()),
            Op::Range { x, n } => self.get(*x).map_or(true, |v| *n >= 64 || v.to_canonical_u64() >> n == 0),
            Op::Split { x, bits } => match self.get(*x) {
                Some(v) => {
                    let v = v.to_canonical_u64();
                    if bits.len() < 64 && v >> bits.len() != 0 { return false; }
                    bits.iter().enumerate().all(|(i, b)| self.set(*b, F::from_bool(i < 64 && v >> i & 1 == 1)))
                }
                None => match bits.iter().map(|b| self.get(*b)).collect::<Option<Vec<F>>>() {
                    Some(b) => self.set(*x, b.iter().rev().fold(F::ZERO, |s, b| s.double() + *b)),
                    None => true,
                },
            },
            Op::LowHigh { x, n, low, high, .. } => match (self.get(*x), self.get(*low), self.get(*high)) {
                (Some(v), ..) => {
                    let v = v.to_canonical_u64();
                    let (l, h) = if *n >= 64 { (v, 0) } else { (v & ((1 << n) - 1), v >> n) };
                    self.set(*low, F::from_canonical_u64(l)) && self.set(*high, F::from_canonical_u64(h))
                }
                (None, Some(l), Some(h)) => self.set(*x, l + h * F::TWO.exp_u64(*n as u64)),
                _ => true,
            },
            Op::Hash { input, out } => match input.iter().map(|t| self.get(*t)).collect::<Option<Vec<F>>>() {
                // not noted: most attempts come to nothing
                Some(v) => { let h = <PoseidonHash as Hasher<F>>::hash_no_pad(&v).elements; (0..4).all(|i| self.set(out[i], h[i])) }
                None => true,
            },
            // the recursion circuits of the node use none of these
            Op::Permute { .. } | Op::Ext { .. } | Op::ExtInv { .. } | Op::Fri(_) | Op::Verify { .. } => true,
        }
    }
}
fn vars<F>(op: &Op<F>) -> Vec<Target> {
    match op {
        Op::Const { out, .. } => vec![*out],
        Op::Arith { x, y, z, out, .. } => vec![*x, *y, *z, *out],
        Op::Inv { x, inv } => vec![*x, *inv],
        Op::Eq { x, y, out } => vec![*x, *y, *out],
        Op::Bool { x } | Op::Range { x, .. } => vec![*x],
        Op::Split { x, bits } => bits.iter().chain([x]).copied().collect(),
        Op::LowHigh { x, low, high, .. } => vec![*x, *low, *high],
        Op::Hash { input, out } => input.iter().chain(out).copied().collect(),
        _ => vec![],
    }
}

fn kids<F>(ops: &[Op<F>], proofs: &Proofs) -> Vec<usize> {
    ops.iter().filter_map(|o| if let Op::Verify { proof, .. } = o { Some(*proof) } else { None }).filter(|i| proofs.contains_key(i)).collect()
}

pub(crate) fn after<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
    c: &CircuitData<F, C, D>, inputs: &PartialWitness<F>, honest: &[Option<F>], pis: &[u64],
) {
    let Some(mut s) = STATE.with(|s| s.borrow_mut().take()) else { return };
    let p = &c.prover_only;
    let digest = c.digest();
    s.stats[0] += 1;
    s.add(Fact { digest, pis: pis.to_vec(), kids: kids(&p.ops, &inputs.proofs).iter().map(|i| (*inputs.proofs[i]).clone()).collect(), how: None });
    let circuit: Rc<Circuit<F>> = s.known.get(&digest).map(|k| k.circuit.clone().downcast().unwrap()).unwrap_or_else(|| {
        let mut w = Watch { by_rep: vec![vec![]; p.rep.len()], base: vec![None; p.rep.len()] };
        for (i, o) in p.ops.iter().enumerate() {
            let mut v: Vec<usize> = vars(o).iter().map(|t| p.rep[t.0]).collect();
            v.sort_unstable();
            v.dedup();
            for r in v { w.by_rep[r].push(i as u32); }
        }
        let mut z = Solver::<F> { rep: &p.rep, ops: &p.ops, watch: &w, vals: vec![None; p.rep.len()], trail: vec![], queue: (0..p.ops.len() as u32).collect() };
        assert!(z.propagate(), "contradicting constants");
        w.base = z.vals.iter().map(|v| v.map(|v| v.to_canonical_u64())).collect();
        let held = p.ops.iter().filter_map(|o| if let Op::Verify { pis, .. } = o { Some(pis) } else { None }).flatten().map(|t| p.rep[t.0]).collect();
        let c = Rc::new(Circuit { ops: p.ops.clone(), rep: p.rep.clone(), pis: p.public_inputs.clone(), watch: Rc::new(w), held, ids: kids(&p.ops, &inputs.proofs) });
        s.known.insert(digest, Known { circuit: c.clone(), records: vec![] });
        c
    });
    let mut given: Vec<(Target, F)> = inputs.target_values.iter().map(|(t, v)| (*t, *v)).collect();
    given.sort_by_key(|g| g.0);
    let record = Rc::new(Record { given, honest: honest.to_vec(), proofs: inputs.proofs.clone() });
    let k = s.known.get_mut(&digest).unwrap();
    if k.records.len() == RECORDS { k.records.remove(0); }
    k.records.push(record.clone());
    if !inputs.fri.is_empty() { STATE.with(|t| *t.borrow_mut() = Some(s)); return; }
    if s.chance(1, s.every) {
        for _ in 0..if s.focus.contains(&digest) { s.attempts } else { 1 } {
            s.stats[1] += 1;
            let f = if !circuit.ids.is_empty() && s.chance(1, 3) {
                aim::<F, D>(&mut s, digest, &circuit, &record, pis)
            } else {
                attempt::<F, D>(&mut s, digest, &circuit, &record, pis)
            };
            if let Some(f) = f { s.stats[2] += 1; s.add(f); }
        }
    }
    STATE.with(|t| *t.borrow_mut() = Some(s));
}

fn value(s: &mut State, old: u64, all: &[u64]) -> u64 {
    const P: u64 = 0xFFFF_FFFF_0000_0001;
    match s.below(8) {
        0 => 0,
        1 => 1,
        2 => (old + 1) % P,
        3 => if old == 0 { P - 1 } else { old - 1 },
        4 => P - 1,
        5 => s.next() % P,
        6 => 1u64 << s.below(45),
        _ => all[s.below(all.len())],
    }
}
/// some other values in `v`
fn disturb(s: &mut State, v: &mut [u64], all: &[u64]) -> String {
    let i = s.below(v.len());
    if s.chance(1, 2) && v.len() >= 4 {
        // a digest for another
        let i = i.min(v.len() - 4);
        let from: [u64; 4] = if s.chance(1, 5) || all.len() < 4 { [0; 4] } else { let j = s.below(all.len() - 3); core::array::from_fn(|k| all[j + k]) };
        v[i..i + 4].copy_from_slice(&from);
        format!("4 at {i}")
    } else {
        v[i] = value(s, v[i], all);
        format!("1 at {i}")
    }
}

fn attempt<F: RichField + Extendable<D>, const D: usize>(
    s: &mut State, digest: Digest, c: &Circuit<F>, rec: &Record<F>, pis: &[u64],
) -> Option<Fact> {
    let num = F::from_canonical_u64;
    let mut z = c.solver();
    let mut how: Vec<String> = vec![];

    // ---- other inner proofs
    let mut proofs = rec.proofs.clone();
    let ids = &c.ids;
    if !ids.is_empty() && s.chance(3, 4) {
        let way = s.below(5);
        let same = s.chance(1, 3);
        let mut first: Option<Arc<MockProof>> = None;
        for id in ids {
            if !s.chance(2, 3) { continue; }
            let old = proofs[id].clone();
            let new = match (&first, way) {
                (Some(f), _) if same && f.public_inputs.len() == old.public_inputs.len() => f.clone(),
                // another proof of the same circuit
                (_, 0) => { let v = &s.pool.get(&old.digest).cloned().unwrap_or_default(); if v.is_empty() { continue } v[s.below(v.len())].clone() }
                // one that claims nearly the same
                (_, 1) => {
                    let mut v: Vec<(usize, Arc<MockProof>)> = s.pool.get(&old.digest).into_iter().flatten()
                        .map(|q| (q.public_inputs.iter().zip(&old.public_inputs).filter(|(a, b)| a != b).count(), q.clone()))
                        .filter(|q| q.0 > 0).collect();
                    if v.is_empty() { continue }
                    v.sort_by_key(|q| q.0);
                    let n = v.len().min(4);
                    v[s.below(n)].1.clone()
                }
                // of another circuit
                (_, 2) => {
                    let mut v: Vec<_> = s.pool.values().flatten().filter(|q| q.public_inputs.len() == old.public_inputs.len()).cloned().collect();
                    v.sort_by(|a, b| (a.digest, &a.public_inputs).cmp(&(b.digest, &b.public_inputs)));
                    if v.is_empty() { continue }
                    v[s.below(v.len())].clone()
                }
                // of the prover's own circuit, which claims to be the one of the recursion
                _ => {
                    let mut v = old.public_inputs.clone();
                    for _ in 0..s.below(3) { disturb(s, &mut v, pis); }
                    let mut i = 0;
                    while i + 4 <= v.len() {
                        let d: Digest = core::array::from_fn(|k| v[i + k]);
                        if s.recursive.contains(&d) { v[i..i + 4].copy_from_slice(&FAKE); i += 4; } else { i += 1; }
                    }
                    Arc::new(MockProof { digest: FAKE, public_inputs: v })
                }
            };
            if first.is_none() { first = Some(new.clone()); }
            if new != old { how.push(format!("kid {id} ({way})")); }
            proofs.insert(*id, new);
        }
    }
    // ---- other values
    if how.is_empty() || s.chance(1, 2) {
        change(s, c, rec, &mut z, &mut how, false)?;
    }
    if how.is_empty() || !z.propagate() { return None; }
    // ---- what the verification of the inner proofs asks for
    for o in &c.ops {
        let Op::Verify { proof, pis, digest, cap } = o else { continue };
        let Some(q) = proofs.get(proof) else { return None };
        if q.public_inputs.len() != pis.len() { return None; }
        for (t, v) in pis.iter().zip(&q.public_inputs) { if !z.set(*t, num(*v)) { return None; } }
        for d in cap.iter().chain([digest]) { for i in 0..4 { if !z.set(d[i], num(q.digest[i])) { return None; } } }
    }
    if !z.propagate() { return None; }
    fill(s, c, rec, &mut z);
    let f = finish::<F, D>(digest, c, z.vals, &proofs, how.join(", "))?;
    (f.pis != pis || f.kids.iter().zip(&c.ids).any(|(k, i)| *k != *rec.proofs[i])).then_some(f)
}

impl<F: RichField> Circuit<F> {
    fn solver(&self) -> Solver<'_, F> {
        Solver { rep: &self.rep, ops: &self.ops, watch: &self.watch, vals: self.watch.base.iter().map(|v| v.map(F::from_canonical_u64)).collect(), trail: vec![], queue: vec![] }
    }
}
/// some of the values that are up to the prover, differently
fn change<F: RichField>(s: &mut State, c: &Circuit<F>, rec: &Record<F>, z: &mut Solver<F>, how: &mut Vec<String>, inner: bool) -> Option<()> {
    let all: Vec<u64> = rec.given.iter().map(|g| g.1.to_canonical_u64()).collect();
    let mut free: Vec<Target> = rec.given.iter().map(|g| g.0).chain(c.pis.iter().copied()).filter(|t| !c.held.contains(&c.rep[t.0])).collect();
    if inner { for o in &c.ops { if let Op::Verify { pis, .. } = o { free.extend(pis); } } }
    if free.is_empty() { return Some(()); }
    let old: Vec<u64> = free.iter().map(|t| rec.honest[c.rep[t.0]].map_or(0, |v| v.to_canonical_u64())).collect();
    let all = if inner { &old } else { &all };
    for _ in 0..1 + s.below(3) {
        let mut v = old.clone();
        if inner && s.chance(1, 3) {
            // a flag the other way
            let flags: Vec<usize> = (0..v.len()).filter(|i| v[*i] < 2).collect();
            if flags.is_empty() { continue; }
            let i = flags[s.below(flags.len())];
            v[i] = 1 - v[i];
            how.push(format!("flag {i}"));
        } else {
            how.push(disturb(s, &mut v, all));
        }
        for i in 0..v.len() {
            if v[i] != old[i] && !z.set(free[i], F::from_canonical_u64(v[i])) { return None; }
        }
    }
    Some(())
}
/// the rest as it was, as far as that is possible
fn fill<F: RichField>(s: &mut State, c: &Circuit<F>, rec: &Record<F>, z: &mut Solver<F>) {
    let mut given: Vec<(Target, F)> = rec.given.clone();
    if s.chance(1, 2) { for i in (1..given.len()).rev() { given.swap(i, s.below(i + 1)); } }
    let old = given.iter().map(|(t, v)| (c.rep[t.0], *v)).chain((0..c.rep.len()).filter(|r| c.rep[*r] == *r).filter_map(|r| rec.honest[r].map(|v| (r, v))));
    for (r, v) in old {
        if z.vals[r].is_none() && !z.try_set(r, v) && (v.is_zero() || v.is_one()) { z.try_set(r, F::ONE - v); }
    }
}
/// the proof, if all the constraints hold
fn finish<F: RichField + Extendable<D>, const D: usize>(digest: Digest, c: &Circuit<F>, vals: Vec<Option<F>>, proofs: &Proofs, how: String) -> Option<Fact> {
    let w = Wires { rep: &c.rep, vals };
    for op in &c.ops { op.check::<D>(&w, proofs, &HashMap::new()).ok()?; }
    let pis = c.pis.iter().map(|t| w.full(*t).to_canonical_u64()).collect();
    Some(Fact { digest, pis, kids: c.ids.iter().map(|i| (*proofs[i]).clone()).collect(), how: Some(how) })
}

/// Something is to be different, and the inner proofs are made anew to suit it.
fn aim<F: RichField + Extendable<D>, const D: usize>(
    s: &mut State, digest: Digest, c: &Circuit<F>, rec: &Record<F>, pis: &[u64],
) -> Option<Fact> {
    let mut z = c.solver();
    let mut how = vec!["aim".to_string()];
    change(s, c, rec, &mut z, &mut how, true)?;
    let f = suit::<F, D>(s, digest, c, rec, z, how.join(", "), 3)?;
    (f.pis != pis || f.kids.iter().zip(&c.ids).any(|(k, i)| *k != *rec.proofs[i])).then_some(f)
}
fn suit<F: RichField + Extendable<D>, const D: usize>(
    s: &mut State, digest: Digest, c: &Circuit<F>, rec: &Record<F>, mut z: Solver<F>, how: String, depth: usize,
) -> Option<Fact> {
    if !z.propagate() { return None; }
    let mut proofs = rec.proofs.clone();
    let mut todo: Vec<usize> = (0..c.ids.len()).collect();
    while !todo.is_empty() {
        // those first about which something is known to be different
        let differs = |z: &Solver<F>, k: usize| {
            let Some(Op::Verify { pis, .. }) = c.ops.iter().find(|o| matches!(o, Op::Verify { proof, .. } if *proof == c.ids[k])) else { unreachable!() };
            let old = &rec.proofs[&c.ids[k]].public_inputs;
            (pis.clone(), pis.len() != old.len() || pis.iter().zip(old).any(|(t, v)| z.get(*t).is_some_and(|x| x.to_canonical_u64() != *v)))
        };
        let at = (0..todo.len()).find(|i| differs(&z, todo[*i]).1).unwrap_or_else(|| s.below(todo.len()));
        let k = todo.remove(at);
        let (targets, other) = differs(&z, k);
        let old = rec.proofs[&c.ids[k]].clone();
        let new = if !other { old } else {
            if depth == 0 || old.public_inputs.len() != targets.len() { return None; }
            let goal: Vec<Option<u64>> = targets.iter().map(|t| z.get(*t).map(|v| v.to_canonical_u64())).collect();
            remake::<F, D>(s, old.digest, &old.public_inputs, &goal, depth - 1)?
        };
        let Some(Op::Verify { digest, cap, .. }) = c.ops.iter().find(|o| matches!(o, Op::Verify { proof, .. } if *proof == c.ids[k])) else { unreachable!() };
        for (t, v) in targets.iter().zip(&new.public_inputs) { if !z.set(*t, F::from_canonical_u64(*v)) { return None; } }
        for d in cap.iter().chain([digest]) { for i in 0..4 { if !z.set(d[i], F::from_canonical_u64(new.digest[i])) { return None; } } }
        proofs.insert(c.ids[k], new);
        if !z.propagate() { return None; }
    }
    fill(s, c, rec, &mut z);
    finish::<F, D>(digest, c, z.vals, &proofs, how)
}
/// a proof of the circuit that claims what is in `goal`, and preferably the same as `old` otherwise
fn remake<F: RichField + Extendable<D>, const D: usize>(s: &mut State, digest: Digest, old: &[u64], goal: &[Option<u64>], depth: usize) -> Option<Arc<MockProof>> {
    let fits = |p: &[u64]| p.iter().zip(goal).all(|(v, g)| g.map_or(true, |g| g == *v));
    if s.chance(1, 4) {
        let v: Vec<_> = s.pool.get(&digest).into_iter().flatten().filter(|q| fits(&q.public_inputs)).cloned().collect();
        if !v.is_empty() { return Some(v[s.below(v.len())].clone()); }
    }
    let k = s.known.get(&digest)?;
    let c: Rc<Circuit<F>> = k.circuit.clone().downcast().ok()?;
    let records: Vec<Rc<Record<F>>> = k.records.iter().map(|r| r.clone().downcast().unwrap()).collect();
    // how the old one was made, if that is remembered
    let same = |r: &&Rc<Record<F>>| c.pis.iter().zip(old).all(|(t, v)| r.honest[c.rep[t.0]].is_some_and(|x| x.to_canonical_u64() == *v));
    let rec = records.iter().rev().find(same).cloned().unwrap_or_else(|| records[s.below(records.len())].clone());
    let mut z = c.solver();
    for (t, g) in c.pis.iter().zip(goal) { if let Some(g) = g { if !z.set(*t, F::from_canonical_u64(*g)) { return None; } } }
    let f = suit::<F, D>(s, digest, &c, &rec, z, "remade".into(), depth)?;
    let proof = Arc::new(MockProof { digest, public_inputs: f.pis.clone() });
    s.add(f);
    Some(proof)
}
