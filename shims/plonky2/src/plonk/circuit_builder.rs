//! The mock circuit builder: see the crate documentation.
use std::borrow::Borrow;
use std::collections::HashMap;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher as _};
use std::marker::PhantomData;

use anyhow::Result;

use crate::field::extension::Extendable;
use crate::field::types::{Field, PrimeField64};
use crate::hash::hash_types::*;
use crate::hash::hashing::PlonkyPermutation;
use crate::hash::merkle_tree::MerkleCap;
use crate::hash::poseidon2::{Poseidon2, Poseidon2Hash};
use crate::fri::proof::*;
use crate::fri::structure::*;
use crate::fri::FriParams;
use crate::field::extension::FieldExtension;
use crate::iop::target::*;
use crate::plonk::circuit_data::*;
use crate::plonk::config::*;
use crate::plonk::proof::*;

#[derive(Clone, Debug, PartialEq)]
pub(crate) struct FriClaim {
    pub id: usize,
    pub cap_height: usize,
    pub caps: Vec<Vec<[Target; 4]>>,
    /// (degree bits, polynomials per oracle)
    pub layout: Vec<(usize, Vec<usize>)>,
    /// (point, (oracle, polynomial) pairs, opening values)
    pub batches: Vec<(Vec<Target>, Vec<(usize, usize)>, Vec<Vec<Target>>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub(crate) enum Op<F> {
    Const { out: Target, v: F },
    /// out = c0*x*y + c1*z
    Arith { c0: F, c1: F, x: Target, y: Target, z: Target, out: Target },
    /// inv * x == 1
    Inv { x: Target, inv: Target },
    /// out = (x == y)
    Eq { x: Target, y: Target, out: Target },
    Bool { x: Target },
    Split { x: Target, bits: Vec<Target> },
    LowHigh { x: Target, n: usize, total: usize, low: Target, high: Target },
    Range { x: Target, n: usize },
    Hash { input: Vec<Target>, out: [Target; 4] },
    Verify { proof: usize, pis: Vec<Target>, digest: [Target; 4], cap: Vec<[Target; 4]> },
    Permute { input: [Target; 12], out: [Target; 12] },
    /// out = c0*x*y + c1*z in the extension (w = the non-residue)
    Ext { c0: F, c1: F, w: F, x: [Target; 2], y: [Target; 2], z: [Target; 2], out: [Target; 2] },
    /// x * inv == 1 in the extension
    ExtInv { w: F, x: [Target; 2], inv: [Target; 2] },
    Fri(Box<FriClaim>),
}

fn get2<F: Field>(w: &Wires<'_, F>, t: &[Target; 2]) -> Option<[F; 2]> { Some([w.get(t[0])?, w.get(t[1])?]) }
fn mul2<F: Field>(w: F, x: [F; 2], y: [F; 2]) -> [F; 2] { [x[0] * y[0] + w * x[1] * y[1], x[0] * y[1] + x[1] * y[0]] }
fn small(v: u64, bits: usize) -> bool { bits >= 64 || v < (1u64 << bits) }

impl<F: RichField> Op<F> {
    /// Run the generator if its inputs are there; `true` when it is done.
    pub fn run(&self, w: &mut Wires<'_, F>) -> bool {
        match self {
            Op::Const { out, v } => { w.set(*out, *v); true }
            Op::Arith { c0, c1, x, y, z, out } => match (w.get(*x), w.get(*y), w.get(*z)) {
                (Some(x), Some(y), Some(z)) => { w.set(*out, *c0 * x * y + *c1 * z); true }
                _ => false,
            },
            Op::Inv { x, inv } => match w.get(*x) { Some(x) => { w.set(*inv, x.inverse()); true } None => false },
            Op::Eq { x, y, out } => match (w.get(*x), w.get(*y)) {
                (Some(x), Some(y)) => { w.set(*out, F::from_bool(x == y)); true }
                _ => false,
            },
            Op::Split { x, bits } => match w.get(*x) {
                Some(x) => {
                    let x = x.to_canonical_u64();
                    for (i, b) in bits.iter().enumerate() { w.set(*b, F::from_bool(i < 64 && (x >> i) & 1 == 1)); }
                    true
                }
                None => false,
            },
            Op::LowHigh { x, n, low, high, .. } => match w.get(*x) {
                Some(x) => {
                    let x = x.to_canonical_u64();
                    w.set(*low, F::from_canonical_u64(if *n >= 64 { x } else { x & ((1u64 << n) - 1) }));
                    w.set(*high, F::from_canonical_u64(if *n >= 64 { 0 } else { x >> n }));
                    true
                }
                None => false,
            },
            Op::Hash { input, out } => {
                let Some(v) = input.iter().map(|t| w.get(*t)).collect::<Option<Vec<F>>>() else { return false };
                let h = <Poseidon2Hash as Hasher<F>>::hash_no_pad(&v);
                for (t, v) in out.iter().zip(h.elements) { w.set(*t, v); }
                true
            }
            Op::Permute { input, out } => {
                let Some(v) = input.iter().map(|t| w.get(*t)).collect::<Option<Vec<F>>>() else { return false };
                let r = <F as Poseidon2>::poseidon2(v.try_into().unwrap());
                for (t, v) in out.iter().zip(r) { w.set(*t, v); }
                true
            }
            Op::Ext { c0, c1, w: nr, x, y, z, out } => match (get2(w, x), get2(w, y), get2(w, z)) {
                (Some(x), Some(y), Some(z)) => {
                    let m = mul2(*nr, x, y);
                    for i in 0..2 { w.set(out[i], *c0 * m[i] + *c1 * z[i]); }
                    true
                }
                _ => false,
            },
            Op::ExtInv { w: nr, x, inv } => match get2(w, x) {
                Some([a, b]) => {
                    let n = (a * a - *nr * b * b).inverse();
                    w.set(inv[0], a * n);
                    w.set(inv[1], -b * n);
                    true
                }
                None => false,
            },
            Op::Fri(_) => true,
            Op::Bool { .. } | Op::Range { .. } | Op::Verify { .. } => true,
        }
    }

    /// Evaluate the constraint.
    pub fn check<const D: usize>(&self, w: &Wires<'_, F>, proofs: &Proofs, fri: &FriData) -> Result<()> where F: Extendable<D> {
        let ok = match self {
            Op::Const { out, v } => w.full(*out) == *v,
            Op::Arith { c0, c1, x, y, z, out } => w.full(*out) == *c0 * w.full(*x) * w.full(*y) + *c1 * w.full(*z),
            Op::Inv { x, inv } => w.full(*x) * w.full(*inv) == F::ONE,
            Op::Eq { x, y, out } => w.full(*out) == F::from_bool(w.full(*x) == w.full(*y)),
            Op::Bool { x } => { let x = w.full(*x); x.is_zero() || x.is_one() }
            Op::Split { x, bits } => {
                let mut s = F::ZERO;
                for b in bits.iter().rev() { s = s.double() + w.full(*b); }
                s == w.full(*x)
            }
            Op::LowHigh { x, n, total, low, high } => {
                let (l, h) = (w.full(*low), w.full(*high));
                small(l.to_canonical_u64(), *n) && small(h.to_canonical_u64(), total - n)
                    && l + h * F::TWO.exp_u64(*n as u64) == w.full(*x)
            }
            Op::Range { x, n } => small(w.full(*x).to_canonical_u64(), *n),
            Op::Hash { input, out } => {
                let v: Vec<F> = input.iter().map(|t| w.full(*t)).collect();
                let h = <Poseidon2Hash as Hasher<F>>::hash_no_pad(&v);
                out.iter().zip(h.elements).all(|(t, v)| w.full(*t) == v)
            }
            Op::Permute { input, out } => {
                let r = <F as Poseidon2>::poseidon2(input.map(|t| w.full(t)));
                out.iter().zip(r).all(|(t, v)| w.full(*t) == v)
            }
            Op::Ext { c0, c1, w: nr, x, y, z, out } => {
                let m = mul2(*nr, x.map(|t| w.full(t)), y.map(|t| w.full(t)));
                (0..2).all(|i| w.full(out[i]) == *c0 * m[i] + *c1 * w.full(z[i]))
            }
            Op::ExtInv { w: nr, x, inv } => mul2(*nr, x.map(|t| w.full(t)), inv.map(|t| w.full(t))) == [F::ONE, F::ZERO],
            Op::Fri(c) => match fri.get(&c.id) {
                None => return fail("no FRI proof supplied"),
                Some(d) => {
                    let data: Vec<Vec<F>> = d.iter().map(|v| v.iter().map(|x| F::from_noncanonical_u64(*x)).collect()).collect();
                    let refs: Vec<&[F]> = data.iter().map(|v| &v[..]).collect();
                    let polys = crate::fri::verifier::split(&c.layout, &refs)?;
                    if polys.len() != c.caps.len() { return fail("fri: number of oracles"); }
                    for (cap, ps) in c.caps.iter().zip(&polys) {
                        let want = crate::fri::oracle::cap::<F, Poseidon2Hash>(ps.iter().copied(), c.cap_height);
                        for (h, t) in want.0.iter().zip(cap) {
                            if h.elements != t.map(|t| w.full(t)) { return fail("fri: polynomials are not the committed ones"); }
                        }
                    }
                    let ext = |t: &[Target]| F::Extension::from_basefield_array(core::array::from_fn(|i| w.full(t[i])));
                    for (x, infos, values) in &c.batches {
                        let infos: Vec<FriPolynomialInfo> = infos.iter().map(|(o, p)| FriPolynomialInfo { oracle_index: *o, polynomial_index: *p }).collect();
                        let vals: Vec<F::Extension> = values.iter().map(|v| ext(v)).collect();
                        crate::fri::verifier::opens::<F, D>(&polys, ext(x), &infos, &vals)?;
                    }
                    true
                }
            },
            Op::Verify { proof, pis, digest, cap } => match proofs.get(proof) {
                None => return fail("no proof supplied for verification"),
                Some(p) => {
                    let d = digest.map(|t| w.full(t).to_canonical_u64());
                    let pis: Vec<u64> = pis.iter().map(|t| w.full(*t).to_canonical_u64()).collect();
                    // The cap of a mock circuit is its digest, repeated.
                    p.digest == d && p.public_inputs == pis
                        && cap.iter().all(|c| c.map(|t| w.full(t).to_canonical_u64()) == d)
                }
            },
        };
        if ok { Ok(()) } else { fail(&format!("{self:?}")) }
    }
}

#[derive(Debug)]
pub struct CircuitBuilder<F: RichField + Extendable<D>, const D: usize> {
    pub config: CircuitConfig,
    next: usize,
    gates: usize,
    proofs: usize,
    fris: usize,
    ops: Vec<Op<F>>,
    connections: Vec<(Target, Target)>,
    public_inputs: Vec<Target>,
    /// equal operations share their result
    ext_results: HashMap<(F, F, [[Target; D]; 3]), ExtensionTarget<D>>,
    constants: HashMap<F, Target>,
}

impl<F: RichField + Extendable<D>, const D: usize> CircuitBuilder<F, D> {
    pub fn new(config: CircuitConfig) -> Self {
        Self { config, next: 0, gates: 0, proofs: 0, fris: 0, ops: vec![], connections: vec![], public_inputs: vec![], ext_results: HashMap::new(), constants: HashMap::new() }
    }
    fn op(&mut self, o: Op<F>) { self.gates += 1; self.ops.push(o); }

    pub fn num_gates(&self) -> usize { self.gates }
    pub fn add_gate<G>(&mut self, _g: G, _c: Vec<F>) -> usize { self.gates += 1; self.gates - 1 }
    pub fn add_gate_to_gate_set(&mut self, _g: crate::gates::gate::GateRef) {}

    pub fn register_public_input(&mut self, t: Target) { self.public_inputs.push(t); }
    pub fn register_public_inputs(&mut self, ts: &[Target]) { ts.iter().for_each(|&t| self.register_public_input(t)); }
    pub fn num_public_inputs(&self) -> usize { self.public_inputs.len() }
    pub fn public_inputs(&self) -> &[Target] { &self.public_inputs }
    pub fn add_virtual_public_input(&mut self) -> Target { let t = self.add_virtual_target(); self.register_public_input(t); t }

    pub fn add_virtual_target(&mut self) -> Target { let t = Target(self.next); self.next += 1; t }
    pub fn add_virtual_targets(&mut self, n: usize) -> Vec<Target> { (0..n).map(|_| self.add_virtual_target()).collect() }
    pub fn add_virtual_target_arr<const N: usize>(&mut self) -> [Target; N] { core::array::from_fn(|_| self.add_virtual_target()) }
    pub fn add_virtual_hash(&mut self) -> HashOutTarget { HashOutTarget { elements: self.add_virtual_target_arr() } }
    pub fn add_virtual_hashes(&mut self, n: usize) -> Vec<HashOutTarget> { (0..n).map(|_| self.add_virtual_hash()).collect() }
    pub fn add_virtual_hash_public_input(&mut self) -> HashOutTarget { HashOutTarget { elements: core::array::from_fn(|_| self.add_virtual_public_input()) } }
    pub fn add_virtual_cap(&mut self, h: usize) -> MerkleCapTarget { MerkleCapTarget(self.add_virtual_hashes(1 << h)) }
    pub fn add_virtual_bool_target_unsafe(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.add_virtual_target()) }
    pub fn add_virtual_bool_target_safe(&mut self) -> BoolTarget { let b = self.add_virtual_bool_target_unsafe(); self.assert_bool(b); b }
    pub fn add_virtual_verifier_data(&mut self, h: usize) -> VerifierCircuitTarget {
        VerifierCircuitTarget { constants_sigmas_cap: self.add_virtual_cap(h), circuit_digest: self.add_virtual_hash() }
    }
    pub fn add_verifier_data_public_inputs(&mut self) -> VerifierCircuitTarget {
        let v = self.add_virtual_verifier_data(self.config.fri_config.cap_height);
        self.register_public_inputs(&v.circuit_digest.elements);
        for i in 0..self.config.fri_config.num_cap_elements() { self.register_public_inputs(&v.constants_sigmas_cap.0[i].elements); }
        v
    }
    pub fn add_virtual_proof_with_pis(&mut self, common: &CommonCircuitData<F, D>) -> ProofWithPublicInputsTarget<D> {
        self.proofs += 1;
        let public_inputs = self.add_virtual_targets(common.num_public_inputs);
        ProofWithPublicInputsTarget { proof: ProofTarget { id: self.proofs - 1 }, public_inputs }
    }
    pub fn constant_verifier_data<C: GenericConfig<D, F = F>>(&mut self, vd: &VerifierOnlyCircuitData<C, D>) -> VerifierCircuitTarget
    where C::Hasher: AlgebraicHasher<F> {
        VerifierCircuitTarget {
            constants_sigmas_cap: MerkleCapTarget(vd.constants_sigmas_cap.0.iter().map(|h| self.constant_hash(*h)).collect()),
            circuit_digest: self.constant_hash(vd.circuit_digest),
        }
    }
    pub fn constant_merkle_cap<H: Hasher<F, Hash = HashOut<F>>>(&mut self, cap: &MerkleCap<F, H>) -> MerkleCapTarget {
        MerkleCapTarget(cap.0.iter().map(|h| self.constant_hash(*h)).collect())
    }

    pub fn verify_proof<C: GenericConfig<D, F = F>>(
        &mut self, p: &ProofWithPublicInputsTarget<D>, vd: &VerifierCircuitTarget, common: &CommonCircuitData<F, D>,
    ) where C::Hasher: AlgebraicHasher<F> {
        assert_eq!(p.public_inputs.len(), common.num_public_inputs);
        self.op(Op::Verify {
            proof: p.proof.id, pis: p.public_inputs.clone(), digest: vd.circuit_digest.elements,
            cap: vd.constants_sigmas_cap.0.iter().map(|h| h.elements).collect(),
        });
    }

    pub fn connect(&mut self, x: Target, y: Target) { self.connections.push((x, y)); }
    pub fn connect_hashes(&mut self, x: HashOutTarget, y: HashOutTarget) { for i in 0..4 { self.connect(x.elements[i], y.elements[i]); } }
    pub fn connect_merkle_caps(&mut self, x: &MerkleCapTarget, y: &MerkleCapTarget) {
        assert_eq!(x.0.len(), y.0.len());
        for (a, b) in x.0.iter().zip(&y.0) { self.connect_hashes(*a, *b); }
    }
    pub fn connect_verifier_data(&mut self, x: &VerifierCircuitTarget, y: &VerifierCircuitTarget) {
        self.connect_merkle_caps(&x.constants_sigmas_cap, &y.constants_sigmas_cap);
        self.connect_hashes(x.circuit_digest, y.circuit_digest);
    }
    pub fn assert_zero(&mut self, x: Target) { let z = self.zero(); self.connect(x, z); }
    pub fn assert_one(&mut self, x: Target) { let o = self.one(); self.connect(x, o); }
    pub fn assert_bool(&mut self, b: BoolTarget) { self.op(Op::Bool { x: b.target }); }

    pub fn constant(&mut self, v: F) -> Target {
        if let Some(t) = self.constants.get(&v) { return *t; }
        let out = self.add_virtual_target();
        self.op(Op::Const { out, v });
        self.constants.insert(v, out);
        out
    }
    pub fn constants(&mut self, v: &[F]) -> Vec<Target> { v.iter().map(|v| self.constant(*v)).collect() }
    pub fn constant_bool(&mut self, b: bool) -> BoolTarget { if b { self._true() } else { self._false() } }
    pub fn constant_hash(&mut self, h: HashOut<F>) -> HashOutTarget { HashOutTarget { elements: h.elements.map(|e| self.constant(e)) } }
    pub fn zero(&mut self) -> Target { self.constant(F::ZERO) }
    pub fn one(&mut self) -> Target { self.constant(F::ONE) }
    pub fn two(&mut self) -> Target { self.constant(F::TWO) }
    pub fn neg_one(&mut self) -> Target { self.constant(F::NEG_ONE) }
    pub fn _false(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.zero()) }
    pub fn _true(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.one()) }

    pub fn arithmetic(&mut self, c0: F, c1: F, x: Target, y: Target, z: Target) -> Target {
        let out = self.add_virtual_target();
        self.op(Op::Arith { c0, c1, x, y, z, out });
        out
    }
    pub fn add(&mut self, x: Target, y: Target) -> Target { let o = self.one(); self.arithmetic(F::ONE, F::ONE, x, o, y) }
    pub fn sub(&mut self, x: Target, y: Target) -> Target { let o = self.one(); self.arithmetic(F::ONE, F::NEG_ONE, x, o, y) }
    pub fn mul(&mut self, x: Target, y: Target) -> Target { self.arithmetic(F::ONE, F::ZERO, x, y, x) }
    pub fn neg(&mut self, x: Target) -> Target { let n = self.neg_one(); self.mul(x, n) }
    pub fn square(&mut self, x: Target) -> Target { self.mul(x, x) }
    pub fn cube(&mut self, x: Target) -> Target { let s = self.square(x); self.mul(x, s) }
    pub fn mul_add(&mut self, x: Target, y: Target, z: Target) -> Target { self.arithmetic(F::ONE, F::ONE, x, y, z) }
    pub fn mul_sub(&mut self, x: Target, y: Target, z: Target) -> Target { self.arithmetic(F::ONE, F::NEG_ONE, x, y, z) }
    pub fn add_const(&mut self, x: Target, c: F) -> Target { let c = self.constant(c); self.add(x, c) }
    pub fn mul_const(&mut self, c: F, x: Target) -> Target { let c = self.constant(c); self.mul(c, x) }
    pub fn mul_const_add(&mut self, c: F, x: Target, y: Target) -> Target { let c = self.constant(c); self.mul_add(c, x, y) }
    pub fn add_many<T: Borrow<Target>>(&mut self, ts: impl IntoIterator<Item = T>) -> Target {
        let z = self.zero();
        ts.into_iter().fold(z, |a, t| self.add(a, *t.borrow()))
    }
    pub fn mul_many<T: Borrow<Target>>(&mut self, ts: impl IntoIterator<Item = T>) -> Target {
        let o = self.one();
        ts.into_iter().fold(o, |a, t| self.mul(a, *t.borrow()))
    }
    pub fn inverse(&mut self, x: Target) -> Target {
        let inv = self.add_virtual_target();
        self.op(Op::Inv { x, inv });
        inv
    }
    pub fn div(&mut self, x: Target, y: Target) -> Target { let i = self.inverse(y); self.mul(x, i) }
    pub fn not(&mut self, b: BoolTarget) -> BoolTarget {
        let o = self.one();
        BoolTarget::new_unsafe(self.sub(o, b.target))
    }
    pub fn and(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget { BoolTarget::new_unsafe(self.mul(a.target, b.target)) }
    pub fn or(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget {
        let r = self.arithmetic(F::NEG_ONE, F::ONE, a.target, b.target, a.target);
        BoolTarget::new_unsafe(self.add(r, b.target))
    }
    pub fn _if(&mut self, b: BoolTarget, x: Target, y: Target) -> Target { self.select(b, x, y) }
    /// `if b { x } else { y }`
    pub fn select(&mut self, b: BoolTarget, x: Target, y: Target) -> Target {
        let t = self.mul_sub(b.target, y, y);
        self.mul_sub(b.target, x, t)
    }
    pub fn select_hash(&mut self, b: BoolTarget, x: HashOutTarget, y: HashOutTarget) -> HashOutTarget {
        HashOutTarget { elements: core::array::from_fn(|i| self.select(b, x.elements[i], y.elements[i])) }
    }
    pub fn is_equal(&mut self, x: Target, y: Target) -> BoolTarget {
        let out = self.add_virtual_target();
        self.op(Op::Eq { x, y, out });
        BoolTarget::new_unsafe(out)
    }
    pub fn is_nonzero(&mut self, x: Target) -> BoolTarget {
        let z = self.zero();
        let e = self.is_equal(x, z);
        self.not(e)
    }
    pub fn conditional_assert_eq(&mut self, c: Target, x: Target, y: Target) {
        let d = self.sub(x, y);
        let m = self.mul(c, d);
        self.assert_zero(m);
    }
    pub fn split_le(&mut self, x: Target, n: usize) -> Vec<BoolTarget> {
        let bits: Vec<BoolTarget> = (0..n).map(|_| self.add_virtual_bool_target_safe()).collect();
        self.op(Op::Split { x, bits: bits.iter().map(|b| b.target).collect() });
        bits
    }
    pub fn le_sum(&mut self, bits: impl Iterator<Item = impl Borrow<BoolTarget>> + DoubleEndedIterator) -> Target {
        let z = self.zero();
        let two = self.two();
        bits.rev().fold(z, |a, b| self.mul_add(a, two, b.borrow().target))
    }
    pub fn split_low_high(&mut self, x: Target, n: usize, total: usize) -> (Target, Target) {
        let low = self.add_virtual_target();
        let high = self.add_virtual_target();
        self.op(Op::LowHigh { x, n, total, low, high });
        (low, high)
    }
    pub fn range_check(&mut self, x: Target, n: usize) { self.op(Op::Range { x, n }); }
    pub fn hash_n_to_hash_no_pad<H: AlgebraicHasher<F>>(&mut self, input: Vec<Target>) -> HashOutTarget {
        let out = self.add_virtual_target_arr();
        self.op(Op::Hash { input, out });
        HashOutTarget { elements: out }
    }
    pub fn hash_or_noop<H: AlgebraicHasher<F>>(&mut self, input: Vec<Target>) -> HashOutTarget { self.hash_n_to_hash_no_pad::<H>(input) }

    pub fn permute(&mut self, input: [Target; 12]) -> [Target; 12] {
        let out = self.add_virtual_target_arr();
        self.op(Op::Permute { input, out });
        out
    }
    pub fn hash_pad<H: AlgebraicHasher<F>>(&mut self, mut input: Vec<Target>) -> HashOutTarget {
        let (z, o) = (self.zero(), self.one());
        input.push(o);
        while (input.len() + 1) % H::Permutation::WIDTH != 0 { input.push(z); }
        input.push(o);
        self.hash_n_to_hash_no_pad::<H>(input)
    }

    // ---- extension arithmetic (quadratic only)
    fn ext2(t: ExtensionTarget<D>) -> [Target; 2] { assert_eq!(D, 2); [t.0[0], t.0[1]] }
    pub fn arithmetic_extension(&mut self, c0: F, c1: F, x: ExtensionTarget<D>, y: ExtensionTarget<D>, z: ExtensionTarget<D>) -> ExtensionTarget<D> {
        let key = (c0, c1, [x.0, y.0, z.0]);
        if let Some(out) = self.ext_results.get(&key) { return *out; }
        let out = self.add_virtual_extension_target();
        self.ext_results.insert(key, out);
        self.op(Op::Ext { c0, c1, w: F::W, x: Self::ext2(x), y: Self::ext2(y), z: Self::ext2(z), out: Self::ext2(out) });
        out
    }
    pub fn add_virtual_extension_target(&mut self) -> ExtensionTarget<D> { ExtensionTarget(self.add_virtual_target_arr()) }
    pub fn add_virtual_extension_targets(&mut self, n: usize) -> Vec<ExtensionTarget<D>> { (0..n).map(|_| self.add_virtual_extension_target()).collect() }
    pub fn constant_extension(&mut self, c: F::Extension) -> ExtensionTarget<D> { ExtensionTarget(c.to_basefield_array().map(|c| self.constant(c))) }
    pub fn zero_extension(&mut self) -> ExtensionTarget<D> { self.constant_extension(F::Extension::ZERO) }
    pub fn one_extension(&mut self) -> ExtensionTarget<D> { self.constant_extension(F::Extension::ONE) }
    pub fn convert_to_ext(&mut self, t: Target) -> ExtensionTarget<D> { let z = self.zero(); let mut a = [z; D]; a[0] = t; ExtensionTarget(a) }
    pub fn connect_extension(&mut self, x: ExtensionTarget<D>, y: ExtensionTarget<D>) { for i in 0..D { self.connect(x.0[i], y.0[i]); } }
    pub fn add_extension(&mut self, x: ExtensionTarget<D>, y: ExtensionTarget<D>) -> ExtensionTarget<D> { let o = self.one_extension(); self.arithmetic_extension(F::ONE, F::ONE, x, o, y) }
    pub fn sub_extension(&mut self, x: ExtensionTarget<D>, y: ExtensionTarget<D>) -> ExtensionTarget<D> { let o = self.one_extension(); self.arithmetic_extension(F::ONE, F::NEG_ONE, x, o, y) }
    pub fn mul_extension(&mut self, x: ExtensionTarget<D>, y: ExtensionTarget<D>) -> ExtensionTarget<D> { self.arithmetic_extension(F::ONE, F::ZERO, x, y, x) }
    pub fn square_extension(&mut self, x: ExtensionTarget<D>) -> ExtensionTarget<D> { self.mul_extension(x, x) }
    pub fn mul_add_extension(&mut self, x: ExtensionTarget<D>, y: ExtensionTarget<D>, z: ExtensionTarget<D>) -> ExtensionTarget<D> { self.arithmetic_extension(F::ONE, F::ONE, x, y, z) }
    pub fn mul_sub_extension(&mut self, x: ExtensionTarget<D>, y: ExtensionTarget<D>, z: ExtensionTarget<D>) -> ExtensionTarget<D> { self.arithmetic_extension(F::ONE, F::NEG_ONE, x, y, z) }
    pub fn scalar_mul_ext(&mut self, a: Target, x: ExtensionTarget<D>) -> ExtensionTarget<D> { let a = self.convert_to_ext(a); self.mul_extension(a, x) }
    pub fn scalar_mul_add_extension(&mut self, a: Target, b: ExtensionTarget<D>, c: ExtensionTarget<D>) -> ExtensionTarget<D> { let a = self.convert_to_ext(a); self.mul_add_extension(a, b, c) }
    pub fn mul_const_extension(&mut self, c: F, x: ExtensionTarget<D>) -> ExtensionTarget<D> { let c = self.constant_extension(c.into()); self.mul_extension(c, x) }
    pub fn add_const_extension(&mut self, x: ExtensionTarget<D>, c: F) -> ExtensionTarget<D> { let c = self.constant_extension(c.into()); self.add_extension(x, c) }
    pub fn inverse_extension(&mut self, x: ExtensionTarget<D>) -> ExtensionTarget<D> {
        let inv = self.add_virtual_extension_target();
        self.op(Op::ExtInv { w: F::W, x: Self::ext2(x), inv: Self::ext2(inv) });
        inv
    }
    pub fn div_extension(&mut self, x: ExtensionTarget<D>, y: ExtensionTarget<D>) -> ExtensionTarget<D> { let i = self.inverse_extension(y); self.mul_extension(x, i) }
    pub fn exp_power_of_2_extension(&mut self, mut x: ExtensionTarget<D>, n: usize) -> ExtensionTarget<D> { for _ in 0..n { x = self.square_extension(x); } x }
    pub fn inner_product_extension(&mut self, c: F, start: ExtensionTarget<D>, pairs: Vec<(ExtensionTarget<D>, ExtensionTarget<D>)>) -> ExtensionTarget<D> {
        pairs.into_iter().fold(start, |a, (x, y)| self.arithmetic_extension(c, F::ONE, x, y, a))
    }
    pub fn add_many_extension(&mut self, ts: &[ExtensionTarget<D>]) -> ExtensionTarget<D> { let z = self.zero_extension(); ts.iter().fold(z, |a, t| self.add_extension(a, *t)) }

    // ---- the transparent polynomial commitment
    pub fn add_virtual_fri_proof(&mut self, num_leaves_per_oracle: &[usize], params: &FriParams) -> FriProofTarget<D> {
        self.fris += 1;
        let z = self.zero();
        let siblings = vec![HashOutTarget { elements: [z; 4] }; params.lde_bits() - params.config.cap_height];
        FriProofTarget {
            commit_phase_merkle_caps: vec![],
            query_round_proofs: vec![FriQueryRoundTarget { initial_trees_proof: FriInitialTreeProofTarget {
                evals_proofs: num_leaves_per_oracle.iter().map(|_| (vec![], MerkleProofTarget { siblings: siblings.clone() })).collect() } }],
            final_poly: PolynomialCoeffsExtTarget(vec![]),
            pow_witness: self.add_virtual_target(),
            id: self.fris - 1,
        }
    }
    pub fn verify_fri_proof<C: GenericConfig<D, F = F>>(&mut self, instance: &FriInstanceInfoTarget<D>, openings: &FriOpeningsTarget<D>, ch: &FriChallengesTarget<D>, caps: &[MerkleCapTarget], proof: &FriProofTarget<D>, params: &FriParams)
    where C::Hasher: AlgebraicHasher<F> {
        self.verify_batch_fri_proof::<C>(&[params.degree_bits], std::slice::from_ref(instance), std::slice::from_ref(openings), ch, caps, proof, params);
    }
    pub fn verify_batch_fri_proof<C: GenericConfig<D, F = F>>(&mut self, degree_bits: &[usize], instances: &[FriInstanceInfoTarget<D>], openings: &[FriOpeningsTarget<D>], _ch: &FriChallengesTarget<D>, caps: &[MerkleCapTarget], proof: &FriProofTarget<D>, params: &FriParams)
    where C::Hasher: AlgebraicHasher<F> {
        let batches = instances.iter().zip(openings).flat_map(|(i, o)| i.batches.iter().zip(&o.batches).map(|(b, v)| (
            b.point.0.to_vec(),
            b.polynomials.iter().map(|p| (p.oracle_index, p.polynomial_index)).collect(),
            v.values.iter().map(|v| v.0.to_vec()).collect(),
        ))).collect();
        self.op(Op::Fri(Box::new(FriClaim {
            id: proof.id,
            cap_height: params.config.cap_height,
            caps: caps.iter().map(|c| c.0.iter().map(|h| h.elements).collect()).collect(),
            layout: degree_bits.iter().zip(instances).map(|(d, i)| (*d, i.oracles.iter().map(|o| o.num_polys).collect())).collect(),
            batches,
        })));
    }

    pub fn build<C: GenericConfig<D, F = F>>(self) -> CircuitData<F, C, D> {
        // copy constraints -> representatives
        let mut rep: Vec<usize> = (0..self.next).collect();
        fn find(rep: &mut [usize], mut x: usize) -> usize {
            while rep[x] != x { rep[x] = rep[rep[x]]; x = rep[x]; }
            x
        }
        for (a, b) in &self.connections {
            let (a, b) = (find(&mut rep, a.0), find(&mut rep, b.0));
            if a != b { let (lo, hi) = (a.min(b), a.max(b)); rep[hi] = lo; }
        }
        for i in 0..self.next { let r = find(&mut rep, i); rep[i] = r; }
        struct Feed(DefaultHasher);
        impl std::fmt::Write for Feed { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.write(s.as_bytes()); Ok(()) } }
        use std::fmt::Write as _;
        let mut f = Feed(DefaultHasher::new());
        for o in &self.ops { write!(f, "{o:?}").unwrap(); }
        write!(f, "|{:?}|{:?}|{:?}", self.connections, self.public_inputs, self.config).unwrap();
        let digest: [F; 4] = core::array::from_fn(|k| {
            let mut h = f.0.clone();
            k.hash(&mut h);
            F::from_noncanonical_u64(h.finish() >> 1)
        });
        let hash_bytes: Vec<u8> = HashOut { elements: digest }.to_bytes();
        let h = <C::Hasher as Hasher<F>>::Hash::from_bytes(&hash_bytes);
        let n = 1usize << self.config.fri_config.cap_height;
        CircuitData {
            common: CommonCircuitData {
                num_public_inputs: self.public_inputs.len(), config: self.config, gates: vec![], _f: PhantomData,
            },
            verifier_only: VerifierOnlyCircuitData { constants_sigmas_cap: MerkleCap(vec![h; n]), circuit_digest: h },
            prover_only: ProverOnlyCircuitData { public_inputs: self.public_inputs, ops: self.ops, rep, _p: PhantomData },
        }
    }
}
#[allow(unused)]
fn _p<P: PlonkyPermutation<u8>>() {}
