use std::fmt::Debug;

use serde::{Deserialize, Serialize};

use crate::field::goldilocks_field::{GoldilocksField, ORDER};
use crate::field::types::{Field, PrimeField64};
use crate::hash::hash_types::{HashOut, RichField};
use crate::hash::hashing::{compress, hash_n_to_hash_no_pad, PlonkyPermutation};
use crate::plonk::config::{AlgebraicHasher, Hasher};

pub const SPONGE_RATE: usize = 8;
pub const SPONGE_CAPACITY: usize = 4;
pub const WIDTH: usize = 12;
pub const SPONGE_WIDTH: usize = 12;
pub const ROUND_F_BEGIN: usize = 4;
pub const ROUND_F_END: usize = 2 * ROUND_F_BEGIN;
pub const ROUND_P: usize = 22;

const fn consts<const N: usize>(mut s: u64) -> [u64; N] {
    let mut out = [0u64; N];
    let mut i = 0;
    while i < N {
        s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        out[i] = (z ^ (z >> 31)) % ORDER;
        i += 1;
    }
    out
}

pub trait Poseidon2: PrimeField64 {
    const MAT_DIAG12_M_1: [u64; WIDTH];
    const RC12: [u64; 96];
    const RC12_MID: [u64; ROUND_P];

    fn sbox_monomial<F: Field>(x: F) -> F { let x2 = x.square(); let x3 = x * x2; x3.square() * x }
    fn sbox_layer<F: Field>(state: &mut [F; WIDTH]) { for x in state.iter_mut() { *x = Self::sbox_monomial(*x); } }
    fn constant_layer<F: Field>(state: &mut [F; WIDTH], round_ctr: usize) {
        for i in 0..WIDTH { state[i] += F::from_canonical_u64(Self::RC12[round_ctr + i]); }
    }
    fn matmul_external<F: Field>(state: &mut [F; WIDTH]) {
        for b in 0..3 {
            let [x0, x1, x2, x3] = [state[4 * b], state[4 * b + 1], state[4 * b + 2], state[4 * b + 3]];
            let t0 = x0 + x1;
            let t1 = x2 + x3;
            let t2 = x1.double() + t1;
            let t3 = x3.double() + t0;
            let t4 = t1.double().double() + t3;
            let t5 = t0.double().double() + t2;
            state[4 * b] = t3 + t5;
            state[4 * b + 1] = t5;
            state[4 * b + 2] = t2 + t4;
            state[4 * b + 3] = t4;
        }
        let mut s = [F::ZERO; 4];
        for l in 0..4 { s[l] = state[l] + state[4 + l] + state[8 + l]; }
        for i in 0..WIDTH { state[i] += s[i % 4]; }
    }
    fn matmul_internal<F: Field>(state: &mut [F; WIDTH], diag: &[u64; WIDTH]) {
        let sum: F = state.iter().copied().sum();
        for i in 0..WIDTH {
            state[i] = state[i] * (F::from_canonical_u64(diag[i]) - F::ONE) + sum;
        }
    }
    fn poseidon2(input: [Self; WIDTH]) -> [Self; WIDTH] {
        let mut s = input;
        Self::matmul_external(&mut s);
        for r in 0..ROUND_F_BEGIN { Self::constant_layer(&mut s, r); Self::sbox_layer(&mut s); Self::matmul_external(&mut s); }
        for r in 0..ROUND_P {
            s[0] += Self::from_canonical_u64(Self::RC12_MID[r]);
            s[0] = Self::sbox_monomial(s[0]);
            Self::matmul_internal(&mut s, &Self::MAT_DIAG12_M_1);
        }
        for r in ROUND_F_BEGIN..ROUND_F_END { Self::constant_layer(&mut s, r); Self::sbox_layer(&mut s); Self::matmul_external(&mut s); }
        s
    }
}
impl Poseidon2 for GoldilocksField {
    const MAT_DIAG12_M_1: [u64; WIDTH] = consts(11);
    const RC12: [u64; 96] = consts(22);
    const RC12_MID: [u64; ROUND_P] = consts(33);
}

#[derive(Copy, Clone, Default, Debug, PartialEq, Eq)]
pub struct Poseidon2Permutation<T> { state: [T; WIDTH] }
impl<T> AsRef<[T]> for Poseidon2Permutation<T> { fn as_ref(&self) -> &[T] { &self.state } }
pub trait Permuter: Sized { fn permute(input: [Self; WIDTH]) -> [Self; WIDTH]; }
impl<F: Poseidon2> Permuter for F { fn permute(input: [Self; WIDTH]) -> [Self; WIDTH] { <F as Poseidon2>::poseidon2(input) } }
impl<T: Copy + Debug + Default + Eq + Permuter + Send + Sync> PlonkyPermutation<T> for Poseidon2Permutation<T> {
    const RATE: usize = SPONGE_RATE;
    const WIDTH: usize = WIDTH;
    fn new<I: IntoIterator<Item = T>>(elts: I) -> Self {
        let mut p = Self { state: [T::default(); WIDTH] };
        p.set_from_iter(elts, 0);
        p
    }
    fn set_elt(&mut self, elt: T, idx: usize) { self.state[idx] = elt; }
    fn set_from_slice(&mut self, elts: &[T], start: usize) { self.state[start..start + elts.len()].copy_from_slice(elts); }
    fn set_from_iter<I: IntoIterator<Item = T>>(&mut self, elts: I, start: usize) {
        for (s, e) in self.state[start..].iter_mut().zip(elts) { *s = e; }
    }
    fn permute(&mut self) { self.state = T::permute(self.state); }
    fn squeeze(&self) -> &[T] { &self.state[..Self::RATE] }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
pub struct Poseidon2Hash;
impl<F: RichField> Hasher<F> for Poseidon2Hash {
    const HASH_SIZE: usize = 32;
    type Hash = HashOut<F>;
    type Permutation = Poseidon2Permutation<F>;
    fn hash_no_pad(input: &[F]) -> Self::Hash {
        let r = hash_n_to_hash_no_pad::<F, Self::Permutation>(input);
        observer::note(input, &r);
        r
    }
    fn two_to_one(left: Self::Hash, right: Self::Hash) -> Self::Hash {
        let r = compress::<F, Self::Permutation>(left, right);
        let both: Vec<F> = left.elements.into_iter().chain(right.elements).collect();
        observer::note(&both, &r);
        r
    }
}
impl<F: RichField> AlgebraicHasher<F> for Poseidon2Hash {}

#[derive(Copy, Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
pub struct PoseidonHash;
impl<F: RichField> Hasher<F> for PoseidonHash {
    const HASH_SIZE: usize = 32;
    type Hash = HashOut<F>;
    type Permutation = Poseidon2Permutation<F>;
    fn hash_no_pad(input: &[F]) -> Self::Hash { hash_n_to_hash_no_pad::<F, Self::Permutation>(input) }
    fn two_to_one(left: Self::Hash, right: Self::Hash) -> Self::Hash { compress::<F, Self::Permutation>(left, right) }
}
impl<F: RichField> AlgebraicHasher<F> for PoseidonHash {}

/// Lets a driver invert the hash: every `hash_no_pad` call is recorded as
/// output -> preimage, so a digest can be decoded back into the term it is the
/// hash of.
pub mod observer {
    use std::cell::RefCell;
    use std::collections::HashMap;
    use crate::field::types::PrimeField64;
    use crate::hash::hash_types::HashOut;
    thread_local! { static MAP: RefCell<Option<HashMap<[u64; 4], Vec<u64>>>> = RefCell::new(None); }
    pub fn start() { MAP.with(|m| *m.borrow_mut() = Some(HashMap::new())); }
    pub fn stop() { MAP.with(|m| *m.borrow_mut() = None); }
    pub fn preimage(h: [u64; 4]) -> Option<Vec<u64>> { MAP.with(|m| m.borrow().as_ref().and_then(|m| m.get(&h).cloned())) }
    /// everything hashed since `start`, as (preimage, digest)
    pub fn all() -> Vec<(Vec<u64>, [u64; 4])> { MAP.with(|m| m.borrow().as_ref().map(|m| m.iter().map(|(k, v)| (v.clone(), *k)).collect()).unwrap_or_default()) }
    pub(crate) fn note<F: PrimeField64>(input: &[F], out: &HashOut<F>) {
        MAP.with(|m| if let Some(m) = m.borrow_mut().as_mut() {
            m.insert(out.elements.map(|e| e.to_canonical_u64()), input.iter().map(|e| e.to_canonical_u64()).collect());
        });
    }
}
