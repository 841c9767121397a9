use std::fmt::Debug;

use serde::de::DeserializeOwned;
use serde::Serialize;

use crate::field::extension::{Extendable, FieldExtension, QuadraticExtension};
use crate::field::goldilocks_field::GoldilocksField;
use crate::hash::hash_types::{HashOut, RichField};
use crate::hash::hashing::PlonkyPermutation;
use crate::hash::poseidon2::{Poseidon2Hash, PoseidonHash};

pub trait GenericHashOut<F: RichField>: Copy + Clone + Debug + Eq + PartialEq + Send + Sync + Serialize + DeserializeOwned {
    fn to_bytes(&self) -> Vec<u8>;
    fn from_bytes(bytes: &[u8]) -> Self;
    fn to_vec(&self) -> Vec<F>;
}
pub trait Hasher<F: RichField>: Sized + Copy + Debug + Eq + PartialEq + Send + Sync {
    const HASH_SIZE: usize;
    type Hash: GenericHashOut<F>;
    type Permutation: PlonkyPermutation<F>;
    fn hash_no_pad(input: &[F]) -> Self::Hash;
    fn hash_pad(input: &[F]) -> Self::Hash {
        let mut p = input.to_vec();
        p.push(F::ONE);
        while (p.len() + 1) % Self::Permutation::WIDTH != 0 { p.push(F::ZERO); }
        p.push(F::ONE);
        Self::hash_no_pad(&p)
    }
    fn hash_or_noop(inputs: &[F]) -> Self::Hash { Self::hash_no_pad(inputs) }
    fn two_to_one(left: Self::Hash, right: Self::Hash) -> Self::Hash;
}
pub trait AlgebraicHasher<F: RichField>: Hasher<F, Hash = HashOut<F>> {}
pub trait GenericConfig<const D: usize>: Debug + Clone + Sync + Sized + Send + Eq + PartialEq + 'static {
    type F: RichField + Extendable<D, Extension = Self::FE>;
    type FE: FieldExtension<D, BaseField = Self::F>;
    type Hasher: Hasher<Self::F>;
    type InnerHasher: AlgebraicHasher<Self::F>;
}
#[derive(Debug, Copy, Clone, Default, Eq, PartialEq, Serialize)]
pub struct Poseidon2GoldilocksConfig;
impl GenericConfig<2> for Poseidon2GoldilocksConfig {
    type F = GoldilocksField;
    type FE = QuadraticExtension<GoldilocksField>;
    type Hasher = Poseidon2Hash;
    type InnerHasher = Poseidon2Hash;
}
#[derive(Debug, Copy, Clone, Default, Eq, PartialEq, Serialize)]
pub struct PoseidonGoldilocksConfig;
impl GenericConfig<2> for PoseidonGoldilocksConfig {
    type F = GoldilocksField;
    type FE = QuadraticExtension<GoldilocksField>;
    type Hasher = PoseidonHash;
    type InnerHasher = PoseidonHash;
}
