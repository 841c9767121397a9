use serde::{Deserialize, Serialize};

use crate::field::goldilocks_field::GoldilocksField;
use crate::field::types::{Field, PrimeField64, Sample};
use crate::hash::poseidon2::Poseidon2;
use crate::iop::target::Target;
use crate::plonk::config::GenericHashOut;

pub const NUM_HASH_OUT_ELTS: usize = 4;

pub trait RichField: PrimeField64 + Poseidon2 {}
impl RichField for GoldilocksField {}

#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
pub struct HashOut<F: Field> { pub elements: [F; NUM_HASH_OUT_ELTS] }

impl<F: Field> Serialize for HashOut<F> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.elements.serialize(s) }
}
impl<'de, F: Field> Deserialize<'de> for HashOut<F> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Self { elements: <[F; 4]>::deserialize(d)? })
    }
}
impl<F: Field> HashOut<F> {
    pub const ZERO: Self = Self { elements: [F::ZERO; NUM_HASH_OUT_ELTS] };
    pub fn from_vec(elements: Vec<F>) -> Self { Self { elements: elements.try_into().unwrap() } }
    pub fn from_partial(e: &[F]) -> Self {
        let mut elements = [F::ZERO; 4];
        elements[..e.len()].copy_from_slice(e);
        Self { elements }
    }
}
impl<F: Field> From<[F; 4]> for HashOut<F> { fn from(elements: [F; 4]) -> Self { Self { elements } } }
impl<F: Field> From<HashOut<F>> for [F; 4] { fn from(h: HashOut<F>) -> Self { h.elements } }
impl<F: Field> TryFrom<&[F]> for HashOut<F> {
    type Error = anyhow::Error;
    fn try_from(e: &[F]) -> Result<Self, Self::Error> {
        anyhow::ensure!(e.len() == 4);
        Ok(Self { elements: e.try_into().unwrap() })
    }
}
impl<F: Field> Default for HashOut<F> { fn default() -> Self { Self::ZERO } }
impl<F: Field> Sample for HashOut<F> { fn rand() -> Self { Self { elements: core::array::from_fn(|_| F::rand()) } } }
impl<F: RichField> GenericHashOut<F> for HashOut<F> {
    fn to_bytes(&self) -> Vec<u8> {
        self.elements.iter().flat_map(|x| x.to_canonical_u64().to_le_bytes()).collect()
    }
    fn from_bytes(bytes: &[u8]) -> Self {
        HashOut {
            elements: bytes.chunks(8).take(4)
                .map(|x| F::from_canonical_u64(u64::from_le_bytes(x.try_into().unwrap())))
                .collect::<Vec<_>>().try_into().unwrap(),
        }
    }
    fn to_vec(&self) -> Vec<F> { self.elements.to_vec() }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
pub struct HashOutTarget { pub elements: [Target; NUM_HASH_OUT_ELTS] }
impl HashOutTarget {
    pub fn from_vec(elements: Vec<Target>) -> Self { Self { elements: elements.try_into().unwrap() } }
    pub fn from_partial(e: &[Target], zero: Target) -> Self {
        let mut elements = [zero; 4];
        elements[..e.len()].copy_from_slice(e);
        Self { elements }
    }
}
impl From<[Target; 4]> for HashOutTarget { fn from(elements: [Target; 4]) -> Self { Self { elements } } }
impl From<HashOutTarget> for [Target; 4] { fn from(h: HashOutTarget) -> Self { h.elements } }
impl TryFrom<&[Target]> for HashOutTarget {
    type Error = anyhow::Error;
    fn try_from(e: &[Target]) -> Result<Self, Self::Error> {
        anyhow::ensure!(e.len() == 4);
        Ok(Self { elements: e.try_into().unwrap() })
    }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct MerkleCapTarget(pub Vec<HashOutTarget>);
