use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::iter::{Product, Sum};
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use serde::de::DeserializeOwned;
use serde::Serialize;


/// Deterministic stand-in for `rand`-based sampling.
pub trait Sample: Sized {
    fn rand() -> Self;
    fn rand_vec(n: usize) -> Vec<Self> { (0..n).map(|_| Self::rand()).collect() }
    fn rand_array<const N: usize>() -> [Self; N] { core::array::from_fn(|_| Self::rand()) }
}

pub trait Field:
    'static
    + Copy
    + Eq
    + Hash
    + Neg<Output = Self>
    + Add<Self, Output = Self>
    + AddAssign<Self>
    + Sum
    + Sub<Self, Output = Self>
    + SubAssign<Self>
    + Mul<Self, Output = Self>
    + MulAssign<Self>
    + Product
    + Div<Self, Output = Self>
    + DivAssign<Self>
    + Debug
    + Default
    + Display
    + Send
    + Sync
    + Sample
    + Serialize
    + DeserializeOwned
{
    const ZERO: Self;
    const ONE: Self;
    const TWO: Self;
    const NEG_ONE: Self;
    const TWO_ADICITY: usize = 32;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self;
    const POWER_OF_TWO_GENERATOR: Self;
    const BITS: usize = 64;

    fn is_zero(&self) -> bool { *self == Self::ZERO }
    fn is_nonzero(&self) -> bool { *self != Self::ZERO }
    fn is_one(&self) -> bool { *self == Self::ONE }
    fn add_one(&self) -> Self { *self + Self::ONE }
    fn sub_one(&self) -> Self { *self - Self::ONE }
    fn double(&self) -> Self { *self + *self }
    fn square(&self) -> Self { *self * *self }
    fn cube(&self) -> Self { self.square() * *self }
    fn triple(&self) -> Self { *self + *self + *self }
    fn try_inverse(&self) -> Option<Self>;
    fn inverse(&self) -> Self { self.try_inverse().expect("Tried to invert zero") }
    fn from_noncanonical_u64(n: u64) -> Self;
    fn from_noncanonical_u96((lo, hi): (u64, u32)) -> Self {
        Self::from_noncanonical_u64(lo)
            + Self::from_noncanonical_u64(u64::from(hi)) * Self::TWO.exp_u64(64)
    }
    fn from_noncanonical_u128(n: u128) -> Self {
        Self::from_noncanonical_u64(n as u64)
            + Self::from_noncanonical_u64((n >> 64) as u64) * Self::TWO.exp_u64(64)
    }
    fn from_noncanonical_i64(n: i64) -> Self {
        if n >= 0 { Self::from_noncanonical_u64(n as u64) }
        else { -Self::from_noncanonical_u64(n.unsigned_abs()) }
    }
    fn from_canonical_u64(n: u64) -> Self;
    fn from_canonical_u32(n: u32) -> Self { Self::from_canonical_u64(n as u64) }
    fn from_canonical_u16(n: u16) -> Self { Self::from_canonical_u64(n as u64) }
    fn from_canonical_u8(n: u8) -> Self { Self::from_canonical_u64(n as u64) }
    fn from_canonical_usize(n: usize) -> Self { Self::from_canonical_u64(n as u64) }
    fn from_canonical_i64(n: i64) -> Self { Self::from_noncanonical_i64(n) }
    fn from_bool(b: bool) -> Self { Self::from_canonical_u64(b as u64) }
    fn exp_power_of_2(&self, power_log: usize) -> Self {
        let mut r = *self;
        for _ in 0..power_log { r = r.square(); }
        r
    }
    fn exp_u64(&self, mut power: u64) -> Self {
        let mut base = *self;
        let mut acc = Self::ONE;
        while power > 0 {
            if power & 1 == 1 { acc *= base; }
            base = base.square();
            power >>= 1;
        }
        acc
    }
    fn powers(&self) -> Powers<Self> { Powers { base: *self, current: Self::ONE } }
    fn primitive_root_of_unity(n_log: usize) -> Self {
        assert!(n_log <= Self::TWO_ADICITY);
        Self::POWER_OF_TWO_GENERATOR.exp_power_of_2(Self::TWO_ADICITY - n_log)
    }
    fn two_adic_subgroup(n_log: usize) -> Vec<Self> {
        Self::primitive_root_of_unity(n_log).powers().take(1 << n_log).collect()
    }
    fn coset_shift() -> Self { Self::MULTIPLICATIVE_GROUP_GENERATOR }
    fn inverse_2exp(exp: usize) -> Self { Self::TWO.exp_u64(exp as u64).inverse() }
    fn batch_multiplicative_inverse(x: &[Self]) -> Vec<Self> {
        let mut acc = Self::ONE;
        let pre: Vec<Self> = x.iter().map(|v| { let p = acc; acc *= *v; p }).collect();
        let mut inv = acc.inverse();
        let mut out = vec![Self::ZERO; x.len()];
        for i in (0..x.len()).rev() { out[i] = inv * pre[i]; inv *= x[i]; }
        out
    }
    fn cyclic_subgroup_coset_known_order(generator: Self, shift: Self, order: usize) -> Vec<Self> {
        generator.powers().take(order).map(|x| x * shift).collect()
    }
    fn shifted_powers(&self, start: Self) -> Powers<Self> { Powers { base: *self, current: start } }
    fn multiply_accumulate(&self, x: Self, y: Self) -> Self { *self + x * y }
}

#[derive(Clone, Debug)]
pub struct Powers<F: Field> { base: F, current: F }
impl<F: Field> Iterator for Powers<F> {
    type Item = F;
    fn next(&mut self) -> Option<F> {
        let r = self.current;
        self.current *= self.base;
        Some(r)
    }
}

pub trait PrimeField: Field {}
pub trait Field64: Field {
    const ORDER: u64;
    const CHARACTERISTIC_TWO_ADICITY: usize = 32;
    unsafe fn add_canonical_u64(&self, rhs: u64) -> Self { *self + Self::from_noncanonical_u64(rhs) }
}
pub trait PrimeField64: PrimeField + Field64 {
    fn to_canonical_u64(&self) -> u64;
    fn to_noncanonical_u64(&self) -> u64;
    fn to_canonical(&self) -> Self { *self }
    fn to_canonical_i64(&self) -> i64 {
        let v = self.to_canonical_u64();
        if v > Self::ORDER / 2 { -((Self::ORDER - v) as i64) } else { v as i64 }
    }
}
