use std::fmt;
use std::hash::{Hash, Hasher};
use std::iter::{Product, Sum};
use std::ops::*;
use std::sync::atomic::{AtomicU64, Ordering};

use serde::{Deserialize, Serialize};

use super::types::*;

pub const ORDER: u64 = 0xFFFF_FFFF_0000_0001;
pub const EPSILON: u64 = (1 << 32) - 1;

#[derive(Copy, Clone, Serialize, Deserialize)]
#[repr(transparent)]
pub struct GoldilocksField(pub u64);

impl Default for GoldilocksField { fn default() -> Self { Self(0) } }
impl PartialEq for GoldilocksField { fn eq(&self, o: &Self) -> bool { self.canon() == o.canon() } }
impl Eq for GoldilocksField {}
impl Hash for GoldilocksField { fn hash<H: Hasher>(&self, s: &mut H) { s.write_u64(self.canon()) } }
impl fmt::Display for GoldilocksField { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.canon(), f) } }
impl fmt::Debug for GoldilocksField { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.canon(), f) } }

impl GoldilocksField {
    #[inline]
    const fn canon(&self) -> u64 { if self.0 >= ORDER { self.0 - ORDER } else { self.0 } }
    #[inline]
    fn reduce(n: u128) -> Self {
        let lo = n as u64;
        let hi = (n >> 64) as u64;
        let hh = hi >> 32;
        let hl = hi & EPSILON;
        let (mut t0, borrow) = lo.overflowing_sub(hh);
        if borrow { t0 = t0.wrapping_sub(EPSILON); }
        let t1 = hl * EPSILON;
        let (r, carry) = t0.overflowing_add(t1);
        let r = if carry { r.wrapping_add(EPSILON) } else { r };
        Self(if r >= ORDER { r - ORDER } else { r })
    }
}

static SAMPLE: AtomicU64 = AtomicU64::new(0x9e37_79b9_7f4a_7c15);
impl Sample for GoldilocksField {
    fn rand() -> Self {
        let mut z = SAMPLE.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::Relaxed);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        Self((z ^ (z >> 31)) % ORDER)
    }
}

impl Field for GoldilocksField {
    const ZERO: Self = Self(0);
    const ONE: Self = Self(1);
    const TWO: Self = Self(2);
    const NEG_ONE: Self = Self(ORDER - 1);
    const MULTIPLICATIVE_GROUP_GENERATOR: Self = Self(14293326489335486720);
    const POWER_OF_TWO_GENERATOR: Self = Self(7277203076849721926);
    fn try_inverse(&self) -> Option<Self> {
        if self.is_zero() { None } else { Some(self.exp_u64(ORDER - 2)) }
    }
    fn from_noncanonical_u64(n: u64) -> Self { Self(if n >= ORDER { n - ORDER } else { n }) }
    fn from_canonical_u64(n: u64) -> Self {
        debug_assert!(n < ORDER);
        Self(n)
    }
}
impl PrimeField for GoldilocksField {}
impl Field64 for GoldilocksField { const ORDER: u64 = ORDER; }
impl PrimeField64 for GoldilocksField {
    #[inline]
    fn to_canonical_u64(&self) -> u64 { self.canon() }
    #[inline]
    fn to_noncanonical_u64(&self) -> u64 { self.0 }
}

impl Neg for GoldilocksField { type Output = Self; #[inline] fn neg(self) -> Self { let c = self.canon(); Self(if c == 0 { 0 } else { ORDER - c }) } }
impl Add for GoldilocksField { type Output = Self; #[inline] fn add(self, o: Self) -> Self {
    let s = self.canon() as u128 + o.canon() as u128; Self(if s >= ORDER as u128 { (s - ORDER as u128) as u64 } else { s as u64 }) } }
impl Sub for GoldilocksField { type Output = Self; #[inline] fn sub(self, o: Self) -> Self { self + (-o) } }
impl Mul for GoldilocksField { type Output = Self; #[inline] fn mul(self, o: Self) -> Self { Self::reduce(self.0 as u128 * o.0 as u128) } }
impl Div for GoldilocksField { type Output = Self; fn div(self, o: Self) -> Self { self * o.inverse() } }
impl AddAssign for GoldilocksField { #[inline] fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl SubAssign for GoldilocksField { #[inline] fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl MulAssign for GoldilocksField { #[inline] fn mul_assign(&mut self, o: Self) { *self = *self * o } }
impl DivAssign for GoldilocksField { fn div_assign(&mut self, o: Self) { *self = *self / o } }
impl Sum for GoldilocksField { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + b) } }
impl Product for GoldilocksField { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * b) } }
