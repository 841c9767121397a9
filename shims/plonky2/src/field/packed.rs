use std::fmt::Debug;
use std::iter::{Product, Sum};
use std::ops::*;

use super::types::Field;

/// Packed fields; the stand-in only has the width-one packing.
pub unsafe trait PackedField:
    'static
    + Add<Self, Output = Self>
    + Add<Self::Scalar, Output = Self>
    + AddAssign<Self>
    + AddAssign<Self::Scalar>
    + Copy
    + Debug
    + PartialEq
    + Default
    + From<Self::Scalar>
    + Mul<Self, Output = Self>
    + Mul<Self::Scalar, Output = Self>
    + MulAssign<Self>
    + MulAssign<Self::Scalar>
    + Neg<Output = Self>
    + Product
    + Send
    + Sub<Self, Output = Self>
    + Sub<Self::Scalar, Output = Self>
    + SubAssign<Self>
    + SubAssign<Self::Scalar>
    + Sum
    + Sync
{
    type Scalar: Field;
    const WIDTH: usize;
    const ZEROS: Self;
    const ONES: Self;
    fn from_slice(slice: &[Self::Scalar]) -> &Self;
    fn as_slice(&self) -> &[Self::Scalar];
    fn square(&self) -> Self { *self * *self }
    fn doubles(&self) -> Self { *self * Self::Scalar::TWO }
}
unsafe impl<F: Field> PackedField for F {
    type Scalar = Self;
    const WIDTH: usize = 1;
    const ZEROS: Self = F::ZERO;
    const ONES: Self = F::ONE;
    fn from_slice(slice: &[Self]) -> &Self { &slice[0] }
    fn as_slice(&self) -> &[Self] { core::slice::from_ref(self) }
}
