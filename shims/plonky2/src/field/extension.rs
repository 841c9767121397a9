use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;

use serde::{Deserialize, Serialize};

use super::goldilocks_field::GoldilocksField;
use super::types::*;

pub trait OEF<const D: usize>: FieldExtension<D> {
    const W: Self::BaseField;
    const DTH_ROOT: Self::BaseField;
}

pub trait Frobenius<const D: usize>: FieldExtension<D> {
    fn frobenius(&self) -> Self { self.repeated_frobenius(1) }
    fn repeated_frobenius(&self, _count: usize) -> Self { *self }
}

pub trait FieldExtension<const D: usize>: Field {
    type BaseField: Field;
    fn to_basefield_array(&self) -> [Self::BaseField; D];
    fn from_basefield_array(arr: [Self::BaseField; D]) -> Self;
    fn from_basefield(x: Self::BaseField) -> Self;
    fn is_in_basefield(&self) -> bool { self.to_basefield_array()[1..].iter().all(|x| x.is_zero()) }
    fn scalar_mul(&self, scalar: Self::BaseField) -> Self {
        let mut a = self.to_basefield_array();
        a.iter_mut().for_each(|x| *x *= scalar);
        Self::from_basefield_array(a)
    }
}

impl<F: Field> FieldExtension<1> for F {
    type BaseField = F;
    fn to_basefield_array(&self) -> [F; 1] { [*self] }
    fn from_basefield_array(arr: [F; 1]) -> F { arr[0] }
    fn from_basefield(x: F) -> F { x }
}
impl<F: Field> Frobenius<1> for F {}

pub trait Extendable<const D: usize>: Field + Sized {
    type Extension: Field
        + OEF<D, BaseField = Self>
        + Frobenius<D>
        + From<Self>
        + Mul<Self, Output = Self::Extension>;
    const W: Self;
    const DTH_ROOT: Self;
}

pub mod quadratic { pub use super::QuadraticExtension; }

#[derive(Copy, Clone, Eq, PartialEq, Hash, Serialize, Deserialize)]
#[serde(bound = "")]
#[repr(transparent)]
pub struct QuadraticExtension<F: Field>(pub [F; 2]);
pub const W7: GoldilocksField = GoldilocksField(7);
type Q = QuadraticExtension<GoldilocksField>;

impl Extendable<2> for GoldilocksField {
    type Extension = Q;
    const W: Self = W7;
    const DTH_ROOT: Self = GoldilocksField(18446744069414584320);
}
impl Extendable<1> for GoldilocksField {
    type Extension = Self;
    const W: Self = GoldilocksField(1);
    const DTH_ROOT: Self = GoldilocksField(1);
}
impl OEF<1> for GoldilocksField { const W: Self = GoldilocksField(1); const DTH_ROOT: Self = GoldilocksField(1); }
impl OEF<2> for Q { const W: GoldilocksField = W7; const DTH_ROOT: GoldilocksField = GoldilocksField(18446744069414584320); }
impl Frobenius<2> for Q {
    fn repeated_frobenius(&self, count: usize) -> Self {
        if count % 2 == 0 { *self } else { Self([self.0[0], -self.0[1]]) }
    }
}
impl FieldExtension<2> for Q {
    type BaseField = GoldilocksField;
    fn to_basefield_array(&self) -> [GoldilocksField; 2] { self.0 }
    fn from_basefield_array(arr: [GoldilocksField; 2]) -> Self { Self(arr) }
    fn from_basefield(x: GoldilocksField) -> Self { x.into() }
}
impl From<GoldilocksField> for Q { fn from(x: GoldilocksField) -> Self { Self([x, GoldilocksField(0)]) } }
impl Default for Q { fn default() -> Self { Self::ZERO } }
impl Sample for Q { fn rand() -> Self { Self([GoldilocksField::rand(), GoldilocksField::rand()]) } }
impl fmt::Display for Q { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{} + {}*a", self.0[0], self.0[1]) } }
impl fmt::Debug for Q { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) } }
impl Field for Q {
    const ZERO: Self = Self([GoldilocksField(0), GoldilocksField(0)]);
    const ONE: Self = Self([GoldilocksField(1), GoldilocksField(0)]);
    const TWO: Self = Self([GoldilocksField(2), GoldilocksField(0)]);
    const NEG_ONE: Self = Self([GoldilocksField::NEG_ONE, GoldilocksField(0)]);
    const MULTIPLICATIVE_GROUP_GENERATOR: Self = Self([GoldilocksField(18081566051660590251), GoldilocksField(16121475356294670766)]);
    const POWER_OF_TWO_GENERATOR: Self = Self([GoldilocksField::POWER_OF_TWO_GENERATOR, GoldilocksField(0)]);
    fn try_inverse(&self) -> Option<Self> {
        let [a, b] = self.0;
        let n = a * a - W7 * b * b;
        n.try_inverse().map(|i| Self([a * i, -b * i]))
    }
    fn from_noncanonical_u64(n: u64) -> Self { GoldilocksField::from_noncanonical_u64(n).into() }
    fn from_canonical_u64(n: u64) -> Self { GoldilocksField::from_canonical_u64(n).into() }
}
impl Neg for Q { type Output = Self; fn neg(self) -> Self { Self([-self.0[0], -self.0[1]]) } }
impl Add for Q { type Output = Self; fn add(self, o: Self) -> Self { Self([self.0[0] + o.0[0], self.0[1] + o.0[1]]) } }
impl Sub for Q { type Output = Self; fn sub(self, o: Self) -> Self { Self([self.0[0] - o.0[0], self.0[1] - o.0[1]]) } }
impl Mul for Q { type Output = Self; fn mul(self, o: Self) -> Self {
    let [a, b] = self.0; let [c, d] = o.0; Self([a * c + W7 * b * d, a * d + b * c]) } }
impl Mul<GoldilocksField> for Q { type Output = Self; fn mul(self, o: GoldilocksField) -> Self { Self([self.0[0] * o, self.0[1] * o]) } }
impl Div for Q { type Output = Self; fn div(self, o: Self) -> Self { self * o.inverse() } }
impl AddAssign for Q { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl SubAssign for Q { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl MulAssign for Q { fn mul_assign(&mut self, o: Self) { *self = *self * o } }
impl DivAssign for Q { fn div_assign(&mut self, o: Self) { *self = *self / o } }
impl Sum for Q { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + b) } }
impl Product for Q { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * b) } }

pub const fn flatten<F: Field, const D: usize>(_l: &[F]) {}
