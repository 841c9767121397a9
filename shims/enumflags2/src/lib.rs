//! Stand-in for `enumflags2` (u8-sized flag sets only).
pub use enumflags2_derive::bitflags;
use std::fmt;
use std::marker::PhantomData;
use std::ops::*;

pub trait BitFlag: Copy + Clone + 'static + fmt::Debug {
    const ALL_BITS: u8;
    const EACH: &'static [(u8, Self)];
    fn bit(self) -> u8;
}
#[derive(Copy, Clone)]
pub struct BitFlags<T> { v: u8, _t: PhantomData<T> }
#[derive(Debug, Copy, Clone)]
pub struct FromBitsError;
impl fmt::Display for FromBitsError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("invalid bits") } }
impl std::error::Error for FromBitsError {}
const fn mk<T>(v: u8) -> BitFlags<T> { BitFlags { v, _t: PhantomData } }
impl<T: BitFlag> BitFlags<T> {
    pub const EMPTY: Self = mk(0);
    pub const ALL: Self = mk(T::ALL_BITS);
    pub fn empty() -> Self { Self::EMPTY }
    pub fn all() -> Self { Self::ALL }
    pub fn len(self) -> usize { self.v.count_ones() as usize }
    pub fn is_empty(self) -> bool { self.v == 0 }
    pub fn is_all(self) -> bool { self.v == T::ALL_BITS }
    pub fn bits(self) -> u8 { self.v }
    pub fn from_bits(v: u8) -> Result<Self, FromBitsError> { if v & !T::ALL_BITS == 0 { Ok(mk(v)) } else { Err(FromBitsError) } }
    pub fn from_bits_truncate(v: u8) -> Self { mk(v & T::ALL_BITS) }
    pub fn contains<B: Into<Self>>(self, o: B) -> bool { let o = o.into(); self.v & o.v == o.v }
    pub fn intersects<B: Into<Self>>(self, o: B) -> bool { self.v & o.into().v != 0 }
    pub fn insert<B: Into<Self>>(&mut self, o: B) { self.v |= o.into().v }
    pub fn remove<B: Into<Self>>(&mut self, o: B) { self.v &= !o.into().v }
    pub fn toggle<B: Into<Self>>(&mut self, o: B) { self.v ^= o.into().v }
    pub fn set<B: Into<Self>>(&mut self, o: B, c: bool) { if c { self.insert(o) } else { self.remove(o) } }
    pub fn exactly_one(self) -> Option<T> { if self.len() == 1 { self.iter().next() } else { None } }
    pub fn iter(self) -> impl Iterator<Item = T> + Clone { T::EACH.iter().filter(move |(b, _)| self.v & b != 0).map(|(_, t)| *t) }
}
impl<T: BitFlag> From<T> for BitFlags<T> { fn from(t: T) -> Self { mk(t.bit()) } }
impl<T> PartialEq for BitFlags<T> { fn eq(&self, o: &Self) -> bool { self.v == o.v } }
impl<T> Eq for BitFlags<T> {}
impl<T: BitFlag> PartialEq<T> for BitFlags<T> { fn eq(&self, o: &T) -> bool { self.v == o.bit() } }
impl<T> std::hash::Hash for BitFlags<T> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.v.hash(h) } }
impl<T: BitFlag> Default for BitFlags<T> { fn default() -> Self { Self::EMPTY } }
impl<T: BitFlag> fmt::Debug for BitFlags<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "BitFlags({:#b})", self.v) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> BitOr<B> for BitFlags<T> { type Output = Self; fn bitor(self, o: B) -> Self { mk(self.v | o.into().v) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> BitAnd<B> for BitFlags<T> { type Output = Self; fn bitand(self, o: B) -> Self { mk(self.v & o.into().v) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> BitXor<B> for BitFlags<T> { type Output = Self; fn bitxor(self, o: B) -> Self { mk(self.v ^ o.into().v) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> BitOrAssign<B> for BitFlags<T> { fn bitor_assign(&mut self, o: B) { self.v |= o.into().v } }
impl<T: BitFlag, B: Into<BitFlags<T>>> BitAndAssign<B> for BitFlags<T> { fn bitand_assign(&mut self, o: B) { self.v &= o.into().v } }
impl<T: BitFlag, B: Into<BitFlags<T>>> BitXorAssign<B> for BitFlags<T> { fn bitxor_assign(&mut self, o: B) { self.v ^= o.into().v } }
impl<T: BitFlag> Not for BitFlags<T> { type Output = Self; fn not(self) -> Self { mk(!self.v & T::ALL_BITS) } }
impl<T: BitFlag> FromIterator<T> for BitFlags<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { mk(i.into_iter().fold(0, |a, t| a | t.bit())) } }
