//! Stand-in for `iter_fixed`: fixed-length iterators over arrays.
pub struct IteratorFixed<I: Iterator, const N: usize> { inner: I }
pub trait IntoIteratorFixed<const N: usize> {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    fn into_iter_fixed(self) -> IteratorFixed<Self::IntoIter, N>;
}
impl<T, const N: usize> IntoIteratorFixed<N> for [T; N] {
    type Item = T;
    type IntoIter = std::array::IntoIter<T, N>;
    fn into_iter_fixed(self) -> IteratorFixed<Self::IntoIter, N> { IteratorFixed { inner: IntoIterator::into_iter(self) } }
}
impl<'a, T, const N: usize> IntoIteratorFixed<N> for &'a [T; N] {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter_fixed(self) -> IteratorFixed<Self::IntoIter, N> { IteratorFixed { inner: self.iter() } }
}
impl<'a, T, const N: usize> IntoIteratorFixed<N> for &'a mut [T; N] {
    type Item = &'a mut T;
    type IntoIter = std::slice::IterMut<'a, T>;
    fn into_iter_fixed(self) -> IteratorFixed<Self::IntoIter, N> { IteratorFixed { inner: self.iter_mut() } }
}
impl<I: Iterator, const N: usize> IntoIteratorFixed<N> for IteratorFixed<I, N> {
    type Item = I::Item;
    type IntoIter = I;
    fn into_iter_fixed(self) -> IteratorFixed<I, N> { self }
}
impl<I: Iterator, const N: usize> IteratorFixed<I, N> {
    pub fn map<R, F: FnMut(I::Item) -> R>(self, f: F) -> IteratorFixed<std::iter::Map<I, F>, N> { IteratorFixed { inner: self.inner.map(f) } }
    pub fn inspect<F: FnMut(&I::Item)>(self, f: F) -> IteratorFixed<std::iter::Inspect<I, F>, N> { IteratorFixed { inner: self.inner.inspect(f) } }
    pub fn zip<J: IntoIteratorFixed<N>>(self, o: J) -> IteratorFixed<std::iter::Zip<I, J::IntoIter>, N> { IteratorFixed { inner: self.inner.zip(o.into_iter_fixed().inner) } }
    pub fn enumerate(self) -> IteratorFixed<std::iter::Enumerate<I>, N> { IteratorFixed { inner: self.inner.enumerate() } }
    pub fn rev(self) -> IteratorFixed<std::iter::Rev<I>, N> where I: DoubleEndedIterator { IteratorFixed { inner: self.inner.rev() } }
    pub fn copied<'a, T: 'a + Copy>(self) -> IteratorFixed<std::iter::Copied<I>, N> where I: Iterator<Item = &'a T> { IteratorFixed { inner: self.inner.copied() } }
    pub fn cloned<'a, T: 'a + Clone>(self) -> IteratorFixed<std::iter::Cloned<I>, N> where I: Iterator<Item = &'a T> { IteratorFixed { inner: self.inner.cloned() } }
    pub fn collect<U: From<[I::Item; N]>>(self) -> U {
        let mut it = self.inner;
        U::from(std::array::from_fn(|_| it.next().expect("fixed length")))
    }
}
impl<I: Iterator, const N: usize> IntoIterator for IteratorFixed<I, N> {
    type Item = I::Item;
    type IntoIter = I;
    fn into_iter(self) -> I { self.inner }
}
