//! Sequential stand-in: the names of rayon's iterator methods over `std` iterators.
pub trait MaybeParIter { type Iter<'a>: Iterator where Self: 'a; fn par_iter(&self) -> Self::Iter<'_>; }
impl<T> MaybeParIter for Vec<T> { type Iter<'a> = std::slice::Iter<'a, T> where T: 'a; fn par_iter(&self) -> Self::Iter<'_> { self.iter() } }
impl<T> MaybeParIter for [T] { type Iter<'a> = std::slice::Iter<'a, T> where T: 'a; fn par_iter(&self) -> Self::Iter<'_> { self.iter() } }
pub trait MaybeParIterMut { type Iter<'a>: Iterator where Self: 'a; fn par_iter_mut(&mut self) -> Self::Iter<'_>; }
impl<T> MaybeParIterMut for Vec<T> { type Iter<'a> = std::slice::IterMut<'a, T> where T: 'a; fn par_iter_mut(&mut self) -> Self::Iter<'_> { self.iter_mut() } }
pub trait MaybeIntoParIter: IntoIterator + Sized { fn into_par_iter(self) -> Self::IntoIter { self.into_iter() } }
impl<T: IntoIterator> MaybeIntoParIter for T {}
pub trait ParallelIteratorMock: Iterator + Sized {
    fn flat_map_iter<U: IntoIterator, F: FnMut(Self::Item) -> U>(self, f: F) -> std::iter::FlatMap<Self, U, F> { self.flat_map(f) }
    fn find_any<P: FnMut(&Self::Item) -> bool>(mut self, p: P) -> Option<Self::Item> { self.find(p) }
}
impl<T: Iterator> ParallelIteratorMock for T {}
pub fn join<A: FnOnce() -> RA, B: FnOnce() -> RB, RA, RB>(a: A, b: B) -> (RA, RB) { (a(), b()) }
