use serde::de::{Deserialize, Deserializer};
use serde::ser::{Serialize, SerializeTuple, Serializer};
pub trait BigArray<'de>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
struct V<T, const N: usize>(std::marker::PhantomData<T>);
impl<'de, T: Deserialize<'de>, const N: usize> serde::de::Visitor<'de> for V<T, N> {
    type Value = [T; N];
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "an array of length {N}") }
    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<[T; N], A::Error> {
        let mut v = Vec::with_capacity(N);
        while let Some(x) = a.next_element()? { v.push(x); }
        let n = v.len();
        v.try_into().map_err(|_| serde::de::Error::invalid_length(n, &self))
    }
}
impl<'de, T: Serialize + Deserialize<'de>, const N: usize> BigArray<'de> for [T; N] {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut t = s.serialize_tuple(N)?;
        for x in self { t.serialize_element(x)?; }
        t.end()
    }
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { d.deserialize_tuple(N, V::<T, N>(std::marker::PhantomData)) }
}
