#[derive(Copy, Clone, Debug, Default, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct Target(pub usize);

#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
pub struct BoolTarget { pub target: Target, _private: () }
impl BoolTarget {
    pub const fn new_unsafe(target: Target) -> Self { Self { target, _private: () } }
}
impl Default for BoolTarget { fn default() -> Self { Self::new_unsafe(Target(0)) } }

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct ExtensionTarget<const D: usize>(pub [Target; D]);
impl<const D: usize> Default for ExtensionTarget<D> { fn default() -> Self { Self([Target(0); D]) } }
impl<const D: usize> ExtensionTarget<D> { pub const fn to_target_array(&self) -> [Target; D] { self.0 } }
impl<const D: usize> TryFrom<Vec<Target>> for ExtensionTarget<D> {
    type Error = Vec<Target>;
    fn try_from(v: Vec<Target>) -> Result<Self, Vec<Target>> { Ok(Self(v.try_into()?)) }
}
impl Target {
    pub const fn to_ext_target<const D: usize>(&self, zero: Target) -> ExtensionTarget<D> { let mut a = [zero; D]; a[0] = *self; ExtensionTarget(a) }
}
