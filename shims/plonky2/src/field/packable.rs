use super::packed::PackedField;
use super::types::Field;
pub trait Packable: Field { type Packing: PackedField<Scalar = Self>; }
impl<F: Field> Packable for F { type Packing = F; }
