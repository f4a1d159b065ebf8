//! Stand-in for `num_enum`.
pub use mini_macros::{IntoPrimitive, TryFromPrimitive};
pub trait TryFromPrimitive: Sized { type Primitive: Copy + Eq + std::fmt::Debug; const NAME: &'static str; fn try_from_primitive(number: Self::Primitive) -> Result<Self, TryFromPrimitiveError<Self>>; }
pub struct TryFromPrimitiveError<E: TryFromPrimitive> { pub number: E::Primitive }
impl<E: TryFromPrimitive> TryFromPrimitiveError<E> { pub fn new(number: E::Primitive) -> Self { Self { number } } }
impl<E: TryFromPrimitive> std::fmt::Debug for TryFromPrimitiveError<E> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "No discriminant in enum `{}` matches the value `{:?}`", E::NAME, self.number) } }
impl<E: TryFromPrimitive> std::fmt::Display for TryFromPrimitiveError<E> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "No discriminant in enum `{}` matches the value `{:?}`", E::NAME, self.number) } }
