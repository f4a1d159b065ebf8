//! Type metadata is not needed to run code: every type has it.
pub use mini_macros::TypeInfo;
pub trait TypeInfo {}
impl<T: ?Sized> TypeInfo for T {}
pub trait StaticTypeInfo {}
impl<T: ?Sized> StaticTypeInfo for T {}
pub mod prelude { pub use std::{vec, vec::Vec, string, string::String, format, boxed}; }
