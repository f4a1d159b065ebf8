//! Stand-in for `sp-core`: same names and behaviour for what this code base uses.
pub use codec;
pub use codec::{Decode, Encode, MaxEncodedLen};
pub use mini_macros::{DebugNoBound as RuntimeDebugNoBound, RuntimeDebug};
pub use primitive_types::{H128, H160, H256, H512, U256, U512};
pub use serde;
pub mod hashing;
pub use hashing::*;
pub mod bounded;
pub mod bounded_vec { pub use crate::bounded::BoundedVec; }
pub mod crypto;
pub use crypto::{ByteArray, DeriveJunction, Pair, Public as CryptoPublic};
pub mod offchain;
pub mod storage;
pub mod testing { pub use crate::crypto::key_types::*; pub use crate::crypto::KeyTypeId; pub const ECDSA: KeyTypeId = KeyTypeId(*b"ecds"); pub const ED25519: KeyTypeId = KeyTypeId(*b"ed25"); pub const SR25519: KeyTypeId = KeyTypeId(*b"sr25"); }
pub mod hash { pub use primitive_types::{H160, H256, H512}; }
pub mod uint { pub use primitive_types::{U256, U512}; }
pub mod traits { pub use crate::{Get, TryCollect2 as _}; pub trait CallContext2 {} }
#[doc(hidden)] pub trait TryCollect2 {}

/// A type that evaluates to a value.
pub trait Get<T> { fn get() -> T; }
impl<T: Default> Get<T> for () { fn get() -> T { T::default() } }
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault { fn get() -> T { T::default() } }
pub trait TypedGet { type Type; fn get() -> Self::Type; }
macro_rules! consts { ($($n:ident $t:ty),*) => { $( #[derive(Default, Clone)] pub struct $n<const T: $t>; impl<const T: $t> std::fmt::Debug for $n<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}<{}>", stringify!($n), T) } } impl<const T: $t> Get<$t> for $n<T> { fn get() -> $t { T } } impl<const T: $t> Get<Option<$t>> for $n<T> { fn get() -> Option<$t> { Some(T) } } impl<const T: $t> TypedGet for $n<T> { type Type = $t; fn get() -> $t { T } } )* } }
consts!(ConstBool bool, ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128, ConstI8 i8, ConstI16 i16, ConstI32 i32, ConstI64 i64, ConstI128 i128);

pub trait TryInto2 {}
#[derive(Clone, PartialEq, Eq, Debug, Default, Encode, Decode, serde::Serialize, serde::Deserialize, Hash, PartialOrd, Ord)]
pub struct Bytes(pub Vec<u8>);
impl From<Vec<u8>> for Bytes { fn from(v: Vec<u8>) -> Self { Bytes(v) } }
impl From<OpaqueMetadata> for Bytes { fn from(v: OpaqueMetadata) -> Self { Bytes(v.0) } }
impl std::ops::Deref for Bytes { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode)]
pub struct OpaqueMetadata(Vec<u8>);
impl OpaqueMetadata { pub fn new(v: Vec<u8>) -> Self { Self(v) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Blake2Hasher;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct KeccakHasher;
pub trait Hasher { type Out; fn hash(d: &[u8]) -> Self::Out; }
impl Hasher for Blake2Hasher { type Out = H256; fn hash(d: &[u8]) -> H256 { blake2_256(d).into() } }
impl Hasher for KeccakHasher { type Out = H256; fn hash(d: &[u8]) -> H256 { keccak_256(d).into() } }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
pub enum Void {}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ExecutionContext { BlockConstruction, Importing, Syncing, OffchainCall }

pub mod hexdisplay {
	pub struct HexDisplay<'a>(&'a [u8]);
	impl<'a> HexDisplay<'a> { pub fn from<R: AsBytesRef>(d: &'a R) -> Self { HexDisplay(d.as_bytes_ref()) } }
	impl<'a> std::fmt::Display for HexDisplay<'a> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { for b in self.0 { write!(f, "{:02x}", b)? } Ok(()) } }
	impl<'a> std::fmt::Debug for HexDisplay<'a> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { for b in self.0 { write!(f, "{:02x}", b)? } Ok(()) } }
	pub trait AsBytesRef { fn as_bytes_ref(&self) -> &[u8]; }
	impl AsBytesRef for &[u8] { fn as_bytes_ref(&self) -> &[u8] { self } }
	impl AsBytesRef for [u8] { fn as_bytes_ref(&self) -> &[u8] { self } }
	impl AsBytesRef for Vec<u8> { fn as_bytes_ref(&self) -> &[u8] { self } }
	impl AsBytesRef for crate::H160 { fn as_bytes_ref(&self) -> &[u8] { self.as_bytes() } }
	impl AsBytesRef for crate::H256 { fn as_bytes_ref(&self) -> &[u8] { self.as_bytes() } }
	impl<const N: usize> AsBytesRef for [u8; N] { fn as_bytes_ref(&self) -> &[u8] { self } }
	impl<const N: usize> AsBytesRef for &[u8; N] { fn as_bytes_ref(&self) -> &[u8] { &self[..] } }
}
pub mod bytes { pub fn to_hex(b: &[u8], _skip: bool) -> String { format!("0x{}", primitive_types::to_hex(b)) } pub fn from_hex(s: &str) -> Result<Vec<u8>, primitive_types::FromHexError> { primitive_types::from_hex(s) } }
pub use crypto::{ecdsa, ed25519, sr25519};
#[macro_export]
macro_rules! bounded_vec { ($($x:expr),* $(,)?) => { ::std::convert::TryInto::try_into(vec![$($x),*]).ok().unwrap() }; ($v:expr; $n:expr) => { ::std::convert::TryInto::try_into(vec![$v; $n]).ok().unwrap() }; }
/// `parameter_types!` of sp-core (constants only).
#[macro_export]
macro_rules! parameter_types { ( $( $(#[$a:meta])* $vis:vis const $name:ident : $t:ty = $v:expr; )* ) => { $( $(#[$a])* $vis struct $name; #[allow(dead_code)] impl $name { pub const fn get() -> $t { $v } } impl<_I: From<$t>> $crate::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } } )* } }
