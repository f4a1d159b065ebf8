//! Stand-in for `ethereum-types`.
pub use primitive_types::{Bloom, H128, H160, H256, H512, H64, U256, U512};
pub type Address = H160; pub type Secret = H256; pub type Public = H512;
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct U64(pub [u64; 1]);
impl U64 { pub const fn zero() -> Self { U64([0]) } pub const fn one() -> Self { U64([1]) } pub const MAX: U64 = U64([u64::MAX]); pub fn as_u64(&self) -> u64 { self.0[0] } pub fn as_u32(&self) -> u32 { u32::try_from(self.0[0]).expect("Integer overflow when casting to u32") } pub fn low_u64(&self) -> u64 { self.0[0] } pub fn is_zero(&self) -> bool { self.0[0] == 0 }
	pub fn saturating_sub(self, o: U64) -> U64 { U64([self.0[0].saturating_sub(o.0[0])]) } pub fn saturating_add(self, o: U64) -> U64 { U64([self.0[0].saturating_add(o.0[0])]) } pub fn checked_sub(self, o: U64) -> Option<U64> { self.0[0].checked_sub(o.0[0]).map(|x| U64([x])) } pub fn checked_add(self, o: U64) -> Option<U64> { self.0[0].checked_add(o.0[0]).map(|x| U64([x])) } }
impl std::fmt::Debug for U64 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0[0]) } }
impl std::fmt::Display for U64 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0[0]) } }
impl std::fmt::LowerHex for U64 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::LowerHex::fmt(&self.0[0], f) } }
macro_rules! fr { ($($t:ty)*) => { $(impl From<$t> for U64 { fn from(x: $t) -> U64 { U64([u64::try_from(x).expect("Unsigned integer can't be created from negative value")]) } })* } }
fr!(u8 u16 u32 u64 usize i32 i64);
impl From<U64> for U256 { fn from(x: U64) -> U256 { U256::from(x.0[0]) } }
impl TryFrom<U64> for u64 { type Error = &'static str; fn try_from(x: U64) -> Result<u64, &'static str> { Ok(x.0[0]) } }
impl TryFrom<U64> for u32 { type Error = &'static str; fn try_from(x: U64) -> Result<u32, &'static str> { u32::try_from(x.0[0]).map_err(|_| "integer overflow when casting to u32") } }
impl std::ops::Add for U64 { type Output = U64; fn add(self, o: U64) -> U64 { U64([self.0[0].checked_add(o.0[0]).expect("arithmetic operation overflow")]) } }
impl std::ops::Sub for U64 { type Output = U64; fn sub(self, o: U64) -> U64 { U64([self.0[0].checked_sub(o.0[0]).expect("arithmetic operation overflow")]) } }
impl serde::Serialize for U64 { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("0x{:x}", self.0[0])) } }
impl<'de> serde::Deserialize<'de> for U64 { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let s = <std::borrow::Cow<'de, str>>::deserialize(d)?; let h = s.strip_prefix("0x").ok_or_else(|| serde::de::Error::custom("expected 0x-prefixed hex"))?; u64::from_str_radix(h, 16).map(|x| U64([x])).map_err(serde::de::Error::custom) } }
impl codec::Encode for U64 { fn encode_to<T: codec::Output + ?Sized>(&self, d: &mut T) { self.0[0].encode_to(d) } }
impl codec::Decode for U64 { fn decode<I: codec::Input>(i: &mut I) -> Result<Self, codec::Error> { Ok(U64([u64::decode(i)?])) } }
pub trait BigEndianHash { type Uint; fn from_uint(v: &Self::Uint) -> Self; fn into_uint(&self) -> Self::Uint; }
impl BigEndianHash for H256 { type Uint = U256; fn from_uint(v: &U256) -> H256 { let mut b = [0u8; 32]; v.to_big_endian(&mut b); H256(b) } fn into_uint(&self) -> U256 { U256::from_big_endian(&self.0) } }
