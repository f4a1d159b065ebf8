macro_rules! hash { ($N:ident, $B:expr) => {
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
	pub struct $N(pub [u8; $B]);
	impl Default for $N { fn default() -> Self { $N([0; $B]) } }
	impl $N {
		pub const fn zero() -> Self { $N([0; $B]) }
		pub const fn repeat_byte(b: u8) -> Self { $N([b; $B]) }
		pub const fn len_bytes() -> usize { $B }
		pub fn is_zero(&self) -> bool { self.0.iter().all(|x| *x == 0) }
		pub fn as_bytes(&self) -> &[u8] { &self.0 }
		pub fn as_bytes_mut(&mut self) -> &mut [u8] { &mut self.0 }
		pub const fn as_fixed_bytes(&self) -> &[u8; $B] { &self.0 }
		pub fn as_fixed_bytes_mut(&mut self) -> &mut [u8; $B] { &mut self.0 }
		pub const fn to_fixed_bytes(self) -> [u8; $B] { self.0 }
		pub fn from_slice(s: &[u8]) -> Self { assert_eq!(s.len(), $B); let mut a = [0; $B]; a.copy_from_slice(s); $N(a) }
		pub fn assign_from_slice(&mut self, s: &[u8]) { assert_eq!(s.len(), $B); self.0.copy_from_slice(s) }
		pub fn from_low_u64_be(v: u64) -> Self { let mut a = [0; $B]; a[$B - 8..].copy_from_slice(&v.to_be_bytes()); $N(a) }
		pub fn from_low_u64_le(v: u64) -> Self { let mut a = [0; $B]; a[$B - 8..].copy_from_slice(&v.to_le_bytes()); $N(a) }
		pub fn from_low_u64_ne(v: u64) -> Self { Self::from_low_u64_le(v) }
		pub fn to_low_u64_be(&self) -> u64 { u64::from_be_bytes(self.0[$B - 8..].try_into().unwrap()) }
		pub fn to_low_u64_le(&self) -> u64 { u64::from_le_bytes(self.0[$B - 8..].try_into().unwrap()) }
		pub fn to_low_u64_ne(&self) -> u64 { self.to_low_u64_le() }
		pub fn random() -> Self { let mut a = [0; $B]; use rand::RngCore; rand::thread_rng().fill_bytes(&mut a); $N(a) }
		pub fn random_using<R: rand::Rng + ?Sized>(r: &mut R) -> Self { let mut a = [0; $B]; r.fill_bytes(&mut a); $N(a) }
		pub fn covers(&self, b: &Self) -> bool { (0..$B).all(|i| self.0[i] & b.0[i] == b.0[i]) }
	}
	impl From<[u8; $B]> for $N { fn from(x: [u8; $B]) -> Self { $N(x) } }
	impl<'a> From<&'a [u8; $B]> for $N { fn from(x: &'a [u8; $B]) -> Self { $N(*x) } }
	impl From<$N> for [u8; $B] { fn from(x: $N) -> Self { x.0 } }
	impl AsRef<[u8]> for $N { fn as_ref(&self) -> &[u8] { &self.0 } }
	impl AsMut<[u8]> for $N { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
	impl std::ops::Deref for $N { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
	impl std::ops::DerefMut for $N { fn deref_mut(&mut self) -> &mut [u8] { &mut self.0 } }
	impl<I: std::slice::SliceIndex<[u8]>> std::ops::Index<I> for $N { type Output = I::Output; fn index(&self, i: I) -> &I::Output { &self.0[i] } }
	impl<I: std::slice::SliceIndex<[u8], Output = [u8]>> std::ops::IndexMut<I> for $N { fn index_mut(&mut self, i: I) -> &mut [u8] { &mut self.0[i] } }
	impl std::fmt::Debug for $N { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "0x{}", crate::to_hex(&self.0)) } }
	impl std::fmt::Display for $N { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "0x{}…{}", crate::to_hex(&self.0[..2]), crate::to_hex(&self.0[$B - 2..])) } }
	impl std::fmt::LowerHex for $N { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { if f.alternate() { write!(f, "0x")? } write!(f, "{}", crate::to_hex(&self.0)) } }
	impl std::fmt::UpperHex for $N { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { if f.alternate() { write!(f, "0X")? } write!(f, "{}", crate::to_hex(&self.0).to_uppercase()) } }
	impl std::str::FromStr for $N { type Err = crate::FromHexError; fn from_str(s: &str) -> Result<Self, Self::Err> { let b = crate::from_hex(s)?; if b.len() != $B { return Err(crate::FromHexError::InvalidHexLength) } Ok(Self::from_slice(&b)) } }
	impl From<&'static str> for $N { fn from(s: &'static str) -> Self { s.parse().unwrap() } }
	impl codec::Encode for $N { fn encode_to<T: codec::Output + ?Sized>(&self, d: &mut T) { d.write(&self.0) } }
	impl codec::Decode for $N { fn decode<I: codec::Input>(i: &mut I) -> Result<Self, codec::Error> { let mut b = [0u8; $B]; i.read(&mut b)?; Ok($N(b)) } }
	impl codec::EncodeLike for $N {}
	impl codec::MaxEncodedLen for $N { fn max_encoded_len() -> usize { $B } }
	impl serde::Serialize for $N { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("{:?}", self)) } }
	impl<'de> serde::Deserialize<'de> for $N { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let s = <std::borrow::Cow<'de, str>>::deserialize(d)?; if !s.starts_with("0x") { return Err(serde::de::Error::custom("expected 0x-prefixed hex")) } s.parse().map_err(serde::de::Error::custom) } }
	impl std::ops::BitXor for $N { type Output = $N; fn bitxor(mut self, o: $N) -> $N { for i in 0..$B { self.0[i] ^= o.0[i] } self } }
	impl std::ops::BitOr for $N { type Output = $N; fn bitor(mut self, o: $N) -> $N { for i in 0..$B { self.0[i] |= o.0[i] } self } }
	impl std::ops::BitAnd for $N { type Output = $N; fn bitand(mut self, o: $N) -> $N { for i in 0..$B { self.0[i] &= o.0[i] } self } }
} }
hash!(H64, 8); hash!(H128, 16); hash!(H160, 20); hash!(H256, 32); hash!(H384, 48); hash!(H512, 64); hash!(Bloom, 256);
impl From<H256> for H160 { fn from(x: H256) -> H160 { H160::from_slice(&x.0[12..]) } }
impl From<H160> for H256 { fn from(x: H160) -> H256 { let mut a = [0; 32]; a[12..].copy_from_slice(&x.0); H256(a) } }
pub type Address = H160;
