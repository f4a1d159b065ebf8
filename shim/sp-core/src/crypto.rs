use crate::{hashing::*, H160};
use codec::{Decode, Encode, MaxEncodedLen};
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct KeyTypeId(pub [u8; 4]);
impl From<u32> for KeyTypeId { fn from(x: u32) -> Self { Self(x.to_le_bytes()) } }
impl From<KeyTypeId> for u32 { fn from(x: KeyTypeId) -> u32 { u32::from_le_bytes(x.0) } }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Encode, Decode)]
pub struct CryptoTypeId(pub [u8; 4]);
pub mod key_types { use super::KeyTypeId; pub const BABE: KeyTypeId = KeyTypeId(*b"babe"); pub const GRANDPA: KeyTypeId = KeyTypeId(*b"gran"); pub const ACCOUNT: KeyTypeId = KeyTypeId(*b"acco"); pub const IM_ONLINE: KeyTypeId = KeyTypeId(*b"imon"); pub const DUMMY: KeyTypeId = KeyTypeId(*b"dumy"); pub const AUTHORITY_DISCOVERY: KeyTypeId = KeyTypeId(*b"audi"); pub const STAKING: KeyTypeId = KeyTypeId(*b"stak"); }
pub trait ByteArray: AsRef<[u8]> + AsMut<[u8]> + for<'a> TryFrom<&'a [u8], Error = ()> { const LEN: usize; fn from_slice(d: &[u8]) -> Result<Self, ()> { Self::try_from(d) } fn to_raw_vec(&self) -> Vec<u8> { self.as_slice().to_vec() } fn as_slice(&self) -> &[u8] { self.as_ref() } }
pub trait Public: ByteArray + PartialEq + Eq + Clone + Send + Sync {}
pub trait IsWrappedBy<O>: From<O> + Into<O> { fn from_ref(o: &O) -> &Self; }
pub trait UncheckedFrom<T> { fn unchecked_from(t: T) -> Self; }
pub trait UncheckedInto<T> { fn unchecked_into(self) -> T; }
impl<S, T: UncheckedFrom<S>> UncheckedInto<T> for S { fn unchecked_into(self) -> T { T::unchecked_from(self) } }
pub trait Wraps: Sized { type Inner; }
pub trait CryptoType { type Pair: Pair; }
#[derive(Clone, PartialEq, Eq, Debug)] pub enum DeriveJunction { Soft([u8; 32]), Hard([u8; 32]) }
#[derive(Debug, Clone, PartialEq, Eq)] pub enum SecretStringError { InvalidFormat, InvalidPhrase, InvalidSeed, InvalidSeedLength, InvalidPath }
#[derive(Debug, Clone, PartialEq, Eq)] pub enum PublicError { BadLength }
pub trait Pair: Sized + Clone + Send + Sync + 'static {
	type Public: Public; type Seed: Default + AsRef<[u8]> + AsMut<[u8]> + Clone; type Signature: AsRef<[u8]>;
	fn from_seed(s: &Self::Seed) -> Self { Self::from_seed_slice(s.as_ref()).expect("seed has valid length") }
	fn from_seed_slice(s: &[u8]) -> Result<Self, SecretStringError>;
	fn generate() -> (Self, Self::Seed) { let mut s = Self::Seed::default(); rand::RngCore::fill_bytes(&mut rand::thread_rng(), s.as_mut()); (Self::from_seed(&s), s) }
	fn from_string(s: &str, _p: Option<&str>) -> Result<Self, SecretStringError> { if let Some(h) = s.strip_prefix("0x") { let b = primitive_types::from_hex(h).map_err(|_| SecretStringError::InvalidSeed)?; return Self::from_seed_slice(&b) } Self::from_seed_slice(&blake2_256(s.as_bytes())) }
	fn from_string_with_seed(s: &str, p: Option<&str>) -> Result<(Self, Option<Self::Seed>), SecretStringError> { Self::from_string(s, p).map(|x| (x, None)) }
	fn sign(&self, m: &[u8]) -> Self::Signature;
	fn verify<M: AsRef<[u8]>>(s: &Self::Signature, m: M, p: &Self::Public) -> bool;
	fn public(&self) -> Self::Public;
	fn to_raw_vec(&self) -> Vec<u8>;
}
macro_rules! bytes_ty { ($n:ident, $l:expr) => {
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen)]
	pub struct $n(pub [u8; $l]);
	impl $n { pub fn from_raw(d: [u8; $l]) -> Self { $n(d) } pub fn from_slice(d: &[u8]) -> Option<Self> { d.try_into().ok().map($n) } pub fn as_array_ref(&self) -> &[u8; $l] { &self.0 } }
	impl Default for $n { fn default() -> Self { $n([0; $l]) } }
	impl AsRef<[u8]> for $n { fn as_ref(&self) -> &[u8] { &self.0 } }
	impl AsRef<[u8; $l]> for $n { fn as_ref(&self) -> &[u8; $l] { &self.0 } }
	impl AsMut<[u8]> for $n { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
	impl TryFrom<&[u8]> for $n { type Error = (); fn try_from(d: &[u8]) -> Result<Self, ()> { d.try_into().map($n).map_err(|_| ()) } }
	impl From<[u8; $l]> for $n { fn from(d: [u8; $l]) -> Self { $n(d) } }
	impl From<$n> for [u8; $l] { fn from(d: $n) -> Self { d.0 } }
	impl std::ops::Deref for $n { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
	impl Debug for $n { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", primitive_types::to_hex(&self.0)) } }
	impl std::fmt::Display for $n { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", primitive_types::to_hex(&self.0)) } }
	impl serde::Serialize for $n { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&primitive_types::to_hex(&self.0)) } }
	impl<'de> serde::Deserialize<'de> for $n { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let s = <String as serde::Deserialize>::deserialize(d)?; let b = primitive_types::from_hex(&s).map_err(|e| serde::de::Error::custom(format!("{:?}", e)))?; b.try_into().map($n).map_err(|_| serde::de::Error::custom("bad length")) } }
	impl UncheckedFrom<[u8; $l]> for $n { fn unchecked_from(d: [u8; $l]) -> Self { $n(d) } }
}; }
macro_rules! public_ty { ($l:expr) => { bytes_ty!(Public, $l); impl ByteArray for Public { const LEN: usize = $l; } impl super::Public for Public {} impl CryptoType for Public { type Pair = Pair; } }; }

pub mod ecdsa {
	use super::*;
	public_ty!(33);
	bytes_ty!(Signature, 65);
	impl Public {
		pub fn from_full(f: &[u8]) -> Result<Self, ()> { let k = if f.len() == 64 { let mut t = [4u8; 65]; t[1..].copy_from_slice(f); libsecp256k1::PublicKey::parse_slice(&t, None) } else { libsecp256k1::PublicKey::parse_slice(f, None) }; k.map(|p| Public(p.serialize_compressed())).map_err(|_| ()) }
		pub fn to_eth_address(&self) -> Result<[u8; 20], ()> { let p = libsecp256k1::PublicKey::parse_compressed(&self.0).map_err(|_| ())?; Ok(keccak_256(&p.serialize()[1..])[12..].try_into().unwrap()) }
		pub fn eth(&self) -> Option<H160> { self.to_eth_address().ok().map(H160) }
	}
	impl Signature {
		pub fn recover<M: AsRef<[u8]>>(&self, m: M) -> Option<Public> { self.recover_prehashed(&blake2_256(m.as_ref())) }
		pub fn recover_prehashed(&self, h: &[u8; 32]) -> Option<Public> {
			let id = libsecp256k1::RecoveryId::parse(self.0[64]).ok()?; let s = libsecp256k1::Signature::parse_standard_slice(&self.0[..64]).ok()?;
			libsecp256k1::recover(&libsecp256k1::Message(*h), &s, &id).ok().map(|p| Public(p.serialize_compressed())) }
	}
	#[derive(Clone)] pub struct Pair { pub(crate) secret: libsecp256k1::SecretKey, public: Public }
	impl Debug for Pair { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "ecdsa::Pair({:?})", self.public) } }
	impl Pair {
		pub fn seed(&self) -> [u8; 32] { self.secret.serialize() }
		pub fn sign_prehashed(&self, h: &[u8; 32]) -> Signature { let (s, r) = libsecp256k1::sign(&libsecp256k1::Message(*h), &self.secret); let mut o = [0; 65]; o[..64].copy_from_slice(&s.serialize()); o[64] = r.serialize(); Signature(o) }
		pub fn verify_prehashed(s: &Signature, h: &[u8; 32], p: &Public) -> bool { s.recover_prehashed(h) == Some(*p) }
		pub fn verify_deprecated<M: AsRef<[u8]>>(s: &Signature, m: M, p: &Public) -> bool { <Self as super::Pair>::verify(s, m, p) }
	}
	impl super::Pair for Pair {
		type Public = Public; type Seed = [u8; 32]; type Signature = Signature;
		fn from_seed_slice(s: &[u8]) -> Result<Self, SecretStringError> { let secret = libsecp256k1::SecretKey::parse_slice(s).map_err(|_| SecretStringError::InvalidSeedLength)?; let public = Public(libsecp256k1::PublicKey::from_secret_key(&secret).serialize_compressed()); Ok(Pair { secret, public }) }
		fn sign(&self, m: &[u8]) -> Signature { self.sign_prehashed(&blake2_256(m)) }
		fn verify<M: AsRef<[u8]>>(s: &Signature, m: M, p: &Public) -> bool { s.recover(m) == Some(*p) }
		fn public(&self) -> Public { self.public }
		fn to_raw_vec(&self) -> Vec<u8> { self.seed().to_vec() }
	}
	impl CryptoType for Signature { type Pair = Pair; }
	impl CryptoType for Pair { type Pair = Pair; }
	pub const CRYPTO_ID: CryptoTypeId = CryptoTypeId(*b"ecds");
}
pub mod ed25519 {
	use super::*;
	use ed25519_dalek::Signer;
	public_ty!(32);
	bytes_ty!(Signature, 64);
	#[derive(Clone)] pub struct Pair(ed25519_dalek::SigningKey);
	impl super::Pair for Pair {
		type Public = Public; type Seed = [u8; 32]; type Signature = Signature;
		fn from_seed_slice(s: &[u8]) -> Result<Self, SecretStringError> { Ok(Pair(ed25519_dalek::SigningKey::from_bytes(s.try_into().map_err(|_| SecretStringError::InvalidSeedLength)?))) }
		fn sign(&self, m: &[u8]) -> Signature { Signature(self.0.sign(m).to_bytes()) }
		fn verify<M: AsRef<[u8]>>(s: &Signature, m: M, p: &Public) -> bool { let Ok(k) = ed25519_dalek::VerifyingKey::from_bytes(&p.0) else { return false }; k.verify_strict(m.as_ref(), &ed25519_dalek::Signature::from_bytes(&s.0)).is_ok() }
		fn public(&self) -> Public { Public(self.0.verifying_key().to_bytes()) }
		fn to_raw_vec(&self) -> Vec<u8> { self.0.to_bytes().to_vec() }
	}
	impl CryptoType for Signature { type Pair = Pair; }
	impl CryptoType for Pair { type Pair = Pair; }
	pub const CRYPTO_ID: CryptoTypeId = CryptoTypeId(*b"ed25");
}
/// Not schnorrkel: an ed25519-backed stand-in (nothing here depends on sr25519 specifics).
pub mod sr25519 {
	use super::*;
	public_ty!(32);
	bytes_ty!(Signature, 64);
	#[derive(Clone)] pub struct Pair(super::ed25519::Pair);
	impl super::Pair for Pair {
		type Public = Public; type Seed = [u8; 32]; type Signature = Signature;
		fn from_seed_slice(s: &[u8]) -> Result<Self, SecretStringError> { <ed25519::Pair as super::Pair>::from_seed_slice(s).map(Pair) }
		fn sign(&self, m: &[u8]) -> Signature { Signature(super::Pair::sign(&self.0, m).0) }
		fn verify<M: AsRef<[u8]>>(s: &Signature, m: M, p: &Public) -> bool { <ed25519::Pair as super::Pair>::verify(&ed25519::Signature(s.0), m, &ed25519::Public(p.0)) }
		fn public(&self) -> Public { Public(super::Pair::public(&self.0).0) }
		fn to_raw_vec(&self) -> Vec<u8> { super::Pair::to_raw_vec(&self.0) }
	}
	impl CryptoType for Signature { type Pair = Pair; }
	impl CryptoType for Pair { type Pair = Pair; }
	pub const CRYPTO_ID: CryptoTypeId = CryptoTypeId(*b"sr25");
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, Debug, serde::Serialize, serde::Deserialize)]
pub struct AccountId32(pub [u8; 32]);
impl AccountId32 { pub const fn new(x: [u8; 32]) -> Self { Self(x) } }
impl AsRef<[u8]> for AccountId32 { fn as_ref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8; 32]> for AccountId32 { fn as_ref(&self) -> &[u8; 32] { &self.0 } }
impl From<[u8; 32]> for AccountId32 { fn from(x: [u8; 32]) -> Self { Self(x) } }
impl From<AccountId32> for [u8; 32] { fn from(x: AccountId32) -> Self { x.0 } }
pub trait Ss58Codec: Sized {}
