pub use codec; pub use serde;
pub use sp_core::{self, crypto::{key_types, ByteArray, CryptoType, CryptoTypeId, IsWrappedBy, KeyTypeId, Pair, Public, UncheckedFrom, Wraps}, RuntimeDebug};
pub use sp_core::crypto::{ecdsa as core_ecdsa};
use codec::{Codec, MaxEncodedLen};
use std::fmt::Debug;
pub trait AppCrypto: 'static + Sized { const ID: KeyTypeId; const CRYPTO_ID: CryptoTypeId; type Public; type Signature; type Pair; }
pub trait AppPublic {}
pub trait AppSignature {}
pub trait AppPair {}
pub trait RuntimeAppPublic: Sized {
	const ID: KeyTypeId; type Signature: Debug + Eq + PartialEq + Clone + Codec;
	fn all() -> Vec<Self>; fn generate_pair(seed: Option<Vec<u8>>) -> Self; fn sign<M: AsRef<[u8]>>(&self, m: &M) -> Option<Self::Signature>; fn verify<M: AsRef<[u8]>>(&self, m: &M, s: &Self::Signature) -> bool; fn to_raw_vec(&self) -> Vec<u8>;
}
pub trait BoundToRuntimeAppPublic { type Public: RuntimeAppPublic; }
impl<T: RuntimeAppPublic> BoundToRuntimeAppPublic for T { type Public = Self; }
#[doc(hidden)]
pub trait RuntimePublic: Sized { type Signature; fn r_all(t: KeyTypeId) -> Vec<Self>; fn r_gen(t: KeyTypeId, seed: Option<Vec<u8>>) -> Self; fn r_sign(&self, t: KeyTypeId, m: &[u8]) -> Option<Self::Signature>; fn r_verify(&self, m: &[u8], s: &Self::Signature) -> bool; }
impl RuntimePublic for sp_core::ecdsa::Public {
	type Signature = sp_core::ecdsa::Signature;
	fn r_all(t: KeyTypeId) -> Vec<Self> { sp_io::with_extension::<sp_keystore::KeystoreExt, _>(|k| k.0.ecdsa_public_keys(t)).unwrap_or_default() }
	fn r_gen(t: KeyTypeId, seed: Option<Vec<u8>>) -> Self { let s = seed.map(|s| String::from_utf8(s).expect("utf8")); sp_io::with_extension::<sp_keystore::KeystoreExt, _>(|k| k.0.ecdsa_generate_new(t, s.as_deref()).expect("key")).expect("KeystoreExt") }
	fn r_sign(&self, t: KeyTypeId, m: &[u8]) -> Option<Self::Signature> { sp_io::with_extension::<sp_keystore::KeystoreExt, _>(|k| k.0.ecdsa_sign(t, self, m).ok().flatten()).flatten() }
	fn r_verify(&self, m: &[u8], s: &Self::Signature) -> bool { sp_io::crypto::ecdsa_verify(s, m, self) }
}
macro_rules! nokeys { ($m:ident) => { impl RuntimePublic for sp_core::$m::Public { type Signature = sp_core::$m::Signature; fn r_all(_: KeyTypeId) -> Vec<Self> { vec![] } fn r_gen(_: KeyTypeId, _: Option<Vec<u8>>) -> Self { Self([1; 32]) } fn r_sign(&self, _: KeyTypeId, _: &[u8]) -> Option<Self::Signature> { None } fn r_verify(&self, m: &[u8], s: &Self::Signature) -> bool { <sp_core::$m::Pair as Pair>::verify(s, m, self) } } } }
nokeys!(ed25519); nokeys!(sr25519);
#[doc(hidden)] pub fn _m<T: MaxEncodedLen>() {}
pub mod ecdsa { pub use sp_core::ecdsa::*; pub mod app { crate::app_crypto!(super, sp_core::testing::ECDSA); } pub use app::{Pair as AppPair, Public as AppPublic, Signature as AppSignature}; }
pub mod ed25519 { pub use sp_core::ed25519::*; pub mod app { crate::app_crypto!(super, sp_core::testing::ED25519); } }
pub mod sr25519 { pub use sp_core::sr25519::*; pub mod app { crate::app_crypto!(super, sp_core::testing::SR25519); } }
#[macro_export]
macro_rules! app_crypto { ($m:ident, $id:expr) => {
	#[allow(unused_imports)] use $crate::codec as _c;
	#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
	pub struct Public($m::Public);
	#[derive(Clone, PartialEq, Eq, Hash, Debug)]
	pub struct Signature($m::Signature);
	#[derive(Clone)]
	pub struct Pair($m::Pair);
	const _: () = {
		use $crate::codec::{Decode, Encode, EncodeLike, Error, Input, MaxEncodedLen, Output};
		use $crate::{ByteArray, KeyTypeId, RuntimePublic};
		macro_rules! enc { ($t:ident) => {
			impl Encode for $t { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { self.0.encode_to(d) } } impl EncodeLike for $t {} impl Decode for $t { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Decode::decode(i).map($t) } }
			impl MaxEncodedLen for $t { fn max_encoded_len() -> usize { <$m::$t as MaxEncodedLen>::max_encoded_len() } }
			impl From<$m::$t> for $t { fn from(x: $m::$t) -> Self { $t(x) } } impl From<$t> for $m::$t { fn from(x: $t) -> Self { x.0 } }
			impl AsRef<$m::$t> for $t { fn as_ref(&self) -> &$m::$t { &self.0 } } impl AsMut<$m::$t> for $t { fn as_mut(&mut self) -> &mut $m::$t { &mut self.0 } }
			impl AsRef<[u8]> for $t { fn as_ref(&self) -> &[u8] { AsRef::<[u8]>::as_ref(&self.0) } } impl AsMut<[u8]> for $t { fn as_mut(&mut self) -> &mut [u8] { AsMut::<[u8]>::as_mut(&mut self.0) } }
			impl ::core::ops::Deref for $t { type Target = [u8]; fn deref(&self) -> &[u8] { AsRef::<[u8]>::as_ref(&self.0) } }
			impl TryFrom<&[u8]> for $t { type Error = (); fn try_from(d: &[u8]) -> Result<Self, ()> { <$m::$t>::try_from(d).map($t) } }
			impl TryFrom<Vec<u8>> for $t { type Error = (); fn try_from(d: Vec<u8>) -> Result<Self, ()> { <$m::$t>::try_from(&d[..]).map($t) } }
		} }
		enc!(Public); enc!(Signature);
		impl ::core::fmt::Display for Public { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::fmt::Display::fmt(&self.0, f) } }
		impl $crate::serde::Serialize for Public { fn serialize<S: $crate::serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) } }
		impl<'de> $crate::serde::Deserialize<'de> for Public { fn deserialize<D: $crate::serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { $crate::serde::Deserialize::deserialize(d).map(Public) } }
		impl ByteArray for Public { const LEN: usize = <$m::Public as ByteArray>::LEN; }
		impl $crate::Public for Public {}
		impl $crate::CryptoType for Public { type Pair = Pair; } impl $crate::CryptoType for Signature { type Pair = Pair; } impl $crate::CryptoType for Pair { type Pair = Pair; }
		impl $crate::AppCrypto for Public { const ID: KeyTypeId = $id; const CRYPTO_ID: $crate::CryptoTypeId = $m::CRYPTO_ID; type Public = Public; type Signature = Signature; type Pair = Pair; }
		impl $crate::AppCrypto for Pair { const ID: KeyTypeId = $id; const CRYPTO_ID: $crate::CryptoTypeId = $m::CRYPTO_ID; type Public = Public; type Signature = Signature; type Pair = Pair; }
		impl $crate::AppPublic for Public {} impl $crate::AppSignature for Signature {} impl $crate::AppPair for Pair {}
		impl $crate::Wraps for Public { type Inner = $m::Public; } impl $crate::Wraps for Signature { type Inner = $m::Signature; }
		impl $crate::UncheckedFrom<[u8; <$m::Public as ByteArray>::LEN]> for Public { fn unchecked_from(d: [u8; <$m::Public as ByteArray>::LEN]) -> Self { Public($m::Public::from_raw(d)) } }
		impl $crate::RuntimeAppPublic for Public {
			const ID: KeyTypeId = $id; type Signature = Signature;
			fn all() -> Vec<Self> { <$m::Public as RuntimePublic>::r_all($id).into_iter().map(Self).collect() }
			fn generate_pair(s: Option<Vec<u8>>) -> Self { Self(<$m::Public as RuntimePublic>::r_gen($id, s)) }
			fn sign<M: AsRef<[u8]>>(&self, m: &M) -> Option<Signature> { self.0.r_sign($id, m.as_ref()).map(Signature) }
			fn verify<M: AsRef<[u8]>>(&self, m: &M, s: &Signature) -> bool { self.0.r_verify(m.as_ref(), &s.0) }
			fn to_raw_vec(&self) -> Vec<u8> { ByteArray::to_raw_vec(&self.0) }
		}
		impl $crate::Pair for Pair {
			type Public = Public; type Seed = <$m::Pair as $crate::Pair>::Seed; type Signature = Signature;
			fn from_seed_slice(s: &[u8]) -> Result<Self, $crate::sp_core::crypto::SecretStringError> { <$m::Pair as $crate::Pair>::from_seed_slice(s).map(Self) }
			fn sign(&self, m: &[u8]) -> Signature { Signature($crate::Pair::sign(&self.0, m)) }
			fn verify<M: AsRef<[u8]>>(s: &Signature, m: M, p: &Public) -> bool { <$m::Pair as $crate::Pair>::verify(&s.0, m, &p.0) }
			fn public(&self) -> Public { Public($crate::Pair::public(&self.0)) }
			fn to_raw_vec(&self) -> Vec<u8> { $crate::Pair::to_raw_vec(&self.0) }
		}
		impl From<$m::Pair> for Pair { fn from(x: $m::Pair) -> Self { Pair(x) } } impl From<Pair> for $m::Pair { fn from(x: Pair) -> Self { x.0 } }
	};
}; }
#[macro_export] macro_rules! with_pair { ($($i:item)*) => { $($i)* }; }
