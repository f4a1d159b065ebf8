//! Stand-in for `sp-runtime`.
#[doc(hidden)] pub use codec;
#[doc(hidden)] pub use serde;
pub use sp_core; pub use sp_std;
pub use sp_application_crypto as app_crypto;
pub use sp_application_crypto::{BoundToRuntimeAppPublic, RuntimeAppPublic};
pub use sp_arithmetic::{assert_eq_error_rate, helpers_128bit, traits::SaturatedConversion, ArithmeticError, FixedPointNumber, FixedPointOperand, FixedU128, FixedU64, PerThing, PerU16, Perbill, Percent, Permill, Perquintill, Rounding};
pub mod per_things { pub use sp_arithmetic::per_things::*; pub use sp_arithmetic::{Rounding, SignedRounding}; }
pub use sp_core::{bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec}, bounded_vec, crypto::{key_types, AccountId32, CryptoType, CryptoTypeId, KeyTypeId}, storage::{StateVersion, Storage, StorageChild}, OpaqueMetadata, RuntimeDebug};
pub use sp_arithmetic::Saturating; 
use codec::{Decode, Encode, MaxEncodedLen};
pub use sp_weights::Weight;
pub mod traits;
pub mod generic;
pub mod testing;
pub mod transaction_validity;
pub mod offchain;
pub mod curve;
pub mod multiaddress;
pub mod runtime_string;
pub use multiaddress::MultiAddress;
pub use runtime_string::RuntimeString;
pub use generic::{Digest, DigestItem};
#[macro_export]
macro_rules! create_runtime_str { ($y:expr) => { $crate::RuntimeString::Borrowed($y) }; }
pub type ConsensusEngineId = [u8; 4];
pub type EncodedJustification = Vec<u8>;
pub type Justification = (ConsensusEngineId, EncodedJustification);
#[derive(Clone, PartialEq, Eq, Debug, Default, Encode, Decode, serde::Serialize, serde::Deserialize)]
pub struct Justifications(Vec<Justification>);
impl Justifications { pub fn iter(&self) -> impl Iterator<Item = &Justification> { self.0.iter() } pub fn append(&mut self, j: Justification) -> bool { if self.get(j.0).is_some() { return false } self.0.push(j); true } pub fn get(&self, e: ConsensusEngineId) -> Option<&EncodedJustification> { self.0.iter().find(|j| j.0 == e).map(|j| &j.1) } pub fn into_justification(self, e: ConsensusEngineId) -> Option<EncodedJustification> { self.0.into_iter().find(|j| j.0 == e).map(|j| j.1) } pub fn new(v: Vec<Justification>) -> Self { Self(v) } }
impl From<Justification> for Justifications { fn from(j: Justification) -> Self { Self(vec![j]) } }
impl IntoIterator for Justifications { type Item = Justification; type IntoIter = std::vec::IntoIter<Justification>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }

pub trait BuildStorage { fn build_storage(&self) -> Result<Storage, String> { let mut s = Default::default(); self.assimilate_storage(&mut s)?; Ok(s) } fn assimilate_storage(&self, s: &mut Storage) -> Result<(), String>; }
impl BuildStorage for () { fn assimilate_storage(&self, _: &mut Storage) -> Result<(), String> { Ok(()) } }

pub const MAX_MODULE_ERROR_ENCODED_SIZE: usize = 4;
#[derive(Eq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen)]
pub struct ModuleError { pub index: u8, pub error: [u8; 4], #[codec(skip)] pub message: Option<&'static str> }
impl PartialEq for ModuleError { fn eq(&self, o: &Self) -> bool { self.index == o.index && self.error == o.error } }
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen)]
pub enum TransactionalError { LimitReached, NoLayer }
impl From<TransactionalError> for &'static str { fn from(e: TransactionalError) -> &'static str { match e { TransactionalError::LimitReached => "Too many transactional layers have been spawned", TransactionalError::NoLayer => "A transactional layer was expected, but does not exist" } } }
impl From<TransactionalError> for DispatchError { fn from(e: TransactionalError) -> Self { DispatchError::Transactional(e) } }
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum TokenError { FundsUnavailable, OnlyProvider, BelowMinimum, CannotCreate, UnknownAsset, Frozen, Unsupported, CannotCreateHold, NotExpendable, Blocked }
impl From<TokenError> for &'static str { fn from(e: TokenError) -> &'static str { match e { TokenError::FundsUnavailable => "Funds are unavailable", TokenError::OnlyProvider => "Account that must exist would die", TokenError::BelowMinimum => "Account cannot exist with the funds that would be given", TokenError::CannotCreate => "Account cannot be created", TokenError::UnknownAsset => "The asset in question is unknown", TokenError::Frozen => "Funds exist but are frozen", TokenError::Unsupported => "Operation is not supported by the asset", TokenError::CannotCreateHold => "Account cannot be created for recording amount on hold", TokenError::NotExpendable => "Account that is desired to remain would die", TokenError::Blocked => "Account cannot receive the assets" } } }
impl From<TokenError> for DispatchError { fn from(e: TokenError) -> Self { DispatchError::Token(e) } }
impl From<ArithmeticError> for DispatchError { fn from(e: ArithmeticError) -> Self { DispatchError::Arithmetic(e) } }
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen)]
pub enum DispatchError { Other(#[codec(skip)] &'static str), CannotLookup, BadOrigin, Module(ModuleError), ConsumerRemaining, NoProviders, TooManyConsumers, Token(TokenError), Arithmetic(ArithmeticError), Transactional(TransactionalError), Exhausted, Corruption, Unavailable, RootNotAllowed }
impl DispatchError { pub fn stripped(self) -> Self { match self { DispatchError::Module(ModuleError { index, error, message: Some(_) }) => DispatchError::Module(ModuleError { index, error, message: None }), m => m } } }
impl From<&'static str> for DispatchError { fn from(e: &'static str) -> Self { DispatchError::Other(e) } }
impl From<traits::BadOrigin> for DispatchError { fn from(_: traits::BadOrigin) -> Self { DispatchError::BadOrigin } }
impl From<traits::LookupError> for DispatchError { fn from(_: traits::LookupError) -> Self { DispatchError::CannotLookup } }
impl From<DispatchError> for &'static str { fn from(e: DispatchError) -> &'static str { use DispatchError::*; match e { Other(m) => m, CannotLookup => "Cannot lookup", BadOrigin => "Bad origin", Module(ModuleError { message, .. }) => message.unwrap_or("Unknown module error"), ConsumerRemaining => "Consumer remaining", NoProviders => "No providers", TooManyConsumers => "Too many consumers", Token(e) => e.into(), Arithmetic(e) => e.into(), Transactional(e) => e.into(), Exhausted => "Resources exhausted", Corruption => "State corrupt", Unavailable => "Resource unavailable", RootNotAllowed => "Root not allowed" } } }
impl<Info: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable> From<DispatchErrorWithPostInfo<Info>> for &'static str { fn from(e: DispatchErrorWithPostInfo<Info>) -> &'static str { e.error.into() } }
impl traits::Printable for DispatchError { fn print(&self) {} }
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug)]
pub struct DispatchErrorWithPostInfo<Info> { pub post_info: Info, pub error: DispatchError }
impl<T, E: Into<DispatchError>> From<E> for DispatchErrorWithPostInfo<T> where T: Default { fn from(e: E) -> Self { Self { post_info: Default::default(), error: e.into() } } }
impl<I: std::fmt::Debug> std::fmt::Display for DispatchErrorWithPostInfo<I> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
pub type DispatchResult = Result<(), DispatchError>;
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
pub type DispatchOutcome = Result<(), DispatchError>;
pub type ApplyExtrinsicResult = Result<DispatchOutcome, transaction_validity::TransactionValidityError>;
pub type ApplyExtrinsicResultWithInfo<T> = Result<DispatchResultWithInfo<T>, transaction_validity::TransactionValidityError>;
pub type TryRuntimeError = DispatchError;
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode)] pub enum ExtrinsicInclusionMode { AllExtrinsics, OnlyInherents }

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum MultiSignature { Ed25519(sp_core::ed25519::Signature), Sr25519(sp_core::sr25519::Signature), Ecdsa(sp_core::ecdsa::Signature) }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, serde::Serialize, serde::Deserialize)]
pub enum MultiSigner { Ed25519(sp_core::ed25519::Public), Sr25519(sp_core::sr25519::Public), Ecdsa(sp_core::ecdsa::Public) }

/// Opaque extrinsic: just bytes.
#[derive(Clone, PartialEq, Eq, Debug, Default, Encode, Decode, serde::Serialize, serde::Deserialize)]
pub struct OpaqueExtrinsic(Vec<u8>);
impl OpaqueExtrinsic { pub fn from_bytes(mut b: &[u8]) -> Result<Self, codec::Error> { Self::decode(&mut b) } }
impl traits::Extrinsic for OpaqueExtrinsic { type Call = (); type SignaturePayload = (); }
/// `impl_opaque_keys!`: a struct of session keys, one per bound pallet.
#[macro_export]
macro_rules! impl_opaque_keys { ($(#[$a:meta])* pub struct $name:ident { $( $(#[$ia:meta])* pub $field:ident: $type:ty, )* }) => {
	#[derive(Clone, PartialEq, Eq, Debug, $crate::codec::Encode, $crate::codec::Decode, $crate::serde::Serialize, $crate::serde::Deserialize)] #[serde(crate = "::sp_runtime::serde")]
	pub struct $name { $( pub $field: <$type as $crate::BoundToRuntimeAppPublic>::Public, )* }
	impl $crate::traits::OpaqueKeys for $name { type KeyTypeIdProviders = ( $( $type, )* );
		fn key_ids() -> &'static [$crate::KeyTypeId] { &[$( <<$type as $crate::BoundToRuntimeAppPublic>::Public as $crate::RuntimeAppPublic>::ID ),*] }
		fn get_raw(&self, i: $crate::KeyTypeId) -> &[u8] { match i { $( i if i == <<$type as $crate::BoundToRuntimeAppPublic>::Public as $crate::RuntimeAppPublic>::ID => self.$field.as_ref(), )* _ => &[] } } }
}; }
pub fn print<T: traits::Printable>(_: T) {}
pub fn verify_encoded_lazy<V: traits::Verify, T: Encode>(sig: &V, item: &T, signer: &<V::Signer as traits::IdentifyAccount>::AccountId) -> bool { let mut l = |_: ()| item.encode(); struct L(Vec<u8>); impl traits::Lazy<[u8]> for L { fn get(&mut self) -> &[u8] { &self.0 } } sig.verify(L(l(())), signer) }
#[derive(Clone, PartialEq, Eq, Debug)] pub enum TransactionOutcome<R> { Commit(R), Rollback(R) }
impl<R> TransactionOutcome<R> { pub fn into_inner(self) -> R { match self { Self::Commit(r) | Self::Rollback(r) => r } } }
