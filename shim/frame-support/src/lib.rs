//! Stand-in for `frame-support`: the storage, dispatch and trait layer pallets are written against.
#![allow(clippy::all)]
pub use codec; pub use scale_info; pub use serde; pub use sp_std; pub use sp_io; pub use log; pub use sp_runtime; pub use sp_core;
pub use sp_runtime as sp_runtime_;
pub mod hash; pub mod storage; pub mod dispatch; pub mod traits; pub mod instances; pub mod error;
mod macros;
pub use hash::{Blake2_128, Blake2_128Concat, Blake2_256, Hashable, Identity, ReversibleStorageHasher, StorageHasher, Twox128, Twox256, Twox64Concat};
pub use storage::{migration, types as storage_types, IterableStorageDoubleMap, IterableStorageMap, StorageDoubleMap, StorageMap, StoragePrefixedMap, StorageValue};
pub use dispatch::{DispatchResult, Parameter};
pub use sp_runtime::{bounded_vec, traits::Printable, BoundedBTreeMap, BoundedBTreeSet, BoundedVec, ConsensusEngineId, WeakBoundedVec, StateVersion, print, RuntimeDebug};
pub use sp_core::bounded::BoundedSlice;
pub use mini_macros::{construct_runtime, pallet, require_transactional, storage_alias, transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PalletError, PartialEqNoBound, RuntimeDebugNoBound};
pub mod weights { pub use sp_weights::*; 
	pub mod constants { pub use sp_weights::constants::*; use sp_weights::{RuntimeDbWeight, Weight}; crate::parameter_types! { pub const BlockExecutionWeight: Weight = Weight::from_parts(390_584_000, 0); pub const ExtrinsicBaseWeight: Weight = Weight::from_parts(124_414_000, 0); }
		pub struct RocksDbWeight; impl RocksDbWeight { pub const fn get() -> RuntimeDbWeight { RuntimeDbWeight { read: 25_000_000, write: 100_000_000 } } } impl<I: From<RuntimeDbWeight>> sp_core::Get<I> for RocksDbWeight { fn get() -> I { I::from(Self::get()) } }
		pub struct ParityDbWeight; impl ParityDbWeight { pub const fn get() -> RuntimeDbWeight { RuntimeDbWeight { read: 8_000_000, write: 50_000_000 } } } impl<I: From<RuntimeDbWeight>> sp_core::Get<I> for ParityDbWeight { fn get() -> I { I::from(Self::get()) } } }
	pub use sp_weights::Weight; }
pub mod inherent { pub type InherentIdentifier = [u8; 8];
	#[derive(Clone, Default, Debug)] pub struct InherentData { pub data: std::collections::BTreeMap<InherentIdentifier, Vec<u8>> }
	impl InherentData { pub fn new() -> Self { Self::default() } pub fn put_data<I: codec::Encode>(&mut self, id: InherentIdentifier, v: &I) -> Result<(), ()> { self.data.insert(id, v.encode()); Ok(()) } pub fn get_data<I: codec::Decode>(&self, id: &InherentIdentifier) -> Result<Option<I>, codec::Error> { self.data.get(id).map(|v| I::decode(&mut &v[..])).transpose() } }
	pub trait IsFatalError { fn is_fatal_error(&self) -> bool; }
	pub trait ProvideInherent { type Call; type Error: codec::Encode + IsFatalError; const INHERENT_IDENTIFIER: InherentIdentifier; fn create_inherent(d: &InherentData) -> Option<Self::Call>; fn is_inherent_required(_: &InherentData) -> Result<Option<Self::Error>, Self::Error> { Ok(None) } fn check_inherent(_: &Self::Call, _: &InherentData) -> Result<(), Self::Error> { Ok(()) } fn is_inherent(c: &Self::Call) -> bool; } }
pub mod unsigned { pub use sp_runtime::traits::ValidateUnsigned; pub use sp_runtime::transaction_validity::*; }
pub mod genesis_builder_helper {}
pub mod defensive_prelude { pub use crate::{defensive, defensive_assert}; pub use crate::traits::{Defensive, DefensiveOption, DefensiveResult}; }
pub mod migrations { pub struct RemovePallet<P, D>(std::marker::PhantomData<(P, D)>); }
#[derive(Clone, PartialEq, Eq, Debug, codec::Encode, codec::Decode, Copy, PartialOrd, Ord)] pub enum Never {}
impl codec::MaxEncodedLen for Never { fn max_encoded_len() -> usize { 0 } }
/// Identifies a pallet's own account.
#[derive(Clone, Copy, Eq, PartialEq, Debug, PartialOrd, Ord, Hash, codec::Encode, codec::Decode, codec::MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub struct PalletId(pub [u8; 8]);
impl sp_runtime::traits::TypeId for PalletId { const TYPE_ID: [u8; 4] = *b"modl"; }
pub fn storage_root(v: StateVersion) -> Vec<u8> { sp_io::storage::root(v) }
#[doc(hidden)]
pub mod __private {
	pub use crate::dispatch::{DispatchInfo, WeightSpec};
	pub use sp_io::{self, hashing::twox_128, storage::root as storage_root};
	pub use sp_runtime::{traits::{Dispatchable, ValidateUnsigned}, transaction_validity::{TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction}, BuildStorage, DispatchError, ModuleError, StateVersion, Storage};
	pub use log; pub use sp_std; pub use codec; pub use serde;
	pub trait Second { type Out; } impl<A, B> Second for (A, B) { type Out = B; }
	pub fn weight_spec(w: impl WeightSpec) -> DispatchInfo { w.spec() }
	pub fn build_into(s: &mut Storage, f: impl FnOnce()) -> Result<(), String> { let mut e = sp_io::TestExternalities::new(std::mem::take(s)); e.execute_with(f); *s = e.into_storage(); Ok(()) }
	pub trait MaybeValidateUnsigned<C> { fn maybe_validate_unsigned(_: TransactionSource, _: &C) -> TransactionValidity { Err(UnknownTransaction::NoUnsignedValidator.into()) } fn maybe_pre_dispatch(_: &C) -> Result<(), TransactionValidityError> { Err(UnknownTransaction::NoUnsignedValidator.into()) } }
}
pub mod pallet_prelude {
	pub use crate::{defensive, defensive_assert, dispatch::{DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays}, ensure, inherent::{InherentData, InherentIdentifier, ProvideInherent},
		storage::{types::{CountedStorageMap, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageValue, ValueQuery}, bounded_vec::BoundedVec},
		traits::{BuildGenesisConfig, ConstU32, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, PalletInfoAccess, StorageInfoTrait, StorageVersion, TypedGet, OriginTrait, GetCallName, GetCallIndex},
		Blake2_128, Blake2_128Concat, Blake2_256, CloneNoBound, DebugNoBound, EqNoBound, Identity, PartialEqNoBound, RuntimeDebugNoBound, Twox128, Twox256, Twox64Concat, PalletError, DefaultNoBound, storage, RuntimeDebug };
	pub use codec::{Decode, Encode, MaxEncodedLen};
	pub use scale_info::TypeInfo;
	pub use sp_runtime::{traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned, }, transaction_validity::{InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction}, MAX_MODULE_ERROR_ENCODED_SIZE};
	pub use sp_std::marker::PhantomData;
	pub use sp_weights::Weight;
	pub use core::result::Result;
}
pub mod testing_prelude { pub use crate::{assert_err, assert_noop, assert_ok, assert_storage_noop, parameter_types, traits::Get, bounded_vec}; }
