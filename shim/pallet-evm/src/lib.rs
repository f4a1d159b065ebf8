//! Stand-in for Frontier's `pallet-evm`: the configuration surface, account code storage, and a recording runner.
#![allow(clippy::all)]
use frame_support::{pallet_prelude::*, traits::{Currency, FindAuthor, Get, Time}, weights::Weight};
use frame_system::{pallet_prelude::*, RawOrigin};
use sp_core::{H160, H256, U256};
pub use evm::Config as EvmConfig;
pub use fp_evm::*;
pub use pallet::*;

pub type BalanceOf<T> = <<T as Config>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
pub trait WeightInfo { fn withdraw() -> Weight { Weight::zero() } } impl WeightInfo for () {}
pub mod weights { pub struct SubstrateWeight<T>(std::marker::PhantomData<T>); impl<T> super::WeightInfo for SubstrateWeight<T> {} }

pub trait AddressMapping<A> { fn into_account_id(address: H160) -> A; }
pub struct IdentityAddressMapping;
impl<T: From<H160>> AddressMapping<T> for IdentityAddressMapping { fn into_account_id(a: H160) -> T { a.into() } }
pub trait BlockHashMapping { fn block_hash(number: u32) -> H256; }
pub struct SubstrateBlockHashMapping<T>(std::marker::PhantomData<T>);
pub trait GasWeightMapping { fn gas_to_weight(gas: u64, without_base_weight: bool) -> Weight; fn weight_to_gas(weight: Weight) -> u64; }
pub struct FixedGasWeightMapping<T>(std::marker::PhantomData<T>);
impl<T: Config> GasWeightMapping for FixedGasWeightMapping<T> { fn gas_to_weight(g: u64, _: bool) -> Weight { T::WeightPerGas::get().saturating_mul(g) } fn weight_to_gas(w: Weight) -> u64 { w.ref_time().checked_div(T::WeightPerGas::get().ref_time()).unwrap_or(0) } }
pub trait EnsureAddressOrigin<OuterOrigin> {
	type Success;
	fn ensure_address_origin(address: &H160, origin: OuterOrigin) -> Result<Self::Success, sp_runtime::traits::BadOrigin> { Self::try_address_origin(address, origin).map_err(|_| sp_runtime::traits::BadOrigin) }
	fn try_address_origin(address: &H160, origin: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
}
pub struct EnsureAddressNever<A>(std::marker::PhantomData<A>);
impl<O, A> EnsureAddressOrigin<O> for EnsureAddressNever<A> { type Success = A; fn try_address_origin(_: &H160, o: O) -> Result<A, O> { Err(o) } }
pub struct EnsureAddressRoot<A>(std::marker::PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureAddressOrigin<O> for EnsureAddressRoot<A> { type Success = (); fn try_address_origin(_: &H160, o: O) -> Result<(), O> { o.into().and_then(|o| match o { RawOrigin::Root => Ok(()), r => Err(O::from(r)) }) } }
pub trait OnChargeEVMTransaction<T: Config> {
	type LiquidityInfo: Default;
	fn withdraw_fee(who: &H160, fee: U256) -> Result<Self::LiquidityInfo, Error<T>>;
	fn correct_and_deposit_fee(who: &H160, corrected_fee: U256, base_fee: U256, already_withdrawn: Self::LiquidityInfo) -> Self::LiquidityInfo;
	fn pay_priority_fee(tip: Self::LiquidityInfo);
}
impl<T: Config> OnChargeEVMTransaction<T> for () { type LiquidityInfo = (); fn withdraw_fee(_: &H160, _: U256) -> Result<(), Error<T>> { Ok(()) } fn correct_and_deposit_fee(_: &H160, _: U256, _: U256, _: ()) {} fn pay_priority_fee(_: ()) {} }
/// The plain adapter is only used by mocks whose fees no monitor looks at.
pub struct EVMCurrencyAdapter<C, OU>(std::marker::PhantomData<(C, OU)>);
impl<T: Config, C, OU> OnChargeEVMTransaction<T> for EVMCurrencyAdapter<C, OU> { type LiquidityInfo = (); fn withdraw_fee(_: &H160, _: U256) -> Result<(), Error<T>> { Ok(()) } fn correct_and_deposit_fee(_: &H160, _: U256, _: U256, _: ()) {} fn pay_priority_fee(_: ()) {} }
pub trait OnCreate<T> { fn on_create(_owner: H160, _contract: H160) {} }
impl<T> OnCreate<T> for () {}
#[derive(Clone, Copy, Default, Encode, Decode, PartialEq, Eq, Debug, TypeInfo, MaxEncodedLen)]
pub struct CodeMetadata { pub size: u64, pub hash: H256 }
#[derive(Debug)]
pub struct RunnerError<E: Into<sp_runtime::DispatchError>> { pub error: E, pub weight: Weight }
pub trait Runner<T: Config> {
	type Error: Into<sp_runtime::DispatchError>;
	fn validate(source: H160, target: Option<H160>, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, evm_config: &EvmConfig) -> Result<(), RunnerError<Self::Error>>;
	fn call(source: H160, target: H160, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &EvmConfig) -> Result<CallInfo, RunnerError<Self::Error>>;
	fn create(source: H160, init: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>>;
	fn create2(source: H160, init: Vec<u8>, salt: H256, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>>;
}
pub mod runner {
	pub use super::Runner as RunnerT;
	pub mod stack {
		use crate::*;
		/// What the stand-in runner was asked to execute.
		#[derive(Clone, Debug, PartialEq, Eq)]
		pub struct Recorded { pub kind: &'static str, pub source: H160, pub target: Option<H160>, pub input: Vec<u8>, pub value: U256, pub gas_limit: u64, pub max_fee_per_gas: Option<U256>, pub max_priority_fee_per_gas: Option<U256>, pub is_transactional: bool }
		thread_local! { pub static CALLS: std::cell::RefCell<Vec<Recorded>> = Default::default(); pub static FAIL: std::cell::Cell<bool> = Default::default(); }
		pub fn take_calls() -> Vec<Recorded> { CALLS.with(|c| std::mem::take(&mut *c.borrow_mut())) }
		pub fn set_failing(f: bool) { FAIL.with(|c| c.set(f)) }
		#[derive(Default)] pub struct Runner<T>(std::marker::PhantomData<T>);
		fn rec(r: Recorded) { CALLS.with(|c| c.borrow_mut().push(r)) }
		impl<T: Config> crate::Runner<T> for Runner<T> where BalanceOf<T>: TryFrom<U256> + Into<U256> {
			type Error = Error<T>;
			fn validate(source: H160, target: Option<H160>, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, _: Option<Weight>, _: Option<u64>, _: &EvmConfig) -> Result<(), RunnerError<Error<T>>> { crate::exec::validate::<T>(source, target, input, value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas, nonce, access_list, is_transactional) }
			fn call(source: H160, target: H160, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, w: Option<Weight>, p: Option<u64>, c: &EvmConfig) -> Result<CallInfo, RunnerError<Error<T>>> {
				if validate { Self::validate(source, Some(target), input.clone(), value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas, nonce, access_list, is_transactional, w, p, c)?; }
				rec(Recorded { kind: "call", source, target: Some(target), input: input.clone(), value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas, is_transactional });
				crate::exec::execute::<T, _>(source, value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas, is_transactional, |ex| ex.transact_call(source, target, value, input, gas_limit))
			}
			fn create(source: H160, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, w: Option<Weight>, p: Option<u64>, c: &EvmConfig) -> Result<CreateInfo, RunnerError<Error<T>>> {
				if validate { Self::validate(source, None, input.clone(), value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas, nonce, access_list, is_transactional, w, p, c)?; }
				rec(Recorded { kind: "create", source, target: None, input: input.clone(), value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas, is_transactional });
				crate::exec::execute::<T, _>(source, value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas, is_transactional, |ex| ex.transact_create(source, value, input, H256::zero(), gas_limit))
			}
			fn create2(source: H160, input: Vec<u8>, salt: H256, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, w: Option<Weight>, p: Option<u64>, c: &EvmConfig) -> Result<CreateInfo, RunnerError<Error<T>>> {
				if validate { Self::validate(source, None, input.clone(), value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas, nonce, access_list, is_transactional, w, p, c)?; }
				rec(Recorded { kind: "create2", source, target: None, input: input.clone(), value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas, is_transactional });
				crate::exec::execute::<T, _>(source, value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas, is_transactional, |ex| ex.transact_create(source, value, input, salt, gas_limit))
			}
		}
	}
}
pub mod exec;
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type FeeCalculator: FeeCalculator;
		type GasWeightMapping: GasWeightMapping;
		type WeightPerGas: Get<Weight>;
		type BlockHashMapping: BlockHashMapping;
		type CallOrigin: EnsureAddressOrigin<Self::RuntimeOrigin>;
		type WithdrawOrigin: EnsureAddressOrigin<Self::RuntimeOrigin, Success = Self::AccountId>;
		type AddressMapping: AddressMapping<Self::AccountId>;
		type Currency: Currency<Self::AccountId> + frame_support::traits::fungible::Inspect<Self::AccountId>;
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type PrecompilesType: PrecompileSet;
		type PrecompilesValue: Get<Self::PrecompilesType>;
		type ChainId: Get<u64>;
		type BlockGasLimit: Get<U256>;
		type Runner: Runner<Self>;
		type OnChargeTransaction: OnChargeEVMTransaction<Self>;
		type OnCreate: OnCreate<Self>;
		type FindAuthor: FindAuthor<H160>;
		type HandleTxValidation: HandleTxValidation<Error<Self>>;
		type GasLimitPovSizeRatio: Get<u64>;
		type Timestamp: Time;
		type WeightInfo: WeightInfo;
		fn config() -> &'static EvmConfig { static C: EvmConfig = EvmConfig::london(); &C }
	}
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::storage] pub type AccountCodes<T: Config> = StorageMap<_, Blake2_128Concat, H160, Vec<u8>, ValueQuery>;
	#[pallet::storage] pub type AccountCodesMetadata<T: Config> = StorageMap<_, Blake2_128Concat, H160, CodeMetadata, OptionQuery>;
	#[pallet::storage] pub type AccountStorages<T: Config> = StorageDoubleMap<_, Blake2_128Concat, H160, Blake2_128Concat, H256, H256, ValueQuery>;
	#[pallet::event] #[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> { Executed { address: H160 }, ExecutedFailed { address: H160 }, Created { address: H160 }, CreatedFailed { address: H160 } }
	#[pallet::error]
	pub enum Error<T> { BalanceLow, FeeOverflow, PaymentOverflow, WithdrawFailed, GasPriceTooLow, InvalidNonce, GasLimitTooLow, GasLimitTooHigh, Undefined, Reentrancy, TransactionMustComeFromEOA }
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)] #[pallet::weight(Weight::zero())]
		pub fn withdraw(origin: OriginFor<T>, address: H160, _value: u128) -> DispatchResult { let _ = T::WithdrawOrigin::ensure_address_origin(&address, origin)?; Ok(()) }
		#[pallet::call_index(1)] #[pallet::weight(Weight::zero())]
		pub fn call(origin: OriginFor<T>, source: H160, target: H160, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: U256, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>) -> DispatchResultWithPostInfo {
			T::CallOrigin::ensure_address_origin(&source, origin)?;
			let info = match T::Runner::call(source, target, input, value, gas_limit, Some(max_fee_per_gas), max_priority_fee_per_gas, nonce, access_list, true, true, None, None, T::config()) { Ok(i) => i, Err(e) => return Err(e.error.into().into()) };
			match info.exit_reason { ExitReason::Succeed(_) => Self::deposit_event(Event::Executed { address: target }), _ => Self::deposit_event(Event::ExecutedFailed { address: target }) }
			Ok(().into())
		}
		#[pallet::call_index(2)] #[pallet::weight(Weight::zero())]
		pub fn create(origin: OriginFor<T>, source: H160, init: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: U256, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>) -> DispatchResultWithPostInfo {
			T::CallOrigin::ensure_address_origin(&source, origin)?;
			let info = match T::Runner::create(source, init, value, gas_limit, Some(max_fee_per_gas), max_priority_fee_per_gas, nonce, access_list, true, true, None, None, T::config()) { Ok(i) => i, Err(e) => return Err(e.error.into().into()) };
			match info.exit_reason { ExitReason::Succeed(_) => Self::deposit_event(Event::Created { address: info.value }), _ => Self::deposit_event(Event::CreatedFailed { address: info.value }) }
			Ok(().into())
		}
		#[pallet::call_index(3)] #[pallet::weight(Weight::zero())]
		pub fn create2(origin: OriginFor<T>, source: H160, init: Vec<u8>, salt: H256, value: U256, gas_limit: u64, max_fee_per_gas: U256, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>) -> DispatchResultWithPostInfo {
			T::CallOrigin::ensure_address_origin(&source, origin)?;
			let info = match T::Runner::create2(source, init, salt, value, gas_limit, Some(max_fee_per_gas), max_priority_fee_per_gas, nonce, access_list, true, true, None, None, T::config()) { Ok(i) => i, Err(e) => return Err(e.error.into().into()) };
			match info.exit_reason { ExitReason::Succeed(_) => Self::deposit_event(Event::Created { address: info.value }), _ => Self::deposit_event(Event::CreatedFailed { address: info.value }) }
			Ok(().into())
		}
	}
}
impl<T> From<TransactionValidationError> for Error<T> { fn from(e: TransactionValidationError) -> Self { use TransactionValidationError as E; match e { E::GasLimitTooLow => Error::GasLimitTooLow, E::GasLimitTooHigh => Error::GasLimitTooHigh, E::GasPriceTooLow | E::PriorityFeeTooHigh => Error::GasPriceTooLow, E::BalanceTooLow => Error::BalanceLow, E::TxNonceTooLow | E::TxNonceTooHigh => Error::InvalidNonce, _ => Error::Undefined } } }
impl<T: Config> Pallet<T> {
	pub fn is_account_empty(address: &H160) -> bool { AccountCodes::<T>::get(address).is_empty() && frame_system::Pallet::<T>::account_nonce(&T::AddressMapping::into_account_id(*address)) == Default::default() }
	pub fn create_account(address: H160, code: Vec<u8>) {
		if code.is_empty() { return }
		if !AccountCodes::<T>::contains_key(&address) { let _ = frame_system::Pallet::<T>::inc_sufficients(&T::AddressMapping::into_account_id(address)); }
		AccountCodesMetadata::<T>::insert(address, CodeMetadata { size: code.len() as u64, hash: sp_core::keccak_256(&code).into() });
		AccountCodes::<T>::insert(address, code);
	}
	pub fn remove_account(address: &H160) {
		if AccountCodes::<T>::contains_key(address) { let _ = frame_system::Pallet::<T>::dec_sufficients(&T::AddressMapping::into_account_id(*address)); }
		AccountCodes::<T>::remove(address); AccountCodesMetadata::<T>::remove(address);
	}
	pub fn account_basic(address: &H160) -> (Account, Weight) where BalanceOf<T>: Into<U256>, T::Nonce: sp_runtime::traits::UniqueSaturatedInto<u128> {
		use sp_runtime::traits::UniqueSaturatedInto;
		let a = T::AddressMapping::into_account_id(*address);
		(Account { nonce: U256::from(UniqueSaturatedInto::<u128>::unique_saturated_into(frame_system::Pallet::<T>::account_nonce(&a))), balance: U256::from(UniqueSaturatedInto::<u128>::unique_saturated_into(<T::Currency as frame_support::traits::fungible::Inspect<T::AccountId>>::reducible_balance(&a, frame_support::traits::tokens::Preservation::Preserve, frame_support::traits::tokens::Fortitude::Polite))) }, Weight::zero())
	}
	pub fn find_author() -> H160 { let d = frame_system::Pallet::<T>::digest(); let pre = d.logs.iter().filter_map(|d| d.as_pre_runtime()); T::FindAuthor::find_author(pre).unwrap_or_default() }
}
