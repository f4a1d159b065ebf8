//! Stand-in for Frontier's `pallet-ethereum`: ethereum transactions as self-contained calls. The recovered sender stands
//! in for the ECDSA signature of the transaction.
#![allow(clippy::all)]
use codec::{Decode, Encode};
use fp_evm::{TransactionValidationError};
use frame_support::{dispatch::{DispatchInfo, GetDispatchInfo}, pallet_prelude::*, traits::{EnsureOrigin, Get}};
use frame_system::pallet_prelude::*;
use pallet_evm::{BalanceOf, GasWeightMapping, Runner, FeeCalculator};
use scale_info::TypeInfo;
use sp_core::{H160, H256, U256};
use sp_runtime::{traits::{DispatchInfoOf, UniqueSaturatedInto}, transaction_validity::*};
pub use pallet::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)] pub enum TransactionAction { Call(H160), Create }
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)] pub struct LegacyTransaction { pub nonce: U256, pub gas_price: U256, pub gas_limit: U256, pub action: TransactionAction, pub value: U256, pub input: Vec<u8>, pub signer: Option<H160> }
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)] pub struct EIP2930Transaction { pub chain_id: u64, pub nonce: U256, pub gas_price: U256, pub gas_limit: U256, pub action: TransactionAction, pub value: U256, pub input: Vec<u8>, pub signer: Option<H160> }
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)] pub struct EIP1559Transaction { pub chain_id: u64, pub nonce: U256, pub max_priority_fee_per_gas: U256, pub max_fee_per_gas: U256, pub gas_limit: U256, pub action: TransactionAction, pub value: U256, pub input: Vec<u8>, pub signer: Option<H160> }
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)] pub enum TransactionV2 { Legacy(LegacyTransaction), EIP2930(EIP2930Transaction), EIP1559(EIP1559Transaction) }
pub type Transaction = TransactionV2;
#[derive(Clone, Debug)] pub struct Flat { pub nonce: U256, pub max_fee: U256, pub max_prio: Option<U256>, pub gas_price: Option<U256>, pub gas_limit: U256, pub action: TransactionAction, pub value: U256, pub input: Vec<u8>, pub signer: Option<H160>, pub chain_id: Option<u64> }
impl TransactionV2 {
	pub fn flat(&self) -> Flat { match self.clone() {
		Self::Legacy(t) => Flat { nonce: t.nonce, max_fee: t.gas_price, max_prio: Some(t.gas_price), gas_price: Some(t.gas_price), gas_limit: t.gas_limit, action: t.action, value: t.value, input: t.input, signer: t.signer, chain_id: None },
		Self::EIP2930(t) => Flat { nonce: t.nonce, max_fee: t.gas_price, max_prio: Some(t.gas_price), gas_price: Some(t.gas_price), gas_limit: t.gas_limit, action: t.action, value: t.value, input: t.input, signer: t.signer, chain_id: Some(t.chain_id) },
		Self::EIP1559(t) => Flat { nonce: t.nonce, max_fee: t.max_fee_per_gas, max_prio: Some(t.max_priority_fee_per_gas), gas_price: None, gas_limit: t.gas_limit, action: t.action, value: t.value, input: t.input, signer: t.signer, chain_id: Some(t.chain_id) },
	} }
}
#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum RawOrigin { EthereumTransaction(H160) }
pub fn ensure_ethereum_transaction<O: Into<Result<RawOrigin, O>>>(o: O) -> Result<H160, &'static str> { match o.into() { Ok(RawOrigin::EthereumTransaction(n)) => Ok(n), _ => Err("bad origin: expected to be an Ethereum transaction") } }
pub struct EnsureEthereumTransaction;
impl<O: Into<Result<RawOrigin, O>> + From<RawOrigin>> EnsureOrigin<O> for EnsureEthereumTransaction { type Success = H160; fn try_origin(o: O) -> Result<H160, O> { o.into().map(|o| match o { RawOrigin::EthereumTransaction(id) => id }) } }
#[derive(PartialEq, Eq, Clone, Debug)] pub enum PostLogContent { BlockAndTxnHashes, OnlyBlockHash }
pub struct IntermediateStateRoot<T>(std::marker::PhantomData<T>);
pub struct EthereumBlockHashMapping<T>(std::marker::PhantomData<T>);
impl<T> pallet_evm::BlockHashMapping for EthereumBlockHashMapping<T> { fn block_hash(_: u32) -> H256 { H256::zero() } }
pub struct InvalidTransactionWrapper(pub InvalidTransaction);
impl From<InvalidTransactionWrapper> for TransactionValidityError { fn from(w: InvalidTransactionWrapper) -> Self { TransactionValidityError::Invalid(w.0) } }
impl From<TransactionValidationError> for InvalidTransactionWrapper { fn from(e: TransactionValidationError) -> Self { use TransactionValidationError as E; InvalidTransactionWrapper(match e { E::BalanceTooLow => InvalidTransaction::Payment, E::TxNonceTooLow => InvalidTransaction::Stale, E::TxNonceTooHigh => InvalidTransaction::Future, E::GasPriceTooLow | E::PriorityFeeTooHigh => InvalidTransaction::Payment, _ => InvalidTransaction::BadProof }) } }
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config + pallet_evm::Config {
		type RuntimeEvent: From<Event> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type StateRoot; type PostLogContent: Get<PostLogContent>; type ExtraDataLength: Get<u32>;
		type HandleTxValidation: fp_evm::HandleTxValidation<InvalidTransactionWrapper>;
	}
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::origin] pub type Origin = RawOrigin;
	#[pallet::error] pub enum Error<T> { InvalidSignature, PreLogExists }
	#[pallet::event] pub enum Event { Executed { from: H160, to: H160, exit_reason: fp_evm::ExitReason } }
	#[pallet::call]
	impl<T: Config> Pallet<T> where OriginFor<T>: Into<Result<RawOrigin, OriginFor<T>>>, BalanceOf<T>: TryFrom<U256> + Into<U256> {
		#[pallet::call_index(0)]
		#[pallet::weight({ <T as pallet_evm::Config>::GasWeightMapping::gas_to_weight(transaction.flat().gas_limit.min(U256::from(u64::MAX)).low_u64(), true) })]
		pub fn transact(origin: OriginFor<T>, transaction: Transaction) -> DispatchResultWithPostInfo {
			let source = super::ensure_ethereum_transaction(origin)?;
			Pallet::<T>::apply_validated_transaction(source, transaction)
		}
	}
}
impl<T: Config> Pallet<T> where OriginFor<T>: Into<Result<RawOrigin, OriginFor<T>>>, BalanceOf<T>: TryFrom<U256> + Into<U256> {
	pub fn apply_validated_transaction(source: H160, tx: Transaction) -> DispatchResultWithPostInfo {
		let t = tx.flat();
		let gas = t.gas_limit.min(U256::from(u64::MAX)).low_u64();
		let (to, exit) = match t.action {
			TransactionAction::Call(target) => { let r = T::Runner::call(source, target, t.input, t.value, gas, Some(t.max_fee), t.max_prio, Some(t.nonce), vec![], true, false, None, None, T::config()).map_err(|e| { let d: sp_runtime::DispatchError = e.error.into(); d })?; (target, r.exit_reason) },
			TransactionAction::Create => { let r = T::Runner::create(source, t.input, t.value, gas, Some(t.max_fee), t.max_prio, Some(t.nonce), vec![], true, false, None, None, T::config()).map_err(|e| { let d: sp_runtime::DispatchError = e.error.into(); d })?; (r.value, r.exit_reason) },
		};
		frame_system::Pallet::<T>::deposit_event(<T as Config>::RuntimeEvent::from(Event::Executed { from: source, to, exit_reason: exit }));
		Ok(frame_support::dispatch::PostDispatchInfo { actual_weight: None, pays_fee: frame_support::dispatch::Pays::No })
	}
}
impl<T: Config> Call<T> where OriginFor<T>: Into<Result<RawOrigin, OriginFor<T>>>, BalanceOf<T>: TryFrom<U256> + Into<U256>, T::RuntimeCall: sp_runtime::traits::Dispatchable<Info = DispatchInfo> {
	pub fn is_self_contained(&self) -> bool { matches!(self, Call::transact { .. }) }
	pub fn check_self_contained(&self) -> Option<Result<H160, TransactionValidityError>> { if let Call::transact { transaction } = self { Some(transaction.flat().signer.ok_or_else(|| InvalidTransaction::Custom(0).into())) } else { None } }
	fn check(t: &Flat, who: &H160) -> Result<fp_evm::Account, TransactionValidityError> {
		let (account, _) = pallet_evm::Pallet::<T>::account_basic(who);
		let (base_fee, _) = T::FeeCalculator::min_gas_price();
		let bad = |e: TransactionValidationError| -> TransactionValidityError { InvalidTransactionWrapper::from(e).into() };
		if t.gas_limit > T::BlockGasLimit::get() { return Err(bad(TransactionValidationError::GasLimitTooHigh)) }
		if t.gas_limit < U256::from(21_000) { return Err(bad(TransactionValidationError::GasLimitTooLow)) }
		if t.max_fee < base_fee || t.max_prio.map_or(false, |p| p > t.max_fee) { return Err(bad(TransactionValidationError::GasPriceTooLow)) }
		if let Some(c) = t.chain_id { if c != T::ChainId::get() { return Err(bad(TransactionValidationError::InvalidChainId)) } }
		let tx = fp_evm::CheckEvmTransaction::<InvalidTransactionWrapper>::new(fp_evm::CheckEvmTransactionInput { chain_id: t.chain_id, to: match t.action { TransactionAction::Call(a) => Some(a), _ => None }, input: t.input.clone(), nonce: t.nonce, gas_limit: t.gas_limit, gas_price: t.gas_price, max_fee_per_gas: if t.gas_price.is_some() { None } else { Some(t.max_fee) }, max_priority_fee_per_gas: if t.gas_price.is_some() { None } else { t.max_prio }, value: t.value, access_list: vec![] }, base_fee);
		<<T as Config>::HandleTxValidation as fp_evm::HandleTxValidation<InvalidTransactionWrapper>>::with_balance_for(&tx, &account).map_err(|e| TransactionValidityError::from(e))?;
		Ok(account)
	}
	pub fn pre_dispatch_self_contained(&self, who: &H160, _: &DispatchInfoOf<T::RuntimeCall>, _: usize) -> Option<Result<(), TransactionValidityError>> {
		if let Call::transact { transaction } = self { let t = transaction.flat(); Some(Self::check(&t, who).and_then(|a| if t.nonce < a.nonce { Err(InvalidTransaction::Stale.into()) } else if t.nonce > a.nonce { Err(InvalidTransaction::Future.into()) } else { Ok(()) })) } else { None }
	}
	pub fn validate_self_contained(&self, who: &H160, _: &DispatchInfoOf<T::RuntimeCall>, _: usize) -> Option<TransactionValidity> {
		if let Call::transact { transaction } = self { let t = transaction.flat(); Some(Self::check(&t, who).and_then(|a| { if t.nonce < a.nonce { return Err(InvalidTransaction::Stale.into()) } let mut b = ValidTransactionBuilder::default().and_provides((who, t.nonce)); if t.nonce > a.nonce { b = b.and_requires((who, t.nonce - U256::one())) } b.build() })) } else { None }
	}
}
#[allow(unused)] fn _u<T: GetDispatchInfo>(_: T, _: u32) where u128: UniqueSaturatedInto<u64> {}
