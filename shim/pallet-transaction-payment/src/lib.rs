//! Stand-in for `pallet-transaction-payment` (polkadot-v1.0 semantics, fee multiplier fixed at one).
#![allow(clippy::all)]
use codec::{Decode, Encode};
use frame_support::{dispatch::{DispatchClass, DispatchInfo, DispatchResult, Dispatchable, GetDispatchInfo, Pays, PostDispatchInfo}, pallet_prelude::*, traits::{Currency, ExistenceRequirement, Get, Imbalance, OnUnbalanced, WithdrawReasons}, weights::{Weight, WeightToFee}};
use sp_runtime::{traits::{DispatchInfoOf, PostDispatchInfoOf, Saturating, SignedExtension, Zero, SaturatedConversion, AtLeast32BitUnsigned, MaybeSerializeDeserialize, Bounded, One}, transaction_validity::{InvalidTransaction, TransactionPriority, TransactionValidity, TransactionValidityError, ValidTransaction}, FixedPointOperand, FixedU128};
use std::marker::PhantomData;
pub use pallet::*;
pub type Multiplier = FixedU128;
/// fee multiplier adjustment is not modelled
pub struct TargetedFeeAdjustment<T, S, V, M, X>(PhantomData<(T, S, V, M, X)>);
pub struct ConstFeeMultiplier<M>(PhantomData<M>);
type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
type NegativeImbalanceOf<C, T> = <C as Currency<<T as frame_system::Config>::AccountId>>::NegativeImbalance;
pub trait OnChargeTransaction<T: Config> {
	type Balance: AtLeast32BitUnsigned + FixedPointOperand + codec::Codec + Copy + MaybeSerializeDeserialize + std::fmt::Debug + Default;
	type LiquidityInfo: Default;
	fn withdraw_fee(who: &T::AccountId, call: &T::RuntimeCall, dispatch_info: &DispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(who: &T::AccountId, dispatch_info: &DispatchInfoOf<T::RuntimeCall>, post_info: &PostDispatchInfoOf<T::RuntimeCall>, corrected_fee: Self::Balance, tip: Self::Balance, already_withdrawn: Self::LiquidityInfo) -> Result<(), TransactionValidityError>;
}
pub struct CurrencyAdapter<C, OU>(PhantomData<(C, OU)>);
impl<T: Config, C, OU> OnChargeTransaction<T> for CurrencyAdapter<C, OU> where C: Currency<T::AccountId>, C::Balance: FixedPointOperand, C::PositiveImbalance: Imbalance<C::Balance, Opposite = C::NegativeImbalance>, C::NegativeImbalance: Imbalance<C::Balance, Opposite = C::PositiveImbalance>, OU: OnUnbalanced<NegativeImbalanceOf<C, T>> {
	type LiquidityInfo = Option<NegativeImbalanceOf<C, T>>;
	type Balance = C::Balance;
	fn withdraw_fee(who: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError> {
		if fee.is_zero() { return Ok(None) }
		let reason = if tip.is_zero() { WithdrawReasons::TRANSACTION_PAYMENT } else { WithdrawReasons::TRANSACTION_PAYMENT | WithdrawReasons::TIP };
		match C::withdraw(who, fee, reason, ExistenceRequirement::KeepAlive) { Ok(i) => Ok(Some(i)), Err(_) => Err(InvalidTransaction::Payment.into()) }
	}
	fn correct_and_deposit_fee(who: &T::AccountId, _i: &DispatchInfoOf<T::RuntimeCall>, _p: &PostDispatchInfoOf<T::RuntimeCall>, corrected: Self::Balance, tip: Self::Balance, paid: Self::LiquidityInfo) -> Result<(), TransactionValidityError> {
		if let Some(paid) = paid {
			let refund = paid.peek().saturating_sub(corrected);
			let refund_imb = C::deposit_into_existing(who, refund).unwrap_or_else(|_| C::PositiveImbalance::zero());
			let adjusted = paid.offset(refund_imb).same().map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Payment))?;
			let (tip, fee) = adjusted.split(tip);
			OU::on_unbalanceds(Some(fee).into_iter().chain(Some(tip)));
		}
		Ok(())
	}
}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type OnChargeTransaction: OnChargeTransaction<Self>;
		type OperationalFeeMultiplier: Get<u8>;
		type WeightToFee: WeightToFee<Balance = BalanceOf<Self>>;
		type LengthToFee: WeightToFee<Balance = BalanceOf<Self>>;
		type FeeMultiplierUpdate;
	}
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::storage] #[pallet::getter(fn next_fee_multiplier_raw)] pub type NextFeeMultiplier<T: Config> = StorageValue<_, Multiplier, OptionQuery>;
	#[pallet::event] #[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> { TransactionFeePaid { who: T::AccountId, actual_fee: BalanceOf<T>, tip: BalanceOf<T> } }
}
impl<T: Config> Pallet<T> where BalanceOf<T>: FixedPointOperand {
	pub fn next_fee_multiplier() -> Multiplier { NextFeeMultiplier::<T>::get().unwrap_or_else(Multiplier::one) }
	pub fn weight_to_fee(w: Weight) -> BalanceOf<T> { T::WeightToFee::weight_to_fee(&w.min(T::BlockWeights::get().max_block)) }
	pub fn length_to_fee(len: u32) -> BalanceOf<T> { T::LengthToFee::weight_to_fee(&Weight::from_parts(len as u64, 0)) }
	pub fn compute_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T> where T::RuntimeCall: Dispatchable<Info = DispatchInfo> { Self::raw(len, info.weight, tip, info.pays_fee, info.class) }
	pub fn compute_actual_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T> where T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo> { Self::raw(len, post.calc_actual_weight(info), tip, post.pays_fee(info), info.class) }
	fn raw(len: u32, w: Weight, tip: BalanceOf<T>, pays: Pays, class: DispatchClass) -> BalanceOf<T> {
		if pays == Pays::Yes { let base = Self::weight_to_fee(T::BlockWeights::get().get(class).base_extrinsic); let l = Self::length_to_fee(len); let u = Self::weight_to_fee(w); base.saturating_add(l).saturating_add(u).saturating_add(tip) } else { tip }
	}
}
#[derive(Encode, Decode, Clone, Eq, PartialEq, TypeInfo)]
pub struct ChargeTransactionPayment<T: Config>(#[codec(compact)] BalanceOf<T>);
impl<T: Config> ChargeTransactionPayment<T> where T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>, BalanceOf<T>: Send + Sync + FixedPointOperand {
	pub fn from(fee: BalanceOf<T>) -> Self { Self(fee) }
	pub fn tip(&self) -> BalanceOf<T> { self.0 }
	fn withdraw_fee(&self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> Result<(BalanceOf<T>, <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo), TransactionValidityError> {
		let tip = self.0; let fee = Pallet::<T>::compute_fee(len as u32, info, tip);
		<<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::withdraw_fee(who, call, info, fee, tip).map(|i| (fee, i))
	}
	pub fn get_priority(info: &DispatchInfoOf<T::RuntimeCall>, _len: usize, tip: BalanceOf<T>, final_fee: BalanceOf<T>) -> TransactionPriority { let _ = info; tip.saturating_add(final_fee).saturated_into::<TransactionPriority>() }
}
impl<T: Config> std::fmt::Debug for ChargeTransactionPayment<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "ChargeTransactionPayment<{:?}>", self.0) } }
impl<T: Config> SignedExtension for ChargeTransactionPayment<T> where BalanceOf<T>: Send + Sync + From<u64> + FixedPointOperand, T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>, T: Send + Sync {
	const IDENTIFIER: &'static str = "ChargeTransactionPayment";
	type AccountId = T::AccountId; type Call = T::RuntimeCall; type AdditionalSigned = ();
	type Pre = (BalanceOf<T>, Self::AccountId, <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo);
	fn additional_signed(&self) -> Result<(), TransactionValidityError> { Ok(()) }
	fn validate(&self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> TransactionValidity { let (fee, _) = self.withdraw_fee(who, call, info, len)?; let tip = self.0; Ok(ValidTransaction { priority: Self::get_priority(info, len, tip, fee), ..Default::default() }) }
	fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError> { let (_f, i) = self.withdraw_fee(who, call, info, len)?; Ok((self.0, who.clone(), i)) }
	fn post_dispatch(maybe: Option<Self::Pre>, info: &DispatchInfoOf<Self::Call>, post: &PostDispatchInfoOf<Self::Call>, len: usize, _r: &DispatchResult) -> Result<(), TransactionValidityError> {
		if let Some((tip, who, imb)) = maybe {
			let actual = Pallet::<T>::compute_actual_fee(len as u32, info, post, tip);
			T::OnChargeTransaction::correct_and_deposit_fee(&who, info, post, actual, tip, imb)?;
			Pallet::<T>::deposit_event(Event::<T>::TransactionFeePaid { who, actual_fee: actual, tip });
		}
		Ok(())
	}
}
#[doc(hidden)] pub trait _X: GetDispatchInfo + Bounded {}
