//! Stand-in for `pallet-balances` (polkadot-v1.0 semantics, no holds/freezes/locks beyond what the repository uses).
#![allow(clippy::all)]
use codec::{Codec, Decode, Encode, MaxEncodedLen};
use frame_support::{
	ensure, pallet_prelude::*,
	traits::{tokens::{fungible, DepositConsequence, Fortitude, Preservation::{self, *}, Provenance, WithdrawConsequence, BalanceStatus as Status},
		Currency, ExistenceRequirement, ExistenceRequirement::*, Get, Imbalance, OnUnbalanced, ReservableCurrency, NamedReservableCurrency, SignedImbalance, StoredMap, TryDrop, WithdrawReasons, tokens::imbalance::SameOrOther},
	weights::Weight,
};
use frame_system::pallet_prelude::*;
use sp_runtime::{traits::{AtLeast32BitUnsigned, Bounded, CheckedAdd, CheckedSub, MaybeSerializeDeserialize, Saturating, StaticLookup, Zero}, ArithmeticError, DispatchError, DispatchResult, RuntimeDebug, TokenError};
use std::{fmt::Debug, mem};
pub use pallet::*;
pub trait WeightInfo { fn transfer_allow_death() -> Weight { Weight::from_parts(50_000_000, 0) } fn transfer_keep_alive() -> Weight { Weight::from_parts(40_000_000, 0) } fn force_set_balance_creating() -> Weight { Weight::from_parts(20_000_000, 0) } fn force_set_balance_killing() -> Weight { Weight::from_parts(30_000_000, 0) } fn force_transfer() -> Weight { Weight::from_parts(50_000_000, 0) } fn transfer_all() -> Weight { Weight::from_parts(50_000_000, 0) } fn force_unreserve() -> Weight { Weight::from_parts(20_000_000, 0) } fn upgrade_accounts(_u: u32) -> Weight { Weight::from_parts(20_000_000, 0) } }
impl WeightInfo for () {}
pub mod weights { pub use super::WeightInfo; pub struct SubstrateWeight<T>(std::marker::PhantomData<T>); impl<T> WeightInfo for SubstrateWeight<T> {} }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, RuntimeDebug, MaxEncodedLen)]
pub struct AccountData<Balance> { pub free: Balance, pub reserved: Balance, pub frozen: Balance, pub flags: ExtraFlags }
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, RuntimeDebug, MaxEncodedLen)] pub struct ExtraFlags(pub u128);
impl Default for ExtraFlags { fn default() -> Self { Self(1u128 << 127) } }
impl<B: Saturating + Copy + Ord> AccountData<B> { pub fn usable(&self) -> B { self.free.saturating_sub(self.frozen) } pub fn total(&self) -> B { self.free.saturating_add(self.reserved) } }
#[derive(Encode, Decode, Clone, PartialEq, Eq, RuntimeDebug, MaxEncodedLen)] pub struct ReserveData<R, B> { pub id: R, pub amount: B }
type BalanceOf<T> = <T as Config>::Balance;
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	pub type AccountIdLookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type WeightInfo: WeightInfo;
		type Balance: Parameter + Member + AtLeast32BitUnsigned + Codec + Default + Copy + MaybeSerializeDeserialize + Debug + MaxEncodedLen + Send + Sync + 'static;
		type DustRemoval: OnUnbalanced<NegativeImbalance<Self>>;
		type ExistentialDeposit: Get<Self::Balance>;
		type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
		type ReserveIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
		type RuntimeHoldReason; type FreezeIdentifier; type MaxLocks; type MaxReserves: Get<u32>; type MaxHolds; type MaxFreezes;
	}
	#[pallet::pallet] pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Endowed { account: T::AccountId, free_balance: T::Balance }, DustLost { account: T::AccountId, amount: T::Balance }, Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance }, BalanceSet { who: T::AccountId, free: T::Balance },
		Reserved { who: T::AccountId, amount: T::Balance }, Unreserved { who: T::AccountId, amount: T::Balance }, ReserveRepatriated { from: T::AccountId, to: T::AccountId, amount: T::Balance, destination_status: Status },
		Deposit { who: T::AccountId, amount: T::Balance }, Withdraw { who: T::AccountId, amount: T::Balance }, Slashed { who: T::AccountId, amount: T::Balance }, Minted { who: T::AccountId, amount: T::Balance }, Burned { who: T::AccountId, amount: T::Balance }, Suspended { who: T::AccountId, amount: T::Balance }, Restored { who: T::AccountId, amount: T::Balance }, Upgraded { who: T::AccountId }, Issued { amount: T::Balance }, Rescinded { amount: T::Balance },
	}
	#[pallet::error]
	pub enum Error<T> { VestingBalance, LiquidityRestrictions, InsufficientBalance, ExistentialDeposit, Expendability, ExistingVestingSchedule, DeadAccount, TooManyReserves, TooManyHolds, TooManyFreezes }
	#[pallet::storage] pub type TotalIssuance<T: Config> = StorageValue<_, BalanceOf<T>, ValueQuery>;
	#[pallet::storage] pub type InactiveIssuance<T: Config> = StorageValue<_, BalanceOf<T>, ValueQuery>;
	#[pallet::storage] pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountData<BalanceOf<T>>, ValueQuery>;
	#[pallet::storage] #[pallet::getter(fn reserves)] pub type Reserves<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, Vec<ReserveData<T::ReserveIdentifier, BalanceOf<T>>>, ValueQuery>;
	#[pallet::genesis_config] pub struct GenesisConfig<T: Config> { pub balances: Vec<(T::AccountId, T::Balance)> }
	impl<T: Config> Default for GenesisConfig<T> { fn default() -> Self { Self { balances: vec![] } } }
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> { fn build(&self) {
		let total = self.balances.iter().fold(Zero::zero(), |a: T::Balance, x| a + x.1);
		TotalIssuance::<T>::put(total);
		for (_, b) in &self.balances { assert!(*b >= T::ExistentialDeposit::get(), "the balance of any account should always be at least the existential deposit.") }
		for (who, free) in self.balances.iter() { frame_system::Pallet::<T>::inc_providers(who); let _ = T::AccountStore::insert(who, AccountData { free: *free, ..Default::default() }); }
	} }
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)] #[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn transfer_allow_death(origin: OriginFor<T>, dest: AccountIdLookupOf<T>, #[pallet::compact] value: T::Balance) -> DispatchResultWithPostInfo { let s = ensure_signed(origin)?; let d = T::Lookup::lookup(dest)?; <Self as fungible::Mutate<_>>::transfer(&s, &d, value, Expendable)?; Ok(().into()) }
		#[pallet::call_index(2)] #[pallet::weight(T::WeightInfo::force_transfer())]
		pub fn force_transfer(origin: OriginFor<T>, source: AccountIdLookupOf<T>, dest: AccountIdLookupOf<T>, #[pallet::compact] value: T::Balance) -> DispatchResultWithPostInfo { ensure_root(origin)?; let s = T::Lookup::lookup(source)?; let d = T::Lookup::lookup(dest)?; <Self as fungible::Mutate<_>>::transfer(&s, &d, value, Expendable)?; Ok(().into()) }
		#[pallet::call_index(3)] #[pallet::weight(T::WeightInfo::transfer_keep_alive())]
		pub fn transfer_keep_alive(origin: OriginFor<T>, dest: AccountIdLookupOf<T>, #[pallet::compact] value: T::Balance) -> DispatchResultWithPostInfo { let s = ensure_signed(origin)?; let d = T::Lookup::lookup(dest)?; <Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preserve)?; Ok(().into()) }
		#[pallet::call_index(4)] #[pallet::weight(T::WeightInfo::transfer_all())]
		pub fn transfer_all(origin: OriginFor<T>, dest: AccountIdLookupOf<T>, keep_alive: bool) -> DispatchResult { let s = ensure_signed(origin)?; let p = if keep_alive { Preserve } else { Expendable }; let v = <Self as fungible::Inspect<_>>::reducible_balance(&s, p, Fortitude::Polite); let d = T::Lookup::lookup(dest)?; <Self as fungible::Mutate<_>>::transfer(&s, &d, v, p)?; Ok(()) }
		#[pallet::call_index(5)] #[pallet::weight(T::WeightInfo::force_unreserve())]
		pub fn force_unreserve(origin: OriginFor<T>, who: AccountIdLookupOf<T>, amount: T::Balance) -> DispatchResult { ensure_root(origin)?; let w = T::Lookup::lookup(who)?; let _l = <Self as ReservableCurrency<_>>::unreserve(&w, amount); Ok(()) }
		#[pallet::call_index(7)] #[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn transfer(origin: OriginFor<T>, dest: AccountIdLookupOf<T>, #[pallet::compact] value: T::Balance) -> DispatchResultWithPostInfo { let s = ensure_signed(origin)?; let d = T::Lookup::lookup(dest)?; <Self as fungible::Mutate<_>>::transfer(&s, &d, value, Expendable)?; Ok(().into()) }
		#[pallet::call_index(8)] #[pallet::weight(T::WeightInfo::force_set_balance_creating().max(T::WeightInfo::force_set_balance_killing()))]
		pub fn force_set_balance(origin: OriginFor<T>, who: AccountIdLookupOf<T>, #[pallet::compact] new_free: T::Balance) -> DispatchResult {
			ensure_root(origin)?; let who = T::Lookup::lookup(who)?; let ed = T::ExistentialDeposit::get();
			let new_free = if new_free < ed { Zero::zero() } else { new_free };
			let old = Self::mutate_account_handling_dust(&who, |a| { let o = a.free; a.free = new_free; o })?;
			if new_free > old { drop(PositiveImbalance::<T>::new(new_free - old)) } else if new_free < old { drop(NegativeImbalance::<T>::new(old - new_free)) }
			Self::deposit_event(Event::BalanceSet { who, free: new_free }); Ok(())
		}
	}
}
impl<T: Config> GenesisConfig<T> { pub fn assimilate_storage(&self, s: &mut sp_runtime::Storage) -> Result<(), String> { sp_runtime::BuildStorage::assimilate_storage(self, s) } pub fn build_storage(&self) -> Result<sp_runtime::Storage, String> { sp_runtime::BuildStorage::build_storage(self) } }

impl<T: Config> Pallet<T> {
	fn ed() -> T::Balance { T::ExistentialDeposit::get() }
	pub fn free_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { Self::account(who.borrow()).free }
	pub fn usable_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { <Self as fungible::Inspect<_>>::reducible_balance(who.borrow(), Expendable, Fortitude::Polite) }
	pub fn reserved_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { Self::account(who.borrow()).reserved }
	pub fn total_issuance() -> T::Balance { TotalIssuance::<T>::get() }
	pub fn inactive_issuance() -> T::Balance { InactiveIssuance::<T>::get() }
	pub fn account(who: &T::AccountId) -> AccountData<T::Balance> { T::AccountStore::get(who) }
	fn have_providers_or_no_zero_ed(_who: &T::AccountId) -> bool { frame_system::Pallet::<T>::providers(_who) > 0 || !Self::ed().is_zero() }
	pub(crate) fn handle_raw_dust(d: T::Balance) { T::DustRemoval::on_unbalanced(NegativeImbalance::<T>::new(d)) }
	pub fn mutate_account_handling_dust<R>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>) -> R) -> Result<R, DispatchError> { let (r, d) = Self::mutate_account(who, f)?; if let Some(d) = d { Self::handle_raw_dust(d) } Ok(r) }
	pub fn try_mutate_account_handling_dust<R, E: From<DispatchError>>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<R, E> { let (r, d) = Self::try_mutate_account(who, f)?; if let Some(d) = d { Self::handle_raw_dust(d) } Ok(r) }
	fn mutate_account<R>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>) -> R) -> Result<(R, Option<T::Balance>), DispatchError> { Self::try_mutate_account(who, |a, _| -> Result<R, DispatchError> { Ok(f(a)) }) }
	fn try_mutate_account<R, E: From<DispatchError>>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<(R, Option<T::Balance>), E> {
		type Sys<T> = frame_system::Pallet<T>;
		let result = T::AccountStore::try_mutate_exists(who, |maybe| {
			let is_new = maybe.is_none();
			let mut a = maybe.take().unwrap_or_default();
			let did_provide = a.free >= Self::ed() && Self::have_providers_or_no_zero_ed(who);
			let did_consume = !is_new && (!a.reserved.is_zero() || !a.frozen.is_zero());
			let r = f(&mut a, is_new)?;
			let does_provide = a.free >= Self::ed();
			let does_consume = !a.reserved.is_zero() || !a.frozen.is_zero();
			if !did_provide && does_provide { Sys::<T>::inc_providers(who); }
			if did_consume && !does_consume { Sys::<T>::dec_consumers(who); }
			if !did_consume && does_consume { Sys::<T>::inc_consumers(who)?; }
			if did_provide && !does_provide {
				Sys::<T>::dec_providers(who).map_err(|e| { if did_consume && !does_consume { let _ = Sys::<T>::inc_consumers(who); } if !did_consume && does_consume { Sys::<T>::dec_consumers(who); } e })?;
			}
			let endowed = if is_new { Some(a.free) } else { None };
			let dust = if a.free < Self::ed() && a.reserved.is_zero() { if a.free.is_zero() { None } else { Some(a.free) } } else { *maybe = Some(a); None };
			Ok((endowed, dust, r))
		});
		result.map(|(endowed, dust, r)| {
			if let Some(e) = endowed { Self::deposit_event(Event::Endowed { account: who.clone(), free_balance: e }) }
			if let Some(d) = dust { Self::deposit_event(Event::DustLost { account: who.clone(), amount: d }) }
			(r, dust)
		})
	}
}
impl<T: Config> fungible::Inspect<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	fn total_issuance() -> T::Balance { TotalIssuance::<T>::get() }
	fn active_issuance() -> T::Balance { TotalIssuance::<T>::get().saturating_sub(InactiveIssuance::<T>::get()) }
	fn minimum_balance() -> T::Balance { T::ExistentialDeposit::get() }
	fn total_balance(who: &T::AccountId) -> T::Balance { Self::account(who).total() }
	fn balance(who: &T::AccountId) -> T::Balance { Self::account(who).free }
	fn reducible_balance(who: &T::AccountId, p: Preservation, force: Fortitude) -> T::Balance {
		let a = Self::account(who);
		let mut untouchable = Zero::zero();
		if force == Fortitude::Polite { untouchable = a.frozen.saturating_sub(a.reserved) }
		if p == Preserve || p == Protect && !a.free.is_zero() && frame_system::Pallet::<T>::providers(who) == 1 || p == Expendable && !a.free.is_zero() && !frame_system::Pallet::<T>::can_dec_provider(who) { untouchable = untouchable.max(T::ExistentialDeposit::get()) }
		a.free.saturating_sub(untouchable)
	}
	fn can_deposit(who: &T::AccountId, amount: T::Balance, prov: Provenance) -> DepositConsequence {
		if amount.is_zero() { return DepositConsequence::Success }
		if prov == Provenance::Minted && TotalIssuance::<T>::get().checked_add(&amount).is_none() { return DepositConsequence::Overflow }
		let a = Self::account(who);
		let nf = match a.free.checked_add(&amount) { None => return DepositConsequence::Overflow, Some(x) if x < T::ExistentialDeposit::get() => return DepositConsequence::BelowMinimum, Some(x) => x };
		match a.reserved.checked_add(&nf) { Some(_) => {}, None => return DepositConsequence::Overflow }
		DepositConsequence::Success
	}
	fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		if amount.is_zero() { return WithdrawConsequence::Success }
		if TotalIssuance::<T>::get().checked_sub(&amount).is_none() { return WithdrawConsequence::Underflow }
		let a = Self::account(who);
		let nf = match a.free.checked_sub(&amount) { Some(x) => x, None => return WithdrawConsequence::BalanceLow };
		let liquid = a.free.saturating_sub(a.frozen);
		if amount > liquid { return WithdrawConsequence::Frozen }
		let ed = T::ExistentialDeposit::get();
		let success = if nf < ed { if frame_system::Pallet::<T>::can_dec_provider(who) { WithdrawConsequence::ReducedToZero(nf) } else { return WithdrawConsequence::WouldDie } } else { WithdrawConsequence::Success };
		let nt = nf.saturating_add(a.reserved);
		if nt < a.frozen { return WithdrawConsequence::Frozen }
		success
	}
}
impl<T: Config> fungible::Unbalanced<T::AccountId> for Pallet<T> {
	fn handle_dust(d: fungible::Dust<T::AccountId, Self>) { Self::handle_raw_dust(d.0) }
	fn write_balance(who: &T::AccountId, amount: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
		let max_reduction = <Self as fungible::Inspect<_>>::reducible_balance(who, Expendable, Fortitude::Force);
		let (r, d) = Self::mutate_account(who, |a| -> DispatchResult { let red = a.free.saturating_sub(amount); ensure!(red <= max_reduction, Error::<T>::InsufficientBalance); a.free = amount; Ok(()) })?;
		r?; Ok(d)
	}
	fn set_total_issuance(a: T::Balance) { TotalIssuance::<T>::put(a) }
}
impl<T: Config> fungible::Mutate<T::AccountId> for Pallet<T> {
	fn done_mint_into(who: &T::AccountId, amount: T::Balance) { Self::deposit_event(Event::Minted { who: who.clone(), amount }) }
	fn done_burn_from(who: &T::AccountId, amount: T::Balance) { Self::deposit_event(Event::Burned { who: who.clone(), amount }) }
	fn done_shelve(who: &T::AccountId, amount: T::Balance) { Self::deposit_event(Event::Suspended { who: who.clone(), amount }) }
	fn done_restore(who: &T::AccountId, amount: T::Balance) { Self::deposit_event(Event::Restored { who: who.clone(), amount }) }
	fn done_transfer(s: &T::AccountId, d: &T::AccountId, amount: T::Balance) { Self::deposit_event(Event::Transfer { from: s.clone(), to: d.clone(), amount }) }
}
macro_rules! imb { ($n:ident, $o:ident, |$t:ident, $a:ident| $drop:expr) => {
	pub struct $n<T: Config>(T::Balance);
	impl<T: Config> $n<T> { pub fn new(a: T::Balance) -> Self { Self(a) } }
	impl<T: Config> TryDrop for $n<T> { fn try_drop(self) -> Result<(), Self> { self.drop_zero() } }
	impl<T: Config> Default for $n<T> { fn default() -> Self { Self(Zero::zero()) } }
	impl<T: Config> std::fmt::Debug for $n<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}({:?})", stringify!($n), self.0) } }
	impl<T: Config> PartialEq for $n<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } } impl<T: Config> Eq for $n<T> {}
	impl<T: Config> Imbalance<T::Balance> for $n<T> {
		type Opposite = $o<T>;
		fn zero() -> Self { Self(Zero::zero()) }
		fn drop_zero(self) -> Result<(), Self> { if self.0.is_zero() { Ok(()) } else { Err(self) } }
		fn split(self, amount: T::Balance) -> (Self, Self) { let f = self.0.min(amount); let s = self.0 - f; mem::forget(self); (Self(f), Self(s)) }
		fn merge(mut self, o: Self) -> Self { self.0 = self.0.saturating_add(o.0); mem::forget(o); self }
		fn subsume(&mut self, o: Self) { self.0 = self.0.saturating_add(o.0); mem::forget(o); }
		fn offset(self, o: $o<T>) -> SameOrOther<Self, $o<T>> { let (a, b) = (self.0, o.0); mem::forget((self, o)); if a > b { SameOrOther::Same(Self(a - b)) } else if b > a { SameOrOther::Other($o::new(b - a)) } else { SameOrOther::None } }
		fn peek(&self) -> T::Balance { self.0 }
	}
	impl<T: Config> Drop for $n<T> { fn drop(&mut self) { let $a = self.0; TotalIssuance::<T>::mutate(|$t| *$t = $drop) } }
} }
imb!(PositiveImbalance, NegativeImbalance, |t, a| t.saturating_add(a));
imb!(NegativeImbalance, PositiveImbalance, |t, a| t.saturating_sub(a));
impl<T: Config> Currency<T::AccountId> for Pallet<T> where T::Balance: MaybeSerializeDeserialize + Debug {
	type Balance = T::Balance; type PositiveImbalance = PositiveImbalance<T>; type NegativeImbalance = NegativeImbalance<T>;
	fn total_balance(who: &T::AccountId) -> T::Balance { Self::account(who).total() }
	fn can_slash(who: &T::AccountId, v: T::Balance) -> bool { v.is_zero() || Self::free_balance(who) >= v }
	fn total_issuance() -> T::Balance { TotalIssuance::<T>::get() }
	fn active_issuance() -> T::Balance { <Self as fungible::Inspect<_>>::active_issuance() }
	fn deactivate(a: T::Balance) { InactiveIssuance::<T>::mutate(|b| *b = b.saturating_add(a)) }
	fn reactivate(a: T::Balance) { InactiveIssuance::<T>::mutate(|b| *b = b.saturating_sub(a)) }
	fn minimum_balance() -> T::Balance { T::ExistentialDeposit::get() }
	fn burn(mut a: T::Balance) -> PositiveImbalance<T> { if a.is_zero() { return PositiveImbalance::zero() } TotalIssuance::<T>::mutate(|i| *i = i.checked_sub(&a).unwrap_or_else(|| { a = *i; Zero::zero() })); Self::deposit_event(Event::Rescinded { amount: a }); PositiveImbalance::new(a) }
	fn issue(mut a: T::Balance) -> NegativeImbalance<T> { if a.is_zero() { return NegativeImbalance::zero() } TotalIssuance::<T>::mutate(|i| *i = i.checked_add(&a).unwrap_or_else(|| { a = T::Balance::max_value() - *i; T::Balance::max_value() })); Self::deposit_event(Event::Issued { amount: a }); NegativeImbalance::new(a) }
	fn free_balance(who: &T::AccountId) -> T::Balance { Self::account(who).free }
	fn ensure_can_withdraw(who: &T::AccountId, a: T::Balance, _r: WithdrawReasons, n: T::Balance) -> DispatchResult { if a.is_zero() { return Ok(()) } ensure!(n >= Self::account(who).frozen, Error::<T>::LiquidityRestrictions); Ok(()) }
	fn transfer(s: &T::AccountId, d: &T::AccountId, v: T::Balance, e: ExistenceRequirement) -> DispatchResult { if v.is_zero() || s == d { return Ok(()) } let k = match e { KeepAlive => Preserve, AllowDeath => Expendable }; <Self as fungible::Mutate<_>>::transfer(s, d, v, k)?; Ok(()) }
	fn slash(who: &T::AccountId, v: T::Balance) -> (NegativeImbalance<T>, T::Balance) {
		if v.is_zero() { return (NegativeImbalance::zero(), Zero::zero()) } if Self::total_balance(who).is_zero() { return (NegativeImbalance::zero(), v) }
		match Self::try_mutate_account_handling_dust(who, |a, _| -> Result<(NegativeImbalance<T>, T::Balance), DispatchError> {
			let ed = T::ExistentialDeposit::get();
			let actual = match frame_system::Pallet::<T>::can_dec_provider(who) { true => v.min(a.free), false => v.min(a.free.saturating_sub(ed)) };
			a.free.saturating_reduce(actual); let rem = v.saturating_sub(actual); Ok((NegativeImbalance::new(actual), rem))
		}) { Ok((i, rem)) => { Self::deposit_event(Event::Slashed { who: who.clone(), amount: v.saturating_sub(rem) }); (i, rem) }, Err(_) => (NegativeImbalance::zero(), v) } }
	fn deposit_into_existing(who: &T::AccountId, v: T::Balance) -> Result<PositiveImbalance<T>, DispatchError> { if v.is_zero() { return Ok(PositiveImbalance::zero()) } Self::try_mutate_account_handling_dust(who, |a, is_new| { ensure!(!is_new, Error::<T>::DeadAccount); a.free = a.free.checked_add(&v).ok_or(ArithmeticError::Overflow)?; Self::deposit_event(Event::Deposit { who: who.clone(), amount: v }); Ok(PositiveImbalance::new(v)) }) }
	fn deposit_creating(who: &T::AccountId, v: T::Balance) -> PositiveImbalance<T> { if v.is_zero() { return PositiveImbalance::zero() } Self::try_mutate_account_handling_dust(who, |a, is_new| -> Result<_, DispatchError> { let ed = T::ExistentialDeposit::get(); ensure!(v >= ed || !is_new, Error::<T>::ExistentialDeposit); a.free = match a.free.checked_add(&v) { Some(x) => x, None => return Ok(PositiveImbalance::zero()) }; Self::deposit_event(Event::Deposit { who: who.clone(), amount: v }); Ok(PositiveImbalance::new(v)) }).unwrap_or_else(|_| PositiveImbalance::zero()) }
	fn withdraw(who: &T::AccountId, v: T::Balance, r: WithdrawReasons, l: ExistenceRequirement) -> Result<NegativeImbalance<T>, DispatchError> { if v.is_zero() { return Ok(NegativeImbalance::zero()) } Self::try_mutate_account_handling_dust(who, |a, _| -> Result<_, DispatchError> { let nf = a.free.checked_sub(&v).ok_or(Error::<T>::InsufficientBalance)?; let ed = T::ExistentialDeposit::get(); let would_be_dead = nf < ed; let would_kill = would_be_dead && a.free >= ed; ensure!(l == AllowDeath || !would_kill, Error::<T>::Expendability); Self::ensure_can_withdraw(who, v, r, nf)?; a.free = nf; Self::deposit_event(Event::Withdraw { who: who.clone(), amount: v }); Ok(NegativeImbalance::new(v)) }) }
	fn make_free_balance_be(who: &T::AccountId, v: T::Balance) -> SignedImbalance<T::Balance, PositiveImbalance<T>> { Self::try_mutate_account_handling_dust(who, |a, is_new| -> Result<SignedImbalance<T::Balance, PositiveImbalance<T>>, DispatchError> { let ed = T::ExistentialDeposit::get(); ensure!(v >= ed || !is_new, Error::<T>::ExistentialDeposit); let i = if a.free <= v { SignedImbalance::Positive(PositiveImbalance::new(v - a.free)) } else { SignedImbalance::Negative(NegativeImbalance::new(a.free - v)) }; a.free = v; Ok(i) }).unwrap_or_else(|_| SignedImbalance::Positive(PositiveImbalance::zero())) }
}
impl<T: Config> ReservableCurrency<T::AccountId> for Pallet<T> {
	fn can_reserve(who: &T::AccountId, v: T::Balance) -> bool { if v.is_zero() { return true } Self::account(who).free.checked_sub(&v).map_or(false, |nb| nb >= T::ExistentialDeposit::get() && Self::ensure_can_withdraw(who, v, WithdrawReasons::RESERVE, nb).is_ok()) }
	fn slash_reserved(who: &T::AccountId, v: T::Balance) -> (NegativeImbalance<T>, T::Balance) { if v.is_zero() || Self::account(who).total().is_zero() { return (NegativeImbalance::zero(), v) } match Self::mutate_account_handling_dust(who, |a| { let x = v.min(a.reserved); a.reserved.saturating_reduce(x); (NegativeImbalance::new(x), v.saturating_sub(x)) }) { Ok((i, n)) => { Self::deposit_event(Event::Slashed { who: who.clone(), amount: v.saturating_sub(n) }); (i, n) }, Err(_) => (NegativeImbalance::zero(), v) } }
	fn reserved_balance(who: &T::AccountId) -> T::Balance { Self::account(who).reserved }
	fn reserve(who: &T::AccountId, v: T::Balance) -> DispatchResult { if v.is_zero() { return Ok(()) } Self::try_mutate_account_handling_dust(who, |a, _| -> DispatchResult { a.free = a.free.checked_sub(&v).ok_or(Error::<T>::InsufficientBalance)?; a.reserved = a.reserved.checked_add(&v).ok_or(ArithmeticError::Overflow)?; Self::ensure_can_withdraw(who, v, WithdrawReasons::RESERVE, a.free)?; ensure!(a.free >= T::ExistentialDeposit::get(), Error::<T>::InsufficientBalance); Ok(()) })?; Self::deposit_event(Event::Reserved { who: who.clone(), amount: v }); Ok(()) }
	fn unreserve(who: &T::AccountId, v: T::Balance) -> T::Balance { if v.is_zero() { return Zero::zero() } if Self::account(who).total().is_zero() { return v } let actual = match Self::mutate_account_handling_dust(who, |a| { let x = a.reserved.min(v); a.reserved = a.reserved - x; a.free = a.free.saturating_add(x); x }) { Ok(x) => x, Err(_) => return v }; Self::deposit_event(Event::Unreserved { who: who.clone(), amount: actual }); v - actual }
	fn repatriate_reserved(s: &T::AccountId, b: &T::AccountId, v: T::Balance, st: Status) -> Result<T::Balance, DispatchError> {
		if v.is_zero() { return Ok(Zero::zero()) }
		if s == b { return Ok(match st { Status::Free => Self::unreserve(s, v), Status::Reserved => v.saturating_sub(Self::reserved_balance(s)) }) }
		let actual = Self::reserved_balance(s).min(v);
		if actual.is_zero() { return Ok(v) }
		ensure!(!Self::account(b).total().is_zero(), Error::<T>::DeadAccount);
		Self::try_mutate_account_handling_dust(b, |ba, _| -> DispatchResult { match st { Status::Free => ba.free = ba.free.checked_add(&actual).ok_or(ArithmeticError::Overflow)?, Status::Reserved => ba.reserved = ba.reserved.checked_add(&actual).ok_or(ArithmeticError::Overflow)? } Ok(()) })?;
		Self::mutate_account_handling_dust(s, |a| a.reserved = a.reserved.saturating_sub(actual))?;
		Self::deposit_event(Event::ReserveRepatriated { from: s.clone(), to: b.clone(), amount: actual, destination_status: st });
		Ok(v - actual)
	}
}
impl<T: Config> NamedReservableCurrency<T::AccountId> for Pallet<T> {
	type ReserveIdentifier = T::ReserveIdentifier;
	fn reserved_balance_named(id: &T::ReserveIdentifier, who: &T::AccountId) -> T::Balance { Reserves::<T>::get(who).iter().find(|r| &r.id == id).map(|r| r.amount).unwrap_or_default() }
	fn reserve_named(id: &T::ReserveIdentifier, who: &T::AccountId, v: T::Balance) -> DispatchResult { if v.is_zero() { return Ok(()) } Reserves::<T>::try_mutate(who, |rs| -> DispatchResult { match rs.iter_mut().find(|r| &r.id == id) { Some(r) => r.amount = r.amount.checked_add(&v).ok_or(ArithmeticError::Overflow)?, None => { ensure!((rs.len() as u32) < T::MaxReserves::get(), Error::<T>::TooManyReserves); rs.push(ReserveData { id: *id, amount: v }) } } <Self as ReservableCurrency<_>>::reserve(who, v) }) }
	fn unreserve_named(id: &T::ReserveIdentifier, who: &T::AccountId, v: T::Balance) -> T::Balance { if v.is_zero() { return Zero::zero() } Reserves::<T>::mutate(who, |rs| { match rs.iter_mut().position(|r| &r.id == id) { Some(i) => { let to = rs[i].amount.min(v); let rem = <Self as ReservableCurrency<_>>::unreserve(who, to); let actual = to.saturating_sub(rem); rs[i].amount -= actual; if rs[i].amount.is_zero() { rs.remove(i); } v - actual }, None => v } }) }
}
#[doc(hidden)] pub fn _t() -> TokenError { TokenError::Frozen }
