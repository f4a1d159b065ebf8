//! Stand-in for `pallet-assets` (polkadot-v1.0 semantics).
#![allow(clippy::all)]
use codec::{Decode, Encode, HasCompact, MaxEncodedLen};
use frame_support::{
	ensure, pallet_prelude::*,
	traits::{tokens::{fungibles, DepositConsequence, Fortitude, Precision::{self, *}, Preservation::{self, *}, Provenance, WithdrawConsequence}, Currency, EnsureOriginWithArg, Get, ReservableCurrency},
	weights::Weight,
};
use frame_system::{self as system, pallet_prelude::*};
use sp_runtime::{traits::{AtLeast32BitUnsigned, CheckedAdd, CheckedSub, Saturating, StaticLookup, Zero}, ArithmeticError, DispatchError, DispatchResult, RuntimeDebug, TokenError};
pub use pallet::*;
macro_rules! wi { ($($f:ident $(($($a:ident),*))?),* $(,)?) => { pub trait WeightInfo { $(fn $f($($($a: u32),*)?) -> Weight { $($(let _ = $a;)*)? Weight::from_parts(30_000_000, 0) })* } } }
wi!(create, force_create, start_destroy, destroy_accounts(c), destroy_approvals(a), finish_destroy, mint, burn, transfer, transfer_keep_alive, force_transfer, freeze, thaw, freeze_asset, thaw_asset, transfer_ownership, set_team, set_metadata(n, s), clear_metadata, force_set_metadata(n, s), force_clear_metadata, force_asset_status, approve_transfer, transfer_approved, cancel_approval, force_cancel_approval, set_min_balance, touch, touch_other, refund, refund_other, block);
impl WeightInfo for () {}
pub mod weights { pub use super::WeightInfo; pub struct SubstrateWeight<T>(std::marker::PhantomData<T>); impl<T> WeightInfo for SubstrateWeight<T> {} }
#[macro_export] macro_rules! runtime_benchmarks_enabled { ($($t:tt)*) => {}; }
pub(crate) type DepositBalanceOf<T> = <<T as Config>::Currency as Currency<<T as system::Config>::AccountId>>::Balance;
#[derive(Eq, PartialEq, Copy, Clone, RuntimeDebug, Encode, Decode, MaxEncodedLen)] pub enum AssetStatus { Live, Frozen, Destroying }
#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, MaxEncodedLen)]
pub struct AssetDetails<Balance, AccountId, DepositBalance> { pub owner: AccountId, pub issuer: AccountId, pub admin: AccountId, pub freezer: AccountId, pub supply: Balance, pub deposit: DepositBalance, pub min_balance: Balance, pub is_sufficient: bool, pub accounts: u32, pub sufficients: u32, pub approvals: u32, pub status: AssetStatus }
#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, MaxEncodedLen)] pub struct Approval<Balance, DepositBalance> { pub amount: Balance, pub deposit: DepositBalance }
#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, MaxEncodedLen)] pub enum ExistenceReason<Balance, AccountId> { Consumer, Sufficient, DepositHeld(Balance), DepositRefunded, DepositFrom(AccountId, Balance) }
#[derive(Clone, Copy, Encode, Decode, Eq, PartialEq, RuntimeDebug, MaxEncodedLen)] pub enum AccountStatus { Liquid, Frozen, Blocked }
impl AccountStatus { fn is_frozen(&self) -> bool { matches!(self, Self::Frozen | Self::Blocked) } fn is_blocked(&self) -> bool { matches!(self, Self::Blocked) } }
#[derive(Clone, Encode, Decode, Eq, PartialEq, RuntimeDebug, MaxEncodedLen)] pub struct AssetAccount<Balance, DepositBalance, Extra, AccountId> { pub balance: Balance, pub status: AccountStatus, pub reason: ExistenceReason<DepositBalance, AccountId>, pub extra: Extra }
#[derive(Clone, Encode, Decode, Eq, PartialEq, Default, RuntimeDebug, MaxEncodedLen)] pub struct AssetMetadata<DepositBalance, S> { pub deposit: DepositBalance, pub name: S, pub symbol: S, pub decimals: u8, pub is_frozen: bool }
#[derive(Copy, Clone)] pub struct TransferFlags { pub keep_alive: bool, pub best_effort: bool, pub burn_dust: bool }
#[derive(Copy, Clone)] pub struct DebitFlags { pub keep_alive: bool, pub best_effort: bool }
enum Dead { Remove, Keep }
pub trait FrozenBalance<AssetId, AccountId, Balance> { fn frozen_balance(asset: AssetId, who: &AccountId) -> Option<Balance>; fn died(asset: AssetId, who: &AccountId); }
impl<A, B, C> FrozenBalance<A, B, C> for () { fn frozen_balance(_: A, _: &B) -> Option<C> { None } fn died(_: A, _: &B) {} }
pub trait AssetsCallback<AssetId, AccountId> { fn created(_id: &AssetId, _owner: &AccountId) -> Result<(), ()> { Ok(()) } fn destroyed(_id: &AssetId) -> Result<(), ()> { Ok(()) } }
impl<A, B> AssetsCallback<A, B> for () {}
type AccountIdLookupOf<T> = <<T as system::Config>::Lookup as StaticLookup>::Source;

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent> where Self: Config;
		type Balance: Member + Parameter + AtLeast32BitUnsigned + HasCompact + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen + Send + Sync + 'static;
		type RemoveItemsLimit: Get<u32>;
		type AssetId: Member + Parameter + Clone + MaybeSerializeDeserialize + MaxEncodedLen;
		type AssetIdParameter: Parameter + Copy + From<Self::AssetId> + Into<Self::AssetId> + MaxEncodedLen;
		type Currency: ReservableCurrency<Self::AccountId>;
		type CreateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, Self::AssetId, Success = Self::AccountId>;
		type ForceOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type AssetDeposit: Get<<Self::Currency as Currency<Self::AccountId>>::Balance>;
		type AssetAccountDeposit: Get<<Self::Currency as Currency<Self::AccountId>>::Balance>;
		type MetadataDepositBase: Get<<Self::Currency as Currency<Self::AccountId>>::Balance>;
		type MetadataDepositPerByte: Get<<Self::Currency as Currency<Self::AccountId>>::Balance>;
		type ApprovalDeposit: Get<<Self::Currency as Currency<Self::AccountId>>::Balance>;
		type StringLimit: Get<u32>;
		type Freezer: FrozenBalance<Self::AssetId, Self::AccountId, Self::Balance>;
		type Extra: Member + Parameter + Default + MaxEncodedLen;
		type CallbackHandle: AssetsCallback<Self::AssetId, Self::AccountId>;
		type WeightInfo: WeightInfo;
	}
	#[pallet::pallet] pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);
	pub(super) type DetailsOf<T> = AssetDetails<<T as Config>::Balance, <T as frame_system::Config>::AccountId, DepositBalanceOf<T>>;
	pub(super) type AccountOf<T> = AssetAccount<<T as Config>::Balance, DepositBalanceOf<T>, <T as Config>::Extra, <T as frame_system::Config>::AccountId>;
	pub(super) type AId<T> = <T as Config>::AssetId;
	pub(super) type MetaOf<T> = AssetMetadata<DepositBalanceOf<T>, BoundedVec<u8, <T as Config>::StringLimit>>;
	pub(super) type ApprovalOf<T> = Approval<<T as Config>::Balance, DepositBalanceOf<T>>;
	#[pallet::storage] pub type Asset<T: Config> = StorageMap<_, Blake2_128Concat, AId<T>, DetailsOf<T>>;
	#[pallet::storage] pub type Account<T: Config> = StorageDoubleMap<_, Blake2_128Concat, AId<T>, Blake2_128Concat, T::AccountId, AccountOf<T>>;
	#[pallet::storage] pub type Approvals<T: Config> = StorageDoubleMap<_, Blake2_128Concat, (AId<T>, T::AccountId), Blake2_128Concat, T::AccountId, ApprovalOf<T>>;
	#[pallet::storage] pub type Metadata<T: Config> = StorageMap<_, Blake2_128Concat, AId<T>, MetaOf<T>>;
	#[pallet::genesis_config] pub struct GenesisConfig<T: Config> { pub assets: Vec<(AId<T>, T::AccountId, bool, <T as Config>::Balance)>, pub metadata: Vec<(AId<T>, Vec<u8>, Vec<u8>, u8)>, pub accounts: Vec<(AId<T>, T::AccountId, <T as Config>::Balance)> }
	impl<T: Config> Default for GenesisConfig<T> { fn default() -> Self { Self { assets: vec![], metadata: vec![], accounts: vec![] } } }
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> { fn build(&self) {
		for (id, owner, s, min) in &self.assets { assert!(!Asset::<T>::contains_key(id), "Asset id already in use"); assert!(!min.is_zero(), "Min balance should not be zero"); Asset::<T>::insert(id, new_details::<T>(owner.clone(), *min, *s)); }
		for (id, name, symbol, decimals) in &self.metadata { assert!(Asset::<T>::contains_key(id), "Asset does not exist"); Metadata::<T>::insert(id, AssetMetadata { deposit: Zero::zero(), name: name.clone().try_into().expect("asset name is too long"), symbol: symbol.clone().try_into().expect("asset symbol is too long"), decimals: *decimals, is_frozen: false }); }
		for (id, who, amount) in &self.accounts { let r = Pallet::<T>::increase_balance(id.clone(), who, *amount, |d| { d.supply = d.supply.saturating_add(*amount); Ok(()) }); assert!(r.is_ok(), "{r:?}"); }
	} }
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Created { asset_id: AId<T>, creator: T::AccountId, owner: T::AccountId }, Issued { asset_id: AId<T>, owner: T::AccountId, amount: <T as Config>::Balance }, Transferred { asset_id: AId<T>, from: T::AccountId, to: T::AccountId, amount: <T as Config>::Balance }, Burned { asset_id: AId<T>, owner: T::AccountId, balance: <T as Config>::Balance },
		TeamChanged { asset_id: AId<T>, issuer: T::AccountId, admin: T::AccountId, freezer: T::AccountId }, OwnerChanged { asset_id: AId<T>, owner: T::AccountId }, Frozen { asset_id: AId<T>, who: T::AccountId }, Thawed { asset_id: AId<T>, who: T::AccountId }, AssetFrozen { asset_id: AId<T> }, AssetThawed { asset_id: AId<T> },
		ForceCreated { asset_id: AId<T>, owner: T::AccountId }, MetadataSet { asset_id: AId<T>, name: Vec<u8>, symbol: Vec<u8>, decimals: u8, is_frozen: bool }, MetadataCleared { asset_id: AId<T> }, ApprovedTransfer { asset_id: AId<T>, source: T::AccountId, delegate: T::AccountId, amount: <T as Config>::Balance }, ApprovalCancelled { asset_id: AId<T>, owner: T::AccountId, delegate: T::AccountId }, TransferredApproved { asset_id: AId<T>, owner: T::AccountId, delegate: T::AccountId, destination: T::AccountId, amount: <T as Config>::Balance }, Touched { asset_id: AId<T>, who: T::AccountId, depositor: T::AccountId }, Blocked { asset_id: AId<T>, who: T::AccountId },
	}
	#[pallet::error]
	pub enum Error<T> { BalanceLow, NoAccount, NoPermission, Unknown, Frozen, InUse, BadWitness, MinBalanceZero, UnavailableConsumer, BadMetadata, Unapproved, WouldDie, AlreadyExists, NoDeposit, WouldBurn, LiveAsset, AssetNotLive, IncorrectStatus, NotFrozen, CallbackFailed }
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)] #[pallet::weight(<T as Config>::WeightInfo::create())]
		pub fn create(origin: OriginFor<T>, id: T::AssetIdParameter, admin: AccountIdLookupOf<T>, min_balance: <T as Config>::Balance) -> DispatchResult {
			let id: AId<T> = id.into(); let owner = T::CreateOrigin::ensure_origin(origin, &id)?; let admin = T::Lookup::lookup(admin)?;
			ensure!(!Asset::<T>::contains_key(&id), Error::<T>::InUse); ensure!(!min_balance.is_zero(), Error::<T>::MinBalanceZero);
			let deposit = T::AssetDeposit::get(); T::Currency::reserve(&owner, deposit)?;
			let mut d = new_details::<T>(owner.clone(), min_balance, false); d.issuer = admin.clone(); d.admin = admin.clone(); d.freezer = admin.clone(); d.deposit = deposit; Asset::<T>::insert(&id, d);
			ensure!(T::CallbackHandle::created(&id, &owner).is_ok(), Error::<T>::CallbackFailed);
			Self::deposit_event(Event::Created { asset_id: id, creator: owner, owner: admin }); Ok(())
		}
		#[pallet::call_index(1)] #[pallet::weight(<T as Config>::WeightInfo::force_create())]
		pub fn force_create(origin: OriginFor<T>, id: T::AssetIdParameter, owner: AccountIdLookupOf<T>, is_sufficient: bool, #[pallet::compact] min_balance: <T as Config>::Balance) -> DispatchResult { T::ForceOrigin::ensure_origin(origin)?; let owner = T::Lookup::lookup(owner)?; Self::do_force_create(id.into(), owner, is_sufficient, min_balance) }
		#[pallet::call_index(6)] #[pallet::weight(<T as Config>::WeightInfo::mint())]
		pub fn mint(origin: OriginFor<T>, id: T::AssetIdParameter, beneficiary: AccountIdLookupOf<T>, #[pallet::compact] amount: <T as Config>::Balance) -> DispatchResult { let o = ensure_signed(origin)?; let b = T::Lookup::lookup(beneficiary)?; Self::do_mint(id.into(), &b, amount, Some(o)) }
		#[pallet::call_index(7)] #[pallet::weight(<T as Config>::WeightInfo::burn())]
		pub fn burn(origin: OriginFor<T>, id: T::AssetIdParameter, who: AccountIdLookupOf<T>, #[pallet::compact] amount: <T as Config>::Balance) -> DispatchResult { let o = ensure_signed(origin)?; let w = T::Lookup::lookup(who)?; Self::do_burn(id.into(), &w, amount, Some(o), DebitFlags { keep_alive: false, best_effort: true }).map(|_| ()) }
		#[pallet::call_index(8)] #[pallet::weight(<T as Config>::WeightInfo::transfer())]
		pub fn transfer(origin: OriginFor<T>, id: T::AssetIdParameter, target: AccountIdLookupOf<T>, #[pallet::compact] amount: <T as Config>::Balance) -> DispatchResult { let o = ensure_signed(origin)?; let d = T::Lookup::lookup(target)?; Self::do_transfer(id.into(), &o, &d, amount, None, TransferFlags { keep_alive: false, best_effort: false, burn_dust: false }).map(|_| ()) }
		#[pallet::call_index(9)] #[pallet::weight(<T as Config>::WeightInfo::transfer_keep_alive())]
		pub fn transfer_keep_alive(origin: OriginFor<T>, id: T::AssetIdParameter, target: AccountIdLookupOf<T>, #[pallet::compact] amount: <T as Config>::Balance) -> DispatchResult { let o = ensure_signed(origin)?; let d = T::Lookup::lookup(target)?; Self::do_transfer(id.into(), &o, &d, amount, None, TransferFlags { keep_alive: true, best_effort: false, burn_dust: false }).map(|_| ()) }
		#[pallet::call_index(10)] #[pallet::weight(<T as Config>::WeightInfo::force_transfer())]
		pub fn force_transfer(origin: OriginFor<T>, id: T::AssetIdParameter, source: AccountIdLookupOf<T>, dest: AccountIdLookupOf<T>, #[pallet::compact] amount: <T as Config>::Balance) -> DispatchResult { let o = ensure_signed(origin)?; let s = T::Lookup::lookup(source)?; let d = T::Lookup::lookup(dest)?; Self::do_transfer(id.into(), &s, &d, amount, Some(o), TransferFlags { keep_alive: false, best_effort: false, burn_dust: false }).map(|_| ()) }
		#[pallet::call_index(11)] #[pallet::weight(<T as Config>::WeightInfo::freeze())]
		pub fn freeze(origin: OriginFor<T>, id: T::AssetIdParameter, who: AccountIdLookupOf<T>) -> DispatchResult { let o = ensure_signed(origin)?; let id: AId<T> = id.into(); let d = Asset::<T>::get(&id).ok_or(Error::<T>::Unknown)?; ensure!(o == d.freezer, Error::<T>::NoPermission); let w = T::Lookup::lookup(who)?; Account::<T>::try_mutate(&id, &w, |m| -> DispatchResult { m.as_mut().ok_or(Error::<T>::NoAccount)?.status = AccountStatus::Frozen; Ok(()) })?; Self::deposit_event(Event::Frozen { asset_id: id, who: w }); Ok(()) }
		#[pallet::call_index(12)] #[pallet::weight(<T as Config>::WeightInfo::thaw())]
		pub fn thaw(origin: OriginFor<T>, id: T::AssetIdParameter, who: AccountIdLookupOf<T>) -> DispatchResult { let o = ensure_signed(origin)?; let id: AId<T> = id.into(); let d = Asset::<T>::get(&id).ok_or(Error::<T>::Unknown)?; ensure!(o == d.admin, Error::<T>::NoPermission); let w = T::Lookup::lookup(who)?; Account::<T>::try_mutate(&id, &w, |m| -> DispatchResult { m.as_mut().ok_or(Error::<T>::NoAccount)?.status = AccountStatus::Liquid; Ok(()) })?; Self::deposit_event(Event::Thawed { asset_id: id, who: w }); Ok(()) }
		#[pallet::call_index(13)] #[pallet::weight(<T as Config>::WeightInfo::freeze_asset())]
		pub fn freeze_asset(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult { let o = ensure_signed(origin)?; let id: AId<T> = id.into(); Asset::<T>::try_mutate(&id, |m| -> DispatchResult { let d = m.as_mut().ok_or(Error::<T>::Unknown)?; ensure!(o == d.freezer, Error::<T>::NoPermission); d.status = AssetStatus::Frozen; Ok(()) })?; Self::deposit_event(Event::AssetFrozen { asset_id: id }); Ok(()) }
		#[pallet::call_index(14)] #[pallet::weight(<T as Config>::WeightInfo::thaw_asset())]
		pub fn thaw_asset(origin: OriginFor<T>, id: T::AssetIdParameter) -> DispatchResult { let o = ensure_signed(origin)?; let id: AId<T> = id.into(); Asset::<T>::try_mutate(&id, |m| -> DispatchResult { let d = m.as_mut().ok_or(Error::<T>::Unknown)?; ensure!(o == d.admin, Error::<T>::NoPermission); d.status = AssetStatus::Live; Ok(()) })?; Self::deposit_event(Event::AssetThawed { asset_id: id }); Ok(()) }
		#[pallet::call_index(15)] #[pallet::weight(<T as Config>::WeightInfo::transfer_ownership())]
		pub fn transfer_ownership(origin: OriginFor<T>, id: T::AssetIdParameter, owner: AccountIdLookupOf<T>) -> DispatchResult { let o = ensure_signed(origin)?; let owner = T::Lookup::lookup(owner)?; let id: AId<T> = id.into(); Asset::<T>::try_mutate(&id, |m| -> DispatchResult { let d = m.as_mut().ok_or(Error::<T>::Unknown)?; ensure!(o == d.owner, Error::<T>::NoPermission); d.owner = owner.clone(); Ok(()) })?; Self::deposit_event(Event::OwnerChanged { asset_id: id, owner }); Ok(()) }
		#[pallet::call_index(17)] #[pallet::weight(<T as Config>::WeightInfo::set_metadata(name.len() as u32, symbol.len() as u32))]
		pub fn set_metadata(origin: OriginFor<T>, id: T::AssetIdParameter, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult { let o = ensure_signed(origin)?; Self::do_set_metadata(id.into(), &o, name, symbol, decimals) }
		#[pallet::call_index(19)] #[pallet::weight(<T as Config>::WeightInfo::force_set_metadata(name.len() as u32, symbol.len() as u32))]
		pub fn force_set_metadata(origin: OriginFor<T>, id: T::AssetIdParameter, name: Vec<u8>, symbol: Vec<u8>, decimals: u8, is_frozen: bool) -> DispatchResult {
			T::ForceOrigin::ensure_origin(origin)?; let id: AId<T> = id.into();
			let bn: BoundedVec<u8, T::StringLimit> = name.clone().try_into().map_err(|_| Error::<T>::BadMetadata)?; let bs: BoundedVec<u8, T::StringLimit> = symbol.clone().try_into().map_err(|_| Error::<T>::BadMetadata)?;
			ensure!(Asset::<T>::contains_key(&id), Error::<T>::Unknown);
			let deposit = Metadata::<T>::get(&id).map(|m| m.deposit).unwrap_or_default();
			Metadata::<T>::insert(&id, AssetMetadata { deposit, name: bn, symbol: bs, decimals, is_frozen });
			Self::deposit_event(Event::MetadataSet { asset_id: id, name, symbol, decimals, is_frozen }); Ok(())
		}
		#[pallet::call_index(22)] #[pallet::weight(<T as Config>::WeightInfo::approve_transfer())]
		pub fn approve_transfer(origin: OriginFor<T>, id: T::AssetIdParameter, delegate: AccountIdLookupOf<T>, #[pallet::compact] amount: <T as Config>::Balance) -> DispatchResult { let o = ensure_signed(origin)?; let d = T::Lookup::lookup(delegate)?; Self::do_approve_transfer(id.into(), &o, &d, amount) }
		#[pallet::call_index(25)] #[pallet::weight(<T as Config>::WeightInfo::transfer_approved())]
		pub fn transfer_approved(origin: OriginFor<T>, id: T::AssetIdParameter, owner: AccountIdLookupOf<T>, destination: AccountIdLookupOf<T>, #[pallet::compact] amount: <T as Config>::Balance) -> DispatchResult { let d = ensure_signed(origin)?; let o = T::Lookup::lookup(owner)?; let dest = T::Lookup::lookup(destination)?; Self::do_transfer_approved(id.into(), &o, &d, &dest, amount) }
	}
}
impl<T: Config> GenesisConfig<T> { pub fn assimilate_storage(&self, s: &mut sp_runtime::Storage) -> Result<(), String> { sp_runtime::BuildStorage::assimilate_storage(self, s) } pub fn build_storage(&self) -> Result<sp_runtime::Storage, String> { sp_runtime::BuildStorage::build_storage(self) } }
fn new_details<T: Config>(owner: T::AccountId, min_balance: <T as Config>::Balance, is_sufficient: bool) -> AssetDetails<<T as Config>::Balance, T::AccountId, DepositBalanceOf<T>> {
	AssetDetails { owner: owner.clone(), issuer: owner.clone(), admin: owner.clone(), freezer: owner, supply: Zero::zero(), deposit: Zero::zero(), min_balance, is_sufficient, accounts: 0, sufficients: 0, approvals: 0, status: AssetStatus::Live }
}
type Bal<T> = <T as Config>::Balance; type Aid<T> = <T as Config>::AssetId;
type Det<T> = AssetDetails<Bal<T>, <T as system::Config>::AccountId, DepositBalanceOf<T>>;
impl<T: Config> Pallet<T> {
	fn new_account(who: &T::AccountId, d: &mut Det<T>) -> Result<ExistenceReason<DepositBalanceOf<T>, T::AccountId>, DispatchError> {
		let accounts = d.accounts.checked_add(1).ok_or(ArithmeticError::Overflow)?;
		let reason = if d.is_sufficient { system::Pallet::<T>::inc_sufficients(who); d.sufficients += 1; ExistenceReason::Sufficient } else {
			system::Pallet::<T>::inc_consumers(who).map_err(|_| Error::<T>::UnavailableConsumer)?;
			ensure!(system::Pallet::<T>::can_inc_consumer(who), Error::<T>::UnavailableConsumer);
			ExistenceReason::Consumer };
		d.accounts = accounts; Ok(reason)
	}
	fn dead_account(who: &T::AccountId, d: &mut Det<T>, reason: &ExistenceReason<DepositBalanceOf<T>, T::AccountId>, force: bool) -> Dead {
		use ExistenceReason::*;
		match *reason { Consumer => system::Pallet::<T>::dec_consumers(who), Sufficient => { d.sufficients = d.sufficients.saturating_sub(1); system::Pallet::<T>::dec_sufficients(who); }, DepositRefunded => {}, DepositHeld(_) | DepositFrom(..) if !force => return Dead::Keep, DepositHeld(_) | DepositFrom(..) => {} }
		d.accounts = d.accounts.saturating_sub(1); Dead::Remove
	}
	pub fn asset_exists(id: Aid<T>) -> bool { Asset::<T>::contains_key(id) }
	pub fn balance(id: Aid<T>, who: impl std::borrow::Borrow<T::AccountId>) -> Bal<T> { Self::maybe_balance(id, who).unwrap_or_default() }
	pub fn maybe_balance(id: Aid<T>, who: impl std::borrow::Borrow<T::AccountId>) -> Option<Bal<T>> { Account::<T>::get(id, who.borrow()).map(|a| a.balance) }
	pub fn total_supply(id: Aid<T>) -> Bal<T> { Self::maybe_total_supply(id).unwrap_or_default() }
	pub fn maybe_total_supply(id: Aid<T>) -> Option<Bal<T>> { Asset::<T>::get(id).map(|x| x.supply) }
	pub fn can_increase(id: Aid<T>, who: &T::AccountId, amount: Bal<T>, increase_supply: bool) -> DepositConsequence {
		let d = match Asset::<T>::get(&id) { Some(d) => d, None => return DepositConsequence::UnknownAsset };
		if d.status == AssetStatus::Destroying { return DepositConsequence::UnknownAsset }
		if increase_supply && d.supply.checked_add(&amount).is_none() { return DepositConsequence::Overflow }
		if let Some(a) = Account::<T>::get(id, who) { if a.status.is_blocked() { return DepositConsequence::Blocked } if a.balance.checked_add(&amount).is_none() { return DepositConsequence::Overflow } }
		else {
			if amount < d.min_balance { return DepositConsequence::BelowMinimum }
			if !d.is_sufficient && !system::Pallet::<T>::can_accrue_consumers(who, 2) { return DepositConsequence::CannotCreate }
			if d.is_sufficient && d.sufficients.checked_add(1).is_none() { return DepositConsequence::Overflow }
		}
		DepositConsequence::Success
	}
	pub fn can_decrease(id: Aid<T>, who: &T::AccountId, amount: Bal<T>, keep_alive: bool) -> WithdrawConsequence<Bal<T>> {
		use WithdrawConsequence::*;
		let d = match Asset::<T>::get(&id) { Some(d) => d, None => return UnknownAsset };
		if d.supply.checked_sub(&amount).is_none() { return Underflow }
		if d.status == AssetStatus::Frozen { return Frozen }
		if d.status == AssetStatus::Destroying { return UnknownAsset }
		if amount.is_zero() { return Success }
		let a = match Account::<T>::get(&id, who) { Some(a) => a, None => return BalanceLow };
		if a.status.is_frozen() { return Frozen }
		if let Some(rest) = a.balance.checked_sub(&amount) {
			if let Some(frozen) = T::Freezer::frozen_balance(id, who) { match frozen.checked_add(&d.min_balance) { Some(r) if rest < r => return Frozen, None => return Overflow, _ => {} } }
			if rest < d.min_balance { if keep_alive { WouldDie } else { ReducedToZero(rest) } } else { Success }
		} else { BalanceLow }
	}
	pub(crate) fn reducible_balance(id: Aid<T>, who: &T::AccountId, keep_alive: bool) -> Result<Bal<T>, DispatchError> {
		let d = Asset::<T>::get(&id).ok_or(Error::<T>::Unknown)?; ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
		let a = Account::<T>::get(&id, who).ok_or(Error::<T>::NoAccount)?; ensure!(!a.status.is_frozen(), Error::<T>::Frozen);
		let amount = if let Some(f) = T::Freezer::frozen_balance(id, who) { let r = f.checked_add(&d.min_balance).ok_or(ArithmeticError::Overflow)?; a.balance.saturating_sub(r) } else if keep_alive { a.balance.saturating_sub(d.min_balance) } else { a.balance };
		Ok(amount.min(d.supply))
	}
	fn prep_debit(id: Aid<T>, who: &T::AccountId, amount: Bal<T>, f: DebitFlags) -> Result<Bal<T>, DispatchError> {
		let actual = Self::reducible_balance(id.clone(), who, f.keep_alive)?.min(amount);
		ensure!(f.best_effort || actual >= amount, Error::<T>::BalanceLow);
		match Self::can_decrease(id, who, actual, f.keep_alive).into_result(f.keep_alive) { Ok(dust) => Ok(actual.saturating_add(dust)), Err(e) => Err(e) }
	}
	pub(crate) fn increase_balance(id: Aid<T>, who: &T::AccountId, amount: Bal<T>, check: impl FnOnce(&mut Det<T>) -> DispatchResult) -> DispatchResult {
		if amount.is_zero() { return Ok(()) }
		Self::can_increase(id.clone(), who, amount, true).into_result()?;
		Asset::<T>::try_mutate(&id, |m| -> DispatchResult {
			let d = m.as_mut().ok_or(Error::<T>::Unknown)?; ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive); check(d)?;
			Account::<T>::try_mutate(&id, who, |ma| -> DispatchResult { match ma { Some(a) => a.balance = a.balance.saturating_add(amount), x @ None => { ensure!(amount >= d.min_balance, TokenError::BelowMinimum); *x = Some(AssetAccount { balance: amount, reason: Self::new_account(who, d)?, status: AccountStatus::Liquid, extra: Default::default() }) } } Ok(()) })
		})
	}
	pub(crate) fn decrease_balance(id: Aid<T>, who: &T::AccountId, amount: Bal<T>, f: DebitFlags, check: impl FnOnce(Bal<T>, &mut Det<T>) -> DispatchResult) -> Result<Bal<T>, DispatchError> {
		if amount.is_zero() { return Ok(amount) }
		let d = Asset::<T>::get(&id).ok_or(Error::<T>::Unknown)?; ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
		let actual = Self::prep_debit(id.clone(), who, amount, f)?;
		Asset::<T>::try_mutate(&id, |m| -> DispatchResult {
			let d = m.as_mut().ok_or(Error::<T>::Unknown)?; check(actual, d)?;
			Account::<T>::try_mutate(&id, who, |ma| -> DispatchResult { let mut a = ma.take().ok_or(Error::<T>::NoAccount)?; a.balance = a.balance.saturating_sub(actual); if a.balance < d.min_balance { if let Dead::Remove = Self::dead_account(who, d, &a.reason, false) { return Ok(()) } } *ma = Some(a); Ok(()) })
		})?;
		Ok(actual)
	}
	pub fn do_mint(id: Aid<T>, who: &T::AccountId, amount: Bal<T>, issuer: Option<T::AccountId>) -> DispatchResult {
		Self::increase_balance(id.clone(), who, amount, |d| { if let Some(i) = issuer { ensure!(i == d.issuer, Error::<T>::NoPermission) } d.supply = d.supply.saturating_add(amount); Ok(()) })?;
		Self::deposit_event(Event::Issued { asset_id: id, owner: who.clone(), amount }); Ok(())
	}
	pub fn do_burn(id: Aid<T>, who: &T::AccountId, amount: Bal<T>, admin: Option<T::AccountId>, f: DebitFlags) -> Result<Bal<T>, DispatchError> {
		let actual = Self::decrease_balance(id.clone(), who, amount, f, |actual, d| { if let Some(x) = admin { ensure!(x == d.admin, Error::<T>::NoPermission) } d.supply = d.supply.saturating_sub(actual); Ok(()) })?;
		Self::deposit_event(Event::Burned { asset_id: id, owner: who.clone(), balance: actual }); Ok(actual)
	}
	pub fn do_transfer(id: Aid<T>, s: &T::AccountId, dst: &T::AccountId, amount: Bal<T>, need_admin: Option<T::AccountId>, f: TransferFlags) -> Result<Bal<T>, DispatchError> {
		if amount.is_zero() { return Ok(amount) }
		let d = Asset::<T>::get(&id).ok_or(Error::<T>::Unknown)?; ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
		let debit = Self::prep_debit(id.clone(), s, amount, DebitFlags { keep_alive: f.keep_alive, best_effort: f.best_effort })?;
		let (credit, burn) = match (f.burn_dust, debit.checked_sub(&amount)) { (true, Some(dust)) => (amount, Some(dust)), _ => (debit, None) };
		Self::can_increase(id.clone(), dst, credit, false).into_result()?;
		let mut sa = Account::<T>::get(&id, s).ok_or(Error::<T>::NoAccount)?;
		Asset::<T>::try_mutate(&id, |m| -> DispatchResult {
			let d = m.as_mut().ok_or(Error::<T>::Unknown)?;
			if let Some(a) = need_admin { ensure!(a == d.admin, Error::<T>::NoPermission) }
			if s == dst { return Ok(()) }
			if let Some(b) = burn { d.supply = d.supply.saturating_sub(b) }
			sa.balance = sa.balance.saturating_sub(debit);
			Account::<T>::try_mutate(&id, dst, |ma| -> DispatchResult { match ma { Some(a) => a.balance = a.balance.saturating_add(credit), x @ None => *x = Some(AssetAccount { balance: credit, status: AccountStatus::Liquid, reason: Self::new_account(dst, d)?, extra: Default::default() }) } Ok(()) })?;
			if sa.balance < d.min_balance { if let Dead::Remove = Self::dead_account(s, d, &sa.reason, false) { Account::<T>::remove(&id, s); return Ok(()) } }
			Account::<T>::insert(&id, s, &sa); Ok(())
		})?;
		Self::deposit_event(Event::Transferred { asset_id: id, from: s.clone(), to: dst.clone(), amount: credit }); Ok(credit)
	}
	pub fn do_force_create(id: Aid<T>, owner: T::AccountId, is_sufficient: bool, min_balance: Bal<T>) -> DispatchResult {
		ensure!(!Asset::<T>::contains_key(&id), Error::<T>::InUse); ensure!(!min_balance.is_zero(), Error::<T>::MinBalanceZero);
		Asset::<T>::insert(&id, new_details::<T>(owner.clone(), min_balance, is_sufficient));
		ensure!(T::CallbackHandle::created(&id, &owner).is_ok(), Error::<T>::CallbackFailed);
		Self::deposit_event(Event::ForceCreated { asset_id: id, owner }); Ok(())
	}
	pub fn do_set_metadata(id: Aid<T>, from: &T::AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult {
		let bn: BoundedVec<u8, T::StringLimit> = name.clone().try_into().map_err(|_| Error::<T>::BadMetadata)?; let bs: BoundedVec<u8, T::StringLimit> = symbol.clone().try_into().map_err(|_| Error::<T>::BadMetadata)?;
		let d = Asset::<T>::get(&id).ok_or(Error::<T>::Unknown)?; ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive); ensure!(from == &d.owner, Error::<T>::NoPermission);
		let old = Metadata::<T>::get(&id); ensure!(old.as_ref().map_or(true, |m| !m.is_frozen), Error::<T>::NoPermission);
		let old_dep = old.map_or(Zero::zero(), |m| m.deposit);
		let new_dep = T::MetadataDepositPerByte::get().saturating_mul(((name.len() + symbol.len()) as u32).into()).saturating_add(T::MetadataDepositBase::get());
		if new_dep > old_dep { T::Currency::reserve(from, new_dep - old_dep)?; } else { T::Currency::unreserve(from, old_dep - new_dep); }
		Metadata::<T>::insert(&id, AssetMetadata { deposit: new_dep, name: bn, symbol: bs, decimals, is_frozen: false });
		Self::deposit_event(Event::MetadataSet { asset_id: id, name, symbol, decimals, is_frozen: false }); Ok(())
	}
	pub fn do_approve_transfer(id: Aid<T>, owner: &T::AccountId, delegate: &T::AccountId, amount: Bal<T>) -> DispatchResult {
		let mut d = Asset::<T>::get(&id).ok_or(Error::<T>::Unknown)?; ensure!(d.status == AssetStatus::Live, Error::<T>::AssetNotLive);
		Approvals::<T>::try_mutate((id.clone(), owner), delegate, |m| -> DispatchResult {
			let mut a = match m.take() { Some(a) => a, None => { d.approvals += 1; Approval { amount: Zero::zero(), deposit: Zero::zero() } } };
			let need = T::ApprovalDeposit::get(); if a.deposit < need { T::Currency::reserve(owner, need - a.deposit)?; a.deposit = need }
			a.amount = a.amount.saturating_add(amount); *m = Some(a); Ok(()) })?;
		Asset::<T>::insert(&id, d);
		Self::deposit_event(Event::ApprovedTransfer { asset_id: id, source: owner.clone(), delegate: delegate.clone(), amount }); Ok(())
	}
	pub fn do_transfer_approved(id: Aid<T>, owner: &T::AccountId, delegate: &T::AccountId, dest: &T::AccountId, amount: Bal<T>) -> DispatchResult {
		Approvals::<T>::try_mutate_exists((id.clone(), owner), delegate, |m| -> DispatchResult {
			let mut a = m.take().ok_or(Error::<T>::Unapproved)?; let rem = a.amount.checked_sub(&amount).ok_or(Error::<T>::Unapproved)?;
			Self::do_transfer(id.clone(), owner, dest, amount, None, TransferFlags { keep_alive: false, best_effort: false, burn_dust: false })?;
			if rem.is_zero() { T::Currency::unreserve(owner, a.deposit); Asset::<T>::mutate(&id, |d| if let Some(d) = d { d.approvals = d.approvals.saturating_sub(1) }); } else { a.amount = rem; *m = Some(a) }
			Ok(()) })
	}
}
impl<T: Config> fungibles::Inspect<T::AccountId> for Pallet<T> {
	type AssetId = Aid<T>; type Balance = Bal<T>;
	fn total_issuance(a: Aid<T>) -> Bal<T> { Self::total_supply(a) }
	fn minimum_balance(a: Aid<T>) -> Bal<T> { Asset::<T>::get(a).map(|x| x.min_balance).unwrap_or_default() }
	fn total_balance(a: Aid<T>, who: &T::AccountId) -> Bal<T> { Pallet::<T>::balance(a, who) }
	fn balance(a: Aid<T>, who: &T::AccountId) -> Bal<T> { Pallet::<T>::balance(a, who) }
	fn reducible_balance(a: Aid<T>, who: &T::AccountId, p: Preservation, _: Fortitude) -> Bal<T> { Pallet::<T>::reducible_balance(a, who, !matches!(p, Expendable)).unwrap_or_default() }
	fn can_deposit(a: Aid<T>, who: &T::AccountId, amount: Bal<T>, p: Provenance) -> DepositConsequence { Self::can_increase(a, who, amount, p == Provenance::Minted) }
	fn can_withdraw(a: Aid<T>, who: &T::AccountId, amount: Bal<T>) -> WithdrawConsequence<Bal<T>> { Self::can_decrease(a, who, amount, false) }
	fn asset_exists(a: Aid<T>) -> bool { Asset::<T>::contains_key(a) }
}
impl<T: Config> fungibles::Unbalanced<T::AccountId> for Pallet<T> {
	fn handle_raw_dust(_: Aid<T>, _: Bal<T>) {}
	fn handle_dust(_: fungibles::Dust<T::AccountId, Self>) { debug_assert!(false, "`decrease_balance` and `increase_balance` have non-default impls; nothing else calls this; qed"); }
	fn write_balance(_: Aid<T>, _: &T::AccountId, _: Bal<T>) -> Result<Option<Bal<T>>, DispatchError> { debug_assert!(false, "write_balance is not used as other functions are impl'd"); Err(DispatchError::Unavailable) }
	fn set_total_issuance(id: Aid<T>, amount: Bal<T>) { Asset::<T>::mutate_exists(id, |m| if let Some(d) = m { d.supply = amount }) }
	fn decrease_balance(a: Aid<T>, who: &T::AccountId, amount: Bal<T>, precision: Precision, preservation: Preservation, _: Fortitude) -> Result<Bal<T>, DispatchError> { Self::decrease_balance(a, who, amount, DebitFlags { keep_alive: preservation != Expendable, best_effort: precision == BestEffort }, |_, _| Ok(())) }
	fn increase_balance(a: Aid<T>, who: &T::AccountId, amount: Bal<T>, _: Precision) -> Result<Bal<T>, DispatchError> { Self::increase_balance(a, who, amount, |_| Ok(()))?; Ok(amount) }
}
impl<T: Config> fungibles::Mutate<T::AccountId> for Pallet<T> {
	fn done_mint_into(asset_id: Aid<T>, w: &T::AccountId, amount: Bal<T>) { Self::deposit_event(Event::Issued { asset_id, owner: w.clone(), amount }) }
	fn done_burn_from(asset_id: Aid<T>, w: &T::AccountId, balance: Bal<T>) { Self::deposit_event(Event::Burned { asset_id, owner: w.clone(), balance }) }
	fn done_transfer(asset_id: Aid<T>, s: &T::AccountId, d: &T::AccountId, amount: Bal<T>) { Self::deposit_event(Event::Transferred { asset_id, from: s.clone(), to: d.clone(), amount }) }
}
impl<T: Config> fungibles::Create<T::AccountId> for Pallet<T> { fn create(id: Aid<T>, admin: T::AccountId, s: bool, min: Bal<T>) -> DispatchResult { Self::do_force_create(id, admin, s, min) } }
impl<T: Config> fungibles::metadata::Inspect<T::AccountId> for Pallet<T> { fn name(a: Aid<T>) -> Vec<u8> { Metadata::<T>::get(a).map(|m| m.name.to_vec()).unwrap_or_default() } fn symbol(a: Aid<T>) -> Vec<u8> { Metadata::<T>::get(a).map(|m| m.symbol.to_vec()).unwrap_or_default() } fn decimals(a: Aid<T>) -> u8 { Metadata::<T>::get(a).map(|m| m.decimals).unwrap_or_default() } }
impl<T: Config> fungibles::metadata::Mutate<T::AccountId> for Pallet<T> { fn set(a: Aid<T>, from: &T::AccountId, n: Vec<u8>, s: Vec<u8>, d: u8) -> DispatchResult { Self::do_set_metadata(a, from, n, s, d) } }
impl<T: Config> fungibles::approvals::Inspect<T::AccountId> for Pallet<T> { fn allowance(a: Aid<T>, o: &T::AccountId, d: &T::AccountId) -> Bal<T> { Approvals::<T>::get((a, o), d).map(|x| x.amount).unwrap_or_default() } }
impl<T: Config> fungibles::approvals::Mutate<T::AccountId> for Pallet<T> { fn approve(a: Aid<T>, o: &T::AccountId, d: &T::AccountId, x: Bal<T>) -> DispatchResult { Self::do_approve_transfer(a, o, d, x) } fn transfer_from(a: Aid<T>, o: &T::AccountId, d: &T::AccountId, dst: &T::AccountId, x: Bal<T>) -> DispatchResult { Self::do_transfer_approved(a, o, d, dst, x) } }
impl<T: Config> fungibles::roles::Inspect<T::AccountId> for Pallet<T> { fn owner(a: Aid<T>) -> Option<T::AccountId> { Asset::<T>::get(a).map(|x| x.owner) } fn issuer(a: Aid<T>) -> Option<T::AccountId> { Asset::<T>::get(a).map(|x| x.issuer) } fn admin(a: Aid<T>) -> Option<T::AccountId> { Asset::<T>::get(a).map(|x| x.admin) } fn freezer(a: Aid<T>) -> Option<T::AccountId> { Asset::<T>::get(a).map(|x| x.freezer) } }
