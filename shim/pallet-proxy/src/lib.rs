//! Stand-in for `pallet-proxy` (polkadot-v1.0 semantics).
#![allow(clippy::all)]
use frame_support::{dispatch::{Dispatchable, GetDispatchInfo, PostDispatchInfo}, ensure, pallet_prelude::*, traits::{Currency, Get, InstanceFilter, IsSubType, IsType, OriginTrait, ReservableCurrency}, BoundedVec};
use frame_system::{self as system, pallet_prelude::*};
use sp_runtime::traits::{Hash, Saturating, StaticLookup, Zero};
pub use pallet::*;
pub trait WeightInfo {} impl WeightInfo for () {}
pub mod weights { pub struct SubstrateWeight<T>(std::marker::PhantomData<T>); impl<T> super::WeightInfo for SubstrateWeight<T> {} }
pub type BalanceOf<T> = <<T as Config>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
type AccountIdLookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;
#[derive(Encode, Decode, Clone, Copy, Eq, PartialEq, Ord, PartialOrd, Debug, MaxEncodedLen, TypeInfo)]
pub struct ProxyDefinition<AccountId, ProxyType, BlockNumber> { pub delegate: AccountId, pub proxy_type: ProxyType, pub delay: BlockNumber }
#[derive(Encode, Decode, Clone, Copy, Eq, PartialEq, Debug, MaxEncodedLen, TypeInfo)]
pub struct Announcement<AccountId, Hash, BlockNumber> { pub real: AccountId, pub call_hash: Hash, pub height: BlockNumber }
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>> + IsSubType<Call<Self>> + IsType<<Self as frame_system::Config>::RuntimeCall>;
		type Currency: ReservableCurrency<Self::AccountId>;
		type ProxyType: Parameter + Member + Ord + PartialOrd + InstanceFilter<<Self as Config>::RuntimeCall> + Default + MaxEncodedLen;
		type ProxyDepositBase: Get<BalanceOf<Self>>; type ProxyDepositFactor: Get<BalanceOf<Self>>; type MaxProxies: Get<u32>; type WeightInfo: WeightInfo; type MaxPending: Get<u32>;
		type CallHasher: Hash; type AnnouncementDepositBase: Get<BalanceOf<Self>>; type AnnouncementDepositFactor: Get<BalanceOf<Self>>;
	}
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Proxies<T: Config> = StorageMap<_, Twox64Concat, T::AccountId, (BoundedVec<ProxyDefinition<T::AccountId, T::ProxyType, BlockNumberFor<T>>, T::MaxProxies>, BalanceOf<T>), ValueQuery>;
	#[pallet::event] #[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> { ProxyExecuted { result: DispatchResult }, PureCreated { pure: T::AccountId, who: T::AccountId, proxy_type: T::ProxyType, disambiguation_index: u16 }, Announced { real: T::AccountId, proxy: T::AccountId }, ProxyAdded { delegator: T::AccountId, delegatee: T::AccountId, proxy_type: T::ProxyType, delay: BlockNumberFor<T> }, ProxyRemoved { delegator: T::AccountId, delegatee: T::AccountId, proxy_type: T::ProxyType, delay: BlockNumberFor<T> } }
	#[pallet::error] pub enum Error<T> { TooMany, NotFound, NotProxy, Unproxyable, Duplicate, NoPermission, Unannounced, NoSelfProxy }
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)] #[pallet::weight(Weight::zero())]
		pub fn proxy(origin: OriginFor<T>, real: AccountIdLookupOf<T>, force_proxy_type: Option<T::ProxyType>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			let who = ensure_signed(origin)?; let real = T::Lookup::lookup(real)?;
			let def = Self::find_proxy(&real, &who, force_proxy_type)?;
			ensure!(def.delay.is_zero(), Error::<T>::Unannounced);
			Self::do_proxy(def, real, *call); Ok(())
		}
		#[pallet::call_index(1)] #[pallet::weight(Weight::zero())]
		pub fn add_proxy(origin: OriginFor<T>, delegate: AccountIdLookupOf<T>, proxy_type: T::ProxyType, delay: BlockNumberFor<T>) -> DispatchResult { let who = ensure_signed(origin)?; let d = T::Lookup::lookup(delegate)?; Self::add_proxy_delegate(&who, d, proxy_type, delay) }
		#[pallet::call_index(2)] #[pallet::weight(Weight::zero())]
		pub fn remove_proxy(origin: OriginFor<T>, delegate: AccountIdLookupOf<T>, proxy_type: T::ProxyType, delay: BlockNumberFor<T>) -> DispatchResult { let who = ensure_signed(origin)?; let d = T::Lookup::lookup(delegate)?; Self::remove_proxy_delegate(&who, d, proxy_type, delay) }
		#[pallet::call_index(3)] #[pallet::weight(Weight::zero())]
		pub fn remove_proxies(origin: OriginFor<T>) -> DispatchResult { let who = ensure_signed(origin)?; let (_, dep) = Proxies::<T>::take(&who); T::Currency::unreserve(&who, dep); Ok(()) }
	}
}
impl<T: Config> Pallet<T> {
	pub fn proxies(account: T::AccountId) -> (BoundedVec<ProxyDefinition<T::AccountId, T::ProxyType, BlockNumberFor<T>>, T::MaxProxies>, BalanceOf<T>) { Proxies::<T>::get(account) }
	pub fn add_proxy_delegate(delegator: &T::AccountId, delegatee: T::AccountId, proxy_type: T::ProxyType, delay: BlockNumberFor<T>) -> DispatchResult {
		ensure!(delegator != &delegatee, Error::<T>::NoSelfProxy);
		Proxies::<T>::try_mutate(delegator, |(ref mut proxies, ref mut deposit)| {
			let def = ProxyDefinition { delegate: delegatee.clone(), proxy_type: proxy_type.clone(), delay };
			let i = proxies.binary_search(&def).err().ok_or(Error::<T>::Duplicate)?;
			proxies.try_insert(i, def).map_err(|_| Error::<T>::TooMany)?;
			let new_deposit = Self::deposit(proxies.len() as u32);
			if new_deposit > *deposit { T::Currency::reserve(delegator, new_deposit - *deposit)?; } else if new_deposit < *deposit { T::Currency::unreserve(delegator, *deposit - new_deposit); }
			*deposit = new_deposit;
			Self::deposit_event(Event::<T>::ProxyAdded { delegator: delegator.clone(), delegatee, proxy_type, delay });
			Ok(())
		})
	}
	pub fn remove_proxy_delegate(delegator: &T::AccountId, delegatee: T::AccountId, proxy_type: T::ProxyType, delay: BlockNumberFor<T>) -> DispatchResult {
		Proxies::<T>::try_mutate_exists(delegator, |x| {
			let (mut proxies, old_deposit) = x.take().ok_or(Error::<T>::NotFound)?;
			let def = ProxyDefinition { delegate: delegatee.clone(), proxy_type: proxy_type.clone(), delay };
			let i = proxies.binary_search(&def).ok().ok_or(Error::<T>::NotFound)?;
			proxies.remove(i);
			let new_deposit = Self::deposit(proxies.len() as u32);
			if new_deposit > old_deposit { T::Currency::reserve(delegator, new_deposit - old_deposit)?; } else if new_deposit < old_deposit { T::Currency::unreserve(delegator, old_deposit - new_deposit); }
			if !proxies.is_empty() { *x = Some((proxies, new_deposit)) }
			Self::deposit_event(Event::<T>::ProxyRemoved { delegator: delegator.clone(), delegatee, proxy_type, delay });
			Ok(())
		})
	}
	pub fn deposit(n: u32) -> BalanceOf<T> { if n == 0 { Zero::zero() } else { T::ProxyDepositBase::get() + T::ProxyDepositFactor::get() * n.into() } }
	pub fn find_proxy(real: &T::AccountId, delegate: &T::AccountId, force: Option<T::ProxyType>) -> Result<ProxyDefinition<T::AccountId, T::ProxyType, BlockNumberFor<T>>, DispatchError> {
		let f = |x: &ProxyDefinition<T::AccountId, T::ProxyType, BlockNumberFor<T>>| -> bool { &x.delegate == delegate && force.as_ref().map_or(true, |y| &x.proxy_type == y) };
		Ok(Proxies::<T>::get(real).0.into_iter().find(f).ok_or(Error::<T>::NotProxy)?)
	}
	fn do_proxy(def: ProxyDefinition<T::AccountId, T::ProxyType, BlockNumberFor<T>>, real: T::AccountId, call: <T as Config>::RuntimeCall) {
		let mut origin: T::RuntimeOrigin = frame_system::RawOrigin::Signed(real).into();
		origin.add_filter(move |c: &<T as frame_system::Config>::RuntimeCall| {
			let c = <T as Config>::RuntimeCall::from_ref(c);
			match IsSubType::<Call<T>>::is_sub_type(c) {
				Some(Call::add_proxy { ref proxy_type, .. }) | Some(Call::remove_proxy { ref proxy_type, .. }) if !def.proxy_type.is_superset(proxy_type) => false,
				Some(Call::remove_proxies { .. }) if def.proxy_type != T::ProxyType::default() => false,
				_ => def.proxy_type.filter(c),
			}
		});
		let e = call.dispatch(origin);
		Self::deposit_event(Event::ProxyExecuted { result: e.map(|_| ()).map_err(|e| e.error) });
	}
}
#[doc(hidden)] pub fn _u<T: system::Config, B: Saturating>() {}
