//! Stand-in for `pallet-sudo`.
#![allow(clippy::all)]
use frame_support::{dispatch::{GetDispatchInfo, UnfilteredDispatchable}, pallet_prelude::*};
use frame_system::{pallet_prelude::*, RawOrigin};
use sp_runtime::traits::StaticLookup;
pub use pallet::*;
pub trait WeightInfo {} impl WeightInfo for () {}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config { type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>; type RuntimeCall: Parameter + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + GetDispatchInfo; type WeightInfo: WeightInfo; }
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::storage] pub type Key<T: Config> = StorageValue<_, T::AccountId, OptionQuery>;
	#[pallet::event] #[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> { Sudid { sudo_result: DispatchResult }, KeyChanged { old_sudoer: Option<T::AccountId> }, SudoAsDone { sudo_result: DispatchResult } }
	#[pallet::error] pub enum Error<T> { RequireSudo }
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)] #[pallet::weight(Weight::zero())]
		pub fn sudo(origin: OriginFor<T>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo { let s = ensure_signed(origin)?; ensure!(Key::<T>::get() == Some(s), Error::<T>::RequireSudo); let r = call.dispatch_bypass_filter(RawOrigin::Root.into()); Self::deposit_event(Event::Sudid { sudo_result: r.map(|_| ()).map_err(|e| e.error) }); Ok(().into()) }
		#[pallet::call_index(2)] #[pallet::weight(Weight::zero())]
		pub fn set_key(origin: OriginFor<T>, new: <T::Lookup as StaticLookup>::Source) -> DispatchResultWithPostInfo { let s = ensure_signed(origin)?; ensure!(Key::<T>::get() == Some(s), Error::<T>::RequireSudo); let n = T::Lookup::lookup(new)?; let old = Key::<T>::get(); Key::<T>::put(n); Self::deposit_event(Event::KeyChanged { old_sudoer: old }); Ok(().into()) }
	}
}
