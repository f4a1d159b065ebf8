//! Stand-in for `pallet-timestamp`.
#![allow(clippy::all)]
use frame_support::{pallet_prelude::*, traits::{OnTimestampSet, Time, UnixTime, Get}, weights::Weight};
use frame_system::pallet_prelude::*;
use sp_runtime::traits::{AtLeast32Bit, SaturatedConversion, Scale, Zero};
pub use pallet::*;
pub trait WeightInfo { fn set() -> Weight { Weight::zero() } fn on_finalize() -> Weight { Weight::zero() } } impl WeightInfo for () {}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config { type Moment: Parameter + Default + AtLeast32Bit + Scale<BlockNumberFor<Self>, Output = Self::Moment> + Copy + MaxEncodedLen; type OnTimestampSet: OnTimestampSet<Self::Moment>; type MinimumPeriod: Get<Self::Moment>; type WeightInfo: WeightInfo; }
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::storage] #[pallet::getter(fn now)] pub type Now<T: Config> = StorageValue<_, <T as Config>::Moment, ValueQuery>;
	#[pallet::storage] pub type DidUpdate<T: Config> = StorageValue<_, bool, ValueQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> { #[pallet::call_index(0)] #[pallet::weight((T::WeightInfo::set(), DispatchClass::Mandatory))] pub fn set(origin: OriginFor<T>, #[pallet::compact] now: T::Moment) -> DispatchResult { ensure_none(origin)?; Now::<T>::put(now); DidUpdate::<T>::put(true); T::OnTimestampSet::on_timestamp_set(now); Ok(()) } }
}
impl<T: Config> Pallet<T> { pub fn get() -> T::Moment { Self::now() } pub fn set_timestamp(now: T::Moment) { Now::<T>::put(now); DidUpdate::<T>::put(true); T::OnTimestampSet::on_timestamp_set(now) } }
impl<T: Config> Time for Pallet<T> { type Moment = T::Moment; fn now() -> T::Moment { Self::now() } }
impl<T: Config> UnixTime for Pallet<T> { fn now() -> core::time::Duration { let n = Self::now(); let _ = n.is_zero(); core::time::Duration::from_millis(n.saturated_into::<u64>()) } }
