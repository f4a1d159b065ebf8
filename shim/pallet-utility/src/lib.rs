//! Stand-in for `pallet-utility`.
#![allow(clippy::all)]
use frame_support::{dispatch::{Dispatchable, GetDispatchInfo, PostDispatchInfo}, pallet_prelude::*, traits::IsSubType};
use frame_system::pallet_prelude::*;
pub use pallet::*;
pub trait WeightInfo {} impl WeightInfo for () {}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config { type RuntimeEvent: From<Event> + IsType<<Self as frame_system::Config>::RuntimeEvent>; type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>>; type PalletsOrigin: Parameter; type WeightInfo: WeightInfo; }
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::event] #[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event { BatchInterrupted { index: u32, error: DispatchError }, BatchCompleted, ItemCompleted }
	#[pallet::error] pub enum Error<T> { TooManyCalls }
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)] #[pallet::weight(Weight::zero())]
		pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo { for (i, c) in calls.into_iter().enumerate() { if let Err(e) = c.dispatch(origin.clone()) { Self::deposit_event(Event::BatchInterrupted { index: i as u32, error: e.error }); return Ok(().into()) } } Self::deposit_event(Event::BatchCompleted); Ok(().into()) }
		#[pallet::call_index(2)] #[pallet::weight(Weight::zero())]
		pub fn batch_all(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo { for c in calls { c.dispatch(origin.clone())?; } Ok(().into()) }
	}
}
#[doc(hidden)] pub trait _X<T>: IsSubType<T> {}
