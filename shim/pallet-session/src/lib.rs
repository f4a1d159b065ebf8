//! Stand-in for `pallet-session`: the validator set and the session index.
#![allow(clippy::all)]
use frame_support::pallet_prelude::*;
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config { type ValidatorId: Member + Parameter + MaxEncodedLen + From<Self::AccountId>; }
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::storage] #[pallet::getter(fn validators)] pub type Validators<T: Config> = StorageValue<_, Vec<T::ValidatorId>, ValueQuery>;
	#[pallet::storage] #[pallet::getter(fn current_index)] pub type CurrentIndex<T: Config> = StorageValue<_, u32, ValueQuery>;
}
