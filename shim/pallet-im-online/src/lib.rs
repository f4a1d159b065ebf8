//! Stand-in for `pallet-im-online`: only the names the runtime uses.
#![allow(clippy::all)]
use frame_support::pallet_prelude::*;
use frame_system::pallet_prelude::*;
pub use pallet::*;
pub mod sr25519 { pub type AuthorityId = sp_core::sr25519::Public; }
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {}
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)] #[pallet::weight(Weight::zero())]
		pub fn heartbeat(origin: OriginFor<T>, _n: u32) -> DispatchResult { ensure_none(origin)?; Ok(()) }
	}
}
