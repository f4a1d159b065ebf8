//! Stand-in for `pallet-scheduler`: agenda of calls dispatched in `on_initialize`.
#![allow(clippy::all)]
use frame_support::{dispatch::{Dispatchable, GetDispatchInfo, PostDispatchInfo, RawOrigin}, pallet_prelude::*, traits::{schedule::{self, DispatchTime}, EnsureOrigin, Get, PrivilegeCmp}};
use frame_system::pallet_prelude::*;
pub use pallet::*;
pub trait WeightInfo {} impl WeightInfo for () {}
pub mod weights { pub struct SubstrateWeight<T>(std::marker::PhantomData<T>); impl<T> super::WeightInfo for SubstrateWeight<T> {} }
pub type TaskName = [u8; 32];
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub struct Scheduled<Call, Origin> { pub id: Option<TaskName>, pub priority: u8, pub call: Call, pub origin: Origin }
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeOrigin: From<Self::PalletsOrigin> + From<RawOrigin<Self::AccountId>> + IsType<<Self as frame_system::Config>::RuntimeOrigin>;
		type PalletsOrigin: Parameter + From<RawOrigin<Self::AccountId>>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = <Self as Config>::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo;
		type MaximumWeight: Get<Weight>; type ScheduleOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>; type OriginPrivilegeCmp: PrivilegeCmp<Self::PalletsOrigin>; type MaxScheduledPerBlock: Get<u32>; type WeightInfo: WeightInfo; type Preimages;
	}
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::storage] pub type Agenda<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, Vec<Option<Scheduled<<T as Config>::RuntimeCall, T::PalletsOrigin>>>, ValueQuery>;
	#[pallet::storage] pub type Lookup<T: Config> = StorageMap<_, Twox64Concat, TaskName, (BlockNumberFor<T>, u32), OptionQuery>;
	#[pallet::event] #[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> { Scheduled { when: BlockNumberFor<T>, index: u32 }, Canceled { when: BlockNumberFor<T>, index: u32 }, Dispatched { task: (BlockNumberFor<T>, u32), id: Option<TaskName>, result: DispatchResult } }
	#[pallet::error] pub enum Error<T> { FailedToSchedule, NotFound, TargetBlockNumberInPast, RescheduleNoChange, Named }
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
		fn on_initialize(now: BlockNumberFor<T>) -> Weight {
			let tasks = Agenda::<T>::take(now);
			for (i, t) in tasks.into_iter().enumerate() { if let Some(t) = t {
				if let Some(id) = t.id { Lookup::<T>::remove(id) }
				let o: <T as Config>::RuntimeOrigin = t.origin.into();
				let r = t.call.dispatch(o).map(|_| ()).map_err(|e| e.error);
				Self::deposit_event(Event::Dispatched { task: (now, i as u32), id: t.id, result: r });
			} }
			Weight::zero()
		}
	}
}
impl<T: Config> Pallet<T> {
	fn resolve(when: DispatchTime<BlockNumberFor<T>>) -> Result<BlockNumberFor<T>, DispatchError> { let now = frame_system::Pallet::<T>::block_number(); let w = match when { DispatchTime::At(x) => x, DispatchTime::After(x) => now + x + 1u32.into() }; ensure!(w > now, Error::<T>::TargetBlockNumberInPast); Ok(w) }
	fn place(when: BlockNumberFor<T>, t: Scheduled<<T as Config>::RuntimeCall, T::PalletsOrigin>) -> Result<(BlockNumberFor<T>, u32), DispatchError> {
		let id = t.id;
		let idx = Agenda::<T>::mutate(when, |a| { if (a.len() as u32) < T::MaxScheduledPerBlock::get() { a.push(Some(t)); Some(a.len() as u32 - 1) } else { None } }).ok_or(DispatchError::Exhausted)?;
		if let Some(id) = id { Lookup::<T>::insert(id, (when, idx)) }
		Self::deposit_event(Event::Scheduled { when, index: idx }); Ok((when, idx))
	}
	fn remove((when, index): (BlockNumberFor<T>, u32)) -> DispatchResult { let t = Agenda::<T>::mutate(when, |a| a.get_mut(index as usize).and_then(|x| x.take())); ensure!(t.is_some(), Error::<T>::NotFound); if let Some(Some(id)) = t.map(|t| t.id) { Lookup::<T>::remove(id) } Self::deposit_event(Event::Canceled { when, index }); Ok(()) }
}
impl<T: Config> schedule::Anon<BlockNumberFor<T>, <T as Config>::RuntimeCall, T::PalletsOrigin> for Pallet<T> {
	type Address = (BlockNumberFor<T>, u32);
	fn schedule(when: DispatchTime<BlockNumberFor<T>>, _: Option<schedule::Period<BlockNumberFor<T>>>, priority: schedule::Priority, origin: T::PalletsOrigin, call: <T as Config>::RuntimeCall) -> Result<Self::Address, DispatchError> { Self::place(Self::resolve(when)?, Scheduled { id: None, priority, call, origin }) }
	fn cancel(a: Self::Address) -> Result<(), ()> { Self::remove(a).map_err(|_| ()) }
	fn reschedule(_: Self::Address, _: DispatchTime<BlockNumberFor<T>>) -> Result<Self::Address, DispatchError> { Err(Error::<T>::NotFound.into()) }
	fn next_dispatch_time(a: Self::Address) -> Result<BlockNumberFor<T>, ()> { Ok(a.0) }
}
impl<T: Config> schedule::Named<BlockNumberFor<T>, <T as Config>::RuntimeCall, T::PalletsOrigin> for Pallet<T> {
	type Address = (BlockNumberFor<T>, u32);
	fn schedule_named(id: Vec<u8>, when: DispatchTime<BlockNumberFor<T>>, _: Option<schedule::Period<BlockNumberFor<T>>>, priority: schedule::Priority, origin: T::PalletsOrigin, call: <T as Config>::RuntimeCall) -> Result<Self::Address, ()> { let n = sp_core::blake2_256(&id); if Lookup::<T>::contains_key(n) { return Err(()) } let w = Self::resolve(when).map_err(|_| ())?; Self::place(w, Scheduled { id: Some(n), priority, call, origin }).map_err(|_| ()) }
	fn cancel_named(id: Vec<u8>) -> Result<(), ()> { let n = sp_core::blake2_256(&id); let a = Lookup::<T>::take(n).ok_or(())?; Self::remove(a).map_err(|_| ()) }
}
