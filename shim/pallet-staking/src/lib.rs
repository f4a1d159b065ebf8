//! Stand-in for `pallet-staking`: only the types other pallets name.
#![allow(clippy::all)]
use frame_support::pallet_prelude::*;
use frame_system::pallet_prelude::*;
pub use pallet::*;
pub type RewardPoint = u32;
pub type BalanceOf<T> = <T as Config>::CurrencyBalance;
pub trait EraPayout<Balance> { fn era_payout(total_staked: Balance, total_issuance: Balance, era_duration_millis: u64) -> (Balance, Balance); }
pub struct ConvertCurve<T>(core::marker::PhantomData<T>);
pub struct UseValidatorsMap<T>(core::marker::PhantomData<T>);
pub struct UseNominatorsAndValidatorsMap<T>(core::marker::PhantomData<T>);
pub struct TestBenchmarkingConfig;
pub trait WeightInfo {} impl WeightInfo for () {}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum RewardDestination<A> { Staked, Stash, Controller, Account(A), None }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum Forcing { NotForcing, ForceNew, ForceNone, ForceAlways }
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type MaxNominations; type Currency; type UnixTime; type CurrencyToVote; type RewardRemainder; type Slash; type Reward; type SessionsPerEra; type SlashDeferDuration; type BondingDuration; type SessionInterface; type EraPayout; type NextNewSession; type MaxNominatorRewardedPerValidator; type OffendingValidatorsThreshold; type ElectionProvider; type GenesisElectionProvider; type VoterList; type MaxUnlockingChunks; type HistoryDepth; type TargetList; type BenchmarkingConfig; type AdminOrigin; type EventListeners;
		type CurrencyBalance: frame_support::traits::tokens::Balance + From<u64> + sp_runtime::FixedPointOperand;
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type WeightInfo;
	}
	#[pallet::pallet] pub struct Pallet<T>(_);
	#[pallet::event] #[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> { Bonded { stash: T::AccountId } }
	#[pallet::error] pub enum Error<T> { Unsupported }
	/// Index and start of the active era.
	#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen, Default)] pub struct ActiveEraInfo { pub index: u32, pub start: Option<u64> }
	#[pallet::storage] #[pallet::getter(fn active_era)] pub type ActiveEra<T: Config> = StorageValue<_, ActiveEraInfo, OptionQuery>;
	#[pallet::storage] #[pallet::getter(fn eras_start_session_index)] pub type ErasStartSessionIndex<T: Config> = StorageMap<_, Twox64Concat, u32, u32, OptionQuery>;
	#[pallet::storage] #[pallet::getter(fn force_era)] pub type ForceEra<T: Config> = StorageValue<_, Forcing, ValueQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)] #[pallet::weight(Weight::zero())]
		pub fn bond(origin: OriginFor<T>, #[pallet::compact] _value: u128, _payee: RewardDestination<T::AccountId>) -> DispatchResult { let stash = ensure_signed(origin)?; Self::deposit_event(Event::Bonded { stash }); Ok(()) }
		#[pallet::call_index(18)] #[pallet::weight(Weight::zero())]
		pub fn payout_stakers(origin: OriginFor<T>, _validator_stash: T::AccountId, _era: u32) -> DispatchResult { ensure_signed(origin)?; Ok(()) }
	}
}
impl Default for Forcing { fn default() -> Self { Forcing::NotForcing } }
pub struct StashOf<T>(core::marker::PhantomData<T>);
