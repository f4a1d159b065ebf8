#![allow(warnings)]
// The repository's runtime, assembled on the stand-in crates: everything below the marker is copied from
// runtime/src/lib.rs by tools/genrt.py, and impls.rs, constants.rs, precompiles.rs are the repository's own files.
extern crate alloc;
pub struct Preimage;
pub const VERSION: sp_version::RuntimeVersion = sp_version::RuntimeVersion { spec_name: sp_runtime::RuntimeString::Borrowed("root"), impl_name: sp_runtime::RuntimeString::Borrowed("root"), authoring_version: 1, spec_version: 63, impl_version: 0, transaction_version: 13, state_version: 0 };
frame_support::parameter_types! {
	pub const Version: sp_version::RuntimeVersion = VERSION;
	pub RuntimeBlockLength: frame_system::limits::BlockLength = Default::default();
	pub RuntimeBlockWeights: frame_system::limits::BlockWeights = Default::default();
}
/// block author and slot source
pub struct Babe;
thread_local! { pub static AUTHOR: std::cell::Cell<u32> = std::cell::Cell::new(0); }
impl frame_support::traits::FindAuthor<u32> for Babe { fn find_author<'a, I: 'a + IntoIterator<Item = (sp_runtime::ConsensusEngineId, &'a [u8])>>(_: I) -> Option<u32> { Some(AUTHOR.with(|a| a.get())) } }
impl<M> frame_support::traits::OnTimestampSet<M> for Babe { fn on_timestamp_set(_: M) {} }
/// the validator set as the bridge sees it
pub struct Historical;
impl frame_support::traits::ValidatorSet<seed_primitives::AccountId> for Historical { type ValidatorId = seed_primitives::AccountId; type ValidatorIdOf = sp_runtime::traits::ConvertInto; fn session_index() -> u32 { Session::current_index() } fn validators() -> Vec<seed_primitives::AccountId> { Session::validators() } }
impl pallet_session::Config for Runtime { type ValidatorId = seed_primitives::AccountId; }
impl pallet_staking::Config for Runtime {
	type MaxNominations = (); type Currency = Balances; type UnixTime = (); type CurrencyToVote = (); type RewardRemainder = (); type Slash = (); type Reward = (); type SessionsPerEra = (); type SlashDeferDuration = (); type BondingDuration = (); type SessionInterface = (); type EraPayout = (); type NextNewSession = (); type MaxNominatorRewardedPerValidator = (); type OffendingValidatorsThreshold = (); type ElectionProvider = (); type GenesisElectionProvider = (); type VoterList = (); type TargetList = (); type MaxUnlockingChunks = (); type BenchmarkingConfig = (); type HistoryDepth = (); type EventListeners = (); type AdminOrigin = ();
	type CurrencyBalance = Balance; type RuntimeEvent = RuntimeEvent; type WeightInfo = ();
}
impl pallet_im_online::Config for Runtime {}
impl pallet_election_provider_multi_phase::Config for Runtime { type Currency = Balances; }
/// what an upgrade to this runtime runs before its first block
pub fn upgrade() -> frame_support::weights::Weight { <migrations::AllMigrations as frame_support::traits::OnRuntimeUpgrade>::on_runtime_upgrade() }
pub mod weights {
	pub trait Unit { type Out; } impl<T> Unit for T { type Out = (); }
	macro_rules! unit { ($($m:ident)*) => { $( pub mod $m { pub type WeightInfo<T> = <T as super::Unit>::Out; } )* } }
	unit! { @EXTERNAL@ }
	@WEIGHTS@
}
