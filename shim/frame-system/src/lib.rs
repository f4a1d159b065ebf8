//! Stand-in for `frame-system`.
#![allow(clippy::all)]
extern crate self as frame_system;
use codec::{Codec, Decode, Encode, EncodeLike, FullCodec, MaxEncodedLen};
use frame_support::{dispatch::*, pallet_prelude::*, traits::*, weights::{RuntimeDbWeight, Weight}, Parameter};
pub use frame_support::dispatch::RawOrigin;
use sp_runtime::{generic, traits::{self, *, Lookup as _}};
use std::fmt::Debug;
pub use pallet::*;
pub mod limits; pub mod mocking; pub mod offchain; pub mod ext;
pub use ext::*;
pub mod weights { pub trait WeightInfo {} impl WeightInfo for () {} pub struct SubstrateWeight<T>(std::marker::PhantomData<T>); impl<T> WeightInfo for SubstrateWeight<T> {} }
pub use weights::WeightInfo;
pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;
pub type Digest = generic::Digest;
pub type RefCount = u32;
pub type ConsumedWeight = PerDispatchClass<Weight>;
pub mod pallet_prelude { pub use crate::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root}; pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin; pub type HeaderFor<T> = <<T as crate::Config>::Block as sp_runtime::traits::HeaderProvider>::HeaderT; pub type BlockNumberFor<T> = <HeaderFor<T> as sp_runtime::traits::Header>::Number; pub type ExtrinsicFor<T> = <<T as crate::Config>::Block as sp_runtime::traits::Block>::Extrinsic; pub type RuntimeCallFor<T> = <T as crate::Config>::RuntimeCall; }
use pallet_prelude::{HeaderFor, OriginFor, BlockNumberFor, ExtrinsicFor};
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, MaxEncodedLen)] pub struct AccountInfo<Nonce, AccountData> { pub nonce: Nonce, pub consumers: RefCount, pub providers: RefCount, pub sufficients: RefCount, pub data: AccountData }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, Default)] pub enum Phase { ApplyExtrinsic(u32), Finalization, #[default] Initialization }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug)] pub struct EventRecord<E: Parameter + Member, T> { pub phase: Phase, pub event: E, pub topics: Vec<T> }
#[derive(Debug, Encode, Decode, Default, Eq, PartialEq)] pub struct LastRuntimeUpgradeInfo { pub spec_version: u32, pub spec_name: sp_runtime::RuntimeString }
#[derive(Eq, PartialEq, Debug)] pub enum RefStatus { Referenced, Unreferenced }
#[derive(Eq, PartialEq, Debug)] pub enum IncRefStatus { Created, Existed }
#[derive(Eq, PartialEq, Debug)] pub enum DecRefStatus { Reaped, Exists }
pub type IncRefError = (); pub type DecRefError = DispatchError;
pub trait SetCode<T: Config> { fn set_code(c: Vec<u8>) -> DispatchResult; } impl<T: Config> SetCode<T> for () { fn set_code(c: Vec<u8>) -> DispatchResult { frame_support::storage::unhashed::put_raw(b":code", &c); Pallet::<T>::deposit_event(Event::CodeUpdated); Ok(()) } }
pub trait ConsumerLimits { fn max_consumers() -> RefCount; fn max_overflow() -> RefCount; }
impl<const Z: u32> ConsumerLimits for ConstU32<Z> { fn max_consumers() -> u32 { Z } fn max_overflow() -> u32 { Z } }
impl<A: Get<u32>, B: Get<u32>> ConsumerLimits for (A, B) { fn max_consumers() -> u32 { A::get() } fn max_overflow() -> u32 { B::get() } }
pub use sp_version::RuntimeVersion;
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: 'static + Eq + Clone {
		type BaseCallFilter: Contains<Self::RuntimeCall>; type BlockWeights: Get<limits::BlockWeights>; type BlockLength: Get<limits::BlockLength>;
		type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>> + From<RawOrigin<Self::AccountId>> + Clone + OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId> + Debug;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + Debug + From<Call<Self>>;
		type Nonce: Parameter + Member + MaybeSerializeDeserialize + Debug + Default + std::fmt::Display + AtLeast32Bit + Copy + MaxEncodedLen;
		type Hash: Parameter + Member + MaybeSerializeDeserialize + Debug + std::fmt::Display + SimpleBitOps + Ord + Default + Copy + CheckEqual + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + MaxEncodedLen;
		type Hashing: Hash<Output = Self::Hash>;
		type AccountId: Parameter + Member + MaybeSerializeDeserialize + Debug + traits::MaybeDisplay2 + Ord + MaxEncodedLen;
		type Lookup: StaticLookup<Target = Self::AccountId>; type Block: Parameter + Member + traits::Block<Hash = Self::Hash>;
		type RuntimeEvent: Parameter + Member + From<Event<Self>> + Debug + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type BlockHashCount: Get<BlockNumberFor<Self>>; type DbWeight: Get<RuntimeDbWeight>; type Version: Get<RuntimeVersion>; type PalletInfo: PalletInfo;
		type AccountData: Member + FullCodec + Clone + Default + MaxEncodedLen; type OnNewAccount: OnNewAccount<Self::AccountId>; type OnKilledAccount: OnKilledAccount<Self::AccountId>; type SystemWeightInfo; type SS58Prefix; type OnSetCode: SetCode<Self>; type MaxConsumers: ConsumerLimits;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)] #[pallet::weight(Weight::from_parts(2_000_000, 0))] pub fn remark(_origin: OriginFor<T>, _remark: Vec<u8>) -> DispatchResultWithPostInfo { Ok(().into()) }
		#[pallet::call_index(1)] #[pallet::weight((Weight::from_parts(2_000_000, 0), DispatchClass::Operational))] pub fn set_heap_pages(origin: OriginFor<T>, pages: u64) -> DispatchResultWithPostInfo { ensure_root(origin)?; frame_support::storage::unhashed::put_raw(b":heappages", &pages.encode()); Ok(().into()) }
		#[pallet::call_index(2)] #[pallet::weight((Weight::from_parts(2_000_000, 0), DispatchClass::Operational))] pub fn set_code(origin: OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo { ensure_root(origin)?; T::OnSetCode::set_code(code)?; Ok(().into()) }
		#[pallet::call_index(3)] #[pallet::weight((Weight::from_parts(2_000_000, 0), DispatchClass::Operational))] pub fn set_code_without_checks(origin: OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo { ensure_root(origin)?; T::OnSetCode::set_code(code)?; Ok(().into()) }
		#[pallet::call_index(4)] #[pallet::weight((Weight::from_parts(2_000_000, 0), DispatchClass::Operational))] pub fn set_storage(origin: OriginFor<T>, items: Vec<(Vec<u8>, Vec<u8>)>) -> DispatchResultWithPostInfo { ensure_root(origin)?; for (k, v) in items { frame_support::storage::unhashed::put_raw(&k, &v) } Ok(().into()) }
		#[pallet::call_index(5)] #[pallet::weight((Weight::from_parts(2_000_000, 0), DispatchClass::Operational))] pub fn kill_storage(origin: OriginFor<T>, keys: Vec<Vec<u8>>) -> DispatchResultWithPostInfo { ensure_root(origin)?; for k in keys { frame_support::storage::unhashed::kill(&k) } Ok(().into()) }
		#[pallet::call_index(6)] #[pallet::weight((Weight::from_parts(2_000_000, 0), DispatchClass::Operational))] pub fn kill_prefix(origin: OriginFor<T>, prefix: Vec<u8>, subkeys: u32) -> DispatchResultWithPostInfo { ensure_root(origin)?; let _ = frame_support::storage::unhashed::clear_prefix(&prefix, Some(subkeys), None); Ok(().into()) }
		#[pallet::call_index(7)] #[pallet::weight(Weight::from_parts(2_000_000, 0))] pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo { let who = ensure_signed(origin)?; let hash = T::Hashing::hash(&remark[..]); Self::deposit_event(Event::Remarked { sender: who, hash }); Ok(().into()) }
	}
	#[pallet::event]
	pub enum Event<T: Config> { ExtrinsicSuccess { dispatch_info: DispatchInfo }, ExtrinsicFailed { dispatch_error: DispatchError, dispatch_info: DispatchInfo }, CodeUpdated, NewAccount { account: T::AccountId }, KilledAccount { account: T::AccountId }, Remarked { sender: T::AccountId, hash: T::Hash } }
	#[pallet::error]
	pub enum Error<T> { InvalidSpecName, SpecVersionNeedsToIncrease, FailedToExtractRuntimeVersion, NonDefaultComposite, NonZeroRefCount, CallFiltered }
	#[pallet::storage] pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
	#[pallet::storage] pub type ExtrinsicCount<T: Config> = StorageValue<_, u32>;
	#[pallet::storage] #[pallet::getter(fn block_weight)] pub type BlockWeight<T: Config> = StorageValue<_, ConsumedWeight, ValueQuery>;
	#[pallet::storage] pub type AllExtrinsicsLen<T: Config> = StorageValue<_, u32>;
	#[pallet::storage] #[pallet::getter(fn block_hash)] pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
	#[pallet::storage] #[pallet::getter(fn block_number)] pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
	#[pallet::storage] #[pallet::getter(fn parent_hash)] pub type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
	#[pallet::storage] #[pallet::getter(fn digest)] pub type DigestS<T: Config> = StorageValue<_, generic::Digest, ValueQuery>;
	#[pallet::storage] pub type Events<T: Config> = StorageValue<_, Vec<EventRecord<T::RuntimeEvent, T::Hash>>, ValueQuery>;
	#[pallet::storage] #[pallet::getter(fn event_count)] pub type EventCount<T: Config> = StorageValue<_, u32, ValueQuery>;
	#[pallet::storage] pub type LastRuntimeUpgrade<T: Config> = StorageValue<_, LastRuntimeUpgradeInfo>;
	#[pallet::storage] pub type ExecutionPhase<T: Config> = StorageValue<_, Phase>;
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> { pub _config: std::marker::PhantomData<T> }
	impl<T: Config> Default for GenesisConfig<T> { fn default() -> Self { Self { _config: Default::default() } } }
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> { fn build(&self) { <BlockHash<T>>::insert::<_, T::Hash>(BlockNumberFor::<T>::zero(), T::Hashing::hash(&[69u8; 32])); <ParentHash<T>>::put::<T::Hash>(T::Hashing::hash(&[69u8; 32])); } }
}
impl<T: Config> GenesisConfig<T> { pub fn build_storage(&self) -> Result<sp_runtime::Storage, String> { sp_runtime::BuildStorage::build_storage(self) } pub fn assimilate_storage(&self, s: &mut sp_runtime::Storage) -> Result<(), String> { sp_runtime::BuildStorage::assimilate_storage(self, s) } }

#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum InitKind { Genesis, Full }
impl<T: Config> Pallet<T> {
	pub fn account(who: &T::AccountId) -> AccountInfo<T::Nonce, T::AccountData> { Account::<T>::get(who) }
	pub fn account_exists(who: &T::AccountId) -> bool { Account::<T>::contains_key(who) }
	pub fn deposit_event(event: impl Into<T::RuntimeEvent>) { Self::deposit_event_indexed(&[], event.into()) }
	pub fn deposit_event_indexed(topics: &[T::Hash], event: T::RuntimeEvent) {
		if Self::block_number().is_zero() { return }
		let phase = ExecutionPhase::<T>::get().unwrap_or_default();
		EventCount::<T>::mutate(|c| *c += 1);
		Events::<T>::append(EventRecord { phase, event, topics: topics.to_vec() });
	}
	pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> { Events::<T>::get() }
	pub fn event_no_consensus(i: usize) -> Option<T::RuntimeEvent> { Self::events().get(i).map(|e| e.event.clone()) }
	pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> { Self::events().into_iter().map(Box::new) }
	pub fn reset_events() { Events::<T>::kill(); EventCount::<T>::kill(); }
	pub fn assert_has_event(event: T::RuntimeEvent) { let ev = Self::events(); assert!(ev.iter().any(|r| r.event == event), "expected event {event:?} not found in events {ev:?}") }
	pub fn assert_last_event(event: T::RuntimeEvent) { let l = Self::events().last().expect("events expected").event.clone(); assert_eq!(l, event, "expected event {event:?} is not equal to the last event {l:?}") }
	pub fn set_block_number(n: BlockNumberFor<T>) { Number::<T>::put(n) }
	pub fn set_parent_hash(n: T::Hash) { ParentHash::<T>::put(n) }
	pub fn set_extrinsic_index(i: u32) { frame_support::storage::unhashed::put(b":extrinsic_index", &i) }
	pub fn extrinsic_index() -> Option<u32> { frame_support::storage::unhashed::get(b":extrinsic_index") }
	pub fn extrinsic_count() -> u32 { ExtrinsicCount::<T>::get().unwrap_or_default() }
	pub fn all_extrinsics_len() -> u32 { AllExtrinsicsLen::<T>::get().unwrap_or_default() }
	pub fn register_extra_weight_unchecked(w: Weight, c: DispatchClass) { BlockWeight::<T>::mutate(|b| b.accrue(w, c)) }
	pub fn set_block_consumed_resources(w: Weight, l: usize) { BlockWeight::<T>::mutate(|b| b.set(w, vec![DispatchClass::Normal])); AllExtrinsicsLen::<T>::put(l as u32) }
	pub fn initialize(number: &BlockNumberFor<T>, parent_hash: &T::Hash, digest: &generic::Digest) {
		ExecutionPhase::<T>::put(Phase::Initialization); Self::set_extrinsic_index(0); Number::<T>::put(number); DigestS::<T>::put(digest); ParentHash::<T>::put(parent_hash);
		BlockHash::<T>::insert(*number - One::one(), parent_hash); BlockWeight::<T>::kill(); }
	pub fn finalize() -> HeaderFor<T> { ExecutionPhase::<T>::kill(); AllExtrinsicsLen::<T>::kill(); <HeaderFor<T> as traits::Header>::new(Self::block_number(), Decode::decode(&mut TrailingZeroInput::zeroes()).unwrap(), Decode::decode(&mut TrailingZeroInput::zeroes()).unwrap(), Decode::decode(&mut &Self::parent_hash().encode()[..]).unwrap(), Self::digest()) }
	pub fn deposit_log(i: generic::DigestItem) { DigestS::<T>::mutate(|d| d.push(i)) }
	pub fn note_finished_initialize() { ExecutionPhase::<T>::put(Phase::ApplyExtrinsic(0)) }
	pub fn note_finished_extrinsics() { ExecutionPhase::<T>::put(Phase::Finalization) }
	pub fn note_extrinsic(_e: Vec<u8>) {}
	pub fn note_applied_extrinsic(r: &DispatchResultWithPostInfo, mut info: DispatchInfo) {
		info.weight = extract_actual_weight(r, &info); info.pays_fee = extract_actual_pays_fee(r, &info);
		Self::deposit_event(match r { Ok(_) => Event::ExtrinsicSuccess { dispatch_info: info }, Err(e) => Event::ExtrinsicFailed { dispatch_error: e.error, dispatch_info: info } });
		let n = Self::extrinsic_index().unwrap_or_default() + 1; Self::set_extrinsic_index(n); ExecutionPhase::<T>::put(Phase::ApplyExtrinsic(n)); }
	pub fn account_nonce(who: impl EncodeLike<T::AccountId>) -> T::Nonce { Account::<T>::get(who).nonce }
	pub fn inc_account_nonce(who: impl EncodeLike<T::AccountId>) { Account::<T>::mutate(who, |a| a.nonce += T::Nonce::one()) }
	fn on_created_account(who: T::AccountId, _a: &mut AccountInfo<T::Nonce, T::AccountData>) { T::OnNewAccount::on_new_account(&who); Self::deposit_event(Event::NewAccount { account: who }) }
	fn on_killed_account(who: T::AccountId) { T::OnKilledAccount::on_killed_account(&who); Self::deposit_event(Event::KilledAccount { account: who }) }
	pub fn inc_providers(who: &T::AccountId) -> IncRefStatus { Account::<T>::mutate(who, |a| if a.providers == 0 && a.sufficients == 0 { a.providers = 1; Self::on_created_account(who.clone(), a); IncRefStatus::Created } else { a.providers = a.providers.saturating_add(1); IncRefStatus::Existed }) }
	pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DecRefError> { Account::<T>::try_mutate_exists(who, |m| { if let Some(mut a) = m.take() { if a.providers == 0 { a.providers = 1 } match (a.providers, a.consumers, a.sufficients) { (1, 0, 0) => { Self::on_killed_account(who.clone()); Ok(DecRefStatus::Reaped) }, (1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining), (x, _, _) => { a.providers = x - 1; *m = Some(a); Ok(DecRefStatus::Exists) } } } else { Ok(DecRefStatus::Reaped) } }) }
	pub fn inc_sufficients(who: &T::AccountId) -> IncRefStatus { Account::<T>::mutate(who, |a| if a.providers + a.sufficients == 0 { a.sufficients = 1; Self::on_created_account(who.clone(), a); IncRefStatus::Created } else { a.sufficients = a.sufficients.saturating_add(1); IncRefStatus::Existed }) }
	pub fn dec_sufficients(who: &T::AccountId) -> DecRefStatus { Account::<T>::mutate_exists(who, |m| { if let Some(mut a) = m.take() { match (a.sufficients, a.providers) { (0, 0) | (1, 0) => { Self::on_killed_account(who.clone()); DecRefStatus::Reaped }, (x, _) => { a.sufficients = x.saturating_sub(1); *m = Some(a); DecRefStatus::Exists } } } else { DecRefStatus::Reaped } }) }
	pub fn providers(who: &T::AccountId) -> RefCount { Account::<T>::get(who).providers }
	pub fn sufficients(who: &T::AccountId) -> RefCount { Account::<T>::get(who).sufficients }
	pub fn consumers(who: &T::AccountId) -> RefCount { Account::<T>::get(who).consumers }
	pub fn reference_count(who: &T::AccountId) -> RefCount { let a = Account::<T>::get(who); a.providers + a.sufficients }
	pub fn inc_consumers(who: &T::AccountId) -> DispatchResult { Account::<T>::try_mutate(who, |a| if a.providers > 0 { if a.consumers < T::MaxConsumers::max_consumers() { a.consumers = a.consumers.saturating_add(1); Ok(()) } else { Err(DispatchError::TooManyConsumers) } } else { Err(DispatchError::NoProviders) }) }
	pub fn inc_consumers_without_limit(who: &T::AccountId) -> DispatchResult { Account::<T>::try_mutate(who, |a| if a.providers > 0 { a.consumers = a.consumers.saturating_add(1); Ok(()) } else { Err(DispatchError::NoProviders) }) }
	pub fn dec_consumers(who: &T::AccountId) { Account::<T>::mutate(who, |a| if a.consumers > 0 { a.consumers -= 1 }) }
	pub fn is_provider_required(who: &T::AccountId) -> bool { Account::<T>::get(who).consumers != 0 }
	pub fn can_dec_provider(who: &T::AccountId) -> bool { let a = Account::<T>::get(who); a.consumers == 0 || a.providers > 1 }
	pub fn can_accrue_consumers(who: &T::AccountId, n: u32) -> bool { let a = Account::<T>::get(who); match a.consumers.checked_add(n) { Some(c) => a.providers > 0 && c <= T::MaxConsumers::max_consumers(), None => false } }
	pub fn can_inc_consumer(who: &T::AccountId) -> bool { Self::can_accrue_consumers(who, 1) }
}
impl<T: Config> Pallet<T> { #[doc(hidden)] pub fn externalities() -> sp_io::TestExternalities { sp_io::TestExternalities::new_empty() } }
impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
	fn get(k: &T::AccountId) -> T::AccountData { Account::<T>::get(k).data }
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>) -> Result<R, E> {
		let account = Account::<T>::get(k);
		let mut d = if account.data == T::AccountData::default() { None } else { Some(account.data) };
		let r = f(&mut d)?;
		if Self::providers(k) > 0 || Self::sufficients(k) > 0 { Account::<T>::mutate(k, |a| a.data = d.unwrap_or_default()) } else { Account::<T>::remove(k) }
		Ok(r)
	}
}
pub struct Provider<T>(std::marker::PhantomData<T>);
impl<T: Config> HandleLifetime<T::AccountId> for Provider<T> { fn created(t: &T::AccountId) -> DispatchResult { Pallet::<T>::inc_providers(t); Ok(()) } fn killed(t: &T::AccountId) -> DispatchResult { Pallet::<T>::dec_providers(t).map(|_| ()) } }
pub struct SelfSufficient<T>(std::marker::PhantomData<T>);
impl<T: Config> HandleLifetime<T::AccountId> for SelfSufficient<T> { fn created(t: &T::AccountId) -> DispatchResult { Pallet::<T>::inc_sufficients(t); Ok(()) } fn killed(t: &T::AccountId) -> DispatchResult { Pallet::<T>::dec_sufficients(t); Ok(()) } }
pub struct Consumer<T>(std::marker::PhantomData<T>);
impl<T: Config> HandleLifetime<T::AccountId> for Consumer<T> { fn created(t: &T::AccountId) -> DispatchResult { Pallet::<T>::inc_consumers(t) } fn killed(t: &T::AccountId) -> DispatchResult { Pallet::<T>::dec_consumers(t); Ok(()) } }
impl<T: Config> BlockNumberProvider for Pallet<T> where BlockNumberFor<T>: EncodeLike + Default { type BlockNumber = BlockNumberFor<T>; fn current_block_number() -> BlockNumberFor<T> { Self::block_number() } }
pub struct ChainContext<T>(std::marker::PhantomData<T>); impl<T> Default for ChainContext<T> { fn default() -> Self { Self(Default::default()) } }
impl<T: Config> traits::Lookup for ChainContext<T> { type Source = <T::Lookup as StaticLookup>::Source; type Target = <T::Lookup as StaticLookup>::Target; fn lookup(&self, s: Self::Source) -> Result<Self::Target, traits::LookupError> { <T::Lookup as StaticLookup>::lookup(s) } }
pub fn ensure_signed<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<A, traits::BadOrigin> { match o.into() { Ok(RawOrigin::Signed(t)) => Ok(t), _ => Err(traits::BadOrigin) } }
pub fn ensure_signed_or_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<Option<A>, traits::BadOrigin> { match o.into() { Ok(RawOrigin::Root) => Ok(None), Ok(RawOrigin::Signed(t)) => Ok(Some(t)), _ => Err(traits::BadOrigin) } }
pub fn ensure_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), traits::BadOrigin> { match o.into() { Ok(RawOrigin::Root) => Ok(()), _ => Err(traits::BadOrigin) } }
pub fn ensure_none<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), traits::BadOrigin> { match o.into() { Ok(RawOrigin::None) => Ok(()), _ => Err(traits::BadOrigin) } }
macro_rules! eo { ($n:ident, $p:pat => $r:expr, $s:ty) => { pub struct $n<A>(std::marker::PhantomData<A>); impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for $n<A> { type Success = $s; fn try_origin(o: O) -> Result<$s, O> { o.into().and_then(|o| match o { $p => Ok($r), r => Err(O::from(r)) }) } } } }
eo!(EnsureRoot, RawOrigin::Root => (), ()); eo!(EnsureSigned, RawOrigin::Signed(w) => w, A); eo!(EnsureNone, RawOrigin::None => (), ());
pub struct EnsureNever<S>(std::marker::PhantomData<S>); impl<O, S> EnsureOrigin<O> for EnsureNever<S> { type Success = S; fn try_origin(o: O) -> Result<S, O> { Err(o) } }
impl<O, S, X> EnsureOriginWithArg<O, X> for EnsureNever<S> { type Success = S; fn try_origin(o: O, _: &X) -> Result<S, O> { Err(o) } }
pub struct EnsureSignedBy<W, A>(std::marker::PhantomData<(W, A)>); impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, W: SortedMembers<A>, A: Ord> EnsureOrigin<O> for EnsureSignedBy<W, A> { type Success = A; fn try_origin(o: O) -> Result<A, O> { o.into().and_then(|o| match o { RawOrigin::Signed(w) if W::contains(&w) => Ok(w), r => Err(O::from(r)) }) } }
#[doc(hidden)] pub fn _u<C: Codec>() {}
