//! Traits pallets share.
use crate::dispatch::{DispatchResultWithPostInfo, RawOrigin};
use codec::{Codec, Decode, Encode, FullCodec, MaxEncodedLen};
use sp_runtime::{traits::BadOrigin, DispatchError, DispatchResult};
use sp_weights::Weight;
use std::{collections::BTreeSet, marker::PhantomData};
pub use sp_core::{ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, bounded::TryCollect, TypedGet};
pub mod currency; pub mod tokens; pub mod hooks; pub mod members; pub mod misc;
pub use currency::*; pub use hooks::*; pub use members::*; pub use misc::*;
pub use tokens::{fungible, fungibles, nonfungible, nonfungibles, BalanceStatus, ExistenceRequirement, WithdrawReasons};
pub use tokens::imbalance::{Imbalance, OnUnbalanced, SameOrOther, SignedImbalance, TryDrop, TryMerge};
pub mod schedule;

pub trait StorageInstance { fn pallet_prefix() -> &'static str; const STORAGE_PREFIX: &'static str; const COUNTER_PREFIX: &'static str = "";
	fn pallet_prefix_hash() -> [u8; 16] { sp_io::hashing::twox_128(Self::pallet_prefix().as_bytes()) } fn storage_prefix_hash() -> [u8; 16] { sp_io::hashing::twox_128(Self::STORAGE_PREFIX.as_bytes()) } fn prefix_hash() -> [u8; 32] { crate::storage::storage_prefix(Self::pallet_prefix().as_bytes(), Self::STORAGE_PREFIX.as_bytes()) } }
#[derive(Clone, Debug, PartialEq, Eq, Default, Encode, Decode)] pub struct StorageInfo { pub pallet_name: Vec<u8>, pub storage_name: Vec<u8>, pub prefix: Vec<u8>, pub max_values: Option<u32>, pub max_size: Option<u32> }
pub trait StorageInfoTrait { fn storage_info() -> Vec<StorageInfo>; }
pub trait Instance: 'static { const PREFIX: &'static str; const INDEX: u8 = 0; }
impl Instance for () { const PREFIX: &'static str = ""; }
pub trait PalletInfo { fn index<P: 'static>() -> Option<usize>; fn name<P: 'static>() -> Option<&'static str>; fn name_hash<P: 'static>() -> Option<[u8; 16]>; fn module_name<P: 'static>() -> Option<&'static str>; fn crate_version<P: 'static>() -> Option<CrateVersion>; }
#[derive(Debug, Eq, PartialEq, Encode, Clone, Copy, Default, PartialOrd, Ord)] pub struct CrateVersion { pub major: u16, pub minor: u8, pub patch: u8 }
impl CrateVersion { pub const fn new(major: u16, minor: u8, patch: u8) -> Self { Self { major, minor, patch } } }
#[derive(Debug, Eq, PartialEq, Clone, Copy)] pub struct PalletInfoData { pub index: usize, pub name: &'static str, pub module_name: &'static str, pub crate_version: CrateVersion }
pub trait PalletInfoAccess { fn index() -> usize; fn name() -> &'static str; fn name_hash() -> [u8; 16]; fn module_name() -> &'static str; fn crate_version() -> CrateVersion; }
pub trait PalletsInfoAccess { fn infos() -> Vec<PalletInfoData> { vec![] } }
pub const STORAGE_VERSION_STORAGE_KEY_POSTFIX: &[u8] = b":__STORAGE_VERSION__:";
#[derive(Debug, Eq, PartialEq, Encode, Decode, Ord, Clone, Copy, PartialOrd, Default)] pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(n: u16) -> Self { Self(n) }
	pub fn storage_key<P: PalletInfoAccess>() -> [u8; 32] { crate::storage::storage_prefix(P::name().as_bytes(), STORAGE_VERSION_STORAGE_KEY_POSTFIX) }
	pub fn put<P: PalletInfoAccess>(&self) { crate::storage::unhashed::put(&Self::storage_key::<P>(), self) }
	pub fn get<P: PalletInfoAccess>() -> Self { crate::storage::unhashed::get_or_default(&Self::storage_key::<P>()) }
	pub fn exists<P: PalletInfoAccess>() -> bool { crate::storage::unhashed::exists(&Self::storage_key::<P>()) }
}
impl PartialEq<u16> for StorageVersion { fn eq(&self, o: &u16) -> bool { self.0 == *o } } impl PartialOrd<u16> for StorageVersion { fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> { Some(self.0.cmp(o)) } }
impl std::ops::Add<u16> for StorageVersion { type Output = Self; fn add(self, r: u16) -> Self { Self(self.0 + r) } } impl std::ops::Sub<u16> for StorageVersion { type Output = Self; fn sub(self, r: u16) -> Self { Self(self.0 - r) } }
impl std::fmt::Display for StorageVersion { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
#[derive(Debug, Default)] pub struct NoStorageVersionSet;
pub trait GetStorageVersion { type CurrentStorageVersion; fn current_storage_version() -> Self::CurrentStorageVersion; fn on_chain_storage_version() -> StorageVersion; }
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug)] pub struct CallMetadata { pub function_name: &'static str, pub pallet_name: &'static str }
pub trait GetCallName { fn get_call_names() -> &'static [&'static str]; fn get_call_name(&self) -> &'static str; }
pub trait GetCallIndex { fn get_call_indices() -> &'static [u8]; fn get_call_index(&self) -> u8; }
pub trait GetCallMetadata { fn get_module_names() -> &'static [&'static str]; fn get_call_names(module: &str) -> &'static [&'static str]; fn get_call_metadata(&self) -> CallMetadata; }
pub trait UnfilteredDispatchable { type RuntimeOrigin; fn dispatch_bypass_filter(self, o: Self::RuntimeOrigin) -> DispatchResultWithPostInfo; }
pub trait IsSubType<T> { fn is_sub_type(&self) -> Option<&T>; }
pub trait IsType<T>: Into<T> + From<T> { fn from_ref(t: &T) -> &Self; fn into_ref(&self) -> &T; fn from_mut(t: &mut T) -> &mut Self; fn into_mut(&mut self) -> &mut T; }
impl<T> IsType<T> for T { fn from_ref(t: &T) -> &Self { t } fn into_ref(&self) -> &T { self } fn from_mut(t: &mut T) -> &mut Self { t } fn into_mut(&mut self) -> &mut T { self } }
pub trait ExtrinsicCall: sp_runtime::traits::Extrinsic { fn call(&self) -> &Self::Call; }
impl<A, C, S, E: sp_runtime::traits::SignedExtension> ExtrinsicCall for sp_runtime::generic::UncheckedExtrinsic<A, C, S, E> { fn call(&self) -> &C { &self.function } }
pub trait EstimateCallFee<Call, Balance> { fn estimate_call_fee(call: &Call, post_info: crate::dispatch::PostDispatchInfo) -> Balance; }

// --- origins
pub trait CallerTrait<A>: Parameter2 + From<RawOrigin<A>> { fn into_system(self) -> Option<RawOrigin<A>>; fn as_system_ref(&self) -> Option<&RawOrigin<A>>; fn as_signed(&self) -> Option<&A> { self.as_system_ref().and_then(RawOrigin::as_signed) } fn is_root(&self) -> bool { self.as_system_ref().map_or(false, |o| matches!(o, RawOrigin::Root)) } fn is_none(&self) -> bool { self.as_system_ref().map_or(false, |o| matches!(o, RawOrigin::None)) } }
#[doc(hidden)] pub trait Parameter2: Codec + Clone + Eq + std::fmt::Debug {} impl<T: Codec + Clone + Eq + std::fmt::Debug> Parameter2 for T {}
pub trait OriginTrait: Sized {
	type Call; type PalletsOrigin: Send + Sync + Into<Self> + CallerTrait<Self::AccountId> + MaxEncodedLen; type AccountId;
	fn add_filter(&mut self, f: impl Fn(&Self::Call) -> bool + 'static); fn reset_filter(&mut self); fn set_caller_from(&mut self, o: impl Into<Self>); fn set_caller(&mut self, c: Self::PalletsOrigin);
	fn filter_call(&self, c: &Self::Call) -> bool; fn caller(&self) -> &Self::PalletsOrigin; fn into_caller(self) -> Self::PalletsOrigin;
	fn try_with_caller<R>(self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self>;
	fn none() -> Self; fn root() -> Self; fn signed(by: Self::AccountId) -> Self;
	fn as_signed(self) -> Option<Self::AccountId>; fn into_signer(self) -> Option<Self::AccountId>; fn as_system_ref(&self) -> Option<&RawOrigin<Self::AccountId>>;
	fn as_signer(&self) -> Option<&Self::AccountId> { self.as_system_ref().and_then(|s| if let RawOrigin::Signed(w) = s { Some(w) } else { None }) }
}
pub trait EnsureOrigin<O> { type Success; fn try_origin(o: O) -> Result<Self::Success, O>; fn ensure_origin(o: O) -> Result<Self::Success, BadOrigin> { Self::try_origin(o).map_err(|_| BadOrigin) } }
pub trait EnsureOriginWithArg<O, A> { type Success; fn try_origin(o: O, a: &A) -> Result<Self::Success, O>; fn ensure_origin(o: O, a: &A) -> Result<Self::Success, BadOrigin> { Self::try_origin(o, a).map_err(|_| BadOrigin) } }
pub struct AsEnsureOriginWithArg<E>(PhantomData<E>);
impl<O, A, E: EnsureOrigin<O>> EnsureOriginWithArg<O, A> for AsEnsureOriginWithArg<E> { type Success = E::Success; fn try_origin(o: O, _: &A) -> Result<E::Success, O> { E::try_origin(o) } }
pub struct NeverEnsureOrigin<S>(PhantomData<S>); impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> { type Success = S; fn try_origin(o: O) -> Result<S, O> { Err(o) } }
pub enum Either<L, R> { Left(L), Right(R) }
pub struct EitherOf<L, R>(PhantomData<(L, R)>); impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O, Success = L::Success>> EnsureOrigin<O> for EitherOf<L, R> { type Success = L::Success; fn try_origin(o: O) -> Result<L::Success, O> { L::try_origin(o).or_else(R::try_origin) } }
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>); impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> { type Success = Either<L::Success, R::Success>; fn try_origin(o: O) -> Result<Self::Success, O> { L::try_origin(o).map_or_else(|o| R::try_origin(o).map(Either::Right), |x| Ok(Either::Left(x))) } }
pub struct MapSuccess<E, M>(PhantomData<(E, M)>);

pub trait Contains<T> { fn contains(t: &T) -> bool; }
pub struct Everything; impl<T> Contains<T> for Everything { fn contains(_: &T) -> bool { true } }
pub struct Nothing; impl<T> Contains<T> for Nothing { fn contains(_: &T) -> bool { false } }
pub struct EverythingBut<E>(PhantomData<E>); impl<T, E: Contains<T>> Contains<T> for EverythingBut<E> { fn contains(t: &T) -> bool { !E::contains(t) } }
pub struct InsideBoth<A, B>(PhantomData<(A, B)>); impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> { fn contains(t: &T) -> bool { A::contains(t) && B::contains(t) } }
pub struct TheseExcept<A, B>(PhantomData<(A, B)>); impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for TheseExcept<A, B> { fn contains(t: &T) -> bool { A::contains(t) && !B::contains(t) } }
pub struct IsInVec<T>(PhantomData<T>); impl<X: Eq, T: Get<Vec<X>>> Contains<X> for IsInVec<T> { fn contains(t: &X) -> bool { T::get().contains(t) } }
impl<X: PartialEq, T: Get<Vec<X>>> SortedMembers<X> for IsInVec<T> where X: Ord { fn sorted_members() -> Vec<X> { let mut r = T::get(); r.sort(); r } }
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for (A, B) { fn contains(t: &T) -> bool { A::contains(t) || B::contains(t) } }
impl<T, A: Contains<T>, B: Contains<T>, C: Contains<T>> Contains<T> for (A, B, C) { fn contains(t: &T) -> bool { A::contains(t) || B::contains(t) || C::contains(t) } }
pub trait ContainsPair<A, B> { fn contains(a: &A, b: &B) -> bool; }
pub trait InstanceFilter<T>: Sized + Send + Sync { fn filter(&self, i: &T) -> bool; fn is_superset(&self, _o: &Self) -> bool { false } }
impl<T> InstanceFilter<T> for () { fn filter(&self, _: &T) -> bool { true } fn is_superset(&self, _: &Self) -> bool { true } }
pub trait SortedMembers<T: Ord> { fn contains(t: &T) -> bool { Self::sorted_members().binary_search(t).is_ok() } fn sorted_members() -> Vec<T>; fn count() -> usize { Self::sorted_members().len() } }
pub trait StoredMap<K, T: Default> { fn get(k: &K) -> T; fn try_mutate_exists<R, E: From<DispatchError>>(k: &K, f: impl FnOnce(&mut Option<T>) -> Result<R, E>) -> Result<R, E>;
	fn mutate<R>(k: &K, f: impl FnOnce(&mut T) -> R) -> Result<R, DispatchError> { Self::mutate_exists(k, |m| match m { Some(x) => f(x), x => { let mut d = Default::default(); let r = f(&mut d); *x = Some(d); r } }) }
	fn mutate_exists<R>(k: &K, f: impl FnOnce(&mut Option<T>) -> R) -> Result<R, DispatchError> { Self::try_mutate_exists(k, |x| -> Result<R, DispatchError> { Ok(f(x)) }) }
	fn insert(k: &K, t: T) -> DispatchResult { Self::mutate(k, |i| *i = t) } fn remove(k: &K) -> DispatchResult { Self::mutate_exists(k, |x| *x = None) } }
pub trait HandleLifetime<T> { fn created(_t: &T) -> DispatchResult { Ok(()) } fn killed(_t: &T) -> DispatchResult { Ok(()) } } impl<T> HandleLifetime<T> for () {}
pub trait OnNewAccount<A> { fn on_new_account(who: &A); } pub trait OnKilledAccount<A> { fn on_killed_account(who: &A); }
impl<A> OnNewAccount<A> for () { fn on_new_account(_: &A) {} } impl<A> OnKilledAccount<A> for () { fn on_killed_account(_: &A) {} }
macro_rules! acct { ($($n:ident)+) => { impl<AA, $($n: OnNewAccount<AA>),+> OnNewAccount<AA> for ($($n,)+) { fn on_new_account(w: &AA) { $( $n::on_new_account(w); )+ } } impl<AA, $($n: OnKilledAccount<AA>),+> OnKilledAccount<AA> for ($($n,)+) { fn on_killed_account(w: &AA) { $( $n::on_killed_account(w); )+ } } } }
acct!(A); acct!(A B); acct!(A B C); acct!(A B C D);
#[doc(hidden)] pub fn _bs(_: BTreeSet<u8>, _: Weight) where u8: FullCodec {}
