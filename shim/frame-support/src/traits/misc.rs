use super::*;
use sp_runtime::traits::Block as BlockT;
use std::time::Duration;
pub trait Randomness<O, B> { fn random(s: &[u8]) -> (O, B); fn random_seed() -> (O, B) { Self::random(&[]) } }
pub trait FindAuthor<A> { fn find_author<'a, I: 'a + IntoIterator<Item = (sp_runtime::ConsensusEngineId, &'a [u8])>>(d: I) -> Option<A>; }
impl<A> FindAuthor<A> for () { fn find_author<'a, I: 'a + IntoIterator<Item = (sp_runtime::ConsensusEngineId, &'a [u8])>>(_: I) -> Option<A> { None } }
pub trait VerifySeal<H, A> { fn verify_seal(h: &H) -> Result<Option<A>, &'static str>; }
pub trait Time { type Moment; fn now() -> Self::Moment; }
pub trait UnixTime { fn now() -> Duration; }
impl UnixTime for () { fn now() -> Duration { Duration::ZERO } }
pub trait OnTimestampSet<M> { fn on_timestamp_set(m: M); } impl<M> OnTimestampSet<M> for () { fn on_timestamp_set(_: M) {} }
pub trait ValidatorSet<A> { type ValidatorId: Codec + Clone + Eq + std::fmt::Debug + codec::EncodeLike + MaxEncodedLen; type ValidatorIdOf: sp_runtime::traits::Convert<A, Option<Self::ValidatorId>>; fn session_index() -> u32; fn validators() -> Vec<Self::ValidatorId>; }
pub trait ValidatorRegistration<V> { fn is_registered(id: &V) -> bool; }
pub trait OneSessionHandler<V>: sp_runtime::BoundToRuntimeAppPublic { type Key: Decode + sp_runtime::RuntimeAppPublic; fn on_genesis_session<'a, I: 'a + Iterator<Item = (&'a V, Self::Key)>>(v: I) where V: 'a; fn on_new_session<'a, I: 'a + Iterator<Item = (&'a V, Self::Key)>>(changed: bool, v: I, q: I) where V: 'a; fn on_before_session_ending() {} fn on_disabled(i: u32); }
pub trait EstimateNextSessionRotation<B> { fn average_session_length() -> B; }
pub trait KeyOwnerProofSystem<K> { type Proof: Codec; type IdentificationTuple: Codec; fn prove(k: K) -> Option<Self::Proof>; fn check_proof(k: K, p: Self::Proof) -> Option<Self::IdentificationTuple>; }
impl<K> KeyOwnerProofSystem<K> for () { type Proof = (); type IdentificationTuple = (); fn prove(_: K) -> Option<()> { None } fn check_proof(_: K, _: ()) -> Option<()> { None } }
pub trait Lateness<N> { fn lateness(&self) -> N; } impl<N: Default> Lateness<N> for () { fn lateness(&self) -> N { Default::default() } }
pub trait SameOrOther2 {}
pub trait Len { fn len(&self) -> usize; }
pub trait PrivilegeCmp<O> { fn cmp_privilege(l: &O, r: &O) -> Option<std::cmp::Ordering>; }
pub struct EqualPrivilegeOnly; impl<O: PartialEq> PrivilegeCmp<O> for EqualPrivilegeOnly { fn cmp_privilege(l: &O, r: &O) -> Option<std::cmp::Ordering> { (l == r).then_some(std::cmp::Ordering::Equal) } }
pub trait Defensive<T> { fn defensive_unwrap_or(self, o: T) -> T; fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T; fn defensive_unwrap_or_default(self) -> T where T: Default; fn defensive(self) -> Self; fn defensive_proof(self, p: &'static str) -> Self; }
impl<T> Defensive<T> for Option<T> { fn defensive_unwrap_or(self, o: T) -> T { self.unwrap_or(o) } fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T { self.unwrap_or_else(f) } fn defensive_unwrap_or_default(self) -> T where T: Default { self.unwrap_or_default() } fn defensive(self) -> Self { self } fn defensive_proof(self, _: &'static str) -> Self { self } }
impl<T, E: std::fmt::Debug> Defensive<T> for Result<T, E> { fn defensive_unwrap_or(self, o: T) -> T { self.unwrap_or(o) } fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T { self.unwrap_or_else(|_| f()) } fn defensive_unwrap_or_default(self) -> T where T: Default { self.unwrap_or_default() } fn defensive(self) -> Self { self } fn defensive_proof(self, _: &'static str) -> Self { self } }
pub trait DefensiveOption<T> { fn defensive_ok_or<E>(self, e: E) -> Result<T, E>; fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, e: F) -> Result<T, E>; }
impl<T> DefensiveOption<T> for Option<T> { fn defensive_ok_or<E>(self, e: E) -> Result<T, E> { self.ok_or(e) } fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, e: F) -> Result<T, E> { self.ok_or_else(e) } }
pub trait DefensiveResult<T, E> { fn defensive_ok(self) -> Option<T>; } impl<T, E> DefensiveResult<T, E> for Result<T, E> { fn defensive_ok(self) -> Option<T> { self.ok() } }
pub trait DefensiveSaturating { fn defensive_saturating_add(self, o: Self) -> Self; fn defensive_saturating_sub(self, o: Self) -> Self; }
impl<T: sp_runtime::traits::Saturating> DefensiveSaturating for T { fn defensive_saturating_add(self, o: T) -> T { self.saturating_add(o) } fn defensive_saturating_sub(self, o: T) -> T { self.saturating_sub(o) } }
pub trait ExecuteBlock<B: BlockT> { fn execute_block(b: B); }
pub trait OffchainWorker<B> { fn offchain_worker(_n: B) {} }
pub trait LockableCurrency<A>: Currency<A> { type Moment; type MaxLocks: Get<u32>; fn set_lock(id: [u8; 8], who: &A, amount: Self::Balance, r: WithdrawReasons); fn extend_lock(id: [u8; 8], who: &A, amount: Self::Balance, r: WithdrawReasons); fn remove_lock(id: [u8; 8], who: &A); }
pub type LockIdentifier = [u8; 8];
pub trait WrapperKeepOpaqueStub {}
pub trait CallbackStub {}
