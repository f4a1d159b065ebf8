use super::*;
use sp_runtime::traits::{Saturating};
pub type Period<B> = (B, u32); pub type Priority = u8;
pub const HIGHEST_PRIORITY: Priority = 0; pub const HARD_DEADLINE: Priority = 63; pub const LOWEST_PRIORITY: Priority = 255;
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug)] pub enum DispatchTime<B> { At(B), After(B) }
impl<B: Saturating + Copy> DispatchTime<B> { pub fn evaluate(&self, since: B) -> B { match &self { Self::At(m) => *m, Self::After(m) => m.saturating_add(since) } } }
pub type LookupError = ();
#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug)] pub enum MaybeHashed<T, H> { Value(T), Hash(H) }
pub mod v1 {}
pub mod v3 {}
pub trait Anon<BlockNumber, Call, RuntimeOrigin> { type Address: Codec + Clone + Eq + codec::EncodeLike + std::fmt::Debug; fn schedule(when: DispatchTime<BlockNumber>, p: Option<Period<BlockNumber>>, pr: Priority, o: RuntimeOrigin, c: Call) -> Result<Self::Address, DispatchError>; fn cancel(a: Self::Address) -> Result<(), ()>; fn reschedule(a: Self::Address, w: DispatchTime<BlockNumber>) -> Result<Self::Address, DispatchError>; fn next_dispatch_time(a: Self::Address) -> Result<BlockNumber, ()>; }
pub trait Named<BlockNumber, Call, RuntimeOrigin> { type Address: Codec + Clone + Eq + codec::EncodeLike + std::fmt::Debug; fn schedule_named(id: Vec<u8>, when: DispatchTime<BlockNumber>, p: Option<Period<BlockNumber>>, pr: Priority, o: RuntimeOrigin, c: Call) -> Result<Self::Address, ()>; fn cancel_named(id: Vec<u8>) -> Result<(), ()>; }
