use super::tokens::{imbalance::*, Balance, BalanceStatus, ExistenceRequirement};
use codec::{Decode, Encode, MaxEncodedLen};
use sp_runtime::{traits::{MaybeSerializeDeserialize, Zero}, DispatchError, DispatchResult};
use std::ops::BitOr;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen)] pub struct WithdrawReasons(u8);
#[allow(non_upper_case_globals)]
impl WithdrawReasons { pub const TRANSACTION_PAYMENT: Self = Self(1); pub const TRANSFER: Self = Self(2); pub const RESERVE: Self = Self(4); pub const FEE: Self = Self(8); pub const TIP: Self = Self(16);
	pub const fn all() -> Self { Self(31) } pub const fn empty() -> Self { Self(0) } pub const fn bits(&self) -> u8 { self.0 } pub fn except(one: Self) -> Self { Self(31 & !one.0) } pub fn contains(&self, o: Self) -> bool { self.0 & o.0 == o.0 } pub fn intersects(&self, o: Self) -> bool { self.0 & o.0 != 0 } pub fn is_empty(&self) -> bool { self.0 == 0 } pub fn insert(&mut self, o: Self) { self.0 |= o.0 } }
impl BitOr for WithdrawReasons { type Output = Self; fn bitor(self, o: Self) -> Self { Self(self.0 | o.0) } }
pub trait Currency<A> {
	type Balance: Balance + MaybeSerializeDeserialize; type PositiveImbalance: Imbalance<Self::Balance, Opposite = Self::NegativeImbalance>; type NegativeImbalance: Imbalance<Self::Balance, Opposite = Self::PositiveImbalance>;
	fn total_balance(who: &A) -> Self::Balance; fn can_slash(who: &A, v: Self::Balance) -> bool; fn total_issuance() -> Self::Balance; fn active_issuance() -> Self::Balance { Self::total_issuance() } fn deactivate(_: Self::Balance) {} fn reactivate(_: Self::Balance) {} fn minimum_balance() -> Self::Balance;
	fn burn(a: Self::Balance) -> Self::PositiveImbalance; fn issue(a: Self::Balance) -> Self::NegativeImbalance;
	fn pair(a: Self::Balance) -> (Self::PositiveImbalance, Self::NegativeImbalance) { (Self::burn(a), Self::issue(a)) }
	fn free_balance(who: &A) -> Self::Balance;
	fn ensure_can_withdraw(who: &A, a: Self::Balance, r: WithdrawReasons, n: Self::Balance) -> DispatchResult;
	fn transfer(s: &A, d: &A, v: Self::Balance, e: ExistenceRequirement) -> DispatchResult;
	fn slash(who: &A, v: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
	fn deposit_into_existing(who: &A, v: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError>;
	fn resolve_into_existing(who: &A, v: Self::NegativeImbalance) -> Result<(), Self::NegativeImbalance> { let a = v.peek(); match Self::deposit_into_existing(who, a) { Ok(o) => Ok(drop(v.offset(o))), _ => Err(v) } }
	fn deposit_creating(who: &A, v: Self::Balance) -> Self::PositiveImbalance;
	fn resolve_creating(who: &A, v: Self::NegativeImbalance) { let a = v.peek(); drop(v.offset(Self::deposit_creating(who, a))); }
	fn withdraw(who: &A, v: Self::Balance, r: WithdrawReasons, l: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError>;
	fn settle(who: &A, v: Self::PositiveImbalance, r: WithdrawReasons, l: ExistenceRequirement) -> Result<(), Self::PositiveImbalance> { let a = v.peek(); match Self::withdraw(who, a, r, l) { Ok(o) => Ok(drop(v.offset(o))), _ => Err(v) } }
	fn make_free_balance_be(who: &A, b: Self::Balance) -> SignedImbalance<Self::Balance, Self::PositiveImbalance>;
}
pub trait ReservableCurrency<A>: Currency<A> {
	fn can_reserve(who: &A, v: Self::Balance) -> bool; fn slash_reserved(who: &A, v: Self::Balance) -> (Self::NegativeImbalance, Self::Balance); fn reserved_balance(who: &A) -> Self::Balance; fn reserve(who: &A, v: Self::Balance) -> DispatchResult; fn unreserve(who: &A, v: Self::Balance) -> Self::Balance; fn repatriate_reserved(s: &A, b: &A, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>; }
pub trait NamedReservableCurrency<A>: ReservableCurrency<A> { type ReserveIdentifier: codec::Encode + PartialEq; fn reserved_balance_named(id: &Self::ReserveIdentifier, who: &A) -> Self::Balance; fn reserve_named(id: &Self::ReserveIdentifier, who: &A, v: Self::Balance) -> DispatchResult; fn unreserve_named(id: &Self::ReserveIdentifier, who: &A, v: Self::Balance) -> Self::Balance; }
#[doc(hidden)] pub fn _z<T: Zero>() -> T { T::zero() }
