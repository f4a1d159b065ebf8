use codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use sp_runtime::{traits::{AtLeast32BitUnsigned, Zero}, ArithmeticError, DispatchError, TokenError};
use std::fmt::Debug;
pub mod imbalance; pub mod fungible; pub mod fungibles;
pub mod nonfungible {} pub mod nonfungibles {} pub mod nonfungibles_v2 {}
pub mod currency { pub use crate::traits::currency::*; }
pub use crate::traits::currency::WithdrawReasons;
#[derive(Copy, Clone, Debug, Eq, PartialEq)] pub enum Precision { Exact, BestEffort }
#[derive(Copy, Clone, Debug, Eq, PartialEq)] pub enum Preservation { Expendable, Protect, Preserve }
#[derive(Copy, Clone, Debug, Eq, PartialEq)] pub enum Fortitude { Polite, Force }
#[derive(Copy, Clone, Debug, Eq, PartialEq)] pub enum Restriction { Free, OnHold }
#[derive(Copy, Clone, Debug, Eq, PartialEq)] pub enum Provenance { Minted, Extant }
#[derive(Copy, Clone, Debug, Eq, PartialEq)] pub enum ExistenceRequirement { KeepAlive, AllowDeath }
#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode, MaxEncodedLen)] pub enum BalanceStatus { Free, Reserved }
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum WithdrawConsequence<Balance> { BalanceLow, WouldDie, UnknownAsset, Underflow, Overflow, Frozen, ReducedToZero(Balance), Success }
impl<B: Zero> WithdrawConsequence<B> { pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError> { use WithdrawConsequence::*; match self { BalanceLow => Err(TokenError::FundsUnavailable.into()), WouldDie => Err(TokenError::OnlyProvider.into()), UnknownAsset => Err(TokenError::UnknownAsset.into()), Underflow => Err(ArithmeticError::Underflow.into()), Overflow => Err(ArithmeticError::Overflow.into()), Frozen => Err(TokenError::Frozen.into()), ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()), ReducedToZero(r) => Ok(r), Success => Ok(Zero::zero()) } } }
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum DepositConsequence { BelowMinimum, CannotCreate, UnknownAsset, Overflow, Success, Blocked }
impl DepositConsequence { pub fn into_result(self) -> Result<(), DispatchError> { use DepositConsequence::*; Err(match self { BelowMinimum => TokenError::BelowMinimum.into(), CannotCreate => TokenError::CannotCreate.into(), UnknownAsset => TokenError::UnknownAsset.into(), Overflow => ArithmeticError::Overflow.into(), Blocked => TokenError::Blocked.into(), Success => return Ok(()) }) } }
pub trait AssetId: FullCodec + Clone + Eq + PartialEq + Debug {} impl<T: FullCodec + Clone + Eq + PartialEq + Debug> AssetId for T {}
pub trait Balance: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + MaxEncodedLen + Send + Sync + 'static {}
impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + MaxEncodedLen + Send + Sync + 'static> Balance for T {}
pub trait ConversionToAssetBalance<I, A, O> { type Error; fn to_asset_balance(b: I, a: A) -> Result<O, Self::Error>; }
