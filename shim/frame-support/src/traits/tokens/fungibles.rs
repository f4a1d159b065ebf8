use super::{*, Precision::*, Preservation::*, Provenance::*, Fortitude::*};
use sp_runtime::{traits::{Bounded, Saturating, CheckedAdd, CheckedSub}, DispatchResult, TokenError, ArithmeticError};
use crate::ensure;
#[allow(unused)] use super::AssetId as AssetIdT;
pub struct Dust<A, T: Inspect<A> + ?Sized>(pub T::AssetId, pub T::Balance);
impl<A, T: Inspect<A> + Unbalanced<A> + ?Sized> Dust<A, T> { pub fn into_credit(self) {} }
pub trait Inspect<A>: Sized {
	type AssetId: AssetIdT; type Balance: Balance;
	fn total_issuance(asset: Self::AssetId) -> Self::Balance;
	fn active_issuance(asset: Self::AssetId) -> Self::Balance { Self::total_issuance(asset) }
	fn minimum_balance(asset: Self::AssetId) -> Self::Balance;
	fn total_balance(asset: Self::AssetId, who: &A) -> Self::Balance;
	fn balance(asset: Self::AssetId, who: &A) -> Self::Balance;
	fn reducible_balance(asset: Self::AssetId, who: &A, preservation: Preservation, force: Fortitude) -> Self::Balance;
	fn can_deposit(asset: Self::AssetId, who: &A, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
	fn can_withdraw(asset: Self::AssetId, who: &A, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
	fn asset_exists(asset: Self::AssetId) -> bool;
}
pub trait Unbalanced<A>: Inspect<A> {
	fn handle_raw_dust(asset: Self::AssetId, amount: Self::Balance) { Self::handle_dust(Dust(asset.clone(), amount)) }
	fn handle_dust(dust: Dust<A, Self>);
	fn write_balance(asset: Self::AssetId, who: &A, amount: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
	fn set_total_issuance(asset: Self::AssetId, amount: Self::Balance);
	fn decrease_balance(asset: Self::AssetId, who: &A, mut amount: Self::Balance, precision: Precision, preservation: Preservation, force: Fortitude) -> Result<Self::Balance, DispatchError> {
		let old = Self::balance(asset.clone(), who);
		let free = Self::reducible_balance(asset.clone(), who, preservation, force);
		if let BestEffort = precision { amount = amount.min(free) }
		let new = old.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
		if let Some(dust) = Self::write_balance(asset.clone(), who, new)? { Self::handle_dust(Dust(asset.clone(), dust)); }
		Ok(old.saturating_sub(new))
	}
	fn increase_balance(asset: Self::AssetId, who: &A, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
		let old = Self::balance(asset.clone(), who);
		let new = if let BestEffort = precision { old.saturating_add(amount) } else { old.checked_add(&amount).ok_or(ArithmeticError::Overflow)? };
		if new < Self::minimum_balance(asset.clone()) { if let BestEffort = precision { Ok(Default::default()) } else { Err(TokenError::BelowMinimum.into()) } }
		else if new == old { Ok(Default::default()) } else { if let Some(dust) = Self::write_balance(asset.clone(), who, new)? { Self::handle_dust(Dust(asset.clone(), dust)); } Ok(new.saturating_sub(old)) }
	}
	fn deactivate(_: Self::AssetId, _: Self::Balance) {}
	fn reactivate(_: Self::AssetId, _: Self::Balance) {}
}
pub trait Mutate<A>: Inspect<A> + Unbalanced<A> {
	fn mint_into(asset: Self::AssetId, who: &A, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
		Self::total_issuance(asset.clone()).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::increase_balance(asset.clone(), who, amount, Exact)?;
		Self::set_total_issuance(asset.clone(), Self::total_issuance(asset.clone()).saturating_add(actual));
		Self::done_mint_into(asset.clone(), who, amount);
		Ok(actual)
	}
	fn burn_from(asset: Self::AssetId, who: &A, amount: Self::Balance, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
		let actual = Self::reducible_balance(asset.clone(), who, Expendable, force).min(amount);
		ensure!(actual == amount || precision == BestEffort, TokenError::FundsUnavailable);
		Self::total_issuance(asset.clone()).checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::decrease_balance(asset.clone(), who, actual, BestEffort, Expendable, force)?;
		Self::set_total_issuance(asset.clone(), Self::total_issuance(asset.clone()).saturating_sub(actual));
		Self::done_burn_from(asset.clone(), who, actual);
		Ok(actual)
	}
	fn shelve(asset: Self::AssetId, who: &A, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
		let actual = Self::reducible_balance(asset.clone(), who, Expendable, Polite).min(amount);
		ensure!(actual == amount, TokenError::FundsUnavailable);
		Self::total_issuance(asset.clone()).checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::decrease_balance(asset.clone(), who, actual, BestEffort, Expendable, Polite)?;
		Self::set_total_issuance(asset.clone(), Self::total_issuance(asset.clone()).saturating_sub(actual));
		Ok(actual)
	}
	fn restore(asset: Self::AssetId, who: &A, amount: Self::Balance) -> Result<Self::Balance, DispatchError> { Self::mint_into(asset, who, amount) }
	fn transfer(asset: Self::AssetId, source: &A, dest: &A, amount: Self::Balance, preservation: Preservation) -> Result<Self::Balance, DispatchError> {
		let _extra = Self::can_withdraw(asset.clone(), source, amount).into_result(preservation != Expendable)?;
		Self::can_deposit(asset.clone(), dest, amount, Extant).into_result()?;
		Self::decrease_balance(asset.clone(), source, amount, BestEffort, preservation, Polite)?;
		let _ = Self::increase_balance(asset.clone(), dest, amount, BestEffort);
		Self::done_transfer(asset, source, dest, amount);
		Ok(amount)
	}
	fn set_balance(asset: Self::AssetId, who: &A, amount: Self::Balance) -> Self::Balance {
		let b = Self::balance(asset.clone(), who);
		if amount > b { let d = amount - b; Self::mint_into(asset, who, d).map(|x| b.saturating_add(x)).unwrap_or(b) } else { let d = b - amount; Self::burn_from(asset, who, d, BestEffort, Force).map(|x| b.saturating_sub(x)).unwrap_or(b) }
	}
	fn done_mint_into(_: Self::AssetId, _w: &A, _a: Self::Balance) {}
	fn done_burn_from(_: Self::AssetId, _w: &A, _a: Self::Balance) {}
	fn done_shelve(_: Self::AssetId, _w: &A, _a: Self::Balance) {}
	fn done_restore(_: Self::AssetId, _w: &A, _a: Self::Balance) {}
	fn done_transfer(_: Self::AssetId, _s: &A, _d: &A, _a: Self::Balance) {}
}
pub trait Transfer<A>: Mutate<A> {}
pub mod hold {  }
pub mod freeze {}
#[doc(hidden)] pub fn _b<T: Bounded>() -> (T, DispatchResult) { (T::max_value(), Ok(())) }

pub mod metadata { use super::*; pub trait Inspect<A>: super::Inspect<A> { fn name(asset: Self::AssetId) -> Vec<u8>; fn symbol(asset: Self::AssetId) -> Vec<u8>; fn decimals(asset: Self::AssetId) -> u8; } pub trait Mutate<A>: Inspect<A> { fn set(asset: Self::AssetId, from: &A, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult; } pub trait MetadataDeposit<B> { fn calc_metadata_deposit(name: &[u8], symbol: &[u8]) -> B; } }
pub mod roles { pub trait Inspect<A>: super::Inspect<A> { fn owner(asset: Self::AssetId) -> Option<A>; fn issuer(asset: Self::AssetId) -> Option<A>; fn admin(asset: Self::AssetId) -> Option<A>; fn freezer(asset: Self::AssetId) -> Option<A>; } }
pub mod approvals { use super::*; pub trait Inspect<A>: super::Inspect<A> { fn allowance(asset: Self::AssetId, owner: &A, delegate: &A) -> Self::Balance; } pub trait Mutate<A>: Inspect<A> { fn approve(asset: Self::AssetId, owner: &A, delegate: &A, amount: Self::Balance) -> DispatchResult; fn transfer_from(asset: Self::AssetId, owner: &A, delegate: &A, dest: &A, amount: Self::Balance) -> DispatchResult; } }
pub trait Create<A>: Inspect<A> { fn create(id: Self::AssetId, admin: A, is_sufficient: bool, min_balance: Self::Balance) -> DispatchResult; }
pub trait Destroy<A>: Inspect<A> {}
pub use metadata::Inspect as InspectMetadata; pub use roles::Inspect as InspectRole;
