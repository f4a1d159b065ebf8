use super::{*, Precision::*, Preservation::*, Provenance::*, Fortitude::*};
use sp_runtime::{traits::{Bounded, Saturating, CheckedAdd, CheckedSub}, DispatchResult, TokenError, ArithmeticError};
use crate::ensure;
#[allow(unused)] use super::AssetId as AssetIdT;
pub struct Dust<A, T: Inspect<A> + ?Sized>(pub T::Balance);
impl<A, T: Inspect<A> + Unbalanced<A> + ?Sized> Dust<A, T> { pub fn into_credit(self) {} }
pub trait Inspect<A>: Sized {
	type Balance: Balance;
	fn total_issuance() -> Self::Balance;
	fn active_issuance() -> Self::Balance { Self::total_issuance() }
	fn minimum_balance() -> Self::Balance;
	fn total_balance(who: &A) -> Self::Balance;
	fn balance(who: &A) -> Self::Balance;
	fn reducible_balance(who: &A, preservation: Preservation, force: Fortitude) -> Self::Balance;
	fn can_deposit(who: &A, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
	fn can_withdraw(who: &A, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
	
}
pub trait Unbalanced<A>: Inspect<A> {
	fn handle_raw_dust(amount: Self::Balance) { Self::handle_dust(Dust(amount)) }
	fn handle_dust(dust: Dust<A, Self>);
	fn write_balance(who: &A, amount: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
	fn set_total_issuance(amount: Self::Balance);
	fn decrease_balance(who: &A, mut amount: Self::Balance, precision: Precision, preservation: Preservation, force: Fortitude) -> Result<Self::Balance, DispatchError> {
		let old = Self::balance(who);
		let free = Self::reducible_balance(who, preservation, force);
		if let BestEffort = precision { amount = amount.min(free) }
		let new = old.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
		if let Some(dust) = Self::write_balance(who, new)? { Self::handle_dust(Dust(dust)); }
		Ok(old.saturating_sub(new))
	}
	fn increase_balance(who: &A, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
		let old = Self::balance(who);
		let new = if let BestEffort = precision { old.saturating_add(amount) } else { old.checked_add(&amount).ok_or(ArithmeticError::Overflow)? };
		if new < Self::minimum_balance() { if let BestEffort = precision { Ok(Default::default()) } else { Err(TokenError::BelowMinimum.into()) } }
		else if new == old { Ok(Default::default()) } else { if let Some(dust) = Self::write_balance(who, new)? { Self::handle_dust(Dust(dust)); } Ok(new.saturating_sub(old)) }
	}
	fn deactivate(_: Self::Balance) {}
	fn reactivate(_: Self::Balance) {}
}
pub trait Mutate<A>: Inspect<A> + Unbalanced<A> {
	fn mint_into(who: &A, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
		Self::total_issuance().checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::increase_balance(who, amount, Exact)?;
		Self::set_total_issuance(Self::total_issuance().saturating_add(actual));
		Self::done_mint_into(who, amount);
		Ok(actual)
	}
	fn burn_from(who: &A, amount: Self::Balance, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
		let actual = Self::reducible_balance(who, Expendable, force).min(amount);
		ensure!(actual == amount || precision == BestEffort, TokenError::FundsUnavailable);
		Self::total_issuance().checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::decrease_balance(who, actual, BestEffort, Expendable, force)?;
		Self::set_total_issuance(Self::total_issuance().saturating_sub(actual));
		Self::done_burn_from(who, actual);
		Ok(actual)
	}
	fn shelve(who: &A, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
		let actual = Self::reducible_balance(who, Expendable, Polite).min(amount);
		ensure!(actual == amount, TokenError::FundsUnavailable);
		Self::total_issuance().checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::decrease_balance(who, actual, BestEffort, Expendable, Polite)?;
		Self::set_total_issuance(Self::total_issuance().saturating_sub(actual));
		Ok(actual)
	}
	fn restore(who: &A, amount: Self::Balance) -> Result<Self::Balance, DispatchError> { Self::mint_into(who, amount) }
	fn transfer(source: &A, dest: &A, amount: Self::Balance, preservation: Preservation) -> Result<Self::Balance, DispatchError> {
		let _extra = Self::can_withdraw(source, amount).into_result(preservation != Expendable)?;
		Self::can_deposit(dest, amount, Extant).into_result()?;
		Self::decrease_balance(source, amount, BestEffort, preservation, Polite)?;
		let _ = Self::increase_balance(dest, amount, BestEffort);
		Self::done_transfer(source, dest, amount);
		Ok(amount)
	}
	fn set_balance(who: &A, amount: Self::Balance) -> Self::Balance {
		let b = Self::balance(who);
		if amount > b { let d = amount - b; Self::mint_into(who, d).map(|x| b.saturating_add(x)).unwrap_or(b) } else { let d = b - amount; Self::burn_from(who, d, BestEffort, Force).map(|x| b.saturating_sub(x)).unwrap_or(b) }
	}
	fn done_mint_into(_w: &A, _a: Self::Balance) {}
	fn done_burn_from(_w: &A, _a: Self::Balance) {}
	fn done_shelve(_w: &A, _a: Self::Balance) {}
	fn done_restore(_w: &A, _a: Self::Balance) {}
	fn done_transfer(_s: &A, _d: &A, _a: Self::Balance) {}
}
pub trait Transfer<A>: Mutate<A> {}
pub mod hold {  }
pub mod freeze {}
#[doc(hidden)] pub fn _b<T: Bounded>() -> (T, DispatchResult) { (T::max_value(), Ok(())) }
