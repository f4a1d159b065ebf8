//! Stand-in for `sp-staking`.
pub type SessionIndex = u32;
pub type EraIndex = u32;
pub mod currency_to_vote {
	pub trait CurrencyToVote<B> { fn to_vote(v: B, i: B) -> u64; }
	pub struct SaturatingCurrencyToVote; pub struct U128CurrencyToVote;
}
pub mod offence { pub trait ReportOffence<R, O, F> { fn report(_: O) -> Result<(), ()>; } }
