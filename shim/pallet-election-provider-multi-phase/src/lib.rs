//! Stand-in: the slash handler only names the currency.
pub trait Config: frame_system::Config { type Currency: frame_support::traits::Currency<Self::AccountId>; }
