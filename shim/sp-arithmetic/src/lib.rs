//! Stand-in for `sp-arithmetic`.
pub mod traits;
pub mod per_things;
pub mod fixed_point;
pub use fixed_point::*;
pub use per_things::*;
pub use traits::*;
use codec::{Decode, Encode, MaxEncodedLen};
use primitive_types::U256;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum ArithmeticError { Underflow, Overflow, DivisionByZero }
impl From<ArithmeticError> for &'static str { fn from(e: ArithmeticError) -> &'static str { match e { ArithmeticError::Underflow => "An underflow would occur", ArithmeticError::Overflow => "An overflow would occur", ArithmeticError::DivisionByZero => "Division by zero" } } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rounding { Up, Down, NearestPrefUp, NearestPrefDown }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SignedRounding { Low, High, NearestPrefLow, NearestPrefHigh, Major, Minor, NearestPrefMajor, NearestPrefMinor }
/// a * b / c, exactly, with the given rounding; `None` on division by zero or overflow of u128.
pub fn mul_div(a: u128, b: u128, c: u128, r: Rounding) -> Option<u128> {
	if c == 0 { return None }
	let (q, m) = U256::from(a).full_mul_u128(b).div_mod(U256::from(c));
	let m = m.as_u128();
	let up = match r { Rounding::Down => false, Rounding::Up => m > 0, Rounding::NearestPrefUp => m >= c - m, Rounding::NearestPrefDown => m > c - m };
	let q = if up { q + U256::from(1u8) } else { q };
	u128::try_from(q).ok()
}
trait FullMul { fn full_mul_u128(self, b: u128) -> U256; }
impl FullMul for U256 { fn full_mul_u128(self, b: u128) -> U256 { self * U256::from(b) } }
pub mod helpers_128bit {
	use super::*;
	pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: Rounding) -> Option<u128> { mul_div(a, b, c, r) }
	pub fn sqrt(n: u128) -> u128 { U256::from(n).integer_sqrt().as_u128() }
	pub fn gcd(a: u128, b: u128) -> u128 { if b == 0 { a } else { gcd(b, a % b) } }
}
pub use helpers_128bit::multiply_by_rational_with_rounding;
#[macro_export]
macro_rules! assert_eq_error_rate { ($x:expr, $y:expr, $error:expr $(,)?) => { assert!(($x >= $crate::traits::Saturating::saturating_sub($y, $error)) && ($x <= $crate::traits::Saturating::saturating_add($y, $error)), "{:?} != {:?} (with error rate {:?})", $x, $y, $error) }; }
