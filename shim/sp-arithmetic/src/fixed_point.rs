use crate::{mul_div, traits::*, PerThing, Rounding};
use codec::{HasCompact, Decode, Encode, MaxEncodedLen};
use std::{fmt::Debug, ops::*};
pub trait FixedPointOperand: Copy + Clone + Bounded + Zero + Saturating + PartialOrd<Self> + UniqueSaturatedInto<u128> + TryFrom<u128> + CheckedNeg2 {}
impl<T: Copy + Clone + Bounded + Zero + Saturating + PartialOrd<T> + UniqueSaturatedInto<u128> + TryFrom<u128>> FixedPointOperand for T {}
pub trait CheckedNeg2 {} impl<T> CheckedNeg2 for T {}
pub trait FixedPointNumber: Sized + Copy + Default + Debug + Saturating + Bounded + Eq + PartialEq + Ord + PartialOrd + CheckedSub + CheckedAdd + CheckedMul + CheckedDiv + Add + Sub + Div + Mul + Zero + One {
	type Inner: Debug + One + Copy; const DIV: Self::Inner; const SIGNED: bool;
	fn accuracy() -> Self::Inner { <Self as FixedPointNumber>::DIV }
	fn from_inner(i: Self::Inner) -> Self; fn into_inner(self) -> Self::Inner;
	fn saturating_from_integer<N: FixedPointOperand>(n: N) -> Self;
	fn checked_from_integer<N: Into<Self::Inner>>(n: N) -> Option<Self>;
	fn saturating_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Self { if d.is_zero() { panic!("attempt to divide by zero") } Self::checked_from_rational(n, d).unwrap_or_else(Self::max_value) }
	fn checked_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Option<Self>;
	fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N>;
	fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N { self.checked_mul_int(n).unwrap_or_else(N::max_value) }
	fn checked_div_int<N: FixedPointOperand>(self, d: N) -> Option<N>;
	fn saturating_div_int<N: FixedPointOperand>(self, d: N) -> N { if d.is_zero() { panic!("attempt to divide by zero") } self.checked_div_int(d).unwrap_or_else(N::max_value) }
	fn reciprocal(self) -> Option<Self> { Self::one().checked_div(&self) }
}
macro_rules! fixed { ($N:ident, $t:ty, $div:expr) => {
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Hash, Encode, Decode, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
	pub struct $N($t);
	impl Debug for $N { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}({}.{:018})", stringify!($N), self.0 / <Self as FixedPointNumber>::DIV, self.0 % <Self as FixedPointNumber>::DIV) } }
	impl std::fmt::Display for $N { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
	impl $N {
		pub const DIV: $t = $div;
		pub const fn from_inner(i: $t) -> Self { Self(i) } pub const fn into_inner(self) -> $t { self.0 }
		pub const fn from_u32(n: u32) -> Self { Self(n as $t * $div) }
		pub fn from_float(x: f64) -> Self { Self((x * <Self as FixedPointNumber>::DIV as f64) as $t) } pub fn to_float(self) -> f64 { self.0 as f64 / <Self as FixedPointNumber>::DIV as f64 }
		pub fn from_rational(a: u128, b: u128) -> Self { Self::from_rational_with_rounding(a, b, Rounding::NearestPrefDown) }
		pub fn from_rational_with_rounding(a: u128, b: u128, r: Rounding) -> Self { if b == 0 { panic!("attempt to divide by zero in from_rational") } mul_div((<Self as FixedPointNumber>::DIV as u128), a, b, r).and_then(|x| x.try_into().ok()).map(Self).unwrap_or(Self(<$t>::MAX)) }
		pub fn saturating_add(self, o: Self) -> Self { Saturating::saturating_add(self, o) } pub fn saturating_sub(self, o: Self) -> Self { Saturating::saturating_sub(self, o) } pub fn saturating_mul(self, o: Self) -> Self { Saturating::saturating_mul(self, o) }
		pub fn from_perbill(p: crate::Perbill) -> Self { Self((p.deconstruct() as u128 * (<Self as FixedPointNumber>::DIV as u128) / 1_000_000_000) as $t) }
	}
	impl FixedPointNumber for $N {
		type Inner = $t; const DIV: $t = $div; const SIGNED: bool = false;
		fn from_inner(i: $t) -> Self { Self(i) } fn into_inner(self) -> $t { self.0 }
		fn saturating_from_integer<N: FixedPointOperand>(n: N) -> Self { let n: u128 = n.unique_saturated_into(); Self(n.saturating_mul((<Self as FixedPointNumber>::DIV as u128)).try_into().unwrap_or(<$t>::MAX)) }
		fn checked_from_integer<N: Into<$t>>(n: N) -> Option<Self> { n.into().checked_mul($div).map(Self) }
		fn checked_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Option<Self> { mul_div(n.unique_saturated_into(), (<Self as FixedPointNumber>::DIV as u128), d.unique_saturated_into(), Rounding::Down).and_then(|x| x.try_into().ok()).map(Self) }
		fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N> { mul_div(self.0 as u128, n.unique_saturated_into(), (<Self as FixedPointNumber>::DIV as u128), Rounding::Down).and_then(|x| N::try_from(x).ok()) }
		fn checked_div_int<N: FixedPointOperand>(self, d: N) -> Option<N> { let d: u128 = d.unique_saturated_into(); (self.0 as u128).checked_div(d.checked_mul((<Self as FixedPointNumber>::DIV as u128))?).and_then(|x| N::try_from(x).ok()) }
	}
	impl Saturating for $N { fn saturating_add(self, o: Self) -> Self { Self(self.0.saturating_add(o.0)) } fn saturating_sub(self, o: Self) -> Self { Self(self.0.saturating_sub(o.0)) } fn saturating_mul(self, o: Self) -> Self { self.checked_mul(&o).unwrap_or(Self(<$t>::MAX)) } fn saturating_pow(self, e: usize) -> Self { let mut r = Self::one(); for _ in 0..e { r = Saturating::saturating_mul(r, self) } r } }
	impl Bounded for $N { fn min_value() -> Self { Self(0) } fn max_value() -> Self { Self(<$t>::MAX) } }
	impl Zero for $N { fn zero() -> Self { Self(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
	impl One for $N { fn one() -> Self { Self($div) } }
	impl Add for $N { type Output = Self; fn add(self, o: Self) -> Self { Self(self.0 + o.0) } } impl Sub for $N { type Output = Self; fn sub(self, o: Self) -> Self { Self(self.0 - o.0) } }
	impl Mul for $N { type Output = Self; fn mul(self, o: Self) -> Self { self.checked_mul(&o).expect("attempt to multiply with overflow") } } impl Div for $N { type Output = Self; fn div(self, o: Self) -> Self { self.checked_div(&o).expect("attempt to divide by zero or overflow") } }
	impl CheckedAdd for $N { fn checked_add(&self, o: &Self) -> Option<Self> { self.0.checked_add(o.0).map(Self) } } impl CheckedSub for $N { fn checked_sub(&self, o: &Self) -> Option<Self> { self.0.checked_sub(o.0).map(Self) } }
	impl CheckedMul for $N { fn checked_mul(&self, o: &Self) -> Option<Self> { mul_div(self.0 as u128, o.0 as u128, (<Self as FixedPointNumber>::DIV as u128), Rounding::Down).and_then(|x| x.try_into().ok()).map(Self) } }
	impl CheckedDiv for $N { fn checked_div(&self, o: &Self) -> Option<Self> { mul_div(self.0 as u128, (<Self as FixedPointNumber>::DIV as u128), o.0 as u128, Rounding::Down).and_then(|x| x.try_into().ok()).map(Self) } }
	impl<P: PerThing> From<P> for $N { fn from(p: P) -> Self { let a: u128 = P::ACCURACY.into(); let v: u128 = p.deconstruct().into(); Self::from_rational(v, a) } }
	impl HasCompact for $N { type Type = codec::Compact<$N>; fn compact_encode_to<W: codec::Output + ?Sized>(&self, d: &mut W) { self.0.compact_encode_to(d) } fn compact_decode<I: codec::Input>(i: &mut I) -> Result<Self, codec::Error> { let x = <$t as HasCompact>::compact_decode(i)?; Ok(Self(x)) } fn compact_max() -> usize { <$t as HasCompact>::compact_max() } }
	impl From<codec::Compact<$N>> for $N { fn from(x: codec::Compact<$N>) -> $N { x.0 } }
}; }
fixed!(FixedU128, u128, 1_000_000_000_000_000_000);
fixed!(FixedU64, u64, 1_000_000_000);
