#![allow(unused_comparisons)]
use crate::{mul_div, traits::*, Rounding};
use codec::{HasCompact, Decode, Encode, MaxEncodedLen};
use std::{fmt::Debug, ops::*};

pub trait RationalArg: Clone + Ord + Zero + UniqueSaturatedInto<u128> {}
impl<T: Clone + Ord + Zero + UniqueSaturatedInto<u128>> RationalArg for T {}
pub trait PerThing: Sized + Saturating + Copy + Default + Eq + PartialEq + Ord + PartialOrd + Bounded + Debug + Div<Output = Self> + Mul<Output = Self> {
	type Inner: BaseArithmetic + Unsigned + Copy + Into<u128> + Debug; type Upper;
	const ACCURACY: Self::Inner;
	fn zero() -> Self { Self::from_parts(Self::Inner::zero()) } fn one() -> Self { Self::from_parts(Self::ACCURACY) }
	fn is_zero(&self) -> bool { self.deconstruct() == Self::Inner::zero() } fn is_one(&self) -> bool { self.deconstruct() == Self::ACCURACY }
	fn from_parts(p: Self::Inner) -> Self; fn deconstruct(self) -> Self::Inner;
	fn from_percent(x: Self::Inner) -> Self { let a: u128 = x.into(); Self::from_rational(a.min(100), 100u128) }
	fn from_rational<N: RationalArg>(p: N, q: N) -> Self { Self::from_rational_with_rounding(p, q, Rounding::Down).unwrap_or_else(|_| Self::one()) }
	fn from_rational_with_rounding<N: RationalArg>(p: N, q: N, r: Rounding) -> Result<Self, ()> {
		if q.is_zero() || p > q { return Err(()) }
		let (p, q): (u128, u128) = (p.unique_saturated_into(), q.unique_saturated_into());
		let acc: u128 = Self::ACCURACY.into();
		let factor = mul_div(q, 1, acc, Rounding::Up).ok_or(())?.max(1);
		let (qr, pr) = (mul_div(q, 1, factor, r).ok_or(())?, mul_div(p, 1, factor, r).ok_or(())?);
		Ok(Self::from_parts(mul_div(pr, acc, qr, r).ok_or(())?.try_into().map_err(|_| ())?))
	}
	fn left_from_one(self) -> Self { Self::one().saturating_sub(self) }
	fn square(self) -> Self { self * self }
	fn mul_floor<N: RationalArg + UniqueSaturatedFrom<u128>>(self, b: N) -> N { N::unique_saturated_from(mul_div(b.unique_saturated_into(), self.deconstruct().into(), Self::ACCURACY.into(), Rounding::Down).unwrap_or(u128::MAX)) }
	fn mul_ceil<N: RationalArg + UniqueSaturatedFrom<u128>>(self, b: N) -> N { N::unique_saturated_from(mul_div(b.unique_saturated_into(), self.deconstruct().into(), Self::ACCURACY.into(), Rounding::Up).unwrap_or(u128::MAX)) }
	fn saturating_reciprocal_mul<N: RationalArg + UniqueSaturatedFrom<u128>>(self, b: N) -> N { N::unique_saturated_from(mul_div(b.unique_saturated_into(), Self::ACCURACY.into(), self.deconstruct().into(), Rounding::NearestPrefUp).unwrap_or(u128::MAX)) }
	fn saturating_reciprocal_mul_floor<N: RationalArg + UniqueSaturatedFrom<u128>>(self, b: N) -> N { N::unique_saturated_from(mul_div(b.unique_saturated_into(), Self::ACCURACY.into(), self.deconstruct().into(), Rounding::Down).unwrap_or(u128::MAX)) }
}
macro_rules! perthing { ($N:ident, $t:ty, $u:ty, $acc:expr) => {
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Hash, Encode, Decode, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
	pub struct $N($t);
	impl Debug for $N { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}({}/{})", stringify!($N), self.0, <Self as PerThing>::ACCURACY) } }
	impl PerThing for $N { type Inner = $t; type Upper = $u; const ACCURACY: $t = $acc; fn from_parts(p: $t) -> Self { $N(p.min($acc)) } fn deconstruct(self) -> $t { self.0 } }
	impl $N {
		pub const fn from_parts(p: $t) -> Self { if p > $acc { $N($acc) } else { $N(p) } }
		pub const fn from_percent(x: $t) -> Self { Self((if x > 100 { 100u128 } else { x as u128 } * $acc / 100) as $t) }
		pub const fn from_perthousand(x: $t) -> Self where { let x = x as u128; Self((if x > 1000 { 1000 } else { x } * $acc / 1000) as $t) }
		pub fn from_float(x: f64) -> Self { let a: $t = $acc; Self((x.max(0.).min(1.) * (a as f64)) as $t) }
		pub const fn zero() -> Self { $N(0) } pub const fn one() -> Self { $N($acc) }
		pub const fn is_zero(&self) -> bool { self.0 == 0 } pub const fn is_one(&self) -> bool { self.0 == $acc }
		pub const fn deconstruct(self) -> $t { self.0 }
		pub fn square(self) -> Self { PerThing::square(self) } pub fn left_from_one(self) -> Self { PerThing::left_from_one(self) }
		pub fn from_rational<N: RationalArg>(p: N, q: N) -> Self { <Self as PerThing>::from_rational(p, q) }
		pub fn from_rational_with_rounding<N: RationalArg>(p: N, q: N, r: Rounding) -> Result<Self, ()> { <Self as PerThing>::from_rational_with_rounding(p, q, r) }
		pub fn mul_floor<N: RationalArg + UniqueSaturatedFrom<u128>>(self, b: N) -> N { PerThing::mul_floor(self, b) }
		pub fn mul_ceil<N: RationalArg + UniqueSaturatedFrom<u128>>(self, b: N) -> N { PerThing::mul_ceil(self, b) }
		pub fn saturating_reciprocal_mul<N: RationalArg + UniqueSaturatedFrom<u128>>(self, b: N) -> N { PerThing::saturating_reciprocal_mul(self, b) }
		pub fn saturating_reciprocal_mul_floor<N: RationalArg + UniqueSaturatedFrom<u128>>(self, b: N) -> N { PerThing::saturating_reciprocal_mul_floor(self, b) }
		pub fn saturating_add(self, o: Self) -> Self { Saturating::saturating_add(self, o) } pub fn saturating_sub(self, o: Self) -> Self { Saturating::saturating_sub(self, o) } pub fn saturating_mul(self, o: Self) -> Self { Saturating::saturating_mul(self, o) }
		pub fn checked_add(&self, o: &Self) -> Option<Self> { self.0.checked_add(o.0).filter(|x| *x <= $acc).map(Self) }
	}
	impl Saturating for $N { fn saturating_add(self, o: Self) -> Self { Self::from_parts(self.0.saturating_add(o.0)) } fn saturating_sub(self, o: Self) -> Self { Self(self.0.saturating_sub(o.0)) } fn saturating_mul(self, o: Self) -> Self { self * o } fn saturating_pow(self, e: usize) -> Self { let mut r = Self::one(); for _ in 0..e { r = r * self } r } }
	impl Bounded for $N { fn min_value() -> Self { Self::zero() } fn max_value() -> Self { Self::one() } }
	impl Mul for $N { type Output = Self; fn mul(self, o: Self) -> Self { Self(mul_div(self.0 as u128, o.0 as u128, $acc, Rounding::Down).unwrap() as $t) } }
	impl Div for $N { type Output = Self; fn div(self, o: Self) -> Self { <Self as PerThing>::from_rational(self.0, o.0) } }
	impl Add for $N { type Output = Self; fn add(self, o: Self) -> Self { Self(self.0 + o.0) } }
	impl Sub for $N { type Output = Self; fn sub(self, o: Self) -> Self { Self(self.0 - o.0) } }
	impl CheckedAdd for $N { fn checked_add(&self, o: &Self) -> Option<Self> { self.0.checked_add(o.0).filter(|x| *x <= $acc).map(Self) } }
	impl CheckedSub for $N { fn checked_sub(&self, o: &Self) -> Option<Self> { self.0.checked_sub(o.0).map(Self) } }
	impl HasCompact for $N { type Type = codec::Compact<$N>; fn compact_encode_to<W: codec::Output + ?Sized>(&self, d: &mut W) { self.0.compact_encode_to(d) } fn compact_decode<I: codec::Input>(i: &mut I) -> Result<Self, codec::Error> { let x = <$t as HasCompact>::compact_decode(i)?; Ok(Self::from_parts(x)) } fn compact_max() -> usize { <$t as HasCompact>::compact_max() } }
	impl From<codec::Compact<$N>> for $N { fn from(x: codec::Compact<$N>) -> $N { x.0 } }
	impl<N: Clone + Unsigned + UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>> Mul<N> for $N { type Output = N; fn mul(self, b: N) -> N { N::unique_saturated_from(mul_div(b.unique_saturated_into(), self.0 as u128, $acc, Rounding::NearestPrefDown).unwrap_or(u128::MAX)) } }
}; }
perthing!(Percent, u8, u16, 100);
perthing!(PerU16, u16, u32, 65535);
perthing!(Permill, u32, u64, 1_000_000);
perthing!(Perbill, u32, u64, 1_000_000_000);
perthing!(Perquintill, u64, u128, 1_000_000_000_000_000_000);
