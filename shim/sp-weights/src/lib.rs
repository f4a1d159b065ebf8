use codec::{Decode, Encode, MaxEncodedLen};
use sp_arithmetic::{traits::*, Perbill};
use sp_core::Get;
use std::{marker::PhantomData, ops::*};
pub use smallvec;
pub mod constants { pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000; pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000; pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000; pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000; pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024; pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024; }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash, Encode, Decode, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub struct Weight { #[codec(compact)] ref_time: u64, #[codec(compact)] proof_size: u64 }
impl Weight {
	pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self { Self { ref_time, proof_size } }
	pub const fn from_all(x: u64) -> Self { Self { ref_time: x, proof_size: x } }
	pub const fn zero() -> Self { Self::from_parts(0, 0) }
	pub const fn ref_time(&self) -> u64 { self.ref_time } pub const fn proof_size(&self) -> u64 { self.proof_size }
	pub fn ref_time_mut(&mut self) -> &mut u64 { &mut self.ref_time } pub fn proof_size_mut(&mut self) -> &mut u64 { &mut self.proof_size }
	pub const fn set_ref_time(self, x: u64) -> Self { Self { ref_time: x, ..self } } pub const fn set_proof_size(self, x: u64) -> Self { Self { proof_size: x, ..self } }
	pub const fn without_ref_time(&self) -> Self { Self { ref_time: 0, proof_size: self.proof_size } } pub const fn without_proof_size(&self) -> Self { Self { ref_time: self.ref_time, proof_size: 0 } }
	pub const fn saturating_add(self, o: Self) -> Self { Self { ref_time: self.ref_time.saturating_add(o.ref_time), proof_size: self.proof_size.saturating_add(o.proof_size) } }
	pub const fn saturating_sub(self, o: Self) -> Self { Self { ref_time: self.ref_time.saturating_sub(o.ref_time), proof_size: self.proof_size.saturating_sub(o.proof_size) } }
	pub const fn saturating_mul(self, s: u64) -> Self { Self { ref_time: self.ref_time.saturating_mul(s), proof_size: self.proof_size.saturating_mul(s) } }
	pub const fn saturating_div(self, s: u64) -> Self { Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s } }
	pub fn saturating_accrue(&mut self, o: Self) { *self = self.saturating_add(o) } pub fn saturating_reduce(&mut self, o: Self) { *self = self.saturating_sub(o) }
	pub const fn checked_add(&self, o: &Self) -> Option<Self> { match (self.ref_time.checked_add(o.ref_time), self.proof_size.checked_add(o.proof_size)) { (Some(a), Some(b)) => Some(Self::from_parts(a, b)), _ => None } }
	pub const fn checked_sub(&self, o: &Self) -> Option<Self> { match (self.ref_time.checked_sub(o.ref_time), self.proof_size.checked_sub(o.proof_size)) { (Some(a), Some(b)) => Some(Self::from_parts(a, b)), _ => None } }
	pub const fn checked_mul(self, s: u64) -> Option<Self> { match (self.ref_time.checked_mul(s), self.proof_size.checked_mul(s)) { (Some(a), Some(b)) => Some(Self::from_parts(a, b)), _ => None } }
	pub const fn checked_div(self, s: u64) -> Option<Self> { match (self.ref_time.checked_div(s), self.proof_size.checked_div(s)) { (Some(a), Some(b)) => Some(Self::from_parts(a, b)), _ => None } }
	pub fn checked_div_per_component(self, o: &Self) -> Option<u64> { let mut l = u64::MAX; if o.all_zero() { return None } if o.ref_time != 0 { l = l.min(self.ref_time / o.ref_time) } if o.proof_size != 0 { l = l.min(self.proof_size / o.proof_size) } Some(l) }
	pub const fn add_ref_time(self, s: u64) -> Self { Self { ref_time: self.ref_time + s, ..self } } pub const fn sub_ref_time(self, s: u64) -> Self { Self { ref_time: self.ref_time - s, ..self } }
	pub const fn add_proof_size(self, s: u64) -> Self { Self { proof_size: self.proof_size + s, ..self } } pub const fn sub_proof_size(self, s: u64) -> Self { Self { proof_size: self.proof_size - s, ..self } }
	pub const fn div(self, s: u64) -> Self { Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s } } pub const fn mul(self, s: u64) -> Self { Self { ref_time: self.ref_time * s, proof_size: self.proof_size * s } }
	pub fn min(&self, o: Self) -> Self { Self { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) } } pub fn max(&self, o: Self) -> Self { Self { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) } }
	pub const fn any_gt(self, o: Self) -> bool { self.ref_time > o.ref_time || self.proof_size > o.proof_size } pub const fn all_gt(self, o: Self) -> bool { self.ref_time > o.ref_time && self.proof_size > o.proof_size } pub const fn any_gte(self, o: Self) -> bool { self.ref_time >= o.ref_time || self.proof_size >= o.proof_size } pub const fn all_gte(self, o: Self) -> bool { self.ref_time >= o.ref_time && self.proof_size >= o.proof_size }
	pub const fn any_lt(self, o: Self) -> bool { self.ref_time < o.ref_time || self.proof_size < o.proof_size } pub const fn all_lt(self, o: Self) -> bool { self.ref_time < o.ref_time && self.proof_size < o.proof_size } pub const fn any_lte(self, o: Self) -> bool { self.ref_time <= o.ref_time || self.proof_size <= o.proof_size } pub const fn all_lte(self, o: Self) -> bool { self.ref_time <= o.ref_time && self.proof_size <= o.proof_size }
	pub const fn all_zero(&self) -> bool { self.ref_time == 0 && self.proof_size == 0 } pub const fn any_zero(&self) -> bool { self.ref_time == 0 || self.proof_size == 0 }
}
impl Zero for Weight { fn zero() -> Self { Self::zero() } fn is_zero(&self) -> bool { self.all_zero() } }
impl Add for Weight { type Output = Self; fn add(self, o: Self) -> Self { Self { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size } } }
impl Sub for Weight { type Output = Self; fn sub(self, o: Self) -> Self { Self { ref_time: self.ref_time - o.ref_time, proof_size: self.proof_size - o.proof_size } } }
impl AddAssign for Weight { fn add_assign(&mut self, o: Self) { *self = *self + o } } impl SubAssign for Weight { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
macro_rules! wm { ($($t:ty),*) => { $( impl Mul<Weight> for $t { type Output = Weight; fn mul(self, b: Weight) -> Weight { b * self } }  )* } }
wm!(u64);
impl<T> Mul<T> for Weight where T: Mul<u64, Output = u64> + Copy { type Output = Self; fn mul(self, b: T) -> Self { Self { ref_time: b * self.ref_time, proof_size: b * self.proof_size } } }
impl<T> Div<T> for Weight where u64: Div<T, Output = u64>, T: Copy { type Output = Self; fn div(self, b: T) -> Self { Self { ref_time: self.ref_time / b, proof_size: self.proof_size / b } } }
macro_rules! wp { ($($t:ty),*) => { $( impl Mul<Weight> for $t { type Output = Weight; fn mul(self, b: Weight) -> Weight { Weight { ref_time: self * b.ref_time, proof_size: self * b.proof_size } } } )* } }
wp!(sp_arithmetic::Percent, sp_arithmetic::Permill, sp_arithmetic::Perbill, sp_arithmetic::Perquintill);
impl From<u64> for Weight { fn from(x: u64) -> Self { Self::from_parts(x, x) } }
impl From<(u64, u64)> for Weight { fn from(x: (u64, u64)) -> Self { Self::from_parts(x.0, x.1) } }
impl std::fmt::Display for Weight { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Weight(ref_time: {}, proof_size: {})", self.ref_time, self.proof_size) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode)]
pub struct RuntimeDbWeight { pub read: u64, pub write: u64 }
impl RuntimeDbWeight { pub const fn reads(self, n: u64) -> Weight { Weight::from_parts(self.read.saturating_mul(n), 0) } pub const fn writes(self, n: u64) -> Weight { Weight::from_parts(self.write.saturating_mul(n), 0) } pub const fn reads_writes(self, r: u64, w: u64) -> Weight { Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
pub enum OldWeightAlias {} pub type OldWeight = u64;
#[derive(Clone, PartialEq, Eq, Debug)] pub struct WeightMeter { consumed: Weight, limit: Weight }
impl WeightMeter { pub fn from_limit(limit: Weight) -> Self { Self { consumed: Weight::zero(), limit } } pub fn with_limit(limit: Weight) -> Self { Self::from_limit(limit) } pub fn max_limit() -> Self { Self::from_limit(Weight::MAX) } pub fn consumed(&self) -> Weight { self.consumed } pub fn limit(&self) -> Weight { self.limit } pub fn remaining(&self) -> Weight { self.limit.saturating_sub(self.consumed) } pub fn try_consume(&mut self, w: Weight) -> Result<(), ()> { let n = self.consumed.checked_add(&w).ok_or(())?; if n.any_gt(self.limit) { Err(()) } else { self.consumed = n; Ok(()) } } pub fn can_consume(&self, w: Weight) -> bool { self.consumed.checked_add(&w).map_or(false, |t| t.all_lte(self.limit)) } }
pub trait WeightToFee { type Balance: BaseArithmetic + From<u32> + Copy + Unsigned; fn weight_to_fee(w: &Weight) -> Self::Balance; }
#[derive(Clone, Debug)] pub struct WeightToFeeCoefficient<B> { pub coeff_integer: B, pub coeff_frac: Perbill, pub negative: bool, pub degree: u8 }
pub type WeightToFeeCoefficients<B> = smallvec::SmallVec<[WeightToFeeCoefficient<B>; 4]>;
pub trait WeightToFeePolynomial { type Balance: BaseArithmetic + From<u32> + Copy + Unsigned; fn polynomial() -> WeightToFeeCoefficients<Self::Balance>; }
impl<T: WeightToFeePolynomial> WeightToFee for T where T::Balance: sp_arithmetic::RationalArg, Perbill: Mul<T::Balance, Output = T::Balance> {
	type Balance = T::Balance;
	fn weight_to_fee(w: &Weight) -> T::Balance { Self::polynomial().iter().fold(<T::Balance as SaturatedConversion>::saturated_from(0u32), |mut acc, a| { let x = <T::Balance as SaturatedConversion>::saturated_from(w.ref_time()); let wv = sp_arithmetic::traits::Saturating::saturating_pow(x, a.degree as usize); let frac = a.coeff_frac * wv; let int = sp_arithmetic::traits::Saturating::saturating_mul(a.coeff_integer, wv); if a.negative { acc = sp_arithmetic::traits::Saturating::saturating_sub(sp_arithmetic::traits::Saturating::saturating_sub(acc, frac), int) } else { acc = sp_arithmetic::traits::Saturating::saturating_add(sp_arithmetic::traits::Saturating::saturating_add(acc, frac), int) } acc }) }
}
pub struct IdentityFee<T>(PhantomData<T>);
impl<T: BaseArithmetic + From<u32> + Copy + Unsigned> WeightToFee for IdentityFee<T> { type Balance = T; fn weight_to_fee(w: &Weight) -> T { T::saturated_from(w.ref_time()) } }
pub struct ConstantMultiplier<T, M>(PhantomData<(T, M)>);
impl<T: BaseArithmetic + From<u32> + Copy + Unsigned, M: Get<T>> WeightToFee for ConstantMultiplier<T, M> { type Balance = T; fn weight_to_fee(w: &Weight) -> T { sp_arithmetic::traits::Saturating::saturating_mul(T::saturated_from(w.ref_time()), M::get()) } }
