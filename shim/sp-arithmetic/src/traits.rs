pub use num_traits::{bounds::Bounded, checked_pow, ops::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedShl, CheckedShr, CheckedSub}, ops::saturating::{SaturatingAdd, SaturatingMul, SaturatingSub}, One, Signed, Unsigned, Zero};
use codec::HasCompact;
use primitive_types::{U128, U256, U512};
use std::ops::*;
pub use crate::ArithmeticError;

pub trait IntegerSquareRoot: Sized { fn integer_sqrt_checked(&self) -> Option<Self>; fn integer_sqrt(&self) -> Self { self.integer_sqrt_checked().expect("non-negative") } }
macro_rules! sq { ($($t:ty),*) => { $( impl IntegerSquareRoot for $t { fn integer_sqrt_checked(&self) -> Option<Self> { Some(U256::from(*self as u128).integer_sqrt().as_u128() as $t) } } )* } }
sq!(u8, u16, u32, u64, u128, usize);

pub trait BaseArithmetic: From<u8> + Zero + One + IntegerSquareRoot + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self> + Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self> + Rem<Self, Output = Self> + RemAssign<Self> + Shl<u32, Output = Self> + Shr<u32, Output = Self> + CheckedShl + CheckedShr + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + Saturating + PartialOrd<Self> + Ord + Bounded + HasCompact + Sized + Clone + TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32> + TryFrom<u64> + TryInto<u64> + TryFrom<u128> + TryInto<u128> + TryFrom<usize> + TryInto<usize> + UniqueSaturatedFrom<u8> + UniqueSaturatedInto<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedInto<u16> + UniqueSaturatedFrom<u32> + UniqueSaturatedInto<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedInto<u64> + UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u128> {}
impl<T> BaseArithmetic for T where T: From<u8> + Zero + One + IntegerSquareRoot + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self> + Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self> + Rem<Self, Output = Self> + RemAssign<Self> + Shl<u32, Output = Self> + Shr<u32, Output = Self> + CheckedShl + CheckedShr + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + Saturating + PartialOrd<Self> + Ord + Bounded + HasCompact + Sized + Clone + TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32> + TryFrom<u64> + TryInto<u64> + TryFrom<u128> + TryInto<u128> + TryFrom<usize> + TryInto<usize> + UniqueSaturatedFrom<u8> + UniqueSaturatedInto<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedInto<u16> + UniqueSaturatedFrom<u32> + UniqueSaturatedInto<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedInto<u64> + UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u128> {}
pub trait AtLeast8Bit: BaseArithmetic + From<u8> {} impl<T: BaseArithmetic + From<u8>> AtLeast8Bit for T {}
pub trait AtLeast16Bit: BaseArithmetic + From<u16> {} impl<T: BaseArithmetic + From<u16>> AtLeast16Bit for T {}
pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {} impl<T: BaseArithmetic + From<u16> + From<u32>> AtLeast32Bit for T {}
pub trait AtLeast8BitUnsigned: AtLeast8Bit + Unsigned {} impl<T: AtLeast8Bit + Unsigned> AtLeast8BitUnsigned for T {}
pub trait AtLeast16BitUnsigned: AtLeast16Bit + Unsigned {} impl<T: AtLeast16Bit + Unsigned> AtLeast16BitUnsigned for T {}
pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {} impl<T: AtLeast32Bit + Unsigned> AtLeast32BitUnsigned for T {}

pub trait UniqueSaturatedFrom<T: Sized>: Sized { fn unique_saturated_from(t: T) -> Self; }
pub trait UniqueSaturatedInto<T: Sized>: Sized { fn unique_saturated_into(self) -> T; }
impl<T: Sized, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S { fn unique_saturated_from(t: T) -> Self { S::try_from(t).unwrap_or_else(|_| Bounded::max_value()) } }
impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S { fn unique_saturated_into(self) -> T { self.try_into().unwrap_or_else(|_| Bounded::max_value()) } }
pub trait SaturatedConversion { fn saturated_from<T>(t: T) -> Self where Self: UniqueSaturatedFrom<T> { <Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t) } fn saturated_into<T>(self) -> T where Self: UniqueSaturatedInto<T> { <Self as UniqueSaturatedInto<T>>::unique_saturated_into(self) } }
impl<T: Sized> SaturatedConversion for T {}
pub trait CheckedConversion { fn checked_from<T>(t: T) -> Option<Self> where Self: TryFrom<T> { <Self as TryFrom<T>>::try_from(t).ok() } fn checked_into<T>(self) -> Option<T> where Self: TryInto<T> { <Self as TryInto<T>>::try_into(self).ok() } }
impl<T: Sized> CheckedConversion for T {}

pub trait Saturating {
	fn saturating_add(self, rhs: Self) -> Self; fn saturating_sub(self, rhs: Self) -> Self; fn saturating_mul(self, rhs: Self) -> Self; fn saturating_pow(self, exp: usize) -> Self;
	fn saturating_less_one(self) -> Self where Self: One { self.saturating_sub(One::one()) }
	fn saturating_plus_one(self) -> Self where Self: One { self.saturating_add(One::one()) }
	fn saturating_inc(&mut self) where Self: One + Clone { let o = self.clone(); *self = o.saturating_add(One::one()) }
	fn saturating_dec(&mut self) where Self: One + Clone { let o = self.clone(); *self = o.saturating_sub(One::one()) }
	fn saturating_accrue(&mut self, a: Self) where Self: One + Clone { let o = self.clone(); *self = o.saturating_add(a) }
	fn saturating_reduce(&mut self, a: Self) where Self: One + Clone { let o = self.clone(); *self = o.saturating_sub(a) }
}
macro_rules! sat { ($($t:ty),*) => { $( impl Saturating for $t { fn saturating_add(self, o: Self) -> Self { <$t>::saturating_add(self, o) } fn saturating_sub(self, o: Self) -> Self { <$t>::saturating_sub(self, o) } fn saturating_mul(self, o: Self) -> Self { <$t>::saturating_mul(self, o) } fn saturating_pow(self, e: usize) -> Self { <$t>::saturating_pow(self, e as u32) } } )* } }
sat!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128);
macro_rules! satu { ($($t:ty),*) => { $( impl Saturating for $t { fn saturating_add(self, o: Self) -> Self { <$t>::saturating_add(self, o) } fn saturating_sub(self, o: Self) -> Self { <$t>::saturating_sub(self, o) } fn saturating_mul(self, o: Self) -> Self { <$t>::saturating_mul(self, o) } fn saturating_pow(self, e: usize) -> Self { let mut r = <$t>::from(1u8); for _ in 0..e { r = <$t>::saturating_mul(r, self) } r } } )* } }
satu!(U128, U256, U512);
macro_rules! ens1 { ($tr:ident $f:ident $tr2:ident $f2:ident $ck:ident $m:ident $e:expr) => { pub trait $tr: Sized { fn $f(self, v: Self) -> Result<Self, ArithmeticError>; } pub trait $tr2: Sized { fn $f2(&mut self, v: Self) -> Result<(), ArithmeticError>; }
	impl<T: $ck + PartialOrd + Zero> $tr for T { fn $f(self, v: Self) -> Result<Self, ArithmeticError> { let z = v.is_zero(); self.$m(&v).ok_or($e(z)) } }
	impl<T: $ck + PartialOrd + Zero + Clone> $tr2 for T { fn $f2(&mut self, v: Self) -> Result<(), ArithmeticError> { *self = self.clone().$f(v)?; Ok(()) } } } }
ens1!(EnsureAdd ensure_add EnsureAddAssign ensure_add_assign CheckedAdd checked_add |_| ArithmeticError::Overflow);
ens1!(EnsureSub ensure_sub EnsureSubAssign ensure_sub_assign CheckedSub checked_sub |_| ArithmeticError::Underflow);
ens1!(EnsureMul ensure_mul EnsureMulAssign ensure_mul_assign CheckedMul checked_mul |_| ArithmeticError::Overflow);
ens1!(EnsureDiv ensure_div EnsureDivAssign ensure_div_assign CheckedDiv checked_div |z| if z { ArithmeticError::DivisionByZero } else { ArithmeticError::Overflow });
pub trait EnsureFrom<T: PartialOrd + Zero>: TryFrom<T> + PartialOrd + Zero { fn ensure_from(o: T) -> Result<Self, ArithmeticError> { let neg = o < T::zero(); Self::try_from(o).map_err(|_| if neg { ArithmeticError::Underflow } else { ArithmeticError::Overflow }) } }
impl<T: PartialOrd + Zero, U: TryFrom<T> + PartialOrd + Zero> EnsureFrom<T> for U {}
pub trait EnsureInto<T: PartialOrd + Zero>: TryInto<T> + PartialOrd + Zero { fn ensure_into(self) -> Result<T, ArithmeticError> { let neg = self < Self::zero(); self.try_into().map_err(|_| if neg { ArithmeticError::Underflow } else { ArithmeticError::Overflow }) } }
impl<T: PartialOrd + Zero, U: TryInto<T> + PartialOrd + Zero> EnsureInto<T> for U {}
pub trait EnsureOp: EnsureAdd + EnsureSub + EnsureMul + EnsureDiv {} impl<T: EnsureAdd + EnsureSub + EnsureMul + EnsureDiv> EnsureOp for T {}
pub trait DefensiveSaturating2 {}
