use std::ops::*;
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum FromDecStrErr { InvalidCharacter, InvalidLength }
impl std::fmt::Display for FromDecStrErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for FromDecStrErr {}
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct FromStrRadixErr(pub &'static str);
impl std::fmt::Display for FromStrRadixErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
impl std::error::Error for FromStrRadixErr {}

macro_rules! big { ($d:tt $N:ident, $W:expr, $B:expr) => {
	#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
	pub struct $N(pub [u64; $W]);
	impl PartialOrd for $N { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
	impl Ord for $N { fn cmp(&self, o: &Self) -> std::cmp::Ordering { for i in (0..$W).rev() { match self.0[i].cmp(&o.0[i]) { std::cmp::Ordering::Equal => {}, x => return x } } std::cmp::Ordering::Equal } }
	impl AsRef<$N> for $N { fn as_ref(&self) -> &$N { self } }
	impl $N {
		pub const MAX: $N = $N([u64::MAX; $W]);
		pub const fn max_value() -> Self { Self::MAX }
		pub const fn min_value() -> Self { $N([0; $W]) }
		pub const fn zero() -> Self { $N([0; $W]) }
		pub const fn one() -> Self { let mut a = [0; $W]; a[0] = 1; $N(a) }
		pub const fn is_zero(&self) -> bool { let mut i = 0; while i < $W { if self.0[i] != 0 { return false } i += 1; } true }
		pub const fn low_u32(&self) -> u32 { self.0[0] as u32 }
		pub const fn low_u64(&self) -> u64 { self.0[0] }
		pub const fn low_u128(&self) -> u128 { (self.0[0] as u128) | ((self.0[1] as u128) << 64) }
		fn fits(&self, words: usize) -> bool { self.0[words..].iter().all(|x| *x == 0) }
		pub fn as_u32(&self) -> u32 { if !self.fits(1) || self.0[0] > u32::MAX as u64 { panic!("Integer overflow when casting to u32") } self.0[0] as u32 }
		pub fn as_u64(&self) -> u64 { if !self.fits(1) { panic!("Integer overflow when casting to u64") } self.0[0] }
		pub fn as_u128(&self) -> u128 { if !self.fits(2) { panic!("Integer overflow when casting to u128") } self.low_u128() }
		pub fn as_usize(&self) -> usize { if !self.fits(1) { panic!("Integer overflow when casting to usize") } self.0[0] as usize }
		pub fn bits(&self) -> usize { for i in (0..$W).rev() { if self.0[i] != 0 { return i * 64 + 64 - self.0[i].leading_zeros() as usize } } 0 }
		pub fn bit(&self, i: usize) -> bool { self.0[i / 64] >> (i % 64) & 1 == 1 }
		pub fn byte(&self, i: usize) -> u8 { (self.0[i / 8] >> ((i % 8) * 8)) as u8 }
		pub fn leading_zeros(&self) -> u32 { ($W * 64 - self.bits()) as u32 }
		pub fn trailing_zeros(&self) -> u32 { for i in 0..$W { if self.0[i] != 0 { return i as u32 * 64 + self.0[i].trailing_zeros() } } $W * 64 }
		pub fn overflowing_add(self, o: Self) -> (Self, bool) { let mut r = [0; $W]; let mut c = 0u128; for i in 0..$W { let t = self.0[i] as u128 + o.0[i] as u128 + c; r[i] = t as u64; c = t >> 64; } ($N(r), c != 0) }
		pub fn overflowing_sub(self, o: Self) -> (Self, bool) { let mut r = [0; $W]; let mut b = false; for i in 0..$W { let (t, b1) = self.0[i].overflowing_sub(o.0[i]); let (t, b2) = t.overflowing_sub(b as u64); r[i] = t; b = b1 || b2; } ($N(r), b) }
		pub fn overflowing_mul(self, o: Self) -> (Self, bool) {
			let mut r = [0u64; 2 * $W];
			for i in 0..$W { let mut c = 0u128; for j in 0..$W { let t = self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128 + c; r[i + j] = t as u64; c = t >> 64; } r[i + $W] = c as u64; }
			let mut a = [0; $W]; a.copy_from_slice(&r[..$W]); ($N(a), r[$W..].iter().any(|x| *x != 0))
		}
		pub fn div_mod(self, d: Self) -> (Self, Self) {
			assert!(!d.is_zero(), "division by zero");
			if self < d { return (Self::zero(), self) }
			if d.fits(1) { let dv = d.0[0] as u128; let mut q = [0; $W]; let mut rem = 0u128; for i in (0..$W).rev() { let cur = (rem << 64) | self.0[i] as u128; q[i] = (cur / dv) as u64; rem = cur % dv; } return ($N(q), Self::from(rem as u64)) }
			// Knuth-style shift/subtract on words: normalise and use 128-bit estimation.
			let shift = d.0[(d.bits() - 1) / 64].leading_zeros();
			let n = (d.bits() + 63) / 64; let v = (d << shift).0;
			let mut u = [0u64; $W + 1];
			{ let s = self.0; if shift == 0 { u[..$W].copy_from_slice(&s); } else { let mut carry = 0u64; for i in 0..$W { u[i] = (s[i] << shift) | carry; carry = s[i] >> (64 - shift); } u[$W] = carry; } }
			let mut q = [0u64; $W];
			let m = $W - n;
			for j in (0..=m).rev() {
				let num = ((u[j + n] as u128) << 64) | u[j + n - 1] as u128;
				let mut qh = num / v[n - 1] as u128; let mut rh = num % v[n - 1] as u128;
				while qh >> 64 != 0 || qh * v[n - 2] as u128 > ((rh << 64) | u[j + n - 2] as u128) { qh -= 1; rh += v[n - 1] as u128; if rh >> 64 != 0 { break } }
				let mut borrow = 0i128; let mut carry = 0u128;
				for i in 0..n { let p = qh * v[i] as u128 + carry; carry = p >> 64; let t = u[i + j] as i128 - borrow - (p as u64) as i128; u[i + j] = t as u64; borrow = if t < 0 { 1 } else { 0 }; }
				let t = u[j + n] as i128 - borrow - carry as i128; u[j + n] = t as u64;
				if t < 0 { qh -= 1; let mut c = 0u128; for i in 0..n { let s = u[i + j] as u128 + v[i] as u128 + c; u[i + j] = s as u64; c = s >> 64; } u[j + n] = u[j + n].wrapping_add(c as u64); }
				if j < $W { q[j] = qh as u64; }
			}
			let mut r = [0u64; $W]; r[..n].copy_from_slice(&u[..n]);
			($N(q), $N(r) >> shift)
		}
		pub fn checked_add(self, o: Self) -> Option<Self> { match self.overflowing_add(o) { (r, false) => Some(r), _ => None } }
		pub fn checked_sub(self, o: Self) -> Option<Self> { match self.overflowing_sub(o) { (r, false) => Some(r), _ => None } }
		pub fn checked_mul(self, o: Self) -> Option<Self> { match self.overflowing_mul(o) { (r, false) => Some(r), _ => None } }
		pub fn checked_div(self, o: Self) -> Option<Self> { if o.is_zero() { None } else { Some(self.div_mod(o).0) } }
		pub fn checked_rem(self, o: Self) -> Option<Self> { if o.is_zero() { None } else { Some(self.div_mod(o).1) } }
		pub fn checked_neg(self) -> Option<Self> { if self.is_zero() { Some(self) } else { None } }
		pub fn saturating_add(self, o: Self) -> Self { self.checked_add(o).unwrap_or(Self::MAX) }
		pub fn saturating_sub(self, o: Self) -> Self { self.checked_sub(o).unwrap_or(Self::zero()) }
		pub fn saturating_mul(self, o: Self) -> Self { self.checked_mul(o).unwrap_or(Self::MAX) }
		pub fn wrapping_add(self, o: Self) -> Self { self.overflowing_add(o).0 }
		pub fn wrapping_sub(self, o: Self) -> Self { self.overflowing_sub(o).0 }
		pub fn wrapping_mul(self, o: Self) -> Self { self.overflowing_mul(o).0 }
		pub fn abs_diff(self, o: Self) -> Self { if self > o { self.overflowing_sub(o).0 } else { o.overflowing_sub(self).0 } }
		pub fn overflowing_pow(self, e: Self) -> (Self, bool) { let mut r = Self::one(); let mut b = self; let mut of = false; let mut bo = false; let n = e.bits(); for i in 0..n { if e.bit(i) { let (x, o) = r.overflowing_mul(b); r = x; of |= o | bo; } let (x, o) = b.overflowing_mul(b); b = x; bo |= o; } (r, of) }
		pub fn checked_pow(self, e: Self) -> Option<Self> { match self.overflowing_pow(e) { (r, false) => Some(r), _ => None } }
		pub fn pow(self, e: Self) -> Self { self.checked_pow(e).expect("arithmetic operation overflow") }
		pub fn exp10(n: usize) -> Self { Self::from(10u64).pow(Self::from(n as u64)) }
		pub fn integer_sqrt(&self) -> Self { let one = Self::one(); if *self <= one { return *self } let shift = ((self.bits() + 1) / 2) as u32; let mut xp = one << shift; loop { let x = (*self / xp).overflowing_add(xp).0 >> 1u32; if x >= xp { return xp } xp = x; } }
		pub fn from_dec_str(s: &str) -> Result<Self, FromDecStrErr> { if s.is_empty() { /* primitive-types parses "" as 0 */ } let mut r = Self::zero(); for c in s.bytes() { if !c.is_ascii_digit() { return Err(FromDecStrErr::InvalidCharacter) } r = r.checked_mul(Self::from(10u64)).and_then(|x| x.checked_add(Self::from((c - b'0') as u64))).ok_or(FromDecStrErr::InvalidLength)?; } Ok(r) }
		pub fn from_str_radix(s: &str, radix: u32) -> Result<Self, FromStrRadixErr> { match radix { 10 => Self::from_dec_str(s).map_err(|_| FromStrRadixErr("dec")), 16 => s.parse().map_err(|_| FromStrRadixErr("hex")), _ => Err(FromStrRadixErr("unsupported radix")) } }
		pub fn from_big_endian(s: &[u8]) -> Self { assert!(s.len() <= $B); let mut p = [0u8; $B]; p[$B - s.len()..].copy_from_slice(s); let mut a = [0; $W]; for i in 0..$W { a[$W - 1 - i] = u64::from_be_bytes(p[i * 8..i * 8 + 8].try_into().unwrap()); } $N(a) }
		pub fn from_little_endian(s: &[u8]) -> Self { assert!(s.len() <= $B); let mut p = [0u8; $B]; p[..s.len()].copy_from_slice(s); let mut a = [0; $W]; for i in 0..$W { a[i] = u64::from_le_bytes(p[i * 8..i * 8 + 8].try_into().unwrap()); } $N(a) }
		pub fn to_big_endian(&self, b: &mut [u8]) { assert!(b.len() == $B); for i in 0..$W { b[i * 8..i * 8 + 8].copy_from_slice(&self.0[$W - 1 - i].to_be_bytes()) } }
		pub fn to_little_endian(&self, b: &mut [u8]) { assert!(b.len() == $B); for i in 0..$W { b[i * 8..i * 8 + 8].copy_from_slice(&self.0[i].to_le_bytes()) } }
		pub fn be_bytes(&self) -> [u8; $B] { let mut b = [0; $B]; self.to_big_endian(&mut b); b }
		pub fn le_bytes(&self) -> [u8; $B] { let mut b = [0; $B]; self.to_little_endian(&mut b); b }
		fn shl_n(self, n: usize) -> Self { if n >= $W * 64 { return Self::zero() } let (w, b) = (n / 64, n % 64); let mut r = [0; $W]; for i in w..$W { r[i] = self.0[i - w] << b; if b > 0 && i > w { r[i] |= self.0[i - w - 1] >> (64 - b) } } $N(r) }
		fn shr_n(self, n: usize) -> Self { if n >= $W * 64 { return Self::zero() } let (w, b) = (n / 64, n % 64); let mut r = [0; $W]; for i in 0..$W - w { r[i] = self.0[i + w] >> b; if b > 0 && i + w + 1 < $W { r[i] |= self.0[i + w + 1] << (64 - b) } } $N(r) }
	}
	macro_rules! fromu { ($d($d t:ty)*) => { $d(
		impl From<$d t> for $N { fn from(x: $d t) -> Self { let mut a = [0; $W]; a[0] = x as u64; $N(a) } }
		impl TryFrom<$N> for $d t { type Error = &'static str; fn try_from(x: $N) -> Result<$d t, &'static str> { if x.fits(1) { <$d t>::try_from(x.0[0]).map_err(|_| "integer overflow when casting") } else { Err("integer overflow when casting") } } }
	)* } }
	fromu!{u8 u16 u32 u64 usize}
	macro_rules! fromi { ($d($d t:ty)*) => { $d(
		impl From<$d t> for $N { fn from(x: $d t) -> Self { if x < 0 { panic!("Unsigned integer can't be created from negative value") } Self::from(x as u64) } }
	)* } }
	fromi!{i8 i16 i32 i64 isize}
	impl From<bool> for $N { fn from(x: bool) -> Self { Self::from(x as u64) } }
	impl From<u128> for $N { fn from(x: u128) -> Self { let mut a = [0; $W]; a[0] = x as u64; a[1] = (x >> 64) as u64; $N(a) } }
	impl From<[u8; $B]> for $N { fn from(x: [u8; $B]) -> Self { Self::from_big_endian(&x) } }
	impl<'a> From<&'a [u8]> for $N { fn from(x: &[u8]) -> Self { Self::from_big_endian(x) } }
	impl<'a> From<&'a [u8; $B]> for $N { fn from(x: &[u8; $B]) -> Self { Self::from_big_endian(x) } }
	impl<'a> From<&'a $N> for $N { fn from(x: &$N) -> Self { *x } }
	impl From<$N> for [u8; $B] { fn from(x: $N) -> Self { x.be_bytes() } }
	impl From<&'static str> for $N { fn from(s: &'static str) -> Self { s.parse().unwrap() } }
	impl TryFrom<$N> for u128 { type Error = &'static str; fn try_from(x: $N) -> Result<u128, &'static str> { if x.fits(2) { Ok(x.low_u128()) } else { Err("integer overflow when casting to u128") } } }
	macro_rules! ops { ($d($d T:ident $d f:ident $d TA:ident $d fa:ident $d e:expr;)*) => { $d(
		impl<T: Into<$N>> $d T<T> for $N { type Output = $N; fn $d f(self, o: T) -> $N { let f: fn($N, $N) -> $N = $d e; f(self, o.into()) } }
		impl<'a, T: Into<$N>> $d T<T> for &'a $N { type Output = $N; fn $d f(self, o: T) -> $N { let f: fn($N, $N) -> $N = $d e; f(*self, o.into()) } }
		impl<T: Into<$N>> $d TA<T> for $N { fn $d fa(&mut self, o: T) { let f: fn($N, $N) -> $N = $e; *self = f(*self, o.into()) } }
	)* } }
	ops! { Add add AddAssign add_assign |a, b| a.checked_add(b).expect("arithmetic operation overflow");
		Sub sub SubAssign sub_assign |a, b| a.checked_sub(b).expect("arithmetic operation overflow");
		Mul mul MulAssign mul_assign |a, b| a.checked_mul(b).expect("arithmetic operation overflow");
		Div div DivAssign div_assign |a, b| a.div_mod(b).0;
		Rem rem RemAssign rem_assign |a, b| a.div_mod(b).1; }
	impl BitAnd for $N { type Output = $N; fn bitand(mut self, o: $N) -> $N { for i in 0..$W { self.0[i] &= o.0[i] } self } }
	impl BitOr for $N { type Output = $N; fn bitor(mut self, o: $N) -> $N { for i in 0..$W { self.0[i] |= o.0[i] } self } }
	impl BitXor for $N { type Output = $N; fn bitxor(mut self, o: $N) -> $N { for i in 0..$W { self.0[i] ^= o.0[i] } self } }
	impl Not for $N { type Output = $N; fn not(mut self) -> $N { for i in 0..$W { self.0[i] = !self.0[i] } self } }
	impl BitAndAssign for $N { fn bitand_assign(&mut self, o: $N) { *self = *self & o } }
	impl BitOrAssign for $N { fn bitor_assign(&mut self, o: $N) { *self = *self | o } }
	impl BitXorAssign for $N { fn bitxor_assign(&mut self, o: $N) { *self = *self ^ o } }
	impl<T: Into<$N>> Shl<T> for $N { type Output = $N; fn shl(self, n: T) -> $N { let n: $N = n.into(); if !n.fits(1) { return $N::zero() } self.shl_n(n.low_u64().min(1 << 20) as usize) } }
	impl<T: Into<$N>> Shr<T> for $N { type Output = $N; fn shr(self, n: T) -> $N { let n: $N = n.into(); if !n.fits(1) { return $N::zero() } self.shr_n(n.low_u64().min(1 << 20) as usize) } }
	impl<T: Into<$N>> ShlAssign<T> for $N { fn shl_assign(&mut self, n: T) { *self = *self << n } }
	impl<T: Into<$N>> ShrAssign<T> for $N { fn shr_assign(&mut self, n: T) { *self = *self >> n } }
	impl std::iter::Sum for $N { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
	impl std::fmt::Display for $N { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { if self.is_zero() { return f.pad_integral(true, "", "0") } let mut v = vec![]; let mut x = *self; let t = Self::from(10u64); while !x.is_zero() { let (q, r) = x.div_mod(t); v.push(b'0' + r.low_u64() as u8); x = q; } v.reverse(); f.pad_integral(true, "", std::str::from_utf8(&v).unwrap()) } }
	impl std::fmt::Debug for $N { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(self, f) } }
	impl std::fmt::LowerHex for $N { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let s = crate::to_hex(&self.be_bytes()); let s = s.trim_start_matches('0'); f.pad_integral(true, "0x", if s.is_empty() { "0" } else { s }) } }
	impl std::fmt::UpperHex for $N { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let s = crate::to_hex(&self.be_bytes()).to_uppercase(); let s = s.trim_start_matches('0'); f.pad_integral(true, "0x", if s.is_empty() { "0" } else { s }) } }
	impl std::str::FromStr for $N { type Err = crate::FromHexError; fn from_str(s: &str) -> Result<Self, Self::Err> { let s = s.strip_prefix("0x").unwrap_or(s); let s = if s.len() % 2 == 1 { format!("0{}", s) } else { s.to_string() }; let b = crate::from_hex(&s)?; if b.len() > $B { return Err(crate::FromHexError::InvalidHexLength) } Ok(Self::from_big_endian(&b)) } }
	impl codec::Encode for $N { fn encode_to<T: codec::Output + ?Sized>(&self, d: &mut T) { d.write(&self.le_bytes()) } }
	impl codec::Decode for $N { fn decode<I: codec::Input>(i: &mut I) -> Result<Self, codec::Error> { let mut b = [0u8; $B]; i.read(&mut b)?; Ok(Self::from_little_endian(&b)) } }
	impl codec::EncodeLike for $N {}
	impl codec::MaxEncodedLen for $N { fn max_encoded_len() -> usize { $B } }
	impl serde::Serialize for $N { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("{:#x}", self)) } }
	impl<'de> serde::Deserialize<'de> for $N { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let s = <std::borrow::Cow<'de, str>>::deserialize(d)?; if !s.starts_with("0x") { return Err(serde::de::Error::custom("expected 0x-prefixed hex")) } s.parse().map_err(serde::de::Error::custom) } }
	impl num_traits::Zero for $N { fn zero() -> Self { $N::zero() } fn is_zero(&self) -> bool { $N::is_zero(self) } }
	impl num_traits::One for $N { fn one() -> Self { $N::one() } }
	impl num_traits::Bounded for $N { fn min_value() -> Self { $N::zero() } fn max_value() -> Self { $N::MAX } }
	impl num_traits::CheckedAdd for $N { fn checked_add(&self, o: &Self) -> Option<Self> { $N::checked_add(*self, *o) } }
	impl num_traits::CheckedSub for $N { fn checked_sub(&self, o: &Self) -> Option<Self> { $N::checked_sub(*self, *o) } }
	impl num_traits::CheckedMul for $N { fn checked_mul(&self, o: &Self) -> Option<Self> { $N::checked_mul(*self, *o) } }
	impl num_traits::CheckedDiv for $N { fn checked_div(&self, o: &Self) -> Option<Self> { $N::checked_div(*self, *o) } }
} }
big!($ U256, 4, 32);
big!($ U512, 8, 64);
big!($ U128, 2, 16);
impl U256 {
	pub fn full_mul(self, o: Self) -> U512 { let mut a = [0; 8]; a[..4].copy_from_slice(&self.0); let mut b = [0; 8]; b[..4].copy_from_slice(&o.0); U512(a).overflowing_mul(U512(b)).0 }
}
impl From<U256> for U512 { fn from(x: U256) -> U512 { let mut a = [0; 8]; a[..4].copy_from_slice(&x.0); U512(a) } }
impl TryFrom<U512> for U256 { type Error = crate::Error; fn try_from(x: U512) -> Result<U256, crate::Error> { if x.0[4..].iter().any(|y| *y != 0) { Err(crate::Error::Overflow) } else { let mut a = [0; 4]; a.copy_from_slice(&x.0[..4]); Ok(U256(a)) } } }
