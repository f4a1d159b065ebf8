//! Re-implementation of the parity-scale-codec API surface used by trn-seed.
extern crate self as codec;
pub use mini_macros::{Decode, Encode, MaxEncodedLen};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::marker::PhantomData;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Error { desc: &'static str, cause: Option<Box<Error>> }
impl Error {
	pub fn chain(self, desc: impl Into<std::borrow::Cow<'static, str>>) -> Self {
		let _ = desc;
		Error { desc: "chained", cause: Some(Box::new(self)) }
	}
	pub fn what(&self) -> &'static str { self.desc }
	pub fn cause(&self) -> Option<&Error> { self.cause.as_deref() }
}
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.desc) } }
impl std::error::Error for Error {}
impl From<&'static str> for Error { fn from(desc: &'static str) -> Self { Error { desc, cause: None } } }

pub trait Input {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
	fn read_byte(&mut self) -> Result<u8, Error> { let mut b = [0u8]; self.read(&mut b)?; Ok(b[0]) }
	fn descend_ref(&mut self) -> Result<(), Error> { Ok(()) }
	fn ascend_ref(&mut self) {}
}
impl<'a> Input for &'a [u8] {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> { Ok(Some(self.len())) }
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		if into.len() > self.len() { return Err("Not enough data to fill buffer".into()); }
		let n = into.len();
		into.copy_from_slice(&self[..n]);
		*self = &self[n..];
		Ok(())
	}
}
pub struct IoReader<R: std::io::Read>(pub R);
impl<R: std::io::Read> Input for IoReader<R> {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> { Ok(None) }
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> { self.0.read_exact(into).map_err(|_| "io error".into()) }
}
pub trait Output {
	fn write(&mut self, bytes: &[u8]);
	fn push_byte(&mut self, byte: u8) { self.write(&[byte]); }
	fn push<V: Encode + ?Sized>(&mut self, value: &V) where Self: Sized { value.encode_to(self); }
}
impl Output for Vec<u8> { fn write(&mut self, bytes: &[u8]) { self.extend_from_slice(bytes) } }

pub trait Encode {
	fn size_hint(&self) -> usize { 0 }
	fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) { self.using_encoded(|b| dest.write(b)); }
	fn encode(&self) -> Vec<u8> { let mut v = Vec::with_capacity(self.size_hint()); self.encode_to(&mut v); v }
	fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { f(&self.encode()) }
	fn encoded_size(&self) -> usize { self.encode().len() }
}
pub trait Decode: Sized {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
	fn skip<I: Input>(input: &mut I) -> Result<(), Error> { Self::decode(input).map(|_| ()) }
	fn encoded_fixed_size() -> Option<usize> { None }
}
pub trait Codec: Decode + Encode {}
impl<S: Decode + Encode> Codec for S {}
pub trait FullEncode: Encode + EncodeLike {}
impl<S: Encode + EncodeLike> FullEncode for S {}
pub trait FullCodec: Decode + FullEncode {}
impl<S: Decode + FullEncode> FullCodec for S {}
pub trait EncodeLike<T: Encode = Self>: Sized + Encode {}
pub trait DecodeLength { fn len(self_encoded: &[u8]) -> Result<usize, Error>; }
pub trait EncodeAppend { type Item: Encode; }
impl<T: Encode> EncodeAppend for Vec<T> { type Item = T; }
impl<T: Encode> EncodeAppend for VecDeque<T> { type Item = T; }
pub trait DecodeAll: Sized { fn decode_all(input: &mut &[u8]) -> Result<Self, Error>; }
impl<T: Decode> DecodeAll for T {
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
		let r = T::decode(input)?;
		if input.is_empty() { Ok(r) } else { Err("Input buffer has still data left after decoding!".into()) }
	}
}
pub trait DecodeLimit: Sized {
	fn decode_all_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error>;
	fn decode_with_depth_limit<I: Input>(limit: u32, input: &mut I) -> Result<Self, Error>;
}
struct DepthTrackingInput<'a, I> { input: &'a mut I, depth: u32, max_depth: u32 }
impl<'a, I: Input> Input for DepthTrackingInput<'a, I> {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> { self.input.remaining_len() }
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> { self.input.read(into) }
	fn descend_ref(&mut self) -> Result<(), Error> {
		self.depth += 1;
		if self.depth > self.max_depth { Err("Maximum recursion depth reached when decoding".into()) } else { Ok(()) }
	}
	fn ascend_ref(&mut self) { self.depth -= 1; }
}
fn decode_dyn<T: Decode>(input: &mut dyn Input) -> Result<T, Error> {
	struct D<'a>(&'a mut dyn Input);
	impl<'a> Input for D<'a> {
		fn remaining_len(&mut self) -> Result<Option<usize>, Error> { self.0.remaining_len() }
		fn read(&mut self, into: &mut [u8]) -> Result<(), Error> { self.0.read(into) }
		fn descend_ref(&mut self) -> Result<(), Error> { self.0.descend_ref() }
		fn ascend_ref(&mut self) { self.0.ascend_ref() }
	}
	T::decode(&mut D(input))
}
impl<T: Decode> DecodeLimit for T {
	fn decode_all_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error> {
		let mut i = DepthTrackingInput { input, depth: 0, max_depth: limit };
		let r = decode_dyn::<T>(&mut i)?;
		if input.is_empty() { Ok(r) } else { Err("Input buffer has still data left after decoding!".into()) }
	}
	fn decode_with_depth_limit<I: Input>(limit: u32, input: &mut I) -> Result<Self, Error> {
		let mut i = DepthTrackingInput { input, depth: 0, max_depth: limit };
		decode_dyn::<T>(&mut i)
	}
}

pub trait MaxEncodedLen: Encode { fn max_encoded_len() -> usize; }
pub trait ConstEncodedLen: MaxEncodedLen {}

macro_rules! ints { ($($t:ty)*) => { $(
	impl Encode for $t {
		fn size_hint(&self) -> usize { std::mem::size_of::<$t>() }
		fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) { dest.write(&self.to_le_bytes()); }
	}
	impl Decode for $t { fn decode<I: Input>(input: &mut I) -> Result<Self, Error> { let mut b = [0u8; std::mem::size_of::<$t>()]; input.read(&mut b)?; Ok(<$t>::from_le_bytes(b)) }
		fn encoded_fixed_size() -> Option<usize> { Some(std::mem::size_of::<$t>()) } }
	impl EncodeLike for $t {}
	impl MaxEncodedLen for $t { fn max_encoded_len() -> usize { std::mem::size_of::<$t>() } }
)* } }
ints!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64);
impl Encode for bool { fn size_hint(&self) -> usize { 1 } fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) { dest.push_byte(*self as u8) } }
impl Decode for bool { fn decode<I: Input>(input: &mut I) -> Result<Self, Error> { match input.read_byte()? { 0 => Ok(false), 1 => Ok(true), _ => Err("Invalid boolean representation".into()) } } }
impl EncodeLike for bool {}
impl MaxEncodedLen for bool { fn max_encoded_len() -> usize { 1 } }
impl Encode for () { fn encode_to<T: Output + ?Sized>(&self, _d: &mut T) {} }
impl Decode for () { fn decode<I: Input>(_: &mut I) -> Result<Self, Error> { Ok(()) } }
impl EncodeLike for () {}
impl MaxEncodedLen for () { fn max_encoded_len() -> usize { 0 } }

macro_rules! refs { ($($t:ty)*) => { $(
	impl<'a, T: ?Sized + Encode> Encode for $t {
		fn size_hint(&self) -> usize { (**self).size_hint() }
		fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { (**self).encode_to(dest) }
		fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { (**self).using_encoded(f) }
		fn encode(&self) -> Vec<u8> { (**self).encode() }
	}
)* } }
refs!(&'a T &'a mut T Box<T> std::sync::Arc<T> std::rc::Rc<T>);
impl<'a, T: ?Sized + ToOwned + Encode> Encode for std::borrow::Cow<'a, T> { fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { (**self).encode_to(dest) } }
impl<'a, T: Encode> EncodeLike for &'a T {}
impl<'a, T: Encode> EncodeLike<T> for &'a T {}
impl<'a, T: Encode> EncodeLike<&'a T> for T {}
impl<'a, T: Encode> EncodeLike<T> for &'a &'a T {}
impl<'a, T: Encode> EncodeLike<T> for &'a mut T {}
impl<'a, T: Encode> EncodeLike for &'a mut T {}
impl<T: Encode> EncodeLike for Box<T> {}
impl<T: Encode> EncodeLike<T> for Box<T> {}
impl<T: Decode> Decode for Box<T> { fn decode<I: Input>(input: &mut I) -> Result<Self, Error> { input.descend_ref()?; let r = T::decode(input)?; input.ascend_ref(); Ok(Box::new(r)) } }
impl<T: Decode> Decode for std::sync::Arc<T> { fn decode<I: Input>(input: &mut I) -> Result<Self, Error> { Ok(std::sync::Arc::new(T::decode(input)?)) } }
impl<T: MaxEncodedLen> MaxEncodedLen for Box<T> { fn max_encoded_len() -> usize { T::max_encoded_len() } }
impl<'a, T: MaxEncodedLen> MaxEncodedLen for &'a T { fn max_encoded_len() -> usize { T::max_encoded_len() } }

impl<T> Encode for PhantomData<T> { fn encode_to<W: Output + ?Sized>(&self, _d: &mut W) {} }
impl<T> Decode for PhantomData<T> { fn decode<I: Input>(_: &mut I) -> Result<Self, Error> { Ok(PhantomData) } }
impl<T> EncodeLike for PhantomData<T> {}
impl<T> MaxEncodedLen for PhantomData<T> { fn max_encoded_len() -> usize { 0 } }

impl<T: Encode> Encode for Option<T> {
	fn size_hint(&self) -> usize { 1 + self.as_ref().map(|x| x.size_hint()).unwrap_or(0) }
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { match self { None => d.push_byte(0), Some(x) => { d.push_byte(1); x.encode_to(d) } } }
}
impl<T: Decode> Decode for Option<T> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { match i.read_byte()? { 0 => Ok(None), 1 => Ok(Some(T::decode(i)?)), _ => Err("unexpected first byte decoding Option".into()) } } }
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Option<U>> for Option<T> {}
impl<T: MaxEncodedLen> MaxEncodedLen for Option<T> { fn max_encoded_len() -> usize { T::max_encoded_len() + 1 } }
impl<T: Encode, E: Encode> Encode for Result<T, E> {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { match self { Ok(x) => { d.push_byte(0); x.encode_to(d) }, Err(x) => { d.push_byte(1); x.encode_to(d) } } }
}
impl<T: Decode, E: Decode> Decode for Result<T, E> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { match i.read_byte()? { 0 => Ok(Ok(T::decode(i)?)), 1 => Ok(Err(E::decode(i)?)), _ => Err("unexpected first byte decoding Result".into()) } } }
impl<T: EncodeLike<LT>, LT: Encode, E: EncodeLike<LE>, LE: Encode> EncodeLike<Result<LT, LE>> for Result<T, E> {}
impl<T: MaxEncodedLen, E: MaxEncodedLen> MaxEncodedLen for Result<T, E> { fn max_encoded_len() -> usize { T::max_encoded_len().max(E::max_encoded_len()) + 1 } }

impl<T: Encode, const N: usize> Encode for [T; N] { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { for x in self.iter() { x.encode_to(d) } } }
impl<T: Decode, const N: usize> Decode for [T; N] { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
	let mut v = Vec::with_capacity(N); for _ in 0..N { v.push(T::decode(i)?) }
	v.try_into().map_err(|_| Error::from("array")) } }
impl<T: EncodeLike<U>, U: Encode, const N: usize> EncodeLike<[U; N]> for [T; N] {}
impl<T: MaxEncodedLen, const N: usize> MaxEncodedLen for [T; N] { fn max_encoded_len() -> usize { T::max_encoded_len() * N } }

pub fn compact_encode_len_to<W: Output + ?Sized>(d: &mut W, len: usize) -> Result<(), Error> { Compact(len as u32).encode_to(d); Ok(()) }
fn enc_len<W: Output + ?Sized>(d: &mut W, len: usize) { assert!(len <= u32::MAX as usize); Compact(len as u32).encode_to(d) }
impl<T: Encode> Encode for [T] { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { enc_len(d, self.len()); for x in self { x.encode_to(d) } } }
impl<T: Encode> Encode for Vec<T> { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { self.as_slice().encode_to(d) } }
impl<T: Encode> Encode for VecDeque<T> { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { enc_len(d, self.len()); for x in self { x.encode_to(d) } } }
pub fn decode_vec_with_len<T: Decode, I: Input>(i: &mut I, len: usize) -> Result<Vec<T>, Error> {
	let mut v = Vec::with_capacity(len.min(1024)); for _ in 0..len { v.push(T::decode(i)?) } Ok(v)
}
impl<T: Decode> Decode for Vec<T> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let n = <Compact<u32>>::decode(i)?.0 as usize;
	if std::mem::size_of::<T>() > 0 { if let Some(l) = i.remaining_len()? { if std::any::type_name::<T>() == "u8" && n > l { return Err("Not enough data to decode vector".into()) } } }
	decode_vec_with_len(i, n) } }
impl<T: Decode> Decode for VecDeque<T> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(<Vec<T>>::decode(i)?.into()) } }
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for Vec<T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for &[T] {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<&[U]> for Vec<T> {}
impl<T: Encode> EncodeLike for VecDeque<T> {}
impl Encode for str { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { self.as_bytes().encode_to(d) } }
impl Encode for String { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { self.as_bytes().encode_to(d) } }
impl Decode for String { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { String::from_utf8(Vec::decode(i)?).map_err(|_| "Invalid utf8 sequence".into()) } }
impl Decode for std::borrow::Cow<'static, str> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(String::decode(i)?.into()) } }
impl EncodeLike for String {}
impl EncodeLike<String> for &str {}
impl<K: Encode, V: Encode> Encode for BTreeMap<K, V> { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { enc_len(d, self.len()); for (k, v) in self { k.encode_to(d); v.encode_to(d) } } }
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(<Vec<(K, V)>>::decode(i)?.into_iter().collect()) } }
impl<K: EncodeLike<LK>, LK: Encode, V: EncodeLike<LV>, LV: Encode> EncodeLike<BTreeMap<LK, LV>> for BTreeMap<K, V> {}
impl<K: Encode> Encode for BTreeSet<K> { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { enc_len(d, self.len()); for k in self { k.encode_to(d) } } }
impl<K: Decode + Ord> Decode for BTreeSet<K> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(<Vec<K>>::decode(i)?.into_iter().collect()) } }
impl<K: EncodeLike<LK>, LK: Encode> EncodeLike<BTreeSet<LK>> for BTreeSet<K> {}
macro_rules! declen { ($($g:ident)* => $t:ty) => { impl<$($g),*> DecodeLength for $t { fn len(mut e: &[u8]) -> Result<usize, Error> { Ok(<Compact<u32>>::decode(&mut e)?.0 as usize) } } } }
declen!(T => Vec<T>); declen!(T => VecDeque<T>); declen!(T => BTreeSet<T>); declen!(K V => BTreeMap<K, V>);
/// Append an item to an encoded vec in place.
pub fn append_or_new(mut vec: Vec<u8>, item: &[u8]) -> Result<Vec<u8>, Error> {
	if vec.is_empty() { let mut v = Compact(1u32).encode(); v.extend_from_slice(item); return Ok(v) }
	let mut rest = &vec[..];
	let n = <Compact<u32>>::decode(&mut rest)?.0;
	let mut out = Compact(n.checked_add(1).ok_or("overflow")?).encode();
	out.extend_from_slice(rest);
	out.extend_from_slice(item);
	vec.clear();
	Ok(out)
}

macro_rules! tuples { ($( ($($n:ident $m:ident $i:tt),+) )*) => { $(
	impl<$($n: Encode),+> Encode for ($($n,)+) { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { $( self.$i.encode_to(d); )+ } }
	impl<$($n: Decode),+> Decode for ($($n,)+) { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(($( $n::decode(i)?, )+)) } }
	impl<$($n: EncodeLike<$m>, $m: Encode),+> EncodeLike<($($m,)+)> for ($($n,)+) {}
	impl<$($n: MaxEncodedLen),+> MaxEncodedLen for ($($n,)+) { fn max_encoded_len() -> usize { 0 $( + $n::max_encoded_len() )+ } }
)* } }
tuples! { (A A1 0) (A A1 0, B B1 1) (A A1 0, B B1 1, C C1 2) (A A1 0, B B1 1, C C1 2, D D1 3) (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4)
 (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5) (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6) (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7)
 (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, J J1 8) (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, J J1 8, K K1 9)
 (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, J J1 8, K K1 9, L L1 10) (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, J J1 8, K K1 9, L L1 10, M M1 11) }

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct Compact<T>(pub T);
impl<T> From<T> for Compact<T> { fn from(x: T) -> Self { Compact(x) } }
impl<'a, T: Copy> From<&'a T> for Compact<T> { fn from(x: &'a T) -> Self { Compact(*x) } }
#[derive(Debug, Clone)]
pub struct CompactRef<'a, T>(pub &'a T);
fn enc_compact_u128<W: Output + ?Sized>(v: u128, d: &mut W) {
	if v < 64 { d.push_byte((v as u8) << 2) }
	else if v < 1 << 14 { d.write(&(((v as u16) << 2) | 1).to_le_bytes()) }
	else if v < 1 << 30 { d.write(&(((v as u32) << 2) | 2).to_le_bytes()) }
	else { let n = ((128 - v.leading_zeros() + 7) / 8).max(4) as usize; d.push_byte(3 + (((n - 4) as u8) << 2)); d.write(&v.to_le_bytes()[..n]) }
}
fn dec_compact_u128<I: Input>(i: &mut I, max_bytes: usize) -> Result<u128, Error> {
	let p = i.read_byte()?;
	Ok(match p & 3 {
		0 => (p >> 2) as u128,
		1 => { let x = u16::from_le_bytes([p, i.read_byte()?]) >> 2; if x < 64 { return Err("out of range decoding Compact".into()) } x as u128 },
		2 => { let mut b = [p, 0, 0, 0]; i.read(&mut b[1..])?; let x = u32::from_le_bytes(b) >> 2; if x < 1 << 14 { return Err("out of range decoding Compact".into()) } x as u128 },
		_ => { let n = (p >> 2) as usize + 4; if n > max_bytes.max(4) || n > 16 { return Err("unexpected prefix decoding Compact".into()) }
			let mut b = [0u8; 16]; i.read(&mut b[..n])?; let v = u128::from_le_bytes(b);
			if v < 1 << 30 || (n > 4 && v >> ((n - 1) * 8) == 0) { return Err("out of range decoding Compact".into()) } v },
	})
}
pub trait HasCompact: Sized { type Type; fn compact_encode_to<W: Output + ?Sized>(&self, d: &mut W); fn compact_decode<I: Input>(i: &mut I) -> Result<Self, Error>; fn compact_max() -> usize; }
macro_rules! compacts { ($($t:ty)*) => { $( impl HasCompact for $t { type Type = Compact<$t>;
	fn compact_encode_to<W: Output + ?Sized>(&self, d: &mut W) { enc_compact_u128(*self as u128, d) }
	fn compact_decode<I: Input>(i: &mut I) -> Result<Self, Error> { <$t>::try_from(dec_compact_u128(i, std::mem::size_of::<$t>())?).map_err(|_| "out of range decoding Compact".into()) }
	fn compact_max() -> usize { match std::mem::size_of::<$t>() { 1 => 2, 2 => 4, n => n + 1 } } }
	impl From<Compact<$t>> for $t { fn from(x: Compact<$t>) -> $t { x.0 } }
)* } }
compacts!(u8 u16 u32 u64 u128);
impl<T: HasCompact> Encode for Compact<T> { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { self.0.compact_encode_to(d) } }
impl<'a, T: HasCompact> Encode for CompactRef<'a, T> { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { self.0.compact_encode_to(d) } }
impl<T: HasCompact> Decode for Compact<T> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { T::compact_decode(i).map(Compact) } }
impl<T: HasCompact> EncodeLike for Compact<T> {}
impl<T: HasCompact> MaxEncodedLen for Compact<T> { fn max_encoded_len() -> usize { T::compact_max() } }
pub trait Joiner { fn and<V: Codec + Sized>(self, value: &V) -> Self; }
impl Joiner for Vec<u8> { fn and<V: Codec + Sized>(mut self, value: &V) -> Self { value.encode_to(&mut self); self } }
pub trait KeyedVec { fn to_keyed_vec(&self, prepend_key: &[u8]) -> Vec<u8>; }
impl<T: Encode> KeyedVec for T { fn to_keyed_vec(&self, p: &[u8]) -> Vec<u8> { let mut v = p.to_vec(); self.encode_to(&mut v); v } }
pub mod alloc { pub use std::vec; pub use std::boxed; pub use std::string; pub use std::collections; }
impl Encode for std::convert::Infallible { fn encode_to<W: Output + ?Sized>(&self, _: &mut W) { match *self {} } }
impl Decode for std::convert::Infallible { fn decode<I: Input>(_: &mut I) -> Result<Self, Error> { Err("infallible".into()) } }
impl MaxEncodedLen for std::convert::Infallible { fn max_encoded_len() -> usize { 0 } }
impl EncodeLike for std::convert::Infallible {}
