//! Bounded collections (same behaviour as `bounded-collections`).
use codec::{Decode, DecodeLength, Encode, EncodeLike, Input, MaxEncodedLen, Output};
use crate::Get;
use std::{collections::{BTreeMap, BTreeSet}, marker::PhantomData, ops::{Deref, DerefMut, Index, IndexMut}, slice::SliceIndex};

macro_rules! base { ($N:ident) => {
	pub struct $N<T, S>(pub(crate) Vec<T>, PhantomData<S>);
	impl<T, S> $N<T, S> {
		fn unchecked(v: Vec<T>) -> Self { Self(v, PhantomData) }
		pub fn into_inner(self) -> Vec<T> { self.0 }
		pub fn remove(&mut self, i: usize) -> T { self.0.remove(i) }
		pub fn swap_remove(&mut self, i: usize) -> T { self.0.swap_remove(i) }
		pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.0.retain(f) }
		pub fn retain_mut<F: FnMut(&mut T) -> bool>(&mut self, f: F) { self.0.retain_mut(f) }
		pub fn pop(&mut self) -> Option<T> { self.0.pop() }
		pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
		pub fn clear(&mut self) { self.0.clear() }
		pub fn as_slice(&self) -> &[T] { &self.0 }
		pub fn as_mut(&mut self) -> &mut [T] { &mut self.0 }
		pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> { self.0.iter_mut() }
		pub fn get_mut<I: SliceIndex<[T]>>(&mut self, i: I) -> Option<&mut I::Output> { self.0.get_mut(i) }
		pub fn first_mut(&mut self) -> Option<&mut T> { self.0.first_mut() }
		pub fn last_mut(&mut self) -> Option<&mut T> { self.0.last_mut() }
		pub fn sort(&mut self) where T: Ord { self.0.sort() }
		pub fn sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { self.0.sort_by(f) }
		pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) { self.0.sort_by_key(f) }
		pub fn reverse(&mut self) { self.0.reverse() }
		pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> { self.0.drain(r) }
		pub fn dedup(&mut self) where T: PartialEq { self.0.dedup() }
	}
	impl<T, S: Get<u32>> $N<T, S> {
		pub fn bound() -> usize { S::get() as usize }
		pub fn is_full(&self) -> bool { self.0.len() >= Self::bound() }
		pub fn try_push(&mut self, e: T) -> Result<(), T> { if self.0.len() < Self::bound() { self.0.push(e); Ok(()) } else { Err(e) } }
		pub fn try_insert(&mut self, i: usize, e: T) -> Result<(), T> { if self.0.len() < Self::bound() { self.0.insert(i, e); Ok(()) } else { Err(e) } }
		pub fn force_insert(&mut self, i: usize, e: T) { if self.0.len() < Self::bound() { self.0.insert(i, e) } else { panic!("force_insert on a full vector") } }
		pub fn force_push(&mut self, e: T) { if self.0.len() < Self::bound() { self.0.push(e) } else { panic!("force_push on a full vector") } }
		pub fn try_extend(&mut self, w: impl IntoIterator<Item = T> + ExactSizeIterator) -> Result<(), ()> { if self.0.len().saturating_add(w.len()) <= Self::bound() { self.0.extend(w); Ok(()) } else { Err(()) } }
		pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> { if o.len().saturating_add(self.0.len()) > Self::bound() { return Err(()) } self.0.append(o); Ok(()) }
		pub fn try_rotate_left(&mut self, m: usize) -> Result<(), ()> { if m > self.0.len() { return Err(()) } self.0.rotate_left(m); Ok(()) }
		pub fn try_mutate(mut self, mut f: impl FnMut(&mut Vec<T>)) -> Option<Self> { f(&mut self.0); (self.0.len() <= Self::bound()).then(move || self) }
		pub fn try_collect<I: IntoIterator<Item = T>>(i: I) -> Result<Self, ()> { let v: Vec<T> = i.into_iter().collect(); Self::try_from(v).map_err(|_| ()) }
		pub fn with_bounded_capacity(c: usize) -> Self { Self::unchecked(Vec::with_capacity(c.min(Self::bound()))) }
		pub fn with_max_capacity() -> Self { Self::unchecked(vec![]) }
		pub fn new() -> Self { Self::unchecked(vec![]) }
		pub fn bounded_resize(&mut self, n: usize, v: T) where T: Clone { self.0.resize(n.min(Self::bound()), v) }
		pub fn bounded_truncate(&mut self) { self.0.truncate(Self::bound()) }
	}
	impl<T, S> Default for $N<T, S> { fn default() -> Self { Self::unchecked(vec![]) } }
	impl<T: Clone, S> Clone for $N<T, S> { fn clone(&self) -> Self { Self::unchecked(self.0.clone()) } }
	impl<T: std::fmt::Debug, S: Get<u32>> std::fmt::Debug for $N<T, S> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_tuple(stringify!($N)).field(&self.0).field(&Self::bound()).finish() } }
	impl<T: PartialEq, S, S2> PartialEq<$N<T, S2>> for $N<T, S> { fn eq(&self, o: &$N<T, S2>) -> bool { self.0 == o.0 } }
	impl<T: PartialEq, S> PartialEq<Vec<T>> for $N<T, S> { fn eq(&self, o: &Vec<T>) -> bool { &self.0 == o } }
	impl<'a, T: PartialEq, S> PartialEq<&'a [T]> for $N<T, S> { fn eq(&self, o: &&'a [T]) -> bool { &self.0[..] == *o } }
	impl<T: Eq, S> Eq for $N<T, S> {}
	impl<T: PartialOrd, S> PartialOrd for $N<T, S> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
	impl<T: Ord, S> Ord for $N<T, S> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
	impl<T: std::hash::Hash, S> std::hash::Hash for $N<T, S> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
	impl<T, S> Deref for $N<T, S> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
	impl<T, S> AsRef<Vec<T>> for $N<T, S> { fn as_ref(&self) -> &Vec<T> { &self.0 } }
	impl<T, S> AsRef<[T]> for $N<T, S> { fn as_ref(&self) -> &[T] { &self.0 } }
	impl<T, S> AsMut<[T]> for $N<T, S> { fn as_mut(&mut self) -> &mut [T] { &mut self.0 } }
	impl<T, S, I: SliceIndex<[T]>> Index<I> for $N<T, S> { type Output = I::Output; fn index(&self, i: I) -> &I::Output { self.0.index(i) } }
	impl<T, S, I: SliceIndex<[T]>> IndexMut<I> for $N<T, S> { fn index_mut(&mut self, i: I) -> &mut I::Output { self.0.index_mut(i) } }
	impl<T, S> IntoIterator for $N<T, S> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
	impl<'a, T, S> IntoIterator for &'a $N<T, S> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
	impl<'a, T, S> IntoIterator for &'a mut $N<T, S> { type Item = &'a mut T; type IntoIter = std::slice::IterMut<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() } }
	impl<T, S> From<$N<T, S>> for Vec<T> { fn from(x: $N<T, S>) -> Vec<T> { x.0 } }
	impl<T, S: Get<u32>> TryFrom<Vec<T>> for $N<T, S> { type Error = Vec<T>; fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> { if v.len() <= Self::bound() { Ok(Self::unchecked(v)) } else { Err(v) } } }
	impl<T: Encode, S> Encode for $N<T, S> { fn size_hint(&self) -> usize { self.0.size_hint() } fn encode_to<O: Output + ?Sized>(&self, o: &mut O) { self.0.encode_to(o) } }
	impl<T: Encode, S> EncodeLike for $N<T, S> {}
	impl<T: Encode + Decode, S: Get<u32>> EncodeLike<Vec<T>> for $N<T, S> {}
	impl<T: Encode, S> DecodeLength for $N<T, S> { fn len(e: &[u8]) -> Result<usize, codec::Error> { <Vec<()> as DecodeLength>::len(e) } }
	impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for $N<T, S> { fn max_encoded_len() -> usize { codec::Compact(S::get()).encode().len() + (S::get() as usize).saturating_mul(T::max_encoded_len()) } }
	impl<T: serde::Serialize, S> serde::Serialize for $N<T, S> { fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> { self.0.serialize(s) } }
	impl<'de, T: serde::Deserialize<'de>, S: Get<u32>> serde::Deserialize<'de> for $N<T, S> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let v = Vec::<T>::deserialize(d)?; Self::try_from(v).map_err(|_| serde::de::Error::custom("out of bounds")) } }
}; }
base!(BoundedVec);
base!(WeakBoundedVec);
impl<T, S> BoundedVec<T, S> {
	pub fn last(&self) -> Option<&T> { self.0.last() }
}
impl<T, S: Get<u32>> BoundedVec<T, S> {
	pub fn truncate_from(mut v: Vec<T>) -> Self { v.truncate(Self::bound()); Self::unchecked(v) }
	pub fn force_insert_keep_right(&mut self, i: usize, mut e: T) -> Result<Option<T>, ()> {
		if Self::bound() < i || self.0.len() < i { return Err(()) }
		if self.0.len() < Self::bound() { self.0.insert(i, e); Ok(None) } else { if i == 0 { return Err(()) } std::mem::swap(&mut self.0[0], &mut e); self.0[0..i].rotate_left(1); Ok(Some(e)) } }
	pub fn force_insert_keep_left(&mut self, i: usize, e: T) -> Result<Option<T>, ()> {
		if Self::bound() < i || self.0.len() < i || Self::bound() == 0 || (Self::bound() == i && self.0.len() <= i) { return Err(()) }
		let ret = if Self::bound() == self.0.len() { self.0.pop() } else { None }; self.0.insert(i, e); Ok(ret) }
}
impl<T, S: Get<u32>> WeakBoundedVec<T, S> {
	pub fn force_from(v: Vec<T>, _scope: Option<&'static str>) -> Self { Self::unchecked(v) }
}
impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> { fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> { let v = Vec::<T>::decode(i)?; if v.len() > S::get() as usize { return Err("BoundedVec exceeds its limit".into()) } Ok(Self::unchecked(v)) } }
impl<T: Decode, S: Get<u32>> Decode for WeakBoundedVec<T, S> { fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> { Ok(Self::unchecked(Vec::<T>::decode(i)?)) } }
pub struct BoundedSlice<'a, T, S>(pub &'a [T], PhantomData<S>);
impl<'a, T, S: Get<u32>> TryFrom<&'a [T]> for BoundedSlice<'a, T, S> { type Error = &'a [T]; fn try_from(t: &'a [T]) -> Result<Self, &'a [T]> { if t.len() <= S::get() as usize { Ok(Self(t, PhantomData)) } else { Err(t) } } }
impl<'a, T, S> Deref for BoundedSlice<'a, T, S> { type Target = [T]; fn deref(&self) -> &[T] { self.0 } }

macro_rules! basem { ($N:ident<$K:ident $(, $V:ident)?>, $I:ty, $name:expr) => {
	pub struct $N<$K $(, $V)?, S>($I, PhantomData<S>);
	impl<$K: Ord $(, $V)?, S: Get<u32>> $N<$K $(, $V)?, S> { pub fn new() -> Self { Self(Default::default(), PhantomData) } pub fn bound() -> usize { S::get() as usize } pub fn into_inner(self) -> $I { self.0 } pub fn clear(&mut self) { self.0.clear() } pub fn is_full(&self) -> bool { self.0.len() >= Self::bound() }
		pub fn try_mutate(mut self, mut f: impl FnMut(&mut $I)) -> Option<Self> { f(&mut self.0); (self.0.len() <= Self::bound()).then(move || self) } }
	impl<$K: Ord $(, $V)?, S> Default for $N<$K $(, $V)?, S> { fn default() -> Self { Self(Default::default(), PhantomData) } }
	impl<$K: Ord + Clone $(, $V: Clone)?, S> Clone for $N<$K $(, $V)?, S> { fn clone(&self) -> Self { Self(self.0.clone(), PhantomData) } }
	impl<$K: Ord + std::fmt::Debug $(, $V: std::fmt::Debug)?, S> std::fmt::Debug for $N<$K $(, $V)?, S> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
	impl<$K: Ord + PartialEq $(, $V: PartialEq)?, S> PartialEq for $N<$K $(, $V)?, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
	impl<$K: Ord + Eq $(, $V: Eq)?, S> Eq for $N<$K $(, $V)?, S> {}
	impl<$K: Ord $(, $V)?, S> Deref for $N<$K $(, $V)?, S> { type Target = $I; fn deref(&self) -> &$I { &self.0 } }
	impl<$K: Ord $(, $V)?, S: Get<u32>> TryFrom<$I> for $N<$K $(, $V)?, S> { type Error = (); fn try_from(v: $I) -> Result<Self, ()> { if v.len() <= S::get() as usize { Ok(Self(v, PhantomData)) } else { Err(()) } } }
	impl<$K: Ord + Encode $(, $V: Encode)?, S> Encode for $N<$K $(, $V)?, S> { fn encode_to<O: Output + ?Sized>(&self, o: &mut O) { self.0.encode_to(o) } }
	impl<$K: Ord + Encode $(, $V: Encode)?, S> EncodeLike for $N<$K $(, $V)?, S> {}
	impl<$K: Ord + Decode $(, $V: Decode)?, S: Get<u32>> Decode for $N<$K $(, $V)?, S> { fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> { let v = <$I>::decode(i)?; if v.len() > S::get() as usize { return Err($name.into()) } Ok(Self(v, PhantomData)) } }
	impl<$K: Ord + MaxEncodedLen $(, $V: MaxEncodedLen)?, S: Get<u32>> MaxEncodedLen for $N<$K $(, $V)?, S> { fn max_encoded_len() -> usize { (S::get() as usize).saturating_mul($K::max_encoded_len() $(+ $V::max_encoded_len())?).saturating_add(codec::Compact(S::get()).encode().len()) } }
}; }
basem!(BoundedBTreeMap<K, V>, BTreeMap<K, V>, "BoundedBTreeMap exceeds its limit");
basem!(BoundedBTreeSet<K>, BTreeSet<K>, "BoundedBTreeSet exceeds its limit");
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
	pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> { if self.0.len() < Self::bound() || self.0.contains_key(&k) { Ok(self.0.insert(k, v)) } else { Err((k, v)) } }
	pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<V> where K: std::borrow::Borrow<Q> { self.0.remove(k) }
	pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V> where K: std::borrow::Borrow<Q> { self.0.get_mut(k) }
	pub fn iter_mut(&mut self) -> std::collections::btree_map::IterMut<'_, K, V> { self.0.iter_mut() }
}
impl<K: Ord, S: Get<u32>> BoundedBTreeSet<K, S> {
	pub fn try_insert(&mut self, k: K) -> Result<bool, K> { if self.0.len() < Self::bound() || self.0.contains(&k) { Ok(self.0.insert(k)) } else { Err(k) } }
	pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> bool where K: std::borrow::Borrow<Q> { self.0.remove(k) }
}
impl<K, V, S> IntoIterator for BoundedBTreeMap<K, V, S> { type Item = (K, V); type IntoIter = std::collections::btree_map::IntoIter<K, V>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<K, S> IntoIterator for BoundedBTreeSet<K, S> { type Item = K; type IntoIter = std::collections::btree_set::IntoIter<K>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }

pub trait TryCollect<C> { type Error; fn try_collect(self) -> Result<C, Self::Error>; }
impl<I: ExactSizeIterator + Iterator, B: Get<u32>> TryCollect<BoundedVec<I::Item, B>> for I { type Error = &'static str; fn try_collect(self) -> Result<BoundedVec<I::Item, B>, &'static str> { if self.len() > B::get() as usize { Err("iterator length too big") } else { Ok(BoundedVec::unchecked(self.collect())) } } }
#[allow(unused)] fn _u<T: DerefMut>() {}
