//! Storage access over the `sp-io` store.
use crate::{hash::{ReversibleStorageHasher, StorageHasher}, traits::{Get, StorageInstance}};
use codec::{Decode, Encode, EncodeLike, FullCodec};
use sp_runtime::{DispatchError, TransactionOutcome};
pub use sp_runtime::{bounded_vec as _bv, BoundedVec, WeakBoundedVec};
pub mod bounded_vec { pub use sp_runtime::BoundedVec; }
pub mod weak_bounded_vec { pub use sp_runtime::WeakBoundedVec; }
pub mod bounded_btree_map { pub use sp_runtime::BoundedBTreeMap; }
pub mod bounded_btree_set { pub use sp_runtime::BoundedBTreeSet; }
pub mod unhashed {
	use codec::{Decode, Encode};
	pub fn get<T: Decode>(key: &[u8]) -> Option<T> { sp_io::storage::get(key).and_then(|v| match Decode::decode(&mut &v[..]) { Ok(x) => Some(x), Err(_) => { log::error!("Corrupted state at {:?}", key); None } }) }
	pub fn get_or_default<T: Decode + Default>(key: &[u8]) -> T { get(key).unwrap_or_default() }
	pub fn get_or<T: Decode>(key: &[u8], d: T) -> T { get(key).unwrap_or(d) }
	pub fn put<T: Encode + ?Sized>(key: &[u8], v: &T) { v.using_encoded(|b| sp_io::storage::set(key, b)) }
	pub fn take<T: Decode>(key: &[u8]) -> Option<T> { let v = get(key); if v.is_some() { kill(key) } v }
	pub fn exists(key: &[u8]) -> bool { sp_io::storage::exists(key) }
	pub fn kill(key: &[u8]) { sp_io::storage::clear(key) }
	pub fn kill_prefix(p: &[u8], l: Option<u32>) -> sp_io::KillStorageResult { sp_io::storage::clear_prefix(p, l) }
	pub fn clear_prefix(p: &[u8], l: Option<u32>, _c: Option<&[u8]>) -> sp_io::MultiRemovalResults { sp_io::storage::clear_prefix_multi(p, l) }
	pub fn get_raw(key: &[u8]) -> Option<Vec<u8>> { sp_io::storage::get(key) }
	pub fn put_raw(key: &[u8], v: &[u8]) { sp_io::storage::set(key, v) }
	pub fn contains_prefixed_key(p: &[u8]) -> bool { !sp_io::storage::keys_with_prefix(p).is_empty() }
}
pub mod hashed { use super::unhashed; pub fn get<T: codec::Decode, H: Fn(&[u8]) -> R, R: AsRef<[u8]>>(h: &H, k: &[u8]) -> Option<T> { unhashed::get(h(k).as_ref()) } pub fn put<T: codec::Encode, H: Fn(&[u8]) -> R, R: AsRef<[u8]>>(h: &H, k: &[u8], v: &T) { unhashed::put(h(k).as_ref(), v) } }
pub mod child {}
pub fn storage_prefix(pallet: &[u8], storage: &[u8]) -> [u8; 32] { let mut r = [0u8; 32]; r[..16].copy_from_slice(&sp_io::hashing::twox_128(pallet)); r[16..].copy_from_slice(&sp_io::hashing::twox_128(storage)); r }
pub const TRANSACTIONAL_LIMIT: u32 = 255;
pub fn transaction_level() -> u32 { sp_io::storage::transaction_depth() }
pub fn is_transactional() -> bool { transaction_level() > 0 }
struct Guard(bool);
impl Drop for Guard { fn drop(&mut self) { if !self.0 && sp_io::storage::transaction_depth() > 0 { sp_io::storage::rollback_transaction() } } }
pub fn with_transaction<T, E: From<DispatchError>, F: FnOnce() -> TransactionOutcome<Result<T, E>>>(f: F) -> Result<T, E> {
	if transaction_level() >= TRANSACTIONAL_LIMIT { return Err(DispatchError::Transactional(sp_runtime::TransactionalError::LimitReached).into()) }
	sp_io::storage::start_transaction();
	let mut g = Guard(false);
	let o = f();
	g.0 = true;
	match o { TransactionOutcome::Commit(r) => { sp_io::storage::commit_transaction(); r }, TransactionOutcome::Rollback(r) => { sp_io::storage::rollback_transaction(); r } }
}
pub fn with_transaction_opaque_err<T, E, F: FnOnce() -> TransactionOutcome<Result<T, E>>>(f: F) -> Result<Result<T, E>, ()> {
	sp_io::storage::start_transaction(); let mut g = Guard(false); let o = f(); g.0 = true;
	Ok(match o { TransactionOutcome::Commit(r) => { sp_io::storage::commit_transaction(); r }, TransactionOutcome::Rollback(r) => { sp_io::storage::rollback_transaction(); r } })
}
/// What `#[transactional]` expands to.
pub fn with_transaction_result<T, E: From<DispatchError>>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> { with_transaction(|| { let r = f(); if r.is_ok() { TransactionOutcome::Commit(r) } else { TransactionOutcome::Rollback(r) } }) }
pub fn with_storage_layer<T, E: From<DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> { with_transaction_result(f) }
pub fn in_storage_layer<T, E: From<DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> { if is_transactional() { f() } else { with_storage_layer(f) } }

/// Iterates over the entries below a prefix, from key to next key of the storage as it is when asked: entries made or
/// removed meanwhile beyond the present one are seen or missed, as on a chain.
pub struct PrefixIterator<T> { prefix: Vec<u8>, drain: bool, last: Vec<u8>, f: fn(&[u8], &[u8]) -> Result<T, codec::Error> }
impl<T> PrefixIterator<T> {
	pub fn make(prefix: Vec<u8>, from: Option<Vec<u8>>, f: fn(&[u8], &[u8]) -> Result<T, codec::Error>) -> Self { Self { last: from.unwrap_or(prefix.clone()), prefix, drain: false, f } }
	pub fn drain(mut self) -> Self { self.drain = true; self }
	pub fn last_raw_key(&self) -> &[u8] { &self.last }
}
impl<T> Iterator for PrefixIterator<T> { type Item = T; fn next(&mut self) -> Option<T> { loop { let k = sp_io::storage::next_key(&self.last)?; if !k.starts_with(&self.prefix) { return None } self.last = k; let Some(v) = sp_io::storage::get(&self.last) else { continue }; if self.drain { sp_io::storage::clear(&self.last) } match (self.f)(&self.last[self.prefix.len()..], &v) { Ok(x) => return Some(x), Err(_) => continue } } } }
pub type KeyPrefixIterator<T> = PrefixIterator<T>;

pub mod generator {
	pub trait StorageValue<T: codec::FullCodec> { type Query; fn module_prefix() -> &'static [u8]; fn storage_prefix() -> &'static [u8]; fn storage_value_final_key() -> [u8; 32] { super::storage_prefix(Self::module_prefix(), Self::storage_prefix()) } }
	pub use super::{StorageMap, StorageDoubleMap};
}
// --- traits generic code can use; the types below have inherent methods of the same names
pub trait StorageValue<T: FullCodec> { type Query; fn try_get() -> Result<T, ()>; fn hashed_key() -> [u8; 32]; fn exists() -> bool; fn get() -> Self::Query; fn put<A: EncodeLike<T>>(v: A); fn set(q: Self::Query); fn mutate<R, F: FnOnce(&mut Self::Query) -> R>(f: F) -> R; fn kill(); fn take() -> Self::Query; }
pub trait StorageMap<K: codec::FullEncode, V: FullCodec> { type Query; fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()>; fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8>; fn contains_key<A: EncodeLike<K>>(k: A) -> bool; fn get<A: EncodeLike<K>>(k: A) -> Self::Query; fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B); fn remove<A: EncodeLike<K>>(k: A); fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut Self::Query) -> R>(k: A, f: F) -> R; fn take<A: EncodeLike<K>>(k: A) -> Self::Query; }
pub trait IterableStorageMap<K: codec::FullEncode, V: FullCodec>: StorageMap<K, V> { type Iterator: Iterator<Item = (K, V)>; type KeyIterator: Iterator<Item = K>; fn iter_keys() -> Self::KeyIterator; fn iter() -> Self::Iterator; fn drain() -> Self::Iterator; }
pub trait StorageDoubleMap<K1: FullCodec, K2: FullCodec, V: FullCodec> { type Query; fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(k: A, b: B) -> bool; fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(k: A, b: B) -> Self::Query; fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<V>>(k: A, b: B, v: C); fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(k: A, b: B); }
pub trait IterableStorageDoubleMap<K1: FullCodec, K2: FullCodec, V: FullCodec>: StorageDoubleMap<K1, K2, V> { fn iter() -> PrefixIterator<(K1, K2, V)>; }
pub trait StoragePrefixedMap<V: FullCodec> { fn module_prefix() -> &'static [u8]; fn storage_prefix() -> &'static [u8]; fn final_prefix() -> [u8; 32] { storage_prefix(Self::module_prefix(), Self::storage_prefix()) } fn iter_values() -> PrefixIterator<V>; }
pub trait StorageAppend<I: Encode> {} pub trait StorageDecodeLength {} pub trait StorageTryAppend<I> {}
impl<T: Encode> StorageAppend<T> for Vec<T> {} impl<T> StorageDecodeLength for Vec<T> {} impl<T, S> StorageDecodeLength for BoundedVec<T, S> {}
impl<T, S> StorageDecodeLength for WeakBoundedVec<T, S> {}
impl<T: Encode> StorageAppend<T> for std::collections::BTreeSet<T> {}
pub trait TryAppendBound<I> { fn bound() -> usize; }
impl<T: Encode, S: Get<u32>> TryAppendBound<T> for BoundedVec<T, S> { fn bound() -> usize { S::get() as usize } }
impl<T: Encode, S: Get<u32>> TryAppendBound<T> for WeakBoundedVec<T, S> { fn bound() -> usize { S::get() as usize } }
fn len_at(k: &[u8]) -> Option<usize> { sp_io::storage::get(k).and_then(|v| codec::Compact::<u32>::decode(&mut &v[..]).ok().map(|c| c.0 as usize)) }
fn clear_limited(p: &[u8], limit: u32) -> sp_io::MultiRemovalResults { sp_io::storage::clear_prefix_multi(p, Some(limit)) }

pub mod types {
	use super::*;
	use std::marker::PhantomData;
	pub use crate::traits::GetDefault;
	pub struct OptionQuery; pub struct ValueQuery; pub struct ResultQuery<E>(PhantomData<E>);
	pub trait QueryKindTrait<Value, OnEmpty> { type Query: 'static; fn from_optional_value_to_query(v: Option<Value>) -> Self::Query; fn from_query_to_optional_value(v: Self::Query) -> Option<Value>; }
	impl<V: 'static> QueryKindTrait<V, GetDefault> for OptionQuery { type Query = Option<V>; fn from_optional_value_to_query(v: Option<V>) -> Option<V> { v } fn from_query_to_optional_value(v: Option<V>) -> Option<V> { v } }
	impl<V: 'static, O: Get<V>> QueryKindTrait<V, O> for ValueQuery { type Query = V; fn from_optional_value_to_query(v: Option<V>) -> V { v.unwrap_or_else(O::get) } fn from_query_to_optional_value(v: V) -> Option<V> { Some(v) } }
	impl<V: 'static, E: Get<E> + 'static> QueryKindTrait<V, GetDefault> for ResultQuery<E> { type Query = Result<V, E>; fn from_optional_value_to_query(v: Option<V>) -> Result<V, E> { v.ok_or_else(E::get) } fn from_query_to_optional_value(v: Result<V, E>) -> Option<V> { v.ok() } }
	fn pfx<P: StorageInstance>() -> Vec<u8> { storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes()).to_vec() }

	pub struct StorageValue<Prefix, Value, QueryKind = OptionQuery, OnEmpty = GetDefault>(PhantomData<(Prefix, Value, QueryKind, OnEmpty)>);
	impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, O>, O> StorageValue<P, V, Q, O> {
		pub fn hashed_key() -> [u8; 32] { storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes()) }
		pub fn exists() -> bool { unhashed::exists(&Self::hashed_key()) }
		pub fn get() -> Q::Query { Q::from_optional_value_to_query(unhashed::get(&Self::hashed_key())) }
		pub fn try_get() -> Result<V, ()> { unhashed::get(&Self::hashed_key()).ok_or(()) }
		pub fn translate<D: Decode, F: FnOnce(Option<D>) -> Option<V>>(f: F) -> Result<Option<V>, ()> { let k = Self::hashed_key(); let old = match unhashed::get_raw(&k) { Some(o) => Some(D::decode(&mut &o[..]).map_err(|_| ())?), None => None }; let n = f(old); match &n { Some(v) => unhashed::put(&k, v), None => unhashed::kill(&k) } Ok(n) }
		pub fn put<A: EncodeLike<V>>(v: A) { unhashed::put(&Self::hashed_key(), &v) }
		pub fn set(q: Q::Query) { match Q::from_query_to_optional_value(q) { Some(v) => unhashed::put(&Self::hashed_key(), &v), None => Self::kill() } }
		pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R { let mut q = Self::get(); let r = f(&mut q); Self::set(q); r }
		pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R { let mut q = unhashed::get(&Self::hashed_key()); let r = f(&mut q); match q { Some(v) => unhashed::put(&Self::hashed_key(), &v), None => Self::kill() } r }
		pub fn try_mutate<R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(f: F) -> Result<R, E> { let mut q = Self::get(); let r = f(&mut q); if r.is_ok() { Self::set(q) } r }
		pub fn try_mutate_exists<R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(f: F) -> Result<R, E> { let mut q = unhashed::get(&Self::hashed_key()); let r = f(&mut q); if r.is_ok() { match q { Some(v) => unhashed::put(&Self::hashed_key(), &v), None => Self::kill() } } r }
		pub fn kill() { unhashed::kill(&Self::hashed_key()) }
		pub fn take() -> Q::Query { let v = unhashed::get(&Self::hashed_key()); if v.is_some() { Self::kill() } Q::from_optional_value_to_query(v) }
		pub fn append<I: Encode, E: EncodeLike<I>>(i: E) where V: StorageAppend<I> { sp_io::storage::append(&Self::hashed_key(), i.encode()) }
		pub fn try_append<I: Encode, E: EncodeLike<I>>(i: E) -> Result<(), ()> where V: TryAppendBound<I> { let k = Self::hashed_key(); if len_at(&k).unwrap_or(0) < V::bound() { sp_io::storage::append(&k, i.encode()); Ok(()) } else { Err(()) } }
		pub fn decode_len() -> Option<usize> where V: StorageDecodeLength { len_at(&Self::hashed_key()) }
	}
	impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, O>, O> super::StorageValue<V> for StorageValue<P, V, Q, O> { type Query = Q::Query; fn try_get() -> Result<V, ()> { Self::try_get() }
		fn hashed_key() -> [u8; 32] { Self::hashed_key() } fn exists() -> bool { Self::exists() } fn get() -> Q::Query { Self::get() } fn put<A: EncodeLike<V>>(v: A) { Self::put(v) } fn set(q: Q::Query) { Self::set(q) } fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R { Self::mutate(f) } fn kill() { Self::kill() } fn take() -> Q::Query { Self::take() } }
	impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, O>, O> super::generator::StorageValue<V> for StorageValue<P, V, Q, O> { type Query = Q::Query; fn module_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() } fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() } }

	pub struct StorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>);
	impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageMap<P, H, K, V, Q, O, M> {
		pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> { let mut r = pfx::<P>(); r.extend_from_slice(k.using_encoded(H::hash).as_ref()); r }
		pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool { unhashed::exists(&Self::hashed_key_for(k)) }
		pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query { Q::from_optional_value_to_query(unhashed::get(&Self::hashed_key_for(k))) }
		pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> { unhashed::get(&Self::hashed_key_for(k)).ok_or(()) }
		pub fn set<A: EncodeLike<K>>(k: A, q: Q::Query) { Self::wr(&Self::hashed_key_for(k), Q::from_query_to_optional_value(q)) }
		fn wr(k: &[u8], v: Option<V>) { match v { Some(v) => unhashed::put(k, &v), None => unhashed::kill(k) } }
		pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) { let (a, b) = (Self::hashed_key_for(a), Self::hashed_key_for(b)); let (x, y) = (unhashed::get::<V>(&a), unhashed::get::<V>(&b)); Self::wr(&a, y); Self::wr(&b, x) }
		pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) { unhashed::put(&Self::hashed_key_for(k), &v) }
		pub fn remove<A: EncodeLike<K>>(k: A) { unhashed::kill(&Self::hashed_key_for(k)) }
		pub fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R { let k = Self::hashed_key_for(k); let mut q = Q::from_optional_value_to_query(unhashed::get(&k)); let r = f(&mut q); Self::wr(&k, Q::from_query_to_optional_value(q)); r }
		pub fn try_mutate<A: EncodeLike<K>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(k: A, f: F) -> Result<R, E> { let k = Self::hashed_key_for(k); let mut q = Q::from_optional_value_to_query(unhashed::get(&k)); let r = f(&mut q); if r.is_ok() { Self::wr(&k, Q::from_query_to_optional_value(q)) } r }
		pub fn mutate_exists<A: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R { let k = Self::hashed_key_for(k); let mut q = unhashed::get(&k); let r = f(&mut q); Self::wr(&k, q); r }
		pub fn try_mutate_exists<A: EncodeLike<K>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(k: A, f: F) -> Result<R, E> { let k = Self::hashed_key_for(k); let mut q = unhashed::get(&k); let r = f(&mut q); if r.is_ok() { Self::wr(&k, q) } r }
		pub fn take<A: EncodeLike<K>>(k: A) -> Q::Query { Q::from_optional_value_to_query(unhashed::take(&Self::hashed_key_for(k))) }
		pub fn append<I: Encode, E: EncodeLike<I>, A: EncodeLike<K>>(k: A, i: E) where V: StorageAppend<I> { sp_io::storage::append(&Self::hashed_key_for(k), i.encode()) }
		pub fn try_append<A: EncodeLike<K>, I: Encode, E: EncodeLike<I>>(k: A, i: E) -> Result<(), ()> where V: TryAppendBound<I> { let k = Self::hashed_key_for(k); if len_at(&k).unwrap_or(0) < V::bound() { sp_io::storage::append(&k, i.encode()); Ok(()) } else { Err(()) } }
		pub fn decode_len<A: EncodeLike<K>>(k: A) -> Option<usize> where V: StorageDecodeLength { len_at(&Self::hashed_key_for(k)) }
		pub fn iter_values() -> PrefixIterator<V> { PrefixIterator::make(pfx::<P>(), None, |_, mut v| V::decode(&mut v)) }
		pub fn clear(limit: u32, _c: Option<&[u8]>) -> sp_io::MultiRemovalResults { clear_limited(&pfx::<P>(), limit) }
		pub fn remove_all(l: Option<u32>) -> sp_io::KillStorageResult { unhashed::kill_prefix(&pfx::<P>(), l) }
		pub fn translate_values<D: Decode, F: FnMut(D) -> Option<V>>(mut f: F) { let p = pfx::<P>(); for k in sp_io::storage::keys_with_prefix(&p) { if let Some(o) = unhashed::get::<D>(&k) { Self::wr(&k, f(o)) } } }
		pub fn final_prefix() -> [u8; 32] { storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes()) }
		pub fn module_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() }
		pub fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() }
	}
	impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageMap<P, H, K, V, Q, O, M> {
		pub fn iter() -> PrefixIterator<(K, V)> { PrefixIterator::make(pfx::<P>(), None, |k, mut v| Ok((K::decode(&mut H::reverse(k))?, V::decode(&mut v)?))) }
		pub fn iter_from(from: Vec<u8>) -> PrefixIterator<(K, V)> { PrefixIterator::make(pfx::<P>(), Some(from), |k, mut v| Ok((K::decode(&mut H::reverse(k))?, V::decode(&mut v)?))) }
		pub fn iter_from_key(k: impl EncodeLike<K>) -> PrefixIterator<(K, V)> { Self::iter_from(Self::hashed_key_for(k)) }
		pub fn iter_keys() -> PrefixIterator<K> { PrefixIterator::make(pfx::<P>(), None, |k, _| K::decode(&mut H::reverse(k))) }
		pub fn iter_keys_from(f: Vec<u8>) -> PrefixIterator<K> { PrefixIterator::make(pfx::<P>(), Some(f), |k, _| K::decode(&mut H::reverse(k))) }
		pub fn drain() -> PrefixIterator<(K, V)> { Self::iter().drain() }
		pub fn translate<D: Decode, F: FnMut(K, D) -> Option<V>>(mut f: F) { let p = pfx::<P>(); for k in sp_io::storage::keys_with_prefix(&p) { if let (Some(o), Ok(kk)) = (unhashed::get::<D>(&k), K::decode(&mut H::reverse(&k[p.len()..]))) { Self::wr(&k, f(kk, o)) } } }
	}
	impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> super::StorageMap<K, V> for StorageMap<P, H, K, V, Q, O, M> { type Query = Q::Query; fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> { Self::try_get(k) }
		fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> { Self::hashed_key_for(k) } fn contains_key<A: EncodeLike<K>>(k: A) -> bool { Self::contains_key(k) } fn get<A: EncodeLike<K>>(k: A) -> Q::Query { Self::get(k) } fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) { Self::insert(k, v) } fn remove<A: EncodeLike<K>>(k: A) { Self::remove(k) } fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R { Self::mutate(k, f) } fn take<A: EncodeLike<K>>(k: A) -> Q::Query { Self::take(k) } }
	impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> super::IterableStorageMap<K, V> for StorageMap<P, H, K, V, Q, O, M> { type Iterator = PrefixIterator<(K, V)>; type KeyIterator = PrefixIterator<K>; fn iter_keys() -> PrefixIterator<K> { Self::iter_keys() } fn iter() -> PrefixIterator<(K, V)> { Self::iter() } fn drain() -> PrefixIterator<(K, V)> { Self::drain() } }
	impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> super::StoragePrefixedMap<V> for StorageMap<P, H, K, V, Q, O, M> { fn module_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() } fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() } fn iter_values() -> PrefixIterator<V> { Self::iter_values() } }

	/// A map that also keeps its number of entries.
	pub struct CountedStorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>);
	type Inner<P, H, K, V, Q, O, M> = StorageMap<P, H, K, V, Q, O, M>;
	impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> CountedStorageMap<P, H, K, V, Q, O, M> {
		fn ck() -> [u8; 32] { storage_prefix(P::pallet_prefix().as_bytes(), P::COUNTER_PREFIX.as_bytes()) }
		fn add(d: i64) { let n = (Self::count() as i64 + d) as u32; unhashed::put(&Self::ck(), &n) }
		pub fn count() -> u32 { unhashed::get_or_default(&Self::ck()) }
		pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool { Inner::<P, H, K, V, Q, O, M>::contains_key(k) }
		pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query { Inner::<P, H, K, V, Q, O, M>::get(k) }
		pub fn insert<A: EncodeLike<K> + Clone, B: EncodeLike<V>>(k: A, v: B) { if !Self::contains_key(k.clone()) { Self::add(1) } Inner::<P, H, K, V, Q, O, M>::insert(k, v) }
		pub fn remove<A: EncodeLike<K> + Clone>(k: A) { if Self::contains_key(k.clone()) { Self::add(-1) } Inner::<P, H, K, V, Q, O, M>::remove(k) }
		pub fn take<A: EncodeLike<K> + Clone>(k: A) -> Q::Query { if Self::contains_key(k.clone()) { Self::add(-1) } Inner::<P, H, K, V, Q, O, M>::take(k) }
		pub fn mutate<A: EncodeLike<K> + Clone, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R { let b = Self::contains_key(k.clone()); let r = Inner::<P, H, K, V, Q, O, M>::mutate(k.clone(), f); let a = Self::contains_key(k); Self::add(a as i64 - b as i64); r }
		pub fn iter() -> PrefixIterator<(K, V)> { Inner::<P, H, K, V, Q, O, M>::iter() }
		pub fn try_mutate<A: EncodeLike<K> + Clone, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(k: A, f: F) -> Result<R, E> { let b = Self::contains_key(k.clone()); let r = Inner::<P, H, K, V, Q, O, M>::try_mutate(k.clone(), f); let a = Self::contains_key(k); Self::add(a as i64 - b as i64); r }
		pub fn mutate_exists<A: EncodeLike<K> + Clone, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R { let b = Self::contains_key(k.clone()); let r = Inner::<P, H, K, V, Q, O, M>::mutate_exists(k.clone(), f); let a = Self::contains_key(k); Self::add(a as i64 - b as i64); r }
		pub fn try_mutate_exists<A: EncodeLike<K> + Clone, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(k: A, f: F) -> Result<R, E> { let b = Self::contains_key(k.clone()); let r = Inner::<P, H, K, V, Q, O, M>::try_mutate_exists(k.clone(), f); let a = Self::contains_key(k); Self::add(a as i64 - b as i64); r }
		pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> { Inner::<P, H, K, V, Q, O, M>::try_get(k) }
		pub fn set<A: EncodeLike<K> + Clone>(k: A, q: Q::Query) { let b = Self::contains_key(k.clone()); Inner::<P, H, K, V, Q, O, M>::set(k.clone(), q); let a = Self::contains_key(k); Self::add(a as i64 - b as i64) }
		pub fn iter_keys() -> PrefixIterator<K> { Inner::<P, H, K, V, Q, O, M>::iter_keys() }
		pub fn iter_values() -> PrefixIterator<V> { Inner::<P, H, K, V, Q, O, M>::iter_values() }
		pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> { Inner::<P, H, K, V, Q, O, M>::hashed_key_for(k) }
	}

	pub struct StorageDoubleMap<Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(PhantomData<(Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind, OnEmpty, MaxValues)>);
	impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: StorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M> {
		fn p1<A: EncodeLike<K1>>(k: A) -> Vec<u8> { let mut r = pfx::<P>(); r.extend_from_slice(k.using_encoded(H1::hash).as_ref()); r }
		fn wr(k: &[u8], v: Option<V>) { match v { Some(v) => unhashed::put(k, &v), None => unhashed::kill(k) } }
		pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> { let mut r = Self::p1(a); r.extend_from_slice(b.using_encoded(H2::hash).as_ref()); r }
		pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool { unhashed::exists(&Self::hashed_key_for(a, b)) }
		pub fn contains_prefix<A: EncodeLike<K1>>(a: A) -> bool { unhashed::contains_prefixed_key(&Self::p1(a)) }
		pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query { Q::from_optional_value_to_query(unhashed::get(&Self::hashed_key_for(a, b))) }
		pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<V, ()> { unhashed::get(&Self::hashed_key_for(a, b)).ok_or(()) }
		pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, q: Q::Query) { Self::wr(&Self::hashed_key_for(a, b), Q::from_query_to_optional_value(q)) }
		pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query { Q::from_optional_value_to_query(unhashed::take(&Self::hashed_key_for(a, b))) }
		pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<V>>(a: A, b: B, v: C) { unhashed::put(&Self::hashed_key_for(a, b), &v) }
		pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) { unhashed::kill(&Self::hashed_key_for(a, b)) }
		pub fn swap<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<K1>, D: EncodeLike<K2>>(a: A, b: B, c: C, d: D) { let (a, b) = (Self::hashed_key_for(a, b), Self::hashed_key_for(c, d)); let (x, y) = (unhashed::get::<V>(&a), unhashed::get::<V>(&b)); Self::wr(&a, y); Self::wr(&b, x) }
		pub fn remove_prefix<A: EncodeLike<K1>>(a: A, l: Option<u32>) -> sp_io::KillStorageResult { unhashed::kill_prefix(&Self::p1(a), l) }
		pub fn clear_prefix<A: EncodeLike<K1>>(a: A, l: u32, _c: Option<&[u8]>) -> sp_io::MultiRemovalResults { clear_limited(&Self::p1(a), l) }
		pub fn clear(limit: u32, _c: Option<&[u8]>) -> sp_io::MultiRemovalResults { clear_limited(&pfx::<P>(), limit) }
		pub fn remove_all(l: Option<u32>) -> sp_io::KillStorageResult { unhashed::kill_prefix(&pfx::<P>(), l) }
		pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Q::Query) -> R>(a: A, b: B, f: F) -> R { let k = Self::hashed_key_for(a, b); let mut q = Q::from_optional_value_to_query(unhashed::get(&k)); let r = f(&mut q); Self::wr(&k, Q::from_query_to_optional_value(q)); r }
		pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(a: A, b: B, f: F) -> Result<R, E> { let k = Self::hashed_key_for(a, b); let mut q = Q::from_optional_value_to_query(unhashed::get(&k)); let r = f(&mut q); if r.is_ok() { Self::wr(&k, Q::from_query_to_optional_value(q)) } r }
		pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<V>) -> R>(a: A, b: B, f: F) -> R { let k = Self::hashed_key_for(a, b); let mut q = unhashed::get(&k); let r = f(&mut q); Self::wr(&k, q); r }
		pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(a: A, b: B, f: F) -> Result<R, E> { let k = Self::hashed_key_for(a, b); let mut q = unhashed::get(&k); let r = f(&mut q); if r.is_ok() { Self::wr(&k, q) } r }
		pub fn append<I: Encode, E: EncodeLike<I>, A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, i: E) where V: StorageAppend<I> { sp_io::storage::append(&Self::hashed_key_for(a, b), i.encode()) }
		pub fn try_append<A: EncodeLike<K1>, B: EncodeLike<K2>, I: Encode, E: EncodeLike<I>>(a: A, b: B, i: E) -> Result<(), ()> where V: TryAppendBound<I> { let k = Self::hashed_key_for(a, b); if len_at(&k).unwrap_or(0) < V::bound() { sp_io::storage::append(&k, i.encode()); Ok(()) } else { Err(()) } }
		pub fn decode_len<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Option<usize> where V: StorageDecodeLength { len_at(&Self::hashed_key_for(a, b)) }
		pub fn iter_values() -> PrefixIterator<V> { PrefixIterator::make(pfx::<P>(), None, |_, mut v| V::decode(&mut v)) }
		pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> PrefixIterator<V> { PrefixIterator::make(Self::p1(a), None, |_, mut v| V::decode(&mut v)) }
		pub fn final_prefix() -> [u8; 32] { storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes()) }
		pub fn translate_values<D: Decode, F: FnMut(D) -> Option<V>>(mut f: F) { let p = pfx::<P>(); for k in sp_io::storage::keys_with_prefix(&p) { if let Some(o) = unhashed::get::<D>(&k) { Self::wr(&k, f(o)) } } }
	}
	impl<P: StorageInstance, H1: ReversibleStorageHasher, K1: FullCodec, H2: ReversibleStorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M> {
		fn keys(k: &[u8]) -> Result<(K1, K2), codec::Error> { let mut x = H1::reverse(k); let a = K1::decode(&mut x)?; let b = K2::decode(&mut H2::reverse(x))?; Ok((a, b)) }
		pub fn iter() -> PrefixIterator<(K1, K2, V)> { PrefixIterator::make(pfx::<P>(), None, |k, mut v| { let (a, b) = Self::keys(k)?; Ok((a, b, V::decode(&mut v)?)) }) }
		pub fn iter_keys() -> PrefixIterator<(K1, K2)> { PrefixIterator::make(pfx::<P>(), None, |k, _| Self::keys(k)) }
		pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<(K2, V)> { PrefixIterator::make(Self::p1(a), None, |k, mut v| Ok((K2::decode(&mut H2::reverse(k))?, V::decode(&mut v)?))) }
		pub fn iter_prefix_from<A: EncodeLike<K1>>(a: A, from: Vec<u8>) -> PrefixIterator<(K2, V)> { PrefixIterator::make(Self::p1(a), Some(from), |k, mut v| Ok((K2::decode(&mut H2::reverse(k))?, V::decode(&mut v)?))) }
		pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<K2> { PrefixIterator::make(Self::p1(a), None, |k, _| K2::decode(&mut H2::reverse(k))) }
		pub fn drain_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<(K2, V)> { Self::iter_prefix(a).drain() }
		pub fn drain() -> PrefixIterator<(K1, K2, V)> { Self::iter().drain() }
		pub fn translate<D: Decode, F: FnMut(K1, K2, D) -> Option<V>>(mut f: F) { let p = pfx::<P>(); for k in sp_io::storage::keys_with_prefix(&p) { if let (Some(o), Ok((a, b))) = (unhashed::get::<D>(&k), Self::keys(&k[p.len()..])) { Self::wr(&k, f(a, b, o)) } } }
	}
	impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: StorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> super::StorageDoubleMap<K1, K2, V> for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M> { type Query = Q::Query;
		fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool { Self::contains_key(a, b) } fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query { Self::get(a, b) } fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<V>>(a: A, b: B, v: C) { Self::insert(a, b, v) } fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) { Self::remove(a, b) } }
	impl<P: StorageInstance, H1: ReversibleStorageHasher, K1: FullCodec, H2: ReversibleStorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O, M> super::IterableStorageDoubleMap<K1, K2, V> for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M> { fn iter() -> PrefixIterator<(K1, K2, V)> { Self::iter() } }
}
pub mod migration {
	use super::*;
	fn key(m: &[u8], i: &[u8], h: &[u8]) -> Vec<u8> { let mut k = storage_prefix(m, i).to_vec(); k.extend_from_slice(h); k }
	pub fn have_storage_value(m: &[u8], i: &[u8], h: &[u8]) -> bool { unhashed::exists(&key(m, i, h)) }
	pub fn get_storage_value<T: Decode>(m: &[u8], i: &[u8], h: &[u8]) -> Option<T> { unhashed::get(&key(m, i, h)) }
	pub fn take_storage_value<T: Decode>(m: &[u8], i: &[u8], h: &[u8]) -> Option<T> { unhashed::take(&key(m, i, h)) }
	pub fn put_storage_value<T: Encode>(m: &[u8], i: &[u8], h: &[u8], v: T) { unhashed::put(&key(m, i, h), &v) }
	pub fn take_storage_item<K: Encode, T: Decode, H: StorageHasher>(m: &[u8], i: &[u8], k: K) -> Option<T> { take_storage_value(m, i, k.using_encoded(H::hash).as_ref()) }
	pub fn clear_storage_prefix(m: &[u8], i: &[u8], h: &[u8], l: Option<u32>, _c: Option<&[u8]>) -> sp_io::MultiRemovalResults { sp_io::storage::clear_prefix_multi(&key(m, i, h), l) }
	pub fn move_storage_from_pallet(i: &[u8], old: &[u8], new: &[u8]) { let (o, n) = (storage_prefix(old, i), storage_prefix(new, i)); move_prefix(&o, &n); if let Some(v) = unhashed::get_raw(&o) { unhashed::put_raw(&n, &v); unhashed::kill(&o) } }
	pub fn move_pallet(old: &[u8], new: &[u8]) { move_prefix(&sp_io::hashing::twox_128(old), &sp_io::hashing::twox_128(new)) }
	pub fn move_prefix(from: &[u8], to: &[u8]) { if from == to { return } for k in sp_io::storage::keys_with_prefix(from) { if k.len() == from.len() { continue } if let Some(v) = unhashed::get_raw(&k) { unhashed::put_raw(&[to, &k[from.len()..]].concat(), &v); unhashed::kill(&k) } } }
	pub fn storage_iter<T: Decode>(m: &[u8], i: &[u8]) -> PrefixIterator<(Vec<u8>, T)> { PrefixIterator::make(storage_prefix(m, i).to_vec(), None, |k, mut v| Ok((k.to_vec(), T::decode(&mut v)?))) }
	pub fn storage_key_iter<K: Decode, T: Decode, H: ReversibleStorageHasher>(m: &[u8], i: &[u8]) -> PrefixIterator<(K, T)> { PrefixIterator::make(storage_prefix(m, i).to_vec(), None, |k, mut v| Ok((K::decode(&mut H::reverse(k))?, T::decode(&mut v)?))) }
}
