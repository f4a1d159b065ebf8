//! Host functions over a thread-local, transactional key/value store.
use sp_core::storage::Storage;
use std::{any::{Any, TypeId}, cell::RefCell, collections::{BTreeMap, HashMap}, ops::Bound, rc::Rc};

#[derive(Default)]
struct Ext { top: BTreeMap<Vec<u8>, Vec<u8>>, journal: Vec<Vec<(Vec<u8>, Option<Vec<u8>>)>>, exts: Rc<RefCell<HashMap<TypeId, Box<dyn Any>>>>, reads: u64, writes: u64 }
thread_local! { static EXT: RefCell<Option<Ext>> = const { RefCell::new(None) }; }
fn with<R>(f: impl FnOnce(&mut Ext) -> R) -> R { EXT.with(|e| f(e.borrow_mut().as_mut().expect("storage accessed outside of an externalities environment"))) }
pub fn in_externalities() -> bool { EXT.with(|e| e.try_borrow().map(|x| x.is_some()).unwrap_or(true)) }
impl Ext {
	fn put(&mut self, k: &[u8], v: Option<Vec<u8>>) {
		self.writes += 1;
		let old = match v { Some(v) => self.top.insert(k.to_vec(), v), None => self.top.remove(k) };
		if let Some(j) = self.journal.last_mut() { j.push((k.to_vec(), old)) }
	}
	fn rollback(&mut self) { if let Some(j) = self.journal.pop() { for (k, o) in j.into_iter().rev() { match o { Some(v) => { self.top.insert(k, v); }, None => { self.top.remove(&k); } } } } }
	fn commit(&mut self) { let j = self.journal.pop().expect("open transaction"); if let Some(p) = self.journal.last_mut() { p.extend(j) } }
}
/// What a test or a monitor can see of the store without going through a pallet.
pub mod inspect {
	use super::*;
	pub fn snapshot() -> BTreeMap<Vec<u8>, Vec<u8>> { with(|e| e.top.clone()) }
	pub fn counters() -> (u64, u64) { with(|e| (e.reads, e.writes)) }
	pub fn depth() -> usize { with(|e| e.journal.len()) }
	pub fn restore(s: BTreeMap<Vec<u8>, Vec<u8>>) { with(|e| { e.top = s; e.journal.clear(); }) }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum KillStorageResult { AllRemoved(u32), SomeRemaining(u32) }
pub struct MultiRemovalResults { pub maybe_cursor: Option<Vec<u8>>, pub backend: u32, pub unique: u32, pub loops: u32 }
impl MultiRemovalResults { pub fn deconstruct(self) -> (Option<Vec<u8>>, u32, u32, u32) { (self.maybe_cursor, self.backend, self.unique, self.loops) } }
pub mod storage {
	use super::*;
	pub fn get(k: &[u8]) -> Option<Vec<u8>> { with(|e| { e.reads += 1; e.top.get(k).cloned() }) }
	pub fn read(k: &[u8], out: &mut [u8], off: u32) -> Option<u32> { get(k).map(|v| { let d = v.get(off as usize..).unwrap_or(&[]); let n = d.len().min(out.len()); out[..n].copy_from_slice(&d[..n]); d.len() as u32 }) }
	pub fn set(k: &[u8], v: &[u8]) { with(|e| e.put(k, Some(v.to_vec()))) }
	pub fn exists(k: &[u8]) -> bool { with(|e| { e.reads += 1; e.top.contains_key(k) }) }
	pub fn clear(k: &[u8]) { with(|e| e.put(k, None)) }
	fn range(e: &Ext, p: &[u8]) -> Vec<Vec<u8>> { e.top.range::<[u8], _>((Bound::Included(p), Bound::Unbounded)).take_while(|(k, _)| k.starts_with(p)).map(|(k, _)| k.clone()).collect() }
	pub fn keys_with_prefix(p: &[u8]) -> Vec<Vec<u8>> { with(|e| range(e, p)) }
	pub fn clear_prefix(p: &[u8], limit: Option<u32>) -> KillStorageResult { let r = clear_prefix_multi(p, limit); if r.maybe_cursor.is_some() { KillStorageResult::SomeRemaining(r.unique) } else { KillStorageResult::AllRemoved(r.unique) } }
	pub fn clear_prefix_multi(p: &[u8], limit: Option<u32>) -> MultiRemovalResults { with(|e| { let ks = range(e, p); let n = limit.map(|l| l as usize).unwrap_or(usize::MAX).min(ks.len()); for k in &ks[..n] { e.put(k, None) } MultiRemovalResults { maybe_cursor: ks.get(n).cloned(), backend: n as u32, unique: n as u32, loops: n as u32 } }) }
	pub fn next_key(k: &[u8]) -> Option<Vec<u8>> { with(|e| e.top.range::<[u8], _>((Bound::Excluded(k), Bound::Unbounded)).next().map(|(k, _)| k.clone())) }
	pub fn append(k: &[u8], v: Vec<u8>) {
		let old = get(k).unwrap_or_default(); let new = codec::append_or_new(old, &v).unwrap_or_else(|_| codec::append_or_new(vec![], &v).expect("one item")); set(k, &new) }
	pub fn root(_v: sp_core::storage::StateVersion) -> Vec<u8> { with(|e| { let mut b = vec![]; for (k, v) in &e.top { b.extend((k.len() as u32).to_le_bytes()); b.extend(k); b.extend((v.len() as u32).to_le_bytes()); b.extend(v); } sp_core::blake2_256(&b).to_vec() }) }
	pub fn start_transaction() { with(|e| e.journal.push(vec![])) }
	pub fn rollback_transaction() { with(|e| e.rollback()) }
	pub fn commit_transaction() { with(|e| e.commit()) }
	pub fn transaction_depth() -> u32 { with(|e| e.journal.len() as u32) }
}
pub mod trie { pub fn blake2_256_ordered_root(v: Vec<Vec<u8>>, _: sp_core::storage::StateVersion) -> sp_core::H256 { sp_core::blake2_256(&codec::Encode::encode(&v)).into() } }
pub mod hashing { pub use sp_core::hashing::*; }
#[derive(Clone, Copy, PartialEq, Eq, Debug, codec::Encode, codec::Decode)]
pub enum EcdsaVerifyError { BadRS, BadV, BadSignature }
pub mod crypto {
	use super::EcdsaVerifyError;
	use sp_core::{crypto::Pair, ecdsa, ed25519, sr25519};
	fn rec(sig: &[u8; 65], msg: &[u8; 32]) -> Result<libsecp256k1::PublicKey, EcdsaVerifyError> {
		let id = libsecp256k1::RecoveryId::parse(if sig[64] > 26 { sig[64] - 27 } else { sig[64] }).map_err(|_| EcdsaVerifyError::BadV)?;
		let s = libsecp256k1::Signature::parse_standard_slice(&sig[..64]).map_err(|_| EcdsaVerifyError::BadRS)?;
		libsecp256k1::recover(&libsecp256k1::Message(*msg), &s, &id).map_err(|_| EcdsaVerifyError::BadSignature) }
	pub fn secp256k1_ecdsa_recover(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 64], EcdsaVerifyError> { rec(sig, msg).map(|p| p.serialize()[1..].try_into().unwrap()) }
	pub fn secp256k1_ecdsa_recover_compressed(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 33], EcdsaVerifyError> { rec(sig, msg).map(|p| p.serialize_compressed()) }
	pub fn ecdsa_verify(s: &ecdsa::Signature, m: &[u8], p: &ecdsa::Public) -> bool { ecdsa::Pair::verify(s, m, p) }
	pub fn ecdsa_verify_prehashed(s: &ecdsa::Signature, m: &[u8; 32], p: &ecdsa::Public) -> bool { ecdsa::Pair::verify_prehashed(s, m, p) }
	pub fn ed25519_verify(s: &ed25519::Signature, m: &[u8], p: &ed25519::Public) -> bool { ed25519::Pair::verify(s, m, p) }
	pub fn sr25519_verify(s: &sr25519::Signature, m: &[u8], p: &sr25519::Public) -> bool { sr25519::Pair::verify(s, m, p) }
}
/// Run `f` with a registered extension of type `T`.
pub fn with_extension<T: 'static, R>(f: impl FnOnce(&mut T) -> R) -> Option<R> {
	let m = with(|e| e.exts.clone());
	let taken = m.borrow_mut().remove(&TypeId::of::<T>());
	let mut b = taken?;
	let r = f(b.downcast_mut::<T>().unwrap());
	m.borrow_mut().insert(TypeId::of::<T>(), b);
	Some(r)
}
pub mod offchain {
	use super::with_extension;
	use sp_core::offchain::{testing::PendingRequest, *};
	fn db<R>(f: impl FnOnce(&mut testing::OffchainState) -> R) -> R { with_extension::<OffchainDbExt, _>(|d| f(&mut d.0.write())).expect("OffchainDbExt registered") }
	fn wk<R>(f: impl FnOnce(&mut testing::OffchainState) -> R) -> R { with_extension::<OffchainWorkerExt, _>(|d| f(&mut d.0.write())).expect("OffchainWorkerExt registered") }
	pub fn is_validator() -> bool { with_extension::<OffchainWorkerExt, _>(|d| d.0.read().is_validator).unwrap_or(true) }
	pub fn timestamp() -> Timestamp { wk(|s| s.timestamp) }
	pub fn random_seed() -> [u8; 32] { wk(|s| s.seed) }
	pub fn sleep_until(d: Timestamp) { wk(|s| s.timestamp = d) }
	fn m(s: &mut testing::OffchainState, k: StorageKind) -> &mut std::collections::BTreeMap<Vec<u8>, Vec<u8>> { match k { StorageKind::PERSISTENT => &mut s.persistent_storage, StorageKind::LOCAL => &mut s.local_storage } }
	pub fn local_storage_get(k: StorageKind, key: &[u8]) -> Option<Vec<u8>> { db(|s| m(s, k).get(key).cloned()) }
	pub fn local_storage_set(k: StorageKind, key: &[u8], v: &[u8]) { db(|s| { m(s, k).insert(key.to_vec(), v.to_vec()); }) }
	pub fn local_storage_clear(k: StorageKind, key: &[u8]) { db(|s| { m(s, k).remove(key); }) }
	pub fn local_storage_compare_and_set(k: StorageKind, key: &[u8], old: Option<Vec<u8>>, new: &[u8]) -> bool { db(|s| { let mm = m(s, k); if mm.get(key).cloned() == old { mm.insert(key.to_vec(), new.to_vec()); true } else { false } }) }
	/// Match a request against the next expected one.
	pub fn http_exchange(req: &PendingRequest) -> Result<Vec<u8>, HttpError> { wk(|s| { let exp = s.expected_requests.pop_front().ok_or(HttpError::IoError)?; if exp.method == req.method && exp.uri == req.uri && exp.body == req.body && exp.headers == req.headers { exp.response.ok_or(HttpError::DeadlineReached) } else { panic!("unexpected http request: {:?}, expected {:?}", req, exp) } }) }
	pub fn submit_transaction(d: Vec<u8>) -> Result<(), ()> { with_extension::<TransactionPoolExt, _>(|t| t.0.write().transactions.push(d)).ok_or(()) }
}
pub mod logging { pub fn max_level() -> u8 { 0 } }
pub mod misc { pub fn print_utf8(_: &[u8]) {} pub fn print_hex(_: &[u8]) {} pub fn print_num(_: u64) {} }
pub trait Extension {}
/// An in-memory chain state to run code against.
#[derive(Default)]
pub struct TestExternalities { inner: Option<Ext> }
impl TestExternalities {
	pub fn new(s: Storage) -> Self { Self { inner: Some(Ext { top: s.top, ..Default::default() }) } }
	pub fn new_empty() -> Self { Self::new(Default::default()) }
	pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R {
		struct G<'a>(&'a mut TestExternalities, Option<Ext>);
		impl<'a> Drop for G<'a> { fn drop(&mut self) { EXT.with(|e| { let mut cur = e.borrow_mut().take(); if let Some(c) = cur.as_mut() { while !c.journal.is_empty() { c.rollback() } } self.0.inner = cur; *e.borrow_mut() = self.1.take(); }) } }
		let mine = self.inner.take().unwrap_or_default();
		let prev = EXT.with(|e| e.borrow_mut().replace(mine));
		let _g = G(self, prev);
		f()
	}
	pub fn execute_with_safe<R>(&mut self, f: impl FnOnce() -> R + std::panic::UnwindSafe) -> Result<R, String> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.execute_with(f))).map_err(|_| "panicked".into()) }
	pub fn register_extension<T: 'static>(&mut self, t: T) { let i = self.inner.get_or_insert_with(Default::default); i.exts.borrow_mut().insert(TypeId::of::<T>(), Box::new(t)); }
	pub fn commit_all(&mut self) -> Result<(), String> { Ok(()) }
	pub fn persist_offchain_overlay(&mut self) {}
	pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) { self.inner.get_or_insert_with(Default::default).top.insert(k, v); }
	pub fn into_storage(self) -> Storage { Storage { top: self.inner.map(|i| i.top).unwrap_or_default(), ..Default::default() } }
	/// A copy of the state (extensions are shared).
	pub fn fork(&self) -> Self { let i = self.inner.as_ref(); TestExternalities { inner: Some(Ext { top: i.map(|i| i.top.clone()).unwrap_or_default(), exts: i.map(|i| i.exts.clone()).unwrap_or_default(), ..Default::default() }) } }
}
impl From<Storage> for TestExternalities { fn from(s: Storage) -> Self { Self::new(s) } }
impl sp_core_storage_ext::ExecuteWith for TestExternalities {}
#[doc(hidden)] pub mod sp_core_storage_ext { pub trait ExecuteWith {} }
