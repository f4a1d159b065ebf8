use codec::{Decode, Encode};
use std::{collections::BTreeMap, sync::Arc};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)] pub enum StorageKind { PERSISTENT = 1, LOCAL = 2 }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord, Encode, Decode)] pub struct Timestamp(u64);
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord, Encode, Decode)] pub struct Duration(u64);
impl Duration { pub const fn from_millis(m: u64) -> Self { Duration(m) } pub fn millis(&self) -> u64 { self.0 } }
impl Timestamp { pub fn from_unix_millis(m: u64) -> Self { Timestamp(m) } pub fn add(&self, d: Duration) -> Timestamp { Timestamp(self.0.saturating_add(d.0)) } pub fn sub(&self, d: Duration) -> Timestamp { Timestamp(self.0.saturating_sub(d.0)) } pub fn diff(&self, o: &Self) -> Duration { Duration(self.0.saturating_sub(o.0)) } pub fn unix_millis(&self) -> u64 { self.0 } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum HttpError { DeadlineReached, IoError, Invalid }
pub type Shared = Arc<parking_lot::RwLock<testing::OffchainState>>;
#[derive(Clone)] pub struct OffchainDbExt(pub Shared);
#[derive(Clone)] pub struct OffchainWorkerExt(pub Shared);
impl OffchainDbExt { pub fn new(t: testing::TestOffchainExt) -> Self { Self(t.0) } }
impl OffchainWorkerExt { pub fn new(t: testing::TestOffchainExt) -> Self { Self(t.0) } }
#[derive(Clone)] pub struct TransactionPoolExt(pub Arc<parking_lot::RwLock<testing::PoolState>>);
impl TransactionPoolExt { pub fn new(t: testing::TestTransactionPoolExt) -> Self { Self(t.0) } }
pub mod testing {
	use super::*;
	#[derive(Clone, Debug, Default, PartialEq, Eq)]
	pub struct PendingRequest { pub method: String, pub uri: String, pub meta: Vec<u8>, pub headers: Vec<(String, String)>, pub body: Vec<u8>, pub sent: bool, pub response: Option<Vec<u8>>, pub read: usize, pub response_headers: Vec<(String, String)> }
	#[derive(Debug, Default)]
	pub struct OffchainState { pub expected_requests: std::collections::VecDeque<PendingRequest>, pub persistent_storage: BTreeMap<Vec<u8>, Vec<u8>>, pub local_storage: BTreeMap<Vec<u8>, Vec<u8>>, pub seed: [u8; 32], pub timestamp: Timestamp, pub is_validator: bool }
	impl OffchainState { pub fn expect_request(&mut self, r: PendingRequest) { self.expected_requests.push_back(r) } }
	#[derive(Clone)] pub struct TestOffchainExt(pub Shared);
	impl TestOffchainExt { pub fn new() -> (Self, Shared) { let s: Shared = Default::default(); (Self(s.clone()), s) } }
	#[derive(Debug, Default)] pub struct PoolState { pub transactions: Vec<Vec<u8>> }
	#[derive(Clone)] pub struct TestTransactionPoolExt(pub Arc<parking_lot::RwLock<PoolState>>);
	impl TestTransactionPoolExt { pub fn new() -> (Self, Arc<parking_lot::RwLock<PoolState>>) { let s: Arc<parking_lot::RwLock<PoolState>> = Default::default(); (Self(s.clone()), s) } }
}
