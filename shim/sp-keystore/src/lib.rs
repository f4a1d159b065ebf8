use sp_core::{crypto::{ByteArray, KeyTypeId, Pair}, ecdsa};
use std::{collections::BTreeMap, sync::Arc};
#[derive(Debug, Clone, PartialEq, Eq)] pub enum Error { KeyNotSupported(KeyTypeId), ValidationError(String), Unavailable, Other(String) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for Error {}
pub trait Keystore: Send + Sync {
	fn ecdsa_public_keys(&self, t: KeyTypeId) -> Vec<ecdsa::Public>;
	fn ecdsa_generate_new(&self, t: KeyTypeId, seed: Option<&str>) -> Result<ecdsa::Public, Error>;
	fn ecdsa_sign(&self, t: KeyTypeId, p: &ecdsa::Public, m: &[u8]) -> Result<Option<ecdsa::Signature>, Error>;
	fn ecdsa_sign_prehashed(&self, t: KeyTypeId, p: &ecdsa::Public, m: &[u8; 32]) -> Result<Option<ecdsa::Signature>, Error>;
	fn has_keys(&self, k: &[(Vec<u8>, KeyTypeId)]) -> bool;
	fn insert(&self, t: KeyTypeId, suri: &str, public: &[u8]) -> Result<(), ()>;
	fn keys(&self, t: KeyTypeId) -> Result<Vec<Vec<u8>>, Error>;
}
pub type KeystorePtr = Arc<dyn Keystore>;
pub struct KeystoreExt(pub KeystorePtr);
impl KeystoreExt { pub fn new<T: Keystore + 'static>(k: T) -> Self { Self(Arc::new(k)) } pub fn from(k: KeystorePtr) -> Self { Self(k) } }
pub mod testing {
	use super::*;
	#[derive(Clone, Default)] pub struct MemoryKeystore { keys: Arc<parking_lot::RwLock<BTreeMap<([u8; 4], Vec<u8>), ecdsa::Pair>>> }
	impl MemoryKeystore { pub fn new() -> Self { Self::default() } fn pair(&self, t: KeyTypeId, p: &ecdsa::Public) -> Option<ecdsa::Pair> { self.keys.read().get(&(t.0, p.to_raw_vec())).cloned() } }
	impl Keystore for MemoryKeystore {
		fn ecdsa_public_keys(&self, t: KeyTypeId) -> Vec<ecdsa::Public> { self.keys.read().iter().filter(|(k, _)| k.0 == t.0).map(|(_, p)| p.public()).collect() }
		fn ecdsa_generate_new(&self, t: KeyTypeId, seed: Option<&str>) -> Result<ecdsa::Public, Error> { let p = match seed { Some(s) => ecdsa::Pair::from_string(s, None).map_err(|e| Error::ValidationError(format!("{:?}", e)))?, None => ecdsa::Pair::generate().0 }; self.keys.write().insert((t.0, p.public().to_raw_vec()), p.clone()); Ok(p.public()) }
		fn ecdsa_sign(&self, t: KeyTypeId, p: &ecdsa::Public, m: &[u8]) -> Result<Option<ecdsa::Signature>, Error> { Ok(self.pair(t, p).map(|k| k.sign(m))) }
		fn ecdsa_sign_prehashed(&self, t: KeyTypeId, p: &ecdsa::Public, m: &[u8; 32]) -> Result<Option<ecdsa::Signature>, Error> { Ok(self.pair(t, p).map(|k| k.sign_prehashed(m))) }
		fn has_keys(&self, k: &[(Vec<u8>, KeyTypeId)]) -> bool { k.iter().all(|(p, t)| self.keys.read().contains_key(&(t.0, p.clone()))) }
		fn insert(&self, t: KeyTypeId, suri: &str, _p: &[u8]) -> Result<(), ()> { self.ecdsa_generate_new(t, Some(suri)).map(|_| ()).map_err(|_| ()) }
		fn keys(&self, t: KeyTypeId) -> Result<Vec<Vec<u8>>, Error> { Ok(self.ecdsa_public_keys(t).into_iter().map(|p| p.to_raw_vec()).collect()) }
	}
}
