use crate::{generic, traits::{self, *}, transaction_validity::*, KeyTypeId};
use codec::{Decode, Encode, MaxEncodedLen};
pub use sp_core::{sr25519, H256};
pub type Header = generic::Header<u64, traits::BlakeTwo256>;
pub type Digest = generic::Digest;
pub type Block<X> = generic::Block<Header, X>;
#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode)] pub struct TestXt<Call, Extra> { pub signature: Option<(u64, Extra)>, pub call: Call }
impl<C, E> TestXt<C, E> { pub fn new(call: C, signature: Option<(u64, E)>) -> Self { Self { signature, call } } }
impl<C: Encode + Sync + Send, E> traits::Extrinsic for TestXt<C, E> { type Call = C; type SignaturePayload = (u64, E); fn is_signed(&self) -> Option<bool> { Some(self.signature.is_some()) } fn new(c: C, s: Option<(u64, E)>) -> Option<Self> { Some(TestXt { signature: s, call: c }) } }
#[derive(Default, PartialEq, Eq, Clone, Encode, Decode, Debug, Hash, serde::Serialize, serde::Deserialize, PartialOrd, Ord, MaxEncodedLen)]
pub struct UintAuthorityId(pub u64);
impl From<u64> for UintAuthorityId { fn from(x: u64) -> Self { Self(x) } } impl From<UintAuthorityId> for u64 { fn from(x: UintAuthorityId) -> u64 { x.0 } }
#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode)] pub struct TestSignature(pub u64, pub Vec<u8>);
impl crate::RuntimeAppPublic for UintAuthorityId { const ID: KeyTypeId = crate::key_types::DUMMY; type Signature = TestSignature; fn all() -> Vec<Self> { vec![] } fn generate_pair(_: Option<Vec<u8>>) -> Self { Self(0) } fn sign<M: AsRef<[u8]>>(&self, m: &M) -> Option<TestSignature> { Some(TestSignature(self.0, m.as_ref().to_vec())) } fn verify<M: AsRef<[u8]>>(&self, m: &M, s: &TestSignature) -> bool { s.0 == self.0 && s.1 == m.as_ref() } fn to_raw_vec(&self) -> Vec<u8> { self.0.to_le_bytes().to_vec() } }
#[allow(unused)] fn _u(_: TransactionSource) where (): traits::SignedExtension {}
