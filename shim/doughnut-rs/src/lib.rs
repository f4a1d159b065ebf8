//! Stand-in for `doughnut-rs`: the delegated-permission certificate with its toppings, signed over its own SCALE payload.
#![allow(clippy::all)]
pub mod error {
	#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum VerifyError { Invalid, UnsupportedVersion, BadSignatureFormat, BadPublicKeyFormat }
	#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum ValidationError { HolderIdentityMismatched, Expired, Premature, Conversion }
	#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum SigningError { NotSupported, InvalidSecretKey }
}
pub mod traits {
	use super::error::*;
	#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum FeeMode { ISSUER = 0, HOLDER = 1 }
	#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum PayloadVersion { V0 = 0, V1 = 1 }
	pub trait DoughnutApi {
		type PublicKey: PartialEq; type Timestamp; type Signature;
		fn holder(&self) -> Self::PublicKey; fn issuer(&self) -> Self::PublicKey; fn fee_payer(&self) -> Self::PublicKey; fn expiry(&self) -> u32; fn not_before(&self) -> u32;
		fn payload(&self) -> Vec<u8>; fn get_topping(&self, domain: &str) -> Option<&[u8]>;
		fn validate<Q: PartialEq<Self::PublicKey>, R: TryInto<u32>>(&self, who: Q, now: R) -> Result<(), ValidationError> {
			if !(who == self.holder()) { return Err(ValidationError::HolderIdentityMismatched) }
			let now: u32 = now.try_into().map_err(|_| ValidationError::Conversion)?;
			if now < self.not_before() { return Err(ValidationError::Premature) }
			if now >= self.expiry() { return Err(ValidationError::Expired) }
			Ok(())
		}
	}
	pub trait DoughnutVerify { fn verify(&self) -> Result<(), VerifyError>; }
	pub trait Signing { fn sign_ecdsa(&mut self, secret: &[u8; 32]) -> Result<Vec<u8>, SigningError>; fn sign_eip191(&mut self, secret: &[u8; 32]) -> Result<Vec<u8>, SigningError>; }
}
pub mod signature {
	#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum SignatureVersion { SR25519 = 0, ED25519 = 1, ECDSA = 2, EIP191 = 3 }
	pub mod crypto {
		use super::super::error::*;
		use sp_core::{ecdsa, hashing::{blake2_256, keccak_256}, Pair};
		fn eip191(m: &[u8]) -> [u8; 32] { let mut v = format!("\x19Ethereum Signed Message:\n{}", m.len()).into_bytes(); v.extend_from_slice(m); keccak_256(&v) }
		fn sign(k: &[u8; 32], h: &[u8; 32]) -> Result<[u8; 65], SigningError> { Ok(ecdsa::Pair::from_seed_slice(k).map_err(|_| SigningError::InvalidSecretKey)?.sign_prehashed(h).0) }
		pub fn sign_ecdsa(k: &[u8; 32], m: &[u8]) -> Result<[u8; 65], SigningError> { sign(k, &blake2_256(m)) }
		pub fn sign_eip191(k: &[u8; 32], m: &[u8]) -> Result<[u8; 65], SigningError> { sign(k, &eip191(m)) }
		pub fn verify_signature(version: u8, sig: &[u8], signer: &[u8], m: &[u8]) -> Result<(), VerifyError> {
			let h = match version { 2 => blake2_256(m), 3 => eip191(m), _ => return Err(VerifyError::UnsupportedVersion) };
			let s: [u8; 65] = sig.try_into().map_err(|_| VerifyError::BadSignatureFormat)?;
			let k: [u8; 33] = signer.try_into().map_err(|_| VerifyError::BadPublicKeyFormat)?;
			if ecdsa::Signature::from_raw(s).recover_prehashed(&h) == Some(ecdsa::Public::from_raw(k)) { Ok(()) } else { Err(VerifyError::Invalid) }
		}
	}
}
pub mod doughnut {
	use super::{error::*, signature::crypto, traits::*};
	use codec::{Decode, Encode, Input, Output, Error};
	#[derive(Debug, Clone, PartialEq, Eq, Encode, Decode)]
	pub struct DoughnutV0 { pub issuer: [u8; 32], pub holder: [u8; 32], pub toppings: Vec<(String, Vec<u8>)>, pub expiry: u32, pub not_before: u32, pub payload_version: u16, pub signature_version: u8, pub signature: Sig64 }
	#[derive(Debug, Clone, PartialEq, Eq, Encode, Decode)] pub struct Sig64(pub [u8; 64]);
	impl Default for Sig64 { fn default() -> Self { Sig64([0; 64]) } }
	#[derive(Debug, Clone, PartialEq, Eq, Encode, Decode)]
	pub struct DoughnutV1 { pub issuer: [u8; 33], pub holder: [u8; 33], pub fee_mode: u8, pub toppings: Vec<(String, Vec<u8>)>, pub expiry: u32, pub not_before: u32, pub payload_version: u16, pub signature_version: u8, pub signature: [u8; 65] }
	#[derive(Debug, Clone, PartialEq, Eq)] pub enum Doughnut { V0(DoughnutV0), V1(DoughnutV1) }
	impl Encode for Doughnut { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { match self { Doughnut::V0(x) => { 0u16.encode_to(d); x.encode_to(d) }, Doughnut::V1(x) => { 1u16.encode_to(d); x.encode_to(d) } } } }
	impl Decode for Doughnut { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { match u16::decode(i)? { 0 => Ok(Doughnut::V0(Decode::decode(i)?)), 1 => Ok(Doughnut::V1(Decode::decode(i)?)), _ => Err("unsupported version".into()) } } }
	impl DoughnutApi for DoughnutV1 {
		type PublicKey = [u8; 33]; type Timestamp = u32; type Signature = [u8; 65];
		fn holder(&self) -> [u8; 33] { self.holder } fn issuer(&self) -> [u8; 33] { self.issuer } fn expiry(&self) -> u32 { self.expiry } fn not_before(&self) -> u32 { self.not_before }
		fn fee_payer(&self) -> [u8; 33] { if self.fee_mode == FeeMode::HOLDER as u8 { self.holder } else { self.issuer } }
		fn payload(&self) -> Vec<u8> { (self.issuer, self.holder, self.fee_mode, &self.toppings, self.expiry, self.not_before, self.payload_version, self.signature_version).encode() }
		fn get_topping(&self, d: &str) -> Option<&[u8]> { self.toppings.iter().find(|t| t.0 == d).map(|t| &t.1[..]) }
	}
	impl DoughnutVerify for DoughnutV1 { fn verify(&self) -> Result<(), VerifyError> { crypto::verify_signature(self.signature_version, &self.signature, &self.issuer, &self.payload()) } }
	impl Signing for DoughnutV1 {
		fn sign_ecdsa(&mut self, k: &[u8; 32]) -> Result<Vec<u8>, SigningError> { self.signature_version = 2; self.signature = crypto::sign_ecdsa(k, &self.payload())?; Ok(self.signature.to_vec()) }
		fn sign_eip191(&mut self, k: &[u8; 32]) -> Result<Vec<u8>, SigningError> { self.signature_version = 3; self.signature = crypto::sign_eip191(k, &self.payload())?; Ok(self.signature.to_vec()) }
	}
	pub mod topping {
		use codec::{Decode, Encode};
		use trn_pact::types::PactType;
		pub mod method { use codec::{Decode, Encode};
			#[derive(Debug, Clone, PartialEq, Eq, Encode, Decode, Default)] pub struct Method { pub name: String, pub block_cooldown: Option<u32>, pub constraints: Option<Vec<super::Rule>> } }
		pub mod module { use codec::{Decode, Encode};
			#[derive(Debug, Clone, PartialEq, Eq, Encode, Decode, Default)] pub struct Module { pub name: String, pub block_cooldown: Option<u32>, pub methods: Vec<super::method::Method> } }
		/// A stand-in for a compiled pact contract: a conjunction of argument rules.
		#[derive(Debug, Clone, PartialEq, Eq, Encode, Decode)]
		pub enum Rule { Equals(u8, Vec<u8>), AtMost(u8, u64), Is(u8, u64) }
		#[derive(Debug, Clone, PartialEq, Eq, Encode, Decode, Default)] pub struct Topping { pub modules: Vec<module::Module> }
		impl Rule { fn holds(&self, a: &[PactType]) -> bool { match self {
			Rule::Equals(i, v) => matches!(a.get(*i as usize), Some(PactType::StringLike(s)) if &s.0 == v),
			Rule::AtMost(i, v) => matches!(a.get(*i as usize), Some(PactType::Numeric(n)) if n.0 <= *v),
			Rule::Is(i, v) => matches!(a.get(*i as usize), Some(PactType::Numeric(n)) if n.0 == *v) } } }
		impl Topping {
			pub fn get_module(&self, n: &str) -> Option<&module::Module> { self.modules.iter().find(|m| m.name == n).or_else(|| self.modules.iter().find(|m| m.name == "*")) }
			pub fn validate_module(&self, m: &str, f: &str, args: &[PactType]) -> Result<(), &'static str> {
				let m = self.get_module(m).ok_or("no permission for module")?;
				let f = m.methods.iter().find(|x| x.name == f).or_else(|| m.methods.iter().find(|x| x.name == "*")).ok_or("no permission for method")?;
				match &f.constraints { None => Ok(()), Some(r) => if r.iter().all(|r| r.holds(args)) { Ok(()) } else { Err("constraint not met") } }
			}
		}
	}
}
pub use doughnut::topping::Topping;
