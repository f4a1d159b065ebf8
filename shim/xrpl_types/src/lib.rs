//! Stand-in for `xrpl_types`: the common fields of an XRPL transaction.
#![allow(clippy::all)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct Error;
#[derive(Debug, Clone, PartialEq, Eq, Default)] pub struct Blob(pub Vec<u8>);
impl Blob { pub fn from_hex(s: &str) -> Result<Self, Error> { hex::decode(s).map(Blob).map_err(|_| Error) } }
#[derive(Debug, Clone, PartialEq, Eq, Default)] pub struct Hash256(pub [u8; 32]);
impl Hash256 { pub fn from_hex(s: &str) -> Result<Self, Error> { let v = hex::decode(s).map_err(|_| Error)?; v.try_into().map(Hash256).map_err(|_| Error) } }
#[derive(Debug, Clone, PartialEq, Eq, Default)] pub struct Memo { pub memo_data: Blob, pub memo_type: Blob, pub memo_format: Option<Blob> }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)] pub struct AccountId(pub [u8; 20]);
const ALPHABET: &[u8; 58] = b"rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz";
fn checksum(b: &[u8]) -> [u8; 4] { use sha2::Digest; let a = sha2::Sha256::digest(sha2::Sha256::digest(b)); [a[0], a[1], a[2], a[3]] }
impl AccountId {
	pub fn from_address(s: &str) -> Result<Self, Error> {
		let mut out: Vec<u8> = vec![];
		for c in s.bytes() {
			let mut carry = ALPHABET.iter().position(|x| *x == c).ok_or(Error)? as u32;
			for b in out.iter_mut() { carry += *b as u32 * 58; *b = carry as u8; carry >>= 8; }
			while carry > 0 { out.push(carry as u8); carry >>= 8; }
			if out.len() > 64 { return Err(Error) }
		}
		for _ in s.bytes().take_while(|c| *c == ALPHABET[0]) { out.push(0) }
		out.reverse();
		if out.len() != 25 || out[0] != 0 || checksum(&out[..21]) != out[21..] { return Err(Error) }
		Ok(AccountId(out[1..21].try_into().unwrap()))
	}
	pub fn to_address(&self) -> String {
		let mut v = vec![0u8]; v.extend_from_slice(&self.0); let c = checksum(&v); v.extend_from_slice(&c);
		let mut d: Vec<u8> = vec![];
		for b in &v { let mut carry = *b as u32; for x in d.iter_mut() { carry += (*x as u32) << 8; *x = (carry % 58) as u8; carry /= 58; } while carry > 0 { d.push((carry % 58) as u8); carry /= 58; } }
		for _ in v.iter().take_while(|b| **b == 0) { d.push(0) }
		d.iter().rev().map(|x| ALPHABET[*x as usize] as char).collect()
	}
}
pub mod serialize {
	pub trait Sink { fn field(&mut self, ty: u16, field: u16, bytes: &[u8]); fn blob(&mut self, ty: u16, field: u16, bytes: &[u8]) -> Result<(), crate::Error>; }
	pub trait Serialize { fn serialize<S: Sink>(&self, s: &mut S) -> Result<(), crate::Error>; }
}
pub mod types {
	use super::*;
	#[derive(Debug, Clone, PartialEq, Eq, Default)]
	pub struct TransactionCommon { pub account: AccountId, pub fee: Option<u64>, pub sequence: Option<u32>, pub account_txn_id: Option<Hash256>, pub last_ledger_sequence: Option<u32>, pub memos: Vec<Memo>, pub network_id: Option<u32>, pub source_tag: Option<u32>, pub signing_pub_key: Option<Blob>, pub ticket_sequence: Option<u32>, pub txn_signature: Option<Blob> }
	impl serialize::Serialize for TransactionCommon {
		fn serialize<S: serialize::Sink>(&self, s: &mut S) -> Result<(), Error> {
			if let Some(h) = &self.account_txn_id { s.field(5, 9, &h.0) }
			if let Some(k) = &self.signing_pub_key { s.blob(7, 3, &k.0)? }
			if let Some(k) = &self.txn_signature { s.blob(7, 4, &k.0)? }
			s.blob(8, 1, &self.account.0)?;
			if !self.memos.is_empty() {
				s.field(15, 9, &[]);
				for m in &self.memos { s.field(14, 10, &[]); s.blob(7, 12, &m.memo_type.0)?; s.blob(7, 13, &m.memo_data.0)?; if let Some(f) = &m.memo_format { s.blob(7, 14, &f.0)? } s.field(14, 1, &[]); }
				s.field(15, 1, &[]);
			}
			Ok(())
		}
	}
}
