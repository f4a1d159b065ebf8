//! Envelopes that carry a call: XRPL-wallet signed messages and doughnut grants
use crate::rt::*;
use crate::*;
use doughnut_rs::{doughnut::{topping::{method::Method, module::Module, Rule, Topping}, Doughnut, DoughnutV1}, signature::crypto, traits::Signing};
pub fn secret(i: u64) -> [u8; 32] { let mut s = [7u8; 32]; s[0] = 1; s[24..].copy_from_slice(&(i + 1).to_be_bytes()); s }
pub fn pk(i: u64) -> [u8; 33] { pair(i).public().0 }
pub fn ed(i: u64) -> sp_core::ed25519::Pair { sp_core::ed25519::Pair::from_seed(&secret(i)) }
pub fn ed_acct(i: u64) -> AccountId { AccountId::try_from(ed(i).public()).expect("ed account") }
/// what an XRPL memo says
#[derive(Clone, Debug)]
pub struct Memo { pub genesis: [u8; 32], pub nonce: u32, pub max_block: u32, pub tip: u64, pub hash: [u8; 32] }
impl Memo {
	pub fn of(call: &Call, nonce: u32, max_block: u32, tip: u64) -> Memo { Memo { genesis: GENESIS_HASH, nonce, max_block, tip, hash: sp_io::hashing::blake2_256(&call.encode()) } }
	pub fn text(&self) -> Vec<u8> { format!("{}:{}:{}:{}:{}", hex::encode(self.genesis), self.nonce, self.max_block, self.tip, hex::encode(self.hash)).into_bytes() }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Key { Ecdsa(u64), Ed(u64) }
impl Key {
	pub fn bytes(&self) -> Vec<u8> { match self { Key::Ecdsa(i) => pk(*i).to_vec(), Key::Ed(i) => { let mut v = vec![0xED]; v.extend_from_slice(&ed(*i).public().0); v } } }
	pub fn acct(&self) -> AccountId { match self { Key::Ecdsa(i) => acct(*i), Key::Ed(i) => ed_acct(*i) } }
	/// signature over the bytes XRPL wallets sign
	pub fn sign(&self, body: &[u8]) -> Vec<u8> {
		let mut m = vec![0x53, 0x54, 0x58, 0x00]; m.extend_from_slice(body);
		match self {
			Key::Ecdsa(i) => { use sha2::Digest; let h: [u8; 32] = sha2::Sha512::digest(&m)[..32].try_into().unwrap(); libsecp256k1::sign(&libsecp256k1::Message::parse(&h), &libsecp256k1::SecretKey::parse(&secret(*i)).unwrap()).0.serialize_der().as_ref().to_vec() },
			Key::Ed(i) => ed(*i).sign(&m).0.to_vec(),
		}
	}
}
pub fn body(key: &[u8], account: [u8; 20], memos: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> { body_sig(key, None, account, memos) }
pub fn body_sig(key: &[u8], sig: Option<&[u8]>, account: [u8; 20], memos: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
	let mut b = vec![0x59]; b.extend_from_slice(&[0x16; 32]);
	b.extend_from_slice(&[0x73, key.len() as u8]); b.extend_from_slice(key);
	if let Some(s) = sig { b.extend_from_slice(&[0x74, s.len() as u8]); b.extend_from_slice(s) }
	b.extend_from_slice(&[0x81, 0x14]); b.extend_from_slice(&account);
	b.push(0xF9);
	for (t, d) in memos { assert!(t.len() <= 192 && d.len() <= 192); b.extend_from_slice(&[0xEA, 0x7C, t.len() as u8]); b.extend_from_slice(t); b.extend_from_slice(&[0x7D, d.len() as u8]); b.extend_from_slice(d); b.push(0xE1) }
	b.push(0xF1); b
}
pub fn account_of(key: &[u8]) -> [u8; 20] { sp_io::hashing::blake2_256(key)[..20].try_into().unwrap() }
pub fn xrpl_call(encoded: Vec<u8>, sig: Vec<u8>, call: Call) -> Option<Call> { Some(Call::Xrpl(pallet_xrpl::Call::transact { encoded_msg: encoded.try_into().ok()?, signature: sig.try_into().ok()?, call: Box::new(call) })) }
pub fn unsigned(c: Call) -> UncheckedExtrinsic { UncheckedExtrinsic::new_unsigned(c) }
pub fn xrpl(key: Key, call: Call, memo: &Memo) -> Call { let k = key.bytes(); let b = body(&k, account_of(&k), &[(b"extrinsic".to_vec(), memo.text())]); let s = key.sign(&b); xrpl_call(b, s, call).expect("bounded") }
pub fn xrpl_now(key: Key, call: Call) -> UncheckedExtrinsic { let m = Memo::of(&call, nonce(key.acct()), System::block_number() + 10, 0); unsigned(xrpl(key, call, &m)) }

/// a doughnut from `issuer` to `holder`
#[derive(Clone, Debug)]
pub struct Grant { pub issuer: u64, pub holder: u64, pub fee_holder: bool, pub topping: Topping, pub expiry: u32, pub not_before: u32, pub eip191: bool }
impl Grant {
	pub fn all(issuer: u64, holder: u64) -> Grant { Grant { issuer, holder, fee_holder: false, topping: Topping { modules: vec![Module { name: "*".into(), block_cooldown: None, methods: vec![Method { name: "*".into(), block_cooldown: None, constraints: None }] }] }, expiry: u32::MAX, not_before: 0, eip191: false } }
	pub fn v1(&self) -> DoughnutV1 {
		let mut d = DoughnutV1 { issuer: pk(self.issuer), holder: pk(self.holder), fee_mode: self.fee_holder as u8, toppings: vec![("trn".into(), self.topping.encode())], expiry: self.expiry, not_before: self.not_before, payload_version: 1, signature_version: 0, signature: [0; 65] };
		if self.eip191 { d.sign_eip191(&secret(self.issuer)) } else { d.sign_ecdsa(&secret(self.issuer)) }.expect("sign"); d
	}
	pub fn bytes(&self) -> Vec<u8> { Doughnut::V1(self.v1()).encode() }
}
pub fn module(name: &str, methods: &[(&str, Option<Vec<Rule>>)]) -> Module { Module { name: name.into(), block_cooldown: None, methods: methods.iter().map(|(n, c)| Method { name: (*n).into(), block_cooldown: None, constraints: c.clone() }).collect() } }
pub fn doughnut_call(call: Call, doughnut: Vec<u8>, nonce: u32, genesis: [u8; 32], tip: u64, signature: Vec<u8>) -> pallet_doughnut::Call<Runtime> { pallet_doughnut::Call::transact { call: Box::new(call), doughnut, nonce, genesis_hash: genesis.into(), tip, signature } }
pub fn doughnut_signed(signer: u64, call: Call, doughnut: Vec<u8>, nonce: u32, genesis: [u8; 32], tip: u64) -> Call {
	let u = doughnut_call(call.clone(), doughnut.clone(), nonce, genesis, tip, vec![]);
	let s = crypto::sign_eip191(&secret(signer), &u.encode()).expect("sign").to_vec();
	Call::Doughnut(doughnut_call(call, doughnut, nonce, genesis, tip, s))
}
pub fn doughnut_now(g: &Grant, call: Call) -> UncheckedExtrinsic { unsigned(doughnut_signed(g.holder, call, g.bytes(), nonce(acct(g.holder)), GENESIS_HASH, 0)) }
