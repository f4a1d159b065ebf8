use crate::keccak;
use codec::{Decode, Encode};
use seed_primitives::{ethereum_signed_message, verify_signature, AccountId20, EthereumSignature, EthereumSigner};
use sp_core::{ecdsa, Pair, H160};
use sp_runtime::traits::{IdentifyAccount, Verify};
use vkit::{self as vk, ensure, ensure_eq, guard, Rng};
const C: [&str; 1] = ["C30"];
fn personal(m: &[u8]) -> Vec<u8> { let mut v = vec![0x19u8]; v.extend_from_slice(b"Ethereum Signed Message:\n"); v.extend_from_slice(format!("{}", m.len()).as_bytes()); v.extend_from_slice(m); v }
/// the three digests an account may sign for `m`
fn digests(m: &[u8]) -> [[u8; 32]; 3] { [keccak(m), keccak(&personal(m)), keccak(&personal(&sp_io::hashing::blake2_256(m)))] }
/// own address derivation
fn addr(p: &ecdsa::Pair) -> [u8; 20] { let k = libsecp256k1::PublicKey::parse_slice(&p.public().0, None).unwrap().serialize(); keccak(&k[1..])[12..].try_into().unwrap() }
const N: [u8; 32] = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41];
fn neg(s: &[u8]) -> [u8; 32] { let mut o = [0; 32]; let mut br = 0i32; for i in (0..32).rev() { let d = N[i] as i32 - s[i] as i32 - br; o[i] = d.rem_euclid(256) as u8; br = (d < 0) as i32; } o }
fn message(rng: &mut Rng) -> Vec<u8> {
	let n = match rng.below(12) { 0 => 0, 1 => 1, 2 => 9 + rng.below(3) as usize, 3 => 99 + rng.below(3) as usize, 4 => 999 + rng.below(3) as usize, 5 => 32, 6 => rng.range(130, 140) as usize, 7 => rng.range(254, 260) as usize, 8 => rng.range(2000, 70_000) as usize, _ => rng.below(300) as usize };
	rng.bytes(n)
}
pub fn run() {
	// published key/address pair
	vk::episodes(1, |_, _| {
		for (sk, a) in [("502f97299c472b88754accd412b7c9a6062ef3186fba0c0388365e1edec24875", "976f8456e4e2034179b284a23c0e0c8f6d3da50c"), ("0f02ba4d7f83e59eaa32eae9c3c4d99b68ce76decade21cdab7ecce8f4aef81a", "420e9f260b40af7e49440cead3069f8e82a5230f"), ("4c0883a69102937d6231471b5dbb6204fe5129617082792ae468d01a3f362318", "2c7536e3605d9c16a7a3d7b1898e529396a65c23")] {
			let p = ecdsa::Pair::from_seed_slice(&hex::decode(sk).unwrap()).unwrap();
			let want: [u8; 20] = hex::decode(a).unwrap().try_into().unwrap();
			ensure_eq!(C, AccountId20::try_from(p.public()).unwrap().0, want, "address", "account of a published key");
			ensure_eq!(C, EthereumSigner::from(p.public()).into_account().0, want, "address", "signer of a published key");
			vk::hit("account_of_key");
		}
	});
	vk::episodes(vk::tier(700, 12_000), |_, rng| {
		let seed: [u8; 32] = { let mut b = rng.bytes(32); b[0] &= 0x7f; b.try_into().unwrap() };
		let p = ecdsa::Pair::from_seed_slice(&seed).unwrap();
		let a = addr(&p);
		let who = guard("account of key", || AccountId20::try_from(p.public()).unwrap());
		ensure_eq!(C, who.0, a, "address", "account derived from key");
		ensure_eq!(C, EthereumSigner::from(p.public()).into_account().0, a, "address", "EthereumSigner from ecdsa key");
		ensure_eq!(C, EthereumSigner::from(libsecp256k1::PublicKey::parse_slice(&p.public().0, None).unwrap()).into_account().0, a, "address", "EthereumSigner from secp key");
		vk::hit("account_of_key");
		let m = message(rng);
		ensure_eq!(C, ethereum_signed_message(&m), personal(&m), "personal_sign", "personal message of {} bytes", m.len());
		let ds = digests(&m);
		for (i, d) in ds.iter().enumerate() {
			let sig = p.sign_prehashed(d);
			vk::op(format!("scheme {i} len {} sig {}", m.len(), hex::encode(&sig.0)));
			let ver = |s: &[u8; 65], m: &[u8], w: &[u8; 20]| guard("verify", || EthereumSignature(ecdsa::Signature(*s)).verify(m, &AccountId20(*w)));
			let s0: [u8; 65] = sig.0;
			ensure!(C, ver(&s0, &m, &a), "rejects-valid", "scheme {i}: a correct signature over {} bytes was refused", m.len());
			vk::hit(["accepted_raw", "accepted_personal", "accepted_hashed_personal"][i]);
			ensure!(C, guard("verify_signature", || verify_signature(&s0, d, &who)), "rejects-valid", "verify_signature refused a correct digest signature");
			// equivalent encodings of the same (r, s, v)
			let mut e = s0; e[64] += 27;
			ensure!(C, ver(&e, &m, &a), "rejects-valid", "scheme {i}: v+27 form was refused");
			vk::hit("equivalent_encoding");
			let mut twin = s0; twin[32..64].copy_from_slice(&neg(&s0[32..64])); twin[64] ^= 1;
			let t27 = { let mut t = twin; t[64] += 27; t };
			// every other message
			for _ in 0..4 {
				let mut m2 = m.clone();
				match rng.below(6) {
					0 => m2.push(rng.u64() as u8),
					1 if !m2.is_empty() => { m2.pop(); }
					2 if !m2.is_empty() => { m2.remove(0); }
					3 => m2 = personal(&m),
					4 => m2 = sp_io::hashing::blake2_256(&m).to_vec(),
					_ if !m2.is_empty() => { let k = rng.below(m2.len() as u64 * 8); m2[(k / 8) as usize] ^= 1 << (k % 8); }
					_ => m2 = rng.bytes(7),
				}
				// a digest shared by both messages is the same signed text
				let same = digests(&m2).contains(d);
				if m2 != m && !same { ensure!(C, !ver(&s0, &m2, &a), "accepts-other-message", "scheme {i}: signature over {} accepted for {}", hex::encode(&m[..m.len().min(40)]), hex::encode(&m2[..m2.len().min(40)])); vk::hit("rejected_message"); }
				if same { ensure!(C, ver(&s0, &m2, &a), "rejects-valid", "signature over the same digest refused"); vk::hit("shared_digest"); }
			}
			// every other account
			for k in 0..4 {
				let mut b = a;
				match k { 0 => b = [0; 20], 1 => { let j = rng.below(160); b[(j / 8) as usize] ^= 1 << (j % 8) } 2 => b.reverse(), _ => b = rng.bytes(20).try_into().unwrap() }
				if b != a { ensure!(C, !ver(&s0, &m, &b), "accepts-other-account", "scheme {i}: signature by {} accepted for {}", hex::encode(a), hex::encode(b)); vk::hit("rejected_account"); }
			}
			// every altered signature, equivalent encodings aside
			for k in 0..6 {
				let mut x = s0;
				match k {
					0 | 1 => { let j = rng.below(64 * 8); x[(j / 8) as usize] ^= 1 << (j % 8); }
					2 => x[64] = rng.u64() as u8,
					3 => x[64] ^= 1,
					4 => { let (l, r) = x.split_at_mut(32); l.swap_with_slice(&mut r[..32]); }
					_ => { x[32..64].copy_from_slice(&neg(&s0[32..64])); }
				}
				if x == s0 || x == e || x == twin || x == t27 { continue }
				ensure!(C, !ver(&x, &m, &a), "accepts-altered-signature", "scheme {i}: altered signature {} accepted (original {})", hex::encode(x), hex::encode(s0));
				vk::hit("rejected_bitflip");
			}
			// the extrinsic's address decoded from bytes is the same account
			let enc = EthereumSignature(sig).encode();
			ensure_eq!(C, enc.len(), 65, "codec", "encoded signature length");
			ensure_eq!(C, EthereumSignature::decode(&mut &enc[..]).unwrap(), EthereumSignature(ecdsa::Signature(s0)), "codec", "signature codec");
		}
		// hostile signatures never panic and are never accepted for the account
		for _ in 0..6 {
			let mut g: [u8; 65] = match rng.below(6) { 0 => [0; 65], 1 => [0xff; 65], 2 => { let mut x = [0u8; 65]; x[..32].copy_from_slice(&N); x[32..64].copy_from_slice(&rng.bytes(32)); x } 3 => { let mut x = [0u8; 65]; x[..32].copy_from_slice(&rng.bytes(32)); x } 4 => { let mut x = [0u8; 65]; x[31] = 1; x[63] = 1; x } _ => rng.bytes(65).try_into().unwrap() };
			if rng.chance(60) { g[64] = *rng.pick(&[0u8, 1, 2, 3, 4, 26, 27, 28, 29, 30, 31, 255]); }
			for w in [a, [0u8; 20]] { ensure!(C, !guard("verify", || EthereumSignature(ecdsa::Signature(g)).verify(&m[..], &AccountId20(w))), "accepts-garbage", "garbage signature {} accepted for {}", hex::encode(g), hex::encode(w)); }
			vk::hit("garbage_signature");
		}
		// account identifiers survive every representation
		let w = AccountId20(a);
		ensure_eq!(C, AccountId20::from(H160::from(w)), w, "account-roundtrip", "H160");
		ensure_eq!(C, <[u8; 20]>::from(w), a, "account-roundtrip", "bytes");
		ensure_eq!(C, AccountId20::decode(&mut &w.encode()[..]).unwrap(), w, "account-roundtrip", "codec");
		ensure_eq!(C, serde_json::from_str::<AccountId20>(&serde_json::to_string(&w).unwrap()).unwrap(), w, "account-roundtrip", "json");
		ensure_eq!(C, format!("{w:?}").parse::<AccountId20>().unwrap(), w, "account-roundtrip", "text");
		vk::state(&a);
	});
}
