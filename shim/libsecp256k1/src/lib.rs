//! Small, self-contained secp256k1 (same public surface as the `libsecp256k1` crate, as far as it is used here).
use sha2::{Digest, Sha256};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Error { InvalidSignature, InvalidPublicKey, InvalidSecretKey, InvalidRecoveryId, InvalidMessage, InvalidInputLength, TweakOutOfRange, InvalidAffine }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for Error {}

type L = [u64; 4];
const P: L = [0xFFFFFFFEFFFFFC2F, u64::MAX, u64::MAX, u64::MAX];
const N: L = [0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, u64::MAX];
/// 2^256 - P, 2^256 - N
const CP: L = [0x1000003D1, 0, 0, 0];
const CN: L = [0x402DA1732FC9BEBF, 0x4551231950B75FC4, 1, 0];
const GX: L = [0x59F2815B16F81798, 0x029BFCDB2DCE28D9, 0x55A06295CE870B07, 0x79BE667EF9DCBBAC];
const GY: L = [0x9C47D08FFB10D4B8, 0xFD17B448A6855419, 0x5DA4FBFC0E1108A8, 0x483ADA7726A3C465];

fn cmp(a: &L, b: &L) -> std::cmp::Ordering { for i in (0..4).rev() { if a[i] != b[i] { return a[i].cmp(&b[i]) } } std::cmp::Ordering::Equal }
fn is_zero(a: &L) -> bool { a.iter().all(|x| *x == 0) }
fn addc(a: &L, b: &L) -> (L, bool) { let mut r = [0; 4]; let mut c = 0u128; for i in 0..4 { c += a[i] as u128 + b[i] as u128; r[i] = c as u64; c >>= 64; } (r, c != 0) }
fn subb(a: &L, b: &L) -> (L, bool) { let mut r = [0; 4]; let mut bo = 0i128; for i in 0..4 { let d = a[i] as i128 - b[i] as i128 + bo; r[i] = d as u64; bo = d >> 64; } (r, bo != 0) }
struct Fd { m: L, c: L }
const FP: Fd = Fd { m: P, c: CP };
const FN: Fd = Fd { m: N, c: CN };
impl Fd {
	fn add(&self, a: &L, b: &L) -> L { let (r, c) = addc(a, b); if c || cmp(&r, &self.m) != std::cmp::Ordering::Less { subb(&r, &self.m).0 } else { r } }
	fn sub(&self, a: &L, b: &L) -> L { let (r, b) = subb(a, b); if b { addc(&r, &self.m).0 } else { r } }
	fn neg(&self, a: &L) -> L { if is_zero(a) { *a } else { subb(&self.m, a).0 } }
	fn mul(&self, a: &L, b: &L) -> L {
		let mut t = [0u64; 8];
		for i in 0..4 { let mut c = 0u128; for j in 0..4 { c += t[i + j] as u128 + a[i] as u128 * b[j] as u128; t[i + j] = c as u64; c >>= 64; } t[i + 4] = c as u64; }
		// fold the high half: 2^256 = c (mod m)
		while t[4..].iter().any(|x| *x != 0) {
			let hi = [t[4], t[5], t[6], t[7]];
			let mut n = [t[0], t[1], t[2], t[3], 0, 0, 0, 0];
			for i in 0..4 { let mut c = 0u128; for j in 0..4 { c += n[i + j] as u128 + hi[i] as u128 * self.c[j] as u128; n[i + j] = c as u64; c >>= 64; } let mut k = i + 4; while c != 0 { c += n[k] as u128; n[k] = c as u64; c >>= 64; k += 1; } }
			t = n;
		}
		let mut r = [t[0], t[1], t[2], t[3]];
		while cmp(&r, &self.m) != std::cmp::Ordering::Less { r = subb(&r, &self.m).0 }
		r
	}
	fn pow(&self, a: &L, e: &L) -> L { let mut r = [1, 0, 0, 0]; for i in (0..256).rev() { r = self.mul(&r, &r); if e[i / 64] >> (i % 64) & 1 == 1 { r = self.mul(&r, a); } } r }
	fn inv(&self, a: &L) -> L { let e = subb(&self.m, &[2, 0, 0, 0]).0; self.pow(a, &e) }
}
fn from_be(b: &[u8]) -> L { let mut r = [0; 4]; for i in 0..4 { r[3 - i] = u64::from_be_bytes(b[i * 8..i * 8 + 8].try_into().unwrap()); } r }
fn to_be(a: &L) -> [u8; 32] { let mut r = [0; 32]; for i in 0..4 { r[i * 8..i * 8 + 8].copy_from_slice(&a[3 - i].to_be_bytes()); } r }
fn sqrt(a: &L) -> Option<L> { // p = 3 mod 4
	let (e, c) = addc(&P, &[1, 0, 0, 0]); debug_assert!(!c);
	let e = [e[0] >> 2 | e[1] << 62, e[1] >> 2 | e[2] << 62, e[2] >> 2 | e[3] << 62, e[3] >> 2];
	let r = FP.pow(a, &e); if FP.mul(&r, &r) == *a { Some(r) } else { None } }

#[derive(Clone, Copy)]
struct J { x: L, y: L, z: L }
const INF: J = J { x: [1, 0, 0, 0], y: [1, 0, 0, 0], z: [0; 4] };
impl J {
	fn aff(x: L, y: L) -> J { J { x, y, z: [1, 0, 0, 0] } }
	fn dbl(&self) -> J {
		if is_zero(&self.z) || is_zero(&self.y) { return INF }
		let f = FP; let a = f.mul(&self.x, &self.x); let b = f.mul(&self.y, &self.y); let c = f.mul(&b, &b);
		let xb = f.add(&self.x, &b); let d = f.sub(&f.sub(&f.mul(&xb, &xb), &a), &c); let d = f.add(&d, &d);
		let e = f.add(&f.add(&a, &a), &a); let ff = f.mul(&e, &e);
		let x3 = f.sub(&ff, &f.add(&d, &d)); let mut c8 = c; for _ in 0..3 { c8 = f.add(&c8, &c8); }
		let y3 = f.sub(&f.mul(&e, &f.sub(&d, &x3)), &c8); let z3 = f.mul(&self.y, &self.z); J { x: x3, y: y3, z: f.add(&z3, &z3) }
	}
	fn add(&self, o: &J) -> J {
		if is_zero(&self.z) { return *o } if is_zero(&o.z) { return *self }
		let f = FP; let z1z1 = f.mul(&self.z, &self.z); let z2z2 = f.mul(&o.z, &o.z);
		let u1 = f.mul(&self.x, &z2z2); let u2 = f.mul(&o.x, &z1z1);
		let s1 = f.mul(&f.mul(&self.y, &o.z), &z2z2); let s2 = f.mul(&f.mul(&o.y, &self.z), &z1z1);
		if u1 == u2 { return if s1 == s2 { self.dbl() } else { INF } }
		let h = f.sub(&u2, &u1); let r = f.sub(&s2, &s1); let hh = f.mul(&h, &h); let hhh = f.mul(&h, &hh); let v = f.mul(&u1, &hh);
		let x3 = f.sub(&f.sub(&f.mul(&r, &r), &hhh), &f.add(&v, &v)); let y3 = f.sub(&f.mul(&r, &f.sub(&v, &x3)), &f.mul(&s1, &hhh));
		J { x: x3, y: y3, z: f.mul(&f.mul(&self.z, &o.z), &h) }
	}
	fn mul(&self, k: &L) -> J { let mut r = INF; for i in (0..256).rev() { r = r.dbl(); if k[i / 64] >> (i % 64) & 1 == 1 { r = r.add(self); } } r }
	fn affine(&self) -> Option<(L, L)> { if is_zero(&self.z) { return None } let f = FP; let zi = f.inv(&self.z); let z2 = f.mul(&zi, &zi); Some((f.mul(&self.x, &z2), f.mul(&self.y, &f.mul(&z2, &zi)))) }
}
fn on_curve(x: &L, y: &L) -> bool { FP.mul(y, y) == FP.add(&FP.mul(&FP.mul(x, x), x), &[7, 0, 0, 0]) }
fn lift(x: &L, odd: bool) -> Option<(L, L)> { if cmp(x, &P) != std::cmp::Ordering::Less { return None } let y = sqrt(&FP.add(&FP.mul(&FP.mul(x, x), x), &[7, 0, 0, 0]))?; Some((*x, if (y[0] & 1 == 1) == odd { y } else { FP.neg(&y) })) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct PublicKey { x: L, y: L }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PublicKeyFormat { Compressed, Full, Raw }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SecretKey(L);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Message(pub [u8; 32]);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Signature { r: L, s: L }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct RecoveryId(u8);

impl PublicKey {
	pub fn from_secret_key(s: &SecretKey) -> Self { let (x, y) = J::aff(GX, GY).mul(&s.0).affine().unwrap(); Self { x, y } }
	pub fn parse(p: &[u8; 65]) -> Result<Self, Error> {
		if !matches!(p[0], 4 | 6 | 7) { return Err(Error::InvalidPublicKey) }
		let (x, y) = (from_be(&p[1..33]), from_be(&p[33..65]));
		if cmp(&x, &P) != std::cmp::Ordering::Less || cmp(&y, &P) != std::cmp::Ordering::Less || !on_curve(&x, &y) { return Err(Error::InvalidPublicKey) }
		Ok(Self { x, y }) }
	pub fn parse_compressed(p: &[u8; 33]) -> Result<Self, Error> {
		if p[0] != 2 && p[0] != 3 { return Err(Error::InvalidPublicKey) }
		lift(&from_be(&p[1..]), p[0] == 3).map(|(x, y)| Self { x, y }).ok_or(Error::InvalidPublicKey) }
	pub fn parse_slice(p: &[u8], f: Option<PublicKeyFormat>) -> Result<Self, Error> {
		let f = match (p.len(), f) { (65, None) | (65, Some(PublicKeyFormat::Full)) => PublicKeyFormat::Full, (33, None) | (33, Some(PublicKeyFormat::Compressed)) => PublicKeyFormat::Compressed, (64, None) | (64, Some(PublicKeyFormat::Raw)) => PublicKeyFormat::Raw, _ => return Err(Error::InvalidInputLength) };
		match f { PublicKeyFormat::Full => Self::parse(p.try_into().unwrap()), PublicKeyFormat::Compressed => Self::parse_compressed(p.try_into().unwrap()), PublicKeyFormat::Raw => { let mut b = [4u8; 65]; b[1..].copy_from_slice(p); Self::parse(&b) } } }
	pub fn serialize(&self) -> [u8; 65] { let mut b = [4u8; 65]; b[1..33].copy_from_slice(&to_be(&self.x)); b[33..].copy_from_slice(&to_be(&self.y)); b }
	pub fn serialize_compressed(&self) -> [u8; 33] { let mut b = [2 + (self.y[0] & 1) as u8; 33]; b[1..].copy_from_slice(&to_be(&self.x)); b }
}
impl SecretKey {
	pub fn parse(p: &[u8; 32]) -> Result<Self, Error> { let k = from_be(p); if is_zero(&k) || cmp(&k, &N) != std::cmp::Ordering::Less { Err(Error::InvalidSecretKey) } else { Ok(Self(k)) } }
	pub fn parse_slice(p: &[u8]) -> Result<Self, Error> { Self::parse(p.try_into().map_err(|_| Error::InvalidInputLength)?) }
	pub fn serialize(&self) -> [u8; 32] { to_be(&self.0) }
}
impl Message { pub fn parse(p: &[u8; 32]) -> Self { Message(*p) } pub fn parse_slice(p: &[u8]) -> Result<Self, Error> { Ok(Message(p.try_into().map_err(|_| Error::InvalidInputLength)?)) } pub fn serialize(&self) -> [u8; 32] { self.0 } }
impl RecoveryId { pub fn parse(p: u8) -> Result<Self, Error> { if p < 4 { Ok(Self(p)) } else { Err(Error::InvalidRecoveryId) } } pub fn parse_rpc(p: u8) -> Result<Self, Error> { if (27..31).contains(&p) { Self::parse(p - 27) } else { Err(Error::InvalidRecoveryId) } } pub fn serialize(&self) -> u8 { self.0 } }
impl From<RecoveryId> for u8 { fn from(r: RecoveryId) -> u8 { r.0 } }
fn der_int(b: &[u8]) -> Result<(L, &[u8]), Error> {
	if b.len() < 2 || b[0] != 2 || b[1] & 0x80 != 0 { return Err(Error::InvalidSignature) }
	let n = b[1] as usize; if n == 0 || b.len() < 2 + n { return Err(Error::InvalidSignature) }
	let v = &b[2..2 + n];
	if v[0] & 0x80 != 0 || (v.len() > 1 && v[0] == 0 && v[1] & 0x80 == 0) { return Err(Error::InvalidSignature) }
	let v = if v[0] == 0 { &v[1..] } else { v };
	if v.len() > 32 { return Err(Error::InvalidSignature) }
	let mut x = [0u8; 32]; x[32 - v.len()..].copy_from_slice(v);
	Ok((from_be(&x), &b[2 + n..])) }
impl Signature {
	pub fn parse_der(p: &[u8]) -> Result<Self, Error> {
		if p.len() < 2 || p[0] != 0x30 || p[1] as usize != p.len() - 2 { return Err(Error::InvalidSignature) }
		let (r, rest) = der_int(&p[2..])?; let (s, rest) = der_int(rest)?; if !rest.is_empty() { return Err(Error::InvalidSignature) }
		if cmp(&r, &N) != std::cmp::Ordering::Less || cmp(&s, &N) != std::cmp::Ordering::Less { return Err(Error::InvalidSignature) }
		Ok(Self { r, s }) }
	pub fn parse_standard(p: &[u8; 64]) -> Result<Self, Error> { let (r, s) = (from_be(&p[..32]), from_be(&p[32..])); if cmp(&r, &N) != std::cmp::Ordering::Less || cmp(&s, &N) != std::cmp::Ordering::Less { return Err(Error::InvalidSignature) } Ok(Self { r, s }) }
	pub fn parse_standard_slice(p: &[u8]) -> Result<Self, Error> { Self::parse_standard(p.try_into().map_err(|_| Error::InvalidInputLength)?) }
	pub fn parse_slice(p: &[u8]) -> Result<Self, Error> { Self::parse_standard_slice(p) }
	pub fn serialize(&self) -> [u8; 64] { let mut b = [0; 64]; b[..32].copy_from_slice(&to_be(&self.r)); b[32..].copy_from_slice(&to_be(&self.s)); b }
	pub fn serialize_der(&self) -> SignatureArray { SignatureArray(self.der()) }
	fn der(&self) -> Vec<u8> { fn i(x: &L) -> Vec<u8> { let b = to_be(x); let mut v: Vec<u8> = b.iter().cloned().skip_while(|x| *x == 0).collect(); if v.is_empty() || v[0] & 0x80 != 0 { v.insert(0, 0) } let mut o = vec![2, v.len() as u8]; o.extend(v); o } let mut b = i(&self.r); b.extend(i(&self.s)); let mut o = vec![0x30, b.len() as u8]; o.extend(b); o }
	pub fn normalize_s(&mut self) { let neg = FN.neg(&self.s); if cmp(&neg, &self.s) == std::cmp::Ordering::Less { self.s = neg } }
}
fn red_n(x: L) -> L { if cmp(&x, &N) != std::cmp::Ordering::Less { subb(&x, &N).0 } else { x } }
pub fn verify(m: &Message, sig: &Signature, pk: &PublicKey) -> bool {
	if is_zero(&sig.r) || is_zero(&sig.s) { return false }
	let z = red_n(from_be(&m.0)); let w = FN.inv(&sig.s); let (u1, u2) = (FN.mul(&z, &w), FN.mul(&sig.r, &w));
	match J::aff(GX, GY).mul(&u1).add(&J::aff(pk.x, pk.y).mul(&u2)).affine() { Some((x, _)) => red_n(x) == sig.r, None => false }
}
pub fn recover(m: &Message, sig: &Signature, id: &RecoveryId) -> Result<PublicKey, Error> {
	if is_zero(&sig.r) || is_zero(&sig.s) { return Err(Error::InvalidSignature) }
	let mut x = sig.r;
	if id.0 & 2 != 0 { let (y, c) = addc(&x, &N); if c || cmp(&y, &P) != std::cmp::Ordering::Less { return Err(Error::InvalidSignature) } x = y; }
	let (rx, ry) = lift(&x, id.0 & 1 == 1).ok_or(Error::InvalidSignature)?;
	let z = red_n(from_be(&m.0)); let ri = FN.inv(&sig.r);
	let u1 = FN.neg(&FN.mul(&z, &ri)); let u2 = FN.mul(&sig.s, &ri);
	let (x, y) = J::aff(GX, GY).mul(&u1).add(&J::aff(rx, ry).mul(&u2)).affine().ok_or(Error::InvalidSignature)?;
	Ok(PublicKey { x, y })
}
pub fn sign(m: &Message, sk: &SecretKey) -> (Signature, RecoveryId) {
	let z = red_n(from_be(&m.0));
	for ctr in 0u32.. {
		// deterministic nonce (not RFC 6979; only determinism and validity matter here)
		let mut h = Sha256::new(); h.update(to_be(&sk.0)); h.update(m.0); h.update(ctr.to_be_bytes());
		let k = red_n(from_be(&h.finalize())); if is_zero(&k) { continue }
		let (x, y) = J::aff(GX, GY).mul(&k).affine().unwrap(); let r = red_n(x); if is_zero(&r) { continue }
		let mut s = FN.mul(&FN.inv(&k), &FN.add(&z, &FN.mul(&r, &sk.0))); if is_zero(&s) { continue }
		let mut id = (y[0] & 1) as u8 | if r != x { 2 } else { 0 };
		let neg = FN.neg(&s); if cmp(&neg, &s) == std::cmp::Ordering::Less { s = neg; id ^= 1; }
		return (Signature { r, s }, RecoveryId(id))
	}
	unreachable!()
}
#[cfg(test)]
mod tests {
	use super::*;
	#[test] fn roundtrip() {
		for i in 1u8..20 { let sk = SecretKey::parse(&[i; 32]).unwrap(); let pk = PublicKey::from_secret_key(&sk); let m = Message([i ^ 0x5a; 32]); let (s, id) = sign(&m, &sk);
			assert!(verify(&m, &s, &pk)); assert_eq!(recover(&m, &s, &id).unwrap(), pk); assert!(!verify(&Message([i; 32]), &s, &pk)); assert_eq!(PublicKey::parse_compressed(&pk.serialize_compressed()).unwrap(), pk); assert_eq!(Signature::parse_der(&s.serialize_der()).unwrap(), s); assert_eq!(PublicKey::parse(&pk.serialize()).unwrap(), pk); }
		// 2G known
		let mut two = [0u8; 32]; two[31] = 2; let pk = PublicKey::from_secret_key(&SecretKey::parse(&two).unwrap());
		assert_eq!(pk.serialize_compressed()[..5], [0x02, 0xc6, 0x04, 0x7f, 0x94]);
	}
}

#[derive(Clone, Debug)] pub struct SignatureArray(Vec<u8>);
impl AsRef<[u8]> for SignatureArray { fn as_ref(&self) -> &[u8] { &self.0 } }
