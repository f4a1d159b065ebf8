//! Hash functions.
use sha2::Digest;
fn rotl(x: u64, n: u32) -> u64 { x.rotate_left(n) }
fn keccak_f(a: &mut [u64; 25]) {
	const RC: [u64; 24] = [0x1, 0x8082, 0x800000000000808a, 0x8000000080008000, 0x808b, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8a, 0x88, 0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008];
	const R: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
	const PI: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
	for rc in RC {
		let mut c = [0u64; 5];
		for x in 0..5 { c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20]; }
		for x in 0..5 { let d = c[(x + 4) % 5] ^ rotl(c[(x + 1) % 5], 1); for y in 0..5 { a[x + 5 * y] ^= d; } }
		let mut t = a[1];
		for i in 0..24 { let j = PI[i]; let b = a[j]; a[j] = rotl(t, R[i]); t = b; }
		for y in 0..5 { let mut b = [0u64; 5]; b.copy_from_slice(&a[5 * y..5 * y + 5]); for x in 0..5 { a[5 * y + x] = b[x] ^ (!b[(x + 1) % 5] & b[(x + 2) % 5]); } }
		a[0] ^= rc;
	}
}
fn sponge(data: &[u8], rate: usize, pad: u8, out: &mut [u8]) {
	let mut st = [0u64; 25];
	let absorb = |st: &mut [u64; 25], b: &[u8]| { for i in 0..rate / 8 { st[i] ^= u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap()); } keccak_f(st); };
	let mut ch = data.chunks_exact(rate);
	for b in &mut ch { absorb(&mut st, b); }
	let mut last = vec![0u8; rate]; last[..ch.remainder().len()].copy_from_slice(ch.remainder());
	last[ch.remainder().len()] ^= pad; last[rate - 1] ^= 0x80; absorb(&mut st, &last);
	for (i, o) in out.iter_mut().enumerate() { *o = st[i / 8].to_le_bytes()[i % 8]; }
}
pub fn keccak_256(d: &[u8]) -> [u8; 32] { let mut o = [0; 32]; sponge(d, 136, 1, &mut o); o }
pub fn keccak_512(d: &[u8]) -> [u8; 64] { let mut o = [0; 64]; sponge(d, 72, 1, &mut o); o }
pub fn sha3_256(d: &[u8]) -> [u8; 32] { let mut o = [0; 32]; sponge(d, 136, 6, &mut o); o }
fn blake2b(data: &[u8], nn: usize) -> Vec<u8> {
	const IV: [u64; 8] = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179];
	const S: [[usize; 16]; 10] = [[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15],[14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3],[11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4],[7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8],[9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13],[2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9],[12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11],[13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10],[6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5],[10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0]];
	let mut h = IV; h[0] ^= 0x01010000 ^ nn as u64;
	let n = if data.is_empty() { 1 } else { (data.len() + 127) / 128 };
	for i in 0..n {
		let mut b = [0u8; 128]; let end = ((i + 1) * 128).min(data.len()); b[..end - i * 128].copy_from_slice(&data[i * 128..end]);
		let mut m = [0u64; 16]; for k in 0..16 { m[k] = u64::from_le_bytes(b[k * 8..k * 8 + 8].try_into().unwrap()); }
		let mut v = [0u64; 16]; v[..8].copy_from_slice(&h); v[8..].copy_from_slice(&IV); v[12] ^= end as u64; if i == n - 1 { v[14] = !v[14]; }
		for r in 0..12 { let s = &S[r % 10];
			let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| { v[a] = v[a].wrapping_add(v[b]).wrapping_add(x); v[d] = (v[d] ^ v[a]).rotate_right(32); v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(24); v[a] = v[a].wrapping_add(v[b]).wrapping_add(y); v[d] = (v[d] ^ v[a]).rotate_right(16); v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(63); };
			g(0, 4, 8, 12, m[s[0]], m[s[1]]); g(1, 5, 9, 13, m[s[2]], m[s[3]]); g(2, 6, 10, 14, m[s[4]], m[s[5]]); g(3, 7, 11, 15, m[s[6]], m[s[7]]);
			g(0, 5, 10, 15, m[s[8]], m[s[9]]); g(1, 6, 11, 12, m[s[10]], m[s[11]]); g(2, 7, 8, 13, m[s[12]], m[s[13]]); g(3, 4, 9, 14, m[s[14]], m[s[15]]); }
		for k in 0..8 { h[k] ^= v[k] ^ v[k + 8]; }
	}
	h.iter().flat_map(|x| x.to_le_bytes()).take(nn).collect()
}
pub fn blake2_128(d: &[u8]) -> [u8; 16] { blake2b(d, 16).try_into().unwrap() }
pub fn blake2_256(d: &[u8]) -> [u8; 32] { blake2b(d, 32).try_into().unwrap() }
pub fn blake2_512(d: &[u8]) -> [u8; 64] { blake2b(d, 64).try_into().unwrap() }
pub fn blake2_64(d: &[u8]) -> [u8; 8] { blake2b(d, 8).try_into().unwrap() }
fn xxh64(d: &[u8], seed: u64) -> u64 {
	const P1: u64 = 0x9E3779B185EBCA87; const P2: u64 = 0xC2B2AE3D27D4EB4F; const P3: u64 = 0x165667B19E3779F9; const P4: u64 = 0x85EBCA77C2B2AE63; const P5: u64 = 0x27D4EB2F165667C5;
	fn round(a: u64, i: u64) -> u64 { a.wrapping_add(i.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1) }
	let rd = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
	let mut i = 0; let mut h;
	if d.len() >= 32 {
		let mut v = [seed.wrapping_add(P1).wrapping_add(P2), seed.wrapping_add(P2), seed, seed.wrapping_sub(P1)];
		while i + 32 <= d.len() { for k in 0..4 { v[k] = round(v[k], rd(i + 8 * k)); } i += 32; }
		h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
		for k in 0..4 { h = (h ^ round(0, v[k])).wrapping_mul(P1).wrapping_add(P4); }
	} else { h = seed.wrapping_add(P5); }
	h = h.wrapping_add(d.len() as u64);
	while i + 8 <= d.len() { h = (h ^ round(0, rd(i))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4); i += 8; }
	if i + 4 <= d.len() { h = (h ^ (u32::from_le_bytes(d[i..i + 4].try_into().unwrap()) as u64).wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3); i += 4; }
	while i < d.len() { h = (h ^ (d[i] as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1); i += 1; }
	h ^= h >> 33; h = h.wrapping_mul(P2); h ^= h >> 29; h = h.wrapping_mul(P3); h ^ (h >> 32)
}
pub fn twox_64(d: &[u8]) -> [u8; 8] { xxh64(d, 0).to_le_bytes() }
pub fn twox_128(d: &[u8]) -> [u8; 16] { let mut o = [0; 16]; for i in 0..2 { o[i * 8..i * 8 + 8].copy_from_slice(&xxh64(d, i as u64).to_le_bytes()); } o }
pub fn twox_256(d: &[u8]) -> [u8; 32] { let mut o = [0; 32]; for i in 0..4 { o[i * 8..i * 8 + 8].copy_from_slice(&xxh64(d, i as u64).to_le_bytes()); } o }
pub fn sha2_256(d: &[u8]) -> [u8; 32] { sha2::Sha256::digest(d).into() }
pub fn ripemd_160(data: &[u8]) -> [u8; 20] {
	const R1: [usize; 80] = [0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12,1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13];
	const R2: [usize; 80] = [5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12,6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13,8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11];
	const S1: [u32; 80] = [11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8,7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5,11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6];
	const S2: [u32; 80] = [8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6,9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5,15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11];
	const K1: [u32; 5] = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E]; const K2: [u32; 5] = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0];
	fn f(j: usize, x: u32, y: u32, z: u32) -> u32 { match j { 0 => x ^ y ^ z, 1 => (x & y) | (!x & z), 2 => (x | !y) ^ z, 3 => (x & z) | (y & !z), _ => x ^ (y | !z) } }
	let mut m = data.to_vec(); m.push(0x80); while m.len() % 64 != 56 { m.push(0) } m.extend(((data.len() as u64) * 8).to_le_bytes());
	let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
	for b in m.chunks(64) {
		let x: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
		let (mut a, mut c) = (h, h);
		for j in 0..80 {
			let t = a[0].wrapping_add(f(j / 16, a[1], a[2], a[3])).wrapping_add(x[R1[j]]).wrapping_add(K1[j / 16]).rotate_left(S1[j]).wrapping_add(a[4]);
			a = [a[4], t, a[1], a[2].rotate_left(10), a[3]];
			let t = c[0].wrapping_add(f(4 - j / 16, c[1], c[2], c[3])).wrapping_add(x[R2[j]]).wrapping_add(K2[j / 16]).rotate_left(S2[j]).wrapping_add(c[4]);
			c = [c[4], t, c[1], c[2].rotate_left(10), c[3]];
		}
		h = [h[1].wrapping_add(a[2]).wrapping_add(c[3]), h[2].wrapping_add(a[3]).wrapping_add(c[4]), h[3].wrapping_add(a[4]).wrapping_add(c[0]), h[4].wrapping_add(a[0]).wrapping_add(c[1]), h[0].wrapping_add(a[1]).wrapping_add(c[2])];
	}
	let mut o = [0; 20]; for i in 0..5 { o[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_le_bytes()); } o
}
#[cfg(test)]
mod t {
	use super::*;
	fn h(x: &[u8]) -> String { primitive_types::to_hex(x) }
	#[test] fn known() {
		assert_eq!(h(&keccak_256(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
		assert_eq!(h(&keccak_256(b"hello")), "1c8aff950685c2ed4bc3174f3472287b56d9517b9c948127319a09a7a36deac8");
		assert_eq!(h(&blake2_256(b"")), "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8");
		assert_eq!(h(&blake2_512(b"abc"))[..16], *"ba80a53f981c4d0d");
		assert_eq!(h(&twox_128(b"System")), "26aa394eea5630e07c48ae0c9558cef7");
		assert_eq!(h(&twox_128(b"Account")), "b99d880ec681799c0cf30e8886371da9");
		assert_eq!(h(&ripemd_160(b"abc")), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc");
		assert_eq!(xxh64(b"abc", 0), 0x44bc2cf5ad770999);
	}
}
