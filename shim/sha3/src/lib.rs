//! Stand-in for `sha3` (Keccak-256 only).
pub use digest::{self, Digest};
use digest::{consts::U32, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};
#[derive(Clone, Default)] pub struct Keccak256(Vec<u8>);
impl HashMarker for Keccak256 {} impl OutputSizeUser for Keccak256 { type OutputSize = U32; }
impl Update for Keccak256 { fn update(&mut self, d: &[u8]) { self.0.extend_from_slice(d) } }
impl FixedOutput for Keccak256 { fn finalize_into(self, out: &mut Output<Self>) { out.copy_from_slice(&k(&self.0)) } }
impl Reset for Keccak256 { fn reset(&mut self) { self.0.clear() } }
impl FixedOutputReset for Keccak256 { fn finalize_into_reset(&mut self, out: &mut Output<Self>) { out.copy_from_slice(&k(&self.0)); self.0.clear() } }
fn k(d: &[u8]) -> [u8; 32] { let mut o = [0; 32]; sponge(d, 136, 1, &mut o); o }
fn rotl(x: u64, n: u32) -> u64 { x.rotate_left(n) }
fn keccak_f(a: &mut [u64; 25]) {
	const RC: [u64; 24] = [0x1, 0x8082, 0x800000000000808a, 0x8000000080008000, 0x808b, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8a, 0x88, 0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008];
	const R: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
	const PI: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
	for rc in RC {
		let mut c = [0u64; 5];
		for x in 0..5 { c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20]; }
		for x in 0..5 { let d = c[(x + 4) % 5] ^ rotl(c[(x + 1) % 5], 1); for y in 0..5 { a[x + 5 * y] ^= d; } }
		let mut t = a[1];
		for i in 0..24 { let j = PI[i]; let b = a[j]; a[j] = rotl(t, R[i]); t = b; }
		for y in 0..5 { let mut b = [0u64; 5]; b.copy_from_slice(&a[5 * y..5 * y + 5]); for x in 0..5 { a[5 * y + x] = b[x] ^ (!b[(x + 1) % 5] & b[(x + 2) % 5]); } }
		a[0] ^= rc;
	}
}
fn sponge(data: &[u8], rate: usize, pad: u8, out: &mut [u8]) {
	let mut st = [0u64; 25];
	let absorb = |st: &mut [u64; 25], b: &[u8]| { for i in 0..rate / 8 { st[i] ^= u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap()); } keccak_f(st); };
	let mut ch = data.chunks_exact(rate);
	for b in &mut ch { absorb(&mut st, b); }
	let mut last = vec![0u8; rate]; last[..ch.remainder().len()].copy_from_slice(ch.remainder());
	last[ch.remainder().len()] ^= pad; last[rate - 1] ^= 0x80; absorb(&mut st, &last);
	for (i, o) in out.iter_mut().enumerate() { *o = st[i / 8].to_le_bytes()[i % 8]; }
}

#[test] fn v() { assert_eq!(k(b"hello")[..4], [0x1c, 0x8a, 0xff, 0x95]); }
