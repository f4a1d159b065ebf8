//! Stand-in for `ripemd` (RIPEMD-160 only), a plain transcription of the published algorithm.
pub use digest::Digest;
use digest::{generic_array::GenericArray, consts::U20, FixedOutput, HashMarker, OutputSizeUser, Update, Output, Reset, FixedOutputReset};
#[derive(Clone, Default)] pub struct Ripemd160(Vec<u8>);
impl HashMarker for Ripemd160 {} impl OutputSizeUser for Ripemd160 { type OutputSize = U20; }
impl Update for Ripemd160 { fn update(&mut self, d: &[u8]) { self.0.extend_from_slice(d) } }
impl FixedOutput for Ripemd160 { fn finalize_into(self, out: &mut Output<Self>) { out.copy_from_slice(&rmd(&self.0)) } }
impl Reset for Ripemd160 { fn reset(&mut self) { self.0.clear() } }
impl FixedOutputReset for Ripemd160 { fn finalize_into_reset(&mut self, out: &mut Output<Self>) { out.copy_from_slice(&rmd(&self.0)); self.0.clear() } }
#[doc(hidden)] pub type _O = GenericArray<u8, U20>;
fn rmd(m: &[u8]) -> [u8; 20] {
	const RL: [usize; 80] = [0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8, 3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13];
	const RR: [usize; 80] = [5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2, 15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11];
	const SL: [u32; 80] = [11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12, 11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6];
	const SR: [u32; 80] = [8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11, 9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11];
	const KL: [u32; 5] = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E]; const KR: [u32; 5] = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0];
	fn f(j: usize, x: u32, y: u32, z: u32) -> u32 { match j { 0 => x ^ y ^ z, 1 => (x & y) | (!x & z), 2 => (x | !y) ^ z, 3 => (x & z) | (y & !z), _ => x ^ (y | !z) } }
	let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
	let mut p = m.to_vec(); p.push(0x80); while p.len() % 64 != 56 { p.push(0) } p.extend_from_slice(&((m.len() as u64) * 8).to_le_bytes());
	for c in p.chunks(64) {
		let x: Vec<u32> = c.chunks(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect();
		let (mut l, mut r) = (h, h);
		for j in 0..80 {
			let q = j / 16;
			let t = l[0].wrapping_add(f(q, l[1], l[2], l[3])).wrapping_add(x[RL[j]]).wrapping_add(KL[q]).rotate_left(SL[j]).wrapping_add(l[4]);
			l = [l[4], t, l[1], l[2].rotate_left(10), l[3]];
			let t = r[0].wrapping_add(f(4 - q, r[1], r[2], r[3])).wrapping_add(x[RR[j]]).wrapping_add(KR[q]).rotate_left(SR[j]).wrapping_add(r[4]);
			r = [r[4], t, r[1], r[2].rotate_left(10), r[3]];
		}
		let t = h[1].wrapping_add(l[2]).wrapping_add(r[3]);
		h[1] = h[2].wrapping_add(l[3]).wrapping_add(r[4]); h[2] = h[3].wrapping_add(l[4]).wrapping_add(r[0]); h[3] = h[4].wrapping_add(l[0]).wrapping_add(r[1]); h[4] = h[0].wrapping_add(l[1]).wrapping_add(r[2]); h[0] = t;
	}
	let mut o = [0u8; 20]; for (i, w) in h.iter().enumerate() { o[i * 4..i * 4 + 4].copy_from_slice(&w.to_le_bytes()) } o
}
#[test] fn vec() { assert_eq!(rmd(b"abc")[..4], [0x8e, 0xb2, 0x08, 0xf7]); assert_eq!(rmd(b"")[..4], [0x9c, 0x11, 0x85, 0xa5]); }
