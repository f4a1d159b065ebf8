//! Account signatures (C30) and the precompile calldata codec (C31)
#![allow(clippy::all)]
mod abi;
mod sig;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
/// per-thread allocation meter: how many bytes the code under test asked for
pub struct Meter;
thread_local! { static BYTES: Cell<u64> = const { Cell::new(0) }; }
unsafe impl GlobalAlloc for Meter {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 { let _ = BYTES.try_with(|b| b.set(b.get().saturating_add(l.size() as u64))); System.alloc(l) }
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { let _ = BYTES.try_with(|b| b.set(b.get().saturating_add(n.saturating_sub(l.size()) as u64))); System.realloc(p, l, n) }
}
#[global_allocator] static M: Meter = Meter;
pub fn metered<R>(f: impl FnOnce() -> R) -> (R, u64) { let a = BYTES.with(|b| b.get()); let r = f(); (r, BYTES.with(|b| b.get()) - a) }
/// Keccak-256 written for this monitor alone
pub fn keccak(data: &[u8]) -> [u8; 32] {
	let mut rc = [0u64; 24];
	let mut lfsr = 1u8;
	for r in rc.iter_mut() { for j in 0..7 { let bit = lfsr & 1; let hi = lfsr >> 7; lfsr <<= 1; if hi == 1 { lfsr ^= 0x71 } if bit == 1 { *r |= 1u64 << ((1u32 << j) - 1) } } }
	let mut a = [[0u64; 5]; 5];
	let f = |a: &mut [[u64; 5]; 5]| for r in rc {
		let c: Vec<u64> = (0..5).map(|x| (0..5).fold(0, |s, y| s ^ a[x][y])).collect();
		for x in 0..5 { let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1); for y in 0..5 { a[x][y] ^= d } }
		let mut b = [[0u64; 5]; 5];
		b[0][0] = a[0][0];
		let (mut x, mut y) = (1usize, 0usize);
		let mut rot = [[0u32; 5]; 5];
		for t in 0..24u32 { rot[x][y] = ((t + 1) * (t + 2) / 2) % 64; let n = (2 * x + 3 * y) % 5; x = y; y = n; }
		for x in 0..5 { for y in 0..5 { b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(rot[x][y]) } }
		for x in 0..5 { for y in 0..5 { a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]) } }
		a[0][0] ^= r;
	};
	let mut p = data.to_vec(); p.push(1); while p.len() % 136 != 0 { p.push(0) } *p.last_mut().unwrap() |= 0x80;
	for ch in p.chunks(136) { for i in 0..17 { a[i % 5][i / 5] ^= u64::from_le_bytes(ch[i * 8..i * 8 + 8].try_into().unwrap()) } f(&mut a) }
	(0..4).flat_map(|i| a[i][0].to_le_bytes()).collect::<Vec<u8>>().try_into().unwrap()
}
fn main() {
	vkit::main(&[
		vkit::Spec { pid: "C30", run: sig::run, required: &["accepted_raw", "accepted_personal", "accepted_hashed_personal", "rejected_message", "rejected_account", "rejected_bitflip", "equivalent_encoding", "garbage_signature", "account_of_key"] },
		vkit::Spec { pid: "C31", run: abi::run, required: &["roundtrip", "layout", "hostile_ok", "hostile_rejected", "truncated", "oversized_length", "unknown_selector", "selector_checked", "modifier_cases", "bound_exact", "topic_hash"] },
	]);
}
