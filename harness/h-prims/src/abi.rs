use crate::{keccak, metered};
use precompile_utils::{prelude::*, data::{Bytes32PostPad, EvmDataReader, EvmDataWriter}, encoded_revert, get_selector, revert::{RevertSelector}};
use fp_evm::{Context, ExitRevert, PrecompileFailure};
use frame_support::traits::ConstU32;
use sp_core::{H160, H256, U256};
use vkit::{self as vk, ensure, ensure_eq, guard, Rng};
const C: [&str; 1] = ["C31"];

// ---------------------------------------------------------------- reference layout (Solidity ABI specification)
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum T { Word(Kind), Bytes(u64), Arr(Box<T>, u64), Tup(Vec<T>) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { U(u32), Bool, Addr, B32 }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V { Word([u8; 32]), Bytes(Vec<u8>), Arr(Vec<V>), Tup(Vec<V>) }
fn dynamic(t: &T) -> bool { match t { T::Word(_) => false, T::Bytes(_) | T::Arr(..) => true, T::Tup(v) => v.iter().any(dynamic) } }
fn word(n: usize) -> [u8; 32] { let mut w = [0; 32]; w[24..].copy_from_slice(&(n as u64).to_be_bytes()); w }
fn head_len(t: &T) -> usize { if dynamic(t) { 32 } else { match t { T::Tup(v) => v.iter().map(head_len).sum(), _ => 32 } } }
/// enc of a sequence: heads then tails, offsets relative to the start of the sequence
fn enc_seq(items: &[(&T, &V)]) -> Vec<u8> {
	let hl: usize = items.iter().map(|(t, _)| head_len(t)).sum();
	let (mut h, mut tl) = (vec![], vec![]);
	for (t, v) in items { let e = enc(t, v); if dynamic(t) { h.extend(word(hl + tl.len())); tl.extend(e) } else { h.extend(e) } }
	h.extend(tl); h
}
fn enc(t: &T, v: &V) -> Vec<u8> { match (t, v) {
	(T::Word(_), V::Word(w)) => w.to_vec(),
	(T::Bytes(_), V::Bytes(b)) => { let mut o = word(b.len()).to_vec(); o.extend(b); while o.len() % 32 != 0 { o.push(0) } o }
	(T::Arr(e, _), V::Arr(vs)) => { let mut o = word(vs.len()).to_vec(); o.extend(enc_seq(&vs.iter().map(|x| (&**e, x)).collect::<Vec<_>>())); o }
	(T::Tup(ts), V::Tup(vs)) => enc_seq(&ts.iter().zip(vs).collect::<Vec<_>>()),
	_ => unreachable!(),
} }
fn num(w: &[u8]) -> Option<usize> { if w[..24].iter().any(|x| *x != 0) { None } else { Some(u64::from_be_bytes(w[24..32].try_into().unwrap()) as usize) } }
/// reference decoder: reads at `cur` inside the container `c`; None = must be rejected
fn dec(t: &T, c: &[u8], cur: &mut usize, fuel: &mut u64) -> Option<V> {
	if *fuel == 0 { return None } *fuel -= 1;
	let w = |cur: &mut usize| -> Option<[u8; 32]> { let e = cur.checked_add(32)?; let r = c.get(*cur..e).map(|x| x.try_into().unwrap()); *cur = e; r };
	if dynamic(t) {
		let off = num(&w(cur)?)?; if off >= c.len() { return None }
		let sub = &c[off..];
		return match t {
			T::Bytes(max) => { let n = num(sub.get(..32)?)?; if n as u64 > *max { return None } Some(V::Bytes(sub.get(32..32usize.checked_add(n)?)?.to_vec())) }
			T::Arr(e, max) => { let n = num(sub.get(..32)?)?; if n as u64 > *max { return None } let items = &sub[32..]; let mut k = 0; let mut o = vec![]; for _ in 0..n { o.push(dec(e, items, &mut k, fuel)?) } Some(V::Arr(o)) }
			T::Tup(ts) => { let mut k = 0; ts.iter().map(|e| dec(e, sub, &mut k, fuel)).collect::<Option<Vec<_>>>().map(V::Tup) }
			_ => unreachable!(),
		};
	}
	match t {
		T::Word(k) => { let x = w(cur)?; match k {
			Kind::U(bits) => { if x[..32 - (*bits as usize / 8)].iter().any(|b| *b != 0) { None } else { Some(V::Word(x)) } }
			Kind::Bool => Some(V::Word(word((x != [0; 32]) as usize))),
			Kind::Addr => { let mut y = x; y[..12].fill(0); Some(V::Word(y)) }
			Kind::B32 => Some(V::Word(x)),
		} }
		T::Tup(ts) => ts.iter().map(|e| dec(e, c, cur, fuel)).collect::<Option<Vec<_>>>().map(V::Tup),
		_ => unreachable!(),
	}
}
// ---------------------------------------------------------------- Rust types of the codec under test
pub trait Abi: EvmData { fn ty() -> T; fn gen(r: &mut Rng) -> Self; fn v(&self) -> V; }
fn edge(r: &mut Rng, bits: u32) -> [u8; 32] { let mut w = [0u8; 32]; let n = (bits / 8) as usize; match r.below(5) { 0 => {} 1 => w[32 - n..].fill(0xff), 2 => w[31] = r.u64() as u8, 3 => w[32 - n] = 0x80, _ => w[32 - n..].copy_from_slice(&r.bytes(n)) } w }
macro_rules! uints { ($($t:ty: $b:expr),*) => { $(impl Abi for $t { fn ty() -> T { T::Word(Kind::U($b)) } fn gen(r: &mut Rng) -> Self { let w = edge(r, $b); <$t>::from_be_bytes(w[32 - $b / 8..].try_into().unwrap()) } fn v(&self) -> V { let mut w = [0; 32]; w[32 - $b / 8..].copy_from_slice(&self.to_be_bytes()); V::Word(w) } })* } }
uints!(u8: 8, u16: 16, u32: 32, u64: 64, u128: 128);
impl Abi for U256 { fn ty() -> T { T::Word(Kind::U(256)) } fn gen(r: &mut Rng) -> Self { U256::from_big_endian(&edge(r, 256)) } fn v(&self) -> V { let mut w = [0; 32]; self.to_big_endian(&mut w); V::Word(w) } }
impl Abi for bool { fn ty() -> T { T::Word(Kind::Bool) } fn gen(r: &mut Rng) -> Self { r.chance(50) } fn v(&self) -> V { V::Word(word(*self as usize)) } }
impl Abi for Address { fn ty() -> T { T::Word(Kind::Addr) } fn gen(r: &mut Rng) -> Self { Address(H160::from_slice(&edge(r, 160)[12..])) } fn v(&self) -> V { let mut w = [0; 32]; w[12..].copy_from_slice(&self.0 .0); V::Word(w) } }
impl Abi for H256 { fn ty() -> T { T::Word(Kind::B32) } fn gen(r: &mut Rng) -> Self { H256(edge(r, 256)) } fn v(&self) -> V { V::Word(self.0) } }
fn blen(r: &mut Rng) -> usize { match r.below(8) { 0 => 0, 1 => 31, 2 => 32, 3 => 33, 4 => 64, 5 => r.range(90, 130) as usize, _ => r.below(40) as usize } }
impl Abi for Bytes { fn ty() -> T { T::Bytes(u32::MAX as u64) } fn gen(r: &mut Rng) -> Self { let n = blen(r); Bytes(r.bytes(n)) } fn v(&self) -> V { V::Bytes(self.0.clone()) } }
impl<X: Abi> Abi for Vec<X> { fn ty() -> T { T::Arr(Box::new(X::ty()), u32::MAX as u64) } fn gen(r: &mut Rng) -> Self { let n = *r.pick(&[0usize, 1, 1, 2, 3, 5]); (0..n).map(|_| X::gen(r)).collect() } fn v(&self) -> V { V::Arr(self.iter().map(|x| x.v()).collect()) } }
macro_rules! tup { ($($n:ident $i:tt),*) => { impl<$($n: Abi),*> Abi for ($($n,)*) { fn ty() -> T { T::Tup(vec![$($n::ty()),*]) } fn gen(r: &mut Rng) -> Self { ($($n::gen(r),)*) } fn v(&self) -> V { V::Tup(vec![$(self.$i.v()),*]) } } } }
tup!(A 0); tup!(A 0, B 1); tup!(A 0, B 1, D 2); tup!(A 0, B 1, D 2, E 3); tup!(A 0, B 1, D 2, E 3, F 4);

/// function arguments: what `read_args!`-style code does, one `read` per argument
pub trait Args: Sized { fn tys() -> Vec<T>; fn gen(r: &mut Rng) -> Self; fn vs(&self) -> Vec<V>; fn write(self) -> Vec<u8>; fn read(d: &[u8]) -> MayRevert<Self>; fn name() -> &'static str { std::any::type_name::<Self>() } }
macro_rules! args { ($w:ident; $($n:ident $i:tt),*) => {
	pub struct $w<$($n),*>($($n),*);
	impl<$($n: Abi),*> Args for $w<$($n),*> { fn tys() -> Vec<T> { vec![$($n::ty()),*] } fn gen(r: &mut Rng) -> Self { $w($($n::gen(r)),*) } fn vs(&self) -> Vec<V> { vec![$(self.$i.v()),*] }
		fn write(self) -> Vec<u8> { EvmDataWriter::new()$(.write(self.$i))*.build() }
		fn read(d: &[u8]) -> MayRevert<Self> { let mut r = EvmDataReader::new(d); Ok($w($(r.read::<$n>()?),*)) } }
} }
args!(A1; A 0); args!(A2; A 0, B 1); args!(A3; A 0, B 1, D 2); args!(A4; A 0, B 1, D 2, E 3); args!(A5; A 0, B 1, D 2, E 3, F 4); args!(A6; A 0, B 1, D 2, E 3, F 4, G 5);

fn check<X: Args>(r: &mut Rng) {
	let name = X::name();
	let tys = X::tys();
	let x = guard("gen", || X::gen(r));
	let vs = x.vs();
	let want = enc_seq(&tys.iter().zip(&vs).collect::<Vec<_>>());
	let got = guard("write", || x.write());
	vk::op(format!("{name} {} bytes", want.len()));
	ensure_eq!(C, hex::encode(&got), hex::encode(&want), "layout", "{name}: encoding differs from the Solidity layout");
	vk::hit("layout"); vk::state(&got);
	let back = guard("read", || X::read(&got));
	match back { Ok(b) => { ensure_eq!(C, b.vs(), vs, "roundtrip", "{name}: value changed"); vk::hit("roundtrip") } Err(e) => vk::fail("roundtrip", format!("{name}: own encoding refused: {e}")) }
	for _ in 0..10 {
		let mut d = got.clone();
		match r.below(9) {
			0 => { let k = r.below(d.len() as u64 + 1) as usize; d.truncate(k); vk::hit("truncated") }
			1 if d.len() >= 32 => { let w = r.below(d.len() as u64 / 32) as usize; d[w * 32..w * 32 + 32].fill(0xff); vk::hit("oversized_length") }
			2 if d.len() >= 32 => { let w = r.below(d.len() as u64 / 32) as usize; let n = *r.pick(&[u32::MAX as usize, u32::MAX as usize + 1, 1 << 31, 1 << 40, usize::MAX, usize::MAX - 31, 1 << 20, 70_000]); d[w * 32..w * 32 + 32].copy_from_slice(&word(n)); vk::hit("oversized_length") }
			3 if d.len() >= 32 => { let w = r.below(d.len() as u64 / 32) as usize; let n = r.below(d.len() as u64 + 40) as usize; d[w * 32..w * 32 + 32].copy_from_slice(&word(n)); }
			4 if !d.is_empty() => { for _ in 0..=r.below(4) { let k = r.below(d.len() as u64) as usize; d[k] ^= 1 << r.below(8); } }
			5 => { let n = r.below(300) as usize; d = r.bytes(n) }
			6 if d.len() >= 64 => { let (a, b) = (r.below(d.len() as u64 / 32) as usize, r.below(d.len() as u64 / 32) as usize); for i in 0..32 { d.swap(a * 32 + i, b * 32 + i) } }
			7 => { let n = r.below(80) as usize; let t = r.bytes(n); d.extend(t) }
			_ if d.len() >= 32 => { let w = r.below(d.len() as u64 / 32) as usize; d[w * 32..w * 32 + 32].fill(0) }
			_ => {}
		}
		// a well formed but very long result (nested pointers onto the same data) is decoded piecewise; skip those
		let mut fuel = 40_000u64;
		let mut cur = 0;
		let wantv: Option<Vec<V>> = tys.iter().map(|t| dec(t, &d, &mut cur, &mut fuel)).collect();
		if fuel == 0 { vk::hit("amplified_input_skipped"); continue }
		let (res, bytes) = guard("read of hostile calldata", || metered(|| X::read(&d)));
		let limit = 200 * (d.len() as u64 + 64) * 40 + 400 * (40_000 - fuel);
		ensure!(C, bytes <= limit, "allocation", "{name}: decoding {} bytes allocated {bytes}", d.len());
		match (res, wantv) {
			(Ok(g), Some(w)) => { ensure_eq!(C, g.vs(), w, "decode", "{name}: decoded differently from {}", hex::encode(&d)); vk::hit("hostile_ok") }
			(Err(e), None) => {
				let text = format!("{e}");
				let PrecompileFailure::Revert { exit_status, output } = PrecompileFailure::from(e) else { vk::fail("revert", format!("{name}: malformed calldata is not a revert")) };
				ensure_eq!(C, exit_status, ExitRevert::Reverted, "revert", "{name}: status");
				ensure!(C, !text.is_empty(), "revert", "{name}: empty reason");
				ensure_eq!(C, output[..4], [0x08, 0xc3, 0x79, 0xa0], "revert", "{name}: revert selector");
				ensure_eq!(C, hex::encode(&output[4..]), hex::encode(&enc_seq(&[(&T::Bytes(0), &V::Bytes(text.clone().into_bytes()))])), "revert", "{name}: revert text");
				vk::hit("hostile_rejected")
			}
			(Ok(g), None) => vk::fail("accepts-malformed", format!("{name}: malformed calldata {} decoded to {:?}", hex::encode(&d), g.vs())),
			(Err(e), Some(w)) => vk::fail("rejects-valid", format!("{name}: calldata {} refused ({e}), expected {w:?}", hex::encode(&d))),
		}
	}
}
#[precompile_utils_macro::generate_function_selector]
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Sel {
	Transfer = "transfer(address,uint256)", BalanceOf = "balanceOf(address)", Approve = "approve(address,uint256)", TransferFrom = "transferFrom(address,address,uint256)", TotalSupply = "totalSupply()", Allowance = "allowance(address,address)",
	OwnerOf = "ownerOf(uint256)", Safe3 = "safeTransferFrom(address,address,uint256)", Safe4 = "safeTransferFrom(address,address,uint256,bytes)", SetAll = "setApprovalForAll(address,bool)", IsAll = "isApprovedForAll(address,address)",
	Supports = "supportsInterface(bytes4)", Bal1155 = "balanceOf(address,uint256)", Batch = "balanceOfBatch(address[],uint256[])", Safe1155 = "safeTransferFrom(address,address,uint256,uint256,bytes)", SafeBatch = "safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)",
	Name = "name()", Symbol = "symbol()", Decimals = "decimals()", Owner = "owner()", Renounce = "renounceOwnership()", TransferOwnership = "transferOwnership(address)", Mint = "mint(address,uint32)", Max = "setMaxSupply(uint32)", Uri = "setBaseURI(bytes)", Odd = "a", Empty = "",
}
const TEXT: &[(&str, &str)] = &[("transfer(address,uint256)", "a9059cbb"), ("balanceOf(address)", "70a08231"), ("approve(address,uint256)", "095ea7b3"), ("transferFrom(address,address,uint256)", "23b872dd"), ("totalSupply()", "18160ddd"), ("allowance(address,address)", "dd62ed3e"),
	("ownerOf(uint256)", "6352211e"), ("safeTransferFrom(address,address,uint256)", "42842e0e"), ("safeTransferFrom(address,address,uint256,bytes)", "b88d4fde"), ("setApprovalForAll(address,bool)", "a22cb465"), ("isApprovedForAll(address,address)", "e985e9c5"),
	("supportsInterface(bytes4)", "01ffc9a7"), ("balanceOf(address,uint256)", "00fdd58e"), ("balanceOfBatch(address[],uint256[])", "4e1273f4"), ("safeTransferFrom(address,address,uint256,uint256,bytes)", "f242432a"), ("safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)", "2eb2c2d6"),
	("name()", "06fdde03"), ("symbol()", "95d89b41"), ("decimals()", "313ce567"), ("owner()", "8da5cb5b"), ("renounceOwnership()", "715018a6"), ("transferOwnership(address)", "f2fde38b"), ("mint(address,uint32)", ""), ("setMaxSupply(uint32)", ""), ("setBaseURI(bytes)", ""), ("a", ""), ("", "")];
const ALL: &[Sel] = &[Sel::Transfer, Sel::BalanceOf, Sel::Approve, Sel::TransferFrom, Sel::TotalSupply, Sel::Allowance, Sel::OwnerOf, Sel::Safe3, Sel::Safe4, Sel::SetAll, Sel::IsAll, Sel::Supports, Sel::Bal1155, Sel::Batch, Sel::Safe1155, Sel::SafeBatch, Sel::Name, Sel::Symbol, Sel::Decimals, Sel::Owner, Sel::Renounce, Sel::TransferOwnership, Sel::Mint, Sel::Max, Sel::Uri, Sel::Odd, Sel::Empty];
fn selectors(r: &mut Rng) {
	for (s, (text, known)) in ALL.iter().zip(TEXT) {
		let k = keccak(text.as_bytes()); let id: u32 = (*s).into();
		ensure_eq!(C, id.to_be_bytes(), k[..4], "selector", "selector of {text}");
		if !known.is_empty() { ensure_eq!(C, hex::encode(id.to_be_bytes()), *known, "selector", "published selector of {text}"); }
		let n = r.below(40) as usize; let mut d = id.to_be_bytes().to_vec(); let tail = r.bytes(n); d.extend(&tail);
		let got = guard("read_selector", || EvmDataReader::read_selector::<Sel>(&d));
		ensure!(C, got.as_ref().ok() == Some(s), "selector", "{text} not recognised");
		ensure_eq!(C, get_selector(&d), id.to_be_bytes(), "selector", "get_selector");
		let mut rest = EvmDataReader::new_skip_selector(&d).unwrap();
		ensure_eq!(C, rest.read_raw_bytes(n).unwrap().to_vec(), tail, "selector", "arguments after the selector");
		ensure!(C, rest.read_raw_bytes(1).is_err(), "accepts-malformed", "read past the end");
		vk::hit("selector_checked");
	}
	for _ in 0..20 {
		let d: Vec<u8> = match r.below(3) { 0 => { let n = r.below(4) as usize; r.bytes(n) } 1 => r.bytes(4), _ => { let mut x = u32::from(*r.pick(ALL)).to_be_bytes(); let b = r.below(32); x[(b / 8) as usize] ^= 1 << (b % 8); x.to_vec() } };
		let want = if d.len() < 4 { None } else { ALL.iter().find(|s| u32::from(**s).to_be_bytes() == d[..4]).copied() };
		let got = guard("read_selector", || EvmDataReader::read_selector::<Sel>(&d).ok());
		ensure_eq!(C, got, want, "selector", "selector {}", hex::encode(&d));
		if d.len() < 4 { ensure_eq!(C, get_selector(&d), [0; 4], "selector", "short input"); ensure!(C, EvmDataReader::new_skip_selector(&d).is_err(), "accepts-malformed", "short input"); }
		if want.is_none() { vk::hit("unknown_selector") }
	}
	for (t, h) in [(keccak256!("Transfer(address,address,uint256)"), "Transfer(address,address,uint256)"), (keccak256!("Approval(address,address,uint256)"), "Approval(address,address,uint256)"), (keccak256!("TransferSingle(address,address,address,uint256,uint256)"), "TransferSingle(address,address,address,uint256,uint256)"), (keccak256!(""), "")] {
		ensure_eq!(C, t, keccak(h.as_bytes()), "topic", "topic of {h}"); vk::hit("topic_hash");
	}
	ensure_eq!(C, hex::encode(keccak256!("Transfer(address,address,uint256)")), "ddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef", "topic", "published topic");
	let id: u32 = RevertSelector::Generic.into(); ensure_eq!(C, id, 0x08c379a0, "selector", "Error(string)");
	let n = blen(r); let m = r.bytes(n);
	let mut want = vec![8, 0xc3, 0x79, 0xa0]; want.extend(enc_seq(&[(&T::Bytes(0), &V::Bytes(m.clone()))]));
	ensure_eq!(C, encoded_revert(&m), want, "revert", "encoded_revert");
	for st in [false, true] { for val in [U256::zero(), U256::one(), U256::MAX] { for (f, ok) in [(FunctionModifier::View, val.is_zero()), (FunctionModifier::NonPayable, !st && val.is_zero()), (FunctionModifier::Payable, !st)] {
		let cx = Context { address: H160::zero(), caller: H160::zero(), apparent_value: val };
		ensure_eq!(C, check_function_modifier(&cx, st, f).is_ok(), ok, "modifier", "static {st} value {val}"); vk::hit("modifier_cases");
	} } }
	let (a, t, d) = (H160::from_slice(&r.bytes(20)), (0..4).map(|_| H256::from_slice(&r.bytes(32))).collect::<Vec<_>>(), r.bytes(5));
	for (n, l) in [log0(a, d.clone()), log1(a, t[0], d.clone()), log2(a, t[0], t[1], d.clone()), log3(a, t[0], t[1], t[2], d.clone()), log4(a, t[0], t[1], t[2], t[3], d.clone())].into_iter().enumerate() {
		ensure!(C, l.address == a && l.topics == t[..n] && l.data == d, "log", "log{n} builder");
		ensure_eq!(C, l.compute_cost().ok(), Some(375 + 375 * n as u64 + 8 * 5), "log", "log{n} cost");
	}
	for (n, l) in [(usize::MAX, 0), (0, usize::MAX), (usize::MAX, usize::MAX), (4, usize::MAX / 8)] { let _ = guard("log_costs", || precompile_utils::costs::log_costs(n, l)); }
}
struct Handle<'a>(&'a [u8]);
impl<'a> Handle<'a> { fn read_after_selector(&self) -> MayRevert<EvmDataReader<'a>> { EvmDataReader::new_skip_selector(self.0) } }
fn via_args(d: &[u8]) -> EvmResult<(H160, U256, Vec<u8>, u32)> { let handle = Handle(d); read_args!(handle, { owner: Address, token_id: U256, call_data: Bytes, qty: u32 }); Ok((owner.into(), token_id, call_data.0, qty)) }
fn bounds(r: &mut Rng) {
	type B = BoundedBytes<ConstU32<40>>; type W = BoundedVec<Address, ConstU32<6>>;
	for n in [0usize, 1, 39, 40, 41, 64, 200] {
		let b = r.bytes(n); let d = EvmDataWriter::new().write(Bytes(b.clone())).build();
		let g = guard("BoundedBytes", || EvmDataReader::new(&d).read::<B>());
		match g { Ok(x) => ensure!(C, n <= 40 && x.into_vec() == b, "bound", "{n} bytes accepted by a bound of 40"), Err(_) => ensure!(C, n > 40, "bound", "{n} bytes refused by a bound of 40") }
		vk::hit("bound_exact");
	}
	for n in [0usize, 1, 5, 6, 7, 30] {
		let v: Vec<Address> = (0..n).map(|_| Address::gen(r)).collect(); let d = EvmDataWriter::new().write(v.clone()).build();
		match guard("BoundedVec", || EvmDataReader::new(&d).read::<W>()) { Ok(x) => ensure!(C, n <= 6 && x.into_vec() == v, "bound", "{n} items accepted by a bound of 6"), Err(_) => ensure!(C, n > 6, "bound", "{n} items refused by a bound of 6") }
	}
	// a claimed length far beyond the data costs nothing
	for big in [u32::MAX as usize, 1 << 31, 1 << 28, 1 << 24] {
		let mut d = word(32).to_vec(); d.extend(word(big)); d.extend(r.bytes(96));
		macro_rules! m { ($($t:ty),*) => { $( let (x, b) = guard("huge length", || metered(|| EvmDataReader::new(&d).read::<$t>().is_ok())); ensure!(C, !x, "accepts-malformed", "length {big} accepted"); ensure!(C, b < 100_000, "allocation", "claimed length {big} over 96 bytes allocated {b}"); vk::hit("oversized_length"); )* } }
		m!(Bytes, Vec<U256>, Vec<Address>, Vec<Bytes>, Vec<(Address, U256)>, Vec<(Bytes, u8)>, Vec<Vec<u8>>, Vec<u8>, Vec<bool>);
	}
	// bytesN
	let n = r.below(32) as usize; let b = r.bytes(n); let d = EvmDataWriter::new().write(Bytes32PostPad(b.clone())).build(); let mut w = b.clone(); w.resize(32, 0);
	ensure_eq!(C, d, w, "layout", "bytes{n}"); ensure_eq!(C, EvmDataReader::new(&d).read::<Bytes32PostPad>().unwrap().0, w, "roundtrip", "bytes{n}");
	ensure!(C, guard("short bytes32", || EvmDataReader::new(&d[..n]).read::<Bytes32PostPad>().is_err() && EvmDataReader::new(&d[..n]).read::<H256>().is_err()), "accepts-malformed", "{n}-byte word accepted");
	// the argument macro
	let (o, t, q) = (H160::from_slice(&r.bytes(20)), U256::from_big_endian(&edge(r, 256)), r.u32());
	let full = EvmDataWriter::new_with_selector(0x01020304u32).write(Address(o)).write(t).write(Bytes(b.clone())).write(q).build();
	ensure_eq!(C, full[..4], [1, 2, 3, 4], "layout", "selector bytes");
	match guard("read_args", || via_args(&full)) { Ok(x) => ensure_eq!(C, x, (o, t, b.clone(), q), "roundtrip", "read_args"), Err(e) => vk::fail("roundtrip", format!("read_args refused {e:?}")) }
	let k = r.below(4 + 4 * 32) as usize;
	ensure!(C, guard("read_args", || matches!(via_args(&full[..k]), Err(PrecompileFailure::Revert { .. }))), "accepts-malformed", "{k} bytes of calldata accepted for four arguments");
	// cursor never overflows
	let mut rd = EvmDataReader::new(&d);
	for _ in 0..6 { let n = *r.pick(&[0usize, 1, 31, usize::MAX, usize::MAX / 2, 33]); let _ = guard("read_raw_bytes", || rd.read_raw_bytes(n).map(|x| x.len()).ok()); }
}
pub fn run() {
	vk::episodes(vk::tier(40_000, 600_000), |ep, r| {
		macro_rules! all { ($($t:ty;)*) => {{ $(check::<$t>(r);)* }} }
		match ep % 5 {
			0 => { all!(A1<U256>; A1<u8>; A1<u16>; A1<u32>; A1<u64>; A1<u128>; A1<bool>; A1<Address>; A1<H256>; A1<Bytes>; A2<Address, U256>; A3<Address, Address, U256>; A4<Address, Address, U256, Bytes>; A5<Address, Address, U256, U256, Bytes>; A2<Address, bool>;) }
			1 => { all!(A1<Vec<U256>>; A1<Vec<Address>>; A1<Vec<Bytes>>; A2<Vec<Address>, Vec<U256>>; A5<Address, Address, Vec<U256>, Vec<U256>, Bytes>; A6<Address, Bytes, Bytes, u128, Vec<Address>, Vec<U256>>; A3<U256, Vec<u8>, bool>; A1<Vec<bool>>; A2<u32, Vec<u32>>;) }
			2 => { all!(A1<Vec<Vec<U256>>>; A1<Vec<Vec<Bytes>>>; A1<Vec<(Address, U256)>>; A1<Vec<(Address, Bytes)>>; A2<(U256, Bytes), (Address, bool)>; A1<(U256, (Address, Bytes), Vec<u16>)>; A2<Vec<(U256, Vec<Bytes>)>, Bytes>; A1<Vec<Vec<Vec<u8>>>>;) }
			3 => { all!(A1<(Address, (u128, (bool, H256)))>; A1<((Bytes, Bytes), (Bytes, U256), Vec<(Bytes, Bytes)>)>; A3<(u8, u16), Vec<((Address, u32), Bytes)>, (Vec<Address>, bool)>; A2<Vec<Vec<(Address, Bytes)>>, Vec<Bytes>>; A1<(Bytes,)>; A1<(U256, U256, U256, U256, U256)>; A4<Bytes, Bytes, Bytes, Bytes>;) }
			_ => { selectors(r); bounds(r) }
		}
	});
}
