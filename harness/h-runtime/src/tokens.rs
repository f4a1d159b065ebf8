//! C33: ERC20, ERC721 and ERC1155 precompiles against the ledger.
//! Every EVM call is run twice from the same state: as the equivalent ledger operations of the EVM caller (rolled back)
//! and through the EVM. The two states, the outputs and the transfer logs must agree; what fails must leave nothing.
use crate::rt::*;
use crate::*;
use ethabi::Token as T;
use pallet_evm::exec::Step;
use pallet_evm::Runner as _;
use precompile_utils::{constants::*, Address, ErcIdConversion};
use sp_io::hashing::keccak_256;
use std::rc::Rc;
const P: [&str; 1] = ["C33"];
thread_local! { static VALUE: std::cell::Cell<u64> = Default::default(); pub static ODD: std::cell::Cell<bool> = Default::default(); pub static ODD_USED: std::cell::Cell<bool> = Default::default(); }
/// the value sent with the call being modelled
pub fn value() -> u64 { VALUE.with(|v| v.get()) }
pub type Log = (H160, Vec<H256>, Vec<u8>);
pub type Done = Option<(Vec<u8>, Vec<Log>)>;
#[derive(Clone)]
pub struct Op { text: String, to: H160, input: Vec<u8>, pub view: bool, pub pay: bool, hook: Option<AccountId>, run: Rc<dyn Fn(AccountId) -> Done> }
pub fn sel(s: &str) -> Vec<u8> { keccak_256(s.as_bytes())[..4].to_vec() }
pub fn abi(t: &[T]) -> Vec<u8> { ethabi::encode(t) }
pub fn a(x: AccountId) -> T { T::Address(h(x)) }
pub fn u<X: Into<U256>>(x: X) -> T { T::Uint(x.into()) }
pub fn topic(s: &str) -> H256 { keccak_256(s.as_bytes()).into() }
pub fn at(x: AccountId) -> H256 { h(x).into() }
pub fn nt(n: u64) -> H256 { H256::from_low_u64_be(n) }
pub fn call(f: &str, args: &[T]) -> Vec<u8> { let mut v = sel(f); v.extend(abi(args)); v }
pub fn addr(id: u32, p: &[u8; 4]) -> H160 { let x: Address = <Runtime as ErcIdConversion<u32>>::runtime_id_to_evm_id(id, p); x.into() }
pub fn e20(id: u32) -> H160 { addr(id, ERC20_PRECOMPILE_ADDRESS_PREFIX) }
pub fn e721(id: u32) -> H160 { addr(id, ERC721_PRECOMPILE_ADDRESS_PREFIX) }
pub fn e1155(id: u32) -> H160 { addr(id, ERC1155_PRECOMPILE_ADDRESS_PREFIX) }
const LOGS: [&str; 6] = ["Transfer(address,address,uint256)", "Approval(address,address,uint256)", "ApprovalForAll(address,address,bool)", "TransferSingle(address,address,address,uint256,uint256)", "TransferBatch(address,address,address,uint256[],uint256[])", "OwnershipTransferred(address,address)"];
#[derive(Clone, Copy, PartialEq, Debug)]
enum Rcv { Eoa, Good, Empty, Short, Wrong, Reverts, Busy, Again, Only(u8) }
struct W { users: Vec<AccountId>, contracts: Vec<AccountId>, hosts: Vec<AccountId>, rcv: BTreeMap<AccountId, Rcv>, assets: Vec<u32>, nfts: Vec<u32>, sfts: Vec<u32>, busy_asset: u32 }
pub fn dis(who: AccountId, c: Call) -> Option<()> { frame_support::storage::with_storage_layer(|| c.dispatch(RuntimeOrigin::signed(who)).map(|_| ()).map_err(|e| e.error)).ok() }
fn unsigned(c: Call) -> Option<()> { frame_support::storage::with_storage_layer(|| c.dispatch(RuntimeOrigin::none()).map(|_| ()).map_err(|e| e.error)).ok() }
pub fn owner_of(c: u32, s: u32) -> Option<AccountId> { pallet_nft::CollectionInfo::<Runtime>::get(c)?.owned_tokens.iter().find(|o| o.owned_serials.contains(&s)).map(|o| o.owner) }
pub fn held(c: u32, s: u32, who: AccountId) -> Balance { pallet_sft::TokenInfo::<Runtime>::get((c, s)).map_or(0, |t| t.owned_tokens.iter().find(|x| x.0 == who).map_or(0, |x| x.1.free_balance)) }
fn may721(c: u32, s: u32, who: AccountId) -> bool { let Some(o) = owner_of(c, s) else { return false }; o == who || pallet_token_approvals::ERC721ApprovalsForAll::<Runtime>::get(o, (c, who)) == Some(true) || pallet_token_approvals::ERC721Approvals::<Runtime>::get((c, s)) == Some(who) }
fn may1155(c: u32, from: AccountId, who: AccountId) -> bool { from == who || pallet_token_approvals::ERC1155ApprovalsForAll::<Runtime>::get(from, (c, who)) == Some(true) }
pub fn spendable(id: u32, who: AccountId) -> Balance {
	if id == ROOT { let d = frame_system::Account::<Runtime>::get(who).data; return d.free - d.frozen.saturating_sub(d.reserved).min(d.free) }
	let Some(d) = pallet_assets::Asset::<Runtime>::get(id) else { return 0 }; let Some(x) = pallet_assets::Account::<Runtime>::get(id, who) else { return 0 };
	if d.status != pallet_assets::AssetStatus::Live || x.status != pallet_assets::AccountStatus::Liquid { 0 } else { x.balance }
}
pub fn supply(id: u32) -> Balance { if id == ROOT { pallet_balances::TotalIssuance::<Runtime>::get() } else { pallet_assets::Asset::<Runtime>::get(id).map_or(0, |d| d.supply) } }
/// the answers of the three receiver hooks
const SELS: [[u8; 4]; 3] = [[0x15, 0x0b, 0x7a, 0x02], [0xf2, 0x3a, 0x6e, 0x61], [0xbc, 0x19, 0x7c, 0x81]];
impl W {
	fn anyone(&self, rng: &mut Rng) -> AccountId { match rng.below(20) { 0 => H160::zero().into(), 1 => H160::from_low_u64_be(0xF00D0 + rng.below(4)).into(), 2 => e721(*rng.pick(&self.nfts)).into(), 3 => e20(*rng.pick(&self.assets)).into(), 4..=6 => *rng.pick(&self.contracts), 7 | 8 => *rng.pick(&self.hosts), _ => *rng.pick(&self.users) } }
	/// what the receiver's own hook does when asked; None when it refuses
	fn hook(&self, to: AccountId, busy: H160, kind: u8) -> Option<Vec<Log>> {
		match self.rcv.get(&to).copied().unwrap_or(Rcv::Eoa) {
			Rcv::Eoa => if pallet_evm::AccountCodes::<Runtime>::get(h(to)).is_empty() { Some(vec![]) } else { None },
			Rcv::Good => Some(vec![]),
			// answers one of the three questions with its selector, whichever it is asked
			Rcv::Only(k) => if k == kind { Some(vec![]) } else { vk::hit("answered_another"); None },
			// the precompile in progress cannot be entered again, another one can
			Rcv::Again => { let mut l = vec![]; let (c, f) = (self.nfts[0], self.sfts[0]);
				if e721(c) != busy && may721(c, 0, to) { if let Some(o) = owner_of(c, 0) { if dis(o, Call::Nft(pallet_nft::Call::burn { token_id: (c, 0) })).is_some() { l.push((e721(c), vec![topic(LOGS[0]), at(o), H256::zero(), nt(0)], vec![])) } } }
				if e1155(f) != busy && to != acct(0) { pallet_token_approvals::ERC1155ApprovalsForAll::<Runtime>::insert(to, (f, acct(0)), true); l.push((e1155(f), vec![topic(LOGS[2]), at(to), at(acct(0))], yes())); } else { vk::hit("reentry_refused") }
				Some(l) },
			Rcv::Busy => { let x = self.busy_asset; let dest: AccountId = H160::from_low_u64_be(0xB05).into(); Some(match dis(to, Call::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: x, destination: dest, amount: 1, keep_alive: false })) { Some(()) => vec![(e20(x), vec![topic(LOGS[0]), at(to), at(dest)], abi(&[u(1)]))], None => vec![] }) },
			_ => None,
		}
	}
}
pub fn op(text: String, to: H160, input: Vec<u8>, run: impl Fn(AccountId) -> Done + 'static) -> Op { Op { text, to, input, view: false, pay: false, hook: None, run: Rc::new(run) } }
pub fn view(text: String, to: H160, input: Vec<u8>, run: impl Fn() -> Option<Vec<u8>> + 'static) -> Op { Op { text, to, input, view: true, pay: false, hook: None, run: Rc::new(move |_| run().map(|o| (o, vec![]))) } }
pub fn yes() -> Vec<u8> { abi(&[T::Bool(true)]) }
pub fn wide(rng: &mut Rng, n: u128) -> U256 { match rng.below(12) { 0 => U256::from(u128::MAX), 1 => U256::from(u128::MAX) + U256::one(), 2 => U256::MAX, 3 => (U256::from(rng.u64()) << 128) + U256::from(n), _ => U256::from(n) } }
pub fn id_of(rng: &mut Rng, n: u32) -> U256 { match rng.below(16) { 0 => (U256::one() << 32) + U256::from(n), 1 => U256::from(u32::MAX), 2 => (U256::one() << 128) + U256::from(n), _ => U256::from(n) } }
pub fn sat(x: U256) -> Balance { if x > U256::from(u128::MAX) { u128::MAX } else { x.low_u128() } }
pub fn small(x: U256) -> Option<u32> { if x > U256::from(u32::MAX) { None } else { Some(x.low_u32()) } }
pub fn bal128(x: U256) -> Option<Balance> { if x > U256::from(u128::MAX) { None } else { Some(x.low_u128()) } }
fn erc20(rng: &mut Rng, w: &Rc<W>) -> Op {
	let id = *rng.pick(&w.assets); let to = e20(id); let x = w.anyone(rng); let y = w.anyone(rng); let n = if rng.chance(40) { spendable(id, x).saturating_add(rng.below(3) as u128).saturating_sub(1) } else { rng.below(2000) as u128 }; let v = wide(rng, n);
	match rng.below(12) {
		0 => view(format!("20/{id} totalSupply"), to, sel("totalSupply()"), move || Some(abi(&[u(supply(id))]))),
		1 => view(format!("20/{id} balanceOf {x:?}"), to, call("balanceOf(address)", &[a(x)]), move || Some(abi(&[u(spendable(id, x))]))),
		2 => view(format!("20/{id} allowance {x:?} {y:?}"), to, call("allowance(address,address)", &[a(x), a(y)]), move || Some(abi(&[u(pallet_token_approvals::ERC20Approvals::<Runtime>::get((x, id), y).unwrap_or(0))]))),
		3 => { let md = move || pallet_assets::Metadata::<Runtime>::get(id).expect("metadata"); match rng.below(3) {
			0 => view(format!("20/{id} name"), to, sel("name()"), move || Some(abi(&[T::Bytes(md().name.clone().into_inner())]))),
			1 => view(format!("20/{id} symbol"), to, sel("symbol()"), move || Some(abi(&[T::Bytes(md().symbol.clone().into_inner())]))),
			_ => view(format!("20/{id} decimals"), to, sel("decimals()"), move || Some(abi(&[u(md().decimals)]))) } },
		4..=6 => op(format!("20/{id} transfer {y:?} {v}"), to, call("transfer(address,uint256)", &[a(y), T::Uint(v)]), move |me| { dis(me, Call::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: id, destination: y, amount: sat(v), keep_alive: false }))?; Some((yes(), vec![(to, vec![topic(LOGS[0]), at(me), at(y)], abi(&[u(sat(v))]))])) }),
		7 | 8 => op(format!("20/{id} approve {y:?} {v}"), to, call("approve(address,uint256)", &[a(y), T::Uint(v)]), move |me| { if me == y { return None } pallet_token_approvals::ERC20Approvals::<Runtime>::insert((me, id), y, sat(v)); Some((yes(), vec![(to, vec![topic(LOGS[1]), at(me), at(y)], abi(&[u(sat(v))]))])) }),
		_ => op(format!("20/{id} transferFrom {x:?} {y:?} {v}"), to, call("transferFrom(address,address,uint256)", &[a(x), a(y), T::Uint(v)]), move |me| {
			let left = pallet_token_approvals::ERC20Approvals::<Runtime>::get((x, id), me)?.checked_sub(sat(v))?;
			if left == 0 { pallet_token_approvals::ERC20Approvals::<Runtime>::remove((x, id), me) } else { pallet_token_approvals::ERC20Approvals::<Runtime>::insert((x, id), me, left) }
			dis(x, Call::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: id, destination: y, amount: sat(v), keep_alive: false }))?; vk::hit("spent"); Some((yes(), vec![(to, vec![topic(LOGS[0]), at(x), at(y)], abi(&[u(sat(v))]))])) }),
	}
}
fn erc721(rng: &mut Rng, w: &Rc<W>) -> Op {
	let c = *rng.pick(&w.nfts); let to = e721(c); let info = pallet_nft::CollectionInfo::<Runtime>::get(c).unwrap();
	let n = rng.below(info.next_serial_number as u64 + 2) as u32; let x = if rng.chance(75) { owner_of(c, n).unwrap_or(w.users[0]) } else { w.anyone(rng) }; let y = w.anyone(rng); let v = id_of(rng, n); let s = small(v); let yn = rng.chance(60);
	let owned = move |me: AccountId| pallet_nft::CollectionInfo::<Runtime>::get(c).map_or(false, |i| i.owner == me);
	let moved = move |x: AccountId, y: AccountId, s: u32| (to, vec![topic(LOGS[0]), at(x), at(y), nt(s as u64)], vec![]);
	let go = move |me: AccountId, s: u32| -> Option<()> { if !may721(c, s, me) { return None } dis(x, Call::Nft(pallet_nft::Call::transfer { collection_id: c, serial_numbers: vec![s].try_into().unwrap(), new_owner: y })) };
	match rng.below(28) {
		0 => view(format!("721/{c} ownerOf {v}"), to, call("ownerOf(uint256)", &[T::Uint(v)]), move || Some(abi(&[a(owner_of(c, s?)?)]))),
		1 => view(format!("721/{c} balanceOf {x:?}"), to, call("balanceOf(address)", &[a(x)]), move || Some(abi(&[u(pallet_nft::CollectionInfo::<Runtime>::get(c)?.owned_tokens.iter().filter(|o| o.owner == x).map(|o| o.owned_serials.len() as u64).sum::<u64>())]))),
		2 => view(format!("721/{c} getApproved {v}"), to, call("getApproved(uint256)", &[T::Uint(v)]), move || Some(abi(&[T::Address(pallet_token_approvals::ERC721Approvals::<Runtime>::get((c, s?)).map_or(H160::zero(), h))]))),
		3 => view(format!("721/{c} isApprovedForAll {x:?} {y:?}"), to, call("isApprovedForAll(address,address)", &[a(x), a(y)]), move || Some(abi(&[T::Bool(pallet_token_approvals::ERC721ApprovalsForAll::<Runtime>::get(x, (c, y)) == Some(true))]))),
		4 => match rng.below(6) {
			0 => view(format!("721/{c} totalSupply"), to, sel("totalSupply()"), move || Some(abi(&[u(pallet_nft::CollectionInfo::<Runtime>::get(c)?.owned_tokens.iter().map(|o| o.owned_serials.len() as u64).sum::<u64>())]))),
			1 => view(format!("721/{c} owner"), to, sel("owner()"), move || Some(abi(&[a(pallet_nft::CollectionInfo::<Runtime>::get(c)?.owner)]))),
			2 => view(format!("721/{c} name"), to, sel("name()"), move || Some(abi(&[T::Bytes(pallet_nft::CollectionInfo::<Runtime>::get(c)?.name.clone().into_inner())]))),
			3 => view(format!("721/{c} tokenURI {v}"), to, call("tokenURI(uint256)", &[T::Uint(v)]), move || { let mut b = pallet_nft::CollectionInfo::<Runtime>::get(c)?.metadata_scheme.0.clone().into_inner(); if std::str::from_utf8(&b).is_err() { b = vec![] } b.extend(s?.to_string().into_bytes()); Some(abi(&[T::Bytes(b)])) }),
			4 => { let id = rng.u32(); let id = *rng.pick(&[0x01ffc9a7u32, 0x80ac58cd, 0x5b5e139f, 0xffffffff, id]); let mut v = sel("supportsInterface(bytes4)"); let mut wd = [0u8; 32]; wd[..4].copy_from_slice(&id.to_be_bytes()); v.extend(wd); let known = [0x01ffc9a7u32, 0x80ac58cd, 0x5b5e139f, 0x42966c68, 0x0e083076, 0x2a4288ec].contains(&id); view(format!("721/{c} supportsInterface {id:x}"), to, v, move || Some(abi(&[T::Bool(known)]))) },
			_ => { let (limit, cur) = (rng.below(6) as u32, rng.below(info.next_serial_number as u64 + 2) as u32); view(format!("721/{c} ownedTokens {x:?} {limit} {cur}"), to, call("ownedTokens(address,uint16,uint32)", &[a(x), u(limit), u(cur)]), move || {
				let mut all: Vec<u32> = pallet_nft::CollectionInfo::<Runtime>::get(c)?.owned_tokens.iter().filter(|o| o.owner == x).flat_map(|o| o.owned_serials.to_vec_()).collect(); all.sort(); let page: Vec<u32> = all.iter().copied().filter(|s| *s >= cur).take(limit as usize).collect();
				let next = match page.last() { Some(l) if Some(l) != all.last() => l + 1, Some(_) | None => 0 }; Some(abi(&[u(next), u(all.len() as u64), T::Array(page.into_iter().map(u).collect())])) }) },
		},
		5..=8 => op(format!("721/{c} transferFrom {x:?} {y:?} {v}"), to, call("transferFrom(address,address,uint256)", &[a(x), a(y), T::Uint(v)]), move |me| { go(me, s?)?; Some((vec![], vec![moved(x, y, s?)])) }),
		9..=12 => { let data = rng.chance(50); let args = [a(x), a(y), T::Uint(v), T::Bytes(rng.bytes(5))]; let input = if data { call("safeTransferFrom(address,address,uint256,bytes)", &args) } else { call("safeTransferFrom(address,address,uint256)", &args[..3]) };
			let ww = w.clone(); let mut o = op(format!("721/{c} safeTransferFrom {x:?} {y:?} {v} to {:?}", w.rcv.get(&y)), to, input, move |me| { let s = s?; if !may721(c, s, me) { return None } let mut logs = ww.hook(y, to, 0)?; go(me, s)?; logs.push(moved(x, y, s)); vk::hit_s(format!("received_{:?}", ww.rcv.get(&y).copied().unwrap_or(Rcv::Eoa))); Some((vec![], logs)) }); o.hook = Some(y); o },
		13 | 14 => op(format!("721/{c} approve {y:?} {v}"), to, call("approve(address,uint256)", &[a(y), T::Uint(v)]), move |me| { let s = s?; let o = owner_of(c, s)?; if me == y || !(o == me || pallet_token_approvals::ERC721ApprovalsForAll::<Runtime>::get(o, (c, me)) == Some(true)) { return None } pallet_token_approvals::ERC721Approvals::<Runtime>::insert((c, s), y); Some((vec![], vec![(to, vec![topic(LOGS[1]), at(me), at(y), nt(s as u64)], vec![])])) }),
		15 | 16 => op(format!("721/{c} setApprovalForAll {y:?} {yn}"), to, call("setApprovalForAll(address,bool)", &[a(y), T::Bool(yn)]), move |me| { if me == y { return None } if yn { pallet_token_approvals::ERC721ApprovalsForAll::<Runtime>::insert(me, (c, y), true) } else { pallet_token_approvals::ERC721ApprovalsForAll::<Runtime>::remove(me, (c, y)) } Some((vec![], vec![(to, vec![topic(LOGS[2]), at(me), at(y)], abi(&[T::Bool(yn)]))])) }),
		17..=19 => op(format!("721/{c} burn {v}"), to, call("burn(uint256)", &[T::Uint(v)]), move |me| { let s = s?; if !may721(c, s, me) { return None } let o = owner_of(c, s)?; dis(o, Call::Nft(pallet_nft::Call::burn { token_id: (c, s) }))?; vk::hit("burnt"); Some((vec![], vec![moved(o, H160::zero().into(), s)])) }),
		20 | 21 => { let q = if rng.chance(90) { U256::from(rng.below(4)) } else { *rng.pick(&[U256::from(1001), U256::one() << 32, U256::MAX, (U256::one() << 32) + U256::one()]) }; op(format!("721/{c} mint {y:?} {q}"), to, call("mint(address,uint32)", &[a(y), T::Uint(q)]), move |me| { let q = small(q)?; let f = pallet_nft::CollectionInfo::<Runtime>::get(c)?.next_serial_number; dis(me, Call::Nft(pallet_nft::Call::mint { collection_id: c, quantity: q, token_owner: Some(y) }))?; Some((vec![], (f..f + q).map(|s| moved(H160::zero().into(), y, s)).collect())) }) },
		22 => { let q = id_of(rng, n + 5); op(format!("721/{c} setMaxSupply {q}"), to, call("setMaxSupply(uint32)", &[T::Uint(q)]), move |me| { dis(me, Call::Nft(pallet_nft::Call::set_max_issuance { collection_id: c, max_issuance: small(q)? }))?; Some((vec![], vec![])) }) },
		23 => { let b = { let n = rng.below(8) as usize + if rng.chance(10) { 200 } else { 0 }; vec![b'a' + rng.below(20) as u8; n] }; op(format!("721/{c} setBaseURI {}", b.len()), to, call("setBaseURI(bytes)", &[T::Bytes(b.clone())]), move |me| { dis(me, Call::Nft(pallet_nft::Call::set_base_uri { collection_id: c, base_uri: b.clone() }))?; Some((vec![], vec![])) }) },
		24 => if rng.chance(30) { op(format!("721/{c} renounceOwnership"), to, sel("renounceOwnership()"), move |me| { dis(me, Call::Nft(pallet_nft::Call::set_owner { collection_id: c, new_owner: H160::zero().into() }))?; Some((yes(), vec![(to, vec![topic(LOGS[5]), at(me), H256::zero()], vec![])])) }) } else { op(format!("721/{c} transferOwnership {y:?}"), to, call("transferOwnership(address)", &[a(y)]), move |me| { dis(me, Call::Nft(pallet_nft::Call::set_owner { collection_id: c, new_owner: y }))?; Some((yes(), vec![(to, vec![topic(LOGS[5]), at(me), at(y)], vec![])])) }) },
		25 => op(format!("721/{c} togglePublicMint {yn}"), to, call("togglePublicMint(bool)", &[T::Bool(yn)]), move |me| { dis(me, Call::Nft(pallet_nft::Call::toggle_public_mint { collection_id: c, enabled: yn }))?; Some((vec![], vec![])) }),
		26 => { let id = *rng.pick(&w.assets); let q = if rng.chance(50) { U256::zero() } else { let n = rng.below(200) as u128; wide(rng, n) }; let pay = if rng.chance(85) { e20(id) } else { e721(c) }; op(format!("721/{c} setMintFee {pay:?} {q}"), to, call("setMintFee(address,uint128)", &[T::Address(pay), T::Uint(q)]), move |me| { if pay != e20(id) { return None } let f = bal128(q)?; dis(me, Call::Nft(pallet_nft::Call::set_mint_fee { collection_id: c, pricing_details: if f == 0 { None } else { Some((id, f)) } }))?; Some((vec![], vec![])) }) },
		_ => if rng.chance(50) && !owned(w.users[0]) || rng.chance(50) { op(format!("721/{c} enableXls20"), to, sel("enableXls20Compatibility()"), move |me| { dis(me, Call::Xls20(pallet_xls20::Call::enable_xls20_compatibility { collection_id: c }))?; Some((yes(), vec![])) }) } else {
			let k = match rng.below(10) { 0 => 1000, 1 => 1001 + rng.below(3), _ => rng.below(4) }; let ids: Vec<U256> = (0..k).map(|i| if k > 10 { U256::from(i) } else { let n = rng.below(info.next_serial_number as u64 + 2) as u32; id_of(rng, n) }).collect();
			op(format!("721/{c} reRequestXls20Mint {k}"), to, call("reRequestXls20Mint(uint32[])", &[T::Array(ids.iter().map(|x| T::Uint(*x)).collect())]), move |me| { let v: Option<Vec<u32>> = ids.iter().map(|x| small(*x)).collect(); dis(me, Call::Xls20(pallet_xls20::Call::re_request_xls20_mint { collection_id: c, serial_numbers: v?.try_into().ok()? }))?; Some((yes(), vec![])) }) },
	}
}
fn erc1155(rng: &mut Rng, w: &Rc<W>) -> Op {
	let c = *rng.pick(&w.sfts); let to = e1155(c); let info = pallet_sft::SftCollectionInfo::<Runtime>::get(c).unwrap();
	let n = rng.below(info.next_serial_number as u64 + 1) as u32; let holders: Vec<AccountId> = pallet_sft::TokenInfo::<Runtime>::get((c, n)).map_or(vec![], |t| t.owned_tokens.iter().map(|x| x.0).collect()); let x = if rng.chance(75) && !holders.is_empty() { *rng.pick(&holders) } else { w.anyone(rng) }; let y = w.anyone(rng); let v = id_of(rng, n); let s = small(v); let yn = rng.chance(60);
	let amount = { let k = if rng.chance(40) { held(c, n, x).saturating_add(rng.below(3) as u128).saturating_sub(1) } else { rng.below(30) as u128 }; wide(rng, k) };
	let many = |rng: &mut Rng| -> (Vec<U256>, Vec<U256>) { if rng.chance(5) { let k = 999 + rng.below(4) as usize; return (vec![U256::from(n); k], vec![U256::from(1); k]) } if rng.chance(50) { let own: Vec<u32> = (0..info.next_serial_number).filter(|i| held(c, *i, x) > 0).collect(); if !own.is_empty() { let k = 1 + rng.below(3) as usize; let ids: Vec<u32> = (0..k).map(|_| *rng.pick(&own)).collect(); let more = if rng.chance(6) { Some(U256::from(*rng.pick(&own))) } else { None }; return (ids.iter().map(|i| U256::from(*i)).chain(more).collect(), ids.iter().map(|i| U256::from(amt(rng, held(c, *i, x).min(1 << 40) as u64))).collect()) } } let k = rng.below(4) as usize; let ids: Vec<U256> = (0..k).map(|_| { let n = rng.below(info.next_serial_number as u64 + 1) as u32; id_of(rng, n) }).collect(); let l = if rng.chance(8) { k + 1 } else if rng.chance(5) { k.saturating_sub(1) } else { k }; (ids, (0..l).map(|_| { let n = rng.below(12) as u128; wide(rng, n) }).collect()) };
	let zip = |i: &[U256], q: &[U256]| -> Option<BoundedVec<(u32, Balance), seed_runtime::MaxSerialsPerMint>> { if i.len() != q.len() { return None } let v: Option<Vec<(u32, Balance)>> = i.iter().zip(q).map(|(i, q)| Some((small(*i)?, bal128(*q)?))).collect(); v?.try_into().ok() };
	let arr = |v: &[U256]| T::Array(v.iter().map(|x| T::Uint(*x)).collect());
	let one = move |me: AccountId, x: AccountId, y: AccountId| (to, vec![topic(LOGS[3]), at(me), at(x), at(y)], abi(&[T::Uint(v), T::Uint(amount)]));
	let zero: AccountId = H160::zero().into();
	match rng.below(26) {
		0 => view(format!("1155/{c} balanceOf {x:?} {v}"), to, call("balanceOf(address,uint256)", &[a(x), T::Uint(v)]), move || Some(abi(&[u(held(c, s?, x))]))),
		1 => { let (i, mut q) = many(rng); q.truncate(i.len() + 1); let who: Vec<AccountId> = q.iter().map(|_| w.anyone(rng)).collect(); view(format!("1155/{c} balanceOfBatch {i:?}"), to, call("balanceOfBatch(address[],uint256[])", &[T::Array(who.iter().map(|x| a(*x)).collect()), arr(&i)]), move || { if who.len() != i.len() { return None } let v: Option<Vec<T>> = i.iter().zip(&who).map(|(i, x)| Some(u(held(c, small(*i)?, *x)))).collect(); Some(abi(&[T::Array(v?)])) }) },
		2 => view(format!("1155/{c} totalSupply {v}"), to, call("totalSupply(uint256)", &[T::Uint(v)]), move || Some(abi(&[u(pallet_sft::TokenInfo::<Runtime>::get((c, s?)).map_or(0, |t| t.owned_tokens.iter().map(|x| x.1.free_balance + x.1.reserved_balance).sum::<u128>()))]))),
		3 => view(format!("1155/{c} exists {v}"), to, call("exists(uint256)", &[T::Uint(v)]), move || Some(abi(&[T::Bool(pallet_sft::TokenInfo::<Runtime>::contains_key((c, s?)))]))),
		4 => match rng.below(3) {
			0 => view(format!("1155/{c} owner"), to, sel("owner()"), move || Some(abi(&[a(pallet_sft::SftCollectionInfo::<Runtime>::get(c)?.collection_owner)]))),
			1 => view(format!("1155/{c} uri {v}"), to, call("uri(uint256)", &[T::Uint(v)]), move || { let mut b = pallet_sft::SftCollectionInfo::<Runtime>::get(c)?.metadata_scheme.0.clone().into_inner(); if std::str::from_utf8(&b).is_err() { b = vec![] } b.extend(s?.to_string().into_bytes()); Some(abi(&[T::Bytes(b)])) }),
			_ => view(format!("1155/{c} isApprovedForAll {x:?} {y:?}"), to, call("isApprovedForAll(address,address)", &[a(x), a(y)]), move || Some(abi(&[T::Bool(pallet_token_approvals::ERC1155ApprovalsForAll::<Runtime>::get(x, (c, y)) == Some(true))]))) },
		5..=8 => { let ww = w.clone(); let mut o = op(format!("1155/{c} safeTransferFrom {x:?} {y:?} {v} {amount} to {:?}", w.rcv.get(&y)), to, call("safeTransferFrom(address,address,uint256,uint256,bytes)", &[a(x), a(y), T::Uint(v), T::Uint(amount), T::Bytes(rng.bytes(3))]), move |me| { let mut logs = ww.hook(y, to, 1)?; if y == zero || !may1155(c, x, me) { return None } dis(x, Call::Sft(pallet_sft::Call::transfer { collection_id: c, serial_numbers: zip(&[v], &[amount])?, new_owner: y }))?; logs.push(one(me, x, y)); vk::hit_s(format!("received_{:?}", ww.rcv.get(&y).copied().unwrap_or(Rcv::Eoa))); Some((vec![], logs)) }); o.hook = Some(y); o },
		9..=12 => { let (i, q) = many(rng); let ww = w.clone(); let mut o = op(format!("1155/{c} safeBatchTransferFrom {x:?} {y:?} {} to {:?}", i.len(), w.rcv.get(&y)), to, call("safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)", &[a(x), a(y), arr(&i), arr(&q), T::Bytes(rng.bytes(3))]), move |me| { let mut logs = ww.hook(y, to, 2)?; if y == zero || !may1155(c, x, me) { return None } dis(x, Call::Sft(pallet_sft::Call::transfer { collection_id: c, serial_numbers: zip(&i, &q)?, new_owner: y }))?; logs.push((to, vec![topic(LOGS[4]), at(me), at(x), at(y)], abi(&[arr(&i), arr(&q)]))); vk::hit_s(format!("batch_received_{:?}", ww.rcv.get(&y).copied().unwrap_or(Rcv::Eoa))); Some((vec![], logs)) }); o.hook = Some(y); o },
		13 | 14 => op(format!("1155/{c} setApprovalForAll {y:?} {yn}"), to, call("setApprovalForAll(address,bool)", &[a(y), T::Bool(yn)]), move |me| { if me == y { return None } if yn { pallet_token_approvals::ERC1155ApprovalsForAll::<Runtime>::insert(me, (c, y), true) } else { pallet_token_approvals::ERC1155ApprovalsForAll::<Runtime>::remove(me, (c, y)) } Some((vec![], vec![(to, vec![topic(LOGS[2]), at(me), at(y)], abi(&[T::Bool(yn)]))])) }),
		15 => op(format!("1155/{c} burn {x:?} {v} {amount}"), to, call("burn(address,uint256,uint256)", &[a(x), T::Uint(v), T::Uint(amount)]), move |me| { if !may1155(c, x, me) { return None } dis(x, Call::Sft(pallet_sft::Call::burn { collection_id: c, serial_numbers: zip(&[v], &[amount])? }))?; vk::hit("burnt"); Some((vec![], vec![one(me, x, zero)])) }),
		16 => { let (i, q) = many(rng); op(format!("1155/{c} burnBatch {x:?} {}", i.len()), to, call("burnBatch(address,uint256[],uint256[])", &[a(x), arr(&i), arr(&q)]), move |me| { if !may1155(c, x, me) { return None } dis(x, Call::Sft(pallet_sft::Call::burn { collection_id: c, serial_numbers: zip(&i, &q)? }))?; Some((vec![], vec![(to, vec![topic(LOGS[4]), at(me), at(x), at(zero)], abi(&[arr(&i), arr(&q)]))])) }) },
		17 => op(format!("1155/{c} mint {y:?} {v} {amount}"), to, call("mint(address,uint256,uint256)", &[a(y), T::Uint(v), T::Uint(amount)]), move |me| { dis(me, Call::Sft(pallet_sft::Call::mint { collection_id: c, serial_numbers: zip(&[v], &[amount])?, token_owner: Some(y) }))?; Some((vec![], vec![one(me, zero, y)])) }),
		18 => { let (i, q) = many(rng); op(format!("1155/{c} mintBatch {y:?} {}", i.len()), to, call("mintBatch(address,uint256[],uint256[])", &[a(y), arr(&i), arr(&q)]), move |me| { dis(me, Call::Sft(pallet_sft::Call::mint { collection_id: c, serial_numbers: zip(&i, &q)?, token_owner: Some(y) }))?; Some((vec![], vec![(to, vec![topic(LOGS[4]), at(me), at(zero), at(y)], abi(&[arr(&i), arr(&q)]))])) }) },
		19 => { let name = vec![b'x'; if rng.chance(20) { 51 } else { rng.below(6) as usize }]; let (i, m) = { let i = rng.below(40) as u128; let m = rng.below(60) as u128; (wide(rng, i), if rng.chance(50) { U256::zero() } else { wide(rng, m) }) }; op(format!("1155/{c} createToken {i} {m} {y:?}"), to, call("createToken(bytes,uint128,uint128,address)", &[T::Bytes(name.clone()), T::Uint(i), T::Uint(m), a(y)]), move |me| { let (i, m) = (bal128(i)?, bal128(m)?); let k = pallet_sft::SftCollectionInfo::<Runtime>::get(c)?.next_serial_number; dis(me, Call::Sft(pallet_sft::Call::create_token { collection_id: c, token_name: name.clone().try_into().ok()?, initial_issuance: i, max_issuance: if m == 0 { None } else { Some(m) }, token_owner: if y == zero { None } else { Some(y) } }))?; vk::hit("token_made"); Some((abi(&[u(k)]), vec![])) }) },
		20 => op(format!("1155/{c} setMaxSupply {v} {amount}"), to, call("setMaxSupply(uint256,uint32)", &[T::Uint(v), T::Uint(amount)]), move |me| { dis(me, Call::Sft(pallet_sft::Call::set_max_issuance { token_id: (c, s?), max_issuance: bal128(amount)? }))?; Some((vec![], vec![])) }),
		21 => { let b = { let n = rng.below(8) as usize + if rng.chance(10) { 200 } else { 0 }; vec![b'a' + rng.below(20) as u8; n] }; op(format!("1155/{c} setBaseURI {}", b.len()), to, call("setBaseURI(bytes)", &[T::Bytes(b.clone())]), move |me| { dis(me, Call::Sft(pallet_sft::Call::set_base_uri { collection_id: c, metadata_scheme: seed_primitives::MetadataScheme::try_from(b.as_slice()).ok()? }))?; Some((vec![], vec![])) }) },
		22 => if rng.chance(30) { op(format!("1155/{c} renounceOwnership"), to, sel("renounceOwnership()"), move |me| { dis(me, Call::Sft(pallet_sft::Call::set_owner { collection_id: c, new_owner: zero }))?; Some((yes(), vec![(to, vec![topic(LOGS[5]), at(me), at(zero)], vec![])])) }) } else { op(format!("1155/{c} transferOwnership {y:?}"), to, call("transferOwnership(address)", &[a(y)]), move |me| { dis(me, Call::Sft(pallet_sft::Call::set_owner { collection_id: c, new_owner: y }))?; Some((yes(), vec![(to, vec![topic(LOGS[5]), at(me), at(y)], vec![])])) }) },
		23 => op(format!("1155/{c} togglePublicMint {v} {yn}"), to, call("togglePublicMint(uint256,bool)", &[T::Uint(v), T::Bool(yn)]), move |me| { dis(me, Call::Sft(pallet_sft::Call::toggle_public_mint { token_id: (c, s?), enabled: yn }))?; Some((vec![], vec![])) }),
		_ => { let id = *rng.pick(&w.assets); let q = if rng.chance(50) { U256::zero() } else { let n = rng.below(200) as u128; wide(rng, n) }; let pay = if rng.chance(85) { e20(id) } else { e1155(c) }; op(format!("1155/{c} setMintFee {v} {pay:?} {q}"), to, call("setMintFee(uint256,address,uint128)", &[T::Uint(v), T::Address(pay), T::Uint(q)]), move |me| { if pay != e20(id) { return None } let f = bal128(q)?; dis(me, Call::Sft(pallet_sft::Call::set_mint_fee { token_id: (c, s?), pricing_details: if f == 0 { None } else { Some((id, f)) } }))?; Some((vec![], vec![])) }) },
	}
}
trait Serials { fn to_vec_(&self) -> Vec<u32>; }
impl<S: Get<u32>> Serials for BoundedVec<u32, S> { fn to_vec_(&self) -> Vec<u32> { self.iter().copied().collect() } }
/// the outcome of a call, without trace
pub fn all_or_nothing(f: impl FnOnce() -> Done) -> Done { let mut o = None; let _ = frame_support::storage::with_transaction(|| -> TransactionOutcome<Result<(), DispatchError>> { o = f(); if o.is_some() { TransactionOutcome::Commit(Ok(())) } else { TransactionOutcome::Rollback(Ok(())) } }); o }
pub fn probe<R>(f: impl FnOnce() -> R) -> R { let mut o = None; let _ = frame_support::storage::with_transaction(|| -> TransactionOutcome<Result<(), DispatchError>> { o = Some(f()); TransactionOutcome::Rollback(Ok(())) }); o.unwrap() }
fn setup(rng: &mut Rng) -> W {
	let users: Vec<AccountId> = (0..5).map(acct).collect();
	let mut assets = vec![XRP, ROOT];
	for i in 0..2u64 { let n = AssetsExt::next_asset_uuid().unwrap(); assert_ok!(signed(acct(i), Call::AssetsExt(pallet_assets_ext::Call::create_asset { name: format!("T{i}").into_bytes(), symbol: b"T".to_vec(), decimals: rng.below(19) as u8, min_balance: Some(1 + rng.below(3) as u128), owner: Some(acct(i)) }))); for x in &users { if rng.chance(70) { let k = amt(rng, 3000); assert_ok!(signed(acct(i), Call::Assets(pallet_assets::Call::mint { id: n.into(), beneficiary: *x, amount: 3 + k }))); } } assets.push(n); }
	let (mut nfts, mut sfts) = (vec![], vec![]);
	for _ in 0..2 { let o = rng.below(3); let n = Nft::next_collection_uuid().unwrap(); let xrpl = rng.chance(30); let k = if xrpl { 0 } else { rng.below(8) as u32 }; assert_ok!(signed(acct(o), Call::Nft(pallet_nft::Call::create_collection { name: b"n".to_vec().try_into().unwrap(), initial_issuance: k, max_issuance: if rng.chance(30) { Some(20) } else { None }, token_owner: Some(*rng.pick(&users)), metadata_scheme: seed_primitives::MetadataScheme::try_from(b"https://x/".as_slice()).unwrap(), royalties_schedule: None, cross_chain_compatibility: seed_primitives::CrossChainCompatibility { xrpl } }))); nfts.push(n); }
	for _ in 0..2 { let o = rng.below(3); let n = Nft::next_collection_uuid().unwrap(); assert_ok!(signed(acct(o), Call::Sft(pallet_sft::Call::create_collection { collection_name: b"s".to_vec().try_into().unwrap(), collection_owner: None, metadata_scheme: seed_primitives::MetadataScheme::try_from(b"https://y/".as_slice()).unwrap(), royalties_schedule: None }))); for _ in 0..3 { let k = amt(rng, 40); assert_ok!(signed(acct(o), Call::Sft(pallet_sft::Call::create_token { collection_id: n, token_name: b"t".to_vec().try_into().unwrap(), initial_issuance: k, max_issuance: None, token_owner: Some(*rng.pick(&users)) }))); } sfts.push(n); }
	let busy_asset = assets[2]; let mut rcv = BTreeMap::new(); let mut contracts = vec![];
	for (i, r) in [Rcv::Good, Rcv::Good, Rcv::Empty, Rcv::Short, Rcv::Wrong, Rcv::Reverts, Rcv::Busy, Rcv::Again, Rcv::Only(0), Rcv::Only(1), Rcv::Only(2)].into_iter().enumerate() {
		let x: AccountId = H160::from_low_u64_be(0xC0DE_00 + i as u64).into();
		let s = match r { Rcv::Good => vec![Step::Receiver], Rcv::Empty => vec![], Rcv::Short => vec![Step::Return(vec![0x15, 0x0b, 0x7a][..rng.below(4) as usize].to_vec())], Rcv::Wrong => vec![Step::Return(match rng.below(4) { 0 => { let mut b = vec![0u8; 28]; b.extend(SELS[rng.below(3) as usize]); b } 1 => [&[0][..], &SELS.concat(), &[0; 19]].concat(), 2 => { let mut b = SELS.concat(); b.rotate_left(1); b.resize(32, 0); b } _ => rng.bytes(32) })], Rcv::Only(k) => vec![Step::Return({ let mut b = SELS[k as usize].to_vec(); b.resize(32, 0); b })], Rcv::Reverts => vec![Step::Revert], Rcv::Busy => vec![Step::Call { kind: 0, to: e20(busy_asset), value: U256::zero(), input: call("transfer(address,uint256)", &[T::Address(H160::from_low_u64_be(0xB05)), u(1)]), gas: None, must: false }, Step::Receiver], Rcv::Again => vec![Step::Call { kind: 0, to: e721(nfts[0]), value: U256::zero(), input: call("burn(uint256)", &[u(0)]), gas: Some(200_000), must: false }, Step::Call { kind: 0, to: e1155(sfts[0]), value: U256::zero(), input: call("setApprovalForAll(address,bool)", &[a(acct(0)), T::Bool(true)]), gas: Some(200_000), must: false }, Step::Receiver], _ => vec![] };
		pallet_evm::Pallet::<Runtime>::create_account(h(x), s.encode()); rcv.insert(x, r); contracts.push(x);
	}
	let hosts: Vec<AccountId> = (0..2).map(|i| H160::from_low_u64_be(0xC0DE_F0 + i).into()).collect(); for x in &hosts { pallet_evm::Pallet::<Runtime>::create_account(h(*x), Vec::<Step>::new().encode()); }
	for x in hosts.iter().chain([&contracts[6]]) { for id in &assets { if *id == ROOT { let _ = signed(acct(0), Call::Balances(pallet_balances::Call::transfer_allow_death { dest: *x, value: 1_000_000 })); } else if *id == XRP { let _ = signed(acct(0), Call::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: XRP, destination: *x, amount: 1_000_000, keep_alive: false })); } else { let o = pallet_assets::Asset::<Runtime>::get(id).unwrap().owner; let _ = signed(o, Call::Assets(pallet_assets::Call::mint { id: (*id).into(), beneficiary: *x, amount: 500 })); } } }
	if rng.chance(50) { let c = nfts[0]; let _ = signed(pallet_nft::CollectionInfo::<Runtime>::get(c).unwrap().owner, Call::Nft(pallet_nft::Call::mint { collection_id: c, quantity: 2, token_owner: Some(hosts[0]) })); }
	W { users, contracts, hosts, rcv, assets, nfts, sfts, busy_asset }
}
/// the ledger moves without the EVM
fn plain(rng: &mut Rng, w: &Rc<W>) {
	let i = rng.below(5); let who = acct(i); let y = w.anyone(rng);
	let c = match rng.below(10) {
		0 | 1 => { let id = *rng.pick(&w.assets); Call::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: id, destination: y, amount: amt(rng, 500), keep_alive: rng.chance(50) }) },
		2 => { let id = w.assets[2 + rng.below(2) as usize]; if rng.chance(50) { Call::Assets(pallet_assets::Call::freeze { id: id.into(), who: y }) } else { Call::Assets(pallet_assets::Call::thaw { id: id.into(), who: y }) } },
		3 => { let id = w.assets[2 + rng.below(2) as usize]; Call::Assets(pallet_assets::Call::mint { id: id.into(), beneficiary: y, amount: amt(rng, 500) }) },
		4 => { let c = *rng.pick(&w.nfts); Call::Nft(pallet_nft::Call::mint { collection_id: c, quantity: 1 + rng.below(3) as u32, token_owner: Some(y) }) },
		5 => { let c = *rng.pick(&w.nfts); let s = rng.below(8) as u32; Call::Nft(pallet_nft::Call::transfer { collection_id: c, serial_numbers: vec![s].try_into().unwrap(), new_owner: y }) },
		6 => { let c = *rng.pick(&w.nfts); let s = rng.below(8) as u32; Call::Marketplace(pallet_marketplace::Call::sell { tokens: pallet_marketplace::types::ListingTokens::Nft(pallet_marketplace::types::NftListing { collection_id: c, serial_numbers: vec![s].try_into().unwrap() }), buyer: None, payment_asset: XRP, fixed_price: 10, duration: Some(1000), marketplace_id: None }) },
		7 => { let c = *rng.pick(&w.nfts); Call::Nft(pallet_nft::Call::set_utility_flags { collection_id: c, utility_flags: seed_pallet_common::utils::CollectionUtilityFlags { transferable: rng.chance(70), burnable: rng.chance(70), mintable: rng.chance(70) } }) },
		8 => { let c = *rng.pick(&w.sfts); Call::Sft(pallet_sft::Call::transfer { collection_id: c, serial_numbers: vec![(rng.below(3) as u32, amt(rng, 10))].try_into().unwrap(), new_owner: y }) },
		_ => { let c = *rng.pick(&w.sfts); Call::Marketplace(pallet_marketplace::Call::sell { tokens: pallet_marketplace::types::ListingTokens::Sft(pallet_marketplace::types::SftListing { collection_id: c, serial_numbers: vec![(rng.below(3) as u32, amt(rng, 5))].try_into().unwrap() }), buyer: None, payment_asset: XRP, fixed_price: 10, duration: Some(1000), marketplace_id: None }) },
	};
	let who = if rng.chance(50) { who } else { match &c { Call::Nft(_) => pallet_nft::CollectionInfo::<Runtime>::get(w.nfts[0]).unwrap().owner, _ => who } };
	vk::op(format!("plain {who:?}: {c:?}")); let r = signed(who, c); vk::op(format!("  -> {r:?}")); vk::hit("plain");
}
fn step(rng: &mut Rng, w: &Rc<W>) {
	drive(rng, P, &w.hosts, &LOGS, &|rng| loop { let o = match rng.below(5) { 0 => erc20(rng, w), 1 | 2 => erc721(rng, w), _ => erc1155(rng, w) }; if o.hook.map_or(true, |y| !w.hosts.contains(&y)) { return o } })
}
/// a transaction of one or several calls, by an account or through a contract, against the ledger
#[allow(non_snake_case)]
pub fn drive(rng: &mut Rng, pids: [&'static str; 1], hosts: &[AccountId], known: &[&str], one: &dyn Fn(&mut Rng) -> Op) {
	// half of the calls are chosen among those the ledger lets the caller make
	let any = |rng: &mut Rng, me: AccountId| { let tries = if rng.chance(50) { 10 } else { 0 }; let mut o = one(rng); for _ in 0..tries { if !o.view && vk::quiet(|| probe(|| { VALUE.with(|v| v.set(0)); (o.run)(me).is_some() })) { break } o = one(rng) } o };
	let source = acct(rng.below(5)); let direct = rng.chance(55); let via: AccountId = hosts[rng.below(2) as usize]; let me = if direct { source } else { via };
	// (kind, value, must, op)
	let n = if direct { 1 } else { 1 + rng.below(3) };
	let calls: Vec<(u8, u64, bool, Op)> = (0..n).map(|_| { let kind = if direct { 0 } else { match rng.below(12) { 0 => 1, 1 => 2, 2 | 3 => 3, _ => 0 } }; let v = if rng.chance(6) { 1_000_000_000_000 * (1 + rng.below(50)) } else { 0 }; let must = rng.chance(40); let o = any(rng, me); let v = if o.pay && rng.chance(85) { match rng.below(4) { 0 => rng.below(5000), 1 => 1_000_000_000_000 * (1 + rng.below(5000)), 2 => 1_000_000_000_000 * rng.below(3000) + rng.below(1_000_000_000_000), _ => rng.below(5_000_000) } } else { v }; (kind, v, must, o) }).collect();
	let undo = !direct && rng.chance(8);
	if !direct { let mut s: Vec<Step> = calls.iter().map(|(k, v, m, o)| Step::Call { kind: *k, to: o.to, value: U256::from(*v), input: o.input.clone(), gas: None, must: *m }).collect(); if undo { s.push(Step::Revert) } else { s.push(Step::Return(vec![])) } pallet_evm::AccountCodes::<Runtime>::insert(h(via), s.encode()); }
	let caller = if direct { source } else { via };
	let text = format!("{source:?}{} {}", if direct { String::new() } else { format!(" via {via:?}{}", if undo { " (reverts)" } else { "" }) }, calls.iter().map(|(k, v, m, o)| format!("[kind {k} value {v} must {m} {}]", o.text)).collect::<Vec<_>>().join(" "));
	vk::op(text.clone());
	let tight = direct && rng.chance(15); let gas = if tight { 21_000 + rng.below(400_000) } else { 60_000_000 };
	System::reset_events();
	let s0 = probe(|| { System::inc_account_nonce(source); state() });
	let expect = |odd: bool| { ODD.with(|x| x.set(odd)); ODD_USED.with(|x| x.set(false)); probe(|| { System::inc_account_nonce(source); let mut res: Vec<Done> = vec![]; let mut logs = vec![]; let mut stop = false;
		let done = all_or_nothing(|| { for (k, v, m, o) in &calls {
				// delegate calls, value and writes in a static context are refused
				VALUE.with(|x| x.set(if *k == 0 { *v } else { 0 }));
				let r = if *k == 1 || *k == 2 || (*v > 0 && *k == 0 && !o.pay) || (*k == 3 && !o.view) { None } else { let r = (o.run.clone(), caller); all_or_nothing(move || (r.0)(r.1)) };
				let bad = r.is_none(); if let Some(x) = &r { logs.extend(x.1.clone()) } res.push(r); if (*m || direct) && bad { stop = true; return None } }
			if undo { stop = true; return None } Some((vec![], vec![])) });
		let _ = done; if stop { logs.clear() } System::reset_events(); (state(), (res, logs), !stop) }) };
	let (mut want, mut res, mut ok) = expect(false);
	let odd = if ODD_USED.with(|x| x.get()) { Some(expect(true)) } else { None };
	pallet_evm::exec::take_frames();
	let value = if direct { calls[0].1 } else { 0 };
	let info = <Runtime as pallet_evm::Config>::Runner::call(h(source), if direct { calls[0].3.to } else { h(via) }, if direct { calls[0].3.input.clone() } else { vec![] }, U256::from(value), gas, None, None, None, vec![], false, false, None, None, <Runtime as pallet_evm::Config>::config());
	System::reset_events();
	let Ok(info) = info.map_err(|_| ()) else { vk::fail("runner", text) };
	let frames: Vec<_> = pallet_evm::exec::take_frames(); let got = state(); let good = info.exit_reason.is_succeed();
	let which = |x: &[(Vec<u8>, Vec<u8>)], y: &[(Vec<u8>, Vec<u8>)]| { let m: BTreeMap<_, _> = x.iter().cloned().collect(); let m2: BTreeMap<_, _> = y.iter().cloned().collect(); m.keys().chain(m2.keys()).collect::<BTreeSet<_>>().into_iter().filter(|k| m.get(*k) != m2.get(*k)).map(|k| format!("{}: {:?} -> {:?}", hex::encode(k), m.get(k).map(hex::encode), m2.get(k).map(hex::encode))).collect::<Vec<_>>().join("\n") };
	let depth = !direct as usize; let inner: Vec<_> = frames.iter().filter(|f| f.depth == depth).collect();
	let seen: Vec<Log> = info.logs.iter().map(|l| (l.address, l.topics.clone(), l.data.clone())).filter(|l| l.1.first().map_or(false, |t| known.iter().any(|n| topic(n) == *t))).collect();
	// the listed finding, exactly: anything else is judged as if it did not exist
	if let Some(o) = odd {
		let fits = |want: &Vec<(Vec<u8>, Vec<u8>)>, res: &(Vec<Done>, Vec<Log>), ok: bool| good == ok && got == *if good { want } else { &s0 } && inner.len() == res.0.len() && inner.iter().zip(&res.0).all(|(f, r)| f.ok == r.is_some() && r.as_ref().map_or(true, |x| x.0 == f.output)) && seen == res.1;
		if !fits(&want, &res, ok) && fits(&o.0, &o.1, o.2) { if !vk::fail_known("payable-value") { vk::fail("payable-value", format!("{text}: the value sent is not what was spent\n{}", which(&want, &got))) } (want, res, ok) = o; }
	}
	if tight && !good { ensure!(pids, got == s0, "out-of-gas-traces", "{text}: failed with gas {gas} and left\n{}", which(&s0, &got)); vk::hit("out_of_gas"); return }
	ensure!(pids, good == ok, "outcome", "{text}: succeeded {good}, the ledger operation {ok}; {:?} {:?}", info.exit_reason, String::from_utf8_lossy(&info.value));
	if !good { ensure!(pids, got == s0, "failed-traces", "{text}: failed and left\n{}", which(&s0, &got)); vk::hit("refused") }
	ensure!(pids, got == want, "effect", "{text}: expected -> got\n{}", which(&want, &got));
	// what each call said
	for (i, (f, r)) in inner.iter().zip(&res.0).enumerate() {
		let (k, v, _, o) = &calls[i];
		ensure!(pids, f.code_address == o.to && f.ok == r.is_some(), "call-outcome", "{text}: call {i} ok {}, expected {}", f.ok, r.is_some());
		if let Some(x) = r { ensure!(pids, f.output == x.0, "output", "{text}: call {i} said {}, expected {}", hex::encode(&f.output), hex::encode(&x.0)); vk::hit(if o.view { if *k == 3 { "static_read" } else { "read" } } else if direct { "write" } else { "contract_write" }) }
		else if *k == 3 && !o.view { vk::hit("static_write_refused") } else if *k == 1 || *k == 2 { vk::hit("delegate_refused") } else if *v > 0 { vk::hit("value_refused") }
	}
	ensure!(pids, inner.len() == res.0.len(), "calls", "{text}: {} calls ran, expected {}", inner.len(), res.0.len());
	ensure!(pids, seen == res.1, "logs", "{text}: logs {seen:?}, expected {:?}", res.1); vk::hit_n("logs", seen.len() as u64);
	if undo { vk::hit("undone") }
	vk::state(&(calls.len(), ok, keccak_256(&got.encode())));
}
pub fn run() {
	vk::episodes(vk::tier(4000, 40000), |_, rng| chain(5, || {
		let w = Rc::new(setup(rng));
		for _ in 0..vk::tier(60, 120) { if rng.chance(25) { plain(rng, &w) } else { step(rng, &w) } }
	}));
}
pub const REQUIRED: &[&str] = &["plain", "read", "static_read", "write", "contract_write", "static_write_refused", "delegate_refused", "value_refused", "refused", "undone", "out_of_gas", "spent", "burnt", "token_made", "logs", "received_Good", "received_Busy", "received_Only(0)", "batch_received_Only(2)", "answered_another", "batch_received_Good"];
