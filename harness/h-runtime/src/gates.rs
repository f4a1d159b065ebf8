//! C38: the collection, bridge and futurepass precompiles against the ledger, by the differential driver of `tokens.rs`.
use crate::pass::join_sig;
use crate::rt::*;
use crate::tokens::{self, *};
use crate::*;
use ethabi::Token as T;
use frame_support::traits::ConstU32;
use pallet_evm::exec::Step;
use pallet_futurepass::Holders;
use seed_pallet_common::EthereumEventSubscriber;
use std::rc::Rc;
const LOGS: [&str; 8] = ["InitializeCollection(address,address)", "InitializeSftCollection(address,address)", "Erc20Withdrawal(uint64,address,address,uint128)", "Erc721Withdrawal(uint64,address,address,uint32[])", "FuturepassCreated(address,address)", "FuturepassDelegateRegistered(address,address,uint8)", "FuturepassDelegateUnregistered(address,address)", "OwnershipTransferred(address,address)"];
struct W { users: Vec<AccountId>, hosts: Vec<AccountId>, assets: Vec<u32>, nfts: Vec<u32> }
fn addr(n: u64) -> H160 { H160::from_low_u64_be(n) }
fn t(i: usize) -> H256 { topic(LOGS[i]) }
fn someone(rng: &mut Rng, w: &W) -> AccountId { if rng.chance(10) { if rng.chance(40) { crate::rt::odd_address(rng).into() } else { addr(0xD0_0D + rng.below(3)).into() } } else if rng.chance(15) { *rng.pick(&w.hosts) } else if rng.chance(20) { pass(rng, w).into() } else { *rng.pick(&w.users) } }
/// a futurepass address, mostly of an existing one
fn pass(rng: &mut Rng, w: &W) -> H160 { let who = if rng.chance(20) { *rng.pick(&w.hosts) } else { *rng.pick(&w.users) }; match Holders::<Runtime>::get(who) { Some(f) if rng.chance(95) => h(f), _ => { let mut b = [0xFF; 20]; for i in 4..20 { b[i] = 0 } b[19] = rng.below(12) as u8; H160(b) } } }
fn text(rng: &mut Rng, limit: u64) -> Vec<u8> { let n = match rng.below(8) { 0 => 0, 1 => limit, 2 => limit + 1, _ => 1 + rng.below(12) }; (0..n).map(|_| if rng.chance(3) { 0xC3 } else { b'a' + rng.below(26) as u8 }).collect() }
fn royalties(rng: &mut Rng, w: &W) -> (T, T, Option<Option<seed_primitives::RoyaltiesSchedule<AccountId>>>) {
	let n = match rng.below(8) { 0..=3 => 0, 4 => 6, 5 => 7, 6 => 9, _ => 1 + rng.below(3) }; let extra = rng.chance(6) as u64;
	let who: Vec<AccountId> = (0..n).map(|_| someone(rng, w)).collect(); let parts: Vec<U256> = (0..n + extra).map(|_| match rng.below(20) { 0 => U256::from(1_000_001), 1 => U256::MAX, 2 => (U256::one() << 32) + U256::from(5), 3 => U256::from(500_000), _ => U256::from(rng.below(90_000)) }).collect();
	let s = if extra == 1 || n > 6 { None } else if n == 0 { Some(None) } else { Some(Some(seed_primitives::RoyaltiesSchedule { entitlements: who.iter().zip(&parts).map(|(a, p)| (*a, sp_runtime::Permill::from_parts(small(*p).unwrap_or(u32::MAX)))).collect::<Vec<_>>().try_into().unwrap() })) };
	(T::Array(who.iter().map(|x| a(*x)).collect()), T::Array(parts.into_iter().map(T::Uint).collect()), s)
}
fn collection(rng: &mut Rng, w: &W) -> Op {
	let nft = rng.chance(50); let to = addr(if nft { 1721 } else { 1731 }); let owner = someone(rng, w); let name = text(rng, 50); let path = if rng.chance(40) { text(rng, 1000) } else { b"https://example.com/".to_vec() };
	let (ra, re, schedule) = royalties(rng, w); let max = match rng.below(8) { 0 => U256::one() << 32, 1 => U256::from(u32::MAX), 2 => U256::MAX, 3 | 4 => U256::zero(), _ => U256::from(rng.below(100)) };
	let mut args = vec![a(owner), T::Bytes(name.clone()), T::Uint(max), T::Bytes(path.clone()), ra, re]; if !nft { args.remove(2); }
	op(format!("collection nft {nft} of {owner:?} name {} bytes max {max} path {} bytes royalties {schedule:?}", name.len(), path.len()), to, call(if nft { "initializeCollection(address,bytes,uint32,bytes,address[],uint32[])" } else { "initializeCollection(address,bytes,bytes,address[],uint32[])" }, &args), move |_| {
		let id = Nft::next_collection_uuid().ok()?; let schedule = schedule.clone()?; let metadata_scheme = seed_primitives::MetadataScheme::try_from(path.as_slice()).ok()?; let m = if nft { small(max)? } else { 0 };
		dis(owner, if nft { Call::Nft(pallet_nft::Call::create_collection { name: name.clone().try_into().ok()?, initial_issuance: 0, max_issuance: if m == 0 { None } else { Some(m) }, token_owner: None, metadata_scheme, royalties_schedule: schedule, cross_chain_compatibility: Default::default() }) }
		else { Call::Sft(pallet_sft::Call::create_collection { collection_name: name.clone().try_into().ok()?, collection_owner: None, metadata_scheme, royalties_schedule: schedule }) })?;
		vk::hit(if nft { "nft_collection" } else { "sft_collection" }); let at_ = if nft { e721(id) } else { e1155(id) };
		Some((abi(&[T::Address(at_), u(id)]), vec![if nft { (to, vec![t(0), at(owner)], abi(&[T::Address(at_)])) } else { (to, vec![t(1), at(owner), at_.into()], vec![]) }])) })
}
fn peg(rng: &mut Rng, w: &W) -> Op {
	let to = addr(1939); let who: H160 = h(someone(rng, w));
	if rng.chance(50) {
		let (ta, id) = if rng.chance(4) { (e721(w.nfts[0]), None) } else if rng.chance(4) { (e20(77_777), Some(77_777)) } else { let id = *rng.pick(&w.assets); (e20(id), Some(id)) };
		let n = { let n = rng.below(3000) as u128; wide(rng, n) };
		op(format!("peg erc20 {id:?} {n} to {who:?}"), to, call("erc20Withdraw(address,address,uint128)", &[T::Address(who), T::Address(ta), T::Uint(n)]), move |me| {
			let (id, n) = (id?, bal128(n)?); let e = pallet_ethy::NextEventProofId::<Runtime>::get();
			// a withdrawal that would be delayed cannot be made this way
			if pallet_erc20_peg::WithdrawalsDelayActive::<Runtime>::get() && pallet_erc20_peg::PaymentDelay::<Runtime>::get(id).map_or(false, |d| d.0 <= n) { return None }
			dis(me, Call::Erc20Peg(pallet_erc20_peg::Call::withdraw { asset_id: id, amount: n, beneficiary: who }))?; vk::hit("erc20_out");
			Some((abi(&[u(e)]), vec![(to, vec![t(2), nt(e), who.into(), ta.into()], abi(&[u(n)]))])) })
	} else {
		let n = match rng.below(10) { 0 => 0, 1 => 11, _ => 1 + rng.below(2) }; let mut right = true;
		let from: AccountId = if rng.chance(20) { *rng.pick(&w.hosts) } else { *rng.pick(&w.users) };
		let mut cs = vec![]; let mut ss: Vec<Vec<U256>> = vec![];
		for _ in 0..n { let c = *rng.pick(&w.nfts); cs.push(c); let mut own: Vec<u32> = pallet_nft::CollectionInfo::<Runtime>::get(c).map_or(vec![], |c| c.owned_tokens.iter().filter(|o| o.owner == from).flat_map(|o| o.owned_serials.to_vec()).collect()); let mut v = vec![]; for _ in 0..rng.below(4) { if own.is_empty() { break } let i = rng.below(own.len() as u64) as usize; let s = if rng.chance(95) { own.remove(i) } else { own[i] }; v.push(if rng.chance(4) { id_of(rng, s) } else { U256::from(s) }); } if rng.chance(2) { v.resize(51, U256::one()) } ss.push(v) }
		if rng.chance(4) { ss.push(vec![]) }
		let places: Vec<H160> = cs.iter().map(|c| if rng.chance(3) { right = false; e1155(*c) } else { e721(*c) }).collect();
		let args = [T::Address(who), T::Array(places.iter().map(|x| T::Address(*x)).collect()), T::Array(ss.iter().map(|v| T::Array(v.iter().map(|x| T::Uint(*x)).collect())).collect())];
		op(format!("peg erc721 {cs:?} {:?} to {who:?}", ss.iter().map(|v| v.iter().take(5).collect::<Vec<_>>()).collect::<Vec<_>>()), to, call("erc721Withdraw(address,address[],uint32[][])", &args), move |me| {
			if !right { return None } let e = pallet_ethy::NextEventProofId::<Runtime>::get(); let mut lists = vec![];
			for v in &ss { let v: Option<Vec<u32>> = v.iter().map(|x| small(*x)).collect(); lists.push(v?) } let l2 = lists.clone();
			dis(me, Call::NftPeg(pallet_nft_peg::Call::withdraw { collection_ids: cs.clone().try_into().ok()?, serial_numbers: lists.into_iter().map(|v| v.try_into().ok()).collect::<Option<Vec<_>>>()?.try_into().ok()?, destination: who }))?; vk::hit("erc721_out");
			Some((abi(&[u(e)]), places.iter().zip(l2).map(|(p, v)| (to, vec![t(3), nt(e), who.into(), (*p).into()], abi(&[T::Array(v.into_iter().map(u).collect())]))).collect())) })
	}
}
fn futurepass(rng: &mut Rng, w: &W) -> Op {
	let reg = addr(65535); let fp = pass(rng, w); let f: AccountId = fp.into(); let who = someone(rng, w);
	match rng.below(14) {
		0 => view(format!("pass of {who:?}"), reg, call("futurepassOf(address)", &[a(who)]), move || { vk::hit("pass_read"); Some(abi(&[T::Address(Holders::<Runtime>::get(who).map_or(H160::zero(), h))])) }),
		1 | 2 => op(format!("pass create {who:?}"), reg, call("create(address)", &[a(who)]), move |me| { dis(me, Call::Futurepass(pallet_futurepass::Call::create { account: who }))?; vk::hit("pass_made"); let f = Holders::<Runtime>::get(who)?; Some((abi(&[a(f)]), vec![(reg, vec![t(4), at(f)], abi(&[a(who)]))])) }),
		3 => view(format!("pass {fp:?} owner"), fp, sel("owner()"), move || { let v: Vec<AccountId> = Holders::<Runtime>::iter().filter(|x| x.1 == f).map(|x| x.0).collect(); Some(abi(&[T::Address(v.first().map_or(H160::zero(), |x| h(*x)))])) }),
		4 => view(format!("pass {fp:?} delegateType {who:?}"), fp, call("delegateType(address)", &[a(who)]), move || { let n = pallet_proxy::Proxies::<Runtime>::get(f).0.iter().find(|d| d.delegate == who).map_or(0, |d| u8::from(d.proxy_type)); vk::hit_s(format!("delegate_{n}")); Some(abi(&[u(n)])) }),
		5..=8 => { let i = rng.below(4); let d = acct(i); let ty = match rng.below(12) { 0 => 0u64, 1 => 2, 2 => 255, 3 => 256, 4 => 77, _ => 1 }; let dl = match rng.below(10) { 0 => (System::block_number() as u64).saturating_sub(1), 1 => 1 << 32, 2 => u32::MAX as u64, _ => System::block_number() as u64 + rng.below(10) };
			let signer = if rng.chance(5) { 3 - i } else { i }; let mut s = join_sig(f, d, ty as u8, dl as u32, signer).to_vec(); if rng.chance(4) { s.pop(); }
			op(format!("pass {fp:?} register {i} type {ty} until {dl} signed {signer}"), fp, call("registerDelegateWithSignature(address,uint8,uint32,bytes)", &[a(d), u(ty), u(dl), T::Bytes(s.clone())]), move |me| {
				let ty8 = u8::try_from(ty).ok()?; let deadline = u32::try_from(dl).ok()?; let proxy_type = seed_runtime_type(ty8)?;
				dis(me, Call::Futurepass(pallet_futurepass::Call::register_delegate_with_signature { futurepass: f, delegate: d, proxy_type, deadline, signature: s.clone().try_into().ok()? }))?; vk::hit("joined");
				Some((vec![], vec![(fp, vec![t(5), at(f), at(d)], abi(&[u(ty8)]))])) }) },
		9 | 10 => { let known: Vec<(AccountId, AccountId)> = pallet_proxy::Proxies::<Runtime>::iter().flat_map(|(k, v)| v.0.iter().filter(|d| d.proxy_type != ProxyType::Owner).map(|d| (k, d.delegate)).collect::<Vec<_>>()).collect(); let (f, d) = if known.is_empty() || rng.chance(30) { (f, acct(rng.below(4))) } else { *rng.pick(&known) }; let fp = h(f); op(format!("pass {fp:?} unregister {d:?}"), fp, call("unregisterDelegate(address)", &[a(d)]), move |me| { dis(me, Call::Futurepass(pallet_futurepass::Call::unregister_delegate { futurepass: f, delegate: d }))?; vk::hit("left"); Some((vec![], vec![(fp, vec![t(6), at(f)], abi(&[a(d)]))])) }) },
		11 | 12 => { let give = rng.chance(70); op(format!("pass {fp:?} {}", if give { format!("transferOwnership {who:?}") } else { "renounceOwnership".into() }), fp, if give { call("transferOwnership(address)", &[a(who)]) } else { sel("renounceOwnership()") }, move |me| {
			if Holders::<Runtime>::get(me) != Some(f) { return None } // the futurepass called is the one handed over
			dis(me, Call::Futurepass(pallet_futurepass::Call::transfer_futurepass { current_owner: me, new_owner: if give { Some(who) } else { None } }))?; vk::hit(if give { "handed_over" } else { "given_up" });
			Some((yes(), vec![(fp, vec![t(7), at(me), if give { at(who) } else { H256::zero() }], vec![])])) }) },
		_ => { let mut o = op(format!("pass {fp:?} receive"), fp, vec![], move |me| { let n = (value() as u128 + 999_999_999_999) / 1_000_000_000_000; if n == 0 { return None } dis(me, Call::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: XRP, destination: f, amount: n, keep_alive: false }))?; vk::hit("paid_in"); Some((vec![], vec![])) }); o.pay = true; o },
	}
}
fn seed_runtime_type(n: u8) -> Option<ProxyType> { ProxyType::try_from(n).ok() }
fn setup(rng: &mut Rng) -> W {
	let users: Vec<AccountId> = (0..4).map(acct).collect(); let mut assets = vec![XRP, ROOT];
	let hosts: Vec<AccountId> = (0..2).map(|i| addr(0xC0DE_F0 + i).into()).collect(); for x in &hosts { pallet_evm::Pallet::<Runtime>::create_account(h(*x), Vec::<Step>::new().encode()); }
	let n = AssetsExt::next_asset_uuid().unwrap(); assert_ok!(signed(acct(0), Call::AssetsExt(pallet_assets_ext::Call::create_asset { name: b"T".to_vec(), symbol: b"T".to_vec(), decimals: 6, min_balance: Some(1), owner: Some(acct(0)) }))); assets.push(n);
	for x in users.iter().chain(&hosts) { assert_ok!(signed(acct(0), Call::Assets(pallet_assets::Call::mint { id: n.into(), beneficiary: *x, amount: 100_000 }))); }
	for x in &hosts { for id in [XRP, ROOT] { assert_ok!(signed(acct(0), Call::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: id, destination: *x, amount: 100_000_000, keep_alive: false }))); } }
	for id in &assets { if rng.chance(85) { pallet_erc20_peg::AssetIdToErc20::<Runtime>::insert(*id, addr(0xE20_0000 + *id as u64)); } }
	assert_ok!(root(Call::Erc20Peg(pallet_erc20_peg::Call::activate_withdrawals { activate: true })));
	assert_ok!(root(Call::Erc20Peg(pallet_erc20_peg::Call::set_erc20_peg_address { eth_address: addr(0xBE6) }))); assert_ok!(root(Call::Erc20Peg(pallet_erc20_peg::Call::set_root_peg_address { eth_address: addr(0xBE7) })));
	let mut nfts = vec![];
	for i in 0..2u64 { let c = Nft::next_collection_uuid().unwrap(); for (j, x) in users.iter().chain(&hosts).enumerate() { let ids = (0..5u64).map(|k| T::Uint(U256::from(j as u64 * 5 + k + 1))).collect();
		let data = ethabi::encode(&[T::Uint(U256::one()), T::Array(vec![T::Address(addr(0xE721 + i))]), T::Array(vec![T::Array(ids)]), a(*x)]); let r = <pallet_nft_peg::Pallet<Runtime> as EthereumEventSubscriber>::on_event(&addr(0x5EED), &data); if let Err(e) = r { vk::op(format!("bridge in: {:?}", e.1)) } } nfts.push(c); }
	{ let c = Nft::next_collection_uuid().unwrap(); assert_ok!(signed(acct(1), Call::Nft(pallet_nft::Call::create_collection { name: b"n".to_vec().try_into().unwrap(), initial_issuance: 5, max_issuance: None, token_owner: Some(acct(2)), metadata_scheme: seed_primitives::MetadataScheme::try_from(b"https://x/".as_slice()).unwrap(), royalties_schedule: None, cross_chain_compatibility: Default::default() }))); nfts.push(c); }
	for x in users.iter().chain(&hosts) { if rng.chance(60) { let _ = signed(acct(0), Call::Futurepass(pallet_futurepass::Call::create { account: *x })); } }
	W { users, hosts, assets, nfts }
}
fn plain(rng: &mut Rng, w: &W) {
	let c = match rng.below(7) {
		0 => Call::Erc20Peg(pallet_erc20_peg::Call::activate_withdrawals { activate: rng.chance(70) }),
		1 => Call::Erc20Peg(pallet_erc20_peg::Call::activate_withdrawals_delay { activate: rng.chance(60) }),
		2 => Call::Erc20Peg(pallet_erc20_peg::Call::set_payment_delay { asset_id: *rng.pick(&w.assets), min_balance: amt(rng, 3000), delay: 3 }),
		3 => Call::EthBridge(pallet_ethy::Call::set_bridge_paused { paused: rng.chance(40) }),
		4 => { let c = *rng.pick(&w.nfts); let from = *rng.pick(&w.users); let r = signed(from, Call::Nft(pallet_nft::Call::transfer { collection_id: c, serial_numbers: vec![1 + rng.below(25) as u32].try_into().unwrap(), new_owner: someone(rng, w) })); vk::op(format!("transfer: {r:?}")); return },
		_ => { let x = someone(rng, w); let r = signed(acct(rng.below(4)), Call::Futurepass(pallet_futurepass::Call::create { account: x })); vk::op(format!("futurepass for {x:?}: {r:?}")); return },
	};
	vk::op(format!("plain: {c:?}")); let r = root(c); vk::op(format!("  -> {r:?}"));
}
pub fn run() {
	vk::episodes(vk::tier(4000, 40000), |_, rng| chain(5, || {
		let w = Rc::new(setup(rng));
		for _ in 0..vk::tier(60, 120) { if rng.chance(15) { plain(rng, &w) } else { tokens::drive(rng, ["C38"], &w.hosts, &LOGS, &|rng| match rng.below(5) { 0 => collection(rng, &w), 1 | 2 => peg(rng, &w), _ => futurepass(rng, &w) }) } }
	}));
}
pub const REQUIRED: &[&str] = &["read", "static_read", "write", "contract_write", "static_write_refused", "delegate_refused", "value_refused", "refused", "undone", "out_of_gas", "logs", "nft_collection", "sft_collection", "erc20_out", "erc721_out", "pass_read", "pass_made", "joined", "left", "handed_over", "given_up", "paid_in", "delegate_1", "delegate_255"];
