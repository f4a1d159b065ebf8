//! How the runtime binds the pallets together: the router of Ethereum events (C17) and the filter of a sale vault's calls (C14).
use crate::rt::*;
use crate::*;
use ethabi::Token;
use frame_support::traits::{fungibles::Mutate, OnInitialize};
use seed_pallet_common::{EthereumEventRouter, EthereumEventSubscriber, EventRouterError};
use seed_runtime::{EthBridge, Echo, Erc20Peg, NftPeg};
const P17: [&str; 1] = ["C17"];
const P14: [&str; 1] = ["C14"];
type Router = <Runtime as pallet_ethy::Config>::EventRouter;
/// run `f`, look at the outcome, and undo everything
fn peek<R>(f: impl FnOnce() -> R) -> R { let mut o = None; let _ = frame_support::storage::with_transaction(|| -> TransactionOutcome<Result<(), DispatchError>> { o = Some(f()); TransactionOutcome::Rollback(Ok(())) }); o.unwrap() }
fn pallet_address(id: &[u8; 8]) -> H160 { use sp_runtime::traits::AccountIdConversion; let a: AccountId = frame_support::PalletId(*id).into_account_truncating(); a.into() }
// ------------------------------------------------------------------------------------------- events
const PEG: H160 = H160::repeat_byte(0xA1);
const ROOT_PEG: H160 = H160::repeat_byte(0xA2);
const NFT_PEG: H160 = H160::repeat_byte(0xA3);
const ROOT_TOKEN: H160 = H160::repeat_byte(0xB0);
pub const REQUIRED_EVENTS: &[&str] = &["event_routed", "event_delivered", "event_failed", "no_receiver", "to_echo", "to_erc20", "to_nft", "from_stranger", "tokens_minted", "root_released", "nft_minted", "wrong_payload", "pong_sent"];
struct Ev { src: H160, dst: H160, data: Vec<u8>, kind: u64, who: AccountId, token: H160, amount: u128, serials: Vec<u32>, bent: bool }
fn event(rng: &mut Rng, next: &mut u32) -> Ev {
	let (echo, erc20, nft) = (pallet_address(b"pingpong"), pallet_address(b"erc20peg"), pallet_address(b"rn/nftpg"));
	let kind = rng.below(3); let who = if rng.chance(70) { acct(rng.below(4)) } else { acct(20_000 + rng.below(5)) };
	let token = match rng.below(6) { 0 => ROOT_TOKEN, i => H160::repeat_byte(0xC0 + i as u8) };
	let amount = match rng.below(8) { 0 => 0, 1 => START * 2, _ => 1 + rng.below(1 << 20) as u128 };
	let serials: Vec<u32> = (0..rng.range(1, 3)).map(|_| { *next += 1; if rng.chance(5) { 1 } else { *next } }).collect();
	let mut data = match kind {
		0 => ethabi::encode(&[Token::Uint(U256::from(rng.below(3))), Token::Uint(U256::from(rng.u64())), Token::Address(h(who))]),
		1 => ethabi::encode(&[Token::Address(token), Token::Uint(U256::from(amount)), Token::Address(h(who))]),
		_ => ethabi::encode(&[Token::Uint(U256::from(1)), Token::Array(vec![Token::Address(token)]), Token::Array(vec![Token::Array(serials.iter().map(|x| Token::Uint(U256::from(*x))).collect())]), Token::Address(h(who))]),
	};
	let bent = rng.chance(5); if bent { let n = rng.below(data.len() as u64) as usize; data.truncate(n) }
	let home = [echo, erc20, nft][kind as usize];
	let dst = match rng.below(12) { 0 => *rng.pick(&[echo, erc20, nft]), 1 => pallet_address(rng.pick(&[*b"ethybrdg", *b"xrpl-peg", *b"nftokens", *b"txfeepot"])), 2 => match rng.below(5) { 0 => H160::zero(), 1 => h(acct(1)), 2 => PEG, 3 => { let mut x = home; x.0[19] ^= 1 << rng.below(8); x }, _ => { let mut x = home; x.0[rng.below(20) as usize] ^= 1; x } }, _ => home };
	let src = match rng.below(8) { 0 => *rng.pick(&[PEG, ROOT_PEG, NFT_PEG]), 1 => *rng.pick(&[H160::zero(), h(who), echo, erc20, nft, H160::repeat_byte(9)]), _ => match kind { 1 if token == ROOT_TOKEN => ROOT_PEG, 1 => PEG, 2 => NFT_PEG, _ => h(acct(2)) } };
	Ev { src, dst, data, kind, who, token, amount, serials, bent }
}
fn holdings(w: AccountId) -> Vec<(u32, Vec<u32>)> { let mut v: Vec<_> = pallet_nft::CollectionInfo::<Runtime>::iter().filter_map(|(c, i)| { let mut s: Vec<u32> = i.owned_tokens.iter().filter(|o| o.owner == w).flat_map(|o| o.owned_serials.iter().copied().collect::<Vec<_>>()).collect(); s.sort(); if s.is_empty() { None } else { Some((c, s)) } }).collect(); v.sort(); v }
type Seen = (Bal, Vec<(u32, Vec<u32>)>);
fn look(w: AccountId) -> Seen { (balances(), holdings(w)) }
pub fn events_run() { vk::episodes(vk::tier(3000, 30000), |_, rng| chain(5, || {
	let (echo, erc20, nft) = (pallet_address(b"pingpong"), pallet_address(b"erc20peg"), pallet_address(b"rn/nftpg"));
	assert_ok!(root(Call::Erc20Peg(pallet_erc20_peg::Call::set_erc20_peg_address { eth_address: PEG })));
	assert_ok!(root(Call::Erc20Peg(pallet_erc20_peg::Call::set_root_peg_address { eth_address: ROOT_PEG })));
	assert_ok!(root(Call::Erc20Peg(pallet_erc20_peg::Call::activate_deposits { activate: true })));
	assert_ok!(root(Call::Erc20Peg(pallet_erc20_peg::Call::set_erc20_asset_map { asset_id: ROOT, eth_address: ROOT_TOKEN })));
	assert_ok!(root(Call::NftPeg(pallet_nft_peg::Call::set_contract_address { contract: NFT_PEG })));
	assert_ok!(<AssetsExt as Mutate<AccountId>>::mint_into(ROOT, &erc20.into(), START));
	assert_ok!(signed(acct(1), Call::EthBridge(pallet_ethy::Call::deposit_relayer_bond {})));
	assert_ok!(root(Call::EthBridge(pallet_ethy::Call::set_relayer { relayer: acct(1) })));
	let period = rng.range(1, 4) as u32; assert_ok!(root(Call::EthBridge(pallet_ethy::Call::set_challenge_period { blocks: period })));
	let mut next = 10; let mut id = 0u64;
	for _ in 0..vk::tier(40, 80) {
		let e = event(rng, &mut next); let via_bridge = rng.chance(40);
		let text = format!("event kind {} from {:?} to {:?} token {:?} amount {} serials {:?} for {:?} bent {} bridge {via_bridge}", e.kind, e.src, e.dst, e.token, e.amount, e.serials, e.who, e.bent); vk::op(text.clone());
		if via_bridge {
			id += 1 + rng.below(2);
			let bytes = ethabi::encode(&[Token::Uint(U256::from(id)), Token::Address(e.src), Token::Address(e.dst), Token::Bytes(e.data.clone()), Token::Uint(U256::from(1))]);
			let r = vk::guard("submit_event", || signed(acct(1), Call::EthBridge(pallet_ethy::Call::submit_event { tx_hash: H256::from_low_u64_be(id), event: bytes }))); ensure!(P17, r.is_ok(), "submit", "{text}: {r:?}");
			for _ in 1..period { let n = System::block_number() + 1; System::set_block_number(n); let b = look(e.who); EthBridge::on_initialize(n); ensure!(P17, look(e.who) == b, "early", "{text}: delivered before the end of the challenge period") }
			System::set_block_number(System::block_number() + 1);
		}
		System::reset_events(); let before = look(e.who); let st = state();
		// what the pallet the address belongs to makes of it, if there is one
		let want = if e.dst == echo { Some(peek(|| { let r = <Echo as EthereumEventSubscriber>::process_event(&e.src, &e.data); (r, look(e.who), state()) })) }
			else if e.dst == erc20 { Some(peek(|| { let r = <Erc20Peg as EthereumEventSubscriber>::process_event(&e.src, &e.data); (r, look(e.who), state()) })) }
			else if e.dst == nft { Some(peek(|| { let r = <NftPeg as EthereumEventSubscriber>::process_event(&e.src, &e.data); (r, look(e.who), state()) })) } else { None };
		let ok;
		if via_bridge {
			vk::guard("on_initialize", || EthBridge::on_initialize(System::block_number()));
			let done = events().into_iter().filter_map(|x| match x { RuntimeEvent::EthBridge(pallet_ethy::Event::ProcessingOk { event_claim_id }) if event_claim_id == id => Some(None), RuntimeEvent::EthBridge(pallet_ethy::Event::ProcessingFailed { event_claim_id, router_error }) if event_claim_id == id => Some(Some(router_error)), _ => None }).collect::<Vec<_>>();
			ensure!(P17, done.len() == 1, "delivered-once", "{text}: outcomes {done:?}");
			ok = done[0].is_none();
			match &want { None => ensure!(P17, done[0] == Some(EventRouterError::NoReceiver), "no-receiver", "{text}: {done:?}"),
				Some((Ok(_), ..)) => ensure!(P17, ok, "delivery", "{text}: {done:?}"),
				Some((Err((_, x)), ..)) => ensure!(P17, done[0].encode() == Some(EventRouterError::FailedProcessing(*x)).encode(), "delivery", "{text}: {done:?} instead of {x:?}") }
			vk::hit(if ok { "event_delivered" } else { "event_failed" });
		} else {
			let r = vk::guard("route", || Router::route(&e.src, &e.dst, &e.data)); ok = r.is_ok();
			match &want { None => { ensure!(P17, matches!(r, Err((_, EventRouterError::NoReceiver))), "no-receiver", "{text}: {r:?}"); ensure!(P17, state() == st, "no-receiver-effect", "{text}: left a trace") },
				Some((x, _, s)) => { ensure!(P17, match (x, &r) { (Ok(a), Ok(b)) => a == b, (Err((a, x)), Err((b, EventRouterError::FailedProcessing(y)))) => a == b && x == y, _ => false }, "route", "{text}: {r:?} instead of {x:?}"); ensure!(P17, *s == state(), "route-effect", "{text}: another effect than the destination's") } }
			vk::hit("event_routed");
		}
		let after = look(e.who);
		match &want { None => { ensure!(P17, before == after, "stray", "{text}: {}", diff(&before.0, &after.0)); vk::hit("no_receiver") }, Some((r, s, _)) => if ok { ensure!(P17, *s == after, "effect", "{text}: {}", diff(&s.0, &after.0)); } else { ensure!(P17, r.is_err(), "effect", "{text}: failed") } }
		// what it must mean
		let allowed = match e.dst { d if d == echo => true, d if d == erc20 => [PEG, ROOT_PEG].contains(&e.src), d if d == nft => e.src == NFT_PEG, _ => false };
		if !allowed { ensure!(P17, !ok && before == after, "source", "{text}: accepted; {}", diff(&before.0, &after.0)); vk::hit("from_stranger") }
		let home = [echo, erc20, nft][e.kind as usize] == e.dst && !e.bent;
		if !home { vk::hit("wrong_payload") }
		if ok { match (home, e.kind) {
			(true, 0) => { vk::hit("to_echo"); let k = events().iter().filter(|x| matches!(x, RuntimeEvent::Echo(pallet_echo::Event::PongReceived { .. } | pallet_echo::Event::PingReceived { .. }))).count(); ensure!(P17, k == 1, "echo", "{text}: {k} receipts"); if events().iter().any(|x| matches!(x, RuntimeEvent::Echo(pallet_echo::Event::PongSent { .. }))) { vk::hit("pong_sent") } },
			(true, 1) => { vk::hit("to_erc20"); let asset = pallet_erc20_peg::Erc20ToAssetId::<Runtime>::get(e.token).unwrap(); let mut m = before.0.clone(); if e.amount > 0 { *m.entry((asset, e.who)).or_insert(0) += e.amount; if asset == ROOT { let x = m.get_mut(&(ROOT, erc20.into())).unwrap(); *x -= e.amount; if *x == 0 { m.remove(&(ROOT, erc20.into())); } } }
				ensure!(P17, after.0 == m, "credit", "{text}: expected -> seen {}", diff(&m, &after.0)); vk::hit(if asset == ROOT { "root_released" } else { "tokens_minted" }) },
			(true, 2) => { vk::hit("to_nft"); let mut got: Vec<u32> = vec![]; let old: BTreeSet<_> = before.1.iter().flat_map(|(c, s)| s.iter().map(|x| (*c, *x))).collect(); for (c, s) in &after.1 { for x in s { if !old.contains(&(*c, *x)) { got.push(*x) } } } ensure!(P17, got.iter().all(|x| e.serials.contains(x)) && before.0 == after.0, "credit", "{text}: got {got:?}"); if !got.is_empty() { vk::hit("nft_minted") } },
			_ => {},
		} }
		vk::state(&(e.kind, ok, via_bridge, home, allowed, want.is_some(), e.token == ROOT_TOKEN, 128 - e.amount.leading_zeros(), e.serials.len(), after.1.len()));
	}
})) }
// ------------------------------------------------------------------------------------------- the vault
pub const REQUIRED_VAULT: &[&str] = &["vault_changed", "vault_refused", "vault_harmless_call", "vault_by_stranger", "vault_rich", "vault_no_sale", "sale_running", "sale_over", "another_sale"];
struct Vault { sale: u64, coll: u32, vault: AccountId, token: AssetId, voucher: AssetId, fp: AccountId, own: u32 }
fn bs<S: frame_support::traits::Get<u32>>(v: Vec<u8>) -> BoundedVec<u8, S> { v.try_into().ok().unwrap() }
/// a call the admin may try to make in the vault's name; the flag says that it is one of the harmless ones
fn vault_call(rng: &mut Rng, w: &Vault, depth: u32) -> (bool, Call) {
	let to = acct(rng.below(4)); let v = *rng.pick(&[1u128, 1000, START / 20]); let c = w.coll; let ass = *rng.pick(&[w.token, w.voucher, ROOT, XRP]);
	let royal = |rng: &mut Rng| seed_primitives::nft::RoyaltiesSchedule { entitlements: (0..rng.below(3)).map(|i| (acct(i), sp_runtime::Permill::from_parts(rng.below(400_000) as u32))).collect::<Vec<_>>().try_into().unwrap() };
	use RuntimeCall as R;
	let x = match rng.below(56) {
		0..=3 => return (true, R::Nft(pallet_nft::Call::set_base_uri { collection_id: if rng.chance(80) { c } else { w.own }, base_uri: format!("https://{}/", rng.below(1000)).into_bytes() })),
		4..=7 => { let n = rng.below(40) as usize; return (true, R::Nft(pallet_nft::Call::set_name { collection_id: if rng.chance(80) { c } else { w.own }, name: bs((0..n).map(|_| b'a' + rng.below(26) as u8).collect()) })) },
		8..=11 => return (true, R::Nft(pallet_nft::Call::set_royalties_schedule { collection_id: if rng.chance(80) { c } else { w.own }, royalties_schedule: royal(rng) })),
		12 | 13 => { let n = rng.below(8) as usize; return (true, R::System(frame_system::Call::remark { remark: rng.bytes(n) })) },
		14 => R::Nft(pallet_nft::Call::set_owner { collection_id: c, new_owner: to }),
		15 => R::Nft(pallet_nft::Call::set_max_issuance { collection_id: c, max_issuance: 1 }),
		16 => R::Nft(pallet_nft::Call::toggle_public_mint { collection_id: c, enabled: true }),
		17 => R::Nft(pallet_nft::Call::set_mint_fee { collection_id: c, pricing_details: Some((XRP, 1)) }),
		18 => R::Nft(pallet_nft::Call::mint { collection_id: c, quantity: 1, token_owner: Some(to) }),
		19 => R::Nft(pallet_nft::Call::set_utility_flags { collection_id: c, utility_flags: seed_pallet_common::utils::CollectionUtilityFlags { transferable: false, burnable: false, mintable: false } }),
		20 => R::Nft(pallet_nft::Call::create_collection { name: bs(b"x".to_vec()), initial_issuance: 0, max_issuance: None, token_owner: None, metadata_scheme: seed_primitives::MetadataScheme::try_from(b"https://a/".as_slice()).unwrap(), royalties_schedule: None, cross_chain_compatibility: Default::default() }),
		21 => R::Sft(pallet_sft::Call::create_collection { collection_name: bs(b"x".to_vec()), collection_owner: None, metadata_scheme: seed_primitives::MetadataScheme::try_from(b"https://a/".as_slice()).unwrap(), royalties_schedule: None }),
		22..=24 => R::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: ass, destination: to, amount: v, keep_alive: rng.chance(50) }),
		25 => R::AssetsExt(pallet_assets_ext::Call::mint { asset_id: w.voucher, beneficiary: to, amount: v }),
		26 => R::AssetsExt(pallet_assets_ext::Call::burn_from { asset_id: w.voucher, who: w.vault, amount: v }),
		27 => R::AssetsExt(pallet_assets_ext::Call::create_asset { name: b"a".to_vec(), symbol: b"A".to_vec(), decimals: 6, min_balance: None, owner: Some(to) }),
		28 => R::Assets(pallet_assets::Call::transfer { id: ass, target: to, amount: v }),
		29 => R::Assets(pallet_assets::Call::mint { id: w.voucher, beneficiary: to, amount: v }),
		30 => R::Assets(pallet_assets::Call::approve_transfer { id: ass, delegate: to, amount: v }),
		31 => R::Assets(pallet_assets::Call::transfer_ownership { id: w.voucher, owner: to }),
		32 => R::Assets(pallet_assets::Call::freeze_asset { id: w.voucher }),
		33 => R::Assets(pallet_assets::Call::set_metadata { id: w.voucher, name: b"b".to_vec(), symbol: b"B".to_vec(), decimals: 6 }),
		34 => R::Assets(pallet_assets::Call::transfer_keep_alive { id: ass, target: to, amount: v }),
		35 => R::Balances(pallet_balances::Call::transfer_allow_death { dest: to, value: v }),
		36 => R::Balances(pallet_balances::Call::transfer_all { dest: to, keep_alive: false }),
		37 => R::TokenApprovals(pallet_token_approvals::Call::erc20_approval { caller: w.vault, spender: to, asset_id: ass, amount: v }),
		38 => R::TokenApprovals(pallet_token_approvals::Call::erc721_approval_for_all { caller: w.vault, operator_account: to, collection_uuid: c, approved: true }),
		39 => R::Dex(pallet_dex::Call::swap_with_exact_supply { amount_in: 1000, amount_out_min: 0, path: vec![w.token, XRP], to: Some(to), deadline: None }),
		40 => R::Dex(pallet_dex::Call::add_liquidity { token_a: w.token, token_b: XRP, amount_a_desired: 1000, amount_b_desired: 1000, amount_a_min: 0, amount_b_min: 0, to: Some(to), deadline: None }),
		41 => R::Marketplace(pallet_marketplace::Call::make_simple_offer { token_id: (w.own, 0), amount: 10, asset_id: w.token, marketplace_id: None }),
		42 => R::Marketplace(pallet_marketplace::Call::register_marketplace { marketplace_account: Some(to), entitlement: sp_runtime::Permill::from_percent(1) }),
		43 => R::Futurepass(pallet_futurepass::Call::create { account: w.vault }),
		44 => R::Futurepass(pallet_futurepass::Call::proxy_extrinsic { futurepass: w.fp, call: Box::new(R::System(frame_system::Call::remark { remark: vec![1] })) }),
		45 => R::Proxy(pallet_proxy::Call::add_proxy { delegate: to, proxy_type: ProxyType::Any, delay: 0 }),
		46 => R::Crowdsale(pallet_crowdsale::Call::participate { sale_id: w.sale, amount: v }),
		47 => R::Crowdsale(pallet_crowdsale::Call::redeem_voucher { sale_id: w.sale, quantity: 1 }),
		48 => R::Xls20(pallet_xls20::Call::enable_xls20_compatibility { collection_id: c }),
		49 => R::Nfi(pallet_nfi::Call::enable_nfi_for_trn_collection { collection_id: c, sub_type: pallet_nfi::types::NFISubType::NFI }),
		50 => R::System(frame_system::Call::remark_with_event { remark: vec![1] }),
		51 => R::EVM(pallet_evm::Call::call { source: h(w.vault), target: crate::tokens::e20(w.token), input: crate::tokens::call("transfer(address,uint256)", &[crate::tokens::a(to), crate::tokens::u(v)]), value: U256::zero(), gas_limit: 200_000, max_fee_per_gas: base_fee() * 2, max_priority_fee_per_gas: None, nonce: None, access_list: vec![] }),
		52 => R::FeeProxy(pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: w.token, max_payment: 1_000_000, call: Box::new(inner(rng, w, depth)) }),
		53 => R::Utility(pallet_utility::Call::batch { calls: (0..rng.below(3)).map(|_| inner(rng, w, depth)).collect() }),
		54 => R::Utility(pallet_utility::Call::batch_all { calls: (0..rng.below(3)).map(|_| inner(rng, w, depth)).collect() }),
		_ => R::Crowdsale(pallet_crowdsale::Call::proxy_vault_call { sale_id: w.sale, call: Box::new(inner(rng, w, depth)) }),
	};
	(false, x)
}
fn inner(rng: &mut Rng, w: &Vault, depth: u32) -> Call { if depth > 2 { RuntimeCall::System(frame_system::Call::remark { remark: vec![] }) } else { vault_call(rng, w, depth + 1).1 } }
/// all of the state but the event log and the pieces of a collection that an admin may change
fn rest(coll: &[u32]) -> Vec<(Vec<u8>, Vec<u8>)> {
	let sys = |n: &str| [sp_io::hashing::twox_128(b"System"), sp_io::hashing::twox_128(n.as_bytes())].concat(); let skip = [sys("Events"), sys("EventCount"), sys("EventTopics")];
	let keys: Vec<Vec<u8>> = coll.iter().map(|c| pallet_nft::CollectionInfo::<Runtime>::hashed_key_for(c)).collect();
	let mut v: Vec<_> = state().into_iter().filter(|(k, _)| !skip.iter().any(|s| k.starts_with(s)) && !keys.contains(k)).collect();
	for c in coll { let mut i = pallet_nft::CollectionInfo::<Runtime>::get(c).unwrap(); i.name = Default::default(); i.royalties_schedule = None; i.metadata_scheme = seed_primitives::MetadataScheme::try_from(b"".as_slice()).unwrap(); v.push((c.encode(), i.encode())) }
	v
}
fn new_sale(rng: &mut Rng, who: u64, token: AssetId) -> (u64, u32, AccountId, AssetId) {
	let coll = pallet_nft::Pallet::<Runtime>::next_collection_uuid().unwrap();
	assert_ok!(signed(acct(who), Call::Nft(pallet_nft::Call::create_collection { name: bs(b"sale".to_vec()), initial_issuance: 0, max_issuance: Some(100), token_owner: None, metadata_scheme: seed_primitives::MetadataScheme::try_from(b"https://a/".as_slice()).unwrap(), royalties_schedule: None, cross_chain_compatibility: Default::default() })));
	let sale = pallet_crowdsale::NextSaleId::<Runtime>::get();
	assert_ok!(signed(acct(who), Call::Crowdsale(pallet_crowdsale::Call::initialize { payment_asset_id: token, collection_id: coll, soft_cap_price: 10, sale_duration: rng.range(3, 30) as u32, voucher_name: None, voucher_symbol: None })));
	let i = pallet_crowdsale::SaleInfo::<Runtime>::get(sale).unwrap(); (sale, coll, i.vault, i.voucher_asset_id)
}
pub fn vault_run() { vk::episodes(vk::tier(3000, 30000), |_, rng| chain(5, || {
	assert_ok!(signed(acct(SUDO), Call::AssetsExt(pallet_assets_ext::Call::create_asset { name: b"pay".to_vec(), symbol: b"PAY".to_vec(), decimals: 6, min_balance: Some(1), owner: None })));
	let token = pallet_assets::Asset::<Runtime>::iter().map(|x| x.0).filter(|x| *x > 2).max().unwrap();
	for i in [0, 1, 2, 3, 4, SUDO] { assert_ok!(<AssetsExt as Mutate<AccountId>>::mint_into(token, &acct(i), START)); }
	assert_ok!(signed(acct(SUDO), Call::Dex(pallet_dex::Call::add_liquidity { token_a: token, token_b: XRP, amount_a_desired: START / 4, amount_b_desired: START / 4, amount_a_min: 1, amount_b_min: 1, to: None, deadline: None })));
	let own = pallet_nft::Pallet::<Runtime>::next_collection_uuid().unwrap();
	assert_ok!(signed(acct(3), Call::Nft(pallet_nft::Call::create_collection { name: bs(b"own".to_vec()), initial_issuance: 2, max_issuance: None, token_owner: None, metadata_scheme: seed_primitives::MetadataScheme::try_from(b"https://a/".as_slice()).unwrap(), royalties_schedule: None, cross_chain_compatibility: Default::default() })));
	let (sale, coll, vault, voucher) = new_sale(rng, 3, token); let other = new_sale(rng, 2, token);
	let w = Vault { sale, coll, vault, token, voucher, fp: acct(0), own };
	if rng.chance(70) { for a in [ROOT, XRP] { assert_ok!(<AssetsExt as Mutate<AccountId>>::transfer(a, &acct(SUDO), &vault, START / 10, frame_support::traits::tokens::Preservation::Expendable)); } vk::hit("vault_rich") }
	for _ in 0..vk::tier(50, 100) { match rng.below(20) {
		0 => { let _ = signed(acct(3), Call::Crowdsale(pallet_crowdsale::Call::enable { sale_id: sale })); let _ = signed(acct(2), Call::Crowdsale(pallet_crowdsale::Call::enable { sale_id: other.0 })); },
		1 | 2 => { let _ = signed(acct(rng.below(3)), Call::Crowdsale(pallet_crowdsale::Call::participate { sale_id: sale, amount: 1 + rng.below(1 << 20) as u128 })); },
		3 => { let n = System::block_number() + 1; System::set_block_number(n); seed_runtime::Crowdsale::on_initialize(n); },
		_ => {
			let who = match rng.below(10) { 0 => acct(2), 1 => acct(0), 2 => vault, _ => acct(3) }; let id = match rng.below(12) { 0 => other.0, 1 => 99, _ => sale };
			let Some((admin, target)) = pallet_crowdsale::SaleInfo::<Runtime>::get(id).map(|i| (i.admin, i.vault)) else {
				let (_, c) = vault_call(rng, &w, 0); System::reset_events(); let st = state(); let r = signed(who, Call::Crowdsale(pallet_crowdsale::Call::proxy_vault_call { sale_id: id, call: Box::new(c.clone()) }));
				ensure!(P14, r.is_err() && state() == st, "vault-no-sale", "{c:?}: {r:?}"); vk::hit("vault_no_sale"); continue };
			let (harmless, c) = vault_call(rng, &w, 0); let running = pallet_crowdsale::SaleInfo::<Runtime>::get(id).unwrap().status;
			let text = format!("sale {id} ({running:?}) vault call by {who:?}, admin {admin:?}: {c:?}"); vk::op(text.clone());
			let colls = [coll, other.1, own];
			System::reset_events(); let st = rest(&colls); let full = state();
			let direct = peek(|| { let r = vk::guard("direct", || frame_support::storage::with_storage_layer(|| -> DispatchResult { c.clone().dispatch(RuntimeOrigin::signed(target)).map(|_| ()).map_err(|e| e.error) })); System::reset_events(); (r, state()) });
			let r = vk::guard("proxy_vault_call", || frame_support::storage::with_storage_layer(|| signed(who, Call::Crowdsale(pallet_crowdsale::Call::proxy_vault_call { sale_id: id, call: Box::new(c.clone()) }))));
			System::reset_events(); let kind = std::mem::discriminant(&c);
			if r.is_err() { ensure!(P14, state() == full, "vault-refused-effect", "{text}: {r:?} left a trace") }
			if who != admin { ensure!(P14, r.is_err(), "vault-stranger", "{text}: carried out"); vk::hit("vault_by_stranger") }
			else if r.is_ok() {
				ensure!(P14, rest(&colls) == st, "vault-effect", "{text}: carried out and changed more than name, metadata or royalties");
				ensure!(P14, direct.0.is_ok() && direct.1 == state(), "vault-other-effect", "{text}: not what the vault's call does");
				vk::hit(if state() == full { "vault_harmless_call" } else { "vault_changed" });
			} else if harmless { ensure!(P14, direct.0.is_err(), "vault-liveness", "{text}: {r:?}"); } else { vk::hit("vault_refused") }
			if id != sale { vk::hit("another_sale") } match running { pallet_crowdsale::types::SaleStatus::Enabled(_) => vk::hit("sale_running"), pallet_crowdsale::types::SaleStatus::Pending(_) => {}, _ => vk::hit("sale_over") }
			vk::state(&(kind, r.is_ok(), who == admin, direct.0.is_ok(), std::mem::discriminant(&running), id));
		} }
		if let Some(i) = pallet_crowdsale::SaleInfo::<Runtime>::get(sale) { if matches!(i.status, pallet_crowdsale::types::SaleStatus::Pending(_) | pallet_crowdsale::types::SaleStatus::Enabled(_)) { ensure!(P14, bal(token, vault) == i.funds_raised, "vault-funds", "vault holds {} of {} raised", bal(token, vault), i.funds_raised) } }
	}
})) }
