//! C20 ERC-20 peg, C21 NFT peg: an Ethereum side vault model against the chain's ledger and the outgoing messages
use super::*;
use frame_support::traits::Get;
use pallet_erc20_peg::types::WithdrawCallOrigin;
use pallet_erc20_peg::Event as Pe;
use sp_core::U256;
use std::collections::BTreeSet;
const P20: [&str; 1] = ["C20"];
const P21: [&str; 1] = ["C21"];
fn eth(i: u64) -> H160 { H160::from_low_u64_be(0xE000_0000 + i) }
fn peg() -> AccountId { acct(PegPalletId::get()) }
#[derive(Clone, Debug, PartialEq)] enum Pay { In { token: H160, amount: u128, to: AccountId }, Out { token: H160, amount: u128, to: H160 } }
#[derive(Default)] struct E { busy: bool,
	n: u32, assets: BTreeMap<H160, AssetId>, dep: bool, wd: bool, depd: bool, wdd: bool, delays: BTreeMap<AssetId, (u128, u32)>,
	contract: H160, rootc: H160, due: BTreeMap<u64, (u32, Pay)>, order: Vec<u64>,
	vault: BTreeMap<H160, i128>,
}
fn msg_withdraw(token: H160, amount: u128, to: H160) -> Vec<u8> { abi(&[Ok(aword(token)), Ok(word(amount)), Ok(aword(to))]) }
fn out_to(m: &E, asset: AssetId, token: H160, amount: u128, to: H160) -> Out { Out::Eth { source: pallet_h160(PegPalletId::get()), dest: if asset == 1 { m.rootc } else { m.contract }, msg: msg_withdraw(token, amount, to) } }
fn taken() -> Vec<Out> { w(|x| std::mem::take(&mut x.sent)).into_iter().map(|s| s.out).collect() }
/// the effect of paying a deposit; false when the peg cannot fund it
fn pay_in(m: &mut E, e: &mut Bal, asset: AssetId, amount: u128, to: AccountId) -> bool { let _ = m; if asset == 1 { mv(e, 1, peg(), to, amount) } else { add(e, (asset, to), amount); true } }
fn delayed_evs(evs: &[RuntimeEvent]) -> Vec<(u64, u32)> { evs.iter().filter_map(|e| match e { RuntimeEvent::Erc20Peg(Pe::Erc20DepositDelayed { payment_id, scheduled_block, .. }) | RuntimeEvent::Erc20Peg(Pe::Erc20WithdrawalDelayed { payment_id, scheduled_block, .. }) => Some((*payment_id, *scheduled_block as u32)), _ => None }).collect() }

pub fn run() { vk::episodes(vk::tier(15000, 500000), erc20_episode) }
fn erc20_episode(_ep: u64, rng: &mut Rng) {
	reset_world();
	let endow: Vec<(AccountId, Balance)> = (1..=5).map(|i| (create_account(i), rng.range(1, 1_000_000) as Balance)).collect();
	let busy = rng.chance(20); let mut m = E { busy, dep: true, wd: true, depd: true, wdd: true, ..Default::default() };
	let mut e0 = endow.clone(); e0.push((peg(), rng.range(0, 500_000) as Balance)); if e0.last().unwrap().1 == 0 { e0.pop(); }
	TestExt::<Test>::default().with_balances(&e0).build().execute_with(|| {
		System::initialize(&1u64.saturated_into(), &Default::default(), &Default::default()); m.n = 1;
		m.contract = eth(100); m.rootc = eth(101);
		Erc20Peg::set_erc20_peg_address(root(), m.contract).unwrap(); Erc20Peg::set_root_peg_address(root(), m.rootc).unwrap();
		Erc20Peg::activate_deposits(root(), true).unwrap(); Erc20Peg::activate_withdrawals(root(), true).unwrap();
		Erc20Peg::set_erc20_asset_map(root(), 1, eth(0)).unwrap(); m.assets.insert(eth(0), 1);
		if busy { let d = rng.range(1, 6) as u32; Erc20Peg::set_payment_delay(root(), 1, 1, d.into()).unwrap(); m.delays.insert(1, (1, d)); Erc20Peg::activate_deposits_delay(root(), true).unwrap(); Erc20Peg::activate_withdrawals_delay(root(), true).unwrap(); }
		w(|x| x.sent.clear()); events();
		for _ in 0..vk::tier(50, 80) {
			if rng.chance(if busy { 22 } else { 35 }) { erc20_block(&mut m, rng) } else { erc20_op(&mut m, rng); }
			let (due_in, due_out): (Vec<_>, Vec<_>) = m.due.values().map(|d| d.1.clone()).partition(|p| matches!(p, Pay::In { .. }));
			// the vault on Ethereum backs every bridged token on this chain, paid or still waiting
			for (t, a) in &m.assets { if *a == 1 { continue }
				let wait: u128 = due_in.iter().chain(due_out.iter()).map(|p| match p { Pay::In { token, amount, .. } | Pay::Out { token, amount, .. } if token == t => *amount, _ => 0 }).sum();
				ensure_eq!(P20, m.vault.get(t).copied().unwrap_or(0), (issuance(*a) + wait) as i128, "backing", "asset {a}: locked on Ethereum vs issuance plus pending payments");
			}
			check_sums(&P20, "step");
			vk::state(&(m.due.len().min(12), m.due.values().map(|d| d.0.saturating_sub(m.n)).collect::<Vec<_>>(), m.assets.len(), m.dep, m.wd, m.depd, m.wdd, m.delays.len()));
		}
	});
}
use sp_runtime::SaturatedConversion;
fn erc20_op(m: &mut E, rng: &mut Rng) {
	let pre = balances(); let mut e = pre.clone(); let sup: BTreeMap<AssetId, u128> = all_assets().into_iter().map(|a| (a, issuance(a))).collect();
	let who = create_account(rng.range(1, 6));
	match rng.below(20) {
		0..=8 => { // ---- a deposit seen on Ethereum
			let t = eth(if m.busy && rng.chance(60) { 0 } else { rng.below(5) }); let source = match rng.below(10) { 0 => { let mut near = m.contract; near.0[rng.below(20) as usize] ^= 1; *rng.pick(&[eth(7), H160::zero(), pallet_h160(PegPalletId::get()), t, eth(1), near]) }, 1 => if t == eth(0) { m.contract } else { m.rootc }, _ => if t == eth(0) { m.rootc } else { m.contract } };
			let amount: U256 = match rng.below(20) { 0 => U256::from(u128::MAX), 1 => U256::from(u128::MAX) + U256::from(rng.u64()), 2 => U256::from(0u8), 3 if t == eth(0) => U256::from(rng.range(1, 2_000_000)), _ => U256::from(rng.range(1, 5000)) };
			let asset = m.assets.get(&t).copied();
			let mut amt = [0u8; 32]; amount.to_big_endian(&mut amt);
			let mut data = abi(&[Ok(aword(t)), Ok(amt.to_vec()), Ok(aword(who.into()))]);
			let bad = rng.chance(4); if bad { data.truncate(rng.below(96) as usize) }
			let what = format!("deposit of {amount} of {t:?} (asset {asset:?}) to {who:?} from {source:?} malformed {bad}"); vk::op(&what);
			let a = amount.low_u128();
			let right = match asset { Some(1) => source == m.rootc, Some(_) => source == m.contract, None => source == m.contract || source == m.rootc };
			let may = !bad && right && m.dep && amount < U256::from(u128::MAX);
			let delay = asset.and_then(|x| m.delays.get(&x).copied()).filter(|d| m.depd && d.0 <= a);
			let next = pallet_erc20_peg::NextDelayedPaymentId::<Test>::get();
			let r = vk::guard("deposit", || <Erc20Peg as EthereumEventSubscriber>::process_event(&source, &data));
			let evs = events(); let out = taken();
			ensure!(P20, out.is_empty(), "deposit-sent-message", "{what}: {out:?}");
			if r.is_ok() {
				ensure!(P20, may, "deposit-accepted", "{what}: accepted (active {}, expected source {right})", m.dep);
				*m.vault.entry(t).or_insert(0) += a as i128;
				if let Some((_, d)) = delay {
					vk::hit("deposit_delayed"); let at = m.n + d.max(1);
					ensure_eq!(P20, delayed_evs(&evs), vec![(next, at)], "delay-schedule", "{what}: delay {d} at block {}", m.n);
					ensure!(P20, !m.due.contains_key(&next), "payment-id-reused", "{what}: payment id {next}");
					m.due.insert(next, (at, Pay::In { token: t, amount: a, to: who })); m.order.push(next);
				} else {
					vk::hit("deposit_ok");
					let asset = match asset { Some(x) => x, None => {
						let new = pallet_erc20_peg::Erc20ToAssetId::<Test>::get(t);
						ensure!(P20, new.map_or(false, |x| !sup.contains_key(&x) && pallet_erc20_peg::AssetIdToErc20::<Test>::get(x) == Some(t)), "asset-map", "{what}: new asset {new:?}");
						let x = new.unwrap_or(0); m.assets.insert(t, x); vk::hit("token_created"); x } };
					if !pay_in(m, &mut e, asset, a, who) { ensure!(P20, false, "deposit-unfunded", "{what}: the peg holds only {:?}", pre.get(&(1, peg()))) }
					let dep: Vec<(AssetId, u128, AccountId)> = evs.iter().filter_map(|e| match e { RuntimeEvent::Erc20Peg(Pe::Erc20Deposit { asset_id, amount, beneficiary }) => Some((*asset_id, *amount, *beneficiary)), _ => None }).collect();
					ensure_eq!(P20, dep, vec![(asset, a, who)], "deposit-event", "{what}");
				}
			} else {
				vk::hit("deposit_rejected");
				let funded = asset != Some(1) || delay.is_some() || pre.get(&(1, peg())).copied().unwrap_or(0) >= a;
				ensure!(P20, !(may && funded && a > 0), "deposit-refused", "{what}: {r:?}");
			}
			let post = balances(); ensure!(P20, e == post, "deposit-ledger", "{what}: {}", diff(&e, &post));
		},
		9..=15 => { // ---- a withdrawal
			let (t, asset) = if rng.chance(93) && !m.assets.is_empty() { let v: Vec<_> = m.assets.iter().map(|x| (*x.0, *x.1)).collect(); *rng.pick(&v) } else { (eth(9), rng.below(3) as u32 * 700) };
			let who = if rng.chance(70) { let v: Vec<AccountId> = pre.keys().filter(|k| k.0 == asset && k.1 != peg()).map(|k| k.1).collect(); if v.is_empty() { who } else { *rng.pick(&v) } } else { who };
			let have = pre.get(&(asset, who)).copied().unwrap_or(0);
			let amount = match rng.below(6) { 0 => have, 1 => have + 1, 2 => rng.u128(), _ => if have > 0 { rng.below(have.min(u64::MAX as u128) as u64) as u128 + 1 } else { 5 } };
			let to = eth(50 + rng.below(4)); let evm = rng.chance(25);
			let known = m.assets.get(&t) == Some(&asset);
			let delay = m.delays.get(&asset).copied().filter(|d| m.wdd && d.0 <= amount);
			let may = m.wd && known && have >= amount && !(evm && delay.is_some());
			let next = pallet_erc20_peg::NextDelayedPaymentId::<Test>::get();
			let what = format!("withdraw {amount} of asset {asset} by {who:?} (holds {have}) to {to:?} evm {evm} delay {delay:?} active {}", m.wd); vk::op(&what);
			let r = vk::guard("withdraw", || if evm { txs(|| Erc20Peg::do_withdrawal(who, asset, amount, to, WithdrawCallOrigin::Evm).map(|_| ())) } else { txs(|| Erc20Peg::withdraw(sg(who), asset, amount, to)) });
			let evs = events(); let out = taken();
			if r.is_ok() {
				ensure!(P20, may, "withdrawal-accepted", "{what}: accepted");
				if asset == 1 { if !mv(&mut e, 1, who, peg(), amount) { ensure!(P20, false, "withdrawal-unfunded", "{what}") } } else if !sub(&mut e, (asset, who), amount) { ensure!(P20, false, "withdrawal-unfunded", "{what}") }
				if let Some((_, d)) = delay {
					vk::hit("withdraw_delayed"); let at = m.n + d.max(1);
					ensure!(P20, out.is_empty(), "delayed-withdrawal-sent", "{what}: {out:?}");
					ensure_eq!(P20, delayed_evs(&evs), vec![(next, at)], "delay-schedule", "{what}: delay {d} at block {}", m.n);
					ensure!(P20, !m.due.contains_key(&next), "payment-id-reused", "{what}: payment id {next}");
					m.due.insert(next, (at, Pay::Out { token: t, amount, to })); m.order.push(next);
				} else {
					vk::hit("withdraw_ok"); if evm { vk::hit("withdraw_evm") }
					ensure_eq!(P20, out, vec![out_to(m, asset, t, amount, to)], "withdrawal-message", "{what}: message to Ethereum");
					*m.vault.entry(t).or_insert(0) -= amount as i128;
				}
			} else { vk::hit("withdraw_rejected"); ensure!(P20, !(may && amount > 0), "withdrawal-refused", "{what}: {r:?}"); ensure!(P20, out.is_empty(), "refused-withdrawal-sent", "{what}: {out:?}") }
			let post = balances(); ensure!(P20, e == post, "withdrawal-ledger", "{what}: {}", diff(&e, &post));
		},
		16 | 17 => { // ---- governance
			let o = if rng.chance(80) { root() } else { sg(who) }; let isroot = matches!(o.clone().into(), Ok(frame_system::RawOrigin::Root));
			let b = rng.chance(70); let k = rng.below(6);
			let assets: Vec<AssetId> = m.assets.values().copied().collect(); let a = *rng.pick(&assets); let min = *rng.pick(&[0u128, 1, 100, 1000, 4999]); let d = rng.below(6) as u32;
			let what = format!("governance {k} {b} asset {a} min {min} delay {d} root {isroot}"); vk::op(&what);
			let r = match k { 0 => Erc20Peg::activate_deposits(o, b), 1 => Erc20Peg::activate_withdrawals(o, b), 2 => Erc20Peg::activate_deposits_delay(o, b), 3 => Erc20Peg::activate_withdrawals_delay(o, b), _ => Erc20Peg::set_payment_delay(o, a, min, d.into()) };
			ensure_eq!(P20, r.is_ok(), isroot, "permission", "{what}");
			if r.is_ok() { match k { 0 => m.dep = b, 1 => m.wd = b, 2 => m.depd = b, 3 => m.wdd = b, _ => { m.delays.insert(a, (min, d)); } } }
			events(); let post = balances(); ensure!(P20, e == post, "governance-moved-funds", "{what}: {}", diff(&e, &post));
		},
		_ => { // ---- governance executes one delayed payment at once
			let ids: Vec<(u64, u32)> = m.due.iter().map(|(k, v)| (*k, v.0)).collect();
			let (mut id, mut at) = if ids.is_empty() { (rng.below(4), m.n) } else { *rng.pick(&ids) };
			if rng.chance(15) { id += 1 } if rng.chance(15) { at += 1 }
			let by_root = rng.chance(75); let right = by_root && m.due.get(&id).map_or(false, |d| d.0 == at);
			let what = format!("claim_delayed_payment {id} at {at} root {by_root}"); vk::op(&what);
			let r = vk::guard("claim", || txs(|| Erc20Peg::claim_delayed_payment(if by_root { root() } else { sg(who) }, at.into(), id)));
			ensure_eq!(P20, r.is_ok(), right, "claim", "{what}: {r:?}");
			if r.is_ok() { vk::hit("claimed") }
			let got = if right && r.is_ok() { vec![id] } else { vec![] };
			settle(m, &what, e, got);
		},
	}
}
/// the payments that left the queue must have had exactly their effect
fn settle(m: &mut E, what: &str, mut e: Bal, ids: Vec<u64>) {
	let mut msgs = vec![]; let (mut failed, mut deps) = (vec![], vec![]);
	let gone: Vec<u64> = m.due.keys().copied().filter(|i| !pallet_erc20_peg::DelayedPayments::<Test>::contains_key(i)).collect();
	let mut sorted = ids.clone(); sorted.sort();
	ensure_eq!(P20, gone, sorted, "payments-executed", "{what}: payments that left the queue vs payments to execute");
	for id in ids {
		let Some((_, p)) = m.due.remove(&id) else { continue }; m.order.retain(|x| *x != id); vk::hit("delayed_paid");
		match p {
			Pay::In { token, amount, to } => { let asset = m.assets[&token]; if pay_in(m, &mut e, asset, amount, to) { deps.push((asset, amount, to)) } else { vk::hit("delayed_deposit_unfunded"); failed.push(id) } },
			Pay::Out { token, amount, to } => { let asset = m.assets[&token]; msgs.push(out_to(m, asset, token, amount, to)); *m.vault.entry(token).or_insert(0) -= amount as i128; },
		}
	}
	let evs = events();
	let got: Vec<(AssetId, u128, AccountId)> = evs.iter().filter_map(|e| match e { RuntimeEvent::Erc20Peg(Pe::Erc20Deposit { asset_id, amount, beneficiary }) => Some((*asset_id, *amount, *beneficiary)), _ => None }).collect();
	let gotf: Vec<u64> = evs.iter().filter_map(|e| match e { RuntimeEvent::Erc20Peg(Pe::DelayedErc20DepositFailed { payment_id, .. }) => Some(*payment_id), _ => None }).collect();
	let (mut g, mut x) = (got, deps); g.sort(); x.sort(); ensure_eq!(P20, g, x, "delayed-deposits", "{what}: deposits announced");
	let (mut g, mut x) = (gotf, failed); g.sort(); x.sort(); ensure_eq!(P20, g, x, "delayed-deposit-failures", "{what}");
	let key = |o: &Out| match o { Out::Eth { dest, msg, .. } => (*dest, msg.clone()), Out::Xrpl(m) => (H160::zero(), m.clone()) };
	let (mut g, mut x) = (taken(), msgs); g.sort_by_key(key); x.sort_by_key(key); ensure_eq!(P20, g, x, "delayed-withdrawals", "{what}: messages to Ethereum");
	let post = balances(); ensure!(P20, e == post, "delayed-ledger", "{what}: {}", diff(&e, &post));
}
fn erc20_block(m: &mut E, rng: &mut Rng) {
	// idle of the current block
	let full = rng.chance(if m.busy { 12 } else { 55 });
	let wt = if full { Weight::from_parts(u64::MAX / 4, u64::MAX / 4) } else { Weight::from_parts(if m.busy && rng.chance(55) { rng.below(1_200_000_000) } else { rng.below(12_000_000_000) }, u64::MAX / 4) };
	let pre = balances();
	let due: Vec<u64> = m.order.iter().copied().filter(|i| m.due[i].0 <= m.n).collect();
	let what = format!("on_idle of block {} ({} payments due, full weight {full})", m.n, due.len()); vk::op(&what);
	vk::guard("erc20-peg on_idle", || { <Erc20Peg as Hooks<_>>::on_idle(m.n.saturated_into(), wt); });
	let early: Vec<u64> = m.due.iter().filter(|(i, d)| d.0 > m.n && !pallet_erc20_peg::DelayedPayments::<Test>::contains_key(**i)).map(|x| *x.0).collect();
	ensure!(P20, early.is_empty(), "payment-too-early", "{what}: payments {early:?} executed before their block");
	// payments of earlier blocks come first, in the order they were made
	let mut due = due; due.sort_by_key(|i| m.due[i].0);
	let got: Vec<u64> = if full { due.clone() } else { due.iter().copied().filter(|i| !pallet_erc20_peg::DelayedPayments::<Test>::contains_key(i)).collect() };
	if !full && got.len() < due.len() { vk::hit("idle_partial") }
	settle(m, &what, pre, got);
	m.n += 1;
	System::initialize(&m.n.saturated_into(), &Default::default(), &Default::default());
	vk::op(format!("block {}", m.n));
	let pre = balances();
	vk::guard("erc20-peg on_initialize", || { <Erc20Peg as Hooks<_>>::on_initialize(m.n.saturated_into()); });
	settle(m, "on_initialize", pre, vec![]);
}

// ------------------------------------------------------------------------------------------------ NFT peg
type Owned = BTreeMap<(H160, u32), AccountId>;
#[derive(Default)] struct N { cols: BTreeMap<H160, u32>, own: Owned, blocked: BTreeMap<u32, (H160, Vec<u32>, AccountId)>, locked: BTreeSet<(H160, u32)>, flags: BTreeMap<u32, (bool, bool, bool)>, owners: BTreeMap<u32, AccountId>, burned: BTreeSet<(H160, u32)>, native: u32, contract: H160, honest: bool }
fn owned(m: &N) -> Owned {
	let mut o = Owned::new();
	for (a, c) in &m.cols { if let Some(i) = pallet_nft::CollectionInfo::<Test>::get(c) { for t in i.owned_tokens.iter() { for s in t.owned_serials.iter() {
		let dup = o.insert((*a, *s), t.owner); ensure!(P21, dup.is_none(), "two-owners", "collection {c} serial {s}: {dup:?} and {:?}", t.owner); } } } }
	o
}
fn deposit_msg(prefix: u32, items: &[(H160, Vec<u32>)], to: AccountId) -> Vec<u8> { deposit_msg_of(prefix, items, items, to) }
/// (the two lists may be of different length)
fn deposit_msg_of(prefix: u32, items: &[(H160, Vec<u32>)], serials: &[(H160, Vec<u32>)], to: AccountId) -> Vec<u8> {
	let addrs: Vec<Vec<u8>> = items.iter().map(|i| aword(i.0)).collect();
	let ids: Vec<Vec<u8>> = serials.iter().map(|i| arr(&i.1.iter().map(|x| word(*x)).collect::<Vec<_>>())).collect();
	abi(&[Ok(word(prefix)), Err(arr(&addrs)), Err(arr_dyn(&ids)), Ok(aword(to.into()))])
}
fn out_nft(m: &N, items: &[(H160, Vec<u32>)], to: H160) -> Out {
	let addrs: Vec<Vec<u8>> = items.iter().map(|i| aword(i.0)).collect();
	let ids: Vec<Vec<u8>> = items.iter().map(|i| arr(&i.1.iter().map(|x| word(*x)).collect::<Vec<_>>())).collect();
	Out::Eth { source: pallet_h160(NftPegPalletId::get()), dest: m.contract, msg: abi(&[Err(arr(&addrs)), Err(arr_dyn(&ids)), Ok(aword(to))]) }
}
pub fn run_nft() { vk::episodes(vk::tier(6000, 200000), nft_episode) }
fn nft_episode(_ep: u64, rng: &mut Rng) {
	reset_world();
	let endow: Vec<(AccountId, Balance)> = (1..=5).map(|i| (create_account(i), 1_000_000)).collect();
	TestExt::<Test>::default().with_balances(&endow).with_xrp_balances(&endow).build().execute_with(|| {
		System::initialize(&1u64.saturated_into(), &Default::default(), &Default::default());
		let mut m = N { contract: eth(200), honest: rng.chance(70), ..Default::default() };
		NftPeg::set_contract_address(root(), m.contract).unwrap();
		// a collection of this chain, which can never be sent to Ethereum
		m.native = Nft::next_collection_uuid().unwrap();
		Nft::create_collection(sg(create_account(1)), b"native".to_vec().try_into().unwrap(), 4, None, Some(create_account(1)), seed_primitives::MetadataScheme::try_from(b"https://a/".as_slice()).unwrap(), None, Default::default()).unwrap();
		events(); w(|x| x.sent.clear());
		for _ in 0..vk::tier(45, 80) {
			nft_op(&mut m, rng);
			let now = owned(&m);
			ensure_eq!(P21, m.own, now, "ownership", "owners of bridged tokens");
			// every token locked on Ethereum is on this chain once, waiting to be reclaimed, or was burned by its owner
			let mut here: BTreeSet<(H160, u32)> = now.keys().copied().collect(); here.extend(m.burned.iter());
			let onchain: BTreeSet<u32> = pallet_nft_peg::BlockedTokens::<Test>::iter_keys().collect();
			ensure_eq!(P21, m.blocked.keys().copied().collect::<BTreeSet<u32>>(), onchain, "blocked-set", "blocked mints");
			for b in onchain { if let Some(i) = pallet_nft_peg::BlockedTokens::<Test>::get(b) { for s in i.serial_numbers.iter() { if let Some(a) = m.cols.iter().find(|c| *c.1 == i.collection_id) { here.insert((*a.0, *s)); } } } }
			if m.honest { ensure_eq!(P21, m.locked, here, "backing", "tokens locked on Ethereum vs minted, blocked or burned here") }
			vk::state(&(m.own.len().min(40), m.blocked.len(), m.cols.len(), m.burned.len().min(4), m.flags.values().filter(|f| !f.0).count()));
		}
	});
}
fn nft_op(m: &mut N, rng: &mut Rng) {
	let who = create_account(rng.range(1, 6)); let pre_bal = balances(); let own0 = m.own.clone();
	match rng.below(20) {
		0..=7 => { // ---- deposit
			let cnt = match rng.below(12) { 0 => MaxAddresses::get() as u64 + 1, 1 => 0, _ => rng.range(1, 4) };
			let mut items: Vec<(H160, Vec<u32>)> = vec![]; let mut used: BTreeSet<(H160, u32)> = BTreeSet::new();
			let honest = m.honest || rng.chance(60);
			for _ in 0..cnt {
				let a = eth(300 + rng.below(4)); let many = if rng.chance(20) { MaxTokensPerMint::get() as u64 } else { rng.below(7) }; let many = if rng.chance(3) { many + 12 } else { many };
				let mut ids: Vec<u32> = vec![];
				for _ in 0..many { let s = if rng.chance(5) { u32::MAX - rng.below(3) as u32 } else { rng.below(70) as u32 };
					// an honest peg contract only reports tokens that were just locked
					if honest && (m.locked.contains(&(a, s)) || !used.insert((a, s))) { continue }
					if !honest && (!m.own.contains_key(&(a, s)) && m.locked.contains(&(a, s))) { continue } // tokens waiting or burned here are not re-sent
					ids.push(s); }
				items.push((a, ids));
			}
			let prefix = match rng.below(30) { 0 => 2, 1 => 0, 2 => 3, _ => 1u32 }; let source = if rng.chance(95) { m.contract } else { let mut near = m.contract; near.0[rng.below(20) as usize] ^= 1; *rng.pick(&[eth(1), H160::zero(), pallet_h160(NftPegPalletId::get()), near]) };
			let mut data = deposit_msg(prefix, &items, who);
			let uneven = rng.chance(6); if uneven { let mut i2 = items.clone(); if rng.chance(50) && !i2.is_empty() { i2.pop(); } else { i2.push((H160::zero(), vec![rng.below(70) as u32])) } data = deposit_msg_of(prefix, &items, &i2, who); vk::hit("nft_uneven_deposit") }
			let bad = rng.chance(4); if bad { let c = rng.below(data.len() as u64) as usize; data.truncate(c) }
			let what = format!("deposit {items:?} to {who:?} from {source:?} prefix {prefix} malformed {bad} uneven {uneven} honest {honest}"); vk::op(&what);
			let fits = items.len() <= MaxAddresses::get() as usize && items.iter().all(|i| i.1.len() <= MaxTokensPerMint::get() as usize);
			let valid = !bad && !uneven && prefix == 1 && source == m.contract && fits;
			let before: BTreeSet<u32> = m.blocked.keys().copied().collect(); let nextb = pallet_nft_peg::NextBlockedMintId::<Test>::get();
			let r = vk::guard("nft deposit", || <NftPeg as EthereumEventSubscriber>::process_event(&source, &data));
			let _ = before; events();
			ensure!(P21, taken().is_empty(), "deposit-sent-message", "{what}");
			if valid {
				let mut anyblocked = false; let mut b = nextb;
				for (a, ids) in &items {
					if !m.cols.contains_key(a) {
						let c = pallet_nft_peg::EthToRootNft::<Test>::get(a);
						ensure!(P21, c.map_or(false, |c| pallet_nft_peg::RootNftToErc721::<Test>::get(c) == Some(*a) && !m.cols.values().any(|x| *x == c) && c != m.native && pallet_nft::CollectionInfo::<Test>::get(c).map_or(false, |i| i.origin_chain == seed_primitives::OriginChain::Ethereum)), "collection-map", "{what}: collection of {a:?}: {c:?}");
						let Some(c) = c else { continue };
						m.cols.insert(*a, c); m.flags.insert(c, (true, true, true)); m.owners.insert(c, acct(NftPalletId::get()));
					}
					let c = m.cols[a];
					let blocked = pallet_nft_peg::BlockedTokens::<Test>::get(b).filter(|i| i.collection_id == c && i.destination_address == who && i.serial_numbers.clone().into_inner() == *ids);
					let fresh: BTreeSet<u32> = ids.iter().copied().filter(|s| !m.own.contains_key(&(*a, *s))).collect();
					let total = m.own.keys().filter(|k| k.0 == *a).count() + fresh.len();
					// a mint with nothing to do neither blocks nor mints
					if !ids.is_empty() && blocked.is_some() {
						vk::hit("nft_blocked"); anyblocked = true;
						ensure!(P21, !m.flags[&c].0 || total + 1 > MaxTokensPerCollection::get() as usize, "mint-blocked", "{what}: collection {c} with {total} tokens after the mint: blocked");
						if honest { for s in ids { m.locked.insert((*a, *s)); } } else { for s in &fresh { m.locked.insert((*a, *s)); } }
						m.blocked.insert(b, (*a, ids.clone(), who)); b += 1;
					} else {
						for s in fresh { m.own.insert((*a, s), who); m.locked.insert((*a, s)); vk::hit("nft_minted"); }
						if !ids.is_empty() { vk::hit("nft_deposit_ok") }
					}
				}
				ensure_eq!(P21, r.is_err(), anyblocked, "deposit-result", "{what}: {r:?}");
			} else { vk::hit("nft_deposit_rejected"); ensure!(P21, r.is_err(), "deposit-accepted", "{what}: accepted"); ensure_eq!(P21, pallet_nft_peg::NextBlockedMintId::<Test>::get(), nextb, "refused-deposit-blocked", "{what}") }
		},
		8..=12 => { // ---- withdraw
			let v: Vec<(H160, u32)> = m.own.iter().filter(|x| *x.1 == who || rng.chance(3)).map(|x| *x.0).collect();
			let mut items: Vec<(H160, Vec<u32>)> = vec![];
			let mut pickable = v.clone(); rng.shuffle(&mut pickable);
			for k in pickable.into_iter().take(rng.below(9) as usize) { match items.iter_mut().find(|i| i.0 == k.0) { Some(i) => i.1.push(k.1), None => items.push((k.0, vec![k.1])) } }
			if rng.chance(8) { if let Some(i) = items.first().cloned() { items.push(i) } }
			if rng.chance(8) { if let Some(a) = m.cols.keys().next() { items.push((*a, vec![rng.below(70) as u32])) } }
			if items.len() > 4 || items.iter().any(|i| i.1.len() > 10) { return }
			let mut cols: Vec<u32> = items.iter().map(|i| m.cols[&i.0]).collect();
			let native = rng.chance(5); if native && !cols.is_empty() { let l = cols.len() - 1; cols[l] = m.native }
			let mut serials: Vec<Vec<u32>> = items.iter().map(|i| i.1.clone()).collect();
			let mism = rng.chance(4); if mism { if rng.chance(50) { serials.pop(); } else if serials.len() < 4 { serials.push(vec![]) } }
			let mut sim = m.own.clone(); let mut ok = !(native && !cols.is_empty()) && cols.len() == serials.len();
			if ok { for (a, ids) in &items { if !m.flags[&m.cols[a]].1 && !ids.is_empty() { ok = false } for s in ids { if sim.remove(&(*a, *s)) != Some(who) { ok = false } } } }
			let to = eth(60 + rng.below(3));
			let what = format!("withdraw {items:?} (collections {cols:?} serials {serials:?}) by {who:?} to {to:?}"); vk::op(&what);
			let bc = cols.clone().try_into().unwrap(); let bs: Vec<_> = serials.iter().map(|s| s.clone().try_into().unwrap()).collect();
			let r = vk::guard("nft withdraw", || txs(|| NftPeg::withdraw(sg(who), bc, bs.try_into().unwrap(), to)));
			let out = taken(); events();
			if r.is_ok() {
				ensure!(P21, ok, "withdrawal-accepted", "{what}: accepted");
				if !items.is_empty() { vk::hit("nft_withdraw_ok") }
				ensure_eq!(P21, out, vec![out_nft(m, &items, to)], "withdrawal-message", "{what}");
				for (a, ids) in &items { for s in ids { m.own.remove(&(*a, *s)); let l = m.locked.remove(&(*a, *s)); ensure!(P21, l || !m.honest, "released-twice", "{what}: {a:?} {s}"); } }
			} else { vk::hit("nft_withdraw_rejected"); ensure!(P21, !ok, "withdrawal-refused", "{what}: {r:?}"); ensure!(P21, out.is_empty(), "refused-withdrawal-sent", "{what}") }
		},
		13..=15 => { // ---- reclaim
			let id = if m.blocked.is_empty() || rng.chance(20) { rng.below(5) as u32 } else { *rng.pick(&m.blocked.keys().copied().collect::<Vec<_>>()) };
			let who = match m.blocked.get(&id) { Some(b) if rng.chance(70) => b.2, _ => who };
			let may = m.blocked.get(&id).map_or(false, |b| b.2 == who); let to = match m.blocked.get(&id) { Some(b) if rng.chance(35) => b.2.into(), _ => eth(70 + rng.below(3)) };
			let what = format!("reclaim_blocked_nfts {id} by {who:?}: {:?}", m.blocked.get(&id)); vk::op(&what);
			let r = vk::guard("reclaim", || txs(|| NftPeg::reclaim_blocked_nfts(sg(who), id, to))); let out = taken(); events();
			ensure_eq!(P21, r.is_ok(), may, "reclaim", "{what}: {r:?}");
			if r.is_ok() {
				vk::hit("nft_reclaimed"); let Some((a, ids, _)) = m.blocked.remove(&id) else { return };
				ensure_eq!(P21, out, vec![out_nft(m, &[(a, ids.clone())], to)], "reclaim-message", "{what}");
				for s in ids { if !m.own.contains_key(&(a, s)) && !m.blocked.values().any(|b| b.0 == a && b.1.contains(&s)) { m.locked.remove(&(a, s)); } }
			} else { vk::hit("nft_reclaim_rejected"); ensure!(P21, out.is_empty(), "refused-reclaim-sent", "{what}") }
		},
		16 | 17 => { // ---- transfer or burn
			let v: Vec<((H160, u32), AccountId)> = m.own.iter().map(|x| (*x.0, *x.1)).collect(); if v.is_empty() { return }
			let ((a, s), o) = *rng.pick(&v); let c = m.cols[&a]; let f = m.flags[&c];
			if rng.chance(75) {
				let to = create_account(rng.range(1, 6)); let what = format!("transfer {a:?} {s} from {o:?} to {to:?}"); vk::op(&what);
				let r = tx(|| Nft::transfer(sg(o), c, vec![s].try_into().unwrap(), to)); events();
				if r.is_ok() { vk::hit("nft_moved"); ensure!(P21, f.2, "transfer-blocked", "{what}"); m.own.insert((a, s), to); }
			} else {
				vk::op(format!("burn {a:?} {s} by {o:?}"));
				let r = tx(|| Nft::burn(sg(o), (c, s))); events();
				if r.is_ok() { m.own.remove(&(a, s)); m.burned.insert((a, s)); }
			}
		},
		_ => { // ---- the collection gets an owner, who changes what can be done with it
			let v: Vec<u32> = m.cols.values().copied().collect(); if v.is_empty() { return } let c = *rng.pick(&v);
			if m.owners[&c] == acct(NftPalletId::get()) { vk::op(format!("claim collection {c} for {who:?}")); if tx(|| Nft::claim_unowned_collection(root(), c, who)).is_ok() { m.owners.insert(c, who); } events(); return }
			let f = (rng.chance(60), rng.chance(80), rng.chance(80));
			vk::op(format!("utility flags of {c}: mintable {} burnable {} transferable {}", f.0, f.1, f.2));
			let o = m.owners[&c];
			if tx(|| Nft::set_utility_flags(sg(o), c, seed_pallet_common::utils::CollectionUtilityFlags { transferable: f.2, burnable: f.1, mintable: f.0 })).is_ok() { m.flags.insert(c, f); }
			events();
		},
	}
	let _ = (own0, pre_bal);
}
