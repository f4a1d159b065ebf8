//! C23: paying fees in another asset.
//! The exchange is predicted from the pool's reserves with the textbook constant-product formula; every balance on the
//! chain must then be exactly what the exchange, the fee and the inner call's own effects make it.
use crate::env::*;
use crate::rt::*;
use crate::*;
use frame_support::dispatch::GetDispatchInfo;
use frame_support::traits::tokens::{Fortitude, Preservation};
use precompile_utils::constants::FEE_PROXY_ADDRESS;
type FeeCall = pallet_fee_proxy::Call<Runtime>;
struct World { tokens: Vec<AssetId>, fp: AccountId, other_fp: AccountId, fresh: u64, pot: AccountId }
fn mint(a: AssetId, who: AccountId, v: Balance) { if a > 2 { assert_ok!(<AssetsExt as frame_support::traits::fungibles::Mutate<AccountId>>::mint_into(a, &who, v)); } else { mv(a, acct(SUDO), who, v) } }
fn mv(a: AssetId, from: AccountId, to: AccountId, v: Balance) { assert_ok!(<AssetsExt as frame_support::traits::fungibles::Mutate<AccountId>>::transfer(a, &from, &to, v, Preservation::Expendable)); }
fn liquid(a: AssetId, w: AccountId) -> Balance { <AssetsExt as frame_support::traits::fungibles::Inspect<AccountId>>::reducible_balance(a, &w, Preservation::Expendable, Fortitude::Polite) }
fn min(a: AssetId) -> Balance { <AssetsExt as frame_support::traits::fungibles::Inspect<AccountId>>::minimum_balance(a) }
fn pool_of(a: AssetId) -> AccountId { pallet_dex::types::TradingPair::new(a, XRP).pool_address::<AccountId>() }
/// (asset, XRP) in the pool
fn reserves(a: AssetId) -> Option<(Balance, Balance)> {
	if a == XRP { return None }
	let p = pallet_dex::types::TradingPair::new(a, XRP);
	if pallet_dex::TradingPairStatuses::<Runtime>::get(p) != pallet_dex::TradingPairStatus::Enabled { return None }
	let (x, y) = pallet_dex::LiquidityPool::<Runtime>::get(p);
	let r = if p.0 == a { (x, y) } else { (y, x) };
	if r.0 == 0 || r.1 == 0 { None } else { Some(r) }
}
/// asset needed to take `out` XRP from the pool
fn quote(a: AssetId, out: Balance) -> Option<Balance> { let (i, o) = reserves(a)?; if out == 0 || out >= o { return None } let q = U256::from(i) * U256::from(out) * U256::from(1000u64) / (U256::from(o - out) * U256::from(997u64)) + U256::one(); Some(q.min(U256::from(u128::MAX)).as_u128()) }
/// XRP got for `put` of the asset
fn gain(a: AssetId, put: Balance) -> Balance { let Some((i, o)) = reserves(a) else { return 0 }; let f = U256::from(put) * U256::from(997u64); (f * U256::from(o) / (U256::from(i) * U256::from(1000u64) + f)).as_u128() }
#[derive(Clone, Debug)]
enum Node { Pay(AssetId, AccountId, Balance), Broke(AccountId), Rooted, Fp(AccountId, Box<Node>), Batch(bool, Vec<Node>), Fee(AssetId, Balance, Box<Node>), Evm { target: AccountId, value: Balance, gas: u64, max: U256, prio: Option<U256> } }
use Node::*;
#[derive(Default, Clone)]
struct Fx { pays: Vec<(AssetId, AccountId, AccountId, Balance)>, fees: Vec<(AccountId, AssetId, Balance)> }
impl Fx { fn add(&mut self, o: Fx) { self.pays.extend(o.pays); self.fees.extend(o.fees) } }
impl Node {
	fn call(&self, actor: AccountId) -> Call { match self {
		Pay(a, to, v) => if *a == ROOT { Call::Balances(pallet_balances::Call::transfer { dest: *to, value: *v }) } else { Call::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: *a, destination: *to, amount: *v, keep_alive: false }) },
		Broke(to) => Call::Balances(pallet_balances::Call::transfer { dest: *to, value: u128::MAX / 3 }),
		Rooted => Call::MaintenanceMode(pallet_maintenance_mode::Call::enable_maintenance_mode { enabled: true }),
		Fp(f, n) => Call::Futurepass(pallet_futurepass::Call::proxy_extrinsic { futurepass: *f, call: Box::new(n.call(*f)) }),
		Batch(all, v) => { let calls = v.iter().map(|c| c.call(actor)).collect(); Call::Utility(if *all { pallet_utility::Call::batch_all { calls } } else { pallet_utility::Call::batch { calls } }) },
		Fee(a, m, n) => Call::FeeProxy(FeeCall::call_with_fee_preferences { payment_asset: *a, max_payment: *m, call: Box::new(n.call(actor)) }),
		Evm { target, value, gas, max, prio } => Call::EVM(pallet_evm::Call::call { source: h(actor), target: h(*target), input: vec![], value: U256::from(*value) * 10u64.pow(12), gas_limit: *gas, max_fee_per_gas: *max, max_priority_fee_per_gas: *prio, nonce: None, access_list: vec![] }),
	} }
	/// does it succeed for `actor`, and with what effects; None when it holds an EVM call
	fn exec(&self, w: &World, actor: AccountId, fp_of: &dyn Fn(AccountId) -> bool) -> (bool, Fx) { match self {
		Pay(a, to, v) => (true, Fx { pays: vec![(*a, actor, *to, *v)], fees: vec![] }),
		Broke(_) | Rooted => (false, Fx::default()),
		Fp(f, n) => if *f == w.fp && fp_of(actor) { (true, n.exec(w, *f, fp_of).1) } else if *f == w.other_fp && actor == acct(5) { (true, Fx::default()) } else { (false, Fx::default()) },
		Batch(all, v) => { let mut o = Fx::default(); for n in v { let (ok, e) = n.exec(w, actor, fp_of); if ok { o.add(e) } else { return if *all { (false, Fx::default()) } else { (true, o) } } } (true, o) },
		Fee(a, m, n) => { if *a == XRP || matches!(**n, Fee(..)) { return (false, Fx::default()) } let (ok, mut e) = n.exec(w, actor, fp_of); if ok { e.fees.push((actor, *a, *m)); (true, e) } else { (false, Fx::default()) } },
		Evm { .. } => (true, Fx::default()),
	} }
	fn has_evm(&self) -> bool { match self { Evm { .. } => true, Fp(_, n) | Fee(_, _, n) => n.has_evm(), Batch(_, v) => v.iter().any(|n| n.has_evm()), _ => false } }
	fn evm_cost(&self) -> Option<Balance> { match self { Evm { gas, max, prio, .. } => { let g = U256::from(*gas); let total = g.checked_mul(base_fee().checked_add(prio.unwrap_or_default())?)?; let m = g.checked_mul(*max)?; if total > m { None } else { Some(ceil6(m)) } }, _ => None } }
}
fn ceil6(v: U256) -> Balance { let u = U256::from(10u64.pow(12)); let q = v / u + if (v % u).is_zero() { U256::zero() } else { U256::one() }; q.min(U256::from(u128::MAX)).as_u128() }
fn setup(rng: &mut Rng) -> World {
	let mut tokens = vec![ROOT];
	for (d, m) in [(6u8, 1u128), (18, 1), (0, 1000), (6, 1)] {
		assert_ok!(signed(acct(SUDO), Call::AssetsExt(pallet_assets_ext::Call::create_asset { name: b"pay".to_vec(), symbol: b"PAY".to_vec(), decimals: d, min_balance: Some(m), owner: None })));
		tokens.push(pallet_assets::Asset::<Runtime>::iter().map(|x| x.0).filter(|x| *x > 2 && !tokens.contains(x)).max().unwrap());
	}
	for t in &tokens[1..] { mint(*t, acct(SUDO), 1 << 100) }
	let xrp_left = |div: u128| START / div;
	for (i, t) in tokens.iter().enumerate() {
		if i == 4 && rng.chance(70) { continue } // no pool
		let (a, b) = match rng.below(4) { 0 => (START / 8, START / 8), 1 => (START / 40 + rng.below(1 << 30) as u128, 50_000 + rng.below(3_000_000) as u128), 2 => (10_000 + rng.below(5_000_000) as u128, xrp_left(10)), _ => (1 + rng.u128() % (START / 10), 100_000 + rng.u128() % (START / 10)) };
		assert_ok!(signed(acct(SUDO), Call::Dex(pallet_dex::Call::add_liquidity { token_a: *t, token_b: XRP, amount_a_desired: a.max(2000), amount_b_desired: b, amount_a_min: 1, amount_b_min: 1, to: None, deadline: None })));
	}
	assert_ok!(signed(acct(0), Call::Futurepass(pallet_futurepass::Call::create { account: acct(0) })));
	assert_ok!(signed(acct(5), Call::Futurepass(pallet_futurepass::Call::create { account: acct(5) })));
	let fp = pallet_futurepass::Holders::<Runtime>::get(acct(0)).unwrap(); let other_fp = pallet_futurepass::Holders::<Runtime>::get(acct(5)).unwrap();
	assert_ok!(<seed_runtime::impls::ProxyPalletProvider as pallet_futurepass::ProxyProvider<Runtime>>::add_delegate(&acct(SUDO), &fp, &acct(1), &1u8));
	mv(ROOT, acct(SUDO), fp, START / 50);
	for who in (0..6).map(acct).chain([fp]) { for t in &tokens[1..] { match rng.below(6) { 0 => {}, 1 => mint(*t, who, 1000 + rng.below(100_000) as u128), _ => mint(*t, who, START + rng.below(1 << 40) as u128) } } }
	if rng.chance(70) { mv(XRP, acct(SUDO), fp, START / 50) }
	for i in 0..6 { match rng.below(4) { 0 => mv(XRP, acct(i), acct(SUDO), START), 1 => mv(XRP, acct(i), acct(SUDO), START - 1 - rng.below(500_000) as u128), _ => {} } }
	World { tokens, fp, other_fp, fresh: 0, pot: seed_runtime::TxFeePot::account_id() }
}
fn delegate(a: AccountId) -> bool { a == acct(0) || a == acct(1) }
impl World {
	fn fresh(&mut self) -> AccountId { self.fresh += 1; acct(50_000 + self.fresh) }
	fn leaf(&mut self, rng: &mut Rng, actor: AccountId, evm: bool, avoid: AssetId) -> Node {
		if evm { return self.evm(rng, actor) }
		match rng.below(7) { 0 => Broke(self.fresh()), 1 => Rooted, 2 => Fp(self.other_fp, Box::new(Pay(ROOT, acct(3), 5))), _ => { let to = self.fresh(); let a = *rng.pick(&self.tokens); let a = if rng.chance(15) { XRP } else { a };
			// the amount is always affordable, whatever the exchange takes
			let v = min(a).max(1) + rng.below(40) as u128; if a != ROOT && (a == avoid || bal(a, actor) < START / 100) { Pay(ROOT, to, v) } else { Pay(a, to, v) } } }
	}
	fn evm(&mut self, rng: &mut Rng, _actor: AccountId) -> Node { let b = base_fee(); let max = match rng.below(8) { 0 => U256::from(rng.u64()) << rng.below(192) as usize, 1 => b / 2, 2 => b, _ => b + b * rng.below(3) + U256::from(rng.below(1 << 30)) }; let prio = match rng.below(5) { 0 => Some(U256::from(rng.below(1 << 20))), 1 => Some(max), 2 => Some(U256::zero()), _ => None };
		Evm { target: self.fresh(), value: rng.below(50) as u128, gas: *rng.pick(&[0, 21_000, 21_000, 100_000, 100_000, 300_000, u64::MAX]), max, prio } }
	fn gen(&mut self, rng: &mut Rng, actor: AccountId, avoid: AssetId, depth: u64) -> Node {
		match rng.below(if depth == 0 { 6 } else { 14 }) {
			0..=5 => { let evm = rng.chance(25); self.leaf(rng, actor, evm && depth > 0, avoid) },
			6 | 7 => { let n = rng.range(1, 3); Batch(rng.chance(50), (0..n).map(|_| self.gen(rng, actor, avoid, depth - 1)).collect()) },
			8..=11 => { let f = if rng.chance(90) { self.fp } else { self.other_fp }; if actor == self.fp { return self.leaf(rng, actor, false, avoid) } Fp(f, Box::new(self.gen(rng, f, avoid, depth - 1))) },
			12 => { let a = if rng.chance(25) { XRP } else { *rng.pick(&self.tokens) }; Fee(a, rng.u128() >> rng.below(128), Box::new(self.gen(rng, actor, avoid, depth - 1))) },
			_ => self.leaf(rng, actor, false, avoid),
		}
	}
}
fn bump(m: &mut Bal, a: AssetId, w: AccountId, plus: Balance, minus: Balance) { let e = m.entry((a, w)).or_insert(0); *e = (*e).checked_add(plus).and_then(|x| x.checked_sub(minus)).expect("model balance"); if *e == 0 { m.remove(&(a, w)); } }
/// accounts whose remainder below the minimum was swept along with a transfer
fn dust_of(after: &Bal, asset: AssetId, who: AccountId, pays: usize) -> Balance { if after.get(&(asset, who)).copied().unwrap_or(0) == 0 { min(asset).saturating_sub(1) * (1 + pays as u128) } else { 0 } }
fn dusty(m: &Bal) -> bool { m.iter().any(|((a, _), v)| *v < min(*a)) }
fn extrinsic(rng: &mut Rng, w: &mut World) {
	let u = rng.below(6); let who = acct(u); let asset = if rng.chance(4) { XRP } else { *rng.pick(&w.tokens) };
	let inner = w.gen(rng, who, asset, 2);
	let payer = match &inner { Fp(f, _) if *f == w.fp && delegate(who) => w.fp, Fp(f, _) if *f == w.other_fp && u == 5 => w.other_fp, _ => who };
	let evm_extra = match &inner { Fp(_, n) => n.evm_cost(), n => n.evm_cost() }.unwrap_or(0);
	let tip = if rng.chance(20) { rng.below(1000) as u128 } else { 0 };
	// find out the fee, then choose the maximum around the quote
	let mut max = rng.u128() >> rng.below(128);
	let build = |max: Balance| -> Call { Fee(asset, max, Box::new(inner.clone())).call(who) };
	let price = |c: &Call| -> Balance { let x = sign_with(&pair(u), c.clone(), nonce(who), tip); pallet_transaction_payment::Pallet::<Runtime>::compute_fee(x.encode().len() as u32, &c.get_dispatch_info(), tip) };
	let need = |f: Balance| f.saturating_add(evm_extra).saturating_add(if liquid(XRP, payer).max(bal(XRP, payer)) < 1 { 1 } else { 0 });
	if let Some(q) = quote(asset, need(price(&build(max)))) { max = match rng.below(8) { 0 => q, 1 => q - 1, 2 => q + 1, 3 => q / 2, 4 => rng.u128() % q.max(1), 5 => u128::MAX, _ => q.saturating_mul(2) } }
	let c = build(max); let fee = price(&c); let need = need(fee);
	let q = quote(asset, need);
	let text = format!("{u} pays in {asset} at most {max} (fee {fee} tip {tip} need {need} quote {q:?} has {} pool {:?}): {inner:?}", liquid(asset, payer), reserves(asset)); vk::op(text.clone());
	let can = q.map_or(false, |q| q <= max && q <= liquid(asset, payer));
	System::reset_events(); let before = balances(); let st = state();
	let x = sign_with(&pair(u), c, nonce(who), tip);
	let valid = vk::guard("validate", || pool(x.clone()));
	ensure!(["C23"], state() == st, "validate-effect", "{text}: validation left a trace");
	let o = vk::guard("apply", || apply(x));
	ensure!(["C23"], valid.is_ok() == !o.invalid(), "pool-block", "{text}: pool {valid:?}, block {o:?}");
	let fuzzy = q.map_or(false, |q: Balance| { let rest = bal(asset, payer).saturating_sub(q); rest > 0 && rest < min(asset) }) || fee == 0;
	if o.invalid() { ensure!(["C23"], !can || fuzzy, "refused", "{text}: refused with {o:?}"); ensure!(["C23"], state() == st, "invalid-effect", "{text}: refused, yet {}", diff(&before, &balances())); vk::hit("refused"); if q.map_or(false, |q| q > max) { vk::hit("above_maximum") } return }
	ensure!(["C23"], can, "charged", "{text}: admitted although the exchange cannot meet it; {}", diff(&before, &balances()));
	vk::hit("admitted"); if payer != who { vk::hit("futurepass_pays") } if xrp_of(&before, payer) == 0 { vk::hit("no_xrp_before") }
	let q = q.unwrap(); let mut after = balances(); let pl = pool_of(asset);
	let (ok, fx) = inner.exec(w, who, &|a| a == w.fp || delegate(a));
	let got = |m: &Bal, a: AssetId, x: AccountId| m.get(&(a, x)).copied().unwrap_or(0);
	if inner.has_evm() {
		// gas depends on what runs: look at the exchange alone
		let swaps: Vec<_> = events().into_iter().filter_map(|e| if let RuntimeEvent::Dex(pallet_dex::Event::Swap(t, p, i, out, to)) = e { Some((t, p, i, out, to)) } else { None }).collect();
		ensure!(["C23"], swaps == vec![(payer, vec![asset, XRP], q, need, payer)], "exchange", "{text}: exchanges {swaps:?}");
		ensure!(["C23"], got(&after, asset, pl) == got(&before, asset, pl) + q && got(&after, XRP, pl) + need == got(&before, XRP, pl), "exchange-pool", "{text}: {}", diff(&before, &after));
		ensure!(["C23"], got(&before, asset, payer) <= got(&after, asset, payer) + q + dust_of(&after, asset, payer, fx.pays.len()) + fx.pays.iter().filter(|p| p.0 == asset && p.1 == payer).map(|p| p.3).sum::<u128>() + if asset == XRP { u128::MAX / 2 } else { 0 } || fuzzy, "overcharged", "{text}: {}", diff(&before, &after));
		let sum = |m: &Bal| m.iter().filter(|(k, _)| k.0 == XRP).map(|(_, v)| *v).sum::<u128>(); ensure!(["C23"], sum(&before) >= sum(&after) && sum(&before) - sum(&after) <= 2, "xrp-conserved", "{text}: {}", diff(&before, &after));
		vk::hit("evm_inside"); return
	}
	ensure!(["C23"], o.ok() == (ok && !matches!(inner, Fee(..))), "inner", "{text}: {o:?}");
	let fx = if o.ok() { fx } else { Fx::default() };
	if !o.ok() { vk::hit("inner_failed") } else { vk::hit("inner_ran") }
	let evs: Vec<_> = events().into_iter().filter_map(|e| if let RuntimeEvent::FeeProxy(pallet_fee_proxy::Event::CallWithFeePreferences { who, payment_asset, max_payment }) = e { Some((who, payment_asset, max_payment)) } else { None }).collect();
	let mut want = fx.fees.clone(); if o.ok() { want.push((who, asset, max)) }
	ensure!(["C23"], evs == want, "event", "{text}: events {evs:?}, expected {want:?}");
	let actual = events().into_iter().find_map(|e| if let RuntimeEvent::TransactionPayment(pallet_transaction_payment::Event::TransactionFeePaid { actual_fee, .. }) = e { Some(actual_fee) } else { None }).unwrap_or(0);
	// the whole ledger, account by account
	// (the exchange may also give liquidity tokens to the network, which C01 watches)
	let mut m = before.clone(); let ours = |k: &(AssetId, AccountId), _: &mut Balance| k.0 == XRP || w.tokens.contains(&k.0); m.retain(ours); after.retain(ours);
	bump(&mut m, asset, payer, 0, q); bump(&mut m, asset, pl, q, 0); bump(&mut m, XRP, pl, 0, need); bump(&mut m, XRP, payer, need, fee);
	let live = m.contains_key(&(XRP, who));
	for (a, from, to, v) in &fx.pays { bump(&mut m, *a, *from, 0, *v); bump(&mut m, *a, *to, *v, 0) }
	let back = fee.saturating_sub(actual); if live && m.contains_key(&(XRP, who)) { bump(&mut m, XRP, who, back, 0); bump(&mut m, XRP, w.pot, fee - back, 0) } else { bump(&mut m, XRP, w.pot, fee, 0) }
	ensure!(["C23"], after == m || fuzzy || dusty(&m), "ledger", "{text}: expected -> seen {}", diff(&m, &after));
	if back > 0 { vk::hit("refund") } if fx.pays.iter().any(|p| p.1 == w.fp) { vk::hit("ran_as_futurepass") }
	// an account brought below the minimum balance loses the rest with the last payment
	let dust = dust_of(&after, asset, payer, fx.pays.len());
	ensure!(["C23"], got(&before, asset, payer) - got(&after, asset, payer).min(got(&before, asset, payer)) <= max.saturating_add(dust).saturating_add(fx.pays.iter().filter(|p| p.0 == asset && p.1 == payer).map(|p| p.3).sum::<u128>()) || fuzzy, "maximum", "{text}: {}", diff(&before, &after));
	vk::state(&(asset, payer == who, q * 64 / max.max(1).min(u128::MAX / 64), ok));
}
fn xrp_of(m: &Bal, a: AccountId) -> Balance { m.get(&(XRP, a)).copied().unwrap_or(0) }
fn ethereum(rng: &mut Rng, w: &mut World) {
	let u = rng.below(6); let who = acct(u); let asset = if rng.chance(4) { XRP } else { *rng.pick(&w.tokens) }; let old = rng.chance(30);
	let by_call = rng.chance(25); // EVM::call rather than an ethereum transaction
	let b = base_fee(); let unit = U256::from(10u64.pow(12));
	let gas = *rng.pick(&[21_000u64, 21_000, 21_001, 100_000, 100_000, 99_999, 400_000]);
	let prio = match rng.below(4) { 0 => U256::from(rng.below(1 << 34)), 1 => U256::from(rng.below(1 << 22)), _ => U256::zero() };
	let mut max = match rng.below(9) { 0 => b + prio, 1 => b + prio + U256::from(rng.below(60_000_000)), 2 => (b + prio) * 3, 3 => b * 50, 4 => U256::from(rng.u64()) << rng.below(192) as usize, 5 => b, _ => b * 2 + prio }; if max < prio && rng.chance(80) { max = prio + b }
	let to = w.fresh(); let data = if rng.chance(50) { vec![] } else { let n = rng.below(40) as usize; rng.bytes(n) };
	let value = match rng.below(4) { 0 => 0, 1 => START, _ => rng.below(50) as u128 };
	let total = U256::from(gas).checked_mul(b + prio); let cap = U256::from(gas).checked_mul(max);
	let fits = matches!((total, cap), (Some(t), Some(m)) if t <= m);
	let (t6, m6) = (total.map_or(u128::MAX, ceil6), cap.map_or(u128::MAX, ceil6));
	let q = if fits { quote(asset, m6) } else { None };
	let junk = rng.chance(6); let mut input = crate::maint::fee_input(asset, h(to), data.clone(), old);
	if junk { match rng.below(4) { 0 => input.truncate(rng.below(100) as usize), 1 => input[0] ^= 1, 2 => input[4 + 12] ^= 0x80, _ => input = vec![] } }
	let can = !junk && fits && q.map_or(false, |q| q <= liquid(asset, who));
	let text = format!("evm {u} pays in {asset} gas {gas} max {max} prio {prio} value {value} old {old} junk {junk} by_call {by_call} (total {t6} cap {m6} quote {q:?} has {} xrp {} pool {:?})", liquid(asset, who), xrp(who), reserves(asset)); vk::op(text.clone());
	let fproxy = H160::from_low_u64_be(FEE_PROXY_ADDRESS); let wei = U256::from(value) * unit;
	let n = EVM::account_basic(&h(who)).0.nonce.low_u64();
	System::reset_events(); let before = balances(); let st = state(); let out_x = q.map_or(0, |q| gain(asset, q));
	let (o, valid) = if by_call { (vk::guard("call", || { System::reset_events(); pallet_evm::runner::stack::take_calls(); match frame_support::storage::with_storage_layer(|| -> DispatchResult { Call::EVM(pallet_evm::Call::call { source: h(who), target: fproxy, input, value: wei, gas_limit: gas, max_fee_per_gas: max, max_priority_fee_per_gas: Some(prio), nonce: None, access_list: vec![] }).dispatch(RuntimeOrigin::signed(who)).map(|_| ()).map_err(|e| e.error) }) { Ok(()) => Out::Ok, Err(e) => Out::Failed(e) } }), None) }
		else { let x = eth_tx(h(who), Some(fproxy), input, wei, gas, max, prio, n); let v = vk::guard("validate", || pool(x.clone())); ensure!(["C23"], state() == st, "validate-effect", "{text}"); (vk::guard("apply", || apply(x)), Some(v)) };
	let after = balances();
	if let Some(v) = &valid { if v.is_ok() { ensure!(["C23"], o.ok(), "pool-block", "{text}: the pool took it, the block {o:?}"); vk::hit("pool_took") } }
	if !o.ok() { ensure!(["C23"], before == after, "failed-effect", "{text}: {o:?}, yet {}", diff(&before, &after)); vk::hit("evm_refused");
		let admissible = (!by_call || xrp_of(&before, who) + out_x > m6.saturating_add(value + 1)) && max >= b && prio <= max && prio <= max.saturating_sub(b);
		ensure!(["C23"], !(can && admissible), "evm-failed", "{text}: {o:?}"); return }
	ensure!(["C23"], can, "evm-charged", "{text}: went ahead; {}", diff(&before, &after));
	let q = q.unwrap(); let pl = pool_of(asset); let got = |m: &Bal, a: AssetId, x: AccountId| m.get(&(a, x)).copied().unwrap_or(0);
	ensure!(["C23"], out_x >= m6, "funds", "{text}: {q} buys only {out_x}");
	let rest = got(&before, asset, who) - q; let fuzzy = rest > 0 && rest < min(asset);
	ensure!(["C23"], got(&after, asset, who) == rest || fuzzy, "asset-cost", "{text}: {}", diff(&before, &after));
	ensure!(["C23"], got(&after, asset, pl) == got(&before, asset, pl) + q || fuzzy, "pool-in", "{text}: {}", diff(&before, &after));
	ensure!(["C23"], got(&after, XRP, pl) + out_x == got(&before, XRP, pl), "pool-out", "{text}: {}", diff(&before, &after));
	let calls = pallet_evm::runner::stack::take_calls();
	ensure!(["C23"], calls.len() == 1 && calls[0].source == h(who) && calls[0].target == Some(h(to)) && calls[0].input == data && calls[0].value == wei, "evm-inner", "{text}: ran {calls:?}");
	let moved = got(&after, XRP, to); let ran = if by_call { events().iter().any(|e| matches!(e, RuntimeEvent::EVM(pallet_evm::Event::Executed { .. }))) } else { eth_ok() == Some(true) };
	ensure!(["C23"], moved == if ran { value } else { 0 }, "evm-value", "{text}: moved {moved}, ran {ran}");
	// gas is paid in XRP, out of what the exchange brought
	let funds = got(&before, XRP, who) + out_x; let kept = got(&after, XRP, who) + moved; let paid = funds.checked_sub(kept);
	ensure!(["C23"], paid.map_or(false, |p| p <= m6 && p >= 1), "gas", "{text}: {} ", diff(&before, &after));
	let others: u128 = after.iter().filter(|((a, x), _)| *a == XRP && ![who, pl, to].contains(x)).map(|(k, v)| v - before.get(k).copied().unwrap_or(0).min(*v)).sum();
	ensure!(["C23"], others <= paid.unwrap() && paid.unwrap() - others <= 1, "gas-income", "{text}: paid {paid:?}, received {others}");
	ensure!(["C23"], got(&after, XRP, w.pot) > got(&before, XRP, w.pot), "pot", "{text}: {}", diff(&before, &after));
	vk::hit("evm_paid"); if old { vk::hit("evm_old_selector") } if by_call { vk::hit("evm_by_call") } if got(&before, XRP, who) == 0 { vk::hit("evm_no_xrp") } if m6 - t6 == 1 { vk::hit("one_drop_apart") }
}
fn step(rng: &mut Rng, w: &mut World) {
	match rng.below(100) {
		0..=49 => extrinsic(rng, w),
		50..=84 => ethereum(rng, w),
		85..=92 => { let a = *rng.pick(&w.tokens); if let Some((i, o)) = reserves(a) { let fwd = rng.chance(50); let v = 1 + rng.u128() % (if fwd { i } else { o }); let path = if fwd { vec![a, XRP] } else { vec![XRP, a] }; if bal(path[0], acct(SUDO)) > v * 2 { let r = signed(acct(SUDO), Call::Dex(pallet_dex::Call::swap_with_exact_supply { amount_in: v, amount_out_min: 0, path, to: None, deadline: None })); vk::op(format!("trade {a} {fwd} {v} {r:?}")); if r.is_ok() { vk::hit("trade") } } } },
		93..=96 => { let who = if rng.chance(20) { w.fp } else { acct(rng.below(6)) }; let t = *rng.pick(&w.tokens); if t != ROOT { let have = bal(t, who); if have > START / 2 && rng.chance(40) { mv(t, who, acct(SUDO), have - rng.below(200_000).max(2000) as u128) } else if have < START { mint(t, who, START) } vk::op(format!("refill {who:?} {t}")); } },
		97 | 98 => { let who = if rng.chance(20) { w.fp } else { acct(rng.below(6)) }; let x = bal(XRP, who); if x > 0 { let keep = *rng.pick(&[0, 0, 1, 2, 1000]); if x > keep { mv(XRP, who, acct(SUDO), x - keep); vk::op(format!("drain XRP of {who:?} to {keep}")); vk::hit("drained") } } else { mv(XRP, acct(SUDO), who, 1 + rng.below(1_000_000) as u128) } },
		_ => { let t = *rng.pick(&w.tokens); let on = rng.chance(70); let r = if on { root(Call::Dex(pallet_dex::Call::reenable_trading_pair { token_a: t, token_b: XRP })) } else { root(Call::Dex(pallet_dex::Call::disable_trading_pair { token_a: t, token_b: XRP })) }; vk::op(format!("pair {t} enabled {on}: {r:?}")); if r.is_ok() { vk::hit("pair_toggled") } },
	}
}
pub fn run() {
	vk::episodes(vk::tier(700, 5000), |_, rng| chain(6, || { let mut w = setup(rng); for _ in 0..vk::tier(60, 120) { step(rng, &mut w) } }));
}
pub const REQUIRED: &[&str] = &["admitted", "refused", "above_maximum", "futurepass_pays", "no_xrp_before", "inner_ran", "inner_failed", "ran_as_futurepass", "evm_inside", "evm_paid", "evm_refused", "evm_old_selector", "evm_by_call", "evm_no_xrp", "pool_took", "trade", "drained", "one_drop_apart"];
