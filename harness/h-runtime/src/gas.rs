//! C40: what a transaction costs, who pays it and where it goes.
//! The gas used (or the weight) is the interpreter's business; from it the whole XRP ledger after the transaction follows.
use crate::rt::*;
use crate::tokens::{call, e20, u, a};
use crate::*;
use frame_support::dispatch::GetDispatchInfo;
use frame_support::traits::tokens::{Fortitude, Preservation};
use pallet_ethereum::{EIP1559Transaction, EIP2930Transaction, LegacyTransaction, Transaction, TransactionAction};
struct World { fp: AccountId, other_fp: AccountId, fresh: u64, pot: AccountId, author: Option<AccountId>, reverting: H160 }
const UNIT: u64 = 1_000_000_000_000;
const P: [&str; 1] = ["C40"];
const Q: [&str; 2] = ["C40", "C34"]; // C34: the arithmetic alone
fn mv(from: AccountId, to: AccountId, v: Balance) { assert_ok!(<AssetsExt as frame_support::traits::fungibles::Mutate<AccountId>>::transfer(XRP, &from, &to, v, Preservation::Expendable)); }
fn h2a(x: H160) -> AccountId { x.into() }
fn ceil6(v: U256) -> Balance { let q = v / UNIT + if (v % UNIT).is_zero() { 0 } else { 1 }; q.min(U256::from(u128::MAX)).as_u128() }
fn floor6(v: U256) -> Balance { (v / UNIT).min(U256::from(u128::MAX)).as_u128() }
fn free(w: AccountId) -> Balance { <AssetsExt as frame_support::traits::fungibles::Inspect<AccountId>>::reducible_balance(XRP, &w, Preservation::Expendable, Fortitude::Polite) }
fn got(m: &Bal, w: AccountId) -> Balance { m.get(&(XRP, w)).copied().unwrap_or(0) }
fn add(m: &mut Bal, w: AccountId, v: Balance) { if v > 0 { *m.entry((XRP, w)).or_insert(0) += v } }
fn sub(m: &mut Bal, w: AccountId, v: Balance) { let e = m.entry((XRP, w)).or_insert(0); *e -= v; if *e == 0 { m.remove(&(XRP, w)); } }
fn setup(rng: &mut Rng) -> World {
	for i in [0, 5] { assert_ok!(signed(acct(i), Call::Futurepass(pallet_futurepass::Call::create { account: acct(i) }))); }
	let fp = pallet_futurepass::Holders::<Runtime>::get(acct(0)).unwrap(); let other_fp = pallet_futurepass::Holders::<Runtime>::get(acct(5)).unwrap();
	assert_ok!(<seed_runtime::impls::ProxyPalletProvider as pallet_futurepass::ProxyProvider<Runtime>>::add_delegate(&acct(SUDO), &fp, &acct(1), &1u8));
	for f in [fp, other_fp] { mv(acct(SUDO), f, START / 60); assert_ok!(Balances::transfer(RuntimeOrigin::signed(acct(SUDO)), f, START / 60)); }
	let reverting = H160::from_low_u64_be(0xdead_0000 + rng.below(1000)); EVM::create_account(reverting, vec![pallet_evm::exec::Step::Revert].encode());
	seed_runtime::AUTHOR.with(|x| x.set(0));
	World { fp, other_fp, fresh: 0, pot: TxFeePot::account_id(), author: Some(acct(VALIDATOR)), reverting }
}
impl World {
	fn fresh(&mut self) -> AccountId { self.fresh += 1; acct(60_000 + self.fresh) }
	fn holds(&self, f: AccountId, who: AccountId) -> bool { f == self.fp && (who == acct(0) || who == acct(1)) || f == self.other_fp && who == acct(5) }
}
/// the calls a native transaction may carry: (call, does it work, XRP and ROOT payments it makes)
#[derive(Clone, Debug)]
enum Act { Pay(AccountId, Balance), Remark, Broke, Rooted, Pass(AccountId, Box<Act>), Batch(bool, Vec<Act>) }
impl Act {
	fn gen(rng: &mut Rng, w: &mut World, depth: u64) -> Act { match rng.below(if depth == 0 { 6 } else { 12 }) {
		0 | 1 => Act::Pay(if rng.chance(50) { w.fresh() } else { acct(rng.below(6)) }, 1 + rng.below(50) as u128), 2 | 3 => Act::Remark, 4 => Act::Broke, 5 => Act::Rooted,
		6..=9 => Act::Pass(if rng.chance(80) { w.fp } else { w.other_fp }, Box::new(Act::gen(rng, w, depth - 1))),
		_ => Act::Batch(rng.chance(50), (0..rng.range(1, 3)).map(|_| Act::gen(rng, w, depth - 1)).collect()),
	} }
	fn call(&self) -> Call { match self {
		Act::Pay(to, v) => Call::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: XRP, destination: *to, amount: *v, keep_alive: false }),
		Act::Remark => Call::System(frame_system::Call::remark_with_event { remark: vec![7; 9] }),
		Act::Broke => Call::Balances(pallet_balances::Call::transfer { dest: acct(3), value: u128::MAX / 3 }),
		Act::Rooted => Call::MaintenanceMode(pallet_maintenance_mode::Call::enable_maintenance_mode { enabled: true }),
		Act::Pass(f, n) => Call::Futurepass(pallet_futurepass::Call::proxy_extrinsic { futurepass: *f, call: Box::new(n.call()) }),
		Act::Batch(all, v) => { let calls = v.iter().map(|c| c.call()).collect(); Call::Utility(if *all { pallet_utility::Call::batch_all { calls } } else { pallet_utility::Call::batch { calls } }) },
	} }
	/// run on the ledger model; false leaves it alone
	fn run(&self, w: &World, actor: AccountId, m: &mut Bal) -> bool { match self {
		Act::Pay(to, v) => if got(m, actor) >= *v { sub(m, actor, *v); add(m, *to, *v); true } else { false },
		Act::Remark => true, Act::Broke | Act::Rooted => false,
		Act::Pass(f, n) => if w.holds(*f, actor) { let mut c = m.clone(); if n.run(w, *f, &mut c) { *m = c } true } else { false },
		Act::Batch(all, v) => { let mut c = m.clone(); for n in v { let mut d = c.clone(); if n.run(w, actor, &mut d) { c = d } else if *all { return false } else { break } } *m = c; true },
	} }
}
fn native(rng: &mut Rng, w: &mut World) {
	let i = rng.below(6); let who = acct(i); let act = if rng.chance(40) { let f = if rng.chance(75) { w.fp } else { w.other_fp }; Act::Pass(f, Box::new(Act::gen(rng, w, 1))) } else { Act::gen(rng, w, 2) };
	let c = act.call(); let tip = match rng.below(4) { 0 => rng.below(5000) as u128, 1 => rng.below(5) as u128, _ => 0 };
	let n = nonce(who); let wrong = if rng.chance(4) { *rng.pick(&[-1i64, 1]) } else { 0 };
	let x = sign_with(&pair(i), c.clone(), (n as i64 + wrong).max(0) as u32, tip); let wrong = wrong != 0 && !(wrong < 0 && n == 0);
	let fee = pallet_transaction_payment::Pallet::<Runtime>::compute_fee(x.encode().len() as u32, &c.get_dispatch_info(), tip);
	let payer = match &act { Act::Pass(f, _) if w.holds(*f, who) => *f, _ => who };
	if rng.chance(25) { // just about enough
		let want = match rng.below(5) { 0 => fee, 1 => fee + 1, 2 => fee - 1, 3 => 1 + rng.u128() % fee, _ => fee + rng.below(60) as u128 }; let have = xrp(payer);
		if have > want { mv(payer, acct(SUDO), have - want) } else if want > have { mv(acct(SUDO), payer, want - have) } vk::hit("edge");
	}
	let can = xrp(payer) >= fee + 1;
	let text = format!("native {i} {act:?} tip {tip} fee {fee}: payer {payer:?} has {} (signer {})", xrp(payer), xrp(who)); vk::op(text.clone());
	System::reset_events(); let before = balances(); let st = state(); let era = TxFeePot::era_pot_balance();
	let o = vk::guard("apply", || apply(x)); let after = balances();
	if o.invalid() { ensure!(P, !can || wrong, "refused", "{text}: {o:?}"); ensure!(P, state() == st, "refused-effect", "{text}: {}", diff(&before, &after)); vk::hit("native_refused"); return }
	ensure!(P, can && !wrong, "admitted", "{text}: {o:?}");
	let actual = events().into_iter().find_map(|e| if let RuntimeEvent::TransactionPayment(pallet_transaction_payment::Event::TransactionFeePaid { who, actual_fee, tip }) = e { Some((who, actual_fee, tip)) } else { None });
	let Some((ew, actual, et)) = actual else { vk::fail("C40", format!("{text}: no fee recorded")) };
	ensure!(P, ew == who && et == tip && actual <= fee && actual >= tip, "fee-event", "{text}: recorded {ew:?} {actual} {et}");
	let mut m = before.clone(); sub(&mut m, payer, fee);
	let ok = act.run(w, who, &mut m);
	ensure!(P, o.ok() == ok, "ran", "{text}: {o:?}");
	let back = fee - actual;
	add(&mut m, who, back); add(&mut m, w.pot, fee - back);
	ensure!(P, after == m, "ledger", "{text}: refund {back}: expected -> seen {}", diff(&m, &after));
	ensure!(Q, TxFeePot::era_pot_balance() == era + fee - back, "era", "{text}: era fees {era} -> {}", TxFeePot::era_pot_balance());
	ensure!(P, nonce(who) == n + 1, "nonce", "{text}: nonce {n} -> {}", nonce(who));
	vk::hit(if ok { "native_paid" } else { "native_failed_paid" }); if payer != who { vk::hit("futurepass_paid"); if xrp(who) < fee { vk::hit("signer_without_xrp") } } else if matches!(act, Act::Pass(..)) { vk::hit("stranger_paid") } if tip > 0 { vk::hit("native_tip") } if back > 0 { vk::hit("native_refund") }
	vk::state(&(0u8, payer != who, ok, 128 - tip.leading_zeros(), 128 - fee.leading_zeros(), 128 - back.leading_zeros()));
}
fn ethereum(rng: &mut Rng, w: &mut World) {
	let i = rng.below(6); let who = acct(i); let b = base_fee(); let by_call = rng.chance(15);
	let gas = match rng.below(8) { 0 => 20_999, 1 => 21_000, 2 => 21_001, 3 => seed_runtime::BlockGasLimit::get().low_u64() + rng.below(2), _ => 100_000 + rng.below(400_000) };
	let extra = |rng: &mut Rng| match rng.below(6) { 0 => U256::zero(), 1 => U256::from(rng.below(1 << 24)), 2 => U256::from(rng.below(1 << 34)), 3 => U256::from(UNIT) * rng.below(3), 4 => U256::one(), _ => U256::from(rng.below(1 << 40)) };
	let kind = if by_call { 2 } else { rng.below(4).min(2) };
	let (max, prio) = match kind { 2 => { let p = extra(rng); let m = match rng.below(6) { 0 => b, 1 => b + p, 2 => b + p / 2, 3 => b.saturating_sub(U256::one()), 4 => U256::from(rng.u64()) << rng.below(190) as usize, _ => b * 2 + p }; (m, if rng.chance(4) { m + 1 } else { p }) }, _ => { let m = match rng.below(8) { 0 => b.saturating_sub(U256::one()), 1 => U256::from(rng.u64()) << rng.below(190) as usize, 2 => b, _ => b + extra(rng) }; (m, m) } };
	let (to, input) = match rng.below(10) { 0..=3 => (Some(h(w.fresh())), vec![]), 4 => (Some(h(acct(rng.below(6)))), rng.bytes(3)), 5 => (Some(w.reverting), vec![]), 6 => (Some(h(w.fp)), vec![]), 7 => (None, vec![Vec::<pallet_evm::exec::Step>::new().encode(), vec![1]].concat()), _ => (Some(e20(XRP)), vec![]) };
	let (sent, input) = if to == Some(e20(XRP)) { let (d, v) = (w.fresh(), 1 + rng.below(100) as u128); (Some((d, v)), call("transfer(address,uint256)", &[a(d), u(v)])) } else { (None, input) };
	let value = if sent.is_some() { U256::zero() } else { match rng.below(6) { 0 | 1 => U256::zero(), 2 => U256::from(rng.below(2 * UNIT)), 3 => U256::from(UNIT) * (START as u64), _ => U256::from(UNIT) * rng.below(100) } };
	let n = EVM::account_basic(&h(who)).0.nonce; let wrong_nonce = rng.chance(4); let nn = if wrong_nonce { if rng.chance(50) || n.is_zero() { n + 1 } else { n - 1 } } else { n };
	let chain: u64 = <seed_runtime::EVMChainId as Get<u64>>::get(); let wrong_chain = kind > 0 && !by_call && rng.chance(4); let chain_id = chain + wrong_chain as u64;
	let cap = max.checked_mul(U256::from(gas)).and_then(|c| c.checked_add(value));
	if let Some(c) = cap { if rng.chance(30) && c / UNIT < U256::from(START) { // just about enough
		let want = ceil6(c); let want = match rng.below(4) { 0 => want.saturating_sub(1), 1 => want + 1, _ => want }; let have = xrp(who);
		if have > want { mv(who, acct(SUDO), have - want) } else if want > have && xrp(acct(SUDO)) > want - have { mv(acct(SUDO), who, want - have) } vk::hit("edge");
	} }
	let have = free(who);
	let can = gas >= 21_000 && gas <= seed_runtime::BlockGasLimit::get().low_u64() && max >= b && prio <= max && !wrong_nonce && !wrong_chain && cap.map_or(false, |c| U256::from(have) * UNIT >= c);
	let text = format!("evm {i} kind {kind} by_call {by_call} to {to:?} sent {sent:?} value {value} gas {gas} max {max} prio {prio} base {b} nonce {n}/{nn} chain {chain_id} has {have} author {:?}", w.author); vk::op(text.clone());
	let action = to.map_or(TransactionAction::Create, TransactionAction::Call);
	let tx = match kind { 0 => Transaction::Legacy(LegacyTransaction { nonce: nn, gas_price: max, gas_limit: gas.into(), action, value, input: input.clone(), signer: Some(h(who)) }), 1 => Transaction::EIP2930(EIP2930Transaction { chain_id, nonce: nn, gas_price: max, gas_limit: gas.into(), action, value, input: input.clone(), signer: Some(h(who)) }), _ => Transaction::EIP1559(EIP1559Transaction { chain_id, nonce: nn, max_fee_per_gas: max, max_priority_fee_per_gas: prio, gas_limit: gas.into(), action, value, input: input.clone(), signer: Some(h(who)) }) };
	System::reset_events(); let before = balances(); let st = state(); let era = TxFeePot::era_pot_balance(); let sys = nonce(who);
	let o = if by_call {
		System::reset_events(); let source = h(who); let c = match to { Some(target) => pallet_evm::Call::call { source, target, input, value, gas_limit: gas, max_fee_per_gas: max, max_priority_fee_per_gas: Some(prio), nonce: Some(nn), access_list: vec![] }, None => pallet_evm::Call::create { source, init: input, value, gas_limit: gas, max_fee_per_gas: max, max_priority_fee_per_gas: Some(prio), nonce: Some(nn), access_list: vec![] } };
		match frame_support::storage::with_storage_layer(|| -> DispatchResult { Call::EVM(c).dispatch(RuntimeOrigin::signed(who)).map(|_| ()).map_err(|e| e.error) }) { Ok(()) => Out::Ok, Err(e) => Out::Failed(e) }
	} else {
		let x = || UncheckedExtrinsic::new_unsigned(RuntimeCall::Ethereum(pallet_ethereum::Call::transact { transaction: tx.clone() }));
		let v = vk::guard("validate", || pool(x())); ensure!(P, state() == st, "validate-effect", "{text}: validation left a trace");
		ensure!(P, v.is_ok() == can || (wrong_nonce && nn > n), "pool", "{text}: {v:?}"); vk::guard("apply", || apply(x()))
	};
	let after = balances();
	if !can { ensure!(P, !o.ok(), "admitted", "{text}: went ahead; {}", diff(&before, &after)); ensure!(P, by_call && before == after || state() == st, "refused-effect", "{text}: {}", diff(&before, &after)); vk::hit("evm_refused"); if cap.map_or(false, |c| ceil6(c) == have + 1) { vk::hit("evm_one_short") } return }
	ensure!(P, o.ok(), "refused", "{text}: {o:?}");
	let price = if max.is_zero() { U256::zero() } else { b + (max - b).min(prio) };
	let ran = if by_call { events().iter().any(|e| matches!(e, RuntimeEvent::EVM(pallet_evm::Event::Executed { .. } | pallet_evm::Event::Created { .. }))) } else { eth_ok() == Some(true) };
	let used = pallet_evm::exec::last_gas(); ensure!(P, used >= 21_000 && used <= gas, "harness", "{text}: used {used}");
	let mut m = before.clone(); let total = price * gas; let actual = price * used; let base = b * used;
	let held = ceil6(total); sub(&mut m, who, held);
	let v6 = ceil6(value); let mut out = 0;
	if ran { if let Some((d, v)) = sent { out = v; ensure!(P, got(&m, who) >= v, "sent-more", "{text}: sent {v} it did not have"); sub(&mut m, who, v); add(&mut m, d, v) } else if v6 > 0 { let d: AccountId = to.map_or_else(|| events().iter().find_map(|e| match e { RuntimeEvent::Ethereum(pallet_ethereum::Event::Executed { to, .. }) => Some(AccountId::from(*to)), RuntimeEvent::EVM(pallet_evm::Event::Created { address }) => Some(AccountId::from(*address)), _ => None }).expect("created"), |t| t.into()); out = if d == who { 0 } else { v6 }; if d != who && d != w.pot && Some(d) != w.author && d != h2a(H160::zero()) { ensure!(Q, got(&after, d) == got(&before, d) + v6, "value", "{text}: {d:?} got {} -> {}", got(&before, d), got(&after, d)) } sub(&mut m, who, v6); add(&mut m, d, v6) } }
	let alive = got(&m, who) > 0;
	let paid = got(&before, who) - got(&after, who).min(got(&before, who)); ensure!(P, paid >= out, "gain", "{text}: {}", diff(&before, &after)); let paid = paid - out;
	ensure!(Q, paid <= ceil6(total) && U256::from(paid) * UNIT < max.saturating_mul(U256::from(gas)).saturating_add(U256::from(UNIT)), "cap", "{text}: paid {paid} for {used} gas");
	ensure!(Q, paid == ceil6(actual) || paid == floor6(actual), "price", "{text}: paid {paid} for {used} gas at {price} ({})", ceil6(actual)); if !alive { vk::hit("evm_emptied") }
	let to_pot = got(&after, w.pot) - got(&before, w.pot).min(got(&after, w.pot));
	ensure!(Q, to_pot == paid.min(ceil6(base)) || to_pot == paid.min(floor6(base)), "base-fee", "{text}: paid {paid}, base fee {}, the pot got {to_pot}", ceil6(base));
	add(&mut m, who, held - paid.min(held)); add(&mut m, w.pot, to_pot);
	if paid > to_pot { let au = w.author.unwrap_or(H160::zero().into()); vk::hit(if w.author.is_none() { "tip_without_author" } else if got(&m, au) > 0 { "evm_tip" } else { "author_without_account" }); add(&mut m, au, paid - to_pot) }
	ensure!(P, after == m, "ledger", "{text}: paid {paid} base {to_pot}: expected -> seen {}", diff(&m, &after));
	ensure!(Q, TxFeePot::era_pot_balance() == era + to_pot, "era", "{text}: era fees {era} -> {}", TxFeePot::era_pot_balance());
	ensure!(P, nonce(who) == sys + 1, "nonce", "{text}: nonce {sys} -> {}", nonce(who));
	vk::hit(if ran { "evm_paid" } else { "evm_reverted_paid" }); vk::hit(["legacy", "eip2930", "eip1559"][kind as usize]); if by_call { vk::hit("evm_by_call") } if to.is_none() { vk::hit("evm_create") } if used < gas { vk::hit("evm_refund") } if !(actual % UNIT).is_zero() { vk::hit("fraction") } if ceil6(cap.unwrap()) == have { vk::hit("evm_exactly_enough") }
	vk::state(&(1u8, kind, ran, alive, paid > to_pot, w.author.is_some(), by_call, to.is_none(), 128 - paid.leading_zeros(), 128 - (paid - to_pot).leading_zeros(), used < gas, paid == ceil6(actual)));
}
/// a transaction that would make somebody else pay: an EVM call in another's name, a withdrawal out of the EVM
fn in_anothers_name(rng: &mut Rng, w: &mut World) {
	let i = rng.below(6); let mut victim = match rng.below(10) { 0 => w.fp, 1 => w.other_fp, _ => acct(rng.below(6)) }; if victim == acct(i) { victim = acct((i + 1) % 6) }
	let b = base_fee(); let value = if rng.chance(50) { U256::zero() } else { U256::from(UNIT) * rng.below(100) }; let source = h(victim); let to = h(w.fresh());
	let k = rng.below(4); let c = match k {
		0 => pallet_evm::Call::call { source, target: to, input: vec![], value, gas_limit: 100_000, max_fee_per_gas: b * 2, max_priority_fee_per_gas: None, nonce: None, access_list: vec![] },
		1 => pallet_evm::Call::create { source, init: [Vec::<pallet_evm::exec::Step>::new().encode(), vec![1]].concat(), value, gas_limit: 100_000, max_fee_per_gas: b * 2, max_priority_fee_per_gas: None, nonce: None, access_list: vec![] },
		2 => pallet_evm::Call::withdraw { address: source, value: 5 }, _ => pallet_evm::Call::withdraw { address: h(acct(i)), value: 5 } };
	let wrapped = rng.below(4); let c = Call::EVM(c); let c = match wrapped { 0 => c, 1 => Call::Utility(pallet_utility::Call::batch_all { calls: vec![c] }), 2 => Call::Futurepass(pallet_futurepass::Call::proxy_extrinsic { futurepass: w.fp, call: Box::new(c) }), _ => c };
	let text = format!("{i} in the name of {victim:?} kind {k} wrapped {wrapped} value {value}"); vk::op(text.clone());
	let proxied = wrapped == 2; let by = if proxied { w.fp } else { acct(i) }; if proxied && victim == w.fp { return }
	let before = balances(); let o = vk::guard("apply", || submit(i, c)); let after = balances();
	if o.invalid() { return }
	let ran = events().iter().any(|e| matches!(e, RuntimeEvent::EVM(pallet_evm::Event::Executed { .. } | pallet_evm::Event::ExecutedFailed { .. } | pallet_evm::Event::Created { .. } | pallet_evm::Event::CreatedFailed { .. })));
	ensure!(P, !ran && (!o.ok() || proxied), "spoofed", "{text}: {o:?}; {}", diff(&before, &after));
	for (key, v) in &before { if key.1 != acct(i) && key.1 != by && key.1 != w.pot { ensure!(P, got(&after, key.1) == *v || key.0 != XRP, "spoofed-paid", "{text}: {key:?} {v} -> {}", got(&after, key.1)) } }
	ensure!(P, !after.contains_key(&(XRP, to.into())), "spoofed-value", "{text}: {to:?} received"); vk::hit("in_anothers_name");
	vk::state(&(2u8, k, wrapped, o.ok()));
}
fn step(rng: &mut Rng, w: &mut World) {
	match rng.below(100) {
		38 | 39 => in_anothers_name(rng, w),
		0..=39 => native(rng, w),
		40..=84 => ethereum(rng, w),
		85..=89 => { let v = match rng.below(6) { 0 => U256::zero(), 1 => U256::from(rng.below(2 * UNIT)), 2 => U256::from(UNIT + 1), 3 => U256::from(1 + rng.below(1 << 20)), _ => U256::from(15 * UNIT) }; assert_ok!(root(Call::FeeControl(pallet_fee_control::Call::set_evm_base_fee { value: v }))); vk::op(format!("base fee {v}")) },
		90..=92 => { let k = rng.below(4); let au = match k { 0 => { seed_runtime::AUTHOR.with(|x| x.set(5)); None }, 1 => { pallet_session::Validators::<Runtime>::put(vec![acct(VALIDATOR), acct(7_000)]); seed_runtime::AUTHOR.with(|x| x.set(1)); Some(acct(7_000)) }, 2 => { pallet_session::Validators::<Runtime>::put(vec![acct(VALIDATOR - 1), acct(VALIDATOR)]); seed_runtime::AUTHOR.with(|x| x.set(1)); Some(acct(VALIDATOR)) }, _ => { pallet_session::Validators::<Runtime>::put(vec![acct(VALIDATOR)]); seed_runtime::AUTHOR.with(|x| x.set(0)); Some(acct(VALIDATOR)) } }; w.author = au; vk::op(format!("author {au:?}")); if au.is_none() { vk::hit("no_author") } },
		_ => { let who = match rng.below(8) { 6 => w.fp, 7 => w.other_fp, i => acct(i) }; let want = match rng.below(4) { 0 => 0, 1 => 1, _ => START / 60 + rng.below(1 << 20) as u128 }; let have = xrp(who); if have > want { mv(who, acct(SUDO), have - want) } else if have < want { mv(acct(SUDO), who, want - have) } vk::op(format!("{who:?} holds {want}")) },
	}
	// the payer of everything else stays solvent
	if xrp(acct(SUDO)) < START { assert_ok!(<AssetsExt as frame_support::traits::fungibles::Mutate<AccountId>>::mint_into(XRP, &acct(SUDO), START)); }
}
pub fn run() { vk::episodes(vk::tier(900, 6000), |_, rng| chain(6, || { let mut w = setup(rng); for _ in 0..vk::tier(60, 120) { step(rng, &mut w) } })); }
pub const REQUIRED: &[&str] = &["native_paid", "native_failed_paid", "native_refused", "futurepass_paid", "signer_without_xrp", "stranger_paid", "native_tip", "evm_paid", "evm_reverted_paid", "evm_refused", "evm_one_short", "evm_exactly_enough", "evm_emptied", "evm_tip", "author_without_account", "tip_without_author", "legacy", "eip2930", "eip1559", "evm_by_call", "in_anothers_name", "evm_create", "evm_refund", "fraction", "edge"];
