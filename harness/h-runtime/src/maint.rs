//! C25: what maintenance mode stops, and what it does not.
//! Every transaction is a tree of wrappers around leaf calls with observable effects; a model of the block lists decides
//! which leaves may run, and the effects seen on the chain must be exactly those.
use crate::env::*;
use crate::rt::*;
use crate::*;
type MCall = pallet_maintenance_mode::Call<Runtime>;
const PROTECTED: [&str; 5] = ["maintenancemode", "sudo", "timestamp", "imonline", "ethbridge"];
#[derive(Default, Clone, Debug)]
struct Lists { on: bool, accounts: BTreeSet<AccountId>, targets: BTreeSet<H160>, calls: BTreeSet<(String, String)>, pallets: BTreeSet<String> }
impl Lists {
	fn paused(&self, n: (&str, &str)) -> bool { let (p, f) = (n.0.to_lowercase(), n.1.to_lowercase()); !PROTECTED.contains(&&p[..]) && (self.pallets.contains(&p) || self.calls.contains(&(p, f))) }
	fn may_submit(&self, who: &AccountId, outer: (&str, &str)) -> bool { PROTECTED.contains(&&outer.0.to_lowercase()[..]) || (!self.on && !self.accounts.contains(who)) }
	fn may_evm(&self, who: &AccountId, targets: &[H160]) -> bool { !self.on && !self.accounts.contains(who) && targets.iter().all(|t| !self.targets.contains(t)) }
}
#[derive(Clone, Debug)]
enum Node {
	Remark(Vec<u8>), Pay(AccountId, u128), PayExt(AccountId, AssetId, u128), Collect(Vec<u8>), Pass(AccountId), Evm { source: AccountId, target: H160, via_fee: bool, value: u128 },
	Uri(Vec<u8>), Deploy { source: AccountId, code: Vec<u8>, salted: bool }, Erc { source: AccountId, asset: AssetId, via_fee: bool, to: AccountId, value: u128 },
	Batch(bool, Vec<Node>), Fp(AccountId, Box<Node>), Proxy(AccountId, Box<Node>), Fee(Box<Node>), Vault(u64, Box<Node>),
}
use Node::*;
struct World { fp: AccountId, token: AssetId, sale: u64, sale_coll: u32, fresh: u64 }
const FEE_PROXY: u64 = precompile_utils::constants::FEE_PROXY_ADDRESS;
pub fn fee_input(asset: AssetId, target: H160, data: Vec<u8>, old: bool) -> Vec<u8> {
	use precompile_utils::{Address, ErcIdConversion};
	let a: Address = <Runtime as ErcIdConversion<AssetId>>::runtime_id_to_evm_id(asset, precompile_utils::constants::ERC20_PRECOMPILE_ADDRESS_PREFIX);
	let a: H160 = a.into();
	let mut v = if old { vec![0x25, 0x5a, 0x34, 0x32] } else { vec![0xf6, 0x09, 0x82, 0x86] };
	let mut t = vec![ethabi::Token::Address(a)]; if old { t.push(ethabi::Token::Uint(U256::from(u64::MAX))) } t.push(ethabi::Token::Address(target)); t.push(ethabi::Token::Bytes(data));
	v.extend(ethabi::encode(&t)); v
}
impl Node {
	fn name(&self) -> (&'static str, &'static str) { match self {
		Remark(_) => ("System", "remark_with_event"), Pay(..) => ("Balances", "transfer"), PayExt(..) => ("AssetsExt", "transfer"), Collect(_) => ("Nft", "create_collection"), Pass(_) => ("Futurepass", "create"), Evm { .. } => ("EVM", "call"), Uri(_) => ("Nft", "set_base_uri"), Erc { .. } => ("EVM", "call"), Deploy { salted: false, .. } => ("EVM", "create"), Deploy { .. } => ("EVM", "create2"),
		Batch(false, _) => ("Utility", "batch"), Batch(true, _) => ("Utility", "batch_all"), Fp(..) => ("Futurepass", "proxy_extrinsic"), Proxy(..) => ("Proxy", "proxy"), Fee(_) => ("FeeProxy", "call_with_fee_preferences"), Vault(..) => ("Crowdsale", "proxy_vault_call") } }
	fn call(&self, w: &World) -> Call { match self {
		Remark(b) => Call::System(frame_system::Call::remark_with_event { remark: b.clone() }),
		Pay(to, v) => Call::Balances(pallet_balances::Call::transfer { dest: *to, value: *v }),
		PayExt(to, a, v) => Call::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: *a, destination: *to, amount: *v, keep_alive: false }),
		Collect(n) => Call::Nft(pallet_nft::Call::create_collection { name: n.clone().try_into().unwrap(), initial_issuance: 0, max_issuance: None, token_owner: None, metadata_scheme: seed_primitives::MetadataScheme::try_from(b"https://x/".as_slice()).unwrap(), royalties_schedule: None, cross_chain_compatibility: Default::default() }),
		Pass(a) => Call::Futurepass(pallet_futurepass::Call::create { account: *a }),
		Evm { source, target, via_fee, value } => { let (t, i) = if *via_fee { (H160::from_low_u64_be(FEE_PROXY), fee_input(w.token, *target, vec![], false)) } else { (*target, vec![]) };
			Call::EVM(pallet_evm::Call::call { source: h(*source), target: t, input: i, value: U256::from(*value) * 10u64.pow(12), gas_limit: 100_000, max_fee_per_gas: base_fee() * 2, max_priority_fee_per_gas: None, nonce: None, access_list: vec![] }) },
		Erc { source, via_fee, .. } => { let (t, i) = self.target(w); let (t, i) = if *via_fee { (H160::from_low_u64_be(FEE_PROXY), fee_input(w.token, t, i, false)) } else { (t, i) };
			Call::EVM(pallet_evm::Call::call { source: h(*source), target: t, input: i, value: U256::zero(), gas_limit: 200_000, max_fee_per_gas: base_fee() * 2, max_priority_fee_per_gas: None, nonce: None, access_list: vec![] }) },
		Deploy { source, code, salted } => { let (source, init, value, gas_limit, max_fee_per_gas) = (h(*source), code.clone(), U256::zero(), 200_000, base_fee() * 2);
			Call::EVM(if *salted { pallet_evm::Call::create2 { source, init, salt: H256::repeat_byte(code.len() as u8), value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas: None, nonce: None, access_list: vec![] } } else { pallet_evm::Call::create { source, init, value, gas_limit, max_fee_per_gas, max_priority_fee_per_gas: None, nonce: None, access_list: vec![] } }) },
		Uri(b) => Call::Nft(pallet_nft::Call::set_base_uri { collection_id: w.sale_coll, base_uri: b.clone() }),
		Batch(all, v) => { let calls = v.iter().map(|c| c.call(w)).collect(); Call::Utility(if *all { pallet_utility::Call::batch_all { calls } } else { pallet_utility::Call::batch { calls } }) },
		Fp(f, n) => Call::Futurepass(pallet_futurepass::Call::proxy_extrinsic { futurepass: *f, call: Box::new(n.call(w)) }),
		Proxy(r, n) => Call::Proxy(pallet_proxy::Call::proxy { real: *r, force_proxy_type: None, call: Box::new(n.call(w)) }),
		Fee(n) => Call::FeeProxy(pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: w.token, max_payment: 1_000_000_000, call: Box::new(n.call(w)) }),
		Vault(s, n) => Call::Crowdsale(pallet_crowdsale::Call::proxy_vault_call { sale_id: *s, call: Box::new(n.call(w)) }),
	} }
	fn target(&self, _w: &World) -> (H160, Vec<u8>) { match self { Erc { asset, to, value, .. } => { let mut i = sp_io::hashing::keccak_256(b"transfer(address,uint256)")[..4].to_vec(); i.extend(ethabi::encode(&[ethabi::Token::Address(h(*to)), ethabi::Token::Uint(U256::from(*value))])); (erc20(*asset), i) }, Evm { target, .. } => (*target, vec![]), _ => unreachable!() } }
	/// has this leaf happened?
	fn seen(&self, w: &World, ev: &[RuntimeEvent]) -> bool { match self {
		Remark(b) => { use sp_runtime::traits::Hash; let hh = sp_runtime::traits::BlakeTwo256::hash(b); ev.iter().any(|e| matches!(e, RuntimeEvent::System(frame_system::Event::Remarked { hash, .. }) if *hash == hh)) },
		Pay(to, v) => bal(ROOT, *to) == *v,
		PayExt(to, a, v) => bal(*a, *to) == *v,
		Collect(n) => pallet_nft::CollectionInfo::<Runtime>::iter().any(|(_, c)| c.name.to_vec() == *n),
		Pass(a) => pallet_futurepass::Holders::<Runtime>::contains_key(a),
		Evm { target, value, .. } => xrp((*target).into()) == *value,
		Erc { asset, to, value, .. } => bal(*asset, *to) == *value,
		Deploy { code, .. } => pallet_evm::AccountCodes::<Runtime>::iter().any(|(_, c)| c == *code),
		Uri(b) => ev.iter().any(|e| matches!(e, RuntimeEvent::Nft(pallet_nft::Event::BaseUriSet { base_uri, .. }) if base_uri == b)),
		_ => false } }
	fn leaves<'a>(&'a self, out: &mut Vec<&'a Node>) { match self { Batch(_, v) => v.iter().for_each(|n| n.leaves(out)), Fp(_, n) | Proxy(_, n) | Fee(n) | Vault(_, n) => n.leaves(out), l => out.push(l) } }
	/// (did the call return Ok, leaves whose effects persist)
	fn exec<'a>(&'a self, m: &Lists) -> (bool, Vec<&'a Node>) {
		if m.paused(self.name()) { return (false, vec![]) }
		match self {
			Evm { source, target, via_fee, .. } => { let mut t = vec![*target]; if *via_fee { t.push(H160::from_low_u64_be(FEE_PROXY)) } if m.may_evm(source, &t) { (true, vec![self]) } else { (false, vec![]) } },
			Erc { source, via_fee, asset, .. } => { let mut t = vec![erc20(*asset)]; if *via_fee { t.push(H160::from_low_u64_be(FEE_PROXY)) } if !m.may_evm(source, &t) { (false, vec![]) } else if m.paused(("AssetsExt", "transfer")) { (true, vec![]) } else { (true, vec![self]) } },
			Deploy { source, .. } => if m.may_evm(source, &[]) { (true, vec![self]) } else { (false, vec![]) },
			Batch(all, v) => { let mut o = vec![]; for n in v { let (ok, e) = n.exec(m); o.extend(e); if !ok { return if *all { (false, vec![]) } else { (true, o) } } } (true, o) },
			// a futurepass executes through the proxy pallet
			Fp(..) if m.paused(("Proxy", "proxy")) => (false, vec![]),
			Fp(_, n) | Proxy(_, n) => { let (_, e) = n.exec(m); (true, e) },
			Fee(n) | Vault(_, n) => n.exec(m),
			_ => (true, vec![self]),
		}
	}
	fn depth(&self) -> u64 { match self { Batch(_, v) => 1 + v.iter().map(|n| n.depth()).max().unwrap_or(0), Fp(_, n) | Proxy(_, n) | Fee(n) | Vault(_, n) => 1 + n.depth(), _ => 0 } }
}
fn erc20(asset: AssetId) -> H160 { use precompile_utils::{Address, ErcIdConversion}; let a: Address = <Runtime as ErcIdConversion<AssetId>>::runtime_id_to_evm_id(asset, precompile_utils::constants::ERC20_PRECOMPILE_ADDRESS_PREFIX); a.into() }
fn leaf(rng: &mut Rng, w: &mut World, actor: AccountId, proxied: bool, dn: bool) -> Node {
	w.fresh += 1; let fresh = acct(10_000 + w.fresh); let tag = format!("t{}", w.fresh).into_bytes();
	if dn { return match rng.below(3) { 0 => Pay(fresh, rng.range(1, 1000) as u128), 1 => PayExt(fresh, w.token, rng.range(1, 1000) as u128), _ => if proxied { Pay(fresh, 5) } else { Pass(fresh) } } }
	match rng.below(if proxied { 9 } else { 10 }) { 0 => Remark(tag), 1 => Pay(fresh, rng.range(1, 1000) as u128), 2 => PayExt(fresh, *rng.pick(&[ROOT, XRP, w.token]), rng.range(1, 1000) as u128), 3 => Collect(tag),
		4 => Evm { source: actor, target: h(fresh), via_fee: false, value: rng.range(1, 50) as u128 }, 5 => Evm { source: actor, target: h(fresh), via_fee: true, value: rng.range(1, 50) as u128 }, 6 | 7 => Erc { source: actor, asset: *rng.pick(&[ROOT, XRP, w.token]), via_fee: rng.chance(40), to: fresh, value: rng.range(1, 50) as u128 }, 8 => Deploy { source: actor, code: tag, salted: rng.chance(50) }, _ => Pass(fresh) }
}
fn gen(rng: &mut Rng, w: &mut World, actor: AccountId, depth: u64, proxied: bool, in_fee: bool) -> Node {
	if depth == 0 { return leaf(rng, w, actor, proxied, false) }
	loop { match rng.below(7) {
		0 => { let n = rng.range(1, 3); return Batch(rng.chance(50), (0..n).map(|_| { let d = rng.below(depth); gen(rng, w, actor, d, proxied, false) }).collect()) },
		1 if !proxied && (actor == acct(0) || actor == acct(1)) => { let fp = w.fp; return Fp(fp, Box::new(gen(rng, w, fp, depth - 1, true, false))) },
		2 if !proxied && (actor == acct(0) || actor == acct(1)) => { let fp = w.fp; return Proxy(fp, Box::new(gen(rng, w, fp, depth - 1, true, false))) },
		3 if !proxied && actor == acct(2) => return Proxy(acct(4), Box::new(gen(rng, w, acct(4), depth - 1, true, false))),
		4 if !in_fee => return Fee(Box::new(gen(rng, w, actor, depth - 1, proxied, true))),
		5 if actor == acct(3) => { w.fresh += 1; return Vault(w.sale, Box::new(Uri(format!("https://u{}/", w.fresh).into_bytes()))) },
		6 => return leaf(rng, w, actor, proxied, false),
		_ => {},
	} }
}
fn randcase(rng: &mut Rng, s: &str) -> Vec<u8> { s.bytes().map(|b| if rng.chance(50) { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() }).collect() }
const CALLS: [(&str, &str); 17] = [("System", "remark_with_event"), ("Balances", "transfer"), ("AssetsExt", "transfer"), ("Nft", "create_collection"), ("Nft", "set_base_uri"), ("Futurepass", "create"), ("Futurepass", "proxy_extrinsic"), ("Utility", "batch"), ("Utility", "batch_all"), ("Proxy", "proxy"), ("FeeProxy", "call_with_fee_preferences"), ("Crowdsale", "proxy_vault_call"), ("EVM", "call"), ("EVM", "create"), ("EVM", "create2"), ("Xrpl", "transact"), ("Doughnut", "transact")];
fn setup() -> World {
	// a payment asset with a deep pool
	assert_ok!(signed(acct(SUDO), Call::AssetsExt(pallet_assets_ext::Call::create_asset { name: b"pay".to_vec(), symbol: b"PAY".to_vec(), decimals: 6, min_balance: Some(1), owner: None })));
	let token = pallet_assets::Asset::<Runtime>::iter().map(|x| x.0).filter(|x| *x > 2).max().unwrap();
	for i in 0..7 { assert_ok!(<AssetsExt as frame_support::traits::fungibles::Mutate<AccountId>>::mint_into(token, &acct(i), START)); }
	assert_ok!(<AssetsExt as frame_support::traits::fungibles::Mutate<AccountId>>::mint_into(token, &acct(SUDO), START));
	assert_ok!(signed(acct(SUDO), Call::Dex(pallet_dex::Call::add_liquidity { token_a: token, token_b: XRP, amount_a_desired: START / 4, amount_b_desired: START / 4, amount_a_min: 1, amount_b_min: 1, to: None, deadline: None })));
	// a futurepass of user 0 with delegate 1
	assert_ok!(signed(acct(0), Call::Futurepass(pallet_futurepass::Call::create { account: acct(0) })));
	let fp = pallet_futurepass::Holders::<Runtime>::get(acct(0)).unwrap();
	for (a, v) in [(ROOT, START / 10), (XRP, START / 10), (token, START / 10)] { assert_ok!(<AssetsExt as frame_support::traits::fungibles::Mutate<AccountId>>::transfer(a, &acct(SUDO), &fp, v, frame_support::traits::tokens::Preservation::Expendable)); }
	assert_ok!(<seed_runtime::impls::ProxyPalletProvider as pallet_futurepass::ProxyProvider<Runtime>>::add_delegate(&acct(SUDO), &fp, &acct(1), &1u8.try_into().unwrap()));
	assert_ok!(seed_runtime::Proxy::add_proxy_delegate(&acct(4), acct(2), ProxyType::Any, 0));
	// a sale run by user 3
	assert_ok!(signed(acct(3), Node::Collect(b"sale".to_vec()).call(&World { fp, token, sale: 0, sale_coll: 0, fresh: 0 })));
	let sale_coll = pallet_nft::CollectionInfo::<Runtime>::iter().find(|(_, c)| c.owner == acct(3)).unwrap().0;
	let sale = pallet_crowdsale::NextSaleId::<Runtime>::get();
	assert_ok!(signed(acct(3), Call::Nft(pallet_nft::Call::set_max_issuance { collection_id: sale_coll, max_issuance: 100 })));
	assert_ok!(signed(acct(3), Call::Crowdsale(pallet_crowdsale::Call::initialize { payment_asset_id: token, collection_id: sale_coll, soft_cap_price: 10, sale_duration: 50, voucher_name: None, voucher_symbol: None })));
	for i in 0..6 { assert_ok!(root(Call::Doughnut(pallet_doughnut::Call::update_whitelisted_holders { holder: acct(i), add: true }))); }
	World { fp, token, sale, sale_coll, fresh: 0 }
}
/// change the block lists, as root or as somebody who may not
fn change(rng: &mut Rng, w: &World, m: &mut Lists) {
	let on = rng.chance(60);
	let intruder = rng.chance(12);
	let mut next = m.clone(); let mut refused = false;
	let bv = |v: Vec<u8>| -> BoundedVec<u8, <Runtime as pallet_maintenance_mode::Config>::StringLimit> { v.try_into().unwrap() };
	let c = match rng.below(10) {
		0 | 1 => { let on = rng.chance(35); next.on = on; vk::op(format!("maintenance {on}")); MCall::enable_maintenance_mode { enabled: on } },
		2 | 3 => { let a = if rng.chance(15) { acct(SUDO) } else if rng.chance(20) { w.fp } else { acct(rng.below(6)) }; if on { next.accounts.insert(a); } else { next.accounts.remove(&a); } vk::op(format!("block account {a:?} {on}")); MCall::block_account { account: a, blocked: on } },
		4 | 5 => { let fut = h(acct(10_000 + w.fresh + rng.range(1, 6))); let t = match rng.below(10) { 0 | 1 => H160::from_low_u64_be(FEE_PROXY), 2..=4 => erc20(*rng.pick(&[ROOT, XRP, w.token])), _ => fut }; if on { next.targets.insert(t); } else { next.targets.remove(&t); } vk::op(format!("block target {t:?} {on}")); MCall::block_evm_target { target_address: t, blocked: on } },
		6 | 7 => {
			let (p, f) = if rng.chance(10) { (*rng.pick(&["MaintenanceMode", "Sudo", "Timestamp", "ImOnline", "EthBridge"]), "set") } else if rng.chance(15) { (rng.pick(&CALLS).0, rng.pick(&CALLS).1) } else { *rng.pick(&CALLS) };
			let (pb, fb) = match rng.below(30) { 0 => (vec![], fb0(f)), 1 => (fb0(p), vec![]), 2 => (vec![0xff, 0xfe], fb0(f)), 3 => (fb0(p), vec![0xff]), _ => (randcase(rng, p), randcase(rng, f)) };
			refused = pb.is_empty() || fb.is_empty() || std::str::from_utf8(&pb).is_err() || std::str::from_utf8(&fb).is_err() || PROTECTED.contains(&&p.to_lowercase()[..]);
			if !refused { let k = (p.to_lowercase(), f.to_lowercase()); if on { next.calls.insert(k); } else { next.calls.remove(&k); } }
			vk::op(format!("block call {p}.{f} {on} refused {refused}"));
			MCall::block_call { pallet_name: bv(pb), call_name: bv(fb), blocked: on }
		},
		_ => {
			let p = if rng.chance(15) { *rng.pick(&["MaintenanceMode", "Sudo", "Timestamp", "ImOnline", "EthBridge"]) } else if rng.chance(10) { *rng.pick(&["Balance", "Syste", "Ethereum", "FeeProxyX"]) } else { rng.pick(&CALLS).0 };
			let pb = match rng.below(20) { 0 => vec![], 1 => vec![0xc3], _ => randcase(rng, p) };
			refused = pb.is_empty() || std::str::from_utf8(&pb).is_err() || PROTECTED.contains(&&p.to_lowercase()[..]);
			if !refused { if on { next.pallets.insert(p.to_lowercase()); } else { next.pallets.remove(&p.to_lowercase()); } }
			vk::op(format!("block pallet {p} {on} refused {refused}"));
			MCall::block_pallet { pallet_name: bv(pb), blocked: on }
		},
	};
	if PROTECTED.len() == 5 && refused { vk::hit("protected_or_malformed"); }
	if intruder {
		let u = rng.below(6);
		let o = submit(u, Call::MaintenanceMode(c));
		ensure!(["C25"], matches!(o, Out::Failed(DispatchError::BadOrigin)), "intruder", "user {u} changing the block lists: {o:?}");
		vk::hit("intruder_refused");
	} else {
		let r = sudo(Call::MaintenanceMode(c));
		ensure!(["C25"], r.is_ok() != refused, "list-change", "block list change by the sudo key: {r:?}, expected refusal: {refused}");
		if r.is_ok() { *m = next; vk::hit("list_changed"); }
	}
}
fn fb0(s: &str) -> Vec<u8> { s.as_bytes().to_vec() }
fn judge(w: &World, what: &str, n: &Node, expect: &[&Node], m: &Lists) {
	let ev = events(); let mut all = vec![]; n.leaves(&mut all);
	for l in all {
		let want = expect.iter().any(|e| std::ptr::eq(*e, l)); let got = l.seen(w, &ev);
		ensure!(["C25"], !got || want, "blocked-call-ran", "{what}: leaf {l:?} of {n:?} ran although the block lists {m:?} forbid it");
		ensure!(["C25"], got || !want, "allowed-call-stopped", "{what}: leaf {l:?} of {n:?} did not run although nothing in {m:?} forbids it; events {ev:?}");
		vk::hit(if want { "leaf_ran" } else { "leaf_blocked" });
		if want { vk::hit_s(format!("ran:{}", l.name().1)) }
	}
}
fn act(rng: &mut Rng, w: &mut World, m: &Lists) {
	let how = rng.below(10);
	if how < 5 {
		let u = rng.below(6); let d = rng.below(4); let n = gen(rng, w, acct(u), d, false, false);
		let x = sign(u, n.call(w)); vk::op(format!("user {u}: {n:?}"));
		let may = m.may_submit(&acct(u), n.name());
		let p = pool(x.clone());
		ensure!(["C25"], p.is_ok() == may, "pool-admission", "signed: pool says {p:?} for {n:?} under {m:?}, admissible: {may}");
		if !may { System::reset_events(); let st = state(); let o = apply(x); ensure!(["C25"], o.invalid(), "admission", "signed: outcome {o:?} for {n:?} under {m:?}"); ensure!(["C25"], st == state(), "rejected-left-trace", "a rejected extrinsic changed the state"); judge(w, "signed", &n, &[], m); vk::hit("signed_refused"); return }
		let o = apply(x); let (ok, e) = n.exec(m);
		ensure!(["C25"], !o.invalid() && o.ok() == ok, "outcome", "signed: {o:?} for {n:?} under {m:?}, expected ok {ok}");
		judge(w, "signed", &n, &e, m); vk::hit("signed"); if d > 1 && n.depth() > 1 { vk::hit("nested") }
	} else if how < 7 {
		let u = rng.below(5);
		let d = rng.below(3); let n = gen(rng, w, acct(u), d, false, false);
		// an envelope around a futurepass call is submitted by the futurepass of the signer
		let direct_fp = matches!(&n, Fp(..)) || matches!(&n, Fee(i) if matches!(**i, Fp(..)));
		if direct_fp && u != 0 { return }
		let x = xrpl_now(Key::Ecdsa(u), n.call(w)); vk::op(format!("xrpl {u}: {n:?}"));
		let may = m.may_submit(&acct(u), n.name());
		let p = pool(x.clone()); let o = apply(x);
		let (ok, e) = if m.paused(("Xrpl", "transact")) || m.paused(n.name()) || !may { (false, vec![]) } else { n.exec(m) };
		ensure!(["C25"], p.is_ok() == may, "pool-admission-xrpl", "xrpl: pool says {p:?} for {n:?} under {m:?}, admissible: {may}");
		ensure!(["C25"], o.ok() == ok && o.invalid() != may, "outcome-xrpl", "xrpl: {o:?} for {n:?} under {m:?}, expected ok {ok}, admissible {may}");
		judge(w, "xrpl", &n, &e, m); vk::hit(if may { "xrpl" } else { "xrpl_refused" });
	} else if how < 8 {
		let (i, hd) = (rng.below(5), rng.below(5)); if i == hd { return }
		let l = { let fpx = i == 0 && rng.chance(30); let fp = w.fp; if fpx { Fp(fp, Box::new(leaf(rng, w, fp, true, true))) } else { let l = leaf(rng, w, acct(i), false, true); if rng.chance(30) { Fee(Box::new(l)) } else { l } } };
		let mut g = Grant::all(i, hd); g.fee_holder = rng.chance(30) && !matches!(l, Fp(..));
		let x = doughnut_now(&g, l.call(w)); vk::op(format!("doughnut {i}->{hd}: {l:?}"));
		let may = m.may_submit(&acct(hd), l.name()) && m.may_submit(&acct(i), l.name());
		let p = pool(x.clone()); let o = apply(x);
		let (_, e) = if m.paused(("Doughnut", "transact")) || !may { (false, vec![]) } else { l.exec(m) };
		ensure!(["C25"], p.is_ok() == may, "pool-admission-doughnut", "doughnut: pool says {p:?} for {l:?} under {m:?}, admissible: {may}");
		ensure!(["C25"], o.invalid() != may, "outcome-doughnut", "doughnut: {o:?} for {l:?} under {m:?}, admissible {may}");
		judge(w, "doughnut", &l, &e, m); vk::hit(if may { "doughnut" } else { "doughnut_refused" });
	} else {
		let u = rng.below(6); w.fresh += 1; let t = h(acct(10_000 + w.fresh)); let via = rng.chance(45); let v = rng.range(1, 50) as u128;
		let (mut n, mut create) = (Evm { source: acct(u), target: t, via_fee: via, value: v }, None);
		let (mut t, mut data, mut wei) = (t, vec![], U256::from(v) * 10u64.pow(12));
		match rng.below(10) { 0..=2 => { n = Erc { source: acct(u), asset: *rng.pick(&[ROOT, XRP, w.token]), via_fee: via, to: t.into(), value: v }; (t, data) = n.target(w); wei = U256::zero() },
			3 => { let code = format!("c{}", w.fresh).into_bytes(); n = Deploy { source: acct(u), code: code.clone(), salted: false }; create = Some(code); }, _ => {} }
		let via = via && create.is_none();
		let (to, input) = if via { (H160::from_low_u64_be(FEE_PROXY), fee_input(w.token, t, data, rng.chance(50))) } else { (t, data) };
		vk::op(format!("eth {u}: {n:?}"));
		let mut ts = if create.is_some() { vec![] } else { vec![t] }; if via { ts.push(to) }
		let may = m.may_evm(&acct(u), &ts) && !m.paused(("Ethereum", "transact"));
		let stopped = matches!(n, Erc { .. }) && m.paused(("AssetsExt", "transfer"));
		let before = balances();
		let (from, nonce) = (h(acct(u)), EVM::account_basic(&h(acct(u))).0.nonce.low_u64());
		let o = match create { Some(code) => { vk::hit("eth_create"); apply(eth_tx(from, None, code, U256::zero(), 200_000, base_fee(), U256::zero(), nonce)) }, None => eth(acct(u), to, input, wei, 200_000) };
		let e: Vec<&Node> = if may && !stopped { vec![&n] } else { vec![] };
		judge(w, "eth", &n, &e, m);
		if !may { ensure!(["C25"], !o.ok(), "eth-outcome", "a blocked ethereum transaction reported success: {n:?} under {m:?}"); let after = balances(); for k in before.keys().chain(after.keys()) { if k.1 != acct(u) && k.1 != acct(VALIDATOR) && k.1 != TxFeePot::account_id() && before.get(k) != after.get(k) { ensure!(["C25"], false, "eth-blocked-effect", "blocked ethereum transaction moved money: {}", diff(&before, &after)); } } }
		vk::hit(if may { "eth" } else { "eth_refused" }); if via { vk::hit("eth_via_fee_proxy") }
	}
}
/// what must keep working whatever is blocked
fn lifeline(rng: &mut Rng, m: &Lists) {
	match rng.below(3) {
		0 => { pallet_timestamp::DidUpdate::<Runtime>::kill(); let now = Timestamp::get() + 10_000; let r = Call::Timestamp(pallet_timestamp::Call::set { now }).dispatch(RuntimeOrigin::none()).map_err(|e| e.error); pallet_timestamp::DidUpdate::<Runtime>::kill(); ensure!(["C25"], r.is_ok(), "timestamp", "the timestamp inherent fails under {m:?}: {:?}", r.err()); vk::hit("timestamp_works"); },
		1 => { let (who, v) = (acct(77_000 + rng.below(1000)), rng.range(1, 99) as u128); let r = sudo(Call::Utility(pallet_utility::Call::batch_all { calls: vec![Call::Balances(pallet_balances::Call::force_transfer { source: acct(SUDO), dest: who, value: v })] })); ensure!(["C25"], r.is_ok(), "sudo-acts", "a sudo call fails under {m:?}: {r:?}"); vk::hit("sudo_works"); },
		_ => { let u = rng.below(6); let c = Call::EthBridge(pallet_ethy::Call::submit_event { tx_hash: H256::repeat_byte(1), event: vec![1, 2] }); let o = submit(u, c); ensure!(["C25"], matches!(&o, Out::Failed(e) if *e != frame_system::Error::<Runtime>::CallFiltered.into()), "bridge-reachable", "the bridge pallet is unreachable under {m:?}: {o:?}"); vk::hit("bridge_reachable"); },
	}
}
pub fn run() {
	vk::episodes(vk::tier(900, 9000), |_, rng| chain(7, || {
		let mut w = setup(); let mut m = Lists::default();
		for _ in 0..vk::tier(60, 120) {
			let r = rng.below(100);
			if r < 25 { change(rng, &w, &mut m) } else if r < 90 { act(rng, &mut w, &m) } else { lifeline(rng, &m) }
			if rng.chance(4) { // all clear: everything works again
				for a in m.accounts.clone() { assert_ok!(sudo(Call::MaintenanceMode(MCall::block_account { account: a, blocked: false }))); }
				for t in m.targets.clone() { assert_ok!(sudo(Call::MaintenanceMode(MCall::block_evm_target { target_address: t, blocked: false }))); }
				for (p, f) in m.calls.clone() { assert_ok!(sudo(Call::MaintenanceMode(MCall::block_call { pallet_name: fb0(&p).try_into().unwrap(), call_name: fb0(&f).try_into().unwrap(), blocked: false }))); }
				for p in m.pallets.clone() { assert_ok!(sudo(Call::MaintenanceMode(MCall::block_pallet { pallet_name: fb0(&p).try_into().unwrap(), blocked: false }))); }
				assert_ok!(sudo(Call::MaintenanceMode(MCall::enable_maintenance_mode { enabled: false })));
				m = Lists::default(); vk::hit("all_clear");
				for _ in 0..3 { act(rng, &mut w, &m) }
			}
			vk::state(&(m.on, m.accounts.len(), m.targets.len(), m.calls.clone(), m.pallets.clone()));
		}
	}));
}
pub const REQUIRED: &[&str] = &["leaf_ran", "leaf_blocked", "nested", "signed", "signed_refused", "xrpl", "xrpl_refused", "doughnut", "doughnut_refused", "eth", "eth_refused", "eth_via_fee_proxy", "eth_create", "ran:create", "ran:create2", "list_changed", "intruder_refused", "protected_or_malformed", "timestamp_works", "sudo_works", "bridge_reachable", "all_clear"];
