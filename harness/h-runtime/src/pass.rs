//! C22: a futurepass acts for its owner and registered delegates only
use crate::env::*;
use crate::rt::*;
use crate::*;
use frame_support::traits::tokens::Preservation;
use pallet_evm::exec::Step;
use pallet_futurepass::Holders;
use precompile_utils::constants::*;
use sp_io::hashing::keccak_256;
type FP = pallet_futurepass::Call<Runtime>;
#[derive(Default)]
struct World { owner: BTreeMap<AccountId, AccountId>, dele: BTreeMap<AccountId, BTreeMap<AccountId, u8>>, fps: Vec<AccountId>, users: Vec<AccountId>, token: AssetId, fresh: u64, used: Vec<(AccountId, AccountId, u32, [u8; 65])> }
/// what is asked of the futurepass
#[derive(Clone, Debug)]
enum Leaf { Pay(AccountId), Batch(AccountId), EvmPay(AccountId), Create(AccountId), Strip, Nest(AccountId, AccountId), Transfer(AccountId, Option<AccountId>), Register(AccountId, AccountId, u8, u32, [u8; 65]), Unregister(AccountId, AccountId), Many(Vec<Leaf>), Evm(H160, Vec<u8>, AccountId, Box<Leaf>), Feed(Box<Leaf>) }
use Leaf::*;
fn word(a: H160) -> Vec<u8> { let mut v = vec![0u8; 12]; v.extend_from_slice(a.as_bytes()); v }
fn num(n: u64) -> Vec<u8> { let mut v = vec![0u8; 24]; v.extend_from_slice(&n.to_be_bytes()); v }
fn u256(n: U256) -> Vec<u8> { ethabi::encode(&[ethabi::Token::Uint(n)]) }
fn sel(s: &str) -> Vec<u8> { keccak_256(s.as_bytes())[..4].to_vec() }
fn bytes(b: &[u8]) -> Vec<u8> { let mut v = num(b.len() as u64); v.extend_from_slice(b); while v.len() % 32 != 0 { v.push(0) } v }
fn cat(p: &[Vec<u8>]) -> Vec<u8> { p.concat() }
pub fn join_sig(fp: AccountId, d: AccountId, ty: u8, deadline: u32, signer: u64) -> [u8; 65] {
	let mut m = vec![]; m.extend_from_slice(h(fp).as_bytes()); m.extend_from_slice(h(d).as_bytes()); m.push(ty); m.extend_from_slice(&deadline.to_be_bytes());
	let text = hex::encode(keccak_256(&m)); let mut e = format!("\x19Ethereum Signed Message:\n{}", text.len()).into_bytes(); e.extend_from_slice(text.as_bytes());
	pair(signer).sign_prehashed(&keccak_256(&e)).0
}
fn reg_input(d: AccountId, ty: u8, deadline: u32, sig: &[u8]) -> Vec<u8> { cat(&[sel("registerDelegateWithSignature(address,uint8,uint32,bytes)"), word(h(d)), num(ty as u64), num(deadline as u64), num(128), bytes(sig)]) }
fn proxy_input(ty: u8, to: H160, value: U256, data: &[u8]) -> Vec<u8> { cat(&[sel("proxyCall(uint8,address,uint256,bytes)"), num(ty as u64), word(to), u256(value), num(128), bytes(data)]) }
const WEI: u64 = 1_000_000_000_000;
impl World {
	fn is_owner(&self, who: AccountId, fp: AccountId) -> bool { self.owner.get(&who) == Some(&fp) }
	fn class(&self, fp: AccountId, who: AccountId) -> Option<u8> { self.dele.get(&fp).and_then(|m| m.get(&who)).copied() }
	fn user(&self, a: AccountId) -> Option<u64> { self.users.iter().position(|x| *x == a).map(|x| x as u64) }
	/// `caller` performs a futurepass operation with its own authority; true when it is entitled to (and the model moves on)
	fn manage(&mut self, caller: AccountId, l: &Leaf) -> bool {
		let now = System::block_number();
		match l {
			Create(a) => { if self.owner.contains_key(a) { return false } let fp = Holders::<Runtime>::get(a); let Some(fp) = fp else { return true }; self.owner.insert(*a, fp); self.dele.entry(fp).or_default().insert(*a, 255); true },
			Transfer(from, to) => {
				let Some(fp) = self.owner.get(from).copied() else { return false };
				if caller != *from && caller != fp { return false }
				match to { None => { self.owner.remove(from); self.dele.remove(&fp); },
					Some(t) => { if self.owner.contains_key(t) || *t == fp { return false } self.owner.remove(from); self.owner.insert(*t, fp); self.dele.insert(fp, [(*t, 255)].into()); } }
				true },
			Register(fp, d, ty, deadline, sig) => {
				if caller != *fp && !self.is_owner(caller, *fp) { return false }
				if *ty != 1 || self.class(*fp, *d).is_some() || *deadline < now || d == fp { return false }
				let Some(u) = self.user(*d) else { return false };
				if *sig != join_sig(*fp, *d, *ty, *deadline, u) { return false }
				if self.dele.get(fp).map_or(0, |m| m.len()) >= 32 { return false }
				self.dele.entry(*fp).or_default().insert(*d, 1); true },
			Unregister(fp, d) => {
				if self.is_owner(*d, *fp) || !(self.is_owner(caller, *fp) || caller == *fp || caller == *d) || self.class(*fp, *d).is_none() { return false }
				let m = self.dele.get_mut(fp).unwrap(); m.remove(d); if m.is_empty() { self.dele.remove(fp); } true },
			_ => unreachable!(),
		}
	}
}
fn setup(rng: &mut Rng) -> World {
	let mut w = World::default();
	assert_ok!(signed(acct(SUDO), Call::AssetsExt(pallet_assets_ext::Call::create_asset { name: b"pay".to_vec(), symbol: b"PAY".to_vec(), decimals: 6, min_balance: Some(1), owner: None })));
	w.token = pallet_assets::Asset::<Runtime>::iter().map(|x| x.0).filter(|x| *x > 2).max().unwrap();
	assert_ok!(AssetsExt::mint_into(w.token, &acct(SUDO), 1u128 << 70));
	assert_ok!(signed(acct(SUDO), Call::Dex(pallet_dex::Call::add_liquidity { token_a: w.token, token_b: XRP, amount_a_desired: START / 4, amount_b_desired: START / 4, amount_a_min: 1, amount_b_min: 1, to: None, deadline: None })));
	for i in 0..8 { w.users.push(acct(i)); fund(&w, acct(i)) }
	for i in 0..3u64 { make(&mut w, acct(i), acct(i)) }
	if rng.chance(60) { let f = w.fps[0]; make(&mut w, acct(0), f) }
	if rng.chance(15) { // many delegates
		let n = rng.range(16, 31); for i in 8..n { fund(&w, acct(i)); w.users.push(acct(i)) }
		let mut order: Vec<u64> = (3..n).collect(); rng.shuffle(&mut order); let fp = w.fps[0];
		for u in order { let l = Register(fp, acct(u), 1, 40, join_sig(fp, acct(u), 1, 40, u)); let c = l.call(&w, acct(0)); let o = submit(0, c); ensure!(["C22"], o.ok() == w.manage(acct(0), &l), "authority", "registering {u}: {o:?}"); }
		vk::hit("crowd");
	}
	w
}
fn fund(w: &World, a: AccountId) { assert_ok!(<AssetsExt as frame_support::traits::fungibles::Mutate<AccountId>>::transfer(w.token, &acct(SUDO), &a, 1u128 << 60, Preservation::Expendable)); if !w.users.contains(&a) { for t in [ROOT, XRP] { assert_ok!(<AssetsExt as frame_support::traits::fungibles::Mutate<AccountId>>::transfer(t, &acct(SUDO), &a, START / 50, Preservation::Expendable)); } } }
fn make(w: &mut World, by: AccountId, a: AccountId) { if signed(by, Call::Futurepass(FP::create { account: a })).is_ok() { let fp = Holders::<Runtime>::get(a).unwrap(); ensure!(["C22"], !w.fps.contains(&fp), "create", "the account {fp:?} was given out again"); w.fps.push(fp); fund(w, fp); w.manage(by, &Create(a)); } }
impl Leaf {
	fn call(&self, w: &World, fp: AccountId) -> Call { match self {
		Pay(d) => Call::Balances(pallet_balances::Call::transfer { dest: *d, value: 77 }),
		Batch(d) => Call::Utility(pallet_utility::Call::batch { calls: vec![Pay(*d).call(w, fp)] }),
		EvmPay(d) => evm(fp, h(*d), vec![], U256::from(77u64) * WEI),
		Create(a) => Call::Futurepass(FP::create { account: *a }),
		Strip => Call::Proxy(pallet_proxy::Call::remove_proxies {}),
		Nest(f, d) => Call::Futurepass(FP::proxy_extrinsic { futurepass: *f, call: Box::new(Pay(*d).call(w, *f)) }),
		Transfer(from, to) => Call::Futurepass(FP::transfer_futurepass { current_owner: *from, new_owner: *to }),
		Register(f, d, ty, dl, s) => Call::Futurepass(FP::register_delegate_with_signature { futurepass: *f, delegate: *d, proxy_type: ProxyType::try_from(*ty).unwrap(), deadline: *dl, signature: *s }),
		Unregister(f, d) => Call::Futurepass(FP::unregister_delegate { futurepass: *f, delegate: *d }),
		Many(v) => Call::Utility(pallet_utility::Call::batch { calls: v.iter().map(|c| c.call(w, fp)).collect() }),
		Evm(to, data, src, _) => evm(*src, *to, data.clone(), U256::zero()),
		Feed(c) => Call::FeeProxy(pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: w.token, max_payment: 1 << 50, call: Box::new(c.call(w, fp)) }),
	} }
	fn dest(&self) -> Option<AccountId> { match self { Pay(d) | Batch(d) | EvmPay(d) | Nest(_, d) => Some(*d), Many(v) => v.iter().find_map(|x| x.dest()), Evm(.., l) | Feed(l) => l.dest(), _ => None } }
	/// what the call does with the authority of `fp`, for a caller that drives it as `class`; returns whether the payment to `dest` is due
	fn expect(&self, w: &mut World, fp: AccountId, class: u8) -> (bool, bool) {
		let open = class == 1 || class == 255;
		match self {
			Pay(_) | Batch(_) | EvmPay(_) => (open, open),
			Create(_) | Strip | Nest(..) => (false, false),
			Transfer(..) | Register(..) | Unregister(..) => (class == 255 && w.manage(fp, self), false),
			// a batch stops at the first failure
			Many(v) => { if !open { return (false, false) } let mut p = false; for l in v { let (ok, r) = l.expect(w, fp, class); p |= r; if !ok { break } } (true, p) },
			// through the EVM: the futurepass is the caller of the precompile
			Evm(to, _, src, l) => { if *src != fp || !open { return (false, false) } let near = *to == H160::from_low_u64_be(FEE_PROXY_ADDRESS) || *to == H160::from_low_u64_be(FUTUREPASS_REGISTRAR_PRECOMPILE) || to.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX); if near && class != 255 { return (false, false) } if let Transfer(..) | Register(..) | Unregister(..) = &**l { w.manage(fp, l); } (true, false) },
			Feed(l) => if open { l.expect(w, fp, class) } else { (false, false) },
		}
	}
}
fn evm(source: AccountId, to: H160, input: Vec<u8>, value: U256) -> Call { Call::EVM(pallet_evm::Call::call { source: h(source), target: to, input, value, gas_limit: 500_000, max_fee_per_gas: base_fee() * 2, max_priority_fee_per_gas: None, nonce: None, access_list: vec![] }) }
fn somebody(rng: &mut Rng, w: &World) -> AccountId { if rng.chance(80) { *rng.pick(&w.users) } else { *rng.pick(&w.fps) } }
fn management(rng: &mut Rng, w: &mut World, fp: AccountId) -> Leaf {
	let now = System::block_number();
	match rng.below(9) {
		0 | 1 => { let to = if rng.chance(12) { None } else { Some(somebody(rng, w)) }; let from = match w.owner.iter().find(|(_, f)| **f == fp) { Some((o, _)) if rng.chance(85) => *o, _ => somebody(rng, w) }; Transfer(from, to) },
		2 | 3 => { let d = match w.dele.get(&fp) { Some(m) if rng.chance(85) => *rng.pick(&m.keys().copied().collect::<Vec<_>>()), _ => somebody(rng, w) }; Unregister(fp, d) },
		_ => {
			let u = rng.below(w.users.len() as u64); let mut d = w.users[u as usize]; let mut deadline = if rng.chance(15) { now.saturating_sub(rng.range(0, 2) as u32) } else { now + rng.below(6) as u32 };
			let mut f = fp; let mut at = 1u8; let (mut sf, mut sd, mut ty, mut dl, mut signer) = (fp, d, 1u8, deadline, u);
			if rng.chance(35) { match rng.below(7) { 0 => signer = (u + 1 + rng.below(6)) % 8, 1 => sf = *rng.pick(&w.fps), 2 => sd = *rng.pick(&w.users), 3 => { ty = *rng.pick(&[0, 2, 3, 4, 255]); if rng.chance(50) { at = ty } }, 4 => { let far = 1 << (8 * rng.below(4)); if rng.chance(50) { dl = deadline + far } else { deadline += far } },
				5 => if let Some((_, d0, dl0, s0)) = w.used.last().copied().filter(|_| rng.chance(90)) { return Register(fp, d0, 1, dl0, s0) }, _ => { f = *rng.pick(&w.fps); } } }
			let mut sig = join_sig(sf, sd, ty, dl, signer); if rng.chance(4) { sig[rng.below(64) as usize] ^= 4 }
			if rng.chance(3) { d = acct(20 + rng.below(5)) }
			if sf == fp && sd == d && ty == 1 && dl == deadline && signer == u { w.used.push((fp, d, deadline, sig)) }
			if at != 1 { vk::hit("other_class_asked") }
			Register(f, d, at, deadline, sig) },
	}
}
/// the futurepass to call for it: the one that would be handed over
fn mine(w: &World, l: &Leaf, fp: AccountId) -> H160 { if let Transfer(f, _) = l { w.owner.get(f).map_or(h(fp), |x| h(*x)) } else { h(fp) } }
/// the same operation as a precompile call
fn as_evm(l: &Leaf, own: H160) -> (H160, Vec<u8>) { match l {
	Transfer(_, Some(t)) => (own, cat(&[sel("transferOwnership(address)"), word(h(*t))])),
	Transfer(_, None) => (own, sel("renounceOwnership()")),
	Register(f, d, ty, dl, s) => (h(*f), reg_input(*d, *ty, *dl, s)),
	Unregister(f, d) => (h(*f), cat(&[sel("unregisterDelegate(address)"), word(h(*d))])),
	Create(a) => (H160::from_low_u64_be(FUTUREPASS_REGISTRAR_PRECOMPILE), cat(&[sel("create(address)"), word(h(*a))])),
	_ => unreachable!() } }
fn leaf(rng: &mut Rng, w: &mut World, fp: AccountId, deep: bool) -> Leaf {
	w.fresh += 1; let d = acct(40_000 + w.fresh);
	match rng.below(16) { 0..=2 => Pay(d), 3 => Batch(d), 4 => EvmPay(d), 5 => Create(d), 6 => Strip, 7 => Nest(*rng.pick(&w.fps), d), 8..=11 => management(rng, w, fp),
		12 | 13 => { let m = management(rng, w, fp); let m = if let Transfer(_, t) = m { Transfer(fp, t) } else { m }; let (mut to, mut data) = as_evm(&m, mine(w, &m, fp)); if rng.chance(15) { data.truncate(rng.below(4) as usize); return Evm(to, data, fp, Box::new(Strip)) }
			if rng.chance(30) { // by way of a contract that borrows the caller's identity
				let c = H160::from_low_u64_be(0xC0DE_0000 + w.fresh); pallet_evm::AccountCodes::<Runtime>::insert(c, vec![Step::Call { kind: rng.below(3) as u8, to, value: U256::zero(), input: data.clone(), gas: None, must: rng.chance(50) }].encode()); to = c; data = vec![]; return Evm(to, data, fp, Box::new(Strip)) }
			let src = if rng.chance(85) { fp } else { *rng.pick(&w.fps) }; if rng.chance(25) { data = crate::maint::fee_input(w.token, to, data, rng.chance(40)); to = H160::from_low_u64_be(FEE_PROXY_ADDRESS) } Evm(to, data, src, Box::new(m)) },
		14 if deep => Many((0..rng.range(1, 3)).map(|_| leaf(rng, w, fp, false)).collect()),
		15 if deep => Feed(Box::new(leaf(rng, w, fp, false))),
		_ => Pay(d) }
}
fn check(w: &World, ctx: &str) {
	let holders: BTreeMap<AccountId, AccountId> = Holders::<Runtime>::iter().collect();
	ensure!(["C22"], holders == w.owner, "owners", "{ctx}: owners are {holders:?}, expected {:?}", w.owner);
	let mut seen = BTreeSet::new(); for f in holders.values() { ensure!(["C22"], seen.insert(*f), "two-owners", "{ctx}: {f:?} has two owners"); }
	let p: BTreeMap<AccountId, Vec<(AccountId, u8)>> = pallet_proxy::Proxies::<Runtime>::iter().map(|(k, v)| { let mut l: Vec<_> = v.0.iter().map(|d| (d.delegate, u8::from(d.proxy_type))).collect(); l.sort(); (k, l) }).collect();
	let m: BTreeMap<AccountId, Vec<(AccountId, u8)>> = w.dele.iter().map(|(k, v)| (*k, v.iter().map(|(a, t)| (*a, *t)).collect())).collect();
	ensure!(["C22"], p == m, "delegates", "{ctx}: delegates are {p:?}, expected {m:?}");
	for (k, v) in pallet_proxy::Proxies::<Runtime>::iter() { let r = frame_system::Account::<Runtime>::get(k).data.reserved; ensure!(["C22"], v.1 == pallet_proxy::Pallet::<Runtime>::deposit(v.0.len() as u32) && r == v.1, "deposit", "{ctx}: deposit of {k:?} is {} with {r} reserved for {} delegates", v.1, v.0.len()); }
	vk::state(&(holders.len(), m.values().map(|v| v.len()).collect::<Vec<_>>()));
}
fn step(rng: &mut Rng, w: &mut World) {
	let before = balances();
	let fp = *rng.pick(&w.fps);
	let pick_driver = |rng: &mut Rng, w: &World| -> u64 { let ds: Vec<u64> = w.dele.get(&fp).map(|m| m.keys().filter_map(|a| w.user(*a)).collect()).unwrap_or_default(); if !ds.is_empty() && rng.chance(75) { *rng.pick(&ds) } else { rng.below(8) } };
	match rng.below(100) {
		0..=21 => { // an account's own operation, as a transaction or a precompile call
			let l = if rng.chance(15) { let a = if rng.chance(60) { *rng.pick(&w.users) } else { *rng.pick(&w.fps) }; Create(a) } else { management(rng, w, fp) };
			let owner = w.owner.iter().find(|(_, f)| **f == fp).and_then(|(o, _)| w.user(*o));
			let u = match owner { Some(o) if rng.chance(70) => o, _ => pick_driver(rng, w) }; let who = acct(u);
			let by_evm = rng.chance(35);
			let text = format!("{} {u} {l:?}", if by_evm { "precompile" } else { "extrinsic" }); vk::op(text.clone());
			let l = if let (true, Transfer(_, t)) = (by_evm, &l) { Transfer(who, *t) } else { l };
			let o = if by_evm { let (to, data) = as_evm(&l, mine(w, &l, fp)); eth(who, to, data, U256::zero(), 1_000_000) } else { submit(u, l.call(w, who)) };
			let did = if by_evm { eth_ok() == Some(true) } else { o.ok() };
			if let (Create(a), true) = (&l, did) { let f = Holders::<Runtime>::get(a).unwrap(); ensure!(["C22"], !w.fps.contains(&f) && !w.owner.contains_key(a), "create", "{text} gave out {f:?}"); w.fps.push(f); fund(w, f) }
			let want = w.manage(who, &l);
			ensure!(["C22"], did == want, "authority", "{text}: done {did}, entitled {want} ({o:?})"); vk::hit(if want { "managed" } else { "manage_refused" }); vk::hit_s(format!("{}:{}", if want { "ok" } else { "no" }, text.split(['(', '{']).next().unwrap().split(' ').nth(2).unwrap_or("")));
			check(w, &text) },
		22..=69 => { // driving the futurepass
			let u = pick_driver(rng, w); let who = acct(u); let class = w.class(fp, who); let l = leaf(rng, w, fp, true); let path = rng.below(8);
			let force = if path == 4 { Some(*rng.pick(&[ProxyType::Any, ProxyType::Owner, ProxyType::NonTransfer])) } else { None };
			let inner = l.call(w, fp); let pe = Call::Futurepass(FP::proxy_extrinsic { futurepass: fp, call: Box::new(inner.clone()) });
			let via_own_fp = path == 5 || path == 6; // the fee falls on the sender's own futurepass
			let _ = via_own_fp;
			let text = format!("drive {fp:?} by {u} as {class:?} path {path} force {force:?} {l:?}"); vk::op(text.clone());
			let o = match path { 3 | 4 => submit(u, Call::Proxy(pallet_proxy::Call::proxy { real: fp, force_proxy_type: force, call: Box::new(inner) })), 5 => submit(u, Call::FeeProxy(pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: w.token, max_payment: 1 << 50, call: Box::new(pe) })), 6 => { let k = Key::Ecdsa(u); apply(xrpl_now(k, pe)) }, 7 => submit(u, Call::Utility(pallet_utility::Call::batch { calls: vec![pe] })), _ => submit(u, pe) };
			if o.invalid() { ensure!(["C22"], balances() == before, "invalid-effect", "{text}: {o:?}"); vk::hit("not_admitted"); check(w, &text); return }
			let class0 = class; let class = if force.map_or(false, |f| class != Some(u8::from(f))) { None } else { class };
			let due = class.map_or(false, |c| l.expect(w, fp, c).1);
			let paid = l.dest().map_or(false, |d| bal(ROOT, d) + xrp(d) > 0);
			ensure!(["C22"], paid == due, "acted", "{text}: {o:?}; paid {paid}, due {due}; {}", diff(&before, &balances()));
			if paid { let d = l.dest().unwrap(); let from_fp = before.get(&(ROOT, fp)).copied().unwrap_or(0).saturating_sub(bal(ROOT, fp)) + before.get(&(XRP, fp)).copied().unwrap_or(0).saturating_sub(xrp(fp)); ensure!(["C22"], bal(ROOT, d) + xrp(d) >= 77 && (from_fp >= 77 || matches!(l, Many(_)) || xrp(d) > 0 && (path == 5 || matches!(l, Feed(_)))), "acted-as", "{text}: {}", diff(&before, &balances())); vk::hit("acted") } else { vk::hit("not_acted") }
			if class0.is_none() { for a in [ROOT, XRP, w.token] { let was = before.get(&(a, fp)).copied().unwrap_or(0); let chained = path == 6 && w.owner.get(&who).map_or(false, |own| w.class(fp, *own).is_some()); // an XRPL signer pays as its own futurepass, which may itself be a delegate
				ensure!(["C22"], path == 4 || chained || bal(a, fp) >= was, "stranger-charged", "{text}: {o:?} asset {a}; {}", diff(&before, &balances())); } }
			if class.is_none() { vk::hit("stranger_refused"); ensure!(["C22"], path == 4 || w.fps.iter().all(|f| bal(ROOT, *f) >= before.get(&(ROOT, *f)).copied().unwrap_or(0)), "stranger", "{text}: {}", diff(&before, &balances())); }
			vk::hit_s(format!("path{path}:{}", class.map_or("none".into(), |c| c.to_string())));
			check(w, &text) },
		70..=91 => { // through the futurepass precompile
			let u = pick_driver(rng, w); let who = acct(u); let class = w.class(fp, who); w.fresh += 1; let d = acct(40_000 + w.fresh);
			let kind = rng.below(9); let mut pay = U256::zero(); let mut to = h(d); let mut data = vec![]; let mut m = None; let ct = if rng.chance(80) { 1u8 } else { rng.below(5) as u8 };
			match kind {
				0..=2 => pay = U256::from(77u64) * WEI,
				3..=5 => { let l = management(rng, w, fp); let l = if let Transfer(_, t) = l { Transfer(fp, t) } else { l }; let (t, x) = as_evm(&l, mine(w, &l, fp)); to = t; data = x; m = Some(l) },
				6 => { to = *rng.pick(&[h(fp), H160::from_low_u64_be(FUTUREPASS_REGISTRAR_PRECOMPILE), h(w.fps[0])]); data = rng.bytes(3); let n = rng.below(4) as usize; data.truncate(n); if rng.chance(30) { pay = U256::from(WEI) } },
				7 => { let l = Create(d); let (t, x) = as_evm(&l, mine(w, &l, fp)); to = t; data = x },
				_ => { // a contract in between, borrowing the caller's identity or not
					let l = management(rng, w, fp); let (t, x) = as_evm(&l, mine(w, &l, fp)); let c = H160::from_low_u64_be(0xC0DE_0000 + w.fresh); pallet_evm::AccountCodes::<Runtime>::insert(c, vec![Step::Call { kind: rng.below(4) as u8, to: t, value: U256::zero(), input: x, gas: None, must: true }].encode()); to = c },
			}
			let direct = kind == 8 && rng.chance(60); // the account itself calls the contract
			let text = format!("proxyCall {fp:?} by {u} as {class:?} kind {kind} type {ct} direct {direct} {m:?} to {to:?} data {}", hex::encode(&data)); vk::op(text.clone());
			let x = if direct { eth(who, to, vec![], U256::zero(), 2_000_000) } else { eth(who, h(fp), proxy_input(ct, to, pay, &data), U256::zero(), 2_000_000) };
			ensure!(["C22"], !x.invalid(), "evm", "{text}: {x:?}");
			let open = class == Some(1) || class == Some(255);
			if let (Some(l), true, Some(true)) = (&m, class == Some(255), eth_ok()) { ensure!(["C22"], ct == 1, "static-write", "{text}: written by a static call"); if !matches!(l, Transfer(..)) || w.owner.contains_key(&fp) { let l = if let Transfer(_, t) = l { Transfer(fp, *t) } else { l.clone() }; let did = w.manage(fp, &l); ensure!(["C22"], did, "authority", "{text}: succeeded without entitlement") } }
			else if let (Some(l), true, 1) = (&m, class == Some(255), ct) { if !matches!(l, Transfer(..)) { let mut t = World { owner: w.owner.clone(), dele: w.dele.clone(), fps: w.fps.clone(), users: w.users.clone(), ..Default::default() }; ensure!(["C22"], !t.manage(fp, l), "owner-refused", "{text}: the owner's request was refused") } }
			let paid = xrp(d) + bal(ROOT, d) > 0;
			if kind <= 2 { ensure!(["C22"], paid == (open && ct == 1), "acted", "{text}: paid {paid}"); vk::hit(if paid { "evm_acted" } else { "evm_not_acted" }) }
			if class.is_none() && !direct { ensure!(["C22"], eth_ok() != Some(true), "stranger", "{text}: {}", diff(&before, &balances())); vk::hit("evm_stranger_refused") }
			if class.is_none() || (class != Some(255) && kind > 2) { for f in &w.fps { ensure!(["C22"], bal(ROOT, *f) >= before.get(&(ROOT, *f)).copied().unwrap_or(0), "stranger", "{text}: {}", diff(&before, &balances())); } }
			if direct { vk::hit("contract_borrows") }
			vk::hit_s(format!("proxyCall:{kind}:{}:{}", class.map_or("none".into(), |c| c.to_string()), eth_ok() == Some(true)));
			check(w, &text) },
		92..=94 => { // what the precompile tells
			let d = *rng.pick(&w.users); let _ = eth(acct(7), h(fp), sel("owner()"), U256::zero(), 200_000); let f = pallet_evm::exec::take_frames(); let o = f.first().map(|x| x.output.clone()).unwrap_or_default();
			let own = w.owner.iter().find(|(_, f)| **f == fp).map_or(H160::zero(), |(o, _)| h(*o));
			ensure!(["C22"], o == word(own), "owner-view", "owner() of {fp:?} is {}, expected {own:?}", hex::encode(&o));
			let _ = eth(acct(7), h(fp), cat(&[sel("delegateType(address)"), word(h(d))]), U256::zero(), 200_000); let f = pallet_evm::exec::take_frames(); let o = f.first().map(|x| x.output.clone()).unwrap_or_default();
			ensure!(["C22"], o == num(w.class(fp, d).unwrap_or(0) as u64), "delegate-view", "delegateType of {d:?} is {}", hex::encode(&o)); vk::hit("viewed") },
		95 => { // delegates of the narrower classes can exist from earlier versions
			let d = *rng.pick(&w.users); let ty = *rng.pick(&[0u8, 2, 3, 4]);
			if w.class(fp, d).is_none() && w.dele.contains_key(&fp) && w.dele[&fp].len() < 30 { assert_ok!(<seed_runtime::impls::ProxyPalletProvider as pallet_futurepass::ProxyProvider<Runtime>>::add_delegate(&acct(SUDO), &fp, &d, &ty)); w.dele.get_mut(&fp).unwrap().insert(d, ty); vk::op(format!("class {ty} for {d:?} on {fp:?}")); vk::hit("narrow_class") } },
		_ => { let b = System::block_number() + 1; System::set_block_number(b); vk::op(format!("block {b}")); },
	}
}
pub fn run() {
	vk::episodes(vk::tier(800, 6000), |_, rng| chain(8, || {
		let mut w = setup(rng); check(&w, "setup");
		for _ in 0..vk::tier(80, 140) { step(rng, &mut w) }
	}));
}
pub const REQUIRED: &[&str] = &["managed", "manage_refused", "acted", "not_acted", "stranger_refused", "evm_acted", "evm_not_acted", "evm_stranger_refused", "viewed", "narrow_class", "contract_borrows", "crowd", "other_class_asked"];
