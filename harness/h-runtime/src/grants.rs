//! C26: delegated calls stay within the signed grant
use crate::env::*;
use crate::rt::*;
use crate::*;
use doughnut_rs::{doughnut::{topping::{Rule, Topping}, Doughnut, DoughnutV1}, traits::{DoughnutVerify, Signing}};
use frame_support::traits::tokens::Preservation;
#[derive(Clone, Debug)]
enum Leaf { Pay(AccountId, u128), PayKeep(AccountId, u128), Ext(AssetId, AccountId, u128, bool), Remark(Vec<u8>), Pass(AccountId), Other(u64, AccountId) }
use Leaf::*;
#[derive(Clone, Debug, PartialEq)] enum Wrap { None, Fp, Fee, FeeFp }
struct World { fps: BTreeMap<u64, AccountId>, token: AssetId, fresh: u64, white: BTreeSet<AccountId>, held: BTreeSet<(u64, AccountId)>, revoked: BTreeSet<usize>, grants: Vec<Grant>, done: Vec<UncheckedExtrinsic> }
impl Leaf {
	fn name(&self) -> (&'static str, &'static str) { match self { Pay(..) => ("Balances", "transfer"), PayKeep(..) => ("Balances", "transfer_keep_alive"), Ext(..) => ("AssetsExt", "transfer"), Remark(_) => ("System", "remark"), Pass(_) => ("Futurepass", "create"), Other(k, _) => match k { 0 => ("System", "remark_with_event"), 1 => ("Utility", "batch"), 2 => ("Utility", "batch_all"), 3 => ("Balances", "transfer_all"), _ => ("Assets", "transfer") } } }
	fn call(&self, w: &World) -> Call { match self {
		Pay(d, v) => Call::Balances(pallet_balances::Call::transfer { dest: *d, value: *v }),
		PayKeep(d, v) => Call::Balances(pallet_balances::Call::transfer_keep_alive { dest: *d, value: *v }),
		Ext(a, d, v, k) => Call::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: *a, destination: *d, amount: *v, keep_alive: *k }),
		Remark(b) => Call::System(frame_system::Call::remark { remark: b.clone() }),
		Pass(a) => Call::Futurepass(pallet_futurepass::Call::create { account: *a }),
		Other(0, d) => Call::System(frame_system::Call::remark_with_event { remark: d.encode() }),
		Other(1, d) => Call::Utility(pallet_utility::Call::batch { calls: vec![Pay(*d, 5).call(w)] }),
		Other(2, d) => Call::Utility(pallet_utility::Call::batch_all { calls: vec![Pay(*d, 5).call(w)] }),
		Other(3, d) => Call::Balances(pallet_balances::Call::transfer_all { dest: *d, keep_alive: true }),
		Other(_, d) => Call::Assets(pallet_assets::Call::transfer { id: w.token.into(), target: *d, amount: 5 }),
	} }
	/// what the chain shows when the leaf has run for `from`
	fn seen(&self, b: &Bal, a: &Bal, from: AccountId, paid: Option<AssetId>) -> Option<bool> {
		let g = |m: &Bal, k: (AssetId, AccountId)| m.get(&k).copied().unwrap_or(0);
		let moved = |asset: AssetId, d: AccountId, v: u128| { let up = g(a, (asset, d)) == g(b, (asset, d)) + v; let down = asset == XRP || Some(asset) == paid || g(a, (asset, from)) + v == g(b, (asset, from)); up && down };
		match self { Pay(d, v) | PayKeep(d, v) => Some(moved(ROOT, *d, *v)), Ext(id, d, v, _) => Some(moved(*id, *d, *v)), Pass(x) => Some(pallet_futurepass::Holders::<Runtime>::contains_key(x)), Remark(_) => None,
			Other(0, _) => Some(events().iter().any(|e| matches!(e, RuntimeEvent::System(frame_system::Event::Remarked { .. })))), Other(_, d) => Some(g(a, (ROOT, *d)) != 0 || a.iter().any(|(k, v)| k.1 == *d && *v != 0)) }
	}
	/// does the grant's topping allow it?  written against the meaning of the rules, on full-width values
	fn permitted(&self, t: &Topping) -> bool {
		enum V { S(Vec<u8>), N(u128) }
		let args = match self { Pay(d, v) | PayKeep(d, v) => vec![V::S(h(*d).as_bytes().to_vec()), V::N(*v)], Ext(a, d, v, k) => vec![V::N(*a as u128), V::S(h(*d).as_bytes().to_vec()), V::N(*v), V::N(*k as u128)], Remark(b) => vec![V::S(b.clone())], Pass(a) => vec![V::S(h(*a).as_bytes().to_vec())], Other(..) => return false };
		let (p, f) = self.name();
		let Some(m) = t.modules.iter().find(|m| m.name == p).or(t.modules.iter().find(|m| m.name == "*")) else { return false };
		let Some(me) = m.methods.iter().find(|x| x.name == f).or(m.methods.iter().find(|x| x.name == "*")) else { return false };
		me.constraints.as_ref().map_or(true, |r| r.iter().all(|r| match r {
			Rule::Equals(i, v) => matches!(args.get(*i as usize), Some(V::S(s)) if s == v),
			Rule::AtMost(i, v) => matches!(args.get(*i as usize), Some(V::N(n)) if *n <= *v as u128),
			Rule::Is(i, v) => matches!(args.get(*i as usize), Some(V::N(n)) if *n == *v as u128),
		}))
	}
}
fn topping(rng: &mut Rng) -> Topping {
	let mut m = vec![];
	let all = [("Balances", vec!["transfer", "transfer_keep_alive"]), ("AssetsExt", vec!["transfer"]), ("System", vec!["remark"]), ("Futurepass", vec!["create"]), ("Utility", vec!["batch", "batch_all"])];
	for (p, fs) in &all { if rng.chance(65) {
		let mut methods: Vec<(&str, Option<Vec<Rule>>)> = vec![];
		for f in fs { if rng.chance(80) {
			let amount_at = if *p == "AssetsExt" { 2 } else { 1 };
			let c = match rng.below(4) { 0 if *p == "Balances" || *p == "AssetsExt" => Some(vec![Rule::AtMost(amount_at, rng.range(1, 500))]), 1 if *p == "AssetsExt" => Some(vec![Rule::Is(0, 2), Rule::AtMost(2, 1000)]), 2 if *p == "System" => Some(vec![Rule::Equals(0, vec![1])]), _ => None };
			methods.push((*f, c));
		} }
		if rng.chance(10) { methods.push(("*", None)) }
		m.push(module(if rng.chance(4) { "*" } else { *p }, &methods));
	} }
	if rng.chance(15) { m.push(module("*", &[("*", None)])) }
	Topping { modules: m }
}
fn grant(rng: &mut Rng) -> Grant {
	let (i, hd) = (rng.below(4), rng.range(0, 6)); let now = System::block_number();
	Grant { issuer: i, holder: hd, fee_holder: rng.chance(35), topping: if rng.chance(25) { Grant::all(i, hd).topping } else { topping(rng) }, expiry: if rng.chance(20) { now + rng.range(0, 3) as u32 } else { now + 1000 }, not_before: if rng.chance(12) { now + rng.range(0, 2) as u32 } else { 0 }, eip191: rng.chance(40) }
}
fn twin(sig: &[u8; 65]) -> [u8; 65] {
	// the other valid signature: s -> n - s, parity flipped
	let n: [u8; 32] = hex::decode("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141").unwrap().try_into().unwrap();
	let mut o = *sig; let mut borrow = 0i32;
	for i in (0..32).rev() { let d = n[i] as i32 - sig[32 + i] as i32 - borrow; borrow = (d < 0) as i32; o[32 + i] = (d & 0xff) as u8 }
	o[64] ^= 1; o
}
fn setup() -> World {
	assert_ok!(signed(acct(SUDO), Call::AssetsExt(pallet_assets_ext::Call::create_asset { name: b"pay".to_vec(), symbol: b"PAY".to_vec(), decimals: 6, min_balance: Some(1), owner: None })));
	let token = pallet_assets::Asset::<Runtime>::iter().map(|x| x.0).filter(|x| *x > 2).max().unwrap();
	for i in (0..7).chain([SUDO]) { assert_ok!(AssetsExt::mint_into(token, &acct(i), 1u128 << 72)); assert_ok!(Balances::deposit_creating_check(&acct(i))); }
	assert_ok!(signed(acct(SUDO), Call::Dex(pallet_dex::Call::add_liquidity { token_a: token, token_b: XRP, amount_a_desired: START / 4, amount_b_desired: START / 4, amount_a_min: 1, amount_b_min: 1, to: None, deadline: None })));
	let mut fps = BTreeMap::new();
	for i in [0u64, 1] {
		assert_ok!(signed(acct(i), Call::Futurepass(pallet_futurepass::Call::create { account: acct(i) })));
		let fp = pallet_futurepass::Holders::<Runtime>::get(acct(i)).unwrap();
		for (a, v) in [(ROOT, START / 10), (XRP, START / 10), (token, 1u128 << 70)] { assert_ok!(<AssetsExt as frame_support::traits::fungibles::Mutate<AccountId>>::transfer(a, &acct(SUDO), &fp, v, Preservation::Expendable)); }
		fps.insert(i, fp);
	}
	World { fps, token, fresh: 0, white: BTreeSet::new(), held: BTreeSet::new(), revoked: BTreeSet::new(), grants: vec![], done: vec![] }
}
trait Deep { fn deposit_creating_check(a: &AccountId) -> DispatchResult; }
impl Deep for Balances { fn deposit_creating_check(a: &AccountId) -> DispatchResult { drop(<Balances as Currency<AccountId>>::deposit_creating(a, 1u128 << 72)); Ok(()) } }
fn leaf(rng: &mut Rng, w: &mut World, wrap: &Wrap) -> Leaf {
	w.fresh += 1; let d = acct(20_000 + w.fresh);
	let v = match rng.below(12) { 0 => (1u128 << 64) + rng.below(400) as u128, 1 => 1u128 << 65, _ => rng.range(1, 800) as u128 };
	match rng.below(9) { 0 | 1 => Pay(d, v), 2 => PayKeep(d, v), 3 | 4 => Ext(if rng.chance(50) { w.token } else if rng.chance(50) { ROOT } else { XRP }, d, v.min(if rng.chance(50) { 900 } else { u128::MAX }), rng.chance(50)), 5 => Remark(if rng.chance(50) { vec![1] } else { rng.bytes(3) }), 6 | 7 if *wrap == Wrap::None || *wrap == Wrap::Fee => Pass(d), 8 => Other(rng.below(5), d), _ => Pay(d, v) }
}
fn one(rng: &mut Rng, w: &mut World) {
	let gi = if w.grants.is_empty() || rng.chance(30) { w.grants.push(grant(rng)); w.grants.len() - 1 } else { rng.below(w.grants.len() as u64) as usize };
	let g = w.grants[gi].clone();
	let wrap = match rng.below(8) { 0 if w.fps.contains_key(&g.issuer) => Wrap::Fp, 1 => Wrap::Fee, 2 if w.fps.contains_key(&g.issuer) => Wrap::FeeFp, _ => Wrap::None };
	let l = leaf(rng, w, &wrap);
	let fp = w.fps.get(&g.issuer).copied();
	let inner = l.call(w);
	let proxied = |c: Call| Call::Futurepass(pallet_futurepass::Call::proxy_extrinsic { futurepass: fp.unwrap(), call: Box::new(c) });
	let pref = |c: Call| Call::FeeProxy(pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: w.token, max_payment: u128::MAX >> 1, call: Box::new(c) });
	let call = match wrap { Wrap::None => inner, Wrap::Fp => proxied(inner), Wrap::Fee => pref(inner), Wrap::FeeFp => pref(proxied(inner)) };
	let from = if wrap == Wrap::Fp || wrap == Wrap::FeeFp { fp.unwrap() } else { acct(g.issuer) };
	let now = System::block_number(); let n0 = nonce(acct(g.holder));
	let fee_who = if g.fee_holder { g.holder } else { g.issuer };
	let payer = if wrap == Wrap::Fp || wrap == Wrap::FeeFp { w.fps.get(&fee_who).copied() } else { Some(acct(fee_who)) };
	// what the envelope deserves
	let mut valid = g.not_before <= now && now < g.expiry && payer.is_some();
	let mut revoked = w.revoked.contains(&gi);
	let mut v1 = g.v1(); let mut bytes = Doughnut::V1(v1.clone()).encode();
	let (mut signer, mut n, mut genesis, tip) = (g.holder, n0, GENESIS_HASH, if rng.chance(20) { rng.below(50) } else { 0 });
	let mut how = "plain"; let mut maybe = false; let mut same = true;
	if rng.chance(55) { match rng.below(14) {
		0 => { how = "wrong-signer"; signer = (g.holder + rng.range(1, 6)) % 7; valid = false },
		1 => { how = "old-nonce"; if n0 == 0 { return } n = rng.below(n0 as u64) as u32; valid = false },
		2 => { how = "future-nonce"; n = n0 + rng.range(1, 5) as u32; valid = false },
		3 => { how = "genesis"; genesis[rng.below(32) as usize] ^= 1 << rng.below(8); valid = false },
		4 => { how = "doughnut-bitflip"; let i = rng.below(bytes.len() as u64) as usize; bytes[i] ^= 1 << rng.below(8); valid = false },
		5 => { how = "forged-issuer"; let victim = (g.issuer + 1) % 7; v1.issuer = pk(victim); bytes = Doughnut::V1(v1.clone()).encode(); valid = false },
		6 => { how = "other-holder"; let o = (g.holder + rng.range(1, 6)) % 7; v1.holder = pk(o); signer = o; n = nonce(acct(o)); bytes = Doughnut::V1(v1.clone()).encode(); valid = false },
		7 => { how = "widened"; match rng.below(3) { 0 => v1.expiry = u32::MAX, 1 => v1.toppings = vec![("trn".into(), Grant::all(0, 0).topping.encode())], _ => v1.fee_mode ^= 1 } if v1 == g.v1() { return } bytes = Doughnut::V1(v1.clone()).encode(); valid = false },
		8 => { how = "trailing"; bytes.extend(rng.bytes(2)); maybe = true },
		9 => { how = "twin-signature"; v1.signature = twin(&v1.signature); bytes = Doughnut::V1(v1.clone()).encode(); maybe = true },
		10 => { how = "self-signed"; // the holder writes the grant
			if g.holder == g.issuer { return } v1.signature = [0; 65]; if g.eip191 { v1.sign_eip191(&secret(g.holder)) } else { v1.sign_ecdsa(&secret(g.holder)) }.unwrap(); bytes = Doughnut::V1(v1.clone()).encode(); valid = false },
		11 => { how = "other-domain"; v1.toppings = vec![("other".into(), Grant::all(0, 0).topping.encode())]; v1.sign_ecdsa(&secret(g.issuer)).unwrap(); bytes = Doughnut::V1(v1.clone()).encode(); revoked = true },
		12 => { how = "after-signing"; same = false; valid = false },
		_ => { how = "v27"; v1.signature[64] += 27; bytes = Doughnut::V1(v1.clone()).encode(); maybe = true },
	} }
	vk::op(format!("{how} grant#{gi} {}->{} fee_holder {} expiry {} {wrap:?} {l:?} revoked {revoked} white {} n {n}", g.issuer, g.holder, g.fee_holder, g.expiry, w.white.contains(&acct(g.holder))));
	let mut c = doughnut_signed(signer, call.clone(), bytes.clone(), n, genesis, tip);
	if !same { if let Call::Doughnut(pallet_doughnut::Call::transact { call, nonce, tip, doughnut, signature, .. }) = &mut c { match rng.below(5) { 0 => **call = Call::Balances(pallet_balances::Call::transfer { dest: acct(99_999), value: 7 }), 1 => *nonce ^= 1, 2 => *tip += 1, 3 => { let mut o = g.clone(); o.fee_holder = !o.fee_holder; *doughnut = o.bytes() }, _ => { let i = rng.below(65) as usize; signature[i] ^= 1 << rng.below(8) } } } }
	let x = unsigned(c);
	let allowed = l.permitted(&g.topping) && w.white.contains(&acct(g.holder)) && !w.held.contains(&(g.issuer, acct(g.holder))) && !revoked;
	let before = balances(); let nonces: Vec<u32> = (0..7).map(|i| nonce(acct(i))).collect();
	let p = pool(x.clone()); let o = apply(x.clone()); let after = balances();
	let result = events().iter().find_map(|e| if let RuntimeEvent::Doughnut(pallet_doughnut::Event::DoughnutCallExecuted { result, .. }) = e { Some(*result) } else { None });
	// a futurepass reports the outcome of what it ran in its own event
	let result = result.map(|r| events().iter().find_map(|e| if let RuntimeEvent::Proxy(pallet_proxy::Event::ProxyExecuted { result: Err(e) }) = e { Some(Err(*e)) } else { None }).unwrap_or(r));
	let ran = l.seen(&before, &after, from, (wrap == Wrap::Fee || wrap == Wrap::FeeFp).then_some(w.token)).unwrap_or(result == Some(Ok(())));
	let ctx = || format!("{how} grant#{gi} {g:?} wrap {wrap:?} leaf {l:?}: outcome {o:?}, result {result:?}, pool {p:?}; {}", diff(&before, &after));
	if valid && maybe && o.invalid() { vk::hit("variant_refused"); ensure!(["C26"], !ran, "refused-ran", "{}", ctx()); return }
	ensure!(["C26"], o.invalid() != valid, "admission", "valid {valid}: {}", ctx());
	if !valid { ensure!(["C26"], !ran && before == after, "invalid-effect", "{}", ctx()); ensure!(["C26"], how == "future-nonce" || !(g.not_before <= now && now < g.expiry) || p.is_err(), "pool", "{}", ctx()); vk::hit_s(format!("refused:{how}")); vk::hit("refused"); return }
	// the pool judges for the next block
	ensure!(["C26"], p.is_ok() == (g.not_before <= now + 1 && now + 1 < g.expiry), "pool", "{}", ctx());
	for i in 0..7u64 { ensure!(["C26"], nonce(acct(i)) == nonces[i as usize] + (i == g.holder) as u32, "nonce", "nonce of {i}: {}", ctx()); }
	// the certificate decides
	let leaf_can = !matches!(&l, Other(..));
	ensure!(["C26"], !ran || (allowed && leaf_can), "beyond-grant", "a call ran beyond its grant: {}", ctx());
	ensure!(["C26"], o.ok() == allowed && result.is_some() == allowed, "outcome", "allowed {allowed}: {}", ctx());
	if allowed { if result == Some(Ok(())) { ensure!(["C26"], ran, "not-as-issuer", "the call did not run as the issuer: {}", ctx()); vk::hit("ran"); vk::hit_s(format!("ran:{wrap:?}")) } else { ensure!(["C26"], !ran, "failed-but-ran", "{}", ctx()); vk::hit("inner_failed") } }
	else { vk::hit("denied"); if revoked { vk::hit("revoked_denied"); vk::hit_s(format!("revoked:{how}")) } if w.held.contains(&(g.issuer, acct(g.holder))) { vk::hit("holder_revoked_denied") } if !w.white.contains(&acct(g.holder)) { vk::hit("not_whitelisted") } if !l.permitted(&g.topping) { vk::hit("topping_denied") } }
	// nobody but the issuer side, the payer and the destination is touched
	let dest = match &l { Pay(d, _) | PayKeep(d, _) | Ext(_, d, _, _) | Pass(d) | Other(_, d) => *d, Remark(_) => acct(0) };
	let pot = TxFeePot::account_id();
	for k in before.keys().chain(after.keys()) { if before.get(k) == after.get(k) { continue } let dexish = wrap == Wrap::Fee || wrap == Wrap::FeeFp; let newfp = matches!(&l, Pass(_)) && pallet_futurepass::Holders::<Runtime>::get(dest) == Some(k.1);
		let ok = (k.1 == from && ran && k.0 != XRP) || (k.1 == from && ran) || k.1 == dest || (k.1 == payer.unwrap() && (k.0 == XRP || dexish)) || (k.1 == pot && k.0 == XRP) || newfp || (dexish && !(0..7).any(|i| acct(i) == k.1) && !w.fps.values().any(|f| *f == k.1));
		ensure!(["C26"], ok, "third-party", "account {:?} asset {} changed: {}", k.1, k.0, ctx()); }
	if !o.invalid() { w.done.push(x); }
}
pub fn run() {
	vk::episodes(vk::tier(500, 5000), |_, rng| chain(7, || {
		let mut w = setup();
		for i in 0..7 { if rng.chance(80) { assert_ok!(root(Call::Doughnut(pallet_doughnut::Call::update_whitelisted_holders { holder: acct(i), add: true }))); w.white.insert(acct(i)); } }
		for _ in 0..vk::tier(60, 100) {
			match rng.below(100) {
				0..=64 => one(rng, &mut w),
				65..=71 => if !w.done.is_empty() { let x = rng.pick(&w.done).clone(); vk::op("replay"); let st = balances(); let p = pool(x.clone()); let o = apply(x); ensure!(["C26"], o.invalid() && p.is_err(), "replay", "an executed delegated call was accepted again: {o:?} pool {p:?}"); ensure!(["C26"], st == balances(), "replay-effect", "replay moved money"); vk::hit("replayed") },
				72..=78 => if !w.grants.is_empty() {
					let gi = rng.below(w.grants.len() as u64) as usize; let g = w.grants[gi].clone(); let revoke = rng.chance(75); let who = if rng.chance(75) { g.issuer } else { rng.below(7) };
					let r = signed(acct(who), Call::Doughnut(pallet_doughnut::Call::revoke_doughnut { doughnut: g.bytes(), revoke }));
					vk::op(format!("revoke grant#{gi} {revoke} by {who}: {r:?}"));
					ensure!(["C26"], r.is_ok() == (who == g.issuer), "revoke-authority", "revoke_doughnut by {who} for a grant of {}: {r:?}", g.issuer);
					if r.is_ok() { // equal grants share their fate
						let same: Vec<usize> = (0..w.grants.len()).filter(|i| w.grants[*i].bytes() == g.bytes()).collect(); for i in same { if revoke { w.revoked.insert(i); } else { w.revoked.remove(&i); } } vk::hit(if revoke { "revoked" } else { "unrevoked" }) }
				},
				79..=83 => { let (i, hd, revoke) = (rng.below(4), rng.below(7), rng.chance(60)); assert_ok!(signed(acct(i), Call::Doughnut(pallet_doughnut::Call::revoke_holder { holder: acct(hd), revoke }))); if revoke { w.held.insert((i, acct(hd))); } else { w.held.remove(&(i, acct(hd))); } vk::op(format!("revoke holder {i}->{hd} {revoke}")); },
				84..=87 => { let (hd, add) = (rng.below(7), rng.chance(75)); let c = Call::Doughnut(pallet_doughnut::Call::update_whitelisted_holders { holder: acct(hd), add }); if rng.chance(25) { let r = signed(acct(rng.below(7)), c); ensure!(["C26"], r.is_err(), "whitelist-authority", "a user changed the whitelist"); vk::hit("whitelist_intruder") } else { assert_ok!(root(c)); if add { w.white.insert(acct(hd)); } else { w.white.remove(&acct(hd)); } vk::op(format!("whitelist {hd} {add}")); } },
				88..=91 => { // the call is nobody's to dispatch in the ordinary way
					let g = Grant::all(rng.below(4), rng.below(7)); let d = acct(50_000 + rng.below(1000)); let c = doughnut_signed(g.holder, Pay(d, 9).call(&w), g.bytes(), nonce(acct(g.holder)), GENESIS_HASH, 0);
					let before = bal(ROOT, d); let u = rng.below(7);
					let how = rng.below(4);
					match how { 0 => { let _ = submit(u, c); }, 1 => { let _ = submit(u, Call::Utility(pallet_utility::Call::batch { calls: vec![c] })); }, 2 => { let _ = submit(0, Call::Futurepass(pallet_futurepass::Call::proxy_extrinsic { futurepass: w.fps[&0], call: Box::new(c) })); }, _ => { let m = Memo::of(&c, nonce(acct(u)), 1000, 0); let _ = apply(unsigned(xrpl(Key::Ecdsa(u), c, &m))); } }
					ensure!(["C26"], bal(ROOT, d) == before, "not-self-contained", "a delegated call ran inside another transaction ({how})"); vk::hit("not_dispatchable") },
				_ => { let b = System::block_number() + 1; System::set_block_number(b); vk::op(format!("block {b}")); },
			}
			vk::state(&(w.revoked.len(), w.white.len(), w.held.len(), w.grants.len(), System::block_number()));
		}
	}));
	let _ = |d: &DoughnutV1| d.verify();
}
pub const REQUIRED: &[&str] = &["ran", "denied", "refused", "revoked_denied", "holder_revoked_denied", "not_whitelisted", "topping_denied", "replayed", "revoked", "unrevoked", "not_dispatchable", "whitelist_intruder", "inner_failed"];
