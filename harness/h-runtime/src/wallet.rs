//! C27: calls in XRPL-wallet envelopes run only as signed, once, as the signer, who pays
use crate::env::*;
use crate::rt::*;
use crate::*;
use frame_support::traits::tokens::Preservation;
#[derive(Clone, Debug)] enum Leaf { Pay(AccountId, u128), Xrp(AccountId, u128), TooMuch(AccountId), Batch(AccountId, u128), Pass(AccountId), Filtered, Nested(AccountId) }
use Leaf::*;
#[derive(Clone, Copy, Debug, PartialEq)] enum Wrap { None, Fp, OtherFp, Fee, FeeFp }
struct World { keys: Vec<Key>, fps: BTreeMap<usize, AccountId>, token: AssetId, fresh: u64, done: Vec<UncheckedExtrinsic>, texts: Vec<(usize, Vec<u8>, Vec<u8>, Call)> }
fn give(to: AccountId, token: AssetId) { for (a, v) in [(ROOT, START / 50), (XRP, START / 50), (token, 1u128 << 70)] { assert_ok!(<AssetsExt as frame_support::traits::fungibles::Mutate<AccountId>>::transfer(a, &acct(SUDO), &to, v, Preservation::Expendable)); } }
fn setup() -> World {
	assert_ok!(signed(acct(SUDO), Call::AssetsExt(pallet_assets_ext::Call::create_asset { name: b"pay".to_vec(), symbol: b"PAY".to_vec(), decimals: 6, min_balance: Some(1), owner: None })));
	let token = pallet_assets::Asset::<Runtime>::iter().map(|x| x.0).filter(|x| *x > 2).max().unwrap();
	assert_ok!(AssetsExt::mint_into(token, &acct(SUDO), 1u128 << 76));
	assert_ok!(signed(acct(SUDO), Call::Dex(pallet_dex::Call::add_liquidity { token_a: token, token_b: XRP, amount_a_desired: START / 4, amount_b_desired: START / 4, amount_a_min: 1, amount_b_min: 1, to: None, deadline: None })));
	let keys = vec![Key::Ecdsa(0), Key::Ed(0), Key::Ecdsa(1), Key::Ed(1), Key::Ecdsa(2), Key::Ed(2)];
	let mut fps = BTreeMap::new();
	for (i, k) in keys.iter().enumerate() {
		if i == 5 { continue } // a signer without money
		give(k.acct(), token);
		if i < 3 { assert_ok!(signed(k.acct(), Call::Futurepass(pallet_futurepass::Call::create { account: k.acct() }))); let fp = pallet_futurepass::Holders::<Runtime>::get(k.acct()).unwrap(); give(fp, token); fps.insert(i, fp); }
	}
	World { keys, fps, token, fresh: 0, done: vec![], texts: vec![] }
}
impl Leaf {
	fn call(&self) -> Call { match self {
		Pay(d, v) => Call::Balances(pallet_balances::Call::transfer { dest: *d, value: *v }),
		Xrp(d, v) => Call::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: XRP, destination: *d, amount: *v, keep_alive: false }),
		TooMuch(d) => Call::Balances(pallet_balances::Call::transfer { dest: *d, value: START * 9 }),
		Batch(d, v) => Call::Utility(pallet_utility::Call::batch_all { calls: vec![Pay(*d, *v).call(), Pay(*d, 1).call()] }),
		Pass(d) => Call::Futurepass(pallet_futurepass::Call::create { account: *d }),
		Filtered => Call::EthBridge(pallet_ethy::Call::submit_challenge { event_claim_id: 1 }),
		Nested(d) => { let c = Pay(*d, 3).call(); let m = Memo::of(&c, nonce(acct(4)), 1000, 0); xrpl(Key::Ecdsa(4), c, &m) },
	} }
	fn dest(&self) -> AccountId { match self { Pay(d, _) | Xrp(d, _) | TooMuch(d) | Batch(d, _) | Pass(d) | Nested(d) => *d, Filtered => acct(9_999) } }
	/// may the call itself succeed?
	fn fine(&self) -> bool { !matches!(self, TooMuch(_) | Filtered | Nested(_)) }
}
fn mutate_bytes(rng: &mut Rng, b: &mut Vec<u8>) { match rng.below(4) { 0 => { let n = rng.below(b.len() as u64) as usize; b.truncate(n) }, 1 => { let i = rng.below(b.len() as u64) as usize; b.remove(i); }, _ => { let i = rng.below(b.len() as u64) as usize; b[i] ^= 1 << rng.below(8) } } }
fn one(rng: &mut Rng, w: &mut World) {
	let ki = rng.below(w.keys.len() as u64) as usize; let key = w.keys[ki]; let who = key.acct(); let poor = ki == 5;
	w.fresh += 1; let d = acct(30_000 + w.fresh); let v = rng.range(1, 900) as u128;
	let wrap = match rng.below(10) { 0 | 1 if w.fps.contains_key(&ki) => Wrap::Fp, 0 | 2 => Wrap::OtherFp, 3 => Wrap::Fee, 4 if w.fps.contains_key(&ki) => Wrap::FeeFp, _ => Wrap::None };
	let leaf = match rng.below(14) { 0..=4 => Pay(d, v), 5 | 6 => Xrp(d, v), 7 => TooMuch(d), 8 | 9 => Batch(d, v), 10 | 11 if wrap != Wrap::Fp && wrap != Wrap::FeeFp => Pass(d), 12 => Filtered, 13 => Nested(d), _ => Pay(d, v) };
	let fp = w.fps.get(&ki).copied(); let other = *w.fps.iter().find(|(i, _)| **i != ki).unwrap().1;
	let proxied = |f: AccountId, c: Call| Call::Futurepass(pallet_futurepass::Call::proxy_extrinsic { futurepass: f, call: Box::new(c) });
	let pref = |c: Call| Call::FeeProxy(pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: w.token, max_payment: u128::MAX >> 1, call: Box::new(c) });
	let call = match wrap { Wrap::None => leaf.call(), Wrap::Fp => proxied(fp.unwrap(), leaf.call()), Wrap::OtherFp => proxied(other, leaf.call()), Wrap::Fee => pref(leaf.call()), Wrap::FeeFp => pref(proxied(fp.unwrap(), leaf.call())) };
	let (from, payer) = match wrap { Wrap::None | Wrap::Fee => (who, Some(who)), Wrap::Fp | Wrap::FeeFp => (fp.unwrap(), fp), Wrap::OtherFp => (other, fp) };
	let now = System::block_number(); let n0 = nonce(who);
	let mut valid = payer.is_some() && (!poor || wrap != Wrap::None && wrap != Wrap::Fee) && !(wrap == Wrap::None && matches!(leaf, Nested(_)));
	let mut memo = Memo::of(&call, n0, now + rng.below(4) as u32, if rng.chance(30) { if rng.chance(12) && !poor { (1 << 32) + rng.range(0, 60) } else { rng.range(1, 60) } } else { 0 });
	let mut how = "plain"; let mut maybe = false; let mut early = false;
	let kb = key.bytes(); let mut account = account_of(&kb); let mut shown = call.clone();
	let mut key_field = kb.clone(); let mut signer = key;
	let mut memos = |m: &Memo| vec![(b"extrinsic".to_vec(), m.text())];
	// what is signed
	let mut built: Option<Vec<(Vec<u8>, Vec<u8>)>> = None; let mut txn_sig: Option<Vec<u8>> = None; let mut trailing = vec![];
	if rng.chance(70) { match rng.below(24) {
		0 => { how = "genesis"; memo.genesis[rng.below(32) as usize] ^= 1 << rng.below(8); valid = false },
		1 => { how = "old-nonce"; if n0 == 0 { return } memo.nonce = rng.below(n0 as u64) as u32; valid = false },
		2 => { how = "future-nonce"; memo.nonce = n0 + rng.range(1, 4) as u32; valid = false; early = true },
		3 => { how = "deadline"; if now == 0 { return } memo.max_block = rng.below(now as u64) as u32; valid = false },
		4 => { how = "hash-of-another"; memo.hash = sp_io::hashing::blake2_256(&Pay(d, v + 1).call().encode()); valid = false },
		5 => { how = "call-replaced"; shown = if rng.chance(50) { Pay(d, v + 1).call() } else { Xrp(d, v).call() }; if shown == call { return } valid = false },
		6 => { how = "another-signer"; signer = w.keys[(ki + 1 + rng.below(5) as usize) % 6]; valid = false },
		7 => { how = "another-key"; key_field = w.keys[(ki + 1 + rng.below(5) as usize) % 6].bytes(); valid = false },
		8 => { how = "key-type"; key_field[0] = *rng.pick(&[0xED, 2, 3, 0, 4]); if key_field == kb { return } valid = false },
		9 => { how = "empty-key"; key_field = vec![]; valid = false },
		10 => { how = "short-key"; let n = rng.range(1, 32) as usize; key_field.truncate(n); valid = false },
		11 => { how = "two-memos"; let mut m2 = memo.clone(); m2.hash = sp_io::hashing::blake2_256(&Pay(d, 5000).call().encode()); maybe = true; built = Some(if rng.chance(50) { vec![(b"extrinsic".to_vec(), memo.text()), (b"extrinsic".to_vec(), m2.text())] } else { vec![(b"extrinsic".to_vec(), m2.text()), (b"extrinsic".to_vec(), memo.text())] }) },
		12 => { how = "other-memo-first"; built = Some(vec![(b"note".to_vec(), b"hello".to_vec()), (b"Extrinsic".to_vec(), memo.text())]) },
		13 => { how = "no-memo"; built = Some(if rng.chance(50) { vec![] } else { vec![(b"extrinsics".to_vec(), memo.text())] }); valid = false },
		14 => { how = "malformed-memo"; let mut t = memo.text(); match rng.below(5) { 0 => { t.truncate(rng.below(t.len() as u64 - 64) as usize) }, 1 => t.insert(65, b'-'), 2 => t[0] = 0xFF, 3 => t.insert(65, b' '), _ => t = b":::::".to_vec() } built = Some(vec![(b"extrinsic".to_vec(), t)]); valid = false },
		15 => { how = "trailing-memo-field"; let mut t = memo.text(); t.extend_from_slice(b":00"); built = Some(vec![(b"extrinsic".to_vec(), t)]); maybe = true },
		16 => { how = "txn-signature"; txn_sig = Some(rng.bytes(70)); maybe = true },
		17 => { how = "other-account"; account = account_of(&w.keys[(ki + 1) % 6].bytes()); maybe = true },
		18 => { how = "trailing-bytes"; trailing = rng.bytes(3); maybe = true },
		_ => { how = "late" },
	} }
	let mm = built.unwrap_or_else(|| memos(&memo));
	let _ = &mut memos;
	let mut b = body_sig(&key_field, None, account, &mm);
	let mut sig = signer.sign(&b);
	if let Some(s) = &txn_sig { b = body_sig(&key_field, Some(s), account, &mm) }
	b.extend(trailing);
	if how == "late" { match rng.below(6) {
		0 => { how = "body-mutated"; let o = b.clone(); mutate_bytes(rng, &mut b); if o == b { return } valid = false },
		1 => { how = "signature-mutated"; mutate_bytes(rng, &mut sig); valid = false },
		2 => { how = "memo-after-signing"; let mut m = memo.clone(); match rng.below(5) { 0 => m.nonce += 1, 1 => m.max_block += 1, 2 => m.tip += 1, 3 => m.hash[0] ^= 1, _ => { m.nonce = m.nonce.wrapping_sub(1) } } b = body(&key_field, account, &memos_of(&m)); valid = false },
		3 if !w.texts.is_empty() => { how = "old-signature-new-call"; let (k2, _, s2, _) = rng.pick(&w.texts).clone(); if k2 != ki { return } sig = s2; valid = false },
		4 if !w.texts.is_empty() => { how = "old-message-new-call"; let (k2, b2, s2, c2) = rng.pick(&w.texts).clone(); if k2 != ki || c2 == call { return } b = b2; sig = s2; valid = false },
		_ => { how = "raw-signature"; use sp_core::Pair; let raw = match key { Key::Ecdsa(i) => pair(i).sign(&b).0.to_vec(), Key::Ed(i) => ed(i).sign(&b).0.to_vec() }; sig = raw; valid = false },
	} }
	vk::op(format!("{how} {key:?} {wrap:?} {leaf:?} n {} of {n0} until {} at {now} tip {}", memo.nonce, memo.max_block, memo.tip));
	let Some(c) = xrpl_call(b.clone(), sig.clone(), shown.clone()) else { return };
	let x = unsigned(c);
	let before = balances(); let nonces: Vec<u32> = w.keys.iter().map(|k| nonce(k.acct())).collect();
	let p = pool(x.clone()); let o = apply(x.clone()); let after = balances();
	let ev = events();
	let ctx = || format!("{how} {key:?} {wrap:?} {leaf:?} {memo:?}: outcome {o:?}, pool {p:?}; {}", diff(&before, &after));
	let g = |m: &Bal, k: (AssetId, AccountId)| m.get(&k).copied().unwrap_or(0);
	let ran = match &leaf { Pay(d, v) => g(&after, (ROOT, *d)) == *v, Xrp(d, v) => g(&after, (XRP, *d)) == *v, Batch(d, v) => g(&after, (ROOT, *d)) == *v + 1, Pass(d) => pallet_futurepass::Holders::<Runtime>::contains_key(d), TooMuch(d) | Nested(d) => after.keys().any(|k| k.1 == *d), Filtered => false };
	if valid && maybe && o.invalid() { ensure!(["C27"], before == after, "refused-ran", "{}", ctx()); vk::hit("variant_refused"); return }
	ensure!(["C27"], o.invalid() != valid, "admission", "valid {valid}: {}", ctx());
	if !valid {
		ensure!(["C27"], !ran && before == after, "invalid-effect", "{}", ctx());
		let next_ok = how == "deadline"; // judged at the next block: still past
		ensure!(["C27"], early || p.is_err(), "pool", "the pool took an envelope that can never run: next {next_ok} {}", ctx());
		vk::hit_s(format!("refused:{how}")); vk::hit("refused"); return
	}
	ensure!(["C27"], p.is_ok() == (memo.max_block >= now + 1), "pool", "{}", ctx());
	for (i, k) in w.keys.iter().enumerate() { ensure!(["C27"], nonce(k.acct()) == nonces[i] + (i == ki) as u32, "nonce", "{}", ctx()); }
	let allowed = leaf.fine() && wrap != Wrap::OtherFp;
	ensure!(["C27"], ran == allowed, "effect", "expected to run: {allowed}: {}", ctx());
	let said: Vec<_> = ev.iter().filter_map(|e| if let RuntimeEvent::Xrpl(pallet_xrpl::Event::XRPLExtrinsicExecuted { caller, call, .. }) = e { Some((*caller, call.clone())) } else { None }).collect();
	ensure!(["C27"], said.len() == o.ok() as usize, "event", "{} events: {}", said.len(), ctx());
	if let Some((c, k)) = said.first() { ensure!(["C27"], *c == who && *k == call, "event", "the event names {c:?}: {}", ctx()); }
	// money: the payer pays one fee, the source what the call moves
	let dest = leaf.dest(); let moved = |asset: AssetId| if !ran { 0 } else { match &leaf { Pay(_, v) if asset == ROOT => *v, Batch(_, v) if asset == ROOT => *v + 1, Xrp(_, v) if asset == XRP => *v, _ => 0 } };
	let pot = TxFeePot::account_id(); let payer = payer.unwrap();
	let fee = g(&after, (XRP, pot)).saturating_sub(g(&before, (XRP, pot)));
	ensure!(["C27"], fee >= memo.tip as u128 && fee > 0, "fee", "fee {fee}: {}", ctx());
	let swapped = wrap == Wrap::Fee || wrap == Wrap::FeeFp;
	if !matches!(leaf, Pass(_)) { for k in before.keys().chain(after.keys()).collect::<BTreeSet<_>>() {
		let (x, y) = (g(&before, *k), g(&after, *k)); if x == y { continue }
		let mut want = x as i128; if k.1 == from { want -= moved(k.0) as i128 } if k.1 == dest { want += moved(k.0) as i128 }
		if k.0 == XRP && k.1 == payer && !swapped { want -= fee as i128 } if *k == (XRP, pot) { want += fee as i128 }
		if swapped && (k.1 == payer && (k.0 == w.token || k.0 == XRP) || k.1 != payer && !w.keys.iter().any(|q| q.acct() == k.1) && !w.fps.values().any(|f| *f == k.1) && k.1 != dest && *k != (XRP, pot)) { continue }
		ensure!(["C27"], want == y as i128, "money", "account {:?} asset {} expected {want} has {y} (payer {payer:?} fee {fee}): {}", k.1, k.0, ctx());
	} } else { ensure!(["C27"], g(&after, (ROOT, who)) <= g(&before, (ROOT, who)), "money", "{}", ctx()); }
	vk::hit(if ran { "ran" } else { "inner_failed" }); vk::hit_s(format!("{}:{wrap:?}", if ran { "ran" } else { "failed" })); if ran { vk::hit_s(format!("key:{}", matches!(key, Key::Ed(_)))) } if how != "plain" { vk::hit_s(format!("accepted:{how}")) }
	w.done.push(x); w.texts.push((ki, b, sig, call));
}
fn memos_of(m: &Memo) -> Vec<(Vec<u8>, Vec<u8>)> { vec![(b"extrinsic".to_vec(), m.text())] }
pub fn run() {
	vk::episodes(vk::tier(500, 5000), |_, rng| chain(6, || {
		let mut w = setup();
		for _ in 0..vk::tier(60, 100) {
			match rng.below(100) {
				0..=74 => one(rng, &mut w),
				75..=83 => if !w.done.is_empty() { // replays, as they were and in another encoding
					let mut x = rng.pick(&w.done).clone(); let kind = rng.below(3);
					if let Call::Xrpl(pallet_xrpl::Call::transact { encoded_msg, signature, .. }) = &mut x.0.function { match kind {
						0 => {}, 1 => { let mut v = encoded_msg.clone().into_inner(); v.extend(rng.bytes(2)); *encoded_msg = v.try_into().unwrap() },
						_ => { let mut v = signature.clone().into_inner(); v.push(0); if let Ok(s) = v.try_into() { *signature = s } } } }
					vk::op(format!("replay {kind}")); let st = balances(); let p = pool(x.clone()); let o = apply(x);
					ensure!(["C27"], o.invalid() && p.is_err() && st == balances(), "replay", "an executed envelope was accepted again: {o:?} pool {p:?}"); vk::hit("replayed") },
				84..=90 => { // only the envelope itself gives it authority
					let ki = rng.below(5) as usize; let k = w.keys[ki]; w.fresh += 1; let d = acct(30_000 + w.fresh); let c = Pay(d, 9).call(); let m = Memo::of(&c, nonce(k.acct()), 1000, 0); let e = xrpl(k, c, &m);
					let u = rng.below(6); let how = rng.below(6); vk::op(format!("wrapped {how}"));
					let before = balances();
					match how { 0 => { let _ = submit(u, e); }, 1 => { let _ = submit(u, Call::Utility(pallet_utility::Call::batch { calls: vec![e] })); }, 2 => { let _ = root(e); }, 3 => { let _ = submit(0, Call::Futurepass(pallet_futurepass::Call::proxy_extrinsic { futurepass: w.fps[&0], call: Box::new(e) })); },
						4 => { let b = Call::Utility(pallet_utility::Call::batch_all { calls: vec![e] }); let _ = apply(xrpl_now(w.keys[0], b)); }, _ => { let g = Grant::all(0, 1); let _ = root(Call::Doughnut(pallet_doughnut::Call::update_whitelisted_holders { holder: acct(1), add: true })); let _ = apply(doughnut_now(&g, e)); } }
					ensure!(["C27"], !balances().keys().any(|k| k.1 == d) && before.iter().all(|(k, v)| k.0 != ROOT || bal(ROOT, k.1) == *v), "wrapped", "an XRPL call ran inside another transaction ({how}): {}", diff(&before, &balances())); vk::hit("not_wrappable") },
				_ => { let b = System::block_number() + 1; System::set_block_number(b); vk::op(format!("block {b}")); },
			}
			vk::state(&(w.keys.iter().map(|k| nonce(k.acct())).collect::<Vec<_>>(), System::block_number()));
		}
	}));
}
pub const REQUIRED: &[&str] = &["ran", "inner_failed", "refused", "replayed", "not_wrappable"];
