use super::*;
use frame_support::traits::{tokens::{fungibles::{Inspect, Mutate}, Fortitude, Precision, Preservation}, Currency, ExistenceRequirement, Imbalance, SignedImbalance, WithdrawReasons, SameOrOther, Get};
use pallet_assets_ext::{AssetCurrency, Pallet as AE};
use seed_pallet_common::{Hold, TransferExt, CreateExt};
use sp_runtime::traits::AccountIdConversion;
const BOTH: [&str; 2] = ["C04", "C05"];
pub struct Xrp; impl Get<AssetId> for Xrp { fn get() -> AssetId { 2 } }
type Cur = AssetCurrency<Test, Xrp>;
type Neg = <Cur as Currency<AccountId>>::NegativeImbalance;
type Pos = <Cur as Currency<AccountId>>::PositiveImbalance;
type Holds = BTreeMap<([u8; 8], AssetId, AccountId), Balance>;
const PALLETS: [PalletId; 18] = [PalletId(*b"market__"), PalletId(*b"nfi_____"), PalletId(*b"aaaaaaaa"), PalletId(*b"zzzzzzzz"), PalletId(*b"nfi____0"), PalletId(*b"market_a"), PalletId(*b"aaaaaaab"),
	// for the crowded episodes: more pallets than there may be holds on one account and asset
	PalletId(*b"market_b"), PalletId(*b"0aaaaaaa"), PalletId(*b"n0000001"), PalletId(*b"n0000002"), PalletId(*b"n0000003"), PalletId(*b"n0000004"), PalletId(*b"n0000005"), PalletId(*b"n0000006"), PalletId(*b"q0000000"), PalletId(*b"\x00\x00\x00\x00\x00\x00\x00\x00"), PalletId(*b"\xff\xff\xff\xff\xff\xff\xff\xff")];
fn holds(pallets: &[PalletId]) -> Holds { let mut m = Holds::new(); for a in all_assets() { for w in (1..=5).map(create_account) { for p in pallets.iter().copied() { let v = AE::<Test>::hold_balance(&p, &w, &a); if v > 0 { m.insert((p.0, a, w), v); } } } } m }
fn pot() -> AccountId { PalletId(*b"assetext").into_account_truncating() }
pub fn run() { let n = vk::tier(15_000, 400_000); vk::episodes(n, |_, r| episode(r)); }
fn episode(r: &mut Rng) {
	let users: Vec<AccountId> = (1..=5).map(create_account).collect();
	let scale: u128 = [1_000u128, 1_000_000, 1_000_000_000_000, 1 << 90][r.below(4) as usize];
	let endow: Vec<(AccountId, Balance)> = users[..4].iter().map(|u| (*u, scale)).collect();
	let assets: Vec<AssetId> = vec![1, 2, 5];
	TestExt::<Test>::default().with_balances(&endow).with_xrp_balances(&endow).with_asset(5, "TKN", &endow).build().execute_with(|| {
		let mut assets = assets.clone();
		let crowd = vk::is("C05") && r.chance(5);
		let pallets = if crowd { &PALLETS[..] } else { &PALLETS[..7] };
		let mut model = holds(pallets);
		let hot = if r.chance(60) { Some((*r.pick(&users[..4]), *r.pick(&assets))) } else { None };
		let hot = if crowd { Some((*r.pick(&users[..4]), *r.pick(&assets))) } else { hot };
		if let (true, Some((w, x))) = (crowd, hot) { let skip = r.below(18) as usize; let n = 13 + r.below(4) as usize; for i in 0..n { let p = PALLETS[(i * 5 + skip) % 18]; if tx(|| <AE<Test> as Hold>::place_hold(p, &w, x, 1 + i as u128)).is_ok() { model.insert((p.0, x, w), 1 + i as u128); } } }
		let steps = 30 + r.below(30);
		for _ in 0..steps {
			let pre = balances(); let pre_iss: BTreeMap<AssetId, Balance> = all_assets().into_iter().map(|a| (a, issuance(a))).collect();
			let _ = events();
			let who = *r.pick(&users); let dst = if r.chance(10) { who } else { *r.pick(&users) };
			let a = *r.pick(&assets);
			let have = pre.get(&(a, who)).copied().unwrap_or(0);
			let amt = r.amount(have);
			let mut e = pre.clone(); let mut iss = pre_iss.clone();
			let owner = create_account(100);
			let what; let ok;
			let pick = r.below(if vk::is("C05") { 22 } else { 14 });
			// many holders on one account and asset: order matters when one of them is given back
			let (who, a, have, amt) = match hot { Some((w, x)) if pick >= 14 && r.chance(70) => { let h = pre.get(&(x, w)).copied().unwrap_or(0); (w, x, h, r.amount(h / 4)) }, _ => (who, a, have, amt) };
			match pick {
				0 | 1 => {
					let ka = r.chance(30);
					what = format!("transfer({a}, {who:?} -> {dst:?}, {amt}, keep_alive {ka})"); vk::op(&what);
					ok = vk::guard("transfer", || tx(|| AssetsExt::transfer(RuntimeOrigin::signed(who), a, dst, amt, ka))).is_ok();
					if ok { vk::hit("transfer_ok"); ensure!(BOTH, sub(&mut e, (a, who), amt), "overdraw", "{what}"); add(&mut e, (a, dst), amt); }
				},
				2 => {
					let by = if r.chance(60) { owner } else { who };
					what = format!("mint({a}, to {dst:?}, {amt}) by {by:?}"); vk::op(&what);
					ok = vk::guard("mint", || tx(|| AssetsExt::mint(RuntimeOrigin::signed(by), a, dst, amt))).is_ok();
					if ok { vk::hit("mint_ok"); ensure!(["C04"], a != 1, "native-minted", "{what}"); ensure!(["C04"], amt == 0 || by == pallet_assets::Asset::<Test>::get(a).unwrap().issuer, "mint-by-stranger", "{what}"); add(&mut e, (a, dst), amt); *iss.get_mut(&a).unwrap() += amt; }
				},
				3 => {
					let by = if r.chance(60) { owner } else { dst };
					what = format!("burn_from({a}, {who:?}, {amt}) by {by:?}"); vk::op(&what);
					ok = vk::guard("burn", || tx(|| AssetsExt::burn_from(RuntimeOrigin::signed(by), a, who, amt))).is_ok();
					if ok { vk::hit("burn_ok"); ensure!(["C04"], a != 1, "native-burned", "{what}"); ensure!(["C04"], amt == 0 || by == pallet_assets::Asset::<Test>::get(a).unwrap().admin, "burn-by-stranger", "{what}");
						// pallet-assets burns best-effort: what left the account must equal what left the issuance
						let left = balances().get(&(a, who)).copied().unwrap_or(0); let burned = have - left.min(have); ensure!(["C04"], burned <= amt || left == 0, "burned-more", "{what}: burned {burned}"); sub(&mut e, (a, who), burned); *iss.get_mut(&a).unwrap() -= burned; }
				},
				4 => {
					what = format!("mint_into({a}, {dst:?}, {amt})"); vk::op(&what);
					ok = vk::guard("mint_into", || tx(|| <AE<Test> as Mutate<AccountId>>::mint_into(a, &dst, amt))).is_ok();
					if ok { vk::hit("mint_ok"); add(&mut e, (a, dst), amt); *iss.get_mut(&a).unwrap() += amt; }
				},
				5 => {
					what = format!("Mutate::burn_from({a}, {who:?}, {amt})"); vk::op(&what);
					let prec = if r.chance(70) { Precision::Exact } else { Precision::BestEffort };
					let res = vk::guard("burn_from", || tx(|| <AE<Test> as Mutate<AccountId>>::burn_from(a, &who, amt, prec, Fortitude::Polite)));
					ok = res.is_ok();
					if let Ok(b) = res { vk::hit("burn_ok"); if matches!(prec, Precision::Exact) { ensure!(["C04"], b >= amt || amt > have, "burn-not-exact", "{what}: {b}") } ensure!(["C04"], b <= have, "overburn", "{what}"); let left = balances().get(&(a, who)).copied().unwrap_or(0); ensure_eq!(["C04"], have - left, b, "burn-return-wrong", "{what}"); sub(&mut e, (a, who), b); *iss.get_mut(&a).unwrap() -= b; }
				},
				6 | 7 => {
					let k = r.below(5); let t: Vec<(AccountId, Balance)> = (0..k).map(|_| (*r.pick(&users), if r.chance(20) { 0 } else { r.amount(have / (k as u128 + 1)).min(1 << 100) })).collect();
					let total: Balance = t.iter().map(|x| x.1).sum();
					what = format!("split_transfer({who:?}, {a}, {t:?})"); vk::op(&what);
					ok = vk::guard("split_transfer", || tx(|| <AE<Test> as TransferExt>::split_transfer(&who, a, &t))).is_ok();
					if ok { vk::hit("split_transfer_ok"); ensure!(BOTH, total <= have, "split-overdraws", "{what}"); let mut m = e.clone(); for (d, v) in &t { ensure!(BOTH, sub(&mut m, (a, who), *v), "split-overdraws", "{what}"); add(&mut m, (a, *d), *v); } e = m; }
				},
				8 | 9 | 10 => {
					// fee style withdraw / refund with imbalances, on XRP
					let have = pre.get(&(2, who)).copied().unwrap_or(0); let v = r.amount(have); let refund = r.amount(v); let mode = r.below(7); let over = pre.get(&(2, dst)).copied().unwrap_or(0); let over = if over > 0 { u128::MAX - r.below(over.min(1 << 60) as u64) as u128 } else { 0 };
					what = format!("withdraw({who:?}, {v}) then mode {mode} refund {refund} to {dst:?}"); vk::op(&what);
					let er = if r.chance(30) { ExistenceRequirement::KeepAlive } else { ExistenceRequirement::AllowDeath };
					let res = vk::guard("imbalance", || tx(|| -> Result<(Balance, Balance), DispatchError> {
						let n: Neg = <Cur as Currency<AccountId>>::withdraw(&who, v, WithdrawReasons::all(), er)?;
						let taken = n.peek();
						let mut back = 0;
						match mode {
							0 => { vk::hit("withdraw_drop"); drop(n) },
							1 => { let p: Pos = <Cur as Currency<AccountId>>::deposit_creating(&dst, refund.min(v)); back = p.peek(); match n.offset(p) { SameOrOther::Same(x) => { vk::hit("offset_same"); let (t, f) = x.split(3); drop(t); drop(f) }, SameOrOther::Other(x) => { vk::hit("offset_other"); drop(x) }, SameOrOther::None => {} } },
							2 => { let (x, y) = n.split(refund); let z = x.merge(y); vk::hit("merge"); drop(z) },
							3 => { let mut acc = Neg::zero(); let (x, y) = n.split(refund); acc.subsume(x); acc.subsume(y); vk::hit("zero_subsume"); drop(acc) },
							4 => { let acc = Neg::zero().merge(n); vk::hit("zero_merge"); drop(acc) },
							6 => { vk::hit("overflowing_deposit"); drop(n); let p: Pos = <Cur as Currency<AccountId>>::deposit_creating(&dst, over); back = p.peek(); drop(p) },
							_ => { let p: Pos = <Cur as Currency<AccountId>>::deposit_into_existing(&dst, refund)?; back = p.peek(); let mut q = Pos::zero(); let (x, y) = p.split(refund / 2); q.subsume(x); q = q.merge(y); vk::hit("merge"); match q.offset(n) { SameOrOther::Same(x) => drop(x), SameOrOther::Other(x) => drop(x), SameOrOther::None => {} } },
						}
						Ok((taken, back))
					}));
					ok = res.is_ok();
					if let Ok((t, b)) = res { ensure_eq!(["C04"], t, v, "withdraw-wrong-amount", "{what}"); ensure!(["C04"], sub(&mut e, (2, who), t), "overdraw", "{what}"); add(&mut e, (2, dst), b); let i = iss.get_mut(&2).unwrap(); *i = *i - t + b; if mode == 1 || mode == 5 { let asked = if mode == 1 { refund.min(v) } else { refund }; ensure!(["C04"], b == asked || b == 0, "refund-wrong", "{what}: {b}") } }
				},
				11 => {
					let f = <Cur as Currency<AccountId>>::free_balance(&who); let target = r.amount(f);
					what = format!("make_free_balance_be({who:?}, {target}) from {f}"); vk::op(&what);
					let (neg, n) = vk::guard("make_free_balance_be", || match <Cur as Currency<AccountId>>::make_free_balance_be(&who, target) { SignedImbalance::Negative(n) => (true, n.peek()), SignedImbalance::Positive(p) => (false, p.peek()) });
					ok = n > 0;
					if ok { vk::hit("make_free_balance_be_ok"); let i = iss.get_mut(&2).unwrap(); if neg { ensure!(["C04"], sub(&mut e, (2, who), n), "overdraw", "{what}"); *i -= n } else { add(&mut e, (2, who), n); *i += n } ensure_eq!(["C04"], <Cur as Currency<AccountId>>::free_balance(&who), target, "make-free-balance-wrong", "{what}"); }
				},
				12 => {
					let min = match r.below(4) { 0 => None, 1 => Some(0), _ => Some(1 + r.below(20) as u128) };
					what = format!("create_asset({who:?}, min {min:?})"); vk::op(&what);
					let dec = r.below(22) as u8;
					ok = vk::guard("create_asset", || tx(|| AssetsExt::create_asset(RuntimeOrigin::signed(who), b"n".to_vec(), b"s".to_vec(), dec, min, if r.chance(50) { Some(owner) } else { None }))).is_ok();
					if ok { vk::hit("create_ok"); ensure!(["C04"], dec <= 18, "decimals-too-high", "{what}"); let new: Vec<AssetId> = all_assets().into_iter().filter(|x| !pre_iss.contains_key(x)).collect(); ensure_eq!(BOTH, new.len(), 1, "not-one-new-asset", "{what}"); assets.push(new[0]); iss.insert(new[0], 0); }
				},
				13 => {
					what = format!("create via CreateExt owner {who:?}"); vk::op(&what);
					let res = vk::guard("create", || tx(|| <AE<Test> as CreateExt>::create(&owner, Some(1 + r.below(5) as u128)))); ok = res.is_ok();
					if let Ok(i) = res { ensure!(BOTH, !pre_iss.contains_key(&i), "asset-id-reused", "{what}"); assets.push(i); iss.insert(i, 0); }
				},
				14..=16 => {
					let p = *r.pick(pallets);
					what = format!("place_hold({:?}, {who:?}, {a}, {amt})", p.0); vk::op(&what);
					ok = vk::guard("place_hold", || tx(|| <AE<Test> as Hold>::place_hold(p, &who, a, amt))).is_ok();
					let on = model.keys().filter(|j| (j.1, j.2) == (a, who)).count(); if on >= 16 && !model.contains_key(&(p.0, a, who)) { vk::hit(if ok { "beyond_the_limit" } else { "full" }); }
					if ok { vk::hit("hold_ok"); ensure!(["C05"], sub(&mut e, (a, who), amt), "hold-overdraws", "{what}"); add(&mut e, (a, pot()), amt); if amt > 0 || model.contains_key(&(p.0, a, who)) { *model.entry((p.0, a, who)).or_insert(0) += amt; } } else { vk::hit("hold_rejected"); }
				},
				17 | 18 => {
					let k = if r.chance(75) && !model.is_empty() { *r.pick(&model.keys().copied().collect::<Vec<_>>()) } else { (r.pick(pallets).0, a, who) };
					let held = model.get(&k).copied().unwrap_or(0); let amt = if r.chance(30) { held } else { r.amount(held) };
					what = format!("release_hold({:?}, {amt}) held {held}", k); vk::op(&what);
					ok = vk::guard("release_hold", || tx(|| <AE<Test> as Hold>::release_hold(PalletId(k.0), &k.2, k.1, amt))).is_ok();
					if ok { vk::hit("release_ok"); ensure!(["C05"], amt <= held, "released-more-than-held", "{what}"); ensure!(["C05"], sub(&mut e, (k.1, pot()), amt), "holding-account-short", "{what}"); add(&mut e, (k.1, k.2), amt); if held > 0 { model.insert(k, held - amt); } } else { vk::hit("release_rejected");
						// a holder can always get back what is held, unless the amount is below the asset's minimum for a dead account
						let dead = pre.get(&(k.1, k.2)).copied().unwrap_or(0) == 0; let drained = pre.get(&(k.1, pot())).copied().unwrap_or(0) == amt; ensure!(["C05"], amt > held || amt == 0 || dead || drained || held == 0 || min_bal(k.1) > 1, "release-refused", "{what}"); }
				},
				_ => {
					let k = if r.chance(75) && !model.is_empty() { *r.pick(&model.keys().copied().collect::<Vec<_>>()) } else { (r.pick(pallets).0, a, who) };
					let held = model.get(&k).copied().unwrap_or(0);
					let n = r.below(4); let t: Vec<(AccountId, Balance)> = (0..n).map(|i| (*r.pick(&users), if r.chance(30) && i == 0 { held } else { r.amount(held / (n as u128 + 1)).min(1 << 100) })).collect();
					let total: Balance = t.iter().map(|x| x.1).sum();
					what = format!("spend_hold({k:?}, {t:?}) held {held}"); vk::op(&what);
					ok = vk::guard("spend_hold", || tx(|| <AE<Test> as Hold>::spend_hold(PalletId(k.0), &k.2, k.1, &t))).is_ok();
					if ok { vk::hit("spend_ok"); ensure!(["C05"], total <= held, "spent-more-than-held", "{what}"); for (d, v) in &t { ensure!(["C05"], sub(&mut e, (k.1, pot()), *v), "holding-account-short", "{what}"); add(&mut e, (k.1, *d), *v); } if held > 0 { model.insert(k, held - total); } } else { vk::hit("spend_rejected"); }
				},
			}
			let post = balances();
			let post_iss: BTreeMap<AssetId, Balance> = all_assets().into_iter().map(|a| (a, issuance(a))).collect();
			if ok { absorb_dust(&mut e, &mut iss, &post, &post_iss); }
			ensure!(BOTH, e == post, if ok { "balances-wrong" } else { "rejected-call-moved-funds" }, "{what} ok={ok}: {}", diff(&e, &post));
			ensure_eq!(["C04"], iss, post_iss, "issuance-wrong", "{what} ok={ok}");
			conserve(&what);
			// above half of the balance range pallet-assets itself drops the credit of a transfer: the episode ends there
			if post_iss.values().any(|v| *v > u128::MAX / 2) { vk::hit("ended_at_huge_supply"); break }
			model.retain(|_, v| *v > 0);
			if model.keys().any(|k| model.keys().filter(|j| (j.1, j.2) == (k.1, k.2)).count() >= 4) { vk::hit("many_holders") }
			let mut real = holds(pallets); real.retain(|_, v| *v > 0);
			ensure_eq!(["C05"], model, real, "holds-wrong", "{what} ok={ok}");
			for a in all_assets() { let s: Balance = model.iter().filter(|(k, _)| k.1 == a).map(|(_, v)| *v).sum(); let h = post.get(&(a, pot())).copied().unwrap_or(0); ensure!(["C05"], h >= s || min_bal(a) > 1, "holds-not-backed", "{what}: asset {a} holds {s} but the holding account owns {h}"); }
			digest();
		}
	});
}
// pallet-assets reaps an account which would keep less than the asset's minimum balance: that dust goes along with the
// amount debited (to the destination, or out of the issuance when burned). The expectation follows it.
fn absorb_dust(e: &mut BTreeMap<(AssetId, AccountId), Balance>, iss: &mut BTreeMap<AssetId, Balance>, post: &BTreeMap<(AssetId, AccountId), Balance>, post_iss: &BTreeMap<AssetId, Balance>) {
	for a in all_assets() {
		let min = min_bal(a); if min <= 1 { continue }
		let reaped: Vec<((AssetId, AccountId), Balance)> = e.iter().filter_map(|(k, v)| { let p = post.get(k).copied().unwrap_or(0); (k.0 == a && p < *v && *v - p < 2 * min).then(|| (*k, p)) }).collect();
		let mut dust: Balance = 0; for (k, p) in reaped { dust += e[&k] - p; if p == 0 { e.remove(&k); } else { e.insert(k, p); } }
		if dust == 0 { continue } vk::hit("dust_reaped");
		for (k, v) in post.iter().filter(|(k, _)| k.0 == a) { let exp = e.get(k).copied().unwrap_or(0); if *v > exp && *v - exp <= dust { dust -= *v - exp; e.insert(*k, *v); } }
		let (i, pi) = (iss[&a], post_iss[&a]); if pi < i && i - pi <= dust { iss.insert(a, pi); }
	}
}
fn min_bal(a: AssetId) -> Balance { <AssetsExt as Inspect<AccountId>>::minimum_balance(a) }
