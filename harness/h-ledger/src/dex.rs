use super::*;
use frame_support::traits::tokens::fungibles::{Inspect, Mutate};
use frame_support::traits::tokens::Preservation;
use pallet_dex::types::TradingPair;
const ALL: [&str; 3] = ["C01", "C02", "C03"];
type Pool = (AssetId, AssetId);
#[derive(Clone, Debug, PartialEq)]
struct Snap { bal: Bal, res: BTreeMap<Pool, (Balance, Balance)>, lp: BTreeMap<Pool, (AssetId, Balance)>, status: BTreeMap<Pool, bool> }
fn pools() -> Vec<TradingPair> { pallet_dex::TradingPairLPToken::<Test>::iter().filter(|(_, l)| l.is_some()).map(|(p, _)| p).collect() }
fn snap() -> Snap {
	let mut s = Snap { bal: balances(), res: Default::default(), lp: Default::default(), status: Default::default() };
	for p in pools() {
		let k = (p.0, p.1);
		s.res.insert(k, pallet_dex::LiquidityPool::<Test>::get(p));
		if let Ok(l) = Dex::get_lp_token_id(p.0, p.1) { s.lp.insert(k, (l, issuance(l))); }
		s.status.insert(k, format!("{:?}", Dex::get_trading_pair_status(p.0, p.1)) == "Enabled");
	}
	s
}
fn pair(a: AssetId, b: AssetId) -> Pool { if a < b { (a, b) } else { (b, a) } }
fn addr(p: Pool) -> AccountId { TradingPair::new(p.0, p.1).pool_address() }
fn big(x: u128) -> U256 { U256::from(x) }
fn res(s: &Snap, i: AssetId, o: AssetId) -> (Balance, Balance) { let (a, b) = s.res.get(&pair(i, o)).copied().unwrap_or((0, 0)); if i < o { (a, b) } else { (b, a) } }
fn set_res(r: &mut BTreeMap<Pool, (Balance, Balance)>, i: AssetId, o: AssetId, ri: Balance, ro: Balance) { r.insert(pair(i, o), if i < o { (ri, ro) } else { (ro, ri) }); }

/// reference for a swap: given the amounts along the path, the exact balances and reserves afterwards
fn check_swap(pre: &Snap, post: &Snap, who: AccountId, to: AccountId, path: &[AssetId], amounts: &[Balance], what: &str) {
	let mut b = pre.bal.clone(); let mut r = pre.res.clone();
	let a0 = addr(pair(path[0], path[1]));
	ensure!(ALL, sub(&mut b, (path[0], who), amounts[0]), "swap-overdraws-sender", "{what}: sender never had {} of asset {}", amounts[0], path[0]);
	add(&mut b, (path[0], a0), amounts[0]);
	for h in 0..path.len() - 1 {
		let (i, o) = (path[h], path[h + 1]); let p = pair(i, o);
		let (ri, ro) = { let (x, y) = r[&p]; if i < o { (x, y) } else { (y, x) } };
		ensure!(["C01"], amounts[h + 1] > 0 && amounts[h + 1] < ro, "reserve-drained", "{what}: hop {h} takes {} of reserve {ro}", amounts[h + 1]);
		// constant product with a 0.3% fee: out * (ri*1000 + in*997) <= in*997*ro
		let lhs = big(amounts[h + 1]) * (big(ri) * big(1000) + big(amounts[h]) * big(997)); let rhs = big(amounts[h]) * big(997) * big(ro);
		let donated = b.get(&(i, addr(p))).copied().unwrap_or(0) > ri + amounts[h];
		if donated { vk::hit("swap_with_donation") }
		ensure!(["C01"], lhs <= rhs, "fee-not-charged", "{what}: hop {h} in {} out {} reserves {ri}/{ro} pays out more than the fee-adjusted curve", amounts[h], amounts[h + 1]);
		let dest = if h + 2 < path.len() { addr(pair(path[h + 1], path[h + 2])) } else { to };
		ensure!(["C01"], sub(&mut b, (o, addr(p)), amounts[h + 1]), "pool-overdrawn", "{what}: pool paid more than it held");
		add(&mut b, (o, dest), amounts[h + 1]);
		let (ni, no) = (b.get(&(i, addr(p))).copied().unwrap_or(0), b.get(&(o, addr(p))).copied().unwrap_or(0));
		set_res(&mut r, i, o, ni, no);
		ensure!(["C01"], big(ni) * big(no) >= big(ri) * big(ro), "k-decreased", "{what}: hop {h} product fell");
	}
	// the fee collector may receive freshly minted LP tokens; everything else must match exactly
	let lp: Vec<AssetId> = pre.lp.values().map(|x| x.0).collect();
	let fee_to = pallet_dex::FeeTo::<Test>::get();
	let mut expect = b.clone();
	for l in &lp { if let Some(f) = fee_to { let minted = post.lp.values().find(|x| x.0 == *l).unwrap().1 - pre.lp.values().find(|x| x.0 == *l).unwrap().1; if minted > 0 { vk::hit("fee_lp_minted") } add(&mut expect, (*l, f), minted); } }
	ensure!(["C01", "C03"], expect == post.bal, "swap-moved-other-funds", "{what}: {}", diff(&expect, &post.bal));
	ensure!(["C01", "C02"], r == post.res, "reserves-wrong-after-swap", "{what}: expected {r:?} got {:?}", post.res);
}
/// an LP share is never worth less because of anything anybody does
fn share_value(pre: &Snap, post: &Snap, what: &str, swap: bool) {
	for (p, (x, y)) in &pre.res {
		let (Some((_, s)), Some((x2, y2)), Some((_, s2))) = (pre.lp.get(p), post.res.get(p), post.lp.get(p)) else { continue };
		if *s == 0 || *s2 == 0 { continue }
		if !swap {
			ensure!(["C02"], big(*x2) * big(*s) >= big(*x) * big(*s2) && big(*y2) * big(*s) >= big(*y) * big(*s2), "share-diluted", "{what}: pool {p:?} reserves {x}/{y} supply {s} -> {x2}/{y2} supply {s2}");
		} else {
			let v1 = (*x as f64).sqrt() * (*y as f64).sqrt() / *s as f64; let v2 = (*x2 as f64).sqrt() * (*y2 as f64).sqrt() / *s2 as f64;
			let tol = 1e-9 + 4.0 / ((*x as f64).sqrt() * (*y as f64).sqrt()).max(1.0);
			ensure!(["C02"], v2 >= v1 * (1.0 - tol), "share-diluted-by-fee", "{what}: pool {p:?} value per share {v1} -> {v2} (supply {s} -> {s2}, reserves {x}/{y} -> {x2}/{y2})");
		}
	}
}
fn backed(s: &Snap, what: &str) {
	for (p, (x, y)) in &s.res { let a = addr(*p); let (bx, by) = (s.bal.get(&(p.0, a)).copied().unwrap_or(0), s.bal.get(&(p.1, a)).copied().unwrap_or(0));
		ensure!(["C02"], bx >= *x && by >= *y, "reserve-not-backed", "{what}: pool {p:?} reports {x}/{y} but holds {bx}/{by}");
		ensure!(["C02"], s.lp.contains_key(p), "lp-token-missing", "{what}: pool {p:?} lost its LP token");
	}
	for (p, (l, sup)) in &s.lp { let held: Balance = s.bal.iter().filter(|(k, _)| k.0 == *l).map(|(_, v)| *v).sum(); ensure!(["C02"], held == *sup, "lp-supply-wrong", "{what}: LP {l} of {p:?} supply {sup} but {held} held");
		let burn = s.bal.get(&(*l, Dex::burn_account_id())).copied().unwrap_or(0);
		ensure!(["C02"], *sup == 0 || burn >= 1000, "minimum-liquidity-gone", "{what}: pool {p:?} minimum liquidity {burn}"); }
}
pub fn run() {
	let n = vk::tier(12_000, 400_000);
	vk::episodes(n, |_, r| episode(r));
}
fn episode(r: &mut Rng) {
	let scale: u128 = [1_000_000u128, 1_000_000_000, 1_000_000_000_000_000, 1 << 62][r.below(4) as usize];
	let users: Vec<AccountId> = (1..=4).map(create_account).collect();
	let endow: Vec<(AccountId, Balance)> = users.iter().map(|u| (*u, scale * 1000)).collect();
	let base: Vec<AssetId> = vec![1, 2, 5, 6, 7];
	let mut t = TestExt::<Test>::default().with_balances(&endow).with_xrp_balances(&endow);
	for a in &base[2..] { t = t.with_asset(*a, "TKN", &endow); }
	t.build().execute_with(|| {
		let steps = 25 + r.below(25);
		if r.chance(20) { let _ = Dex::set_fee_to(RuntimeOrigin::root(), None); }
		for _ in 0..2 + r.below(4) {
			let (a, b) = (*r.pick(&base), *r.pick(&base)); let (x, y) = (scale / (1 + r.below(5) as u128), scale / (1 + r.below(9) as u128));
			vk::op(format!("seed pool {a}/{b} {x}/{y}"));
			let _ = tx(|| Dex::add_liquidity(RuntimeOrigin::signed(users[0]), a, b, x, y, 0, 0, None, None).map_err(|e| e.error));
		}
		let mut feq = pallet_dex::FeeTo::<Test>::get();
		// what the network fee of each pool is measured from: the reserves when fees were last settled
		let mut klast: BTreeMap<Pool, (Balance, Balance)> = if feq.is_some() { snap().res } else { Default::default() };
		for _ in 0..steps {
			if r.chance(25) { System::set_block_number(System::block_number() + r.below(4)); }
			let now = System::block_number();
			let mut assets = base.clone();
			for p in pools() { if r.chance(30) { if let Ok(l) = Dex::get_lp_token_id(p.0, p.1) { assets.push(l) } } }
			if r.chance(3) { assets.push(9999) }
			let pre = snap();
			let _ = events();
			let who = *r.pick(&users);
			let to_opt = match r.below(12) { 0 => pools().first().map(|p| addr((p.0, p.1))), 1 => Some(create_account(77)), 2..=4 => Some(*r.pick(&users)), _ => None };
			let to = to_opt.unwrap_or(who);
			let dl = match r.below(6) { 0 => Some(now), 1 => Some(now + 3), 2 => Some(now.saturating_sub(1)), _ => None };
			let late = dl.map_or(false, |d| d < now);
			let a = *r.pick(&assets); let mut b = *r.pick(&assets);
			let known = pools(); let (a, mut_b) = if r.chance(60) && !known.is_empty() { let p = *r.pick(&known); if r.chance(50) { (p.0, p.1) } else { (p.1, p.0) } } else { (a, b) }; b = mut_b;
			if a == b && !r.chance(5) { b = base[(base.iter().position(|x| *x == a).unwrap_or(0) + 1) % base.len()] }
			let pivot = scale;
			let enabled = |x: AssetId, y: AssetId| pre.status.get(&pair(x, y)).copied();
			let kind = r.below(100);
			let mut what = String::new();
			let mut swap = false; let mut hops: Vec<Pool> = vec![];
			let mut ok = false;
			let mut donated: Option<(AssetId, AccountId, Balance)> = None;
			if kind < 24 {
				let (da, db) = (r.amount(pivot), r.amount(pivot));
				let (ma, mb) = if r.chance(60) { (0, 0) } else { (r.amount(da).min(da), r.amount(db).min(db)) };
				what = format!("add_liquidity({who:?}, {a}, {b}, {da}, {db}, min {ma}/{mb}, to {to_opt:?}, dl {dl:?} now {now})"); vk::op(&what);
				let res_ = vk::guard("add_liquidity", || tx(|| Dex::add_liquidity(RuntimeOrigin::signed(who), a, b, da, db, ma, mb, to_opt, dl).map_err(|e| e.error)));
				ok = res_.is_ok();
				let post = snap();
				if ok {
					vk::hit("add_ok");
					ensure!(["C03"], !late, "deadline-ignored", "{what}");
					ensure!(["C03"], enabled(a, b) != Some(false), "disabled-pair-used", "{what}");
					ensure!(["C03", "C02"], a != b, "identical-pair", "{what}");
					let p = pair(a, b); let pool = addr(p);
					let lpid = post.lp[&p].0;
					let minted = post.lp[&p].1 - pre.lp.get(&p).map_or(0, |x| x.1);
					let used = |x: AssetId| pre.bal.get(&(x, who)).copied().unwrap_or(0) - post.bal.get(&(x, who)).copied().unwrap_or(0).min(pre.bal.get(&(x, who)).copied().unwrap_or(0));
					let (ua, ub) = (used(a), used(b));
					if to != pool && who != pool && lpid != a && lpid != b {
						ensure!(["C03"], ua <= da && ub <= db, "took-more-than-desired", "{what}: took {ua}/{ub}");
						let fresh = pre.res.get(&p).map_or(true, |x| *x == (0, 0));
						ensure!(["C03"], fresh || (ua >= ma && ub >= mb), "below-minimum", "{what}: took {ua}/{ub}");
						let mut e = pre.bal.clone();
						ensure!(ALL, sub(&mut e, (a, who), ua) && sub(&mut e, (b, who), ub), "overdraw", "{what}");
						add(&mut e, (a, pool), ua); add(&mut e, (b, pool), ub);
						let first = pre.lp.get(&p).map_or(true, |x| x.1 == 0);
						if first { add(&mut e, (lpid, Dex::burn_account_id()), 1000) }
						add(&mut e, (lpid, to), minted - if first { 1000 } else { 0 });
						ensure!(["C02", "C03"], e == post.bal, "add-moved-other-funds", "{what}: {}", diff(&e, &post.bal));
						ensure!(["C02"], minted > 0, "no-lp-minted", "{what}");
						// never fewer LP tokens than the fair share rounded down
						if !first { let (x, y) = res(&pre, a, b); let s = pre.lp[&p].1; let fair = (big(ua) * big(s) / big(x)).min(big(ub) * big(s) / big(y)); ensure!(["C02"], big(minted) >= fair, "provider-shortchanged", "{what}: minted {minted} fair {fair}"); }
					}
					let rr = post.res[&p];
					ensure_eq!(["C02"], rr, (post.bal.get(&(p.0, pool)).copied().unwrap_or(0), post.bal.get(&(p.1, pool)).copied().unwrap_or(0)), "reserve-vs-holdings", "{what}");
				} else if late { vk::hit("rejected_deadline") } else if enabled(a, b) == Some(false) { vk::hit("rejected_disabled") }
			} else if kind < 40 {
				let lp = pre.lp.get(&pair(a, b)).map(|x| x.0);
				let have = lp.and_then(|l| pre.bal.get(&(l, who)).copied()).unwrap_or(0);
				let all = r.chance(25) && have > 0;
				let liq = if all { have } else { r.amount(have) };
				let (ma, mb) = if r.chance(70) { (0, 0) } else { (r.amount(pivot), r.amount(pivot)) };
				what = format!("remove_liquidity({who:?}, {a}, {b}, {liq}, min {ma}/{mb}, to {to_opt:?}, dl {dl:?} now {now})"); vk::op(&what);
				let r_ = vk::guard("remove_liquidity", || tx(|| Dex::remove_liquidity(RuntimeOrigin::signed(who), a, b, liq, ma, mb, to_opt, dl).map_err(|e| e.error)));
				ok = r_.is_ok();
				let post = snap();
				if ok {
					vk::hit("remove_ok"); if all { vk::hit("remove_all_ok") }
					ensure!(["C03"], !late, "deadline-ignored", "{what}");
					let p = pair(a, b); let pool = addr(p); let lpid = lp.unwrap();
					let donated_lp = pre.bal.get(&(lpid, pool)).copied().unwrap_or(0);
					let burned = pre.lp[&p].1 - post.lp[&p].1;
					if to != pool && lpid != a && lpid != b {
						let paid = |x: AssetId| post.bal.get(&(x, to)).copied().unwrap_or(0).wrapping_sub(pre.bal.get(&(x, to)).copied().unwrap_or(0));
						let (pa, pb) = (paid(a), paid(b));
						ensure!(["C03"], pa >= ma && pb >= mb, "below-minimum", "{what}: paid {pa}/{pb}");
						ensure_eq!(["C02"], burned, liq + donated_lp, "lp-burn-wrong", "{what}");
						let mut e = pre.bal.clone();
						ensure!(ALL, sub(&mut e, (lpid, who), liq), "lp-overdraw", "{what}"); sub(&mut e, (lpid, pool), donated_lp);
						ensure!(ALL, sub(&mut e, (a, pool), pa) && sub(&mut e, (b, pool), pb), "pool-overdraw", "{what}"); add(&mut e, (a, to), pa); add(&mut e, (b, to), pb);
						ensure!(["C02", "C03"], e == post.bal, "remove-moved-other-funds", "{what}: {}", diff(&e, &post.bal));
						// pays the proportional share of the pool, rounded down
						let s = pre.lp[&p].1;
						for (x, paid) in [(a, pa), (b, pb)] { let held = pre.bal.get(&(x, pool)).copied().unwrap_or(0); let fair = big(burned) * big(held) / big(s); ensure_eq!(["C02"], big(paid), fair, "remove-not-proportional", "{what}: asset {x}"); }
					}
					ensure_eq!(["C02"], post.res[&p], (post.bal.get(&(p.0, pool)).copied().unwrap_or(0), post.bal.get(&(p.1, pool)).copied().unwrap_or(0)), "reserve-vs-holdings", "{what}");
				} else if late { vk::hit("rejected_deadline") }
			} else if kind < 80 {
				swap = true;
				let exact_supply = r.chance(50);
				let len = match r.below(20) { 0 => 1, 1 => 4, 2..=9 => 3, _ => 2 };
				let mut path = vec![a];
				let ps = pools();
				while path.len() < len { let last = *path.last().unwrap(); let seen = path.clone(); let rt = r.chance(10); let near: Vec<AssetId> = ps.iter().filter_map(|p| if p.0 == last { Some(p.1) } else if p.1 == last { Some(p.0) } else { None }).filter(|x| rt || !seen.contains(x)).collect(); path.push(if !near.is_empty() && !r.chance(10) { *r.pick(&near) } else { *r.pick(&assets) }) }
				hops = path.windows(2).map(|w| pair(w[0], w[1])).collect();
				let (ri, ro) = if path.len() > 1 { (res(&pre, path[0], path[1]).0, res(&pre, path[path.len() - 2], path[path.len() - 1]).1) } else { (0, 0) };
				if exact_supply {
					let amt = r.amount(ri); let quote = Dex::get_amounts_out(amt, &path).ok().and_then(|v| v.last().copied());
					let min = match r.below(4) { 0 => quote.unwrap_or(0), 1 => quote.unwrap_or(0).saturating_add(1), 2 => r.amount(quote.unwrap_or(10)), _ => 0 };
					what = format!("swap_with_exact_supply({who:?}, {amt}, min {min}, {path:?}, to {to_opt:?}, dl {dl:?} now {now})"); vk::op(&what);
					let r_ = vk::guard("swap", || tx(|| Dex::swap_with_exact_supply(RuntimeOrigin::signed(who), amt, min, path.clone(), to_opt, dl).map_err(|e| e.error)));
					if let Err(e) = &r_ { let e: &'static str = (*e).into(); vk::hit_s(format!("err:supply:{}:{e}", path.len())) }
					ok = r_.is_ok();
					let post = snap();
					if ok {
						vk::hit("swap_supply_ok"); if path.len() > 2 { vk::hit("multi_hop_ok") }
						let ev = events().into_iter().find_map(|e| if let RuntimeEvent::Dex(pallet_dex::Event::Swap(w, p, i, o, t)) = e { Some((w, p, i, o, t)) } else { None });
						ensure!(["C01", "C03"], ev.is_some(), "no-swap-event", "{what}");
						let ev = ev.unwrap();
						ensure_eq!(["C01"], (ev.0, &ev.1, ev.2, ev.4), (who, &path, amt, to), "swap-event-wrong", "{what}");
						ensure!(["C03"], ev.3 >= min, "below-minimum", "{what}: paid {}", ev.3);
						ensure!(["C03"], !late, "deadline-ignored", "{what}");
						for w in path.windows(2) { ensure!(["C03"], enabled(w[0], w[1]) == Some(true), "disabled-pair-used", "{what}"); }
						ensure!(["C03"], path.len() >= 2 && path.len() <= 3, "path-limit", "{what}");
						let mut am = vec![amt];
						// reference quote from the reserves seen before the call
						for w in path.windows(2) { let (ri, ro) = res(&pre, w[0], w[1]); let f = big(*am.last().unwrap()) * big(997); am.push((f * big(ro) / (big(ri) * big(1000) + f)).as_u128()); }
						ensure_eq!(["C01"], *am.last().unwrap(), ev.3, "not-the-curve-price", "{what}");
						check_swap(&pre, &post, who, to, &path, &am, &what);
					} else if late { vk::hit("rejected_deadline") } else if path.len() > 1 && path.windows(2).any(|w| enabled(w[0], w[1]) == Some(false)) { vk::hit("rejected_disabled") } else if quote.map_or(false, |q| q < min) { vk::hit("rejected_limit") }
				} else {
					let amt = r.amount(ro); let quote = Dex::get_amounts_in(amt, &path).ok().and_then(|v| v.first().copied());
					let max = match r.below(4) { 0 => quote.unwrap_or(0), 1 => quote.unwrap_or(0).saturating_sub(1), 2 => r.amount(quote.unwrap_or(10)), _ => u128::MAX };
					what = format!("swap_with_exact_target({who:?}, {amt}, max {max}, {path:?}, to {to_opt:?}, dl {dl:?} now {now})"); vk::op(&what);
					let r_ = vk::guard("swap", || tx(|| Dex::swap_with_exact_target(RuntimeOrigin::signed(who), amt, max, path.clone(), to_opt, dl).map_err(|e| e.error)));
					ok = r_.is_ok();
					let post = snap();
					if ok {
						vk::hit("swap_target_ok"); if path.len() > 2 { vk::hit("multi_hop_ok") }
						let ev = events().into_iter().find_map(|e| if let RuntimeEvent::Dex(pallet_dex::Event::Swap(w, p, i, o, t)) = e { Some((w, p, i, o, t)) } else { None });
						ensure!(["C01", "C03"], ev.is_some(), "no-swap-event", "{what}");
						let ev = ev.unwrap();
						ensure_eq!(["C01"], (ev.0, &ev.1, ev.3, ev.4), (who, &path, amt, to), "swap-event-wrong", "{what}");
						ensure!(["C03"], ev.2 <= max, "above-maximum", "{what}: took {}", ev.2);
						ensure!(["C03"], !late, "deadline-ignored", "{what}");
						for w in path.windows(2) { ensure!(["C03"], enabled(w[0], w[1]) == Some(true), "disabled-pair-used", "{what}"); }
						let mut am = vec![0; path.len()]; *am.last_mut().unwrap() = amt;
						for h in (1..path.len()).rev() { let (ri, ro) = res(&pre, path[h - 1], path[h]); am[h - 1] = ((big(ri) * big(am[h]) * big(1000)) / ((big(ro) - big(am[h])) * big(997)) + big(1)).as_u128(); }
						ensure_eq!(["C01"], am[0], ev.2, "not-the-curve-price", "{what}");
						check_swap(&pre, &post, who, to, &path, &am, &what);
					} else if late { vk::hit("rejected_deadline") } else if path.len() > 1 && path.windows(2).any(|w| enabled(w[0], w[1]) == Some(false)) { vk::hit("rejected_disabled") } else if quote.map_or(false, |q| q > max) { vk::hit("rejected_limit") }
				}
			} else if kind < 88 {
				// direct transfer into a pool account (a donation) or between users
				let dest = pools().first().map(|_| { let ps = pools(); let p = *r.pick(&ps); addr((p.0, p.1)) }).unwrap_or(users[0]);
				let amt = r.amount(scale / 7);
				what = format!("donate({who:?} -> {dest:?}, asset {a}, {amt})"); vk::op(&what);
				ok = tx(|| <AssetsExt as Mutate<AccountId>>::transfer(a, &who, &dest, amt, Preservation::Expendable)).is_ok();
				if ok && amt > 0 { vk::hit("donation"); donated = Some((a, dest, amt)) }
			} else if kind < 96 {
				let signed = r.chance(15); let o = if signed { RuntimeOrigin::signed(who) } else { RuntimeOrigin::root() };
				let dis = r.chance(50);
				what = format!("{}({a},{b}) signed={signed}", if dis { "disable" } else { "reenable" }); vk::op(&what);
				ok = vk::guard("status", || tx(|| (if dis { Dex::disable_trading_pair(o, a, b) } else { Dex::reenable_trading_pair(o, a, b) }).map_err(|e| e.error))).is_ok();
				ensure!(["C03"], !(ok && signed), "status-changed-by-user", "{what}");
				let post = snap();
				if ok { vk::hit("status_changed"); let mut e = pre.clone(); e.status.insert(pair(a, b), !dis); ensure!(["C03"], e == post, "status-side-effect", "{what}"); }
			} else {
				let signed = r.chance(15); let o = if signed { RuntimeOrigin::signed(who) } else { RuntimeOrigin::root() };
				let f = if r.chance(50) { None } else { Some(create_account(888 + r.below(2))) };
				what = format!("set_fee_to({f:?}) signed={signed}"); vk::op(&what);
				ok = tx(|| Dex::set_fee_to(o, f).map_err(|e| e.error)).is_ok();
				ensure!(["C02", "C03"], !(ok && signed), "fee-to-set-by-user", "{what}");
				if ok { vk::hit("fee_to_toggled"); feq = f }
			}
			let post = snap();
			ensure_eq!(["C02"], pallet_dex::FeeTo::<Test>::get(), feq, "fee-to-changed", "{what}");
			if !ok { vk::hit("rejected"); ensure!(["C03"], pre == post, "rejected-call-changed-state", "{what}: {}", diff(&pre.bal, &post.bal)); }
			if let Some((a, d, v)) = donated { let mut e = pre.clone(); sub(&mut e.bal, (a, who), v); add(&mut e.bal, (a, d), v); ensure!(["C02"], e == post, "donation-side-effect", "{what}"); }
			backed(&post, &what);
			share_value(&pre, &post, &what, swap);
			for (p, now) in &post.res {
				if !ok || (pre.res.get(p) == Some(now) && pre.lp.get(p) == post.lp.get(p) && !hops.contains(p)) { continue }
				let visits = hops.iter().filter(|x| *x == p).count();
				if swap && visits == 1 {
					let (s1, s2) = (pre.lp[p].1, post.lp[p].1); let minted = s2.saturating_sub(s1);
					let due = match (feq, klast.get(p)) { (Some(_), Some(l)) => {
						let (k, l) = ((big(now.0) * big(now.1)).integer_sqrt(), (big(l.0) * big(l.1)).integer_sqrt());
						// a sixth of the growth of the pool, as in the constant product paper
						if k > l { big(s1) * (k - l) / (k * big(5) + l) } else { big(0) } }, _ => big(0) };
					ensure!(["C02"], s2 >= s1 && big(minted) <= due, "network-fee-too-high", "{what}: pool {p:?} minted {minted} LP for the network, at most {due} is due for {:?} -> {now:?}", klast.get(p));
					if minted > 0 { vk::hit("network_fee_measured") }
				}
				if feq.is_some() { klast.insert(*p, *now); } else { klast.remove(p); }
			}
			digest();
		}
	});
}
