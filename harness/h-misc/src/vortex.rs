use super::*;
use pallet_vortex_distribution::{VtxDistStatus as VS, VtxDistStatuses, VtxDistEras};
use sp_core::U256;
use sp_runtime::traits::AccountIdConversion;

const C: &[&str] = &["C24"];
const VTX: AssetId = 3;
#[derive(Clone, Debug)]
struct D { st: VS, owed: BTreeMap<AccountId, u128>, paid: BTreeMap<AccountId, u128>, assets: Vec<AssetId> }

pub fn run() {
	vk::episodes(vk::tier(4000, 80000), |ep, rng| {
		let users: Vec<AccountId> = (1..=12u64).map(create_account).collect();
		let scale: u128 = match ep % 5 { 0 => 1 << 90, 1 => 50, 2 => 1 << 60, _ => 1_000_000_000_000 };
		let endow: Vec<(AccountId, Balance)> = users.iter().map(|u| (*u, scale)).collect();
		TestExt::<Test>::default().with_balances(&endow).with_xrp_balances(&endow).with_asset(5, "PAY", &endow).with_asset(6, "OTH", &endow).with_asset(VTX, "VTX", &[]).build().execute_with(|| {
			use frame_support::traits::tokens::{fungibles::Mutate, Preservation};
			let (vault, rpot, fpot): (AccountId, AccountId, AccountId) = (VtxPotId::get().into_account_truncating(), RootPotId::get().into_account_truncating(), FeePotId::get().into_account_truncating());
			let mut bal = balances(); let mut ds: Vec<D> = vec![]; let mut admin: Option<AccountId> = None;
			let steps = rng.range(40, 130);
			macro_rules! check { ($what:expr) => {{
				let b = balances(); vk::hit("monitor_evaluations");
				if b != bal && vk::any(C) { vk::fail("balances", format!("after {}: {}", $what, diff(&bal, &b))) }
				for (i, d) in ds.iter().enumerate() { ensure!(C, VtxDistStatuses::<Test>::get(i as u32) == d.st, "status", "after {}: cycle {i} is {:?}, expected {:?}", $what, VtxDistStatuses::<Test>::get(i as u32), d.st); vk::state(&(d.st as u8, d.owed.len(), d.paid.len(), d.assets.len())); }
				ensure!(C, VtxDistStatuses::<Test>::iter().count() == ds.len(), "unknown-cycle", "after {}: a cycle exists that was never created", $what);
			}} }
			for _ in 0..steps {
				let w = *rng.pick(&users);
				// who acts: root, the administrator, anyone
				let (o, priv_) = match rng.below(10) { 0..=6 => (RuntimeOrigin::root(), true), 7..=8 => match admin { Some(a) => (sg(a), true), None => (RuntimeOrigin::root(), true) }, _ => (sg(w), Some(w) == admin) };
				let id = if ds.is_empty() || rng.chance(4) { 900 + rng.u32() % 3 } else { rng.below(ds.len() as u64) as u32 };
				let st = ds.get(id as usize).map_or(VS::Disabled, |d| d.st);
				match rng.below(100) {
					0..=5 => { let res = tx(|| Vortex::create_vtx_dist(o)); vk::op(format!("create -> {res:?}"));
						ensure_eq!(C, res.is_ok(), priv_, "create", "create: {res:?}"); if priv_ { ds.push(D { st: VS::Enabled, owed: BTreeMap::new(), paid: BTreeMap::new(), assets: vec![] }); vk::hit("created") } else { vk::hit("refused") } check!("create") },
					6..=7 => { let by_root = rng.chance(70); let old = admin; let _ = events(); let res = tx(|| Vortex::set_admin(if by_root { RuntimeOrigin::root() } else { sg(w) }, w)); vk::op(format!("set_admin -> {res:?}")); ensure_eq!(C, res.is_ok(), by_root, "set-admin", "set_admin {res:?}");
						if by_root { admin = Some(w); ensure!(C, events().iter().any(|e| matches!(e, RuntimeEvent::Vortex(pallet_vortex_distribution::Event::AdminAccountChanged { old_key, new_key }) if *old_key == old && *new_key == w)), "admin-event", "the reported change of administrator is not from {old:?} to {w:?}"); } check!("set_admin") },
					8..=9 => { let res = tx(|| Vortex::disable_vtx_dist(o, id)); vk::op(format!("disable {id} -> {res:?}")); let ok = priv_ && st != VS::Disabled; ensure_eq!(C, res.is_ok(), ok, "disable", "disable {id} ({st:?}): {res:?}"); if ok { ds[id as usize].st = VS::Disabled; vk::hit("disabled") } check!("disable") },
					10..=13 => { let (a, b) = (rng.below(9) as u32, rng.below(9) as u32); let res = tx(|| Vortex::set_vtx_dist_eras(o, id, a, b)); ensure_eq!(C, res.is_ok(), priv_ && a <= b, "eras", "set eras {a}..{b}: {res:?}"); if res.is_ok() { ensure_eq!(C, VtxDistEras::<Test>::get(id), (a, b), "eras-stored", "eras") } check!("eras") },
					14..=22 => {
						let n = rng.below(4) as usize; let l: Vec<(AssetId, u128)> = (0..n).map(|_| (*rng.clone().pick(&[1, 2, 5, 6]), { let x = rng.u128() >> 90; rng.u64(); x })).collect();
						let mut l: Vec<(AssetId, u128)> = l.into_iter().map(|(_, p)| (*rng.pick(&[1, 2, 5, 6]), if rng.chance(20) { 0 } else { p })).collect(); if rng.chance(8) { l.push((VTX, 1)) }
						let res = tx(|| Vortex::set_asset_prices(o, BoundedVec::truncate_from(l.clone()), id).map_err(|e| e.error)); vk::op(format!("prices {id} {l:?} -> {}", res.is_ok()));
						let ok = priv_ && l.iter().all(|x| x.0 != VTX); ensure_eq!(C, res.is_ok(), ok, "prices", "set prices {l:?}: {res:?}");
						if ok { if let Some(d) = ds.get_mut(id as usize) { for (a, _) in l { if !d.assets.contains(&a) { d.assets.push(a) } } } } check!("prices")
					},
					23..=37 => {
						let n = rng.below(7) as usize; let l: Vec<(AccountId, u128)> = (0..n).map(|_| (*rng.pick(&users), if rng.chance(8) { 0 } else if rng.chance(3) { (1 << 120) - rng.below(9) as u128 } else { 1 + rng.u128() % (scale * 3) })).collect();
						let res = vk::guard("register_rewards", || tx(|| Vortex::register_rewards(o, id, BoundedVec::truncate_from(l.clone())))); vk::op(format!("register {id} {l:?} -> {res:?}"));
						let ok = priv_ && st == VS::Enabled; 
						ensure_eq!(C, res.is_ok(), ok, "register", "register in cycle {id} ({st:?}): {res:?}");
						if res.is_ok() { let d = &mut ds[id as usize]; for (a, v) in l { if d.owed.insert(a, v).is_some() { vk::hit("reregistered") } } vk::hit("registered") } else { vk::hit("refused") } check!("register")
					},
					38..=44 => {
						let res = vk::guard("trigger", || tx(|| Vortex::trigger_vtx_distribution(o, id).map_err(|e| e.error))); vk::op(format!("trigger {id} -> {res:?}"));
						let ok = priv_ && st == VS::Enabled; ensure_eq!(C, res.is_ok(), ok, "trigger", "trigger {id} ({st:?}): {res:?}");
						if ok { let d = &mut ds[id as usize]; d.st = VS::Triggered; for a in d.assets.clone() { let x = bal.get(&(a, fpot)).copied().unwrap_or(0); mv(&mut bal, a, fpot, vault, x); } let x = bal.get(&(1, rpot)).copied().unwrap_or(0); mv(&mut bal, 1, rpot, vault, x); vk::hit("triggered") } else { vk::hit("refused") } check!("trigger")
					},
					45..=51 => {
						let tot = ds.get(id as usize).and_then(|d| d.owed.values().try_fold(0u128, |a, b| a.checked_add(*b)));
						let res = vk::guard("start", || tx(|| Vortex::start_vtx_dist(o, id))); vk::op(format!("start {id} -> {res:?}"));
						let ok = priv_ && st == VS::Triggered; ensure!(C, !res.is_ok() || ok, "start", "cycle {id} ({st:?}) started: {res:?}");
						if let Some(t) = tot { if ok && t > 0 && issuance(VTX).checked_add(t).is_some() { ensure!(C, res.is_ok(), "start", "cycle {id} could not be started: {res:?}") } }
						if res.is_ok() { ds[id as usize].st = VS::Paying; add(&mut bal, (VTX, vault), tot.unwrap()); vk::hit("started") } else { vk::hit("refused") } check!("start")
					},
					52..=74 => {
						let signed = rng.chance(4); let before = balances();
						let res = vk::guard("pay_unsigned", || tx(|| Vortex::pay_unsigned(if signed { sg(w) } else { RuntimeOrigin::none() }, id, System::block_number()))); let after = balances();
						vk::op(format!("pay {id} ({st:?}) -> {res:?}"));
						ensure_eq!(C, res.is_ok(), !signed, "pay", "pay_unsigned {res:?}");
						if st != VS::Paying || signed { vk::hit("pay_ignored"); check!("pay of a cycle that is not being paid"); continue }
						// who received, how much
						let d = &mut ds[id as usize]; let mut n = 0;
						for u in &users {
							let (x, y) = (before.get(&(VTX, *u)).copied().unwrap_or(0), after.get(&(VTX, *u)).copied().unwrap_or(0));
							ensure!(C, y >= x, "pay-debited", "{u:?} lost vortex in a payout"); if x == y { continue }
							let o = d.owed.get(u).copied().unwrap_or(0);
							ensure!(C, !d.paid.contains_key(u), "paid-twice", "{u:?} was paid twice in cycle {id}");
							ensure!(C, y - x == o, "paid-amount", "{u:?} was paid {} instead of {o} in cycle {id}", y - x);
							d.paid.insert(*u, o); mv(&mut bal, VTX, vault, *u, o); n += 1; vk::hit("paid");
						}
						ensure!(C, n <= PayoutBatchSize::get() + 1, "batch", "{n} payments in one batch");
						let unpaid = d.owed.iter().filter(|(k, v)| **v > 0 && !d.paid.contains_key(*k)).count();
						let now = VtxDistStatuses::<Test>::get(id);
						if now == VS::Done { ensure!(C, unpaid == 0, "skipped", "cycle {id} is done and {unpaid} accounts were not paid"); d.st = VS::Done; vk::hit("done"); }
						else if n == 0 && unpaid > 0 && d.owed.values().all(|v| *v > 0) { vk::fail("stuck", format!("payout of cycle {id} made no progress with {unpaid} accounts to pay")) }
						check!("pay")
					},
					75..=90 => {
						let have = bal.get(&(VTX, w)).copied().unwrap_or(0); let total = issuance(VTX);
						let v = match rng.below(8) { 0 => 0, 1 => have.saturating_add(1), 2 => have, 3 => 1, _ => 1 + rng.u128() % have.max(1) };
						let res = vk::guard("redeem", || tx(|| Vortex::redeem_tokens_from_vault(sg(w), id, v))); vk::op(format!("redeem {v} of {have} (total {total}) in {id} ({st:?}) -> {res:?}"));
						let ok = st == VS::Done && v > 0 && v <= have; ensure_eq!(C, res.is_ok(), ok, "redeem", "redeem {v} of {have} in cycle {id} ({st:?}): {res:?}");
						if ok {
							for a in ds[id as usize].assets.clone() { let x = bal.get(&(a, vault)).copied().unwrap_or(0); let share = (U256::from(v).full_mul(U256::from(x)) / U256::from(total)).low_u128(); mv(&mut bal, a, vault, w, share); }
							sub(&mut bal, (VTX, w), v); vk::hit("redeemed");
						} else { vk::hit("redeem_rejected") }
						check!("redeem")
					},
					91..=97 => {
						// fees arrive in the pots, holders trade
						let a = *rng.pick(&[1, 2, 5, 6, VTX]); let have = bal.get(&(a, w)).copied().unwrap_or(0); if have == 0 { continue } let v = 1 + rng.u128() % have; let to = match rng.below(4) { 0 => rpot, 1 => fpot, 2 => vault, _ => *rng.pick(&users) };
						let res = tx(|| <AssetsExt as Mutate<AccountId>>::transfer(a, &w, &to, v, Preservation::Expendable)); vk::op(format!("transfer {v} of {a} to {to:?}")); if res.is_ok() { mv(&mut bal, a, w, to, v); } check!("transfer")
					},
					_ => { let n = System::block_number() + 1; System::set_block_number(n); },
				}
			}
		});
	});
}
