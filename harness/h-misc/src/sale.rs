use super::*;
use frame_support::traits::Hooks;
use pallet_crowdsale::{types::SaleStatus, Call, NextSaleId, SaleDistribution, SaleInfo, SaleParticipation};
use seed_primitives::{CollectionUuid, CrossChainCompatibility, MetadataScheme};
use sp_core::U256;
use sp_runtime::traits::{Dispatchable, ValidateUnsigned};
use sp_runtime::transaction_validity::TransactionSource;

const C: &[&str] = &["C14"];
const UNIT: u128 = 1_000_000;
#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Pending, Enabled, Failed, Distributing, Ended }
#[derive(Clone, Debug)]
struct Sale { st: St, admin: AccountId, vault: AccountId, pay: AssetId, col: CollectionUuid, price: u128, max: u32, raised: u128, contrib: BTreeMap<AccountId, u128>, everyone: usize, voucher: AssetId, dur: u64, end: u64, seq: u64, redeemed: u64 }
impl Sale {
	fn over(&self) -> bool { U256::from(self.raised) > U256::from(self.price) * U256::from(self.max) }
	/// vouchers owed for a contribution: proportional to it, at the soft cap price unless the sale was oversubscribed
	fn owed(&self, c: u128) -> u128 {
		let c = U256::from(c) * U256::from(UNIT);
		let q = if self.over() { c * U256::from(self.max) / U256::from(self.raised) } else { c / U256::from(self.price) };
		q.as_u128()
	}
}
struct M { sales: Vec<Sale>, queue: Vec<usize>, bal: Bal, users: Vec<AccountId> }
fn st_of(s: SaleStatus<u64>) -> St { match s { SaleStatus::Pending(_) => St::Pending, SaleStatus::Enabled(_) => St::Enabled, SaleStatus::Distributing(..) => St::Distributing, SaleStatus::Ended(_) => St::Ended, SaleStatus::DistributionFailed(_) => St::Failed } }
fn minted(c: CollectionUuid) -> u32 { pallet_nft::CollectionInfo::<Test>::get(c).map_or(0, |i| i.collection_issuance) }
fn tokens_of(c: CollectionUuid, w: AccountId) -> usize { pallet_nft::CollectionInfo::<Test>::get(c).map_or(0, |i| i.owned_tokens.iter().filter(|o| o.owner == w).map(|o| o.owned_serials.len()).sum()) }

impl M {
	fn complete(&mut self, i: usize) {
		let s = self.sales[i].clone();
		let left = self.bal.get(&(s.voucher, s.vault)).copied().unwrap_or(0);
		mv(&mut self.bal, s.voucher, s.vault, s.admin, left);
		self.sales[i].st = St::Ended; self.queue.retain(|x| *x != i); vk::hit("completed");
	}
	fn close(&mut self, now: u64) {
		let mut order: Vec<usize> = (0..self.sales.len()).collect(); order.sort_by_key(|i| self.sales[*i].seq);
		for i in order {
			if self.sales[i].st != St::Enabled || self.sales[i].end != now { continue }
			let s = self.sales[i].clone();
			// no one but the vault could spend it: the vault still holds everything contributed
			ensure!(C, mv(&mut self.bal, s.pay, s.vault, s.admin, s.raised), "vault-underfunded", "sale {i}: vault holds less than the {} contributed", s.raised);
			if s.raised > 0 && U256::from(s.raised) < U256::from(s.price) * U256::from(s.max) || s.raised == 0 {
				let sold = (U256::from(s.raised) * U256::from(UNIT) / U256::from(s.price)).as_u128();
				mv(&mut self.bal, s.voucher, s.vault, s.admin, s.max as u128 * UNIT - sold);
			}
			if s.raised == 0 { self.sales[i].st = St::Ended; vk::hit("closed_empty"); }
			else if self.queue.len() >= MaxConsecutiveSales::get() as usize { self.sales[i].st = St::Failed; vk::hit("distribution_failed"); }
			else { self.sales[i].st = St::Distributing; self.queue.push(i); vk::hit(if s.over() { "closed_over" } else { "closed_soft" }); }
		}
	}
	fn check(&mut self, what: &str) {
		let b = balances();
		if b != self.bal { let d = diff(&self.bal, &b); vk::hit("monitor_evaluations"); if vk::any(C) { vk::fail("balances", format!("after {what}: {d}")) } }
		for (i, s) in self.sales.iter().enumerate() {
			let info = SaleInfo::<Test>::get(i as u64);
			let Some(info) = info else { vk::fail("sale-lost", format!("after {what}: sale {i} has disappeared")) };
			ensure_eq!(C, st_of(info.status), s.st, "status", "after {what}: status of sale {i} (block {}, end {})", System::block_number(), s.end);
			ensure!(C, (info.admin, info.vault, info.payment_asset_id, info.reward_collection_id, info.soft_cap_price, info.voucher_asset_id) == (s.admin, s.vault, s.pay, s.col, s.price, s.voucher), "sale-fields", "after {what}: terms of sale {i} changed");
			ensure_eq!(C, info.funds_raised, s.raised, "raised", "after {what}: funds raised of sale {i}");
			ensure_eq!(C, info.participant_count, s.everyone as u64, "participants", "after {what}: participant count of sale {i}");
			let got: BTreeMap<AccountId, u128> = SaleParticipation::<Test>::iter_prefix(i as u64).collect();
			ensure!(C, got == s.contrib, "contributions", "after {what}: recorded contributions of sale {i}: expected {:?}, found {:?}", s.contrib, got);
			let v = b.get(&(s.pay, s.vault)).copied().unwrap_or(0);
			if matches!(s.st, St::Pending | St::Enabled) { ensure!(C, v >= s.raised, "vault-underfunded", "after {what}: vault of sale {i} holds {v} of {} contributed", s.raised); }
			// one voucher, one token: vouchers outstanding + tokens issued never change in total
			let (iss, n) = (issuance(s.voucher), minted(s.col) as u64);
			ensure!(C, n == s.redeemed, "minted-vs-redeemed", "after {what}: {n} tokens exist of sale {i}'s collection, {} redeemed", s.redeemed);
			ensure!(C, iss + n as u128 * UNIT == s.max as u128 * UNIT, "vouchers-vs-tokens", "after {what}: sale {i}: {iss} vouchers + {n} tokens is not {} tokens in all", s.max);
			ensure!(C, pallet_nft::CollectionInfo::<Test>::get(s.col).map_or(false, |c| c.owner == s.vault && c.max_issuance == Some(s.max)), "collection", "after {what}: collection of sale {i} left the vault or changed its cap");
			if s.st != St::Pending { vk::state(&(s.st as u8, s.contrib.len(), s.redeemed, s.over(), self.queue.len())); }
		}
		let q: Vec<usize> = SaleDistribution::<Test>::get().iter().map(|x| *x as usize).collect();
		ensure!(C, q == self.queue, "queue", "after {what}: sales awaiting distribution {:?}, expected {:?}", q, self.queue);
	}
	fn block(&mut self) {
		let n = System::block_number() + 1; System::set_block_number(n);
		vk::op(format!("block {n}"));
		self.close(n);
		vk::guard("on_initialize", || { Crowdsale::on_initialize(n); });
		self.check(&format!("block {n}"));
	}
	/// one unsigned distribution; false when there was nothing to distribute
	fn distribute(&mut self) -> bool {
		let call = Call::<Test>::distribute_crowdsale_rewards {};
		let valid = Crowdsale::validate_unsigned(TransactionSource::Local, &call).is_ok();
		ensure_eq!(C, valid, !self.queue.is_empty(), "unsigned-validity", "distribute_crowdsale_rewards accepted by the pool with queue {:?}", self.queue);
		let r = vk::guard("distribute", || tx(|| Crowdsale::distribute_crowdsale_rewards(RuntimeOrigin::none())));
		vk::op(format!("distribute -> {r:?}"));
		let Some(&i) = self.queue.first() else { ensure!(C, r.is_err(), "distribute-empty", "distribution with nothing to distribute succeeded"); return false };
		ensure!(C, r.is_ok(), "distribute-failed", "distribution of sale {i} failed: {r:?}");
		let left: BTreeMap<AccountId, u128> = SaleParticipation::<Test>::iter_prefix(i as u64).collect();
		let paid: Vec<(AccountId, u128)> = self.sales[i].contrib.iter().filter(|(k, _)| !left.contains_key(*k)).map(|(k, v)| (*k, *v)).collect();
		ensure!(C, paid.len() == self.sales[i].contrib.len().min(MaxPaymentsPerBlock::get() as usize), "distribute-count", "distribution of sale {i} handled {} of {} accounts", paid.len(), self.sales[i].contrib.len());
		let s = self.sales[i].clone();
		for (w, c) in paid { self.sales[i].contrib.remove(&w); let o = s.owed(c); ensure!(C, mv(&mut self.bal, s.voucher, s.vault, w, o), "vault-short", "sale {i}: vault has fewer vouchers than the {o} owed to {w:?}"); vk::hit("paid_by_distribution"); }
		if left.is_empty() { self.complete(i) }
		self.check("distribute"); true
	}
	fn claim(&mut self, i: usize, w: AccountId) {
		let r = vk::guard("claim_voucher", || tx(|| Crowdsale::claim_voucher(sg(w), i as u64)));
		vk::op(format!("claim {i} by {w:?} -> {r:?}"));
		let s = self.sales[i].clone();
		match (s.st == St::Distributing, s.contrib.get(&w)) {
			(true, Some(c)) => {
				let o = s.owed(*c);
				if r.is_err() { ensure!(C, o == 0, "claim-refused", "participant {w:?} of sale {i} owed {o} could not claim: {r:?}"); }
				else { self.sales[i].contrib.remove(&w); ensure!(C, mv(&mut self.bal, s.voucher, s.vault, w, o), "vault-short", "sale {i}: vault has fewer vouchers than {o}"); vk::hit("paid_by_claim"); if self.sales[i].contrib.is_empty() { self.complete(i) } }
			},
			_ => { ensure!(C, r.is_err(), "claim-unowed", "{w:?} claimed vouchers of sale {i} ({:?}) it was not owed", s.st); vk::hit("claim_rejected"); },
		}
		self.check("claim");
	}
	fn redeem(&mut self, i: usize, w: AccountId, q: u32) {
		let s = self.sales[i].clone();
		let have = self.bal.get(&(s.voucher, w)).copied().unwrap_or(0);
		let before = tokens_of(s.col, w);
		let r = vk::guard("redeem", || tx(|| Crowdsale::redeem_voucher(sg(w), i as u64, q)));
		vk::op(format!("redeem {q} of {i} by {w:?} (has {have}) -> {r:?}"));
		let may = matches!(s.st, St::Distributing | St::Ended) && q > 0 && have >= q as u128 * UNIT;
		if may && q <= MintLimit::get() { ensure!(C, r.is_ok(), "redeem-refused", "holder of {have} vouchers of sale {i} could not redeem {q}: {r:?}"); }
		if r.is_ok() {
			ensure!(C, may, "redeem-unbacked", "{w:?} with {have} vouchers redeemed {q} tokens of sale {i} ({:?})", s.st);
			self.sales[i].redeemed += q as u64; sub(&mut self.bal, (s.voucher, w), q as u128 * UNIT); vk::hit("redeemed");
			ensure_eq!(C, tokens_of(s.col, w), before + q as usize, "redeem-tokens", "tokens received for {q} vouchers");
		} else { vk::hit("redeem_rejected"); }
		self.check("redeem");
	}
}

pub fn run() {
	vk::episodes(vk::tier(5000, 90000), |ep, r| {
		let users: Vec<AccountId> = (1..=8u64).map(create_account).collect();
		// huge: amounts near the top of the balance range, tiny: prices of a few units
		let scale: u128 = match ep % 6 { 0 => 1u128 << 106, 1 => 40, 2 => 1_000_000_000, 3 => UNIT, 4 => 1u128 << 60, _ => 1_000_000_000_000_000_000 };
		let endow: Vec<(AccountId, Balance)> = users.iter().map(|u| (*u, scale * 64)).collect();
		TestExt::<Test>::default().with_balances(&endow).with_xrp_balances(&endow).with_asset(5, "PAY", &endow).build().execute_with(|| {
			let mut m = M { sales: vec![], queue: vec![], bal: balances(), users: users.clone() };
			let many = r.chance(30); MaxConsecutiveSales::set(if many { 4 } else { 2 });
			let steps = r.range(60, 160);
			for _ in 0..steps {
				let w = *r.pick(&users);
				match r.below(100) {
					0..=9 => {
						// a collection and a sale of it
						if m.sales.len() >= 5 { continue }
						let max = if r.chance(92) { Some(1 + r.below(*r.clone().pick(&[3, 8, 40])) as u32) } else { None };
						let init = if r.chance(92) { 0 } else { 1 };
						let owner = *r.pick(&users);
						let before = pallet_nft::CollectionInfo::<Test>::iter_keys().collect::<Vec<_>>();
						let _ = tx(|| Nft::create_collection(sg(owner), BoundedVec::truncate_from(b"c".to_vec()), init, max, None, MetadataScheme::try_from(b"https://x/".as_slice()).unwrap(), None, CrossChainCompatibility { xrpl: false }));
						let Some(col) = pallet_nft::CollectionInfo::<Test>::iter_keys().find(|c| !before.contains(c)) else { continue };
						let public = r.chance(6); if public { let _ = tx(|| Nft::toggle_public_mint(sg(owner), col, true)); if r.chance(60) { let _ = tx(|| Nft::set_mint_fee(sg(owner), col, Some((2, 1 + r.below(50) as u128)))); } }
						let col = if r.chance(6) { r.u32() } else if r.chance(5) && !m.sales.is_empty() { r.pick(&m.sales).col } else { col };
						let by = if r.chance(90) { owner } else { w };
						let pay = if r.chance(92) { *r.pick(&[1, 2, 5]) } else if r.chance(50) && !m.sales.is_empty() { r.pick(&m.sales).voucher } else { 77 };
						let price = match r.below(12) { 0 => 0, 1 => 1, 2 => r.amount(scale), 3 => u128::MAX / (1 + r.below(60) as u128), _ => 1 + r.u128() % scale };
						let dur = match r.below(12) { 0 => 0, 1 => 13 + r.below(3), 2 => 12, 3 => 1, _ => 2 + r.below(8) };
						let info = pallet_nft::CollectionInfo::<Test>::get(col);
						let exists = pay != 77;
						let ok = price > 0 && dur <= 12 && exists && info.as_ref().map_or(false, |c| c.owner == by && c.max_issuance.is_some() && c.collection_issuance == 0) && !(public && pallet_nft::PublicMintInfo::<Test>::get(col).map_or(false, |p| p.enabled));
						let res = vk::guard("initialize", || tx(|| Crowdsale::initialize(sg(by), pay, col, price, dur, None, None)));
						vk::op(format!("initialize col {col} pay {pay} price {price} dur {dur} max {max:?} by {by:?} -> {res:?}"));
						if res.is_err() { vk::hit("sale_rejected"); if dur > 0 { ensure!(C, !ok, "initialize-refused", "valid sale refused: {res:?}"); } m.check("initialize rejected"); continue }
						ensure!(C, ok, "initialize-accepted", "sale accepted although its terms are invalid");
						let id = m.sales.len();
						let s = SaleInfo::<Test>::get(id as u64).unwrap();
						let mx = pallet_nft::CollectionInfo::<Test>::get(col).unwrap().max_issuance.unwrap();
						ensure!(C, s.admin == by && s.payment_asset_id == pay && s.soft_cap_price == price && s.duration == dur && s.reward_collection_id == col, "sale-terms", "sale {id} recorded with other terms: {s:?}");
						ensure!(C, m.sales.iter().all(|o| o.vault != s.vault && o.voucher != s.voucher_asset_id) && !m.users.contains(&s.vault), "shared-vault", "sale {id} shares its vault or voucher with another");
						ensure!(C, s.voucher_asset_id != pay && issuance(s.voucher_asset_id) == mx as u128 * UNIT, "voucher-supply", "voucher supply {} for {mx} tokens", issuance(s.voucher_asset_id));
						let vb = balances(); ensure_eq!(C, vb.get(&(s.voucher_asset_id, s.vault)).copied().unwrap_or(0), mx as u128 * UNIT, "voucher-vault", "vouchers in the vault");
						add(&mut m.bal, (s.voucher_asset_id, s.vault), mx as u128 * UNIT);
						// the creation fee of the voucher asset, if any, is the ledger's business
						for (k, v) in &vb { if k.1 == s.vault && k.0 != s.voucher_asset_id { m.bal.insert(*k, *v); } }
						m.sales.push(Sale { st: St::Pending, admin: by, vault: s.vault, pay, col, price, max: mx, raised: 0, contrib: BTreeMap::new(), everyone: 0, voucher: s.voucher_asset_id, dur, end: u64::MAX, seq: 0, redeemed: 0 });
						vk::hit("sale_created"); m.check("initialize");
					},
					_ if m.sales.is_empty() => continue,
					10..=19 => {
						let i = r.below(m.sales.len() as u64) as usize; let s = m.sales[i].clone();
						let by = if r.chance(80) { s.admin } else { w };
						let now = System::block_number(); let end = (now + s.dur).max(now + 1);
						let busy = m.sales.iter().filter(|o| o.st == St::Enabled && o.end == end).count() >= MaxSalesPerBlock::get() as usize;
						let res = vk::guard("enable", || tx(|| Crowdsale::enable(sg(by), i as u64)));
						vk::op(format!("enable {i} by {by:?} at {now} -> {res:?}"));
						let ok = s.st == St::Pending && by == s.admin && !busy;
						ensure_eq!(C, res.is_ok(), ok, "enable", "enable sale {i} ({:?}) by {}: {res:?}", s.st, if by == s.admin { "its admin" } else { "someone else" });
						if ok { m.sales[i].st = St::Enabled; m.sales[i].end = end; m.sales[i].seq = m.sales.iter().map(|x| x.seq).max().unwrap() + 1; vk::hit("enabled"); }
						m.check("enable");
					},
					20..=49 => {
						let i = r.below(m.sales.len() as u64) as usize; let s = m.sales[i].clone();
						let have = m.bal.get(&(s.pay, w)).copied().unwrap_or(0);
						let cap = (U256::from(s.price) * U256::from(s.max)).min(U256::from(u128::MAX)).as_u128();
						let a = match r.below(10) { 0 => 0, 1 => have, 2 => have.saturating_add(1), 3 => cap.saturating_sub(s.raised), 4 => cap.saturating_sub(s.raised).saturating_add(1), 5 => s.price, 6 => r.amount(s.price), 7 => 1 + r.u128() % (cap / 4).max(1), _ => 1 + r.u128() % have.max(1) };
						let res = vk::guard("participate", || tx(|| Crowdsale::participate(sg(w), i as u64, a)));
						vk::op(format!("participate {i} {a} by {w:?} (has {have}) -> {res:?}"));
						let ok = s.st == St::Enabled && a > 0 && a <= have;
						ensure_eq!(C, res.is_ok(), ok, "participate", "participate in sale {i} ({:?}) with {a} of {have}: {res:?}", s.st);
						if ok { mv(&mut m.bal, s.pay, w, s.vault, a); let t = &mut m.sales[i]; t.raised += a; if !t.contrib.contains_key(&w) { t.everyone += 1 } *t.contrib.entry(w).or_insert(0) += a; vk::hit("participated"); } else { vk::hit("participate_rejected"); }
						m.check("participate");
					},
					50..=66 => m.block(),
					67..=71 => { m.distribute(); },
					72..=79 => { let i = r.below(m.sales.len() as u64) as usize; let w = if r.chance(70) && !m.sales[i].contrib.is_empty() { *r.pick(&m.sales[i].contrib.keys().cloned().collect::<Vec<_>>()) } else { w }; m.claim(i, w) },
					80..=88 => {
						let i = r.below(m.sales.len() as u64) as usize; let s = m.sales[i].clone();
						let holders: Vec<AccountId> = m.bal.iter().filter(|(k, _)| k.0 == s.voucher && users.contains(&k.1)).map(|(k, _)| k.1).collect();
						let by = if holders.is_empty() || r.chance(15) { w } else { *r.pick(&holders) };
						let have = m.bal.get(&(s.voucher, by)).copied().unwrap_or(0);
						let q = match r.below(9) { 0 => 0, 1 => (have / UNIT) as u32 + 1, 2 => (have / UNIT) as u32, 3 => r.u32(), 4 => 4295, _ => 1 + r.below((have / UNIT).max(1) as u64) as u32 };
						m.redeem(i, by, q);
					},
					89..=91 => {
						// vouchers and payment tokens move freely, also into a vault
						let i = r.below(m.sales.len() as u64) as usize; let s = m.sales[i].clone();
						let a = if r.chance(60) { s.voucher } else { s.pay };
						let have = m.bal.get(&(a, w)).copied().unwrap_or(0); if have == 0 { continue }
						let to = if r.chance(30) { s.vault } else { *r.pick(&users) }; let v = 1 + r.u128() % have;
						use frame_support::traits::tokens::{fungibles::Mutate, Preservation};
						let res = tx(|| <AssetsExt as Mutate<AccountId>>::transfer(a, &w, &to, v, Preservation::Expendable));
						vk::op(format!("transfer {v} of {a} from {w:?} to {to:?} -> {res:?}"));
						if res.is_ok() { mv(&mut m.bal, a, w, to, v); } m.check("transfer");
					},
					92..=93 => {
						let i = r.below(m.sales.len() as u64) as usize; let s = m.sales[i].clone();
						let res = vk::guard("force", || tx(|| Crowdsale::try_force_distribution(sg(w), i as u64)));
						vk::op(format!("try_force_distribution {i} -> {res:?}"));
						let ok = s.st == St::Failed && m.queue.len() < MaxConsecutiveSales::get() as usize;
						ensure_eq!(C, res.is_ok(), ok, "force", "try_force_distribution of sale {i} ({:?})", s.st);
						if ok { m.sales[i].st = St::Distributing; m.queue.push(i); vk::hit("forced"); }
						m.check("force");
					},
					94..=96 => {
						let i = r.below(m.sales.len() as u64) as usize; let s = m.sales[i].clone();
						let by = if r.chance(75) { s.admin } else { w };
						let (call, good) = match r.below(6) {
							0 => (RuntimeCall::Nft(pallet_nft::Call::mint { collection_id: s.col, quantity: 1, token_owner: Some(w) }), false),
							1 => (RuntimeCall::Nft(pallet_nft::Call::set_max_issuance { collection_id: s.col, max_issuance: 100 }), false),
							2 => (RuntimeCall::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: s.pay, destination: w, amount: 1, keep_alive: false }), false),
							3 => (RuntimeCall::Nft(pallet_nft::Call::set_base_uri { collection_id: s.col, base_uri: b"ipfs://y/".to_vec() }), true),
							_ => (RuntimeCall::System(frame_system::Call::remark { remark: vec![1] }), true),
						};
						let res = vk::guard("proxy_vault_call", || tx(|| Crowdsale::proxy_vault_call(sg(by), i as u64, Box::new(call.clone()))));
						vk::op(format!("proxy_vault_call {i} by {by:?} -> {res:?}"));
						let ok = good && by == s.admin;
						ensure_eq!(C, res.is_ok(), ok, "vault-call", "vault call {} by {}: {res:?}", if good { "permitted" } else { "forbidden" }, if by == s.admin { "the admin" } else { "someone else" });
						vk::hit(if ok { "vault_call_ok" } else { "vault_call_rejected" }); m.check("vault call");
					},
					97..=98 => {
						// the previous owner has no power over the collection any more
						let i = r.below(m.sales.len() as u64) as usize; let s = m.sales[i].clone();
						let call = match r.below(4) { 0 => RuntimeCall::Nft(pallet_nft::Call::mint { collection_id: s.col, quantity: 1, token_owner: None }), 1 => RuntimeCall::Nft(pallet_nft::Call::set_max_issuance { collection_id: s.col, max_issuance: 1000 }), 2 => RuntimeCall::Nft(pallet_nft::Call::toggle_public_mint { collection_id: s.col, enabled: true }), _ => RuntimeCall::Nft(pallet_nft::Call::set_owner { collection_id: s.col, new_owner: s.admin }) };
						let by = if r.chance(70) { s.admin } else { w };
						let res = vk::guard("old owner", || call.clone().dispatch(sg(by)));
						ensure!(C, res.is_err(), "old-owner-power", "the former owner still controls the collection of sale {i}: {call:?}");
						m.check("old owner call");
					},
					_ => {
						let id = 1000 + r.below(5);
						let res = match r.below(4) { 0 => tx(|| Crowdsale::enable(sg(w), id)), 1 => tx(|| Crowdsale::participate(sg(w), id, 1)), 2 => tx(|| Crowdsale::claim_voucher(sg(w), id)), _ => tx(|| Crowdsale::redeem_voucher(sg(w), id, 1)) };
						ensure!(C, res.is_err(), "unknown-sale", "a call on an unknown sale succeeded");
						ensure!(C, Crowdsale::validate_unsigned(TransactionSource::External, &Call::<Test>::claim_voucher { sale_id: 0 }).is_err() && tx(|| Crowdsale::distribute_crowdsale_rewards(sg(w))).is_err(), "unsigned", "an unsigned claim was accepted, or a signed distribution");
						m.check("unknown sale");
					},
				}
			}
			// drain: every enabled sale ends, every participant is paid, every whole voucher redeems
			for _ in 0..16 { m.block(); }
			for i in 0..m.sales.len() { ensure!(C, m.sales[i].st != St::Enabled, "never-closed", "sale {i} was enabled and never closed"); }
			let mut guard = 0;
			while m.distribute() || m.sales.iter().any(|s| s.st == St::Failed) {
				if m.queue.is_empty() { for i in 0..m.sales.len() { if m.sales[i].st == St::Failed && m.queue.len() < MaxConsecutiveSales::get() as usize { let res = tx(|| Crowdsale::try_force_distribution(sg(users[0]), i as u64)); ensure!(C, res.is_ok(), "force", "could not force distribution of sale {i}: {res:?}"); m.sales[i].st = St::Distributing; m.queue.push(i); vk::hit("forced"); } } }
				guard += 1; if guard > 200 { vk::fail("distribution-stuck", "distribution does not terminate".into()) }
			}
			for i in 0..m.sales.len() {
				let s = m.sales[i].clone(); if s.st != St::Ended { continue }
				let hs: Vec<(AccountId, u128)> = m.bal.iter().filter(|(k, _)| k.0 == s.voucher && users.contains(&k.1)).map(|(k, v)| (k.1, *v)).collect();
				for (h, v) in hs { let mut q = (v / UNIT) as u32; while q > 0 { let n = q.min(MintLimit::get()); m.redeem(i, h, n); q -= n } }
			}
			vk::hit("settled_all");
			if r.chance(10) { NextSaleId::<Test>::put(u64::MAX); let c = m.sales.get(0).map_or(0, |s| s.col); let res = tx(|| Crowdsale::initialize(sg(users[0]), 2, c, 1, 5, None, None)); ensure!(C, res.is_err() && NextSaleId::<Test>::get() == u64::MAX, "id-wrap", "sale created after ids ran out"); }
		});
	});
}
