use super::*;
use frame_support::traits::{Currency, ExistenceRequirement, Imbalance, OnUnbalanced, WithdrawReasons};
use frame_support::weights::Weight;
use seed_pallet_common::{utils::{scale_decimals_to_wei, scale_wei_to_correct_decimals}, FeeConfig};
use sp_core::U256;
use sp_runtime::{traits::AccountIdConversion, Perbill};

const C: &[&str] = &["C34"];
pub struct Defaults;
impl FeeConfig for Defaults {
	fn evm_base_fee_per_gas() -> U256 { U256::from(15_000_000_000_000u128) }
	fn weight_multiplier() -> Perbill { Perbill::from_parts(125) }
	fn length_multiplier() -> Balance { 350 }
}
parameter_types! { pub const Xrp: AssetId = 2; }
type XrpCurrency = pallet_assets_ext::AssetCurrency<Test, Xrp>;
type Pot = pallet_tx_fee_pot::Pallet<Test>;
fn num(r: &mut Rng) -> u64 { match r.below(6) { 0 => 0, 1 => u64::MAX - r.below(4), 2 => r.below(2000), 3 => 1 << r.below(64), _ => r.u64() >> r.below(64) } }

pub fn run() {
	vk::episodes(vk::tier(3000, 60000), |ep, r| {
		let users: Vec<AccountId> = (1..=5u64).map(create_account).collect();
		let scale: u128 = match ep % 4 { 0 => 1 << 100, 1 => 20, _ => 1_000_000_000_000 };
		let endow: Vec<(AccountId, Balance)> = users.iter().map(|u| (*u, scale)).collect();
		TestExt::<Test>::default().with_balances(&endow).with_xrp_balances(&endow).build().execute_with(|| {
			let pot: AccountId = FeePotId::get().into_account_truncating();
			let (mut base, mut wm, mut lm) = (Defaults::evm_base_fee_per_gas(), Defaults::weight_multiplier(), Defaults::length_multiplier());
			let mut era = 0u128; let mut bal = balances();
			for _ in 0..r.range(30, 80) {
				let w = *r.pick(&users);
				match r.below(100) {
					0..=14 => {
						let root = r.chance(70); let o = if root { RuntimeOrigin::root() } else if r.chance(50) { sg(w) } else { RuntimeOrigin::none() };
						let (what, res) = match r.below(3) {
							0 => { let v = U256::from(r.u128()) << r.below(129) as usize; let x = tx(|| FeeControl::set_evm_base_fee(o, v)); if root { base = v } ("base fee", x) },
							1 => { let v = Perbill::from_parts(match r.below(4) { 0 => 0, 1 => 1_000_000_000, _ => r.u32() % 1_000_000_001 }); let x = tx(|| FeeControl::set_weight_multiplier(o, v)); if root { wm = v } ("weight multiplier", x) },
							_ => { let v = match r.below(4) { 0 => 0, 1 => r.u128(), _ => r.u64() as u128 >> r.below(60) }; let x = tx(|| FeeControl::set_length_multiplier(o, v)); if root { lm = v } ("length multiplier", x) },
						};
						vk::op(format!("set {what} root {root} -> {res:?}")); vk::hit(if root { "set_ok" } else { "set_rejected" });
						ensure_eq!(C, res.is_ok(), root, "set", "set {what} by {}", if root { "root" } else { "someone else" });
						ensure!(C, FeeControl::base_fee_per_gas() == base && <FeeControl as FeeConfig>::evm_base_fee_per_gas() == base && <FeeControl as FeeConfig>::weight_multiplier() == wm && <FeeControl as FeeConfig>::length_multiplier() == lm && <FeeControl as fp_evm::FeeCalculator>::min_gas_price().0 == base, "config", "fee configuration after setting the {what}");
					},
					15..=44 => {
						// fees are the configured multiple of the weight / length, and grow with it
						let (a, b) = { let (x, y) = (num(r), num(r)); (x.min(y), x.max(y)) };
						let f = |x: u64, p: u64| vk::guard("weight_to_fee", || FeeControl::weight_to_fee(&Weight::from_parts(x, p)));
						let (fa, fb) = (f(a, 0), f(b, r.u64()));
						vk::op(format!("weights {a} {b} -> {fa} {fb}")); vk::hit("weight_fee");
						ensure!(C, fa <= fb, "weight-monotone", "fee of weight {a} is {fa}, of weight {b} only {fb} (multiplier {wm:?})");
						for (x, y) in [(a, fa), (b, fb)] {
							let exact = x as u128 * wm.deconstruct() as u128; let got = U256::from(y) * U256::from(1_000_000_000u64); let d = if got > U256::from(exact) { got - U256::from(exact) } else { U256::from(exact) - got };
							ensure!(C, d < U256::from(1_000_000_000u64), "weight-exact", "fee of weight {x} at {wm:?} is {y}");
							if wm == Perbill::one() { ensure_eq!(C, y, x as u128, "weight-exact", "fee at multiplier one") }
						}
						let l = |x: u64| vk::guard("length_to_fee", || FeeControl::length_to_fee(&Weight::from_parts(x, 0)));
						let (la, lb) = (l(a), l(b)); vk::hit("length_fee");
						ensure!(C, la <= lb, "length-monotone", "fee of length {a} is {la}, of length {b} only {lb} (multiplier {lm})");
						for (x, y) in [(a, la), (b, lb)] { ensure!(C, U256::from(y) == (U256::from(x) * U256::from(lm)).min(U256::from(u128::MAX)), "length-exact", "fee of length {x} at {lm} is {y}") }
					},
					45..=64 => {
						// conversions between 18 decimals and the ledger's
						let d = r.below(19) as u8; let unit = U256::from(10).pow(U256::from(18 - d));
						let v = match r.below(6) { 4 => U256::from_big_endian(&r.bytes(32)) >> r.below(256) as usize, 5 => U256::MAX - U256::from(r.below(3)), 0 => U256::from(r.u128()), 1 => U256::from(r.u64()), 2 => unit * U256::from(r.u32()), _ => unit * U256::from(r.u32()) + U256::from(1) };
						let q = vk::guard("scale_wei_to_correct_decimals", || scale_wei_to_correct_decimals(v, d)); vk::hit("scaled");
						if v / unit >= U256::from(u128::MAX) { ensure!(C, q == u128::MAX, "scale-saturates", "{v} wei scaled to {q} at {d} decimals"); vk::hit("scaled_beyond"); continue }
						ensure!(C, U256::from(q) * unit >= v, "scale-under", "{v} wei scaled to {q} at {d} decimals: under-charged");
						ensure!(C, U256::from(q) * unit < v + unit, "scale-over", "{v} wei scaled to {q} at {d} decimals: over a unit lost");
						let back = r.u64() as u128; let wei = scale_decimals_to_wei(U256::from(back), d);
						ensure!(C, U256::from(wei) == U256::from(back) * unit && scale_wei_to_correct_decimals(U256::from(wei), d) == back, "scale-roundtrip", "{back} at {d} decimals is {wei} wei");
					},
					65..=84 => {
						// a fee is taken from one or two payers, part of it refunded, and the rest settled into the pot
						let xrp = r.chance(75); let a: AssetId = if xrp { 2 } else { 1 };
						let have = bal.get(&(a, w)).copied().unwrap_or(0); if have == 0 { continue }
						let fee = match r.below(4) { 0 => have, 1 => 0, _ => 1 + r.u128() % have }; let refund = if r.chance(40) && fee > 0 { r.u128() % (fee + 1) } else { 0 };
						vk::op(format!("fee {fee} of asset {a}, refund {refund}"));
						let total = issuance(a);
						if xrp {
							let Ok(neg) = XrpCurrency::withdraw(&w, fee, WithdrawReasons::TRANSACTION_PAYMENT, ExistenceRequirement::AllowDeath) else { vk::fail("withdraw", format!("fee {fee} of {have} could not be withdrawn")) };
							let (back, keep) = neg.split(refund);
							XrpCurrency::resolve_creating(&w, back);
							if r.chance(50) { let (x, y) = keep.split(fee / 3); <Pot as OnUnbalanced<_>>::on_unbalanceds(vec![x, y].into_iter()) } else { Pot::on_unbalanced(keep) }
							era += fee - refund;
						} else {
							let Ok(neg) = <Balances as Currency<_>>::withdraw(&w, fee, WithdrawReasons::TRANSACTION_PAYMENT, ExistenceRequirement::AllowDeath) else { vk::fail("withdraw", format!("fee {fee} of {have} could not be withdrawn")) };
							let (back, keep) = neg.split(refund);
							<Balances as Currency<_>>::resolve_creating(&w, back); Pot::on_unbalanced(keep);
						}
						mv(&mut bal, a, w, pot, fee - refund); vk::hit("fee_collected");
						ensure_eq!(C, issuance(a), total, "fee-issuance", "issuance of asset {a} after a fee of {fee}");
					},
					85..=92 => {
						// a reward is created and charged to the pot
						let xrp = r.chance(60); let a: AssetId = if xrp { 2 } else { 1 }; let inpot = bal.get(&(a, pot)).copied().unwrap_or(0); if inpot == 0 { continue }
						let v = 1 + r.u128() % inpot; let total = issuance(a);
						if xrp { let p = XrpCurrency::deposit_creating(&w, v); Pot::on_unbalanced(p) } else { let p = <Balances as Currency<_>>::deposit_creating(&w, v); Pot::on_unbalanced(p) }
						vk::op(format!("reward {v} of asset {a} from the pot ({inpot})")); mv(&mut bal, a, pot, w, v); vk::hit("payout_burn");
						ensure_eq!(C, issuance(a), total, "reward-issuance", "issuance of asset {a} after a reward of {v}");
					},
					_ => {
						let (p, rest) = <Pot as pallet_staking::EraPayout<Balance>>::era_payout(r.u128(), r.u128(), r.u64()); vk::op(format!("era payout {p}")); vk::hit("era_paid");
						ensure!(C, p == era && rest == 0, "era-payout", "era payout {p} (remainder {rest}), fees of the era {era}"); era = 0;
					},
				}
				ensure_eq!(C, Pot::era_pot_balance(), era, "era-fees", "fees recorded for this era");
				let b = balances(); vk::hit("monitor_evaluations"); if b != bal && vk::any(C) { vk::fail("balances", diff(&bal, &b)) }
				ensure_eq!(C, Pot::total_pot_balance(), bal.get(&(1, pot)).copied().unwrap_or(0), "pot-balance", "reported pot balance");
				vk::state(&(era > 0, wm.deconstruct() >> 20, lm == 0));
			}
		});
	});
}
