use super::*;
use frame_support::traits::{Get, Hooks};
use frame_support::weights::Weight;
use frame_support::{storage_alias, Twox64Concat};
use pallet_migration::{BlockDelay, BlockLimit, LastKey, MigrationEnabled, MigrationStatus, Status, WeightInfo};
use seed_pallet_common::Migrator;
use seed_primitives::migration::{MigrationStep, MigrationStepResult};
use std::cell::RefCell;

const C: &[&str] = &["C28"];
#[storage_alias] pub type Items<T: pallet_migration::Config> = StorageMap<pallet_migration::Pallet<T>, Twox64Concat, u32, u32>;
#[storage_alias] pub type Version<T: pallet_migration::Config> = StorageValue<pallet_migration::Pallet<T>, u16, frame_support::pallet_prelude::ValueQuery>;
/// what one migration did, observed from inside its steps
#[derive(Default)] struct Obs { visits: BTreeMap<u32, u32>, steps: u32, weights: Weight, max: Weight, target: u16, completed: u32, overlap: bool }
thread_local! { static O: RefCell<Obs> = RefCell::new(Obs::default()); static MAXW: RefCell<Weight> = RefCell::new(Weight::zero()); }
fn o<R>(f: impl FnOnce(&mut Obs) -> R) -> R { O.with(|x| f(&mut x.borrow_mut())) }
pub struct MaxWeight;
impl frame_support::traits::Get<Weight> for MaxWeight { fn get() -> Weight { MAXW.with(|m| *m.borrow()) } }
pub struct Mig;
impl MigrationStep for Mig {
	const TARGET_VERSION: u16 = 1;
	fn version_check() -> bool { Version::<Test>::get() == o(|o| o.target) }
	fn on_complete() { Version::<Test>::put(o(|o| { o.completed += 1; o.target })) }
	fn max_step_weight() -> Weight { o(|o| o.max) }
	fn step(last_key: Option<Vec<u8>>) -> MigrationStepResult {
		let first = last_key.is_none();
		let mut it = if let Some(k) = last_key { Items::<Test>::iter_from(k) } else { Items::<Test>::iter() };
		// a step may use less than the declared maximum
		let w = o(|o| { if first && o.steps > 0 && !o.visits.is_empty() { o.overlap = true } o.steps += 1; let m = o.max; let w = match o.steps % 3 { 0 => m, 1 => Weight::from_parts(m.ref_time() / 2, m.proof_size()), _ => Weight::from_parts(m.ref_time(), m.proof_size() / 3) }; o.weights = o.weights.saturating_add(w); w });
		match it.next() {
			Some((k, v)) => { Items::<Test>::insert(k, v.wrapping_add(1)); o(|o| *o.visits.entry(k).or_insert(0) += 1); MigrationStepResult::continue_step(w, Items::<Test>::hashed_key_for(k)) },
			None => MigrationStepResult::finish_step(w),
		}
	}
}
fn fits(a: Weight, b: Weight) -> bool { a.ref_time() <= b.ref_time() && a.proof_size() <= b.proof_size() }

pub fn run() {
	vk::episodes(vk::tier(4000, 80000), |_, r| {
		TestExt::<Test>::default().build().execute_with(|| {
			O.with(|x| *x.borrow_mut() = Obs::default());
			let base = <() as WeightInfo>::migrate();
			let rounds = 1 + r.below(2) as u16;
			let n = r.below(40) as u32; for _ in 0..n { Items::<Test>::insert(r.u32() % 1000, r.u32()); }
			let (mut enabled, mut delay, mut limit) = (false, None::<u32>, 100u32);
			MAXW.with(|m| *m.borrow_mut() = if r.chance(50) { Weight::MAX } else { Weight::from_parts(base.ref_time() + r.below(60_000), base.proof_size() + r.below(30_000)) });
			let mut block = 0u64; let mut done_total = 0u32; let mut progress = MigrationStatus::NoMigrationInProgress;
			for round in 1..=rounds {
				o(|o| { o.visits.clear(); o.steps = 0; o.weights = Weight::zero(); o.target = round; o.overlap = false; o.max = Weight::from_parts(r.below(5000), r.below(3000)); });
				let items: Vec<u32> = Items::<Test>::iter_keys().collect();
				let before = Items::<Test>::iter().collect::<BTreeMap<_, _>>();
				vk::guard("on_runtime_upgrade", || { Migration::on_runtime_upgrade(); }); vk::op(format!("upgrade to {round} with {} items", items.len()));
				if round > 1 { vk::hit("restarted") }
				progress = MigrationStatus::InProgress { steps_done: 0 }; done_total = 0;
				ensure_eq!(C, Status::<Test>::get(), progress, "start", "status after an upgrade that needs a migration");
				for _ in 0..400 {
					if progress == MigrationStatus::Completed { break }
					match r.below(100) {
						0..=5 => { let v = r.chance(60); let root = r.chance(85); let res = tx(|| Migration::enable_migration(if root { RuntimeOrigin::root() } else { sg(create_account(1)) }, v)); ensure_eq!(C, res.is_ok(), root, "origin", "enable_migration {res:?}"); if root { enabled = v; } vk::op(format!("enable {v} {root}")); },
						6..=9 => { let v = if r.chance(40) { None } else { Some(r.below(6) as u32) }; let root = r.chance(85); let res = tx(|| Migration::set_block_delay(if root { RuntimeOrigin::root() } else { sg(create_account(1)) }, v)); let ok = root && v.map_or(true, |d| d > 1); ensure_eq!(C, res.is_ok(), ok, "delay", "set_block_delay {v:?}: {res:?}"); if ok { delay = v } vk::op(format!("delay {v:?} {root}")); },
						10..=13 => { let v = match r.below(5) { 0 => 0, 1 => 1, 2 => u32::MAX, _ => 1 + r.below(9) as u32 }; let root = r.chance(85); let res = tx(|| Migration::set_block_limit(if root { RuntimeOrigin::root() } else { sg(create_account(1)) }, v)); let ok = root && v > 0; ensure_eq!(C, res.is_ok(), ok, "limit", "set_block_limit {v}: {res:?}"); if ok { limit = v } vk::op(format!("limit {v} {root}")); },
						14..=15 => { vk::guard("on_runtime_upgrade", || { Migration::on_runtime_upgrade(); }); vk::op("another upgrade while migrating"); vk::hit("upgrade_during_migration"); },
						_ => {
							block += 1; System::set_block_number(block);
							let max = o(|o| o.max);
							let rem = match r.below(8) {
								0 => Weight::zero(), 1 => Weight::MAX, 2 => base.saturating_add(max), 3 => Weight::from_parts(base.ref_time() + max.ref_time() * r.below(9), u64::MAX), 4 => Weight::from_parts(u64::MAX, base.proof_size() + max.proof_size() * r.below(9)),
								5 => Weight::from_parts(base.ref_time() + r.below(30_000), base.proof_size() + r.below(20_000)), 6 => Weight::from_parts(r.below(base.ref_time() + max.ref_time() + 9), base.proof_size() + r.below(20_000)), _ => Weight::from_parts(base.ref_time() + max.ref_time() * 4 + r.below(9), base.proof_size() + max.proof_size() * 4 + r.below(9)) };
							let budget = Weight::from_parts(rem.ref_time().min(MaxWeight::get().ref_time()), rem.proof_size().min(MaxWeight::get().proof_size()));
							let (s0, w0, v0) = o(|o| (o.steps, o.weights, o.visits.len()));
							let used = vk::guard("on_idle", || Migration::on_idle(block, rem));
							let (s1, w1, _) = o(|o| (o.steps, o.weights, o.visits.len()));
							let k = s1 - s0; vk::hit_n("steps", k as u64);
							vk::op(format!("block {block} remaining {rem:?}: {k} steps, used {used:?}"));
							let may = enabled && delay.map_or(true, |d| block % d as u64 == 0) && fits(base.saturating_add(max), budget);
							if !may { ensure!(C, k == 0, "ran", "{k} steps ran while the migration was paused, delayed or without budget (enabled {enabled}, delay {delay:?}, block {block}, remaining {rem:?}, one step needs {:?})", base.saturating_add(max)); vk::hit(if !enabled { "paused" } else if fits(base.saturating_add(max), budget) { "delayed" } else { "budget_stopped" }); }
							else {
								ensure!(C, k >= 1, "stalled", "no step ran although enabled with budget {budget:?}");
								ensure!(C, k <= limit, "block-limit", "{k} steps in one block, limit {limit}"); if k == limit { vk::hit("limit_stopped") }
								let sum = base.saturating_add(Weight::from_parts(w1.ref_time() - w0.ref_time(), w1.proof_size() - w0.proof_size()));
								ensure!(C, used == sum, "weight-reported", "reported {used:?}, used {sum:?}");
							}
							ensure!(C, fits(used, budget) || k == 0 && !fits(base, budget), "over-budget", "used {used:?} of a budget of {budget:?} (remaining {rem:?}) in {k} steps");
							done_total += k;
							let finished = o(|o| o.completed) as u16 == round;
							progress = if finished { MigrationStatus::Completed } else { MigrationStatus::InProgress { steps_done: done_total } };
							vk::state(&(v0, k, limit, delay, enabled));
						},
					}
					ensure_eq!(C, Status::<Test>::get(), progress, "status", "status with {done_total} steps done");
					ensure!(C, MigrationEnabled::<Test>::get() == enabled && BlockDelay::<Test>::get() == delay && BlockLimit::<Test>::get() == limit, "config", "configuration");
					let running = progress != MigrationStatus::Completed; ensure_eq!(C, <Migration as Migrator>::ensure_migrated().is_err(), running, "guarded-calls", "calls refused while migrating"); if running { vk::hit("blocked") }
					ensure!(C, o(|o| o.visits.values().all(|v| *v == 1)), "visited-twice", "an item was migrated twice: {:?}", o(|o| o.visits.clone()));
					ensure!(C, !o(|o| o.overlap), "restarted", "the migration started over after {done_total} steps");
				}
				if progress != MigrationStatus::Completed {
					let _ = tx(|| Migration::enable_migration(RuntimeOrigin::root(), true)); let _ = tx(|| Migration::set_block_delay(RuntimeOrigin::root(), None)); let _ = tx(|| Migration::set_block_limit(RuntimeOrigin::root(), 50)); (enabled, delay, limit) = (true, None, 50); MAXW.with(|m| *m.borrow_mut() = Weight::MAX);
					for _ in 0..40 { block += 1; Migration::on_idle(block, Weight::MAX); if o(|o| o.completed) as u16 == round { break } }
					ensure!(C, Status::<Test>::get() == MigrationStatus::Completed, "never-completes", "migration of {} items did not complete", items.len());
				}
				vk::hit("completed");
				let after = Items::<Test>::iter().collect::<BTreeMap<_, _>>();
				for k in &items { ensure!(C, o(|o| o.visits.get(k).copied()) == Some(1) && after.get(k).copied() == before.get(k).map(|v| v.wrapping_add(1)), "missed", "item {k} was migrated {:?} times", o(|o| o.visits.get(k).copied())); }
				ensure!(C, o(|o| o.visits.len()) == items.len() && LastKey::<Test>::get().is_none() && o(|o| o.completed) as u16 == round, "cleanup", "after completion {} visited of {}, cursor {:?}", o(|o| o.visits.len()), items.len(), LastKey::<Test>::get());
				ensure!(C, events().iter().filter(|e| matches!(e, RuntimeEvent::Migration(pallet_migration::Event::MigrationComplete { items_migrated }) if *items_migrated == o(|o| o.steps))).count() <= 1, "complete-event", "completion reported more than once");
				// nothing more happens afterwards
				let s = o(|o| o.steps); let _ = tx(|| Migration::enable_migration(RuntimeOrigin::root(), true)); enabled = true; block += 60; Migration::on_idle(block - block % 60, Weight::MAX); ensure!(C, o(|o| o.steps) == s, "ran-after-completion", "steps ran after completion");
				if r.chance(50) { Migration::on_runtime_upgrade(); ensure_eq!(C, Status::<Test>::get(), MigrationStatus::NoMigrationInProgress, "no-migration", "status after an upgrade without migration"); ensure!(C, <Migration as Migrator>::ensure_migrated().is_ok(), "guarded-calls", "calls refused without migration"); }
			}
			let _ = (progress, done_total);
		});
	});
}
