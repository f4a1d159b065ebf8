//! C19 on the runtime's own idea of eras: the bridge's signers change once per era, at its end, announced before.
//! Sessions and eras follow pallet-session's and pallet-staking's order of events; what they tell the bridge is real code's to use.
use crate::rt::*;
use crate::*;
use frame_support::traits::OneSessionHandler;
use pallet_staking::Forcing;
use seed_runtime::{EthBridge, Scheduler};
use seed_primitives::ethy::crypto::AuthorityId;
const P: [&str; 1] = ["C19"];
const P11: [&str; 1] = ["C11"];
type Keys = Vec<AuthorityId>;
struct World { session: u32, era: u32, planned: u32, start: BTreeMap<u32, u32>, cur: Keys, queued: Keys, born: u32, /// eras begun since the last interference
	calm: i32, always: bool, changes: u32, set_id: u64, signed: Keys, told: Option<(u64, u32, Keys)> }
fn keys(rng: &mut Rng, old: &Keys) -> Keys {
	let mut v = if rng.chance(60) { old.clone() } else { vec![] };
	let fresh = |rng: &mut Rng| AuthorityId::from(pair(5000 + rng.below(40)).public());
	let n = rng.range(1, 7) as usize; while v.len() < n { let k = fresh(rng); if !v.contains(&k) { v.push(k) } } v.truncate(n); rng.shuffle(&mut v); v
}
fn notary() -> Keys { pallet_ethy::NotaryKeys::<Runtime>::get().into_inner() }
fn paused() -> bool { pallet_ethy::BridgePaused::<Runtime>::get().authorities_change }
fn announced() -> Vec<(u64, u64)> { events().into_iter().filter_map(|e| if let RuntimeEvent::EthBridge(pallet_ethy::Event::AuthoritySetChange { event_proof_id, validator_set_id }) = e { Some((event_proof_id, validator_set_id)) } else { None }).collect() }
fn final_now() -> bool { use seed_pallet_common::FinalSessionTracker; <<Runtime as pallet_ethy::Config>::FinalSessionTracker as FinalSessionTracker>::is_active_session_final() }
fn force() -> Forcing { pallet_staking::ForceEra::<Runtime>::get() }
impl World {
	/// what happened between two looks: announcements and changes of the signers
	fn look(&mut self, at: &str) {
		let n = System::block_number(); let a = announced();
		ensure!(P, a.len() <= 1, "announced-twice", "{at}: {a:?}");
		if let Some((proof, id)) = a.first() {
			ensure!(P, *id == self.set_id + 1, "announced-id", "{at}: set {} announces {id}", self.set_id);
			if let Some((p, _, _)) = &self.told { ensure!(P, proof > p, "proof-id", "{at}: proof {proof} after {p}") }
			ensure!(P, pallet_ethy::NotarySetProofId::<Runtime>::get() == *proof, "proof-recorded", "{at}: {proof} not recorded");
			ensure!(P, paused(), "no-pause", "{at}: announced without a pause");
			self.told = Some((*proof, n, pallet_ethy::NextNotaryKeys::<Runtime>::get().into_inner())); vk::hit("announced");
		}
		let id = pallet_ethy::NotarySetId::<Runtime>::get(); let now = notary();
		if id != self.set_id {
			ensure!(P, id == self.set_id + 1, "set-id", "{at}: {} -> {id}", self.set_id);
			let Some((_, _, k)) = self.told.take() else { vk::fail("C19", format!("{at}: signers changed without an announcement")) };
			ensure!(P, k == now, "other-signers", "{at}: announced {k:?}, signing {now:?}");
			ensure!(P, !paused(), "still-paused", "{at}: new signers, and the bridge is still paused");
			self.changes += 1; self.set_id = id; self.signed = now; vk::hit("signers_changed");
		} else { ensure!(P, now == self.signed, "silent", "{at}: signers changed under set {id}") }
		ensure!(P, paused() == self.told.is_some(), "pause", "{at}: paused {} told {:?}", paused(), self.told);
		System::reset_events();
	}
	fn block(&mut self, n: u32, at: &str) { System::set_block_number(n); vk::guard("scheduler", || { Scheduler::on_initialize(n); }); vk::guard("bridge", || { EthBridge::on_initialize(n); }); self.look(at); }
	fn rotate(&mut self, rng: &mut Rng) {
		let length = <Runtime as pallet_ethy::Config>::EpochDuration::get() as u32; let delay: u32 = <Runtime as pallet_ethy::Config>::AuthorityChangeDelay::get();
		let per_era: u32 = seed_runtime::SessionsPerEra::get(); let end = self.born + length; let calm = self.calm > 0; let last = self.start.get(&(self.era + 1)) == Some(&(self.session + 1));
		let text = format!("session {} of era {} (started {:?}), last {last}, calm {calm}, {:?}", self.session, self.era, self.start.get(&self.era), force()); vk::op(text.clone());
		let begun = self.changes; let told = self.told.is_some(); let heir = self.queued.clone();
		if calm { ensure!(P, final_now() == last, "final", "{text}: the runtime says {}", final_now()) }
		// the life of the session: the blocks where something may happen and some others
		let mut stops: Vec<u32> = vec![self.born + 1, self.born + delay - 1, self.born + delay, self.born + delay + 1, end - delay - 1, end - delay, end - delay + 1, end - 1];
		for _ in 0..3 { stops.push(self.born + 1 + rng.below(length as u64 - 2) as u32) } stops.sort(); stops.dedup();
		let meddle = if rng.chance(if self.always { 0 } else { 6 }) { Some(*rng.pick(&stops)) } else { None };
		let mut when = None;
		for s in stops {
			let was = self.told.is_some(); self.block(s, &text); if !was && self.told.is_some() { when = Some(s) }
			if meddle == Some(s) { let f = if rng.chance(70) { Forcing::ForceNew } else { self.always = true; Forcing::ForceAlways }; vk::op(format!("at {s}: {f:?}")); pallet_staking::ForceEra::<Runtime>::put(f); self.calm = -(last as i32); vk::hit(if self.always { "forced_always" } else { "forced_once" }) }
			if rng.chance(3) { let x = UncheckedExtrinsic::new_unsigned(Call::EthBridge(pallet_ethy::Call::finalise_authorities_change { next_notary_keys: frame_support::WeakBoundedVec::force_from(vec![AuthorityId::from(pair(9999).public())], None) })); let st = state(); let p = pool(x.clone()); let o = apply(x); ensure!(P, o.invalid() && p.is_err() && st == state(), "usurped", "{text}: anybody can name the signers: {o:?} {p:?}"); let r = peek_signed(); ensure!(P, r.is_err(), "usurped", "{text}: a signed account can name the signers"); vk::hit("usurper") }
		}
		if calm && meddle.is_none() { ensure!(P, when == if last && !told { Some(end - delay) } else { None }, "announce-time", "{text}: announced at {when:?}, not at {}", end - delay) }
		// the end
		System::set_block_number(end); System::reset_events();
		let forced_now = matches!(force(), Forcing::ForceNew | Forcing::ForceAlways);
		vk::guard("on_before_session_ending", || <EthBridge as OneSessionHandler<AccountId>>::on_before_session_ending()); self.look(&format!("end of {text}"));
		if calm && meddle.is_none() {
			ensure!(P, self.changes == begun + last as u32, "era-end", "{text}: {} changes", self.changes - begun);
			if last { ensure!(P, notary() == heir, "era-signers", "{text}: {:?} instead of the next era's {heir:?}", notary()); vk::hit("era_ended") } else { vk::hit("session_ended") }
		} else if forced_now { ensure!(P, self.told.is_some() || self.changes > begun, "forced", "{text}: a forced era was not announced"); vk::hit("forced_announced") }
		// staking: end and start
		self.session += 1; pallet_session::CurrentIndex::<Runtime>::put(self.session);
		if self.start.get(&(self.era + 1)) == Some(&self.session) { self.era += 1; pallet_staking::ActiveEra::<Runtime>::put(pallet_staking::ActiveEraInfo { index: self.era, start: Some(end as u64) }); self.calm += 1; vk::hit("era_started") }
		self.cur = self.queued.clone();
		// planning of the session after this one
		let age = self.session + 1 - self.start[&self.planned];
		if matches!(force(), Forcing::ForceNew | Forcing::ForceAlways) || force() == Forcing::NotForcing && age >= per_era {
			self.planned += 1; self.start.insert(self.planned, self.session + 1); pallet_staking::ErasStartSessionIndex::<Runtime>::insert(self.planned, self.session + 1);
			if force() == Forcing::ForceNew { pallet_staking::ForceEra::<Runtime>::put(Forcing::NotForcing) }
			self.queued = keys(rng, &self.cur);
		} else if rng.chance(15) && !self.queued.is_empty() { let i = rng.below(self.queued.len() as u64) as usize; let k = AuthorityId::from(pair(6000 + rng.below(99)).public()); if !self.queued.contains(&k) { self.queued[i] = k; vk::hit("key_replaced") } }
		let who: Vec<AccountId> = (0..10).map(acct).collect(); let pairs = |k: &Keys| who.iter().zip(k.clone()).collect::<Vec<_>>();
		vk::guard("on_new_session", || <EthBridge as OneSessionHandler<AccountId>>::on_new_session(true, pairs(&self.cur).into_iter(), pairs(&self.queued).into_iter())); self.look(&format!("start after {text}"));
		self.born = end;
		vk::state(&(self.session - self.start[&self.era], last, calm, forced_now, told, self.cur.len(), self.queued.len(), self.changes - begun, self.always));
	}
}
fn peek_signed() -> DispatchResult { signed(acct(1), Call::EthBridge(pallet_ethy::Call::finalise_authorities_change { next_notary_keys: frame_support::WeakBoundedVec::force_from(vec![], None) })) }
pub fn run() { vk::episodes(vk::tier(800, 8000), |_, rng| chain(4, || {
	let cur = keys(rng, &vec![]); let who: Vec<AccountId> = (0..10).map(acct).collect();
	<EthBridge as OneSessionHandler<AccountId>>::on_genesis_session(who.iter().zip(cur.clone()).collect::<Vec<_>>().into_iter());
	let era = rng.below(3) as u32; let session = era * seed_runtime::SessionsPerEra::get();
	pallet_session::CurrentIndex::<Runtime>::put(session); pallet_staking::ErasStartSessionIndex::<Runtime>::insert(era, session);
	if era > 0 || rng.chance(70) { pallet_staking::ActiveEra::<Runtime>::put(pallet_staking::ActiveEraInfo { index: era, start: None }) }
	assert_ok!(root(Call::EthBridge(pallet_ethy::Call::set_contract_address { contract_address: H160::repeat_byte(7) })));
	let mut w = World { session, era, planned: era, start: [(era, session)].into_iter().collect(), cur: cur.clone(), queued: cur.clone(), born: System::block_number(), calm: 1, always: false, changes: 0, set_id: pallet_ethy::NotarySetId::<Runtime>::get(), signed: notary(), told: None }; System::reset_events();
	<EthBridge as OneSessionHandler<AccountId>>::on_new_session(false, who.iter().zip(cur.clone()).collect::<Vec<_>>().into_iter(), who.iter().zip(cur.clone()).collect::<Vec<_>>().into_iter());
	for _ in 0..vk::tier(30, 60) { w.rotate(rng) }
})) }
pub const REQUIRED: &[&str] = &["announced", "signers_changed", "era_ended", "session_ended", "era_started", "forced_once", "forced_always", "forced_announced", "key_replaced", "usurper"];
/// C11: the ledger's approval calls are for the precompiles alone; nobody grants an approval in another's name with a transaction
pub fn approvals() { vk::episodes(vk::tier(400, 2000), |_, rng| chain(4, || {
	use pallet_token_approvals::Call as T;
	let coll = pallet_nft::Pallet::<Runtime>::next_collection_uuid().unwrap();
	assert_ok!(signed(acct(0), Call::Nft(pallet_nft::Call::create_collection { name: b"x".to_vec().try_into().unwrap(), initial_issuance: 3, max_issuance: None, token_owner: None, metadata_scheme: seed_primitives::MetadataScheme::try_from(b"https://a/".as_slice()).unwrap(), royalties_schedule: None, cross_chain_compatibility: Default::default() })));
	assert_ok!(Call::TokenApprovals(T::erc721_approval { caller: acct(0), operator_account: acct(3), token_id: (coll, 1) }).dispatch(RuntimeOrigin::none()).map(|_| ()).map_err(|e| e.error));
	for _ in 0..vk::tier(40, 80) {
		let caller = acct(rng.below(3)); let to = acct(rng.below(4)); let serial = rng.below(4) as u32; let k = rng.below(6);
		let c = Call::TokenApprovals(match k { 0 => T::erc721_approval { caller, operator_account: to, token_id: (coll, serial) }, 1 => T::erc721_remove_approval { token_id: (coll, 1) }, 2 => T::erc20_approval { caller, spender: to, asset_id: XRP, amount: rng.u128() }, 3 => T::erc20_update_approval { caller, spender: to, asset_id: XRP, amount: 0 }, 4 => T::erc1155_approval_for_all { caller, operator_account: to, collection_uuid: coll, approved: true }, _ => T::erc721_approval_for_all { caller, operator_account: to, collection_uuid: coll, approved: true } });
		let how = rng.below(6); let from = if k == 1 { 1 + rng.below(3) } else { rng.below(4) }; let text = format!("{c:?} how {how}"); vk::op(text.clone());
		let watch = || (pallet_token_approvals::ERC721Approvals::<Runtime>::iter().map(|x| x.encode()).collect::<BTreeSet<_>>(), pallet_token_approvals::ERC20Approvals::<Runtime>::iter().map(|x| x.encode()).collect::<BTreeSet<_>>(), pallet_token_approvals::ERC721ApprovalsForAll::<Runtime>::iter().map(|x| x.encode()).chain(pallet_token_approvals::ERC1155ApprovalsForAll::<Runtime>::iter().map(|x| x.encode())).collect::<BTreeSet<_>>());
		let before = watch();
		match how {
			0 | 1 => { let x = UncheckedExtrinsic::new_unsigned(c); let p = pool(x.clone()); let o = apply(x); ensure!(P11, o.invalid() && p.is_err(), "bare", "{text}: {o:?} {p:?}"); vk::hit("bare_refused") },
			2 => { let o = submit(from, c); ensure!(P11, !o.ok(), "signed", "{text}: {o:?}"); vk::hit("signed_refused") },
			3 => { let o = submit(from, Call::Utility(pallet_utility::Call::batch { calls: vec![c] })); let _ = o; vk::hit("batched") },
			4 => { let _ = sudo(c); vk::hit("root_refused") },
			_ => { let _ = submit(from, Call::FeeProxy(pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: XRP, max_payment: 1 << 60, call: Box::new(c) })); vk::hit("with_preferences") },
		}
		ensure!(P11, watch() == before, "granted", "{text}: an approval changed");
		vk::state(&(k, how, caller == to, serial));
	}
})) }
pub const REQUIRED_APPROVALS: &[&str] = &["bare_refused", "signed_refused", "batched", "root_refused", "with_preferences"];
